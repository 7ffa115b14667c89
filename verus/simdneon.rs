// ---------------------------------------------------------------------------
// simdneon.rs: the NEON intrinsics the kernel uses, by Arm's definition of each
// (assumed, little-endian), on vectors of four 32-bit lanes.
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct uint32x4_t { pub w: [u32; 4] }
impl View for uint32x4_t {
    type V = Seq<u32>;
    open spec fn view(&self) -> Seq<u32> { self.w@ }
}
#[derive(Clone, Copy)]
pub struct uint32x2_t { pub w: [u32; 2] }
impl View for uint32x2_t {
    type V = Seq<u32>;
    open spec fn view(&self) -> Seq<u32> { self.w@ }
}
#[derive(Clone, Copy)]
pub struct uint32x4x2_t { pub val: [uint32x4_t; 2] }
pub open spec fn vw(v: Seq<uint32x4_t>) -> Seq<Seq<u32>> { Seq::new(v.len(), |i: int| v[i]@) }

// memcpy between a register and bytes
#[verifier::external_body]
pub fn vx_memcpyv_8(d: &mut [uint32x4_t], s: &[u8], n: u64)
    requires n == 16, s.len() >= 16, old(d).len() == 1,
    ensures final(d).len() == 1, final(d)@[0]@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] final(d)@[0]@[i] == of_le4(s@.subrange(4 * i, 4 * i + 4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_memcpy8_v(d: &mut [u8], s: &[uint32x4_t], n: u64)
    requires n == 16, s.len() == 1, old(d).len() >= 16,
    ensures final(d)@ == lebytes(s@[0]@) + old(d)@.subrange(16, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vld1q_dup_u32(s: &[u32]) -> (r: uint32x4_t)
    requires s.len() >= 1,
    ensures r@ == vset1(4, s@[0]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vdupq_n_u32(x: u32) -> (r: uint32x4_t)
    ensures r@ == vset1(4, x),
{ unimplemented!() }
#[verifier::external_body]
pub fn vld1q_u32(s: &[u32]) -> (r: uint32x4_t)
    requires s.len() >= 4,
    ensures r@ == s@.subrange(0, 4),
{ unimplemented!() }
#[verifier::external_body]
pub fn vaddq_u32(a: uint32x4_t, b: uint32x4_t) -> (r: uint32x4_t)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn veorq_u32(a: uint32x4_t, b: uint32x4_t) -> (r: uint32x4_t)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vorrq_u32(a: uint32x4_t, b: uint32x4_t) -> (r: uint32x4_t)
    ensures r@ == vor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vshrq_n_u32(a: uint32x4_t, n: i32) -> (r: uint32x4_t)
    requires 0 < n < 32,
    ensures r@ == vshr(a@, n as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn vshlq_n_u32(a: uint32x4_t, n: i32) -> (r: uint32x4_t)
    requires 0 <= n < 32,
    ensures r@ == vshl(a@, n as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn vtrnq_u32(a: uint32x4_t, b: uint32x4_t) -> (r: uint32x4x2_t)
    ensures r.val@[0]@ == seq![a@[0], b@[0], a@[2], b@[2]], r.val@[1]@ == seq![a@[1], b@[1], a@[3], b@[3]],
{ unimplemented!() }
#[verifier::external_body]
pub fn vget_low_u32(a: uint32x4_t) -> (r: uint32x2_t)
    ensures r@ == seq![a@[0], a@[1]],
{ unimplemented!() }
#[verifier::external_body]
pub fn vget_high_u32(a: uint32x4_t) -> (r: uint32x2_t)
    ensures r@ == seq![a@[2], a@[3]],
{ unimplemented!() }
#[verifier::external_body]
pub fn vcombine_u32(a: uint32x2_t, b: uint32x2_t) -> (r: uint32x4_t)
    ensures r@ == seq![a@[0], a@[1], b@[0], b@[1]],
{ unimplemented!() }
}
