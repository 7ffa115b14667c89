// ---------------------------------------------------------------------------
// simd64_neon.rs: the NEON intrinsics the 64-bit kernel uses, by Arm's definition of each
// (assumed, little-endian), on vectors of two 64-bit lanes.
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct uint64x2_t { pub w: [u64; 2] }
impl View for uint64x2_t {
    type V = Seq<u64>;
    open spec fn view(&self) -> Seq<u64> { self.w@ }
}
pub open spec fn vw(v: Seq<uint64x2_t>) -> Seq<Seq<u64>> { Seq::new(v.len(), |i: int| v[i]@) }

// memcpy between a register and bytes
#[verifier::external_body]
pub fn vx_memcpyv_8(d: &mut [uint64x2_t], s: &[u8], n: u64)
    requires n == 16, s.len() >= 16, old(d).len() == 1,
    ensures final(d).len() == 1, final(d)@[0]@.len() == 2, forall|i: int| 0 <= i < 2 ==> #[trigger] final(d)@[0]@[i] == of_le8(s@.subrange(8 * i, 8 * i + 8)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_memcpy8_v(d: &mut [u8], s: &[uint64x2_t], n: u64)
    requires n == 16, s.len() == 1, old(d).len() >= 16,
    ensures final(d)@ == lebytes(s@[0]@) + old(d)@.subrange(16, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vld1q_dup_u64(s: &[u64]) -> (r: uint64x2_t)
    requires s.len() >= 1,
    ensures r@ == vset1(2, s@[0]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vdupq_n_u64(x: u64) -> (r: uint64x2_t)
    ensures r@ == vset1(2, x),
{ unimplemented!() }
#[verifier::external_body]
pub fn vld1q_u64(s: &[u64]) -> (r: uint64x2_t)
    requires s.len() >= 2,
    ensures r@ == s@.subrange(0, 2),
{ unimplemented!() }
#[verifier::external_body]
pub fn vaddq_u64(a: uint64x2_t, b: uint64x2_t) -> (r: uint64x2_t)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn veorq_u64(a: uint64x2_t, b: uint64x2_t) -> (r: uint64x2_t)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vorrq_u64(a: uint64x2_t, b: uint64x2_t) -> (r: uint64x2_t)
    ensures r@ == vor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vshrq_n_u64(a: uint64x2_t, n: i32) -> (r: uint64x2_t)
    requires 0 < n < 64,
    ensures r@ == vshr(a@, n as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn vshlq_n_u64(a: uint64x2_t, n: i32) -> (r: uint64x2_t)
    requires 0 <= n < 64,
    ensures r@ == vshl(a@, n as u64),
{ unimplemented!() }

} // verus!
