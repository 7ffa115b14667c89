// ---------------------------------------------------------------------------
// simd64_512.rs: the intrinsics the 64-bit kernels use on 512-bit registers, by Intel's definition of each (assumed).
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct __m512i { pub w: [u64; 8] }
impl View for __m512i {
    type V = Seq<u64>;
    open spec fn view(&self) -> Seq<u64> { self.w@ }
}
#[derive(Clone, Copy)]
pub struct __m256i { pub w: [u64; 4] }
impl View for __m256i {
    type V = Seq<u64>;
    open spec fn view(&self) -> Seq<u64> { self.w@ }
}
pub open spec fn vw(v: Seq<__m512i>) -> Seq<Seq<u64>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn _mm512_loadu_si512(s: &[u8]) -> (r: __m512i)
    requires s.len() >= 64,
    ensures r@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == of_le8(s@.subrange(8 * i, 8 * i + 8)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_storeu_si256(d: &mut [u8], a: __m256i)
    requires old(d).len() >= 32,
    ensures final(d)@ == lebytes(a@) + old(d)@.subrange(32, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_castsi512_si256(a: __m512i) -> (r: __m256i)
    ensures r@ == a@.subrange(0, 4),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_add_epi64(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_xor_si512(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_set1_epi64(x: i64) -> (r: __m512i)
    ensures r@ == vset1(8, x as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_ror_epi64(a: __m512i, n: i32) -> (r: __m512i)
    requires 0 < n < 64,
    ensures r@ == vrot(a@, n as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_unpacklo_epi64(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == seq![a@[0], b@[0], a@[2], b@[2], a@[4], b@[4], a@[6], b@[6]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_unpackhi_epi64(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == seq![a@[1], b@[1], a@[3], b@[3], a@[5], b@[5], a@[7], b@[7]],
{ unimplemented!() }
pub open spec fn quarter(a: Seq<u64>, c: int) -> Seq<u64> { seq![a[2 * c], a[2 * c + 1]] }
#[verifier::external_body]
pub fn _mm512_shuffle_i32x4(a: __m512i, b: __m512i, imm: i32) -> (r: __m512i)
    requires 0 <= imm < 256,
    ensures r@ == quarter(a@, imm as int % 4) + quarter(a@, imm as int / 4 % 4) + quarter(b@, imm as int / 16 % 4) + quarter(b@, imm as int / 64),
{ unimplemented!() }
}
