// ---------------------------------------------------------------------------
// simd512.rs: the AVX-512 intrinsics the kernels use, by Intel's definition of each
// (assumed), and the vectors of sixteen 32-bit lanes they are used on.
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct __m512i { pub w: [u32; 16] }
impl View for __m512i {
    type V = Seq<u32>;
    open spec fn view(&self) -> Seq<u32> { self.w@ }
}
#[derive(Clone, Copy)]
pub struct __m256i { pub w: [u32; 8] }
impl View for __m256i {
    type V = Seq<u32>;
    open spec fn view(&self) -> Seq<u32> { self.w@ }
}
#[verifier::external_body]
pub fn _mm512_loadu_si512(s: &[u8]) -> (r: __m512i)
    requires s.len() >= 64,
    ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == of_le4(s@.subrange(4 * i, 4 * i + 4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_storeu_si256(d: &mut [u8], a: __m256i)
    requires old(d).len() >= 32,
    ensures final(d)@ == lebytes(a@) + old(d)@.subrange(32, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_castsi512_si256(a: __m512i) -> (r: __m256i)
    ensures r@ == a@.subrange(0, 8),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_add_epi32(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_xor_si512(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_set1_epi32(x: i32) -> (r: __m512i)
    ensures r@ == vset1(16, x as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_setr_epi32(a0: i32, a1: i32, a2: i32, a3: i32, a4: i32, a5: i32, a6: i32, a7: i32, a8: i32, a9: i32, a10: i32, a11: i32, a12: i32, a13: i32, a14: i32, a15: i32) -> (r: __m512i)
    ensures r@ == seq![a0 as u32, a1 as u32, a2 as u32, a3 as u32, a4 as u32, a5 as u32, a6 as u32, a7 as u32, a8 as u32, a9 as u32, a10 as u32, a11 as u32, a12 as u32, a13 as u32, a14 as u32, a15 as u32],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_unpacklo_epi32(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == seq![a@[0], b@[0], a@[1], b@[1], a@[4], b@[4], a@[5], b@[5], a@[8], b@[8], a@[9], b@[9], a@[12], b@[12], a@[13], b@[13]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_unpackhi_epi32(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == seq![a@[2], b@[2], a@[3], b@[3], a@[6], b@[6], a@[7], b@[7], a@[10], b@[10], a@[11], b@[11], a@[14], b@[14], a@[15], b@[15]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_unpacklo_epi64(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == seq![a@[0], a@[1], b@[0], b@[1], a@[4], a@[5], b@[4], b@[5], a@[8], a@[9], b@[8], b@[9], a@[12], a@[13], b@[12], b@[13]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_unpackhi_epi64(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@ == seq![a@[2], a@[3], b@[2], b@[3], a@[6], a@[7], b@[6], b@[7], a@[10], a@[11], b@[10], b@[11], a@[14], a@[15], b@[14], b@[15]],
{ unimplemented!() }
pub open spec fn quarter(a: Seq<u32>, c: int) -> Seq<u32> { seq![a[4 * c], a[4 * c + 1], a[4 * c + 2], a[4 * c + 3]] }
#[verifier::external_body]
pub fn _mm512_shuffle_i32x4(a: __m512i, b: __m512i, imm: i32) -> (r: __m512i)
    requires 0 <= imm < 256,
    ensures r@ == quarter(a@, imm as int % 4) + quarter(a@, imm as int / 4 % 4) + quarter(b@, imm as int / 16 % 4) + quarter(b@, imm as int / 64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_permutex2var_epi32(a: __m512i, idx: __m512i, b: __m512i) -> (r: __m512i)
    ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == (a@ + b@)[idx@[i] as int % 32],
{ unimplemented!() }
pub open spec fn vw(v: Seq<__m512i>) -> Seq<Seq<u32>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn _mm512_set1_epi64(x: i64) -> (r: __m512i)
    ensures forall|j: int| 0 <= j < 8 ==> #[trigger] q64(r@, j) == x as u64,
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_loadu_si512_u64(s: &[u64]) -> (r: __m512i)
    requires s.len() >= 8,
    ensures forall|j: int| 0 <= j < 8 ==> #[trigger] q64(r@, j) == s[j],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_add_epi64(a: __m512i, b: __m512i) -> (r: __m512i)
    ensures forall|j: int| 0 <= j < 8 ==> #[trigger] q64(r@, j) == add64(q64(a@, j), q64(b@, j)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm512_ror_epi32(a: __m512i, n: i32) -> (r: __m512i)
    requires 0 < n < 32,
    ensures r@ == vrot(a@, n as u32),
{ unimplemented!() }
}
