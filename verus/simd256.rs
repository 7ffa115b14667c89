// ---------------------------------------------------------------------------
// simd256.rs: the AVX2 intrinsics the kernels use, by Intel's definition of each
// (assumed), and the vectors of 32-bit lanes they are used on.
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct __m256i { pub w: [u32; 8] }
impl View for __m256i {
    type V = Seq<u32>;
    open spec fn view(&self) -> Seq<u32> { self.w@ }
}
pub open spec fn vb128(a: Seq<u32>) -> Seq<u8> { lebytes(a) }
pub open spec fn wb(b: Seq<u8>) -> Seq<u32> { Seq::new((b.len() / 4) as nat, |i: int| of_le4(b.subrange(4 * i, 4 * i + 4))) }

#[verifier::external_body]
pub fn _mm256_loadu_si256(s: &[u8]) -> (r: __m256i)
    requires s.len() >= 32,
    ensures r@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == of_le4(s@.subrange(4 * i, 4 * i + 4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_storeu_si256(d: &mut [u8], a: __m256i)
    requires old(d).len() >= 32,
    ensures final(d)@ == lebytes(a@) + old(d)@.subrange(32, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_add_epi32(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_xor_si256(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_or_si256(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == vor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_srli_epi32(a: __m256i, n: i32) -> (r: __m256i)
    requires 0 <= n < 32,
    ensures r@ == vshr(a@, n as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_slli_epi32(a: __m256i, n: i32) -> (r: __m256i)
    requires 0 <= n < 32,
    ensures r@ == vshl(a@, n as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_epi32(x: i32) -> (r: __m256i)
    ensures r@ == vset1(8, x as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setr_epi32(a: i32, b: i32, c: i32, d: i32, e: i32, f: i32, g: i32, h: i32) -> (r: __m256i)
    ensures r@ == seq![a as u32, b as u32, c as u32, d as u32, e as u32, f as u32, g as u32, h as u32],
{ unimplemented!() }
// the arguments run from the highest byte down
#[verifier::external_body]
pub fn _mm256_set_epi8(b31: i8, b30: i8, b29: i8, b28: i8, b27: i8, b26: i8, b25: i8, b24: i8, b23: i8, b22: i8, b21: i8, b20: i8, b19: i8, b18: i8, b17: i8, b16: i8, b15: i8, b14: i8, b13: i8, b12: i8, b11: i8, b10: i8, b9: i8, b8: i8, b7: i8, b6: i8, b5: i8, b4: i8, b3: i8, b2: i8, b1: i8, b0: i8) -> (r: __m256i)
    ensures lebytes(r@) == seq![b0 as u8, b1 as u8, b2 as u8, b3 as u8, b4 as u8, b5 as u8, b6 as u8, b7 as u8, b8 as u8, b9 as u8, b10 as u8, b11 as u8, b12 as u8, b13 as u8, b14 as u8, b15 as u8, b16 as u8, b17 as u8, b18 as u8, b19 as u8, b20 as u8, b21 as u8, b22 as u8, b23 as u8, b24 as u8, b25 as u8, b26 as u8, b27 as u8, b28 as u8, b29 as u8, b30 as u8, b31 as u8],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_shuffle_epi8(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == Seq::new(8, |i: int| of_le4(shuf(lebytes(a@), lebytes(b@)).subrange(4 * i, 4 * i + 4))),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_unpacklo_epi32(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == seq![a@[0], b@[0], a@[1], b@[1], a@[4], b@[4], a@[5], b@[5]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_unpackhi_epi32(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == seq![a@[2], b@[2], a@[3], b@[3], a@[6], b@[6], a@[7], b@[7]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_unpacklo_epi64(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == seq![a@[0], a@[1], b@[0], b@[1], a@[4], a@[5], b@[4], b@[5]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_unpackhi_epi64(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == seq![a@[2], a@[3], b@[2], b@[3], a@[6], a@[7], b@[6], b@[7]],
{ unimplemented!() }
pub open spec fn half(a: Seq<u32>, b: Seq<u32>, c: int) -> Seq<u32> {
    if c == 0 { a.subrange(0, 4) } else if c == 1 { a.subrange(4, 8) } else if c == 2 { b.subrange(0, 4) } else { b.subrange(4, 8) }
}
#[verifier::external_body]
pub fn _mm256_permute2x128_si256(a: __m256i, b: __m256i, imm: i32) -> (r: __m256i)
    requires 0 <= imm < 64, imm % 16 < 4,
    ensures r@ == half(a@, b@, imm as int % 16) + half(a@, b@, imm as int / 16),
{ unimplemented!() }
pub open spec fn vw(v: Seq<__m256i>) -> Seq<Seq<u32>> { Seq::new(v.len(), |i: int| v[i]@) }

pub proof fn lemma_rotmask()
    ensures
        seq![2i8 as u8, 3i8 as u8, 0i8 as u8, 1i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 5i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 9i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 13i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 1i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 5i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 9i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 13i8 as u8] == rotmask(8, 16),
        seq![1i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 9i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 1i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 9i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8] == rotmask(8, 8),
{
    let a = seq![2i8 as u8, 3i8 as u8, 0i8 as u8, 1i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 5i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 9i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 13i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 1i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 5i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 9i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 13i8 as u8];
    let b = seq![1i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 9i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 1i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 9i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8];
    assert(a =~= rotmask(8, 16)); assert(b =~= rotmask(8, 8));
}
}
