// ---------------------------------------------------------------------------
// simd128.rs: the SSE intrinsics the kernels use, by Intel's definition of each
// (assumed), and the vectors of 32-bit lanes they are used on.
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct __m128i { pub w: [u32; 4] }
impl View for __m128i {
    type V = Seq<u32>;
    open spec fn view(&self) -> Seq<u32> { self.w@ }
}
pub open spec fn vb128(a: Seq<u32>) -> Seq<u8> { lebytes(a) }
pub open spec fn wb(b: Seq<u8>) -> Seq<u32> { Seq::new((b.len() / 4) as nat, |i: int| of_le4(b.subrange(4 * i, 4 * i + 4))) }

#[verifier::external_body]
pub fn _mm_loadu_si128(s: &[u8]) -> (r: __m128i)
    requires s.len() >= 16,
    ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == of_le4(s@.subrange(4 * i, 4 * i + 4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_storeu_si128(d: &mut [u8], a: __m128i)
    requires old(d).len() >= 16,
    ensures final(d)@ == lebytes(a@) + old(d)@.subrange(16, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_add_epi32(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_xor_si128(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_or_si128(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == vor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_srli_epi32(a: __m128i, n: i32) -> (r: __m128i)
    requires 0 <= n < 32,
    ensures r@ == vshr(a@, n as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_slli_epi32(a: __m128i, n: i32) -> (r: __m128i)
    requires 0 <= n < 32,
    ensures r@ == vshl(a@, n as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_set1_epi32(x: i32) -> (r: __m128i)
    ensures r@ == vset1(4, x as u32),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_setr_epi32(a: i32, b: i32, c: i32, d: i32) -> (r: __m128i)
    ensures r@ == seq![a as u32, b as u32, c as u32, d as u32],
{ unimplemented!() }
// the arguments run from the highest byte down
#[verifier::external_body]
pub fn _mm_set_epi8(b15: i8, b14: i8, b13: i8, b12: i8, b11: i8, b10: i8, b9: i8, b8: i8, b7: i8, b6: i8, b5: i8, b4: i8, b3: i8, b2: i8, b1: i8, b0: i8) -> (r: __m128i)
    ensures lebytes(r@) == seq![b0 as u8, b1 as u8, b2 as u8, b3 as u8, b4 as u8, b5 as u8, b6 as u8, b7 as u8, b8 as u8, b9 as u8, b10 as u8, b11 as u8, b12 as u8, b13 as u8, b14 as u8, b15 as u8],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_shuffle_epi8(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == Seq::new(4, |i: int| of_le4(shuf(lebytes(a@), lebytes(b@)).subrange(4 * i, 4 * i + 4))),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi32(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == seq![a@[0], b@[0], a@[1], b@[1]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpackhi_epi32(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == seq![a@[2], b@[2], a@[3], b@[3]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi64(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == seq![a@[0], a@[1], b@[0], b@[1]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpackhi_epi64(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == seq![a@[2], a@[3], b@[2], b@[3]],
{ unimplemented!() }
pub open spec fn vw(v: Seq<__m128i>) -> Seq<Seq<u32>> { Seq::new(v.len(), |i: int| v[i]@) }

pub proof fn lemma_rotmask()
    ensures
        seq![2i8 as u8, 3i8 as u8, 0i8 as u8, 1i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 5i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 9i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 13i8 as u8] == rotmask(4, 16),
        seq![1i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 9i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8] == rotmask(4, 8),
{
    let a = seq![2i8 as u8, 3i8 as u8, 0i8 as u8, 1i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 5i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 9i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8, 13i8 as u8];
    let b = seq![1i8 as u8, 2i8 as u8, 3i8 as u8, 0i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 4i8 as u8, 9i8 as u8, 10i8 as u8, 11i8 as u8, 8i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 12i8 as u8];
    assert(a =~= rotmask(4, 16)); assert(b =~= rotmask(4, 8));
}
}
