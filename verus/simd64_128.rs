// ---------------------------------------------------------------------------
// simd64_128.rs: the intrinsics the 64-bit kernels use on 128-bit registers, by Intel's definition of each (assumed).
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct __m128i { pub w: [u64; 2] }
impl View for __m128i {
    type V = Seq<u64>;
    open spec fn view(&self) -> Seq<u64> { self.w@ }
}
pub open spec fn vw(v: Seq<__m128i>) -> Seq<Seq<u64>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn _mm_loadu_si128(s: &[u8]) -> (r: __m128i)
    requires s.len() >= 16,
    ensures r@.len() == 2, forall|i: int| 0 <= i < 2 ==> #[trigger] r@[i] == of_le8(s@.subrange(8 * i, 8 * i + 8)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_storeu_si128(d: &mut [u8], a: __m128i)
    requires old(d).len() >= 16,
    ensures final(d)@ == lebytes(a@) + old(d)@.subrange(16, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_add_epi64(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_xor_si128(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_or_si128(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == vor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_srli_epi64(a: __m128i, n: i32) -> (r: __m128i)
    requires 0 <= n < 64,
    ensures r@ == vshr(a@, n as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_slli_epi64(a: __m128i, n: i32) -> (r: __m128i)
    requires 0 <= n < 64,
    ensures r@ == vshl(a@, n as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_set1_epi64x(x: i64) -> (r: __m128i)
    ensures r@ == vset1(2, x as u64),
{ unimplemented!() }
// the arguments run from the highest lane down
#[verifier::external_body]
pub fn _mm_set_epi64x(b: i64, a: i64) -> (r: __m128i)
    ensures r@ == seq![a as u64, b as u64],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_setr_epi8(b0: i8, b1: i8, b2: i8, b3: i8, b4: i8, b5: i8, b6: i8, b7: i8, b8: i8, b9: i8, b10: i8, b11: i8, b12: i8, b13: i8, b14: i8, b15: i8) -> (r: __m128i)
    ensures lebytes(r@) == seq![b0 as u8, b1 as u8, b2 as u8, b3 as u8, b4 as u8, b5 as u8, b6 as u8, b7 as u8, b8 as u8, b9 as u8, b10 as u8, b11 as u8, b12 as u8, b13 as u8, b14 as u8, b15 as u8],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_shuffle_epi8(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == Seq::new(2, |i: int| of_le8(shuf(lebytes(a@), lebytes(b@)).subrange(8 * i, 8 * i + 8))),
{ unimplemented!() }
// 2 3 0 1: the halves of each 64-bit lane change places
#[verifier::external_body]
pub fn _mm_shuffle_epi32(a: __m128i, n: i32) -> (r: __m128i)
    requires n == 0xB1,
    ensures r@ == Seq::new(2, |i: int| (a@[i] >> 32u64) | (a@[i] << 32u64)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpacklo_epi64(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == seq![a@[0], b@[0]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_unpackhi_epi64(a: __m128i, b: __m128i) -> (r: __m128i)
    ensures r@ == seq![a@[1], b@[1]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm_ror_epi64(a: __m128i, n: i32) -> (r: __m128i)
    requires 0 < n < 64,
    ensures r@ == vrot(a@, n as u64),
{ unimplemented!() }
pub proof fn lemma_rotmask()
    ensures
        seq![3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 2i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 10i8 as u8] == rotmask(2, 24),
        seq![2i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 10i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8] == rotmask(2, 16),
{
    let a = seq![3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 2i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 10i8 as u8];
    let b = seq![2i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 10i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8];
    assert(a =~= rotmask(2, 24)); assert(b =~= rotmask(2, 16));
}
}
