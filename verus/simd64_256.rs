// ---------------------------------------------------------------------------
// simd64_256.rs: the intrinsics the 64-bit kernels use on 256-bit registers, by Intel's definition of each (assumed).
// ---------------------------------------------------------------------------
verus! {
#[derive(Clone, Copy)]
pub struct __m256i { pub w: [u64; 4] }
impl View for __m256i {
    type V = Seq<u64>;
    open spec fn view(&self) -> Seq<u64> { self.w@ }
}
pub open spec fn vw(v: Seq<__m256i>) -> Seq<Seq<u64>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn _mm256_loadu_si256(s: &[u8]) -> (r: __m256i)
    requires s.len() >= 32,
    ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == of_le8(s@.subrange(8 * i, 8 * i + 8)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_storeu_si256(d: &mut [u8], a: __m256i)
    requires old(d).len() >= 32,
    ensures final(d)@ == lebytes(a@) + old(d)@.subrange(32, old(d).len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_add_epi64(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == vadd(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_xor_si256(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == vxor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_or_si256(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == vor(a@, b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_srli_epi64(a: __m256i, n: i32) -> (r: __m256i)
    requires 0 <= n < 64,
    ensures r@ == vshr(a@, n as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_slli_epi64(a: __m256i, n: i32) -> (r: __m256i)
    requires 0 <= n < 64,
    ensures r@ == vshl(a@, n as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_set1_epi64x(x: i64) -> (r: __m256i)
    ensures r@ == vset1(4, x as u64),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setr_epi64x(a: i64, b: i64, c: i64, d: i64) -> (r: __m256i)
    ensures r@ == seq![a as u64, b as u64, c as u64, d as u64],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_setr_epi8(b0: i8, b1: i8, b2: i8, b3: i8, b4: i8, b5: i8, b6: i8, b7: i8, b8: i8, b9: i8, b10: i8, b11: i8, b12: i8, b13: i8, b14: i8, b15: i8, b16: i8, b17: i8, b18: i8, b19: i8, b20: i8, b21: i8, b22: i8, b23: i8, b24: i8, b25: i8, b26: i8, b27: i8, b28: i8, b29: i8, b30: i8, b31: i8) -> (r: __m256i)
    ensures lebytes(r@) == seq![b0 as u8, b1 as u8, b2 as u8, b3 as u8, b4 as u8, b5 as u8, b6 as u8, b7 as u8, b8 as u8, b9 as u8, b10 as u8, b11 as u8, b12 as u8, b13 as u8, b14 as u8, b15 as u8, b16 as u8, b17 as u8, b18 as u8, b19 as u8, b20 as u8, b21 as u8, b22 as u8, b23 as u8, b24 as u8, b25 as u8, b26 as u8, b27 as u8, b28 as u8, b29 as u8, b30 as u8, b31 as u8],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_shuffle_epi8(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == Seq::new(4, |i: int| of_le8(shuf(lebytes(a@), lebytes(b@)).subrange(8 * i, 8 * i + 8))),
{ unimplemented!() }
// 2 3 0 1: the halves of each 64-bit lane change places
#[verifier::external_body]
pub fn _mm256_shuffle_epi32(a: __m256i, n: i32) -> (r: __m256i)
    requires n == 0xB1,
    ensures r@ == Seq::new(4, |i: int| (a@[i] >> 32u64) | (a@[i] << 32u64)),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_unpacklo_epi64(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == seq![a@[0], b@[0], a@[2], b@[2]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_unpackhi_epi64(a: __m256i, b: __m256i) -> (r: __m256i)
    ensures r@ == seq![a@[1], b@[1], a@[3], b@[3]],
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_permute2x128_si256(a: __m256i, b: __m256i, n: i32) -> (r: __m256i)
    requires n == 0x20 || n == 0x31,
    ensures r@ == (if n == 0x20 { seq![a@[0], a@[1], b@[0], b@[1]] } else { seq![a@[2], a@[3], b@[2], b@[3]] }),
{ unimplemented!() }
#[verifier::external_body]
pub fn _mm256_ror_epi64(a: __m256i, n: i32) -> (r: __m256i)
    requires 0 < n < 64,
    ensures r@ == vrot(a@, n as u64),
{ unimplemented!() }
pub proof fn lemma_rotmask()
    ensures
        seq![3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 2i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 10i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 2i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 10i8 as u8] == rotmask(4, 24),
        seq![2i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 10i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 2i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 10i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8] == rotmask(4, 16),
{
    let a = seq![3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 2i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 10i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 2i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 10i8 as u8];
    let b = seq![2i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 10i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8, 2i8 as u8, 3i8 as u8, 4i8 as u8, 5i8 as u8, 6i8 as u8, 7i8 as u8, 0i8 as u8, 1i8 as u8, 10i8 as u8, 11i8 as u8, 12i8 as u8, 13i8 as u8, 14i8 as u8, 15i8 as u8, 8i8 as u8, 9i8 as u8];
    assert(a =~= rotmask(4, 24)); assert(b =~= rotmask(4, 16));
}
}
