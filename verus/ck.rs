// ---------------------------------------------------------------------------
// ck.rs: the C library functions cx.py emits, and the contracts of the C kernels.
// ---------------------------------------------------------------------------
verus! {
// ---- C library ----
pub open spec fn pfx<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() == n { s } else { s.subrange(0, n) } }
// `x` written over the front of `d`
pub open spec fn put<T>(d: Seq<T>, x: Seq<T>) -> Seq<T> { if x.len() == d.len() { x } else { x + d.subrange(x.len() as int, d.len() as int) } }
#[verifier::external_body]
pub fn vx_any<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body]
pub fn vx_memcpy8(dst: &mut [u8], src: &[u8], n: u64)
    requires n <= old(dst).len(), n <= src.len(),
    ensures final(dst)@ == put(old(dst)@, pfx(src@, n as int)), final(dst).len() == old(dst).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_memcpy32(dst: &mut [u32], src: &[u32], n: u64)
    requires n % 4 == 0, n / 4 <= old(dst).len(), n / 4 <= src.len(),
    ensures final(dst)@ == put(old(dst)@, pfx(src@, (n / 4) as int)), final(dst).len() == old(dst).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_memset8(dst: &mut [u8], v: u8, n: u64)
    requires n <= old(dst).len(),
    ensures final(dst)@ == put(old(dst)@, Seq::new(n as nat, |i: int| v)), final(dst).len() == old(dst).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_memset32(dst: &mut [u32], v: u8, n: u64)
    requires n % 4 == 0, n / 4 <= old(dst).len(), v == 0,
    ensures final(dst)@ == put(old(dst)@, Seq::new((n / 4) as nat, |i: int| 0u32)), final(dst).len() == old(dst).len(),
{ unimplemented!() }
// unsigned multiplication wraps; only the product that fits is described
#[verifier::external_body]
pub fn vx_wmul64(a: u64, b: u64) -> (r: u64)
    ensures a * b < 0x1_0000_0000_0000_0000 ==> r == a * b
{ a.wrapping_mul(b) }
#[verifier::external_body]
pub fn vx_wmul32(a: u32, b: u32) -> (r: u32)
    ensures a * b < 0x1_0000_0000 ==> r == a * b
{ a.wrapping_mul(b) }

// a pointer to one object
#[verifier::external_body]
pub fn vx_one_mut<T>(x: &mut T) -> (r: &mut [T])
    ensures r@ == seq![*old(x)], final(r)@.len() == 1, *final(x) == final(r)@[0],
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_one<T>(x: &T) -> (r: &[T])
    ensures r@ == seq![*x],
{ unimplemented!() }
// words written to memory, little-endian
#[verifier::external_body]
pub fn vx_memcpy8_32(dst: &mut [u8], src: &[u32], n: u64)
    requires n % 4 == 0, n <= old(dst).len(), n / 4 <= src.len(),
    ensures final(dst)@ == put(old(dst)@, lebytes(pfx(src@, (n / 4) as int))), final(dst).len() == old(dst).len(),
{ unimplemented!() }

// ---- contracts of the kernels ----
pub open spec fn cpre(state: Seq<u32>, block: Seq<u8>, block_len: u8) -> bool { state.len() >= 8 && block.len() >= 64 && block_len <= 64 }
pub open spec fn cpost(s0: Seq<u32>, s1: Seq<u32>, block: Seq<u8>, block_len: u8, offset: u64, flags: u8) -> bool {
    &&& s1.len() == s0.len()
    &&& pfx(s1, 8) == comp(pfx(s0, 8), pfx(block, 64), block_len, offset, flags)
    &&& s1.subrange(8, s1.len() as int) == s0.subrange(8, s0.len() as int)
}
pub open spec fn hmpre(inputs: Seq<&[u8]>, num: u64, blocks: u64, key: Seq<u32>, offset: u64, deltas: Seq<u64>, nd: int, out: Seq<u8>) -> bool {
    &&& num <= inputs.len() && key.len() >= 8
    &&& forall|i: int| 0 <= i < num ==> (#[trigger] inputs[i])@.len() >= 64 * blocks
    &&& deltas.len() >= nd
    &&& forall|i: int| 0 <= i < nd ==> (#[trigger] deltas[i]) == i * deltas[1]
    &&& offset + num * deltas[1] < 0x1_0000_0000_0000_0000
    &&& out.len() >= 32 * num
}
pub open spec fn hmpost(inputs: Seq<&[u8]>, num: u64, blocks: u64, key: Seq<u32>, offset: u64, deltas: Seq<u64>, flags: u8, fs: u8, fe: u8, out0: Seq<u8>, out1: Seq<u8>) -> bool {
    &&& out1.len() == out0.len()
    &&& forall|i: int| 0 <= i < num ==> #[trigger] out1.subrange(32 * i, 32 * i + 32) == hm(pfx(key, 8), inputs[i]@.subrange(0, 64 * blocks), (offset + i * deltas[1]) as u64, flags, fs, fe)
    &&& out1.subrange(32 * num, out1.len() as int) == out0.subrange(32 * num, out0.len() as int)
}
pub proof fn lemma_words_out(o: Seq<u8>, w: Seq<u32>, r: Seq<u8>)
    requires r.len() == o.len() >= 32, w.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] r.subrange(4 * i, 4 * i + 4) == le4(w[i]),
        r.subrange(32, r.len() as int) == o.subrange(32, o.len() as int),
    ensures r == put(o, bytes8(w))
{
    assert(r =~= r.subrange(0, 4) + r.subrange(4, 8) + r.subrange(8, 12) + r.subrange(12, 16) + r.subrange(16, 20) + r.subrange(20, 24) + r.subrange(24, 28) + r.subrange(28, 32) + r.subrange(32, r.len() as int));
    assert(r.subrange(4 * 0int, 4 * 0int + 4) == le4(w[0]) && r.subrange(4 * 1int, 4 * 1int + 4) == le4(w[1]) && r.subrange(4 * 2int, 4 * 2int + 4) == le4(w[2]) && r.subrange(4 * 3int, 4 * 3int + 4) == le4(w[3]));
    assert(r.subrange(4 * 4int, 4 * 4int + 4) == le4(w[4]) && r.subrange(4 * 5int, 4 * 5int + 4) == le4(w[5]) && r.subrange(4 * 6int, 4 * 6int + 4) == le4(w[6]) && r.subrange(4 * 7int, 4 * 7int + 4) == le4(w[7]));
    assert(r =~= put(o, bytes8(w)));
}
// one step of a loop over inputs
pub open spec fn cpart(inputs: Seq<&[u8]>, blocks: u64, key: Seq<u32>, off: int, d: int, flags: u8, fs: u8, fe: u8, out0: Seq<u8>, out1: Seq<u8>, k: int) -> bool {
    &&& out1.len() == out0.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] out1.subrange(32 * i, 32 * i + 32) == hm(pfx(key, 8), inputs[i]@.subrange(0, 64 * blocks), (off + i * d) as u64, flags, fs, fe)
    &&& out1.subrange(32 * k, out1.len() as int) == out0.subrange(32 * k, out0.len() as int)
}
// m more inputs are done: the bytes of their outputs changed and nothing else
pub proof fn lemma_cstep(inputs: Seq<&[u8]>, blocks: u64, key: Seq<u32>, off: int, d: int, flags: u8, fs: u8, fe: u8, out0: Seq<u8>, a: Seq<u8>, k: int, b: Seq<u8>, m: int)
    requires cpart(inputs, blocks, key, off, d, flags, fs, fe, out0, a, k), 0 <= k, 0 <= m, 32 * (k + m) <= a.len(), b.len() == a.len(),
        b.subrange(0, 32 * k) == a.subrange(0, 32 * k), b.subrange(32 * (k + m), b.len() as int) == a.subrange(32 * (k + m), a.len() as int),
        forall|j: int| 0 <= j < m ==> #[trigger] b.subrange(32 * (k + j), 32 * (k + j) + 32) == hm(pfx(key, 8), inputs[k + j]@.subrange(0, 64 * blocks), (off + (k + j) * d) as u64, flags, fs, fe),
    ensures cpart(inputs, blocks, key, off, d, flags, fs, fe, out0, b, k + m)
{
    assert forall|i: int| 0 <= i < k + m implies #[trigger] b.subrange(32 * i, 32 * i + 32) == hm(pfx(key, 8), inputs[i]@.subrange(0, 64 * blocks), (off + i * d) as u64, flags, fs, fe) by {
        if i < k {
            assert(b.subrange(32 * i, 32 * i + 32) =~= b.subrange(0, 32 * k).subrange(32 * i, 32 * i + 32));
            assert(a.subrange(32 * i, 32 * i + 32) =~= a.subrange(0, 32 * k).subrange(32 * i, 32 * i + 32));
        } else { assert(i == k + (i - k)); assert(b.subrange(32 * (k + (i - k)), 32 * (k + (i - k)) + 32) == b.subrange(32 * i, 32 * i + 32)); }
    }
    assert(out0.subrange(32 * (k + m), out0.len() as int) =~= out0.subrange(32 * k, out0.len() as int).subrange(32 * m, out0.len() - 32 * k));
    assert(a.subrange(32 * (k + m), a.len() as int) =~= a.subrange(32 * k, a.len() as int).subrange(32 * m, a.len() - 32 * k));
}
pub proof fn lemma_cmul(a: int, b: int, d: int)
    requires 0 <= a <= b, d >= 0
    ensures a * d <= b * d, 0 <= a * d
{ assert(a * d <= b * d && 0 <= a * d) by (nonlinear_arith) requires 0 <= a <= b, d >= 0; }

} // verus!
