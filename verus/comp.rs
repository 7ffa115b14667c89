// ---------------------------------------------------------------------------
// comp.rs: the compression function, written out.
// ---------------------------------------------------------------------------
verus! {

pub open spec fn addw(a: u32, b: u32) -> u32 { ((a as int + b as int) % 0x1_0000_0000) as u32 }

// the mixing function on words a, b, c, d of the state
pub open spec fn g_spec(s: Seq<u32>, a: int, b: int, c: int, d: int, x: u32, y: u32) -> Seq<u32> {
    let a1 = addw(addw(s[a], s[b]), x);
    let d1 = rotr(s[d] ^ a1, 16);
    let c1 = addw(s[c], d1);
    let b1 = rotr(s[b] ^ c1, 12);
    let a2 = addw(addw(a1, b1), y);
    let d2 = rotr(d1 ^ a2, 8);
    let c2 = addw(c1, d2);
    let b2 = rotr(b1 ^ c2, 7);
    s.update(a, a2).update(b, b2).update(c, c2).update(d, d2)
}
pub open spec fn sched(r: int) -> Seq<int> {
    if r == 0 { seq![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] }
    else if r == 1 { seq![14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3] }
    else if r == 2 { seq![11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4] }
    else if r == 3 { seq![7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8] }
    else if r == 4 { seq![9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13] }
    else if r == 5 { seq![2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9] }
    else { seq![12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11] }
}
pub open spec fn mw(m: Seq<u32>, r: int, i: int) -> u32 { m[sched(r)[i]] }
pub open spec fn cols(s: Seq<u32>, m: Seq<u32>, r: int) -> Seq<u32> {
    let s = g_spec(s, 0, 4, 8, 12, mw(m, r, 0), mw(m, r, 1));
    let s = g_spec(s, 1, 5, 9, 13, mw(m, r, 2), mw(m, r, 3));
    let s = g_spec(s, 2, 6, 10, 14, mw(m, r, 4), mw(m, r, 5));
    g_spec(s, 3, 7, 11, 15, mw(m, r, 6), mw(m, r, 7))
}
pub open spec fn diags(s: Seq<u32>, m: Seq<u32>, r: int) -> Seq<u32> {
    let s = g_spec(s, 0, 5, 10, 15, mw(m, r, 8), mw(m, r, 9));
    let s = g_spec(s, 1, 6, 11, 12, mw(m, r, 10), mw(m, r, 11));
    let s = g_spec(s, 2, 7, 8, 13, mw(m, r, 12), mw(m, r, 13));
    g_spec(s, 3, 4, 9, 14, mw(m, r, 14), mw(m, r, 15))
}
pub open spec fn round_spec(s: Seq<u32>, m: Seq<u32>, r: int) -> Seq<u32> { diags(cols(s, m, r), m, r) }
pub open spec fn rounds(s: Seq<u32>, m: Seq<u32>, n: nat) -> Seq<u32>
    decreases n
{ if n == 0 { s } else { round_spec(rounds(s, m, (n - 1) as nat), m, n - 1) } }
pub open spec fn state0(cv: Seq<u32>, off: u64, len: u32, flags: u32) -> Seq<u32> {
    seq![cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7],
         0x6A09E667u32, 0xBB67AE85u32, 0x3C6EF372u32, 0xA54FF53Au32, off as u32, (off >> 32) as u32, len, flags]
}
// all sixteen words: the first eight are the chaining value
pub open spec fn full(cv: Seq<u32>, m: Seq<u32>, off: u64, len: u32, flags: u32) -> Seq<u32> {
    let s = rounds(state0(cv, off, len, flags), m, 7);
    Seq::new(16, |i: int| if i < 8 { s[i] ^ s[i + 8] } else { s[i] ^ cv[i - 8] })
}
pub open spec fn words16(b: Seq<u8>) -> Seq<u32> { Seq::new(16, |i: int| of_le4(b.subrange(4 * i, 4 * i + 4))) }
pub open spec fn lebytes(w: Seq<u32>) -> Seq<u8> { Seq::new(4 * w.len(), |i: int| le4(w[i / 4])[i % 4]) }

#[verifier::opaque]
pub open spec fn comp(cv: Seq<u32>, block: Seq<u8>, len: u8, off: u64, flags: u8) -> Seq<u32> {
    full(cv, words16(block), off, len as u32, flags as u32).subrange(0, 8)
}
#[verifier::opaque]
pub open spec fn xofblk(cv: Seq<u32>, block: Seq<u8>, len: u8, off: u64, flags: u8) -> Seq<u8> {
    lebytes(full(cv, words16(block), off, len as u32, flags as u32))
}
pub broadcast proof fn axiom_comp_len(cv: Seq<u32>, block: Seq<u8>, len: u8, off: u64, flags: u8)
    ensures (#[trigger] comp(cv, block, len, off, flags)).len() == 8
{ reveal(comp); }
pub broadcast proof fn axiom_xof(cv: Seq<u32>, block: Seq<u8>, len: u8, off: u64, flags: u8)
    ensures (#[trigger] xofblk(cv, block, len, off, flags)).len() == 64,
        xofblk(cv, block, len, off, flags).subrange(0, 32) == bytes8(comp(cv, block, len, off, flags))
{
    reveal(comp); reveal(xofblk);
    lemma_lebytes8(full(cv, words16(block), off, len as u32, flags as u32));
}
pub proof fn lemma_lebytes8(f: Seq<u32>)
    requires f.len() == 16
    ensures lebytes(f).subrange(0, 32) == bytes8(f.subrange(0, 8))
{
    let w = f.subrange(0, 8);
    let x = lebytes(f).subrange(0, 32);
    let y = bytes8(w);
    assert forall|i: int| 0 <= i < 32 implies #[trigger] x[i] == y[i] by {
        let k = i / 4;
        lemma_bytes8_at(w, k);
        assert(y.subrange(4 * k, 4 * k + 4)[i - 4 * k] == y[i]);
    }
    assert(x =~= y);
}
pub proof fn lemma_bytes8_at(w: Seq<u32>, k: int)
    requires w.len() == 8, 0 <= k < 8
    ensures bytes8(w).len() == 32, bytes8(w).subrange(4 * k, 4 * k + 4) == le4(w[k])
{
    assert(bytes8(w).subrange(4 * k, 4 * k + 4) =~= le4(w[k]));
}

// bytes and words
pub proof fn lemma_le_round(w: u32)
    ensures of_le4(le4(w)) == w
{
    assert(((w as u8) as u32) | (((w >> 8u32) as u8) as u32) << 8u32 | (((w >> 16u32) as u8) as u32) << 16u32 | (((w >> 24u32) as u8) as u32) << 24u32 == w) by (bit_vector);
}
pub proof fn lemma_le_round2(b: Seq<u8>)
    requires b.len() == 4
    ensures le4(of_le4(b)) == b
{
    let (p, q, r, s) = (b[0], b[1], b[2], b[3]);
    assert(((p as u32) | ((q as u32) << 8u32) | ((r as u32) << 16u32) | ((s as u32) << 24u32)) as u8 == p) by (bit_vector);
    assert((((p as u32) | ((q as u32) << 8u32) | ((r as u32) << 16u32) | ((s as u32) << 24u32)) >> 8u32) as u8 == q) by (bit_vector);
    assert((((p as u32) | ((q as u32) << 8u32) | ((r as u32) << 16u32) | ((s as u32) << 24u32)) >> 16u32) as u8 == r) by (bit_vector);
    assert((((p as u32) | ((q as u32) << 8u32) | ((r as u32) << 16u32) | ((s as u32) << 24u32)) >> 24u32) as u8 == s) by (bit_vector);
    assert(le4(of_le4(b)) =~= b);
}
pub proof fn lemma_bytes8_words(w: Seq<u32>, k: int)
    requires w.len() == 8, 0 <= k < 8
    ensures bytes8(w).len() == 32, bytes8(w).subrange(4 * k, 4 * k + 4) == le4(w[k]), of_le4(bytes8(w).subrange(4 * k, 4 * k + 4)) == w[k]
{
    lemma_le_round(w[k]);
    lemma_bytes8_at(w, k);
}
// the block of a parent, as words
pub proof fn lemma_words16_pair(l: Seq<u32>, r: Seq<u32>)
    requires l.len() == 8, r.len() == 8
    ensures words16(bytes8(l) + bytes8(r)) == l + r
{
    let b = bytes8(l) + bytes8(r);
    assert forall|k: int| 0 <= k < 16 implies #[trigger] words16(b)[k] == (l + r)[k] by {
        if k < 8 {
            lemma_bytes8_words(l, k);
            assert(b.subrange(4 * k, 4 * k + 4) =~= bytes8(l).subrange(4 * k, 4 * k + 4));
        } else {
            lemma_bytes8_words(r, k - 8);
            assert(b.subrange(4 * k, 4 * k + 4) =~= bytes8(r).subrange(4 * (k - 8), 4 * (k - 8) + 4));
        }
    }
    assert(words16(b) =~= l + r);
}

} // verus!
