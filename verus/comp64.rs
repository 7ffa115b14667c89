// ---------------------------------------------------------------------------
// comp64.rs: the 64-bit variant's compression function and loops, written out.
// ---------------------------------------------------------------------------
verus! {

pub open spec fn rr64(x: u64, n: u64) -> u64 { (x >> n) | (x << ((64 - n) as u64)) }
pub assume_specification [u64::rotate_right] (x: u64, n: u32) -> (r: u64)
    ensures 0 < n < 64 ==> r == rr64(x, n as u64);
pub open spec fn addw(a: u64, b: u64) -> u64 { ((a as int + b as int) % 0x1_0000_0000_0000_0000) as u64 }

pub open spec fn le8(w: u64) -> Seq<u8> {
    seq![w as u8, (w >> 8u64) as u8, (w >> 16u64) as u8, (w >> 24u64) as u8, (w >> 32u64) as u8, (w >> 40u64) as u8, (w >> 48u64) as u8, (w >> 56u64) as u8]
}
pub open spec fn of_le8(b: Seq<u8>) -> u64 {
    (b[0] as u64) | ((b[1] as u64) << 8u64) | ((b[2] as u64) << 16u64) | ((b[3] as u64) << 24u64)
    | ((b[4] as u64) << 32u64) | ((b[5] as u64) << 40u64) | ((b[6] as u64) << 48u64) | ((b[7] as u64) << 56u64)
}
pub trait VxLe8 { fn vx_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == self.lev(); spec fn lev(self) -> Seq<u8>; }
impl VxLe8 for u64 {
    open spec fn lev(self) -> Seq<u8> { le8(self) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_from_le_bytes_u64(b: [u8; 8]) -> (r: u64)
    ensures r == of_le8(b@)
{ u64::from_le_bytes(b) }

// the mixing function on words a, b, c, d of the state
pub open spec fn g_spec(s: Seq<u64>, a: int, b: int, c: int, d: int, x: u64, y: u64) -> Seq<u64> {
    let a1 = addw(addw(s[a], s[b]), x);
    let d1 = rr64(s[d] ^ a1, 32);
    let c1 = addw(s[c], d1);
    let b1 = rr64(s[b] ^ c1, 24);
    let a2 = addw(addw(a1, b1), y);
    let d2 = rr64(d1 ^ a2, 16);
    let c2 = addw(c1, d2);
    let b2 = rr64(b1 ^ c2, 63);
    s.update(a, a2).update(b, b2).update(c, c2).update(d, d2)
}
pub open spec fn sched(r: int) -> Seq<int> {
    if r == 0 { seq![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] }
    else if r == 1 { seq![14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3] }
    else if r == 2 { seq![11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4] }
    else if r == 3 { seq![7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8] }
    else if r == 4 { seq![9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13] }
    else if r == 5 { seq![2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9] }
    else if r == 6 { seq![12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11] }
    else { seq![13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10] }
}
pub open spec fn mw(m: Seq<u64>, r: int, i: int) -> u64 { m[sched(r)[i]] }
pub open spec fn cols(s: Seq<u64>, m: Seq<u64>, r: int) -> Seq<u64> {
    let s = g_spec(s, 0, 4, 8, 12, mw(m, r, 0), mw(m, r, 1));
    let s = g_spec(s, 1, 5, 9, 13, mw(m, r, 2), mw(m, r, 3));
    let s = g_spec(s, 2, 6, 10, 14, mw(m, r, 4), mw(m, r, 5));
    g_spec(s, 3, 7, 11, 15, mw(m, r, 6), mw(m, r, 7))
}
pub open spec fn diags(s: Seq<u64>, m: Seq<u64>, r: int) -> Seq<u64> {
    let s = g_spec(s, 0, 5, 10, 15, mw(m, r, 8), mw(m, r, 9));
    let s = g_spec(s, 1, 6, 11, 12, mw(m, r, 10), mw(m, r, 11));
    let s = g_spec(s, 2, 7, 8, 13, mw(m, r, 12), mw(m, r, 13));
    g_spec(s, 3, 4, 9, 14, mw(m, r, 14), mw(m, r, 15))
}
pub open spec fn round_spec(s: Seq<u64>, m: Seq<u64>, r: int) -> Seq<u64> { diags(cols(s, m, r), m, r) }
pub open spec fn rounds(s: Seq<u64>, m: Seq<u64>, n: nat) -> Seq<u64>
    decreases n
{ if n == 0 { s } else { round_spec(rounds(s, m, (n - 1) as nat), m, n - 1) } }
pub open spec fn state0(cv: Seq<u64>, off: u64, len: u64, flags: u64) -> Seq<u64> {
    seq![cv[0], cv[1], cv[2], cv[3], 0x510E527FADE682D1u64, 0x9B05688C2B3E6C1Fu64, 0x1F83D9ABFB41BD6Bu64, 0x5BE0CD19137E2179u64,
         0x6A09E667F3BCC908u64, 0xBB67AE8584CAA73Bu64, 0x3C6EF372FE94F82Bu64, 0xA54FF53A5F1D36F1u64, off, 0x9B05688C2B3E6C1Fu64, len, flags]
}
// all sixteen words: the first four are the chaining value
pub open spec fn full(cv: Seq<u64>, m: Seq<u64>, off: u64, len: u64, flags: u64) -> Seq<u64> {
    let s = rounds(state0(cv, off, len, flags), m, 8);
    Seq::new(16, |i: int| if i < 4 { s[i] ^ s[i + 4] } else if i < 8 { s[i] ^ cv[i - 4] } else { s[i] })
}
pub open spec fn words16(b: Seq<u8>) -> Seq<u64> { Seq::new(16, |i: int| of_le8(b.subrange(8 * i, 8 * i + 8))) }
pub open spec fn lebytes(w: Seq<u64>) -> Seq<u8> { Seq::new(8 * w.len(), |i: int| le8(w[i / 8])[i % 8]) }
pub open spec fn bytes4(w: Seq<u64>) -> Seq<u8> { le8(w[0]) + le8(w[1]) + le8(w[2]) + le8(w[3]) }

#[verifier::opaque]
pub open spec fn comp(cv: Seq<u64>, block: Seq<u8>, len: u8, off: u64, flags: u8) -> Seq<u64> {
    full(cv, words16(block), off, len as u64, flags as u64).subrange(0, 4)
}
#[verifier::opaque]
pub open spec fn xofblk(cv: Seq<u64>, block: Seq<u8>, len: u8, off: u64, flags: u8) -> Seq<u8> {
    lebytes(full(cv, words16(block), off, len as u64, flags as u64))
}

// the blocks of one input; flags of the first and the last block
pub open spec fn hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8) -> u8 {
    flags | (if i == 0 { fs } else { 0 }) | (if i == n - 1 { fe } else { 0 })
}
pub open spec fn hmfold(key: Seq<u64>, bytes: Seq<u8>, total: nat, n: nat, off: u64, flags: u8, fs: u8, fe: u8) -> Seq<u64>
    decreases n
{
    if n == 0 { key } else {
        comp(hmfold(key, bytes, total, (n - 1) as nat, off, flags, fs, fe), bytes.subrange(128 * (n - 1), 128 * n as int), 128, off, hmflags(total, n - 1, flags, fs, fe))
    }
}
pub open spec fn hm(key: Seq<u64>, bytes: Seq<u8>, off: u64, flags: u8, fs: u8, fe: u8) -> Seq<u8> {
    let n = (bytes.len() / 128) as nat;
    bytes4(hmfold(key, bytes, n, n, off, flags, fs, fe))
}

pub open spec fn hm_post<A: VxArray>(inputs: Seq<&A>, key: Seq<u64>, offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out0: Seq<u8>, out1: Seq<u8>) -> bool {
    let n = inputs.len() as int;
    &&& out1.len() == out0.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] out1.subrange(32 * i, 32 * i + 32) == hm(key, inputs[i].ab(), (offset + i * delta) as u64, flags, fs, fe)
    &&& out1.subrange(32 * n, out1.len() as int) == out0.subrange(32 * n, out0.len() as int)
}

} // verus!
