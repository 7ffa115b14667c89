// ---------------------------------------------------------------------------
// q64.rs: the 64-bit lanes of a vector of 32-bit words.
// ---------------------------------------------------------------------------
verus! {
pub open spec fn qw(lo: u32, hi: u32) -> u64 { (lo as u64) | ((hi as u64) << 32) }
pub open spec fn q64(a: Seq<u32>, j: int) -> u64 { qw(a[2 * j], a[2 * j + 1]) }
pub open spec fn add64(a: u64, b: u64) -> u64 { ((a + b) % 0x1_0000_0000_0000_0000) as u64 }
pub proof fn lemma_qw(lo: u32, hi: u32)
    ensures qw(lo, hi) as u32 == lo, (qw(lo, hi) >> 32u64) as u32 == hi
{
    let x = qw(lo, hi);
    assert(x as u32 == lo && (x >> 32u64) as u32 == hi) by (bit_vector) requires x == (lo as u64) | ((hi as u64) << 32);
}
pub proof fn lemma_i64(x: u64)
    ensures (x as i64) as u64 == x
{ assert((x as i64) as u64 == x) by (bit_vector); }
}
