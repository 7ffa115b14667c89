// ---------------------------------------------------------------------------
// hmspec.rs: the hash of one input of a fixed number of blocks, which the kernels compute.
// ---------------------------------------------------------------------------
verus! {
pub open spec fn bytes8(w: Seq<u32>) -> Seq<u8> {
    le4(w[0]) + le4(w[1]) + le4(w[2]) + le4(w[3]) + le4(w[4]) + le4(w[5]) + le4(w[6]) + le4(w[7])
}
pub open spec fn words8(b: Seq<u8>) -> Seq<u32> {
    seq![of_le4(b.subrange(0, 4)), of_le4(b.subrange(4, 8)), of_le4(b.subrange(8, 12)), of_le4(b.subrange(12, 16)),
         of_le4(b.subrange(16, 20)), of_le4(b.subrange(20, 24)), of_le4(b.subrange(24, 28)), of_le4(b.subrange(28, 32))]
}

pub open spec fn spec_iv() -> Seq<u32> {
    seq![0x6A09E667u32, 0xBB67AE85u32, 0x3C6EF372u32, 0xA54FF53Au32, 0x510E527Fu32, 0x9B05688Cu32, 0x1F83D9ABu32, 0x5BE0CD19u32]
}

// ---------------------------------------------------------------- hash_many
pub open spec fn hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8) -> u8 {
    flags | (if i == 0 { fs } else { 0 }) | (if i == n - 1 { fe } else { 0 })
}
pub open spec fn hmfold(key: Seq<u32>, bytes: Seq<u8>, total: nat, n: nat, off: u64, flags: u8, fs: u8, fe: u8) -> Seq<u32>
    decreases n
{
    if n == 0 { key } else {
        comp(hmfold(key, bytes, total, (n - 1) as nat, off, flags, fs, fe), bytes.subrange(64 * (n - 1), 64 * n as int), 64, off, hmflags(total, n - 1, flags, fs, fe))
    }
}
pub open spec fn hm(key: Seq<u32>, bytes: Seq<u8>, off: u64, flags: u8, fs: u8, fe: u8) -> Seq<u8> {
    let n = (bytes.len() / 64) as nat;
    bytes8(hmfold(key, bytes, n, n, off, flags, fs, fe))
}

pub open spec fn hm_post<A: VxArray>(inputs: Seq<&A>, key: Seq<u32>, offset: u64, delta: u64, flags: u8, fs: u8, fe: u8, out0: Seq<u8>, out1: Seq<u8>) -> bool {
    let n = inputs.len() as int;
    &&& out1.len() == out0.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] out1.subrange(32 * i, 32 * i + 32) == hm(key, inputs[i].ab(), (offset + i * delta) as u64, flags, fs, fe)
    &&& out1.subrange(32 * n, out1.len() as int) == out0.subrange(32 * n, out0.len() as int)
}
pub proof fn lemma_bytes8_len(w: Seq<u32>)
    ensures bytes8(w).len() == 32
{ }
} // verus!
