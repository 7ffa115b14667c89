// Contracts for src/portable.rs: the compression function and the loops over blocks and inputs.
#include shim.rs
#include comp.rs
#include hmspec.rs
#text {
verus! {
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 7 ==> #[trigger] sched_row(r) }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6));
}
pub proof fn lemma_rounds(s: Seq<u32>, m: Seq<u32>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
#end
#file src/lib.rs
#type Word
#const OUT_LEN BLOCK_LEN WORD_BITS IV MSG_SCHEDULE
#fn offset_low
ret r
spec {
    ensures r == offset as u32
}
#fn offset_high
ret r
spec {
    ensures r == (offset >> 32u64) as u32
}
#fn bytes_from_state_words
ret r
spec {
    ensures r@ == bytes8(words@)
}
return {
    proof { assert(vx_ret@ =~= bytes8(words@)); }
}
#file src/portable.rs
#fn words_from_block
ret r
spec {
    ensures r@ == words16(bytes@)
}
return {
    proof { assert(vx_ret@ =~= words16(bytes@)); }
}
#fn g
spec {
    requires a < 16, b < 16, c < 16, d < 16, a != b, a != c, a != d, b != c, b != d, c != d,
    ensures final(state)@ == g_spec(old(state)@, a as int, b as int, c as int, d as int, x, y),
}
start {
    hide(rotr);
}
end {
    proof {
        let e = g_spec(old(state)@, a as int, b as int, c as int, d as int, x, y);
        assert(e.len() == 16);
        assert(state@[a as int] == e[a as int]);
        assert(state@[b as int] == e[b as int]);
        assert(state@[c as int] == e[c as int]);
        assert(state@[d as int] == e[d as int]);
        assert forall|j: int| 0 <= j < 16 implies state@[j] == e[j] by { if j != a && j != b && j != c && j != d { } }
        assert(state@ =~= e);
    }
}
#fn round
spec {
    requires round < 7,
    ensures final(state)@ == round_spec(old(state)@, msg@, round as int),
}
start {
    hide(g_spec);
    hide(sched);
    proof { lemma_sched(); assert(sched_row(round as int)); }
}
#fn compress_inner
ret r
spec {
    ensures r@ == rounds(state0(cv@, offset, block_len as u32, flags as u32), words16(block@), 7)
}
start {
    hide(round_spec); hide(words16); hide(rounds);
    proof {
        let m = words16(block@);
        let s = state0(cv@, offset, block_len as u32, flags as u32);
        lemma_rounds(s, m, 1); lemma_rounds(s, m, 2); lemma_rounds(s, m, 3); lemma_rounds(s, m, 4);
        lemma_rounds(s, m, 5); lemma_rounds(s, m, 6); lemma_rounds(s, m, 7);
    }
}
before round 1 {
    proof { assert(state@ =~= state0(cv@, offset, block_len as u32, flags as u32)); }
}
#fn compress
spec {
    ensures final(cv)@ == comp(old(cv)@, block@, block_len, offset, flags)
}
start {
    hide(rounds); hide(words16);
}
loop 1 {
    invariant
        state@ == rounds(state0(old(cv)@, offset, block_len as u32, flags as u32), words16(block@), 7),
        forall|j: int| 0 <= j < i ==> #[trigger] cv@[j] == state@[j] ^ state@[j + 8],
}
end {
    proof { reveal(comp); assert(cv@ =~= comp(old(cv)@, block@, block_len, offset, flags)); }
}
#fn compress_xof
ret r
spec {
    ensures r@ == xofblk(cv@, block@, block_len, offset, flags)
}
start {
    hide(rounds); hide(words16);
}
loop 1 {
    invariant
        state@ == rounds(state0(cv@, offset, block_len as u32, flags as u32), words16(block@), 7),
        forall|j: int| 0 <= j < 4 * i ==> #[trigger] output@[j] == le4(state@[j / 4] ^ state@[j / 4 + 8])[j % 4],
}
loop 2 {
    invariant
        state@ == rounds(state0(cv@, offset, block_len as u32, flags as u32), words16(block@), 7),
        forall|j: int| 0 <= j < 32 ==> #[trigger] output@[j] == le4(state@[j / 4] ^ state@[j / 4 + 8])[j % 4],
        forall|j: int| 32 <= j < 4 * i ==> #[trigger] output@[j] == le4(state@[j / 4] ^ cv@[j / 4 - 8])[j % 4],
}
return {
    proof { reveal(xofblk); assert(vx_ret@ =~= xofblk(cv@, block@, block_len, offset, flags)); }
}
#fn hash1
spec {
    requires A::cap() % 64 == 0,
    ensures final(out)@ == hm(key@, input.ab(), offset, flags, flags_start, flags_end),
}
start {
    hide(hmflags);
    let ghost vx_n = (input.ab().len() / 64) as nat;
    let ghost mut vx_k: int = 0;
    proof { input.law(); }
}
loop 1 {
    invariant
        input.ab().len() == 64 * vx_n, 0 <= vx_k <= vx_n,
        slice@ == input.ab().subrange(64 * vx_k, input.ab().len() as int),
        cv@ == hmfold(key@, input.ab(), vx_n, vx_k as nat, offset, flags, flags_start, flags_end),
        block_flags == (if vx_k == 0 { flags | flags_start } else { flags }),
    decreases slice.len()
}
loopstart 1 {
    proof {
        lemma_hmflags(vx_n, vx_k, flags, flags_start, flags_end, block_flags);
        assert(slice@.subrange(0, 64) =~= input.ab().subrange(64 * vx_k, 64 * (vx_k + 1)));
        assert(slice@.subrange(64, slice@.len() as int) =~= input.ab().subrange(64 * (vx_k + 1), input.ab().len() as int));
        assert(slice@.subrange(0, slice@.len() as int) =~= slice@);
        assert(slice@.len() == 64 <==> vx_k == vx_n - 1);
        assert(hmfold(key@, input.ab(), vx_n, (vx_k + 1) as nat, offset, flags, flags_start, flags_end)
            == comp(cv@, input.ab().subrange(64 * vx_k, 64 * (vx_k + 1)), 64, offset, hmflags(vx_n, vx_k, flags, flags_start, flags_end)));
        vx_k = vx_k + 1;
    }
}
#fn hash_many
spec {
    requires 32 * inputs.len() <= old(out).len(), offset + inputs.len() * offset_delta < 0x1_0000_0000_0000_0000,
        forall|i: int| 0 <= i < inputs.len() ==> (#[trigger] inputs[i]).ab().len() % 64 == 0,
    ensures hm_post(inputs@, key@, offset, offset_delta, flags, flags_start, flags_end, old(out)@, final(out)@),
}
start {
    hide(hm);
    let ghost vx_off = offset;
    let ghost vx_d = offset_delta as int;
}
loop 1 {
    invariant
        vx_d == offset_delta, vx_ix1 <= inputs.len(), vx_lo1_1 == 32 * vx_ix1, 32 * inputs.len() <= out.len(), out.len() == old(out).len(),
        vx_off + inputs.len() * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_ix1 * vx_d,
        forall|i: int| 0 <= i < inputs.len() ==> (#[trigger] inputs[i]).ab().len() % 64 == 0,
        forall|i: int| 0 <= i < vx_ix1 ==> #[trigger] out@.subrange(32 * i, 32 * i + 32) == hm(key@, inputs[i].ab(), (vx_off + i * vx_d) as u64, flags, flags_start, flags_end),
        out@.subrange(32 * vx_ix1, out.len() as int) == old(out)@.subrange(32 * vx_ix1, out.len() as int),
    ensures
        vx_ix1 == inputs.len(),
    decreases inputs.len() - vx_ix1
}
loopstart 1 {
    let ghost vx_o0 = out@;
    proof {
        if vx_ix1 < inputs.len() {
            inputs[vx_ix1 as int].law();
            assert((vx_ix1 + 1) * vx_d == vx_ix1 * vx_d + vx_d) by (nonlinear_arith);
            assert((vx_ix1 + 1) * vx_d <= inputs.len() * vx_d) by (nonlinear_arith) requires vx_ix1 + 1 <= inputs.len(), vx_d >= 0;
        }
    }
}
loopend 1 {
    proof {
        let e = 32 * vx_ix1 as int;
        assert(out@ =~= vx_o0.subrange(0, e - 32) + out@.subrange(e - 32, e) + vx_o0.subrange(e, vx_o0.len() as int));
        assert forall|i: int| 0 <= i < vx_ix1 implies #[trigger] out@.subrange(32 * i, 32 * i + 32) == hm(key@, inputs[i].ab(), (vx_off + i * vx_d) as u64, flags, flags_start, flags_end) by {
            if i < vx_ix1 - 1 { assert(out@.subrange(32 * i, 32 * i + 32) =~= vx_o0.subrange(32 * i, 32 * i + 32)); }
        }
        assert(out@.subrange(e, out.len() as int) =~= vx_o0.subrange(e - 32, out.len() as int).subrange(32, out.len() - (e - 32)));
        assert(old(out)@.subrange(e, out.len() as int) =~= old(out)@.subrange(e - 32, out.len() as int).subrange(32, out.len() - (e - 32)));
    }
}
#text {
}
fn main() {}
#end
