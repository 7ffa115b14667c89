// Contracts for c/baokeshed_portable.c (translated by cx.py): the compression function and the loops over blocks and inputs.
#include shim.rs
#include comp.rs
#include hmspec.rs
#include ck.rs
#text {
verus! {
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 7 ==> #[trigger] sched_row(r) }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6));
}
pub proof fn lemma_rounds(s: Seq<u32>, m: Seq<u32>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
#end
#file ckport.rs
#const IV MSG_SCHEDULE
#fn load32
ret r
spec {
    requires src.len() >= 4,
    ensures r == of_le4(src@.subrange(0, 4)),
}
#fn store32
spec {
    requires old(dst).len() >= 4,
    ensures final(dst)@ == put(old(dst)@, le4(w)), final(dst).len() == old(dst).len(),
}
end {
    proof {
        let w0 = w;
        assert(w0 as u8 == (w0 & 255) as u8) by (bit_vector);
        assert(dst@ =~= put(old(dst)@, le4(w)));
    }
}
#fn rotr32
ret r
spec {
    requires 0 < c < 32,
    ensures r == rotr(w, c),
}
#fn offset_low
ret r
spec {
    ensures r == offset as u32
}
#fn offset_high
ret r
spec {
    ensures r == (offset >> 32u64) as u32
}
return {
    proof { assert(offset >> 32u32 == offset >> 32u64) by (bit_vector); }
}
#fn load_msg_words
spec {
    requires block.len() >= 64, old(words).len() >= 16,
    ensures final(words).len() == old(words).len(), pfx(final(words)@, 16) == words16(block@.subrange(0, 64)), final(words)@.subrange(16, final(words).len() as int) == old(words)@.subrange(16, old(words).len() as int),
}
start {
    let ghost vx_b = block@.subrange(0, 64);
    proof {
        let l = block.len() as int;
        assert forall|i: int| 0 <= i < 16 implies (#[trigger] block@.subrange(4 * i, l)).subrange(0, 4) == vx_b.subrange(4 * i, 4 * i + 4) by {
            assert(block@.subrange(4 * i, l).subrange(0, 4) =~= vx_b.subrange(4 * i, 4 * i + 4));
        }
        assert(block@.subrange(4 * 0int, l) =~= block@);
        let _ = (block@.subrange(4 * 1int, l), block@.subrange(4 * 2int, l), block@.subrange(4 * 3int, l), block@.subrange(4 * 4int, l), block@.subrange(4 * 5int, l));
        let _ = (block@.subrange(4 * 6int, l), block@.subrange(4 * 7int, l), block@.subrange(4 * 8int, l), block@.subrange(4 * 9int, l), block@.subrange(4 * 10int, l));
        let _ = (block@.subrange(4 * 11int, l), block@.subrange(4 * 12int, l), block@.subrange(4 * 13int, l), block@.subrange(4 * 14int, l), block@.subrange(4 * 15int, l));
    }
}
end {
    proof {
        assert(pfx(words@, 16) =~= words16(vx_b));
        assert(words@.subrange(16, words.len() as int) =~= old(words)@.subrange(16, words.len() as int));
    }
}
#fn write_state_bytes
spec {
    requires state.len() >= 8, old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, bytes8(pfx(state@, 8))), final(out).len() == old(out).len(),
}
end {
    proof {
        let w = pfx(state@, 8);
        assert(out@.subrange(28, 32) =~= le4(w[7]));
        assert(out@.subrange(24, 28) =~= le4(w[6]));
        assert(out@.subrange(20, 24) =~= le4(w[5]));
        assert(out@.subrange(16, 20) =~= le4(w[4]));
        assert(out@.subrange(12, 16) =~= le4(w[3]));
        assert(out@.subrange(8, 12) =~= le4(w[2]));
        assert(out@.subrange(4, 8) =~= le4(w[1]));
        assert(out@.subrange(0, 4) =~= le4(w[0]));
        assert(out@.subrange(32, out@.len() as int) =~= old(out)@.subrange(32, out@.len() as int));
        lemma_words_out(old(out)@, w, out@);
    }
}
#fn g
spec {
    requires old(state).len() == 16, a < 16, b < 16, c < 16, d < 16, a != b, a != c, a != d, b != c, b != d, c != d,
    ensures final(state)@ == g_spec(old(state)@, a as int, b as int, c as int, d as int, x, y), final(state).len() == 16,
}
start {
    hide(rotr);
}
end {
    proof {
        let e = g_spec(old(state)@, a as int, b as int, c as int, d as int, x, y);
        assert(e.len() == 16);
        assert(state@[a as int] == e[a as int]);
        assert(state@[b as int] == e[b as int]);
        assert(state@[c as int] == e[c as int]);
        assert(state@[d as int] == e[d as int]);
        assert forall|j: int| 0 <= j < 16 implies state@[j] == e[j] by { if j != a && j != b && j != c && j != d { } }
        assert(state@ =~= e);
    }
}
#fn round_fn
spec {
    requires round < 7, old(state).len() == 16, msg.len() == 16,
    ensures final(state)@ == round_spec(old(state)@, msg@, round as int), final(state).len() == 16,
}
start {
    hide(g_spec);
    hide(sched);
    proof { lemma_sched(); assert(sched_row(round as int)); }
}
#fn compress_portable
spec {
    requires cpre(old(state)@, block@, block_len),
    ensures cpost(old(state)@, final(state)@, block@, block_len, offset, flags),
}
start {
    hide(round_spec); hide(words16); hide(rounds);
    let ghost vx_cv = pfx(state@, 8);
    let ghost vx_m = words16(block@.subrange(0, 64));
    let ghost vx_s = state0(vx_cv, offset, block_len as u32, flags as u32);
    proof {
        assert(pfx(block@, 64) =~= block@.subrange(0, 64));
        lemma_rounds(vx_s, vx_m, 1); lemma_rounds(vx_s, vx_m, 2); lemma_rounds(vx_s, vx_m, 3); lemma_rounds(vx_s, vx_m, 4);
        lemma_rounds(vx_s, vx_m, 5); lemma_rounds(vx_s, vx_m, 6); lemma_rounds(vx_s, vx_m, 7);
    }
}
before round_fn 1 {
    proof {
        assert(full_state@ =~= vx_s);
        assert(block_words@ =~= pfx(block_words@, 16));
    }
}
end {
    proof {
        reveal(comp);
        assert(pfx(state@, 8) =~= comp(vx_cv, block@.subrange(0, 64), block_len, offset, flags));
        assert(state@.subrange(8, state.len() as int) =~= old(state)@.subrange(8, state.len() as int));
    }
}
#fn hash_one_portable
spec {
    requires input.len() >= 64 * blocks, key_words.len() >= 8, old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, hm(pfx(key_words@, 8), input@.subrange(0, 64 * blocks), offset, flags, flags_start, flags_end)), final(out).len() == old(out).len(),
}
start {
    hide(hmflags);
    let ghost vx_in = input@;
    let ghost vx_n = blocks as nat;
    let ghost vx_key = pfx(key_words@, 8);
    let ghost vx_b = input@.subrange(0, 64 * blocks);
    let ghost mut vx_k: int = 0;
}
beforeloop 1 {
    proof {
        assert(state@ =~= vx_key);
        assert(vx_in.subrange(0, vx_in.len() as int) =~= vx_in);
    }
}
loop 1 {
    invariant
        vx_in.len() >= 64 * vx_n, 0 <= vx_k <= vx_n, blocks == vx_n - vx_k, vx_b == vx_in.subrange(0, 64 * vx_n as int),
        input@ == vx_in.subrange(64 * vx_k, vx_in.len() as int),
        state@ == hmfold(vx_key, vx_b, vx_n, vx_k as nat, offset, flags, flags_start, flags_end),
        block_flags == (if vx_k == 0 { flags | flags_start } else { flags }),
    decreases blocks
}
loopstart 1 {
    proof {
        lemma_hmflags(vx_n, vx_k, flags, flags_start, flags_end, block_flags);
        assert(pfx(input@, 64) =~= vx_b.subrange(64 * vx_k, 64 * (vx_k + 1)));
        assert(input@.subrange(64, input@.len() as int) =~= vx_in.subrange(64 * (vx_k + 1), vx_in.len() as int));
        assert(hmfold(vx_key, vx_b, vx_n, (vx_k + 1) as nat, offset, flags, flags_start, flags_end)
            == comp(state@, vx_b.subrange(64 * vx_k, 64 * (vx_k + 1)), 64, offset, hmflags(vx_n, vx_k, flags, flags_start, flags_end)));
        vx_k = vx_k + 1;
    }
}
#fn hash_many_portable
spec {
    requires hmpre(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, 2, old(out)@),
    ensures hmpost(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, flags, flags_start, flags_end, old(out)@, final(out)@),
}
start {
    hide(hm); hide(cpart);
    let ghost vx_in = inputs@;
    let ghost vx_n = num_inputs as int;
    let ghost vx_off = offset as int;
    let ghost vx_d = offset_deltas@[1] as int;
    let ghost mut vx_k: int = 0;
    proof {
        reveal(cpart);
        assert(cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, 0));
        assert(vx_off + 0 * vx_d == vx_off);
        assert(inputs@.subrange(0, inputs@.len() as int) =~= inputs@);
    }
}
loop 1 {
    invariant
        vx_d == offset_deltas@[1], offset_deltas.len() >= 2, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 1 {
    let ghost vx_o0 = out@;
    proof {
        lemma_cmul(vx_k + 1, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 1) * vx_d == vx_k * vx_d + vx_d) by (nonlinear_arith);
        assert(inputs@[0] == vx_in[vx_k]);
        assert(inputs@.subrange(1, inputs@.len() as int) =~= vx_in.subrange(vx_k + 1, vx_in.len() as int));
    }
}
loopend 1 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let h = hm(pfx(key_words@, 8), vx_in[vx_k]@.subrange(0, 64 * blocks), (vx_off + vx_k * vx_d) as u64, flags, flags_start, flags_end);
        assert(h.len() == 32) by { reveal(hm); }
        assert(out@.subrange(e, e + 32) =~= h);
        assert(out@.subrange(0, e) =~= vx_o0.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 1), l) =~= vx_o0.subrange(32 * (vx_k + 1), l));
        assert forall|j: int| 0 <= j < 1 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by { assert(j == 0); }
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 1);
        vx_k = vx_k + 1;
    }
}
end {
    proof { reveal(cpart); }
}
#text {
}
fn main() {}
#end
