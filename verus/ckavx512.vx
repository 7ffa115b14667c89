// Contracts for hash_many_avx512 and hash_one_avx512 of c/baokeshed_avx512.c (translated by cx.py).
#include shim.rs
#include comp.rs
#include hmspec.rs
#include ck.rs
#text {
verus! {
pub struct __m128i { pub w: [u32; 4] }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
#end
#file ckavx512.rs
#fn compress_avx512 external
spec {
    requires cpre(old(state)@, block@, block_len),
    ensures cpost(old(state)@, final(state)@, block@, block_len, offset, flags),
}
#fn hash4_avx512 external
spec {
    requires
        inputs.len() >= 4, key_words.len() >= 8, offset_deltas.len() >= 4, old(out).len() >= 128,
        forall|j: int| 0 <= j < 4 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(128, final(out).len() as int) == old(out)@.subrange(128, old(out).len() as int),
        forall|j: int| 0 <= j < 4 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 8), inputs[j]@.subrange(0, 64 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
#fn hash8_avx512 external
spec {
    requires
        inputs.len() >= 8, key_words.len() >= 8, offset_deltas.len() >= 8, old(out).len() >= 256,
        forall|j: int| 0 <= j < 8 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 8 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(256, final(out).len() as int) == old(out)@.subrange(256, old(out).len() as int),
        forall|j: int| 0 <= j < 8 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 8), inputs[j]@.subrange(0, 64 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
#fn hash16_avx512 external
spec {
    requires
        inputs.len() >= 16, key_words.len() >= 8, offset_deltas.len() >= 16, old(out).len() >= 512,
        forall|j: int| 0 <= j < 16 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 16 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(512, final(out).len() as int) == old(out)@.subrange(512, old(out).len() as int),
        forall|j: int| 0 <= j < 16 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 8), inputs[j]@.subrange(0, 64 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
#fn hash_one_avx512
spec {
    requires input.len() >= 64 * blocks, key_words.len() >= 8, old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, hm(pfx(key_words@, 8), input@.subrange(0, 64 * blocks), offset, flags, flags_start, flags_end)), final(out).len() == old(out).len(),
}
start {
    hide(hmflags);
    let ghost vx_in = input@;
    let ghost vx_n = blocks as nat;
    let ghost vx_key = pfx(key_words@, 8);
    let ghost vx_b = input@.subrange(0, 64 * blocks);
    let ghost mut vx_k: int = 0;
}
beforeloop 1 {
    proof {
        assert(state@ =~= vx_key);
        assert(vx_in.subrange(0, vx_in.len() as int) =~= vx_in);
    }
}
loop 1 {
    invariant
        vx_in.len() >= 64 * vx_n, 0 <= vx_k <= vx_n, blocks == vx_n - vx_k, vx_b == vx_in.subrange(0, 64 * vx_n as int),
        input@ == vx_in.subrange(64 * vx_k, vx_in.len() as int),
        state@ == hmfold(vx_key, vx_b, vx_n, vx_k as nat, offset, flags, flags_start, flags_end),
        block_flags == (if vx_k == 0 { flags | flags_start } else { flags }),
    decreases blocks
}
loopstart 1 {
    proof {
        lemma_hmflags(vx_n, vx_k, flags, flags_start, flags_end, block_flags);
        assert(pfx(input@, 64) =~= vx_b.subrange(64 * vx_k, 64 * (vx_k + 1)));
        assert(input@.subrange(64, input@.len() as int) =~= vx_in.subrange(64 * (vx_k + 1), vx_in.len() as int));
        assert(hmfold(vx_key, vx_b, vx_n, (vx_k + 1) as nat, offset, flags, flags_start, flags_end)
            == comp(state@, vx_b.subrange(64 * vx_k, 64 * (vx_k + 1)), 64, offset, hmflags(vx_n, vx_k, flags, flags_start, flags_end)));
        vx_k = vx_k + 1;
    }
}
#fn hash_many_avx512
spec {
    requires hmpre(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, 17, old(out)@),
    ensures hmpost(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, flags, flags_start, flags_end, old(out)@, final(out)@),
}
start {
    hide(hm); hide(cpart);
    let ghost vx_in = inputs@;
    let ghost vx_n = num_inputs as int;
    let ghost vx_off = offset as int;
    let ghost vx_d = offset_deltas@[1] as int;
    let ghost mut vx_k: int = 0;
    proof {
        reveal(cpart);
        assert(cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, 0));
        assert(vx_off + 0 * vx_d == vx_off);
        assert(inputs@.subrange(0, inputs@.len() as int) =~= inputs@);
    }
}
loop 1 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 17 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 17, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 1 {
    let ghost vx_o0 = out@;
    proof {
        lemma_cmul(vx_k + 16, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 16) * vx_d == vx_k * vx_d + 16 * vx_d) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < 16 implies (#[trigger] inputs@[j]) == vx_in[vx_k + j] by { }
        assert forall|j: int| 0 <= j < 16 implies offset + (#[trigger] offset_deltas@[j]) < 0x1_0000_0000_0000_0000 by {
            lemma_cmul(vx_k + j, vx_n, vx_d);
            assert((vx_k + j) * vx_d == vx_k * vx_d + j * vx_d) by (nonlinear_arith);
        }
        assert(inputs@.subrange(16, inputs@.len() as int) =~= vx_in.subrange(vx_k + 16, vx_in.len() as int));
    }
}
loopend 1 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let o4 = out@.subrange(e, l);
        assert forall|j: int| 0 <= j < 16 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o0.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 16), l) =~= o4.subrange(512, l - e));
        assert(vx_o0.subrange(32 * (vx_k + 16), l) =~= vx_o0.subrange(e, l).subrange(512, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 16);
        vx_k = vx_k + 16;
    }
}
loop 2 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 17 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 17, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 2 {
    let ghost vx_o0 = out@;
    proof {
        lemma_cmul(vx_k + 8, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 8) * vx_d == vx_k * vx_d + 8 * vx_d) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < 8 implies (#[trigger] inputs@[j]) == vx_in[vx_k + j] by { }
        assert forall|j: int| 0 <= j < 8 implies offset + (#[trigger] offset_deltas@[j]) < 0x1_0000_0000_0000_0000 by {
            lemma_cmul(vx_k + j, vx_n, vx_d);
            assert((vx_k + j) * vx_d == vx_k * vx_d + j * vx_d) by (nonlinear_arith);
        }
        assert(inputs@.subrange(8, inputs@.len() as int) =~= vx_in.subrange(vx_k + 8, vx_in.len() as int));
    }
}
loopend 2 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let o4 = out@.subrange(e, l);
        assert forall|j: int| 0 <= j < 8 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o0.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 8), l) =~= o4.subrange(256, l - e));
        assert(vx_o0.subrange(32 * (vx_k + 8), l) =~= vx_o0.subrange(e, l).subrange(256, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 8);
        vx_k = vx_k + 8;
    }
}
loop 3 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 17 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 17, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 3 {
    let ghost vx_o0 = out@;
    proof {
        lemma_cmul(vx_k + 4, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 4) * vx_d == vx_k * vx_d + 4 * vx_d) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < 4 implies (#[trigger] inputs@[j]) == vx_in[vx_k + j] by { }
        assert forall|j: int| 0 <= j < 4 implies offset + (#[trigger] offset_deltas@[j]) < 0x1_0000_0000_0000_0000 by {
            lemma_cmul(vx_k + j, vx_n, vx_d);
            assert((vx_k + j) * vx_d == vx_k * vx_d + j * vx_d) by (nonlinear_arith);
        }
        assert(inputs@.subrange(4, inputs@.len() as int) =~= vx_in.subrange(vx_k + 4, vx_in.len() as int));
    }
}
loopend 3 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let o4 = out@.subrange(e, l);
        assert forall|j: int| 0 <= j < 4 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o0.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 4), l) =~= o4.subrange(128, l - e));
        assert(vx_o0.subrange(32 * (vx_k + 4), l) =~= vx_o0.subrange(e, l).subrange(128, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 4);
        vx_k = vx_k + 4;
    }
}
loop 4 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 17 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 17, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 4 {
    let ghost vx_o1 = out@;
    proof {
        lemma_cmul(vx_k + 1, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 1) * vx_d == vx_k * vx_d + vx_d) by (nonlinear_arith);
        assert(inputs@[0] == vx_in[vx_k]);
        assert(inputs@.subrange(1, inputs@.len() as int) =~= vx_in.subrange(vx_k + 1, vx_in.len() as int));
    }
}
loopend 4 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let h = hm(pfx(key_words@, 8), vx_in[vx_k]@.subrange(0, 64 * blocks), (vx_off + vx_k * vx_d) as u64, flags, flags_start, flags_end);
        assert(h.len() == 32) by { reveal(hm); }
        assert(out@.subrange(e, e + 32) =~= h);
        assert(out@.subrange(0, e) =~= vx_o1.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 1), l) =~= vx_o1.subrange(32 * (vx_k + 1), l));
        assert forall|j: int| 0 <= j < 1 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by { assert(j == 0); }
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o1, vx_k, out@, 1);
        vx_k = vx_k + 1;
    }
}
end {
    proof { reveal(cpart); }
}
#text {
}
fn main() {}
#end
