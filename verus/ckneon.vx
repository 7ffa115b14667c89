// Contracts for c/baokeshed_neon.c (translated by cx.py): the four-lane kernel and the loops over blocks and inputs.
#include shim.rs
#include comp.rs
#include hmspec.rs
#include ck.rs
#include simd.rs
#include simdneon.rs
#text {
verus! {
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 7 ==> #[trigger] sched_row(r) }
// lane i of the vector read from input r at 16 * q
pub open spec fn tmsg(o: Seq<uint32x4_t>, q: int, r: int, i: int) -> u32 { o[4 * q + r]@[i] }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6));
}
pub proof fn lemma_rounds(s: Seq<u32>, m: Seq<u32>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
// discharged from c/baokeshed_portable.c (ckport)
#[verifier::external_body]
pub fn compress_portable(state: &mut [u32], block: &[u8], block_len: u8, offset: u64, flags: u8)
    requires cpre(old(state)@, block@, block_len),
    ensures cpost(old(state)@, final(state)@, block@, block_len, offset, flags),
{ unimplemented!() }
#end
#file ckneon.rs
#const IV MSG_SCHEDULE
#fn offset_low
ret r
spec {
    ensures r == offset as u32
}
#fn offset_high
ret r
spec {
    ensures r == (offset >> 32u64) as u32
}
return {
    proof { assert(offset >> 32u32 == offset >> 32u64) by (bit_vector); }
}
#fn loadu_128
ret r
spec {
    requires src.len() >= 16,
    ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == of_le4(src@.subrange(4 * i, 4 * i + 4)),
}
#fn storeu_128
spec {
    requires old(dest).len() >= 16,
    ensures final(dest).len() == old(dest).len(), final(dest)@.subrange(0, 16) == lebytes(src@),
        forall|lo: int, hi: int| 16 <= lo <= hi <= old(dest).len() ==> #[trigger] final(dest)@.subrange(lo, hi) == old(dest)@.subrange(lo, hi),
        forall|i: int| 16 <= i < old(dest).len() ==> #[trigger] final(dest)@[i] == old(dest)@[i],
}
end {
    proof {
        assert(dest@.subrange(0, 16) =~= lebytes(src@));
        assert forall|lo: int, hi: int| 16 <= lo <= hi <= dest.len() implies #[trigger] dest@.subrange(lo, hi) == old(dest)@.subrange(lo, hi) by {
            assert(dest@.subrange(lo, hi) =~= old(dest)@.subrange(lo, hi));
        }
    }
}
#fn add_128
ret r
spec {
    ensures r@ == vadd(a@, b@)
}
#fn xor_128
ret r
spec {
    ensures r@ == vxor(a@, b@)
}
#fn set1_128
ret r
spec {
    ensures r@ == vset1(4, x)
}
#fn set4
ret r
spec {
    ensures r@ == seq![a, b, c, d]
}
return {
    proof { assert(vx_ret@ =~= seq![a, b, c, d]); }
}
#fn rot16_128
ret r
spec {
    ensures r@ == vrot(x@, 16)
}
return {
    proof {
        lemma_rotx(x@[0], 16); lemma_rotx(x@[1], 16); lemma_rotx(x@[2], 16); lemma_rotx(x@[3], 16);
        assert(vx_ret@ =~= vrot(x@, 16));
    }
}
#fn rot12_128
ret r
spec {
    ensures r@ == vrot(x@, 12)
}
return {
    proof {
        lemma_rotx(x@[0], 12); lemma_rotx(x@[1], 12); lemma_rotx(x@[2], 12); lemma_rotx(x@[3], 12);
        assert(vx_ret@ =~= vrot(x@, 12));
    }
}
#fn rot8_128
ret r
spec {
    ensures r@ == vrot(x@, 8)
}
return {
    proof {
        lemma_rotx(x@[0], 8); lemma_rotx(x@[1], 8); lemma_rotx(x@[2], 8); lemma_rotx(x@[3], 8);
        assert(vx_ret@ =~= vrot(x@, 8));
    }
}
#fn rot7_128
ret r
spec {
    ensures r@ == vrot(x@, 7)
}
return {
    proof {
        lemma_rotx(x@[0], 7); lemma_rotx(x@[1], 7); lemma_rotx(x@[2], 7); lemma_rotx(x@[3], 7);
        assert(vx_ret@ =~= vrot(x@, 7));
    }
}
#fn round_fn4
spec {
    requires r < 7, old(v).len() == 16, old(m).len() == 16,
    ensures final(v).len() == 16,
        forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(final(v)@), j) == round_spec(lane(vw(old(v)@), j), lane(vw(old(m)@), j), r as int), final(m)@ == old(m)@,
}
start {
    hide(vadd); hide(vxor); hide(vrot); hide(sched);
    proof { lemma_sched(); assert(sched_row(r as int)); }
}
end {
    proof {
        let s = vw(old(v)@);
        let mm = vw(m@);
        assert(vw(v@) =~= vround(s, mm, r as int));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(v@), j) == round_spec(lane(s, j), lane(mm, j), r as int) by { lemma_vround(s, mm, r as int, 4, j); }
    }
}
#fn transpose_vecs_128
spec {
    requires old(vecs).len() >= 4,
    ensures final(vecs).len() == old(vecs).len(), final(vecs)@.subrange(4, final(vecs).len() as int) == old(vecs)@.subrange(4, old(vecs).len() as int),
        forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] final(vecs)@[i]@[j] == old(vecs)@[j]@[i],
}
end {
    proof { assert(vecs@.subrange(4, vecs.len() as int) =~= old(vecs)@.subrange(4, vecs.len() as int)); }
}
#fn transpose_msg_vecs4
spec {
    requires old(out).len() == 16, inputs.len() >= 4, block_offset + 64 <= 0xffff_ffff_ffff_ffff, forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j])@.len() >= block_offset + 64,
    ensures final(out).len() == 16, forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(final(out)@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 64)),
}
start {
    hide(le4); hide(of_le4);
    let ghost mut vx_o0: Seq<uint32x4_t> = Seq::empty();
    let ghost mut vx_o1: Seq<uint32x4_t> = Seq::empty();
    let ghost mut vx_o2: Seq<uint32x4_t> = Seq::empty();
    let ghost mut vx_o3: Seq<uint32x4_t> = Seq::empty();
}
before transpose_vecs_128 1 {
    proof {
        vx_o0 = out@;
        assert forall|q: int, r: int, i: int| 0 <= q < 4 && 0 <= r < 4 && 0 <= i < 4 implies #[trigger] tmsg(vx_o0, q, r, i) == of_le4(inputs[r]@.subrange(block_offset + 16 * q + 4 * i, block_offset + 16 * q + 4 * i + 4)) by {
            let l = inputs[r]@.len() as int;
            assert(inputs[r]@.subrange(block_offset + 16 * q, l).subrange(4 * i, 4 * i + 4) =~= inputs[r]@.subrange(block_offset + 16 * q + 4 * i, block_offset + 16 * q + 4 * i + 4));
        }
    }
}
before transpose_vecs_128 2 {
    proof {
        vx_o1 = out@;
        assert(vx_o1.subrange(4, 16) =~= vx_o0.subrange(4, 16));
    }
}
before transpose_vecs_128 3 {
    proof {
        vx_o2 = out@;
        assert(vx_o2.subrange(0, 4) =~= vx_o1.subrange(0, 4));
        assert(vx_o2.subrange(8, 16) =~= vx_o1.subrange(4, 16).subrange(4, 12));
    }
}
before transpose_vecs_128 4 {
    proof {
        vx_o3 = out@;
        assert(vx_o3.subrange(0, 8) =~= vx_o2.subrange(0, 8));
        assert(vx_o3.subrange(12, 16) =~= vx_o2.subrange(8, 16).subrange(4, 8));
    }
}
end {
    proof {
        assert(out@.subrange(0, 12) =~= vx_o3.subrange(0, 12));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(out@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 64)) by {
            let sub = inputs[j]@.subrange(block_offset as int, block_offset + 64);
            assert forall|k: int| 0 <= k < 16 implies lane(vw(out@), j)[k] == words16(sub)[k] by {
                let (q, i) = (k / 4, k % 4);
                assert(tmsg(vx_o0, q, j, i) == of_le4(inputs[j]@.subrange(block_offset + 16 * q + 4 * i, block_offset + 16 * q + 4 * i + 4)));
                assert(sub.subrange(4 * k, 4 * k + 4) =~= inputs[j]@.subrange(block_offset + 16 * q + 4 * i, block_offset + 16 * q + 4 * i + 4));
            }
            assert(lane(vw(out@), j) =~= words16(sub));
        }
    }
}
#fn load_offsets4
spec {
    requires deltas.len() >= 4, forall|j: int| 0 <= j < 4 ==> offset + (#[trigger] deltas[j]) < 0x1_0000_0000_0000_0000, old(out_lo).len() == 1, old(out_hi).len() == 1,
    ensures final(out_lo).len() == 1, final(out_hi).len() == 1,
        forall|j: int| 0 <= j < 4 ==> #[trigger] final(out_lo)@[0]@[j] == ((offset + deltas[j]) as u64) as u32,
        forall|j: int| 0 <= j < 4 ==> #[trigger] final(out_hi)@[0]@[j] == (((offset + deltas[j]) as u64) >> 32u64) as u32,
}
#fn hash4_neon
spec {
    requires
        inputs.len() >= 4, key_words.len() >= 8, offset_deltas.len() >= 4, old(out).len() >= 128,
        forall|j: int| 0 <= j < 4 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(128, final(out).len() as int) == old(out)@.subrange(128, old(out).len() as int),
        forall|j: int| 0 <= j < 4 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 8), inputs[j]@.subrange(0, 64 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
start {
    hide(hmflags); hide(round_spec); hide(words16); hide(rounds); hide(lebytes); hide(le4); hide(hm);
    let ghost mut vx_hf: Seq<Seq<u32>> = Seq::empty();
    let ghost vx_off = |j: int| (offset + offset_deltas@[j]) as u64;
    let ghost vx_key = pfx(key_words@, 8);
    let ghost vx_b = |j: int| inputs[j]@.subrange(0, 64 * blocks);
    let ghost vx_h = |k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end);
}
beforeloop 1 {
    proof {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(h_vecs@), j) == vx_h(0, j) by { assert(lane(vw(h_vecs@), j) =~= vx_key); }
    }
}
loop 1 {
    invariant
        block <= blocks, inputs[0]@.len() >= 64 * blocks, out@ == old(out)@,
        forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
        forall|j: int| 0 <= j < 4 ==> #[trigger] offset_low_vec@[j] == vx_off(j) as u32,
        forall|j: int| 0 <= j < 4 ==> #[trigger] offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32,
        vx_b == (|j: int| inputs[j]@.subrange(0, 64 * blocks)), inputs.len() >= 4,
        vx_h == (|k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end)),
        block_flags == (if block == 0 { flags | flags_start } else { flags }),
        forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(h_vecs@), j) == vx_h(block as nat, j),
    decreases blocks - block
}
loopstart 1 {
    let ghost mut vx_bk: int = 0;
    let ghost vx_h0 = vw(h_vecs@);
    let ghost mut vx_v0: Seq<Seq<u32>> = Seq::empty();
    let ghost mut vx_m0: Seq<uint32x4_t> = Seq::empty();
    let ghost vx_f = hmflags(blocks as nat, block as int, flags, flags_start, flags_end);
    proof {
        lemma_hmflags(blocks as nat, block as int, flags, flags_start, flags_end, block_flags);
        assert(inputs[0].len() >= 64 * blocks);
        vx_bk = block as int;
    }
}
before round_fn4 1 {
    proof {
        vx_v0 = vw(v@);
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vx_v0, j) == state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32) by {
            assert(offset_low_vec@[j] == vx_off(j) as u32); assert(offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32);
            assert(lane(vx_v0, j) =~= state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32));
        }
        vx_m0 = msg_vecs@;
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(vx_m0), j) == words16(vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1))) by {
            assert(inputs[j]@.subrange(64 * vx_bk, 64 * vx_bk + 64) =~= vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1)));
        }
    }
}
loopend 1 {
    proof {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(h_vecs@), j) == vx_h((vx_bk + 1) as nat, j) by {
            let b = vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1));
            let m = words16(b);
            let s = lane(vx_v0, j);
            lemma_rounds(s, m, 1); lemma_rounds(s, m, 2); lemma_rounds(s, m, 3); lemma_rounds(s, m, 4);
            lemma_rounds(s, m, 5); lemma_rounds(s, m, 6); lemma_rounds(s, m, 7);
            assert(msg_vecs@ == vx_m0);
            assert(lane(vw(msg_vecs@), j) == m);
            assert(lane(vw(v@), j) == rounds(s, m, 7));
            reveal(comp);
            assert(lane(vw(h_vecs@), j) =~= comp(lane(vx_h0, j), b, 64, vx_off(j), vx_f));
            assert(vx_h((vx_bk + 1) as nat, j) == comp(vx_h(vx_bk as nat, j), b, 64, vx_off(j), vx_f));
        }
    }
}
afterloop 1 {
    proof { vx_hf = vw(h_vecs@); }
}
end {
    proof {
        assert(out@.subrange(128, out.len() as int) =~= old(out)@.subrange(128, out.len() as int));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] out@.subrange(32 * j, 32 * j + 32) == hm(vx_key, vx_b(j), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end) by {
            let w = lane(vx_hf, j);
            assert(out@.subrange(32 * j, 32 * j + 16) == lebytes(h_vecs@[j]@));
            assert(out@.subrange(32 * j + 16, 32 * j + 32) == lebytes(h_vecs@[4 + j]@));
            assert(h_vecs@[j]@ =~= w.subrange(0, 4));
            assert(h_vecs@[4 + j]@ =~= w.subrange(4, 8));
            lemma_bytes8_halves(w);
            assert(out@.subrange(32 * j, 32 * j + 32) =~= out@.subrange(32 * j, 32 * j + 16) + out@.subrange(32 * j + 16, 32 * j + 32));
            assert(w == vx_h(blocks as nat, j));
            reveal(hm);
        }
    }
}
#fn hash_one_neon
spec {
    requires input.len() >= 64 * blocks, key_words.len() >= 8, old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, hm(pfx(key_words@, 8), input@.subrange(0, 64 * blocks), offset, flags, flags_start, flags_end)), final(out).len() == old(out).len(),
}
start {
    hide(hmflags);
    let ghost vx_in = input@;
    let ghost vx_n = blocks as nat;
    let ghost vx_key = pfx(key_words@, 8);
    let ghost vx_b = input@.subrange(0, 64 * blocks);
    let ghost mut vx_k: int = 0;
}
beforeloop 1 {
    proof {
        assert(state@ =~= vx_key);
        assert(vx_in.subrange(0, vx_in.len() as int) =~= vx_in);
    }
}
loop 1 {
    invariant
        vx_in.len() >= 64 * vx_n, 0 <= vx_k <= vx_n, blocks == vx_n - vx_k, vx_b == vx_in.subrange(0, 64 * vx_n as int),
        input@ == vx_in.subrange(64 * vx_k, vx_in.len() as int),
        state@ == hmfold(vx_key, vx_b, vx_n, vx_k as nat, offset, flags, flags_start, flags_end),
        block_flags == (if vx_k == 0 { flags | flags_start } else { flags }),
    decreases blocks
}
loopstart 1 {
    proof {
        lemma_hmflags(vx_n, vx_k, flags, flags_start, flags_end, block_flags);
        assert(pfx(input@, 64) =~= vx_b.subrange(64 * vx_k, 64 * (vx_k + 1)));
        assert(input@.subrange(64, input@.len() as int) =~= vx_in.subrange(64 * (vx_k + 1), vx_in.len() as int));
        assert(hmfold(vx_key, vx_b, vx_n, (vx_k + 1) as nat, offset, flags, flags_start, flags_end)
            == comp(state@, vx_b.subrange(64 * vx_k, 64 * (vx_k + 1)), 64, offset, hmflags(vx_n, vx_k, flags, flags_start, flags_end)));
        vx_k = vx_k + 1;
    }
}
#fn hash_many_neon
spec {
    requires hmpre(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, 5, old(out)@),
    ensures hmpost(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, flags, flags_start, flags_end, old(out)@, final(out)@),
}
start {
    hide(hm); hide(cpart);
    let ghost vx_in = inputs@;
    let ghost vx_n = num_inputs as int;
    let ghost vx_off = offset as int;
    let ghost vx_d = offset_deltas@[1] as int;
    let ghost mut vx_k: int = 0;
    proof {
        reveal(cpart);
        assert(cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, 0));
        assert(vx_off + 0 * vx_d == vx_off);
        assert(inputs@.subrange(0, inputs@.len() as int) =~= inputs@);
    }
}
loop 1 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 5 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 5, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 1 {
    let ghost vx_o0 = out@;
    proof {
        lemma_cmul(vx_k + 4, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 4) * vx_d == vx_k * vx_d + 4 * vx_d) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < 4 implies (#[trigger] inputs@[j]) == vx_in[vx_k + j] by { }
        assert forall|j: int| 0 <= j < 4 implies offset + (#[trigger] offset_deltas@[j]) < 0x1_0000_0000_0000_0000 by {
            lemma_cmul(vx_k + j, vx_n, vx_d);
            assert((vx_k + j) * vx_d == vx_k * vx_d + j * vx_d) by (nonlinear_arith);
        }
        assert(inputs@.subrange(4, inputs@.len() as int) =~= vx_in.subrange(vx_k + 4, vx_in.len() as int));
    }
}
loopend 1 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let o4 = out@.subrange(e, l);
        assert forall|j: int| 0 <= j < 4 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o0.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 4), l) =~= o4.subrange(128, l - e));
        assert(vx_o0.subrange(32 * (vx_k + 4), l) =~= vx_o0.subrange(e, l).subrange(128, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 4);
        vx_k = vx_k + 4;
    }
}
loop 2 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 5 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 5, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 2 {
    let ghost vx_o1 = out@;
    proof {
        lemma_cmul(vx_k + 1, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 1) * vx_d == vx_k * vx_d + vx_d) by (nonlinear_arith);
        assert(inputs@[0] == vx_in[vx_k]);
        assert(inputs@.subrange(1, inputs@.len() as int) =~= vx_in.subrange(vx_k + 1, vx_in.len() as int));
    }
}
loopend 2 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let h = hm(pfx(key_words@, 8), vx_in[vx_k]@.subrange(0, 64 * blocks), (vx_off + vx_k * vx_d) as u64, flags, flags_start, flags_end);
        assert(h.len() == 32) by { reveal(hm); }
        assert(out@.subrange(e, e + 32) =~= h);
        assert(out@.subrange(0, e) =~= vx_o1.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 1), l) =~= vx_o1.subrange(32 * (vx_k + 1), l));
        assert forall|j: int| 0 <= j < 1 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by { assert(j == 0); }
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o1, vx_k, out@, 1);
        vx_k = vx_k + 1;
    }
}
end {
    proof { reveal(cpart); }
}
#text {
}
fn main() {}
#end
