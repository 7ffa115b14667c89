// Contracts for hash16_avx512 of c/baokeshed_avx512.c (translated by cx.py).
#include shim.rs
#include comp.rs
#include hmspec.rs
#include ck.rs
#include simd.rs
#include q64.rs
#include simd512.rs
#text {
verus! {
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 7 ==> #[trigger] sched_row(r) }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6));
}
pub proof fn lemma_rounds(s: Seq<u32>, m: Seq<u32>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
#end
#file ck512x16.rs
#const IV MSG_SCHEDULE
#fn loadu_512
ret r
spec {
    requires src.len() >= 64,
    ensures r@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r@[i] == of_le4(src@.subrange(4 * i, 4 * i + 4)),
}
#fn storeu_256
spec {
    requires old(dest).len() >= 32,
    ensures final(dest).len() == old(dest).len(), final(dest)@.subrange(0, 32) == lebytes(src@),
        forall|lo: int, hi: int| 32 <= lo <= hi <= old(dest).len() ==> #[trigger] final(dest)@.subrange(lo, hi) == old(dest)@.subrange(lo, hi),
        forall|i: int| 32 <= i < old(dest).len() ==> #[trigger] final(dest)@[i] == old(dest)@[i],
}
end {
    proof {
        assert(dest@.subrange(0, 32) =~= lebytes(src@));
        assert forall|lo: int, hi: int| 32 <= lo <= hi <= dest.len() implies #[trigger] dest@.subrange(lo, hi) == old(dest)@.subrange(lo, hi) by {
            assert(dest@.subrange(lo, hi) =~= old(dest)@.subrange(lo, hi));
        }
    }
}
#fn add_512
ret r
spec {
    ensures r@ == vadd(a@, b@)
}
#fn xor_512
ret r
spec {
    ensures r@ == vxor(a@, b@)
}
#fn set1_512
ret r
spec {
    ensures r@ == vset1(16, x)
}
start {
    proof { lemma_i32(x); }
}
return {
    proof { assert(vx_ret@ =~= vset1(16, x)); }
}
#fn rot16_512
ret r
spec {
    ensures r@ == vrot(x@, 16)
}
#fn rot12_512
ret r
spec {
    ensures r@ == vrot(x@, 12)
}
#fn rot8_512
ret r
spec {
    ensures r@ == vrot(x@, 8)
}
#fn rot7_512
ret r
spec {
    ensures r@ == vrot(x@, 7)
}
#fn round_fn16
spec {
    requires r < 7, old(v).len() == 16, old(m).len() == 16,
    ensures final(v).len() == 16,
        forall|j: int| 0 <= j < 16 ==> #[trigger] lane(vw(final(v)@), j) == round_spec(lane(vw(old(v)@), j), lane(vw(old(m)@), j), r as int), final(m)@ == old(m)@,
}
start {
    hide(vadd); hide(vxor); hide(vrot); hide(sched);
    proof { lemma_sched(); assert(sched_row(r as int)); }
}
end {
    proof {
        let s = vw(old(v)@);
        let mm = vw(m@);
        assert(vw(v@) =~= vround(s, mm, r as int));
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lane(vw(v@), j) == round_spec(lane(s, j), lane(mm, j), r as int) by { lemma_vround(s, mm, r as int, 16, j); }
    }
}
#fn unpack_lo_128
ret r
spec {
    ensures r@ == quarter(a@, 0) + quarter(a@, 2) + quarter(b@, 0) + quarter(b@, 2)
}
#fn unpack_hi_128
ret r
spec {
    ensures r@ == quarter(a@, 1) + quarter(a@, 3) + quarter(b@, 1) + quarter(b@, 3)
}
#fn transpose_vecs_512
spec {
    requires old(vecs).len() == 16,
    ensures final(vecs).len() == 16,
        forall|i: int, j: int| 0 <= i < 16 && 0 <= j < 16 ==> #[trigger] final(vecs)@[i]@[j] == old(vecs)@[j]@[i],
}
#fn transpose_msg_vecs16
spec {
    requires old(out).len() == 16, inputs.len() >= 16, block_offset + 64 <= 0xffff_ffff_ffff_ffff, forall|j: int| 0 <= j < 16 ==> (#[trigger] inputs[j])@.len() >= block_offset + 64,
    ensures final(out).len() == 16, forall|j: int| 0 <= j < 16 ==> #[trigger] lane(vw(final(out)@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 64)),
}
start {
    hide(le4); hide(of_le4);
    let ghost mut vx_o0: Seq<__m512i> = Seq::empty();
}
before transpose_vecs_512 1 {
    proof {
        vx_o0 = out@;
        assert forall|r: int, i: int| 0 <= r < 16 && 0 <= i < 16 implies #[trigger] vx_o0[r]@[i] == of_le4(inputs[r]@.subrange(block_offset + 4 * i, block_offset + 4 * i + 4)) by {
            let l = inputs[r]@.len() as int;
            assert(inputs[r]@.subrange(block_offset as int, l).subrange(4 * i, 4 * i + 4) =~= inputs[r]@.subrange(block_offset + 4 * i, block_offset + 4 * i + 4));
        }
    }
}
end {
    proof {
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lane(vw(out@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 64)) by {
            let sub = inputs[j]@.subrange(block_offset as int, block_offset + 64);
            assert forall|k: int| 0 <= k < 16 implies lane(vw(out@), j)[k] == words16(sub)[k] by {
                assert(vx_o0[j]@[k] == of_le4(inputs[j]@.subrange(block_offset + 4 * k, block_offset + 4 * k + 4)));
                assert(sub.subrange(4 * k, 4 * k + 4) =~= inputs[j]@.subrange(block_offset + 4 * k, block_offset + 4 * k + 4));
            }
            assert(lane(vw(out@), j) =~= words16(sub));
        }
    }
}
#fn load_offsets16
spec {
    requires deltas.len() >= 16, forall|j: int| 0 <= j < 16 ==> offset + (#[trigger] deltas[j]) < 0x1_0000_0000_0000_0000, old(out_lo).len() == 1, old(out_hi).len() == 1,
    ensures final(out_lo).len() == 1, final(out_hi).len() == 1,
        forall|j: int| 0 <= j < 16 ==> #[trigger] final(out_lo)@[0]@[j] == ((offset + deltas[j]) as u64) as u32,
        forall|j: int| 0 <= j < 16 ==> #[trigger] final(out_hi)@[0]@[j] == (((offset + deltas[j]) as u64) >> 32u64) as u32,
}
start {
    proof { lemma_i64(offset); }
}
end {
    proof {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] q64(a@, j) == (offset + deltas[j]) as u64 by { assert(q64(a@, j) == add64(offset, deltas[j])); }
        assert forall|j: int| 0 <= j < 8 implies #[trigger] q64(b@, j) == (offset + deltas[j + 8]) as u64 by { assert(q64(b@, j) == add64(offset, deltas[j + 8])); }
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lo_indexes@[j] == 2 * j && hi_indexes@[j] == 2 * j + 1 by { }
        assert forall|j: int| 0 <= j < 16 implies #[trigger] out_lo@[0]@[j] == ((offset + deltas[j]) as u64) as u32 by {
            assert(lo_indexes@[j] == 2 * j);
            if j < 8 { lemma_qw(a@[2 * j], a@[2 * j + 1]); assert(q64(a@, j) == (offset + deltas[j]) as u64); }
            else { lemma_qw(b@[2 * (j - 8)], b@[2 * (j - 8) + 1]); assert(q64(b@, j - 8) == (offset + deltas[j]) as u64); }
        }
        assert forall|j: int| 0 <= j < 16 implies #[trigger] out_hi@[0]@[j] == (((offset + deltas[j]) as u64) >> 32u64) as u32 by {
            assert(lo_indexes@[j] == 2 * j);
            if j < 8 { lemma_qw(a@[2 * j], a@[2 * j + 1]); assert(q64(a@, j) == (offset + deltas[j]) as u64); }
            else { lemma_qw(b@[2 * (j - 8)], b@[2 * (j - 8) + 1]); assert(q64(b@, j - 8) == (offset + deltas[j]) as u64); }
        }
    }
}
#fn hash16_avx512
spec {
    requires
        inputs.len() >= 16, key_words.len() >= 8, offset_deltas.len() >= 16, old(out).len() >= 512,
        forall|j: int| 0 <= j < 16 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 16 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(512, final(out).len() as int) == old(out)@.subrange(512, old(out).len() as int),
        forall|j: int| 0 <= j < 16 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 8), inputs[j]@.subrange(0, 64 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
start {
    hide(hmflags); hide(round_spec); hide(words16); hide(rounds); hide(lebytes); hide(le4); hide(hm);
    let ghost mut vx_hf: Seq<Seq<u32>> = Seq::empty();
    let ghost vx_off = |j: int| (offset + offset_deltas@[j]) as u64;
    let ghost vx_key = pfx(key_words@, 8);
    let ghost vx_b = |j: int| inputs[j]@.subrange(0, 64 * blocks);
    let ghost vx_h = |k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end);
}
beforeloop 1 {
    proof {
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lane(vw(h_vecs@), j) == vx_h(0, j) by { assert(lane(vw(h_vecs@), j) =~= vx_key); }
    }
}
loop 1 {
    invariant
        block <= blocks, inputs[0]@.len() >= 64 * blocks, out@ == old(out)@,
        forall|j: int| 0 <= j < 16 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
        forall|j: int| 0 <= j < 16 ==> #[trigger] offset_low_vec@[j] == vx_off(j) as u32,
        forall|j: int| 0 <= j < 16 ==> #[trigger] offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32,
        vx_b == (|j: int| inputs[j]@.subrange(0, 64 * blocks)), inputs.len() >= 16,
        vx_h == (|k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end)),
        block_flags == (if block == 0 { flags | flags_start } else { flags }),
        forall|j: int| 0 <= j < 16 ==> #[trigger] lane(vw(h_vecs@), j) == vx_h(block as nat, j),
    decreases blocks - block
}
loopstart 1 {
    let ghost mut vx_bk: int = 0;
    let ghost vx_h0 = vw(h_vecs@);
    let ghost mut vx_v0: Seq<Seq<u32>> = Seq::empty();
    let ghost mut vx_m0: Seq<__m512i> = Seq::empty();
    let ghost vx_f = hmflags(blocks as nat, block as int, flags, flags_start, flags_end);
    proof {
        lemma_hmflags(blocks as nat, block as int, flags, flags_start, flags_end, block_flags);
        assert(inputs[0].len() >= 64 * blocks);
        vx_bk = block as int;
    }
}
before round_fn16 1 {
    proof {
        vx_v0 = vw(v@);
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lane(vx_v0, j) == state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32) by {
            assert(offset_low_vec@[j] == vx_off(j) as u32); assert(offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32);
            assert(lane(vx_v0, j) =~= state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32));
        }
        vx_m0 = msg_vecs@;
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lane(vw(vx_m0), j) == words16(vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1))) by {
            assert(inputs[j]@.subrange(64 * vx_bk, 64 * vx_bk + 64) =~= vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1)));
        }
    }
}
loopend 1 {
    proof {
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lane(vw(h_vecs@), j) == vx_h((vx_bk + 1) as nat, j) by {
            let b = vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1));
            let m = words16(b);
            let s = lane(vx_v0, j);
            lemma_rounds(s, m, 1); lemma_rounds(s, m, 2); lemma_rounds(s, m, 3); lemma_rounds(s, m, 4);
            lemma_rounds(s, m, 5); lemma_rounds(s, m, 6); lemma_rounds(s, m, 7);
            assert(msg_vecs@ == vx_m0);
            assert(lane(vw(msg_vecs@), j) == m);
            assert(lane(vw(v@), j) == rounds(s, m, 7));
            reveal(comp);
            assert(lane(vw(h_vecs@), j) =~= comp(lane(vx_h0, j), b, 64, vx_off(j), vx_f));
            assert(vx_h((vx_bk + 1) as nat, j) == comp(vx_h(vx_bk as nat, j), b, 64, vx_off(j), vx_f));
        }
    }
}
afterloop 1 {
    proof { vx_hf = vw(h_vecs@); }
}
end {
    proof {
        assert(out@.subrange(512, out.len() as int) =~= old(out)@.subrange(512, out.len() as int));
        assert forall|j: int| 0 <= j < 16 implies #[trigger] out@.subrange(32 * j, 32 * j + 32) == hm(vx_key, vx_b(j), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end) by {
            let w = lane(vx_hf, j);
            assert(out@.subrange(32 * j, 32 * j + 32) == lebytes(padded@[j]@.subrange(0, 8)));
            assert(padded@[j]@.subrange(0, 8) =~= w);
            lemma_bytes8_lebytes(w);
            assert(w == vx_h(blocks as nat, j));
            reveal(hm);
        }
    }
}
#text {
}
fn main() {}
#end
