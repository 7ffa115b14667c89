// Contracts for c64/baokeshed64_avx512.c (translated by cx.py).
#include shim.rs
#include comp64.rs
#include ck64.rs
#include simd64.rs
#include simd64_128.rs
#text {
verus! {
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 8 ==> #[trigger] sched_row(r) }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6)); assert(sched_row(7));
}
pub proof fn lemma_rounds(s: Seq<u64>, m: Seq<u64>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
// lane i of the vector read from input r at 16 * q
pub open spec fn tmsg(o: Seq<__m128i>, q: int, r: int, i: int) -> u64 { o[2 * q + r]@[i] }
#end
#file ck64x2.rs
#const IV MSG_SCHEDULE
#fn loadu_128
ret r
spec {
    requires src.len() >= 16,
    ensures r@.len() == 2, forall|i: int| 0 <= i < 2 ==> #[trigger] r@[i] == of_le8(src@.subrange(8 * i, 8 * i + 8)),
}
#fn storeu_128
spec {
    requires old(dest).len() >= 16,
    ensures final(dest).len() == old(dest).len(), final(dest)@.subrange(0, 16) == lebytes(src@),
        forall|lo: int, hi: int| 16 <= lo <= hi <= old(dest).len() ==> #[trigger] final(dest)@.subrange(lo, hi) == old(dest)@.subrange(lo, hi),
        forall|i: int| 16 <= i < old(dest).len() ==> #[trigger] final(dest)@[i] == old(dest)@[i],
}
end {
    proof {
        assert(dest@.subrange(0, 16) =~= lebytes(src@));
        assert forall|lo: int, hi: int| 16 <= lo <= hi <= dest.len() implies #[trigger] dest@.subrange(lo, hi) == old(dest)@.subrange(lo, hi) by {
            assert(dest@.subrange(lo, hi) =~= old(dest)@.subrange(lo, hi));
        }
    }
}
#fn add_128
ret r
spec {
    ensures r@ == vadd(a@, b@)
}
#fn xor_128
ret r
spec {
    ensures r@ == vxor(a@, b@)
}
#fn set1_128
ret r
spec {
    ensures r@ == vset1(2, x)
}
start {
    proof { lemma_i64(x); }
}
return {
    proof { assert(vx_ret@ =~= vset1(2, x)); }
}
#fn set2
ret r
spec {
    ensures r@ == seq![a, b]
}
start {
    proof { lemma_i64(a); lemma_i64(b); }
}
#fn rot32_128
ret r
spec {
    ensures r@ == vrot(x@, 32)
}
#fn rot24_128
ret r
spec {
    ensures r@ == vrot(x@, 24)
}
#fn rot16_128
ret r
spec {
    ensures r@ == vrot(x@, 16)
}
#fn rot63_128
ret r
spec {
    ensures r@ == vrot(x@, 63)
}
#fn round_fn2
spec {
    requires r < 8, old(v).len() == 16, old(m).len() == 16,
    ensures final(v).len() == 16,
        forall|j: int| 0 <= j < 2 ==> #[trigger] lane(vw(final(v)@), j) == round_spec(lane(vw(old(v)@), j), lane(vw(old(m)@), j), r as int), final(m)@ == old(m)@,
}
start {
    hide(vadd); hide(vxor); hide(vrot); hide(sched);
    proof { lemma_sched(); assert(sched_row(r as int)); }
}
end {
    proof {
        let s = vw(old(v)@);
        let mm = vw(m@);
        assert(vw(v@) =~= vround(s, mm, r as int));
        assert forall|j: int| 0 <= j < 2 implies #[trigger] lane(vw(v@), j) == round_spec(lane(s, j), lane(mm, j), r as int) by { lemma_vround(s, mm, r as int, 2, j); }
    }
}
#fn transpose_vecs_128
spec {
    requires old(vecs).len() >= 2,
    ensures final(vecs).len() == old(vecs).len(), final(vecs)@.subrange(2, final(vecs).len() as int) == old(vecs)@.subrange(2, old(vecs).len() as int),
        forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] final(vecs)@[i]@[j] == old(vecs)@[j]@[i],
}
end {
    proof { assert(vecs@.subrange(2, vecs.len() as int) =~= old(vecs)@.subrange(2, vecs.len() as int)); }
}
start {
    hide(le8); hide(of_le8); hide(lebytes); hide(words_of);
    proof {
        lemma_words_of(vecs@[0]@); lemma_words_of(vecs@[1]@);
        assert forall|w: Seq<u64>| #[trigger] lebytes(w).len() == 8 * w.len() by { lemma_words_of(w); }
        assert forall|f: Seq<u8>| f.len() == 16 implies #[trigger] f.subrange(0, 16) == f by { assert(f.subrange(0, 16) =~= f); }
    }
}
before set2 1 {
    proof {
        assert(vec0@ == old(vecs)@[0]@);
        assert(vec1@ == old(vecs)@[1]@);
    }
}
#fn transpose_msg_vecs2
spec {
    requires old(out).len() == 16, inputs.len() >= 2, block_offset + 128 <= 0xffff_ffff_ffff_ffff, forall|j: int| 0 <= j < 2 ==> (#[trigger] inputs[j])@.len() >= block_offset + 128,
    ensures final(out).len() == 16, forall|j: int| 0 <= j < 2 ==> #[trigger] lane(vw(final(out)@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 128)),
}
start {
    hide(le8); hide(of_le8);
    let ghost mut vx_o0: Seq<__m128i> = Seq::empty();
    let ghost mut vx_o1: Seq<__m128i> = Seq::empty();
    let ghost mut vx_o2: Seq<__m128i> = Seq::empty();
    let ghost mut vx_o3: Seq<__m128i> = Seq::empty();
    let ghost mut vx_o4: Seq<__m128i> = Seq::empty();
    let ghost mut vx_o5: Seq<__m128i> = Seq::empty();
    let ghost mut vx_o6: Seq<__m128i> = Seq::empty();
    let ghost mut vx_o7: Seq<__m128i> = Seq::empty();
}
before transpose_vecs_128 1 {
    proof {
        vx_o0 = out@;
        assert forall|q: int, r: int, i: int| 0 <= q < 8 && 0 <= r < 2 && 0 <= i < 2 implies #[trigger] tmsg(vx_o0, q, r, i) == of_le8(inputs[r]@.subrange(block_offset + 16 * q + 8 * i, block_offset + 16 * q + 8 * i + 8)) by {
            let l = inputs[r]@.len() as int;
            assert(inputs[r]@.subrange(block_offset + 16 * q, l).subrange(8 * i, 8 * i + 8) =~= inputs[r]@.subrange(block_offset + 16 * q + 8 * i, block_offset + 16 * q + 8 * i + 8));
        }
    }
}
before transpose_vecs_128 2 {
    proof {
        vx_o1 = out@;
        assert(vx_o1.subrange(2, 16) =~= vx_o0.subrange(0, 16).subrange(2, 16));
    }
}
before transpose_vecs_128 3 {
    proof {
        vx_o2 = out@;
        assert(vx_o2.subrange(0, 2) =~= vx_o1.subrange(0, 2));
        assert(vx_o2.subrange(4, 16) =~= vx_o1.subrange(2, 16).subrange(2, 14));
    }
}
before transpose_vecs_128 4 {
    proof {
        vx_o3 = out@;
        assert(vx_o3.subrange(0, 4) =~= vx_o2.subrange(0, 4));
        assert(vx_o3.subrange(6, 16) =~= vx_o2.subrange(4, 16).subrange(2, 12));
    }
}
before transpose_vecs_128 5 {
    proof {
        vx_o4 = out@;
        assert(vx_o4.subrange(0, 6) =~= vx_o3.subrange(0, 6));
        assert(vx_o4.subrange(8, 16) =~= vx_o3.subrange(6, 16).subrange(2, 10));
    }
}
before transpose_vecs_128 6 {
    proof {
        vx_o5 = out@;
        assert(vx_o5.subrange(0, 8) =~= vx_o4.subrange(0, 8));
        assert(vx_o5.subrange(10, 16) =~= vx_o4.subrange(8, 16).subrange(2, 8));
    }
}
before transpose_vecs_128 7 {
    proof {
        vx_o6 = out@;
        assert(vx_o6.subrange(0, 10) =~= vx_o5.subrange(0, 10));
        assert(vx_o6.subrange(12, 16) =~= vx_o5.subrange(10, 16).subrange(2, 6));
    }
}
before transpose_vecs_128 8 {
    proof {
        vx_o7 = out@;
        assert(vx_o7.subrange(0, 12) =~= vx_o6.subrange(0, 12));
        assert(vx_o7.subrange(14, 16) =~= vx_o6.subrange(12, 16).subrange(2, 4));
    }
}
end {
    proof {
        assert(out@.subrange(0, 14) =~= vx_o7.subrange(0, 14));
        assert forall|j: int| 0 <= j < 2 implies #[trigger] lane(vw(out@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 128)) by {
            let sub = inputs[j]@.subrange(block_offset as int, block_offset + 128);
            assert forall|k: int| 0 <= k < 16 implies lane(vw(out@), j)[k] == words16(sub)[k] by {
                let (q, i) = (k / 2, k % 2);
                assert(tmsg(vx_o0, q, j, i) == of_le8(inputs[j]@.subrange(block_offset + 16 * q + 8 * i, block_offset + 16 * q + 8 * i + 8)));
                assert(sub.subrange(8 * k, 8 * k + 8) =~= inputs[j]@.subrange(block_offset + 16 * q + 8 * i, block_offset + 16 * q + 8 * i + 8));
            }
            assert(lane(vw(out@), j) =~= words16(sub));
        }
    }
}
#fn load_offsets2
spec {
    requires offset_deltas.len() >= 2, forall|j: int| 0 <= j < 2 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000, old(out).len() == 1,
    ensures final(out).len() == 1, forall|j: int| 0 <= j < 2 ==> #[trigger] final(out)@[0]@[j] == (offset + offset_deltas[j]) as u64,
}
start {
    proof {
        lemma_lebytes_at(offset_deltas@, 0);
        lemma_lebytes_at(offset_deltas@, 1);
    }
}
#fn baokeshed64_hash2_avx512
spec {
    requires
        inputs.len() >= 2, key_words.len() >= 4, offset_deltas.len() >= 2, old(out).len() >= 64,
        forall|j: int| 0 <= j < 2 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 2 ==> (#[trigger] inputs[j])@.len() >= 128 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(64, final(out).len() as int) == old(out)@.subrange(64, old(out).len() as int),
        forall|j: int| 0 <= j < 2 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 4), inputs[j]@.subrange(0, 128 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
start {
    hide(hmflags); hide(round_spec); hide(words16); hide(rounds); hide(lebytes); hide(le8); hide(hm);
    let ghost mut vx_hf: Seq<Seq<u64>> = Seq::empty();
    let ghost vx_off = |j: int| (offset + offset_deltas@[j]) as u64;
    let ghost vx_key = pfx(key_words@, 4);
    let ghost vx_b = |j: int| inputs[j]@.subrange(0, 128 * blocks);
    let ghost vx_h = |k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end);
}
beforeloop 1 {
    proof {
        assert forall|j: int| 0 <= j < 2 implies #[trigger] lane(vw(h_vecs@), j) == vx_h(0, j) by { assert(lane(vw(h_vecs@), j) =~= vx_key); }
    }
}
loop 1 {
    invariant
        block <= blocks, inputs[0]@.len() >= 128 * blocks, out@ == old(out)@,
        forall|j: int| 0 <= j < 2 ==> (#[trigger] inputs[j])@.len() >= 128 * blocks,
        forall|j: int| 0 <= j < 2 ==> #[trigger] offset_vec@[j] == vx_off(j),
        vx_b == (|j: int| inputs[j]@.subrange(0, 128 * blocks)), inputs.len() >= 2,
        vx_h == (|k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end)),
        block_flags == (if block == 0 { flags | flags_start } else { flags }),
        forall|j: int| 0 <= j < 2 ==> #[trigger] lane(vw(h_vecs@), j) == vx_h(block as nat, j),
    decreases blocks - block
}
loopstart 1 {
    let ghost mut vx_bk: int = 0;
    let ghost vx_h0 = vw(h_vecs@);
    let ghost mut vx_v0: Seq<Seq<u64>> = Seq::empty();
    let ghost mut vx_m0: Seq<__m128i> = Seq::empty();
    let ghost vx_f = hmflags(blocks as nat, block as int, flags, flags_start, flags_end);
    proof {
        lemma_hmflags(blocks as nat, block as int, flags, flags_start, flags_end, block_flags);
        assert(inputs[0].len() >= 128 * blocks);
        vx_bk = block as int;
    }
}
before round_fn2 1 {
    proof {
        vx_v0 = vw(v@);
        assert forall|j: int| 0 <= j < 2 implies #[trigger] lane(vx_v0, j) == state0(lane(vx_h0, j), vx_off(j), 128, vx_f as u64) by {
            assert(offset_vec@[j] == vx_off(j));
            assert(lane(vx_v0, j) =~= state0(lane(vx_h0, j), vx_off(j), 128, vx_f as u64));
        }
        vx_m0 = msg_vecs@;
        assert forall|j: int| 0 <= j < 2 implies #[trigger] lane(vw(vx_m0), j) == words16(vx_b(j).subrange(128 * vx_bk, 128 * (vx_bk + 1))) by {
            assert(inputs[j]@.subrange(128 * vx_bk, 128 * vx_bk + 128) =~= vx_b(j).subrange(128 * vx_bk, 128 * (vx_bk + 1)));
        }
    }
}
loopend 1 {
    proof {
        assert forall|j: int| 0 <= j < 2 implies #[trigger] lane(vw(h_vecs@), j) == vx_h((vx_bk + 1) as nat, j) by {
            let b = vx_b(j).subrange(128 * vx_bk, 128 * (vx_bk + 1));
            let m = words16(b);
            let s = lane(vx_v0, j);
            lemma_rounds(s, m, 1); lemma_rounds(s, m, 2); lemma_rounds(s, m, 3); lemma_rounds(s, m, 4);
            lemma_rounds(s, m, 5); lemma_rounds(s, m, 6); lemma_rounds(s, m, 7); lemma_rounds(s, m, 8);
            assert(msg_vecs@ == vx_m0);
            assert(lane(vw(msg_vecs@), j) == m);
            assert(lane(vw(v@), j) == rounds(s, m, 8));
            reveal(comp);
            assert(lane(vw(h_vecs@), j) =~= comp(lane(vx_h0, j), b, 128, vx_off(j), vx_f));
            assert(vx_h((vx_bk + 1) as nat, j) == comp(vx_h(vx_bk as nat, j), b, 128, vx_off(j), vx_f));
        }
    }
}
afterloop 1 {
    proof { vx_hf = vw(h_vecs@); }
}
end {
    proof {
        assert(out@.subrange(64, out.len() as int) =~= old(out)@.subrange(64, out.len() as int));
        assert forall|j: int| 0 <= j < 2 implies #[trigger] out@.subrange(32 * j, 32 * j + 32) == hm(vx_key, vx_b(j), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end) by {
            let w = lane(vx_hf, j);
            assert(out@.subrange(32 * j, 32 * j + 16) == lebytes(h_vecs@[j]@));
            assert(out@.subrange(32 * j + 16, 32 * j + 32) == lebytes(h_vecs@[2 + j]@));
            assert(h_vecs@[j]@ =~= w.subrange(0, 2));
            assert(h_vecs@[2 + j]@ =~= w.subrange(2, 4));
            lemma_bytes4_halves(w);
            assert(out@.subrange(32 * j, 32 * j + 32) =~= out@.subrange(32 * j, 32 * j + 16) + out@.subrange(32 * j + 16, 32 * j + 32));
            assert(w == vx_h(blocks as nat, j));
            reveal(hm);
        }
    }
}
#text {
}
fn main() {}
#end
