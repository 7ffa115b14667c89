// Contracts for c64/baokeshed64_avx2.c (translated by cx.py).
#include shim.rs
#include comp64.rs
#include ck64.rs
#include simd64.rs
#include simd64_256.rs
#text {
verus! {
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 8 ==> #[trigger] sched_row(r) }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6)); assert(sched_row(7));
}
pub proof fn lemma_rounds(s: Seq<u64>, m: Seq<u64>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
// lane i of the vector read from input r at 32 * q
pub open spec fn tmsg(o: Seq<__m256i>, q: int, r: int, i: int) -> u64 { o[4 * q + r]@[i] }
// discharged from c64/baokeshed64_sse41.c (ck64sse)
#[verifier::external_body]
pub fn baokeshed64_hash_many_sse41(inputs: &[&[u8]], num_inputs: u64, blocks: u64, key_words: &[u64], offset: u64, offset_deltas: &[u64], flags: u8, flags_start: u8, flags_end: u8, out: &mut [u8])
    requires hmpre(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, 3, old(out)@),
    ensures hmpost(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, flags, flags_start, flags_end, old(out)@, final(out)@),
{ unimplemented!() }
#end
#file ck64avx2.rs
#const IV MSG_SCHEDULE
#fn loadu
ret r
spec {
    requires src.len() >= 32,
    ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == of_le8(src@.subrange(8 * i, 8 * i + 8)),
}
#fn storeu
spec {
    requires old(dest).len() >= 32,
    ensures final(dest).len() == old(dest).len(), final(dest)@.subrange(0, 32) == lebytes(src@),
        forall|lo: int, hi: int| 32 <= lo <= hi <= old(dest).len() ==> #[trigger] final(dest)@.subrange(lo, hi) == old(dest)@.subrange(lo, hi),
        forall|i: int| 32 <= i < old(dest).len() ==> #[trigger] final(dest)@[i] == old(dest)@[i],
}
end {
    proof {
        assert(dest@.subrange(0, 32) =~= lebytes(src@));
        assert forall|lo: int, hi: int| 32 <= lo <= hi <= dest.len() implies #[trigger] dest@.subrange(lo, hi) == old(dest)@.subrange(lo, hi) by {
            assert(dest@.subrange(lo, hi) =~= old(dest)@.subrange(lo, hi));
        }
    }
}
#fn addv
ret r
spec {
    ensures r@ == vadd(a@, b@)
}
#fn xorv
ret r
spec {
    ensures r@ == vxor(a@, b@)
}
#fn set1
ret r
spec {
    ensures r@ == vset1(4, x)
}
start {
    proof { lemma_i64(x); }
}
return {
    proof { assert(vx_ret@ =~= vset1(4, x)); }
}
#fn rot32
ret r
spec {
    ensures r@ == vrot(x@, 32)
}
return {
    proof {
        lemma_rot32(x@[0]); lemma_rot32(x@[1]); lemma_rot32(x@[2]); lemma_rot32(x@[3]);
        assert(vx_ret@ =~= vrot(x@, 32));
    }
}
#fn rot24
ret r
spec {
    ensures r@ == vrot(x@, 24)
}
return {
    proof {
        lemma_rotmask();
        lemma_shuf(x@, rotmask(4, 24), 24, 0); lemma_shuf(x@, rotmask(4, 24), 24, 1); lemma_shuf(x@, rotmask(4, 24), 24, 2); lemma_shuf(x@, rotmask(4, 24), 24, 3);
        assert(vx_ret@ =~= vrot(x@, 24));
    }
}
#fn rot16
ret r
spec {
    ensures r@ == vrot(x@, 16)
}
return {
    proof {
        lemma_rotmask();
        lemma_shuf(x@, rotmask(4, 16), 16, 0); lemma_shuf(x@, rotmask(4, 16), 16, 1); lemma_shuf(x@, rotmask(4, 16), 16, 2); lemma_shuf(x@, rotmask(4, 16), 16, 3);
        assert(vx_ret@ =~= vrot(x@, 16));
    }
}
#fn rot63
ret r
spec {
    ensures r@ == vrot(x@, 63)
}
return {
    proof {
        lemma_rot63(x@[0]); lemma_rot63(x@[1]); lemma_rot63(x@[2]); lemma_rot63(x@[3]);
        assert(vx_ret@ =~= vrot(x@, 63));
    }
}
#fn round_fn
spec {
    requires r < 8, old(v).len() == 16, old(m).len() == 16,
    ensures final(v).len() == 16,
        forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(final(v)@), j) == round_spec(lane(vw(old(v)@), j), lane(vw(old(m)@), j), r as int), final(m)@ == old(m)@,
}
start {
    hide(vadd); hide(vxor); hide(vrot); hide(sched);
    proof { lemma_sched(); assert(sched_row(r as int)); }
}
end {
    proof {
        let s = vw(old(v)@);
        let mm = vw(m@);
        assert(vw(v@) =~= vround(s, mm, r as int));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(v@), j) == round_spec(lane(s, j), lane(mm, j), r as int) by { lemma_vround(s, mm, r as int, 4, j); }
    }
}
#fn transpose_vecs
spec {
    requires old(vecs).len() >= 4,
    ensures final(vecs).len() == old(vecs).len(), final(vecs)@.subrange(4, final(vecs).len() as int) == old(vecs)@.subrange(4, old(vecs).len() as int),
        forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] final(vecs)@[i]@[j] == old(vecs)@[j]@[i],
}
end {
    proof { assert(vecs@.subrange(4, vecs.len() as int) =~= old(vecs)@.subrange(4, vecs.len() as int)); }
}
#fn transpose_msg_vecs
spec {
    requires old(out).len() == 16, inputs.len() >= 4, block_offset + 128 <= 0xffff_ffff_ffff_ffff, forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j])@.len() >= block_offset + 128,
    ensures final(out).len() == 16, forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(final(out)@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 128)),
}
start {
    hide(le8); hide(of_le8);
    let ghost mut vx_o0: Seq<__m256i> = Seq::empty();
    let ghost mut vx_o1: Seq<__m256i> = Seq::empty();
    let ghost mut vx_o2: Seq<__m256i> = Seq::empty();
    let ghost mut vx_o3: Seq<__m256i> = Seq::empty();
}
before transpose_vecs 1 {
    proof {
        vx_o0 = out@;
        assert forall|q: int, r: int, i: int| 0 <= q < 4 && 0 <= r < 4 && 0 <= i < 4 implies #[trigger] tmsg(vx_o0, q, r, i) == of_le8(inputs[r]@.subrange(block_offset + 32 * q + 8 * i, block_offset + 32 * q + 8 * i + 8)) by {
            let l = inputs[r]@.len() as int;
            assert(inputs[r]@.subrange(block_offset + 32 * q, l).subrange(8 * i, 8 * i + 8) =~= inputs[r]@.subrange(block_offset + 32 * q + 8 * i, block_offset + 32 * q + 8 * i + 8));
        }
    }
}
before transpose_vecs 2 {
    proof {
        vx_o1 = out@;
        assert(vx_o1.subrange(4, 16) =~= vx_o0.subrange(0, 16).subrange(4, 16));
    }
}
before transpose_vecs 3 {
    proof {
        vx_o2 = out@;
        assert(vx_o2.subrange(0, 4) =~= vx_o1.subrange(0, 4));
        assert(vx_o2.subrange(8, 16) =~= vx_o1.subrange(4, 16).subrange(4, 12));
    }
}
before transpose_vecs 4 {
    proof {
        vx_o3 = out@;
        assert(vx_o3.subrange(0, 8) =~= vx_o2.subrange(0, 8));
        assert(vx_o3.subrange(12, 16) =~= vx_o2.subrange(8, 16).subrange(4, 8));
    }
}
end {
    proof {
        assert(out@.subrange(0, 12) =~= vx_o3.subrange(0, 12));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(out@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 128)) by {
            let sub = inputs[j]@.subrange(block_offset as int, block_offset + 128);
            assert forall|k: int| 0 <= k < 16 implies lane(vw(out@), j)[k] == words16(sub)[k] by {
                let (q, i) = (k / 4, k % 4);
                assert(tmsg(vx_o0, q, j, i) == of_le8(inputs[j]@.subrange(block_offset + 32 * q + 8 * i, block_offset + 32 * q + 8 * i + 8)));
                assert(sub.subrange(8 * k, 8 * k + 8) =~= inputs[j]@.subrange(block_offset + 32 * q + 8 * i, block_offset + 32 * q + 8 * i + 8));
            }
            assert(lane(vw(out@), j) =~= words16(sub));
        }
    }
}
#fn load_offsets
spec {
    requires offset_deltas.len() >= 4, forall|j: int| 0 <= j < 4 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000, old(out).len() == 1,
    ensures final(out).len() == 1, forall|j: int| 0 <= j < 4 ==> #[trigger] final(out)@[0]@[j] == (offset + offset_deltas[j]) as u64,
}
start {
    proof {
        lemma_lebytes_at(offset_deltas@, 0);
        lemma_lebytes_at(offset_deltas@, 1);
        lemma_lebytes_at(offset_deltas@, 2);
        lemma_lebytes_at(offset_deltas@, 3);
    }
}
#fn baokeshed64_hash4_avx2
spec {
    requires
        inputs.len() >= 4, key_words.len() >= 4, offset_deltas.len() >= 4, old(out).len() >= 128,
        forall|j: int| 0 <= j < 4 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j])@.len() >= 128 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(128, final(out).len() as int) == old(out)@.subrange(128, old(out).len() as int),
        forall|j: int| 0 <= j < 4 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 4), inputs[j]@.subrange(0, 128 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
start {
    hide(hmflags); hide(round_spec); hide(words16); hide(rounds); hide(lebytes); hide(le8); hide(hm);
    let ghost mut vx_hf: Seq<Seq<u64>> = Seq::empty();
    let ghost vx_off = |j: int| (offset + offset_deltas@[j]) as u64;
    let ghost vx_key = pfx(key_words@, 4);
    let ghost vx_b = |j: int| inputs[j]@.subrange(0, 128 * blocks);
    let ghost vx_h = |k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end);
}
beforeloop 1 {
    proof {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(h_vecs@), j) == vx_h(0, j) by { assert(lane(vw(h_vecs@), j) =~= vx_key); }
    }
}
loop 1 {
    invariant
        block <= blocks, inputs[0]@.len() >= 128 * blocks, out@ == old(out)@,
        forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j])@.len() >= 128 * blocks,
        forall|j: int| 0 <= j < 4 ==> #[trigger] offset_vec@[j] == vx_off(j),
        vx_b == (|j: int| inputs[j]@.subrange(0, 128 * blocks)), inputs.len() >= 4,
        vx_h == (|k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end)),
        block_flags == (if block == 0 { flags | flags_start } else { flags }),
        forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(h_vecs@), j) == vx_h(block as nat, j),
    decreases blocks - block
}
loopstart 1 {
    let ghost mut vx_bk: int = 0;
    let ghost vx_h0 = vw(h_vecs@);
    let ghost mut vx_v0: Seq<Seq<u64>> = Seq::empty();
    let ghost mut vx_m0: Seq<__m256i> = Seq::empty();
    let ghost vx_f = hmflags(blocks as nat, block as int, flags, flags_start, flags_end);
    proof {
        lemma_hmflags(blocks as nat, block as int, flags, flags_start, flags_end, block_flags);
        assert(inputs[0].len() >= 128 * blocks);
        vx_bk = block as int;
    }
}
before round_fn 1 {
    proof {
        vx_v0 = vw(v@);
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vx_v0, j) == state0(lane(vx_h0, j), vx_off(j), 128, vx_f as u64) by {
            assert(offset_vec@[j] == vx_off(j));
            assert(lane(vx_v0, j) =~= state0(lane(vx_h0, j), vx_off(j), 128, vx_f as u64));
        }
        vx_m0 = msg_vecs@;
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(vx_m0), j) == words16(vx_b(j).subrange(128 * vx_bk, 128 * (vx_bk + 1))) by {
            assert(inputs[j]@.subrange(128 * vx_bk, 128 * vx_bk + 128) =~= vx_b(j).subrange(128 * vx_bk, 128 * (vx_bk + 1)));
        }
    }
}
loopend 1 {
    proof {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(h_vecs@), j) == vx_h((vx_bk + 1) as nat, j) by {
            let b = vx_b(j).subrange(128 * vx_bk, 128 * (vx_bk + 1));
            let m = words16(b);
            let s = lane(vx_v0, j);
            lemma_rounds(s, m, 1); lemma_rounds(s, m, 2); lemma_rounds(s, m, 3); lemma_rounds(s, m, 4);
            lemma_rounds(s, m, 5); lemma_rounds(s, m, 6); lemma_rounds(s, m, 7); lemma_rounds(s, m, 8);
            assert(msg_vecs@ == vx_m0);
            assert(lane(vw(msg_vecs@), j) == m);
            assert(lane(vw(v@), j) == rounds(s, m, 8));
            reveal(comp);
            assert(lane(vw(h_vecs@), j) =~= comp(lane(vx_h0, j), b, 128, vx_off(j), vx_f));
            assert(vx_h((vx_bk + 1) as nat, j) == comp(vx_h(vx_bk as nat, j), b, 128, vx_off(j), vx_f));
        }
    }
}
afterloop 1 {
    proof { vx_hf = vw(h_vecs@); }
}
end {
    proof {
        assert(out@.subrange(128, out.len() as int) =~= old(out)@.subrange(128, out.len() as int));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] out@.subrange(32 * j, 32 * j + 32) == hm(vx_key, vx_b(j), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end) by {
            let w = lane(vx_hf, j);
            assert(out@.subrange(32 * j, 32 * j + 32) == lebytes(h_vecs@[j]@));
            assert(h_vecs@[j]@ =~= w);
            lemma_bytes4_lebytes(w);
            assert(w == vx_h(blocks as nat, j));
            reveal(hm);
        }
    }
}
#fn baokeshed64_hash_many_avx2
spec {
    requires hmpre(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, 5, old(out)@),
    ensures hmpost(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, flags, flags_start, flags_end, old(out)@, final(out)@),
}
start {
    hide(hm); hide(cpart);
    let ghost vx_in = inputs@;
    let ghost vx_n = num_inputs as int;
    let ghost vx_off = offset as int;
    let ghost vx_d = offset_deltas@[1] as int;
    let ghost mut vx_k: int = 0;
    proof {
        reveal(cpart);
        assert(cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, 0));
        assert(vx_off + 0 * vx_d == vx_off);
        assert(inputs@.subrange(0, inputs@.len() as int) =~= inputs@);
    }
}
loop 1 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 5 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 5, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 4, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 128 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 1 {
    let ghost vx_o0 = out@;
    proof {
        lemma_cmul(vx_k + 4, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 4) * vx_d == vx_k * vx_d + 4 * vx_d) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < 4 implies (#[trigger] inputs@[j]) == vx_in[vx_k + j] by { }
        assert forall|j: int| 0 <= j < 4 implies offset + (#[trigger] offset_deltas@[j]) < 0x1_0000_0000_0000_0000 by {
            lemma_cmul(vx_k + j, vx_n, vx_d);
            assert((vx_k + j) * vx_d == vx_k * vx_d + j * vx_d) by (nonlinear_arith);
        }
        assert(inputs@.subrange(4, inputs@.len() as int) =~= vx_in.subrange(vx_k + 4, vx_in.len() as int));
    }
}
loopend 1 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let o4 = out@.subrange(e, l);
        assert forall|j: int| 0 <= j < 4 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 4), vx_in[vx_k + j]@.subrange(0, 128 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o0.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 4), l) =~= o4.subrange(128, l - e));
        assert(vx_o0.subrange(32 * (vx_k + 4), l) =~= vx_o0.subrange(e, l).subrange(128, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 4);
        vx_k = vx_k + 4;
    }
}
afterloop 1 {
    let ghost vx_o2 = out@;
    proof {
        lemma_cmul(vx_k, vx_n, vx_d);
        assert(num_inputs * vx_d == vx_n * vx_d - vx_k * vx_d) by (nonlinear_arith) requires num_inputs == vx_n - vx_k;
        assert forall|i: int| 0 <= i < num_inputs implies (#[trigger] inputs@[i]) == vx_in[vx_k + i] by { }
    }
}
end {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let o4 = out@.subrange(e, l);
        let w = vx_n - vx_k;
        assert forall|j: int| 0 <= j < w implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 4), vx_in[vx_k + j]@.subrange(0, 128 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o2.subrange(0, e));
        assert(out@.subrange(32 * vx_n, l) =~= o4.subrange(32 * w, l - e));
        assert(vx_o2.subrange(32 * vx_n, l) =~= vx_o2.subrange(e, l).subrange(32 * w, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o2, vx_k, out@, w);
        reveal(cpart);
    }
}
#text {
}
fn main() {}
#end
