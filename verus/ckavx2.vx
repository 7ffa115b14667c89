// Contracts for c/baokeshed_avx2.c (translated by cx.py): the eight-lane kernel and the loops over blocks and inputs.
#include shim.rs
#include comp.rs
#include hmspec.rs
#include ck.rs
#include simd.rs
#include simd256.rs
#text {
verus! {
// proved in cksse.vx
#[verifier::external_body]
pub fn hash_many_sse41(inputs: &[&[u8]], num: u64, blocks: u64, key: &[u32], offset: u64, deltas: &[u64], flags: u8, fs: u8, fe: u8, out: &mut [u8])
    requires hmpre(inputs@, num, blocks, key@, offset, deltas@, 5, old(out)@),
    ensures hmpost(inputs@, num, blocks, key@, offset, deltas@, flags, fs, fe, old(out)@, final(out)@),
{ unimplemented!() }
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 7 ==> #[trigger] sched_row(r) }
// lane i of the vector read from input r at 32 * q
pub open spec fn tmsg(o: Seq<__m256i>, q: int, r: int, i: int) -> u32 { o[8 * q + r]@[i] }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6));
}
pub proof fn lemma_rounds(s: Seq<u32>, m: Seq<u32>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
#end
#file ckavx2.rs
#const IV MSG_SCHEDULE
#fn offset_low
ret r
spec {
    ensures r == offset as u32
}
#fn offset_high
ret r
spec {
    ensures r == (offset >> 32u64) as u32
}
return {
    proof { assert(offset >> 32u32 == offset >> 32u64) by (bit_vector); }
}
#fn loadu
ret r
spec {
    requires src.len() >= 32,
    ensures r@.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] r@[i] == of_le4(src@.subrange(4 * i, 4 * i + 4)),
}
#fn storeu
spec {
    requires old(dest).len() >= 32,
    ensures final(dest).len() == old(dest).len(), final(dest)@.subrange(0, 32) == lebytes(src@),
        forall|lo: int, hi: int| 32 <= lo <= hi <= old(dest).len() ==> #[trigger] final(dest)@.subrange(lo, hi) == old(dest)@.subrange(lo, hi),
        forall|i: int| 32 <= i < old(dest).len() ==> #[trigger] final(dest)@[i] == old(dest)@[i],
}
end {
    proof {
        assert(dest@.subrange(0, 32) =~= lebytes(src@));
        assert forall|lo: int, hi: int| 32 <= lo <= hi <= dest.len() implies #[trigger] dest@.subrange(lo, hi) == old(dest)@.subrange(lo, hi) by {
            assert(dest@.subrange(lo, hi) =~= old(dest)@.subrange(lo, hi));
        }
    }
}
#fn addv
ret r
spec {
    ensures r@ == vadd(a@, b@)
}
#fn xorv
ret r
spec {
    ensures r@ == vxor(a@, b@)
}
#fn set1
ret r
spec {
    ensures r@ == vset1(8, x)
}
start {
    proof { lemma_i32(x); }
}
return {
    proof { assert(vx_ret@ =~= vset1(8, x)); }
}
#fn set8
ret r
spec {
    ensures r@ == seq![a, b, c, d, e, f, g, h]
}
start {
    proof { lemma_i32(a); lemma_i32(b); lemma_i32(c); lemma_i32(d); lemma_i32(e); lemma_i32(f); lemma_i32(g); lemma_i32(h); }
}
#fn rot16
ret r
spec {
    ensures r@ == vrot(x@, 16)
}
return {
    proof {
        lemma_rotmask();
        lemma_shuf(x@, rotmask(8, 16), 16, 0); lemma_shuf(x@, rotmask(8, 16), 16, 1); lemma_shuf(x@, rotmask(8, 16), 16, 2); lemma_shuf(x@, rotmask(8, 16), 16, 3); lemma_shuf(x@, rotmask(8, 16), 16, 4); lemma_shuf(x@, rotmask(8, 16), 16, 5); lemma_shuf(x@, rotmask(8, 16), 16, 6); lemma_shuf(x@, rotmask(8, 16), 16, 7);
        assert(vx_ret@ =~= vrot(x@, 16));
    }
}
#fn rot12
ret r
spec {
    ensures r@ == vrot(x@, 12)
}
return {
    proof {
        lemma_rotx(x@[0], 12); lemma_rotx(x@[1], 12); lemma_rotx(x@[2], 12); lemma_rotx(x@[3], 12); lemma_rotx(x@[4], 12); lemma_rotx(x@[5], 12); lemma_rotx(x@[6], 12); lemma_rotx(x@[7], 12);
        assert(vx_ret@ =~= vrot(x@, 12));
    }
}
#fn rot8
ret r
spec {
    ensures r@ == vrot(x@, 8)
}
return {
    proof {
        lemma_rotmask();
        lemma_shuf(x@, rotmask(8, 8), 8, 0); lemma_shuf(x@, rotmask(8, 8), 8, 1); lemma_shuf(x@, rotmask(8, 8), 8, 2); lemma_shuf(x@, rotmask(8, 8), 8, 3); lemma_shuf(x@, rotmask(8, 8), 8, 4); lemma_shuf(x@, rotmask(8, 8), 8, 5); lemma_shuf(x@, rotmask(8, 8), 8, 6); lemma_shuf(x@, rotmask(8, 8), 8, 7);
        assert(vx_ret@ =~= vrot(x@, 8));
    }
}
#fn rot7
ret r
spec {
    ensures r@ == vrot(x@, 7)
}
return {
    proof {
        lemma_rotx(x@[0], 7); lemma_rotx(x@[1], 7); lemma_rotx(x@[2], 7); lemma_rotx(x@[3], 7); lemma_rotx(x@[4], 7); lemma_rotx(x@[5], 7); lemma_rotx(x@[6], 7); lemma_rotx(x@[7], 7);
        assert(vx_ret@ =~= vrot(x@, 7));
    }
}
#fn round_fn
spec {
    requires r < 7, old(v).len() == 16, old(m).len() == 16,
    ensures final(v).len() == 16,
        forall|j: int| 0 <= j < 8 ==> #[trigger] lane(vw(final(v)@), j) == round_spec(lane(vw(old(v)@), j), lane(vw(old(m)@), j), r as int), final(m)@ == old(m)@,
}
start {
    hide(vadd); hide(vxor); hide(vrot); hide(sched);
    proof { lemma_sched(); assert(sched_row(r as int)); }
}
end {
    proof {
        let s = vw(old(v)@);
        let mm = vw(m@);
        assert(vw(v@) =~= vround(s, mm, r as int));
        assert forall|j: int| 0 <= j < 8 implies #[trigger] lane(vw(v@), j) == round_spec(lane(s, j), lane(mm, j), r as int) by { lemma_vround(s, mm, r as int, 8, j); }
    }
}
#fn transpose_vecs
spec {
    requires old(vecs).len() >= 8,
    ensures final(vecs).len() == old(vecs).len(), final(vecs)@.subrange(8, final(vecs).len() as int) == old(vecs)@.subrange(8, old(vecs).len() as int),
        forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 8 ==> #[trigger] final(vecs)@[i]@[j] == old(vecs)@[j]@[i],
}
end {
    proof { assert(vecs@.subrange(8, vecs.len() as int) =~= old(vecs)@.subrange(8, vecs.len() as int)); }
}
#fn transpose_msg_vecs
spec {
    requires old(out).len() == 16, inputs.len() >= 8, block_offset + 64 <= 0xffff_ffff_ffff_ffff, forall|j: int| 0 <= j < 8 ==> (#[trigger] inputs[j])@.len() >= block_offset + 64,
    ensures final(out).len() == 16, forall|j: int| 0 <= j < 8 ==> #[trigger] lane(vw(final(out)@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 64)),
}
start {
    hide(le4); hide(of_le4);
    let ghost mut vx_o0: Seq<__m256i> = Seq::empty();
    let ghost mut vx_o1: Seq<__m256i> = Seq::empty();
}
before transpose_vecs 1 {
    proof {
        vx_o0 = out@;
        assert forall|q: int, r: int, i: int| 0 <= q < 2 && 0 <= r < 8 && 0 <= i < 8 implies #[trigger] tmsg(vx_o0, q, r, i) == of_le4(inputs[r]@.subrange(block_offset + 32 * q + 4 * i, block_offset + 32 * q + 4 * i + 4)) by {
            let l = inputs[r]@.len() as int;
            assert(inputs[r]@.subrange(block_offset + 32 * q, l).subrange(4 * i, 4 * i + 4) =~= inputs[r]@.subrange(block_offset + 32 * q + 4 * i, block_offset + 32 * q + 4 * i + 4));
        }
    }
}
before transpose_vecs 2 {
    proof {
        vx_o1 = out@;
        assert(vx_o1.subrange(8, 16) =~= vx_o0.subrange(8, 16));
    }
}
end {
    proof {
        assert(out@.subrange(0, 8) =~= vx_o1.subrange(0, 8));
        assert forall|j: int| 0 <= j < 8 implies #[trigger] lane(vw(out@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 64)) by {
            let sub = inputs[j]@.subrange(block_offset as int, block_offset + 64);
            assert forall|k: int| 0 <= k < 16 implies lane(vw(out@), j)[k] == words16(sub)[k] by {
                let (q, i) = (k / 8, k % 8);
                assert(tmsg(vx_o0, q, j, i) == of_le4(inputs[j]@.subrange(block_offset + 32 * q + 4 * i, block_offset + 32 * q + 4 * i + 4)));
                assert(sub.subrange(4 * k, 4 * k + 4) =~= inputs[j]@.subrange(block_offset + 32 * q + 4 * i, block_offset + 32 * q + 4 * i + 4));
            }
            assert(lane(vw(out@), j) =~= words16(sub));
        }
    }
}
#fn load_offsets
spec {
    requires offset_deltas.len() >= 8, forall|j: int| 0 <= j < 8 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000, old(out_low).len() == 1, old(out_high).len() == 1,
    ensures final(out_low).len() == 1, final(out_high).len() == 1,
        forall|j: int| 0 <= j < 8 ==> #[trigger] final(out_low)@[0]@[j] == ((offset + offset_deltas[j]) as u64) as u32,
        forall|j: int| 0 <= j < 8 ==> #[trigger] final(out_high)@[0]@[j] == (((offset + offset_deltas[j]) as u64) >> 32u64) as u32,
}
#fn hash8_avx2
spec {
    requires
        inputs.len() >= 8, key_words.len() >= 8, offset_deltas.len() >= 8, old(out).len() >= 256,
        forall|j: int| 0 <= j < 8 ==> offset + (#[trigger] offset_deltas[j]) < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 8 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
    ensures
        final(out).len() == old(out).len(), final(out)@.subrange(256, final(out).len() as int) == old(out)@.subrange(256, old(out).len() as int),
        forall|j: int| 0 <= j < 8 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(pfx(key_words@, 8), inputs[j]@.subrange(0, 64 * blocks), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end),
}
start {
    hide(hmflags); hide(round_spec); hide(words16); hide(rounds); hide(lebytes); hide(le4); hide(hm);
    let ghost mut vx_hf: Seq<Seq<u32>> = Seq::empty();
    let ghost vx_off = |j: int| (offset + offset_deltas@[j]) as u64;
    let ghost vx_key = pfx(key_words@, 8);
    let ghost vx_b = |j: int| inputs[j]@.subrange(0, 64 * blocks);
    let ghost vx_h = |k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end);
}
beforeloop 1 {
    proof {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] lane(vw(h_vecs@), j) == vx_h(0, j) by { assert(lane(vw(h_vecs@), j) =~= vx_key); }
    }
}
loop 1 {
    invariant
        block <= blocks, inputs[0]@.len() >= 64 * blocks, out@ == old(out)@,
        forall|j: int| 0 <= j < 8 ==> (#[trigger] inputs[j])@.len() >= 64 * blocks,
        forall|j: int| 0 <= j < 8 ==> #[trigger] offset_low_vec@[j] == vx_off(j) as u32,
        forall|j: int| 0 <= j < 8 ==> #[trigger] offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32,
        vx_b == (|j: int| inputs[j]@.subrange(0, 64 * blocks)), inputs.len() >= 8,
        vx_h == (|k: nat, j: int| hmfold(vx_key, vx_b(j), blocks as nat, k, vx_off(j), flags, flags_start, flags_end)),
        block_flags == (if block == 0 { flags | flags_start } else { flags }),
        forall|j: int| 0 <= j < 8 ==> #[trigger] lane(vw(h_vecs@), j) == vx_h(block as nat, j),
    decreases blocks - block
}
loopstart 1 {
    let ghost mut vx_bk: int = 0;
    let ghost vx_h0 = vw(h_vecs@);
    let ghost mut vx_v0: Seq<Seq<u32>> = Seq::empty();
    let ghost mut vx_m0: Seq<__m256i> = Seq::empty();
    let ghost vx_f = hmflags(blocks as nat, block as int, flags, flags_start, flags_end);
    proof {
        lemma_hmflags(blocks as nat, block as int, flags, flags_start, flags_end, block_flags);
        assert(inputs[0].len() >= 64 * blocks);
        vx_bk = block as int;
    }
}
before round_fn 1 {
    proof {
        vx_v0 = vw(v@);
        assert forall|j: int| 0 <= j < 8 implies #[trigger] lane(vx_v0, j) == state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32) by {
            assert(offset_low_vec@[j] == vx_off(j) as u32); assert(offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32);
            assert(lane(vx_v0, j) =~= state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32));
        }
        vx_m0 = msg_vecs@;
        assert forall|j: int| 0 <= j < 8 implies #[trigger] lane(vw(vx_m0), j) == words16(vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1))) by {
            assert(inputs[j]@.subrange(64 * vx_bk, 64 * vx_bk + 64) =~= vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1)));
        }
    }
}
loopend 1 {
    proof {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] lane(vw(h_vecs@), j) == vx_h((vx_bk + 1) as nat, j) by {
            let b = vx_b(j).subrange(64 * vx_bk, 64 * (vx_bk + 1));
            let m = words16(b);
            let s = lane(vx_v0, j);
            lemma_rounds(s, m, 1); lemma_rounds(s, m, 2); lemma_rounds(s, m, 3); lemma_rounds(s, m, 4);
            lemma_rounds(s, m, 5); lemma_rounds(s, m, 6); lemma_rounds(s, m, 7);
            assert(msg_vecs@ == vx_m0);
            assert(lane(vw(msg_vecs@), j) == m);
            assert(lane(vw(v@), j) == rounds(s, m, 7));
            reveal(comp);
            assert(lane(vw(h_vecs@), j) =~= comp(lane(vx_h0, j), b, 64, vx_off(j), vx_f));
            assert(vx_h((vx_bk + 1) as nat, j) == comp(vx_h(vx_bk as nat, j), b, 64, vx_off(j), vx_f));
        }
    }
}
afterloop 1 {
    proof { vx_hf = vw(h_vecs@); }
}
end {
    proof {
        assert(out@.subrange(256, out.len() as int) =~= old(out)@.subrange(256, out.len() as int));
        assert forall|j: int| 0 <= j < 8 implies #[trigger] out@.subrange(32 * j, 32 * j + 32) == hm(vx_key, vx_b(j), (offset + offset_deltas[j]) as u64, flags, flags_start, flags_end) by {
            let w = lane(vx_hf, j);
            assert(out@.subrange(32 * j, 32 * j + 32) == lebytes(h_vecs@[j]@));
            assert(h_vecs@[j]@ =~= w);
            lemma_bytes8_lebytes(w);
            assert(w == vx_h(blocks as nat, j));
            reveal(hm);
        }
    }
}
#fn hash_many_avx2
spec {
    requires hmpre(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, 9, old(out)@),
    ensures hmpost(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, flags, flags_start, flags_end, old(out)@, final(out)@),
}
start {
    hide(hm); hide(cpart);
    let ghost vx_in = inputs@;
    let ghost vx_n = num_inputs as int;
    let ghost vx_off = offset as int;
    let ghost vx_d = offset_deltas@[1] as int;
    let ghost mut vx_k: int = 0;
    proof {
        reveal(cpart);
        assert(cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, 0));
        assert(vx_off + 0 * vx_d == vx_off);
        assert(inputs@.subrange(0, inputs@.len() as int) =~= inputs@);
    }
}
loop 1 {
    invariant
        vx_d == offset_deltas@[1], forall|i: int| 0 <= i < 9 ==> (#[trigger] offset_deltas@[i]) == i * vx_d, offset_deltas.len() >= 9, vx_k + num_inputs == vx_n, 0 <= vx_k, vx_n <= vx_in.len(), inputs@ == vx_in.subrange(vx_k, vx_in.len() as int), out_off == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d, key_words.len() >= 8, vx_off >= 0,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i])@.len() >= 64 * blocks,
        cpart(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases num_inputs
}
loopstart 1 {
    let ghost vx_o0 = out@;
    proof {
        lemma_cmul(vx_k + 8, vx_n, vx_d); lemma_cmul(vx_k, vx_n, vx_d);
        assert((vx_k + 8) * vx_d == vx_k * vx_d + 8 * vx_d) by (nonlinear_arith);
        assert forall|j: int| 0 <= j < 8 implies (#[trigger] inputs@[j]) == vx_in[vx_k + j] by { }
        assert forall|j: int| 0 <= j < 8 implies offset + (#[trigger] offset_deltas@[j]) < 0x1_0000_0000_0000_0000 by {
            lemma_cmul(vx_k + j, vx_n, vx_d);
            assert((vx_k + j) * vx_d == vx_k * vx_d + j * vx_d) by (nonlinear_arith);
        }
        assert(inputs@.subrange(8, inputs@.len() as int) =~= vx_in.subrange(vx_k + 8, vx_in.len() as int));
    }
}
loopend 1 {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let o4 = out@.subrange(e, l);
        assert forall|j: int| 0 <= j < 8 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o0.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + 8), l) =~= o4.subrange(256, l - e));
        assert(vx_o0.subrange(32 * (vx_k + 8), l) =~= vx_o0.subrange(e, l).subrange(256, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 8);
        vx_k = vx_k + 8;
    }
}
before hash_many_sse41 1 {
    let ghost vx_o1 = out@;
    proof {
        lemma_cmul(vx_k, vx_n, vx_d);
        assert(vx_off + vx_n * vx_d == (vx_off + vx_k * vx_d) + (vx_n - vx_k) * vx_d) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < num_inputs implies (#[trigger] inputs@[i])@.len() >= 64 * blocks by { assert(inputs@[i] == vx_in[vx_k + i]); }
    }
}
end {
    proof {
        let e = 32 * vx_k;
        let l = out@.len() as int;
        let m = vx_n - vx_k;
        let o4 = out@.subrange(e, l);
        assert forall|j: int| 0 <= j < m implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(pfx(key_words@, 8), vx_in[vx_k + j]@.subrange(0, 64 * blocks), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_in.len() as int)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        assert(out@.subrange(0, e) =~= vx_o1.subrange(0, e));
        assert(out@.subrange(32 * (vx_k + m), l) =~= o4.subrange(32 * m, l - e));
        assert(vx_o1.subrange(32 * (vx_k + m), l) =~= vx_o1.subrange(e, l).subrange(32 * m, l - e));
        lemma_cstep(vx_in, blocks, key_words@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o1, vx_k, out@, m);
        reveal(cpart);
    }
}
#text {
}
fn main() {}
#end
