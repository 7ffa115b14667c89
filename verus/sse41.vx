// Contracts for src/sse41.rs: the four-lane kernel and the loops over blocks and inputs.
#include shim.rs
#include comp.rs
#include hmspec.rs
#include simd.rs
#include simd128.rs
#text {
verus! {
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 7 ==> #[trigger] sched_row(r) }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6));
}
pub proof fn lemma_rounds(s: Seq<u32>, m: Seq<u32>, n: nat)
    ensures rounds(s, m, 0) == s, n > 0 ==> rounds(s, m, n) == round_spec(rounds(s, m, (n - 1) as nat), m, n - 1)
{ }
pub proof fn lemma_hmflags(n: nat, i: int, flags: u8, fs: u8, fe: u8, first: u8)
    requires first == (if i == 0 { flags | fs } else { flags })
    ensures hmflags(n, i, flags, fs, fe) == (if i == n - 1 { first | fe } else { first })
{
    assert(flags | fs | 0u8 == flags | fs) by (bit_vector);
    assert(flags | 0u8 | 0u8 == flags) by (bit_vector);
    assert(flags | 0u8 | fe == flags | fe) by (bit_vector);
}
#end
#file src/lib.rs
#type Word
#const OUT_LEN BLOCK_LEN WORD_BITS WORD_BYTES IV MSG_SCHEDULE
#fn offset_low
ret r
spec {
    ensures r == offset as u32
}
#fn offset_high
ret r
spec {
    ensures r == (offset >> 32u64) as u32
}
#file src/sse41.rs
#const DEGREE
#fn loadu
ret r
spec {
    requires src.len() >= 16,
    ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == of_le4(src@.subrange(4 * i, 4 * i + 4)),
}
#fn storeu
spec {
    requires old(dest).len() >= 16,
    ensures final(dest).len() == old(dest).len(), final(dest)@.subrange(0, 16) == lebytes(src@),
        forall|lo: int, hi: int| 16 <= lo <= hi <= old(dest).len() ==> #[trigger] final(dest)@.subrange(lo, hi) == old(dest)@.subrange(lo, hi),
}
end {
    proof {
        assert(dest@.subrange(0, 16) =~= lebytes(src@));
        assert forall|lo: int, hi: int| 16 <= lo <= hi <= dest.len() implies #[trigger] dest@.subrange(lo, hi) == old(dest)@.subrange(lo, hi) by {
            assert(dest@.subrange(lo, hi) =~= old(dest)@.subrange(lo, hi));
        }
    }
}
#fn add
ret r
spec {
    ensures r@ == vadd(a@, b@)
}
#fn xor
ret r
spec {
    ensures r@ == vxor(a@, b@)
}
#fn set1
ret r
spec {
    ensures r@ == vset1(4, x)
}
start {
    proof { lemma_i32(x); }
}
return {
    proof { assert(vx_ret@ =~= vset1(4, x)); }
}
#fn set4
ret r
spec {
    ensures r@ == seq![a, b, c, d]
}
start {
    proof { lemma_i32(a); lemma_i32(b); lemma_i32(c); lemma_i32(d); }
}
#fn rot16
ret r
spec {
    ensures r@ == vrot(a@, 16)
}
return {
    proof {
        lemma_rotmask();
        lemma_shuf(a@, rotmask(4, 16), 16, 0); lemma_shuf(a@, rotmask(4, 16), 16, 1); lemma_shuf(a@, rotmask(4, 16), 16, 2); lemma_shuf(a@, rotmask(4, 16), 16, 3);
        assert(vx_ret@ =~= vrot(a@, 16));
    }
}
#fn rot12
ret r
spec {
    ensures r@ == vrot(a@, 12)
}
return {
    proof {
        lemma_rotx(a@[0], 12); lemma_rotx(a@[1], 12); lemma_rotx(a@[2], 12); lemma_rotx(a@[3], 12);
        assert(vx_ret@ =~= vrot(a@, 12));
    }
}
#fn rot8
ret r
spec {
    ensures r@ == vrot(a@, 8)
}
return {
    proof {
        lemma_rotmask();
        lemma_shuf(a@, rotmask(4, 8), 8, 0); lemma_shuf(a@, rotmask(4, 8), 8, 1); lemma_shuf(a@, rotmask(4, 8), 8, 2); lemma_shuf(a@, rotmask(4, 8), 8, 3);
        assert(vx_ret@ =~= vrot(a@, 8));
    }
}
#fn rot7
ret r
spec {
    ensures r@ == vrot(a@, 7)
}
return {
    proof {
        lemma_rotx(a@[0], 7); lemma_rotx(a@[1], 7); lemma_rotx(a@[2], 7); lemma_rotx(a@[3], 7);
        assert(vx_ret@ =~= vrot(a@, 7));
    }
}
#fn round
spec {
    requires r < 7,
    ensures forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(final(v)@), j) == round_spec(lane(vw(old(v)@), j), lane(vw(m@), j), r as int),
}
start {
    hide(vadd); hide(vxor); hide(vrot); hide(sched);
    proof { lemma_sched(); assert(sched_row(r as int)); }
}
end {
    proof {
        let s = vw(old(v)@);
        let mm = vw(m@);
        assert(vw(v@) =~= vround(s, mm, r as int));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(v@), j) == round_spec(lane(s, j), lane(mm, j), r as int) by { lemma_vround(s, mm, r as int, 4, j); }
    }
}
#fn transpose_vecs
spec {
    ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] final(vecs)@[i]@[j] == old(vecs)@[j]@[i],
}
#fn transpose_msg_vecs
ret r
spec {
    requires forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j]).len() >= block_offset + 64,
    ensures forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(r@), j) == words16(inputs[j]@.subrange(block_offset as int, block_offset + 64)),
}
#fn load_offsets
ret r
spec {
    requires offset + 3 * offset_delta < 0x1_0000_0000_0000_0000,
    ensures forall|j: int| 0 <= j < 4 ==> #[trigger] r.0@[j] == ((offset + j * offset_delta) as u64) as u32,
        forall|j: int| 0 <= j < 4 ==> #[trigger] r.1@[j] == (((offset + j * offset_delta) as u64) >> 32u64) as u32,
}
#fn hash4
spec {
    requires
        offset + 3 * offset_delta < 0x1_0000_0000_0000_0000,
        forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j]).len() == 64 * blocks,
    ensures
        forall|j: int| 0 <= j < 4 ==> #[trigger] final(out)@.subrange(32 * j, 32 * j + 32) == hm(key@, inputs[j]@, (offset + j * offset_delta) as u64, flags, flags_start, flags_end),
}
start {
    hide(hmflags); hide(round_spec); hide(words16); hide(rounds); hide(lebytes); hide(le4); hide(hm);
    let ghost vx_off = |j: int| (offset + j * offset_delta) as u64;
    let ghost vx_h = |k: nat, j: int| hmfold(key@, inputs[j]@, blocks as nat, k, vx_off(j), flags, flags_start, flags_end);
}
beforeloop 1 {
    proof {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(h_vecs@), j) == vx_h(0, j) by { assert(lane(vw(h_vecs@), j) =~= key@); }
    }
}
loop 1 {
    invariant
        forall|j: int| 0 <= j < 4 ==> (#[trigger] inputs[j]).len() == 64 * blocks,
        forall|j: int| 0 <= j < 4 ==> #[trigger] offset_low_vec@[j] == vx_off(j) as u32,
        forall|j: int| 0 <= j < 4 ==> #[trigger] offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32,
        vx_h == (|k: nat, j: int| hmfold(key@, inputs[j]@, blocks as nat, k, vx_off(j), flags, flags_start, flags_end)),
        block_flags == (if block == 0 { flags | flags_start } else { flags }),
        forall|j: int| 0 <= j < 4 ==> #[trigger] lane(vw(h_vecs@), j) == vx_h(block as nat, j),
}
loopstart 1 {
    let ghost vx_h0 = vw(h_vecs@);
    let ghost mut vx_v0: Seq<Seq<u32>> = Seq::empty();
    let ghost vx_f = hmflags(blocks as nat, block as int, flags, flags_start, flags_end);
    proof {
        lemma_hmflags(blocks as nat, block as int, flags, flags_start, flags_end, block_flags);
        assert(inputs[0].len() == 64 * blocks);
    }
}
before round 1 {
    proof {
        vx_v0 = vw(v@);
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vx_v0, j) == state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32) by {
            assert(offset_low_vec@[j] == vx_off(j) as u32); assert(offset_high_vec@[j] == (vx_off(j) >> 32u64) as u32);
            assert(lane(vx_v0, j) =~= state0(lane(vx_h0, j), vx_off(j), 64, vx_f as u32));
        }
    }
}
loopend 1 {
    proof {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] lane(vw(h_vecs@), j) == vx_h((block + 1) as nat, j) by {
            let b = inputs[j]@.subrange(64 * block, 64 * (block + 1));
            let m = words16(b);
            let s = lane(vx_v0, j);
            lemma_rounds(s, m, 1); lemma_rounds(s, m, 2); lemma_rounds(s, m, 3); lemma_rounds(s, m, 4);
            lemma_rounds(s, m, 5); lemma_rounds(s, m, 6); lemma_rounds(s, m, 7);
            assert(lane(vw(v@), j) == rounds(s, m, 7));
            reveal(comp);
            assert(lane(vw(h_vecs@), j) =~= comp(lane(vx_h0, j), b, 64, vx_off(j), vx_f));
            assert(vx_h((block + 1) as nat, j) == comp(vx_h(block as nat, j), b, 64, vx_off(j), vx_f));
        }
    }
}
afterloop 1 {
    let ghost vx_hf = vw(h_vecs@);
}
end {
    proof {
        assert forall|j: int| 0 <= j < 4 implies #[trigger] out@.subrange(32 * j, 32 * j + 32) == hm(key@, inputs[j]@, (offset + j * offset_delta) as u64, flags, flags_start, flags_end) by {
            let w = lane(vx_hf, j);
            assert(out@.subrange(32 * j, 32 * j + 16) == lebytes(h_vecs@[j]@));
            assert(out@.subrange(32 * j + 16, 32 * j + 32) == lebytes(h_vecs@[4 + j]@));
            assert(h_vecs@[j]@ =~= w.subrange(0, 4));
            assert(h_vecs@[4 + j]@ =~= w.subrange(4, 8));
            lemma_bytes8_halves(w);
            assert(out@.subrange(32 * j, 32 * j + 32) =~= out@.subrange(32 * j, 32 * j + 16) + out@.subrange(32 * j + 16, 32 * j + 32));
            assert(w == vx_h(blocks as nat, j));
            reveal(hm);
        }
    }
}
#fn compress external
spec {
    ensures final(cv)@ == comp(old(cv)@, block@, block_len, offset, flags)
}
#fn hash1
spec {
    requires A::cap() % 64 == 0,
    ensures final(out)@ == hm(key@, input.ab(), offset, flags, flags_start, flags_end),
}
start {
    hide(hmflags);
    let ghost vx_n = (input.ab().len() / 64) as nat;
    let ghost mut vx_k: int = 0;
    proof { input.law(); }
}
loop 1 {
    invariant
        input.ab().len() == 64 * vx_n, 0 <= vx_k <= vx_n,
        slice@ == input.ab().subrange(64 * vx_k, input.ab().len() as int),
        cv@ == hmfold(key@, input.ab(), vx_n, vx_k as nat, offset, flags, flags_start, flags_end),
        block_flags == (if vx_k == 0 { flags | flags_start } else { flags }),
    decreases slice.len()
}
loopstart 1 {
    proof {
        lemma_hmflags(vx_n, vx_k, flags, flags_start, flags_end, block_flags);
        assert(slice@.subrange(0, 64) =~= input.ab().subrange(64 * vx_k, 64 * (vx_k + 1)));
        assert(slice@.subrange(64, slice@.len() as int) =~= input.ab().subrange(64 * (vx_k + 1), input.ab().len() as int));
        assert(slice@.subrange(0, slice@.len() as int) =~= slice@);
        assert(slice@.len() == 64 <==> vx_k == vx_n - 1);
        assert(hmfold(key@, input.ab(), vx_n, (vx_k + 1) as nat, offset, flags, flags_start, flags_end)
            == comp(cv@, input.ab().subrange(64 * vx_k, 64 * (vx_k + 1)), 64, offset, hmflags(vx_n, vx_k, flags, flags_start, flags_end)));
        vx_k = vx_k + 1;
    }
}
#fn hash_many
spec {
    requires 32 * inputs.len() <= old(out).len(), offset + inputs.len() * offset_delta < 0x1_0000_0000_0000_0000,
        forall|i: int| 0 <= i < inputs.len() ==> (#[trigger] inputs[i]).ab().len() % 64 == 0,
    ensures hm_post(inputs@, key@, offset, offset_delta, flags, flags_start, flags_end, old(out)@, final(out)@),
}
start {
    hide(hm); hide(hm_part);
    let ghost vx_in = inputs@;
    let ghost vx_n = inputs.len() as int;
    let ghost vx_off = offset as int;
    let ghost vx_d = offset_delta as int;
    let ghost mut vx_k: int = 0;
    proof {
        reveal(hm_part);
        assert(hm_part(vx_in, key@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, 0));
        assert(vx_off + 0 * vx_d == vx_off);
        assert(inputs@.subrange(0, vx_n) =~= inputs@);
    }
}
loop 1 {
    invariant
        vx_d == offset_delta, vx_n == vx_in.len(), vx_k + inputs.len() == vx_n, vx_k >= 0, inputs@ == vx_in.subrange(vx_k, vx_n), vx_po_out == 32 * vx_k,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i]).ab().len() % 64 == 0,
        hm_part(vx_in, key@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    decreases inputs.len()
}
loopstart 1 {
    let ghost vx_o0 = out@;
    proof {
        vx_in[vx_k].law();
        lemma_mul_le(vx_k + 4, vx_n, vx_d); lemma_mul_le(vx_k, vx_n, vx_d);
        assert forall|j: int| 0 <= j < 4 implies (#[trigger] inputs@[j]) == vx_in[vx_k + j] && inputs@[j].ab().len() == A::cap() by { vx_in[vx_k + j].law(); }
        assert(vx_in[vx_k].ab().len() % 64 == 0);
    }
}
loopend 1 {
    proof {
        let e = 32 * vx_k;
        assert(out@ =~= vx_o0.subrange(0, e) + out@.subrange(e, e + 128) + vx_o0.subrange(e + 128, vx_o0.len() as int));
        assert forall|j: int| 0 <= j < 4 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(key@, vx_in[vx_k + j].ab(), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by {
            let o4 = out@.subrange(e, e + 128);
            assert(out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) =~= o4.subrange(32 * j, 32 * j + 32));
            assert(vx_in[vx_k + j] == vx_in.subrange(vx_k, vx_n)[j]);
            assert(vx_off + (vx_k + j) * vx_d == (vx_off + vx_k * vx_d) + j * vx_d) by (nonlinear_arith);
        }
        lemma_hm_step(vx_in, key@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o0, vx_k, out@, 4);
        assert(inputs@ =~= vx_in.subrange(vx_k + 4, vx_n));
        vx_k = vx_k + 4;
    }
}
loop 2 {
    invariant
        vx_d == offset_delta, vx_n == vx_in.len(), vx_k + inputs.len() == vx_n + vx_ix1, vx_ix1 <= inputs.len(), vx_k >= vx_ix1, inputs@ == vx_in.subrange(vx_k - vx_ix1, vx_n), vx_po_out + 32 * vx_ix1 == 32 * vx_k, vx_lo1_1 == 32 * vx_ix1,
        out.len() == old(out).len(), 32 * vx_n <= out.len(), vx_off + vx_n * vx_d < 0x1_0000_0000_0000_0000, offset == vx_off + vx_k * vx_d,
        forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_in[i]).ab().len() % 64 == 0,
        hm_part(vx_in, key@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, out@, vx_k),
    ensures
        vx_k == vx_n,
    decreases inputs.len() - vx_ix1
}
loopstart 2 {
    let ghost vx_o1 = out@;
    proof {
        if vx_k < vx_n {
            vx_in[vx_k].law();
            assert(vx_in[vx_k].ab().len() % 64 == 0);
            assert(inputs@[vx_ix1 as int] == vx_in[vx_k]);
            lemma_mul_le(vx_k + 1, vx_n, vx_d); lemma_mul_le(vx_k, vx_n, vx_d);
        }
    }
}
loopend 2 {
    proof {
        let e = 32 * vx_k;
        assert(out@ =~= vx_o1.subrange(0, e) + out@.subrange(e, e + 32) + vx_o1.subrange(e + 32, vx_o1.len() as int));
        assert(vx_in[vx_k] == inputs@[vx_ix1 - 1]);
        assert(out@.subrange(e, e + 32) == hm(key@, vx_in[vx_k].ab(), (vx_off + vx_k * vx_d) as u64, flags, flags_start, flags_end));
        assert forall|j: int| 0 <= j < 1 implies #[trigger] out@.subrange(32 * (vx_k + j), 32 * (vx_k + j) + 32) == hm(key@, vx_in[vx_k + j].ab(), (vx_off + (vx_k + j) * vx_d) as u64, flags, flags_start, flags_end) by { assert(j == 0); }
        lemma_hm_step(vx_in, key@, vx_off, vx_d, flags, flags_start, flags_end, old(out)@, vx_o1, vx_k, out@, 1);
        vx_k = vx_k + 1;
    }
}
end {
    proof { reveal(hm_part); }
}
#text {
}
fn main() {}
#end
