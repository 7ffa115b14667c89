// Contracts for python/baokeshed.py, as translated by tools/pyx.py.
#include shim.rs
#include comp.rs
#include hmspec.rs
#include spec.rs
#include stack.rs
#include pyshim.rs
#text {
verus! {
pub open spec fn ok32(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 0x1_0000_0000 }
pub open spec fn w32(s: Seq<int>) -> Seq<u32> { Seq::new(s.len(), |i: int| s[i] as u32) }
pub open spec fn in32(a: int) -> bool { 0 <= a < 0x1_0000_0000 }
// flags: small integers
pub proof fn lemma_or(a: int, b: int)
    requires 0 <= a < 64, 0 <= b < 64
    ensures ((a as u64) | (b as u64)) as int == ((a as u8) | (b as u8)) as int, (a as u8) | (b as u8) < 64, (b as u8) | (a as u8) == (a as u8) | (b as u8)
{
    let (x, y) = (a as u8, b as u8);
    assert((x as u64) | (y as u64) == (x | y) as u64) by (bit_vector);
    assert(x | y < 64) by (bit_vector) requires x < 64, y < 64;
    assert(x | y == y | x) by (bit_vector);
}
pub proof fn lemma_or_zero(a: u8)
    ensures a | 0 == a
{ assert(a | 0 == a) by (bit_vector); }
pub proof fn lemma_xor(a: int, b: int)
    requires in32(a), in32(b)
    ensures ((a as u64) ^ (b as u64)) as int == ((a as u32) ^ (b as u32)) as int
{
    let (x, y) = (a as u32, b as u32);
    assert((x as u64) ^ (y as u64) == (x ^ y) as u64) by (bit_vector);
}
pub open spec fn xor_all() -> bool { forall|a: int, b: int| in32(a) && in32(b) ==> #[trigger] ((a as u64) ^ (b as u64)) as int == ((a as u32) ^ (b as u32)) as int }
pub proof fn lemma_xor_all()
    ensures xor_all()
{ assert forall|a: int, b: int| in32(a) && in32(b) implies #[trigger] ((a as u64) ^ (b as u64)) as int == ((a as u32) ^ (b as u32)) as int by { lemma_xor(a, b); } }
pub proof fn lemma_addw()
    ensures forall|a: u32, b: u32, x: u32| #[trigger] addw(a, addw(b, x)) == addw(addw(a, b), x)
{ }
pub open spec fn sched_small() -> bool { forall|k: int, i: int| 0 <= i < 16 ==> 0 <= #[trigger] sched(k)[i] < 16 && sched(k).len() == 16 }
pub proof fn lemma_sched_small()
    ensures sched_small()
{ }
pub proof fn lemma_b8len()
    ensures forall|n: Node| (#[trigger] node_cv(n)).len() == 32
{ assert forall|n: Node| (#[trigger] node_cv(n)).len() == 32 by { lemma_bytes8_len(comp(n.cv, n.block, n.len, n.off, n.flags)); } }
impl Output {
    pub open spec fn wf(&self) -> bool {
        &&& self.cv@.len() == 8 && ok32(self.cv@) && self.block@.len() == 64 && 0 <= self.block_len@ <= 64
        &&& u64ok(self.offset@) && 0 <= self.flags@ < 64
    }
    pub open spec fn blk(&self, off: u64) -> Seq<u8> { lebytes(full(w32(self.cv@), words16(self.block@), off, self.block_len@ as u32, (self.flags@ as u32) | 8)) }
    pub open spec fn is(&self, n: Node) -> bool {
        &&& self.wf() && w32(self.cv@) == n.cv && self.block@ == n.block && self.block_len@ == n.len && self.offset@ == n.off && self.flags@ == n.flags
    }
}
pub proof fn lemma_cv(o: Output, n: Node)
    requires o.is(n)
    ensures node_cv(n) == bytes8(full(w32(o.cv@), words16(o.block@), o.offset@ as u64, o.block_len@ as u32, o.flags@ as u32).subrange(0, 8))
{ reveal(comp); }
pub proof fn lemma_lebytes(w: Seq<u32>)
    requires w.len() == 8
    ensures lebytes(w) == bytes8(w)
{
    assert forall|i: int| 0 <= i < 32 implies #[trigger] lebytes(w)[i] == bytes8(w)[i] by {
        lemma_bytes8_at(w, i / 4);
        assert(bytes8(w).subrange(4 * (i / 4), 4 * (i / 4) + 4)[i % 4] == bytes8(w)[i]);
    }
    assert(lebytes(w) =~= bytes8(w));
}
pub open spec fn stream(n: Node, i: int) -> u8 { xofblk(n.cv, n.block, n.len, (64 * (i / 64)) as u64, n.flags)[i % 64] }
pub proof fn lemma_blk(o: Output, n: Node, off: u64)
    requires o.is(n)
    ensures o.blk(off) == xofblk(n.cv, n.block, n.len, off, n.flags | F_ROOT), o.blk(off).len() == 64
{
    reveal(xofblk);
    let f = n.flags;
    assert((f | 8u8) as u32 == (f as u32) | 8u32) by (bit_vector) requires f < 64;
}
// the subtree over a slice of the message
pub open spec fn sub_node(key: Seq<u32>, msg: Seq<u8>, off: u64, flags: u8) -> Node {
    if msg.len() <= 2048 { chunk_node(key, msg, off, flags, 0) } else {
        let xs = ccvs(key, msg, off, flags);
        let l = lp2(xs.len()) as int;
        parent_node(key, tree(key, flags, xs.subrange(0, l)), tree(key, flags, xs.subrange(l, xs.len() as int)), flags, 0)
    }
}
pub proof fn lemma_sub_cv(key: Seq<u32>, msg: Seq<u8>, off: u64, flags: u8)
    ensures node_cv(sub_node(key, msg, off, flags)) == tree(key, flags, ccvs(key, msg, off, flags))
{
    let xs = ccvs(key, msg, off, flags);
    if msg.len() <= 2048 {
        assert(xs.len() == 1);
        assert(chunk_of(msg, 0) =~= msg);
        assert(xs[0] == ccv(key, msg, off, flags, 0));
    } else {
        assert(xs.len() >= 2);
        lemma_lp2(xs.len());
    }
}
pub proof fn lemma_sub_root(key: Seq<u32>, msg: Seq<u8>, flags: u8)
    ensures (Node { flags: sub_node(key, msg, 0, flags).flags | F_ROOT, ..sub_node(key, msg, 0, flags) }) == root_node(key, msg, flags)
{
    let n = nfull(msg.len());
    lemma_or_zero(flags | startf(n as int) | F_END);
    lemma_or_zero(flags | F_PARENT);
}
pub proof fn lemma_p2_pow2(k: nat)
    ensures is_pow2(p2(k)), p2(k) >= 1
    decreases k
{ if k > 0 { lemma_p2_pow2((k - 1) as nat); assert(p2(k) / 2 == p2((k - 1) as nat)); } }
pub proof fn lemma_left(len: int, k: nat)
    requires len > 2048, k >= 1, p2((k - 1) as nat) <= (len - 1) / 2048 < p2(k)
    ensures p2((k - 1) as nat) == lp2(nchunks(len as nat)), 0 < 2048 * p2((k - 1) as nat) < len
{
    let d = p2((k - 1) as nat);
    lemma_p2_pow2((k - 1) as nat);
    assert(p2(k) == 2 * d);
    lemma_lp2_unique(d, (nchunks(len as nat) - d) as nat);
}
#end
#file py.rs
#struct Output
#fn const_iv
ret r
spec {
    ensures r@.len() == 8, ok32(r@), w32(r@) == spec_iv(),
}
return {
    assert(w32(vx_ret@) =~= spec_iv());
}
#fn const_msg_schedule
ret r
spec {
    ensures r@.len() == 7, forall|k: int| 0 <= k < 7 ==> #[trigger] r@[k] == sched(k),
}
return {
    proof {
        assert(vx_ret@[0] =~= sched(0)); assert(vx_ret@[1] =~= sched(1)); assert(vx_ret@[2] =~= sched(2)); assert(vx_ret@[3] =~= sched(3));
        assert(vx_ret@[4] =~= sched(4)); assert(vx_ret@[5] =~= sched(5)); assert(vx_ret@[6] =~= sched(6));
    }
}
#fn const_block_len
ret r
spec {
    ensures r@ == 64,
}
#fn const_chunk_len
ret r
spec {
    ensures r@ == 2048,
}
#fn const_key_len
ret r
spec {
    ensures r@ == 32,
}
#fn const_out_len
ret r
spec {
    ensures r@ == 32,
}
#fn const_word_bits
ret r
spec {
    ensures r@ == 32,
}
#fn const_word_bytes
ret r
spec {
    ensures r@ == 4,
}
#fn const_word_max
ret r
spec {
    ensures r@ == 0xffff_ffff,
}
start {
    assert(p2(32) == 0x1_0000_0000) by (compute);
}
#fn const_chunk_start
ret r
spec {
    ensures r@ == 1,
}
start {
    assert(1u64 << 0u64 == 1) by (bit_vector);
}
#fn const_chunk_end
ret r
spec {
    ensures r@ == 2,
}
start {
    assert(1u64 << 1u64 == 2) by (bit_vector);
}
#fn const_parent
ret r
spec {
    ensures r@ == 4,
}
start {
    assert(1u64 << 2u64 == 4) by (bit_vector);
}
#fn const_root
ret r
spec {
    ensures r@ == 8,
}
start {
    assert(1u64 << 3u64 == 8) by (bit_vector);
}
#fn const_keyed_hash
ret r
spec {
    ensures r@ == 16,
}
start {
    assert(1u64 << 4u64 == 16) by (bit_vector);
}
#fn const_derive_key
ret r
spec {
    ensures r@ == 32,
}
start {
    assert(1u64 << 5u64 == 32) by (bit_vector);
}
#fn wrapping_add
ret r
spec {
    requires in32(a@), in32(b@),
    ensures r@ == addw(a@ as u32, b@ as u32),
}
#fn rotate_right
ret r
spec {
    requires in32(x@), 0 < n@ < 32,
    ensures r@ == rotr(x@ as u32, n@ as u32),
}
start {
    proof {
        let v = x@ as u32;
        let k = n@ as u32;
        assert((((v as u64) >> (k as u64)) | ((v as u64) << ((32 - k) as u64))) & 0xffff_ffffu64 == ((v >> k) | (v << ((32 - k) as u32))) as u64) by (bit_vector) requires 0 < k, k < 32;
    }
}
#fn g
spec {
    requires 0 <= a@ < 16, 0 <= b@ < 16, 0 <= c@ < 16, 0 <= d@ < 16, a@ != b@, a@ != c@, a@ != d@, b@ != c@, b@ != d@, c@ != d@,
        old(state)@.len() == 16, ok32(old(state)@), in32(x@), in32(y@),
    ensures final(state)@.len() == 16, ok32(final(state)@), w32(final(state)@) == g_spec(w32(old(state)@), a@, b@, c@, d@, x@ as u32, y@ as u32),
}
start {
    hide(rotr); hide(addw);
    proof { lemma_xor_all(); lemma_addw(); }
}
end {
    proof {
        let e = g_spec(w32(old(state)@), a@, b@, c@, d@, x@ as u32, y@ as u32);
        let t = w32(state@);
        assert(t[a@] == e[a@]); assert(t[b@] == e[b@]); assert(t[c@] == e[c@]); assert(t[d@] == e[d@]);
        assert(t =~= e);
    }
}
#fn round
spec {
    requires old(state)@.len() == 16, ok32(old(state)@), msg_words@.len() == 16, ok32(msg_words@),
        schedule@.len() == 16, forall|i: int| 0 <= i < 16 ==> 0 <= (#[trigger] schedule@[i]) < 16,
    ensures final(state)@.len() == 16, ok32(final(state)@),
        forall|r: int| schedule@ == sched(r) ==> w32(final(state)@) == #[trigger] round_spec(w32(old(state)@), w32(msg_words@), r),
}
start {
    hide(g_spec);
}
#fn words_from_bytes
ret r
spec {
    ensures r@.len() == buf@.len() / 4, ok32(r@), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == of_le4(buf@.subrange(4 * i, 4 * i + 4)),
}
loop 1 {
    invariant
        py_end1@ == buf@.len() / 4, words@.len() == py_end1@, 0 <= py_at1@ <= py_end1@, ok32(words@),
        forall|i: int| 0 <= i < py_at1@ ==> #[trigger] words@[i] == of_le4(buf@.subrange(4 * i, 4 * i + 4)),
    decreases py_end1@ - py_at1@
}
#fn bytes_from_words
ret r
spec {
    requires ok32(words@),
    ensures r@ == lebytes(w32(words@)),
}
loop 1 {
    invariant
        py_end1@ == words@.len(), buf@.len() == 4 * words@.len(), 0 <= py_at1@ <= py_end1@, ok32(words@),
        forall|i: int| 0 <= i < 4 * py_at1@ ==> #[trigger] buf@[i] == lebytes(w32(words@))[i],
    decreases py_end1@ - py_at1@
}
return {
    assert(vx_ret@ =~= lebytes(w32(words@)));
}
#fn compress
ret r
spec {
    requires cv@.len() == 8, ok32(cv@), block@.len() == 64, in32(block_len@), u64ok(offset@), in32(flags@),
    ensures r@.len() == 16, ok32(r@), w32(r@) == full(w32(cv@), words16(block@), offset@ as u64, block_len@ as u32, flags@ as u32),
}
start {
    hide(g_spec); hide(cols); hide(diags); hide(round_spec);
    let ghost vx_m = words16(block@);
    proof {
        lemma_sched_small();
        let o = offset@ as u64;
        assert((o as u32) as u64 == o % 0x1_0000_0000 && ((o >> 32u64) as u32) as u64 == (o >> 32u64) % 0x1_0000_0000 && (o >> 32u64) as u32 == (o >> 32) as u32) by (bit_vector);
        lemma_xor_all();
    }
}
beforeloop 1 {
    let ghost vx_s0 = state0(w32(cv@), offset@ as u64, block_len@ as u32, flags@ as u32);
    proof {
        assert(w32(block_words@) =~= vx_m);
        assert(w32(state@) =~= vx_s0);
    }
}
loop 1 {
    invariant
        py_end1@ == 7, 0 <= py_at1@ <= 7, state@.len() == 16, ok32(state@), block_words@.len() == 16, ok32(block_words@), w32(block_words@) == vx_m,
        w32(state@) == rounds(vx_s0, vx_m, py_at1@ as nat), sched_small(),
    decreases 7 - py_at1@
}
afterloop 1 {
    let ghost vx_s7 = state@;
}
loop 2 {
    invariant
        py_end2@ == 8, 0 <= py_at2@ <= 8, state@.len() == 16, ok32(state@), vx_s7.len() == 16, ok32(vx_s7), cv@.len() == 8, ok32(cv@),
        forall|j: int| 0 <= j < py_at2@ ==> #[trigger] state@[j] == (vx_s7[j] as u32) ^ (vx_s7[j + 8] as u32),
        forall|j: int| 8 <= j < py_at2@ + 8 ==> #[trigger] state@[j] == (vx_s7[j] as u32) ^ (cv@[j - 8] as u32),
        forall|j: int| py_at2@ <= j < 8 || py_at2@ + 8 <= j < 16 ==> #[trigger] state@[j] == vx_s7[j],
        xor_all(),
    decreases 8 - py_at2@
}
return {
    proof { assert(w32(vx_ret@) =~= full(w32(cv@), words16(block@), offset@ as u64, block_len@ as u32, flags@ as u32)); }
}
#fn Output::new
ret r
spec {
    ensures r.cv@ == cv@, r.block@ == block@, r.block_len@ == block_len@, r.offset@ == offset@, r.flags@ == flags@,
}
#fn Output::chaining_value
ret r
spec {
    requires self.wf(),
    ensures forall|n: Node| #[trigger] self.is(n) ==> r@ == node_cv(n),
}
return {
    proof {
        let f = full(w32(self.cv@), words16(self.block@), self.offset@ as u64, self.block_len@ as u32, self.flags@ as u32);
        lemma_lebytes(f.subrange(0, 8));
        assert(w32(words@.subrange(0, 8)) =~= f.subrange(0, 8));
        assert forall|n: Node| #[trigger] self.is(n) implies vx_ret@ == node_cv(n) by { lemma_cv(*self, n); }
    }
}
#fn Output::root_output_bytes
ret r
spec {
    requires self.wf(), 0 <= out_len@ <= 0x7fff_ffff_ffff_ffff,
    ensures r@.len() == out_len@, forall|i: int| 0 <= i < out_len@ ==> #[trigger] r@[i] == self.blk((64 * (i / 64)) as u64)[i % 64],
}
start {
    hide(full); hide(le4);
    proof {
        lemma_or(self.flags@, 8);
        let f = self.flags@ as u8;
        assert((f | 8u8) as u32 == (f as u32) | 8u32) by (bit_vector);
    }
}
loop 1 {
    invariant
        self.wf(), 0 <= offset@ <= out_len@ <= 0x7fff_ffff_ffff_ffff, buf@.len() == out_len@, offset@ < out_len@ ==> offset@ % 64 == 0,
        forall|i: int| 0 <= i < offset@ ==> #[trigger] buf@[i] == self.blk((64 * (i / 64)) as u64)[i % 64],
    decreases out_len@ - offset@
}
loopstart 1 {
    let ghost vx_o = offset@;
    let ghost vx_b = buf@;
    proof {
        lemma_or(self.flags@, 8);
        let f = self.flags@ as u8;
        assert((f | 8u8) as u32 == (f as u32) | 8u32) by (bit_vector);
    }
}
loopend 1 {
    proof {
        assert forall|i: int| 0 <= i < offset@ implies #[trigger] buf@[i] == self.blk((64 * (i / 64)) as u64)[i % 64] by {
            if i >= vx_o { assert(64 * (i / 64) == vx_o); } else { assert(buf@[i] == vx_b[i]); }
        }
    }
}
#fn hash_chunk
ret r
spec {
    requires key_words@.len() == 8, ok32(key_words@), u64ok(offset@), 0 <= flags@ < 64, chunk@.len() <= 2048,
    ensures r.is(chunk_node(w32(key_words@), chunk@, offset@ as u64, flags@ as u8, 0)),
}
start {
    hide(fold);
    proof {
        lemma_or(flags@, 1); lemma_or(flags@, 2); lemma_or_zero(flags@ as u8);
        reveal_with_fuel(fold, 1);
    }
}
loop 1 {
    invariant
        key_words@.len() == 8, ok32(key_words@), u64ok(offset@), 0 <= flags@ < 64, chunk@.len() <= 2048,
        cv@.len() == 8, ok32(cv@), 0 <= position@, position@ % 64 == 0, position@ == 0 || position@ < chunk@.len(),
        w32(cv@) == fold(w32(key_words@), chunk@, (position@ / 64) as nat, offset@ as u64, flags@ as u8),
        block_flags@ == (flags@ as u8) | startf(position@ / 64), 0 <= block_flags@ < 64,
    decreases chunk@.len() - position@
}
loopstart 1 {
    let ghost vx_p = position@;
    let ghost vx_cv = w32(cv@);
    proof { reveal(comp); reveal_with_fuel(fold, 2); lemma_or_zero(flags@ as u8); }
}
loopend 1 {
    proof {
        let p = vx_p / 64;
        assert(position@ / 64 == p + 1);
        assert(block@ =~= chunk@.subrange(64 * p, 64 * (p + 1)));
        let f = (flags@ as u8) | startf(p);
        assert(w32(cv@) =~= full(vx_cv, words16(block@), offset@ as u64, 64, f as u32).subrange(0, 8));
    }
}
afterloop 1 {
    proof {
        lemma_or(block_flags@, 2);
        assert(position@ / 64 == nfull(chunk@.len()));
        lemma_or_zero((flags@ as u8) | startf(position@ / 64) | F_END);
    }
}
return {
    proof {
        assert(block@ =~= pad64(chunk@.subrange(position@, chunk@.len() as int)));
    }
}
#fn hash_parent
ret r
spec {
    requires left_child.wf(), right_child.wf(), key_words@.len() == 8, ok32(key_words@), 0 <= flags@ < 64,
    ensures forall|a: Node, b: Node| #[trigger] left_child.is(a) && #[trigger] right_child.is(b) ==> r.is(parent_node(w32(key_words@), node_cv(a), node_cv(b), flags@ as u8, 0)),
}
start {
    hide(bytes8); hide(comp); hide(words8);
    proof { lemma_or(flags@, 4); lemma_or_zero((flags@ as u8) | F_PARENT); lemma_b8len(); }
}
#fn left_len
ret r
spec {
    requires parent_len@ > 2048,
    ensures r@ == 2048 * lp2(nchunks(parent_len@ as nat)), 0 < r@ < parent_len@,
}
before py_mul 1 {
    proof {
        let a = (parent_len@ - 1) / 2048;
        assert forall|k: nat| k >= 1 && p2((k - 1) as nat) <= a < #[trigger] p2(k) implies p2((k - 1) as nat) == lp2(nchunks(parent_len@ as nat)) && 0 < 2048 * p2((k - 1) as nat) < parent_len@ by { lemma_left(parent_len@, k); }
    }
}
#fn hash_recurse
ret r
spec {
    requires key_words@.len() == 8, ok32(key_words@), offset@ >= 0, offset@ + input_bytes@.len() < 0x1_0000_0000_0000_0000, 0 <= flags@ < 64,
    ensures r.is(sub_node(w32(key_words@), input_bytes@, offset@ as u64, flags@ as u8)),
    decreases input_bytes@.len()
}
start {
    hide(tree); hide(lp2); hide(node_cv); hide(chunk_node); hide(parent_node); hide(ccvs);
}
before hash_parent 1 {
    proof {
        let k = w32(key_words@);
        let f = flags@ as u8;
        let l = lp2(nchunks(input_bytes@.len())) as int;
        assert(left@ =~= input_bytes@.subrange(0, 2048 * l));
        assert(right@ =~= input_bytes@.subrange(2048 * l, input_bytes@.len() as int));
        lemma_ccvs_split(k, input_bytes@, offset@ as u64, f, l);
        let xs = ccvs(k, input_bytes@, offset@ as u64, f);
        let a = ccvs(k, left@, offset@ as u64, f);
        let b = ccvs(k, right@, right_offset@ as u64, f);
        assert(xs.len() == nchunks(input_bytes@.len())) by { reveal(ccvs); }
        assert(xs.subrange(0, l) =~= a);
        assert(xs.subrange(l, xs.len() as int) =~= b);
        lemma_sub_cv(k, left@, offset@ as u64, f);
        lemma_sub_cv(k, right@, right_offset@ as u64, f);
    }
}
#fn hash_internal
ret r
spec {
    requires key_words@.len() == 8, ok32(key_words@), input_bytes@.len() < 0x1_0000_0000_0000_0000, 0 <= flags@ < 64, 0 <= out_len@ <= 0x7fff_ffff_ffff_ffff,
    ensures r@.len() == out_len@, forall|i: int| 0 <= i < out_len@ ==> #[trigger] r@[i] == stream(root_node(w32(key_words@), input_bytes@, flags@ as u8), i),
}
return {
    proof {
        let n = sub_node(w32(key_words@), input_bytes@, 0, flags@ as u8);
        lemma_sub_root(w32(key_words@), input_bytes@, flags@ as u8);
        assert forall|i: int| 0 <= i < out_len@ implies #[trigger] vx_ret@[i] == stream(root_node(w32(key_words@), input_bytes@, flags@ as u8), i) by {
            lemma_blk(output, n, (64 * (i / 64)) as u64);
        }
    }
}
#fn hash
ret r
spec {
    requires input_bytes@.len() < 0x1_0000_0000_0000_0000, 0 <= out_len@ <= 0x7fff_ffff_ffff_ffff,
    ensures r@.len() == out_len@, forall|i: int| 0 <= i < out_len@ ==> #[trigger] r@[i] == stream(root_node(spec_iv(), input_bytes@, 0), i),
}
#fn keyed_hash
ret r
spec {
    requires key_bytes@.len() == 32, input_bytes@.len() < 0x1_0000_0000_0000_0000, 0 <= out_len@ <= 0x7fff_ffff_ffff_ffff,
    ensures r@.len() == out_len@, forall|i: int| 0 <= i < out_len@ ==> #[trigger] r@[i] == stream(root_node(words8(key_bytes@), input_bytes@, F_KEYED), i),
}
return {
    assert(w32(key_words@) =~= words8(key_bytes@));
}
#fn derive_key
ret r
spec {
    requires key_bytes@.len() == 32, context_bytes@.len() < 0x1_0000_0000_0000_0000, 0 <= out_len@ <= 0x7fff_ffff_ffff_ffff,
    ensures r@.len() == out_len@, forall|i: int| 0 <= i < out_len@ ==> #[trigger] r@[i] == stream(root_node(words8(key_bytes@), context_bytes@, F_DERIVE), i),
}
return {
    assert(w32(key_words@) =~= words8(key_bytes@));
}
#text {
}
fn main() {}
#end
