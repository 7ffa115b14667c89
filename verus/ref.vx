// Contracts for reference_impl/reference_impl.rs.
#include shim.rs
#include comp.rs
#include hmspec.rs
#include spec.rs
#include stack.rs
#text {
verus! {
// flags and lengths are u32 in the reference implementation
pub proof fn lemma_or32(a: u32, b: u32)
    ensures (a | b) as u8 == (a as u8) | (b as u8), a < 64 && b < 64 ==> (a | b) < 64
{
    assert((a | b) as u8 == (a as u8) | (b as u8)) by (bit_vector);
    assert(a < 64 && b < 64 ==> (a | b) < 64) by (bit_vector);
}
pub proof fn lemma_orz_all()
    ensures forall|a: u8| #[trigger] (a | 0) == a,
{ assert forall|a: u8| #[trigger] (a | 0) == a by { assert(a | 0 == a) by (bit_vector); } }
// the flags of a chunk's last block and of a parent
pub proof fn lemma_out_flags(a: u32, s: u8)
    requires a < 64, s < 2
    ensures (a | (s as u32) | 2) < 64, (a | (s as u32) | 2) as u8 == (a as u8) | s | 2u8 | 0u8, (4 | a) < 64, (4 | a) as u8 == (a as u8) | 4u8 | 0u8,
{
    let t = s as u32;
    assert((a | t | 2) < 64 && (4 | a) < 64) by (bit_vector) requires a < 64, t < 2;
    assert((a | (s as u32) | 2) as u8 == (a as u8) | s | 2u8 | 0u8) by (bit_vector) requires a < 64, s < 2;
    assert((4 | a) as u8 == (a as u8) | 4u8 | 0u8) by (bit_vector) requires a < 64;
}
pub open spec fn b8(w: [u32; 8]) -> Seq<u8> { bytes8(w@) }

impl Output {
    // the root output block at byte offset `off`
    pub open spec fn blk(&self, off: u64) -> Seq<u8> { lebytes(full(self.input_chaining_value@, self.block_words@, off, self.block_len, self.flags | 8)) }
    pub open spec fn is(&self, n: Node) -> bool {
        &&& self.input_chaining_value@ == n.cv && self.block_words@ == words16(n.block) && n.len <= 64
        &&& self.offset == n.off && self.block_len == n.len && self.flags < 64 && self.flags as u8 == n.flags
    }
}
impl ChunkState {
    // `b` is what has been absorbed so far
    pub open spec fn st(&self, b: Seq<u8>) -> bool { self.st0(b) && (self.blocks_compressed > 0 ==> self.block_len > 0) }
    pub open spec fn st0(&self, b: Seq<u8>) -> bool {
        let c = 64 * self.blocks_compressed;
        &&& b.len() <= 2048 && self.block_len <= 64 && self.flags < 64 && self.key@.len() == 8
        &&& c + self.block_len == b.len()
        &&& self.chaining_value@ == fold(self.key@, b, self.blocks_compressed as nat, self.offset, self.flags as u8)
        &&& self.block@ == pad64(b.subrange(c as int, b.len() as int))
    }
    pub open spec fn inv(&self) -> bool { self.st(self.bytes@) }
    pub open spec fn frame(&self, o: &ChunkState) -> bool {
        self.key@ == o.key@ && self.offset == o.offset && self.flags == o.flags
    }
    pub open spec fn node(&self) -> Node { chunk_node(self.key@, self.bytes@, self.offset, self.flags as u8, 0) }
}
impl Hasher {
    pub open spec fn f(&self) -> u8 { self.chunk_state.flags as u8 }
    pub open spec fn cs(&self) -> Seq<Seq<u8>> { ccvs(self.key@, self.msg@, 0, self.f()) }
    pub open spec fn n(&self) -> nat { (self.chunk_state.offset / 2048) as nat }
    pub open spec fn stack(&self) -> Seq<Seq<u8>> { Seq::new(self.subtree_stack_len as nat, |i: int| b8(self.subtree_stack[i])) }
    pub open spec fn core(&self) -> bool {
        &&& self.chunk_state.inv() && self.chunk_state.key@ == self.key@
        &&& self.chunk_state.offset % 2048 == 0
        &&& self.chunk_state.offset + self.chunk_state.bytes@.len() <= self.msg@.len() < 0x1_0000_0000_0000_0000
        &&& self.chunk_state.bytes@ == self.msg@.subrange(self.chunk_state.offset as int, self.consumed())
        &&& self.subtree_stack_len <= 53
        &&& self.stack() == merged(self.key@, self.f(), self.cs(), self.n())
        &&& self.chunk_state.bytes@.len() == 0 ==> self.n() == 0
    }
    pub open spec fn consumed(&self) -> int { self.chunk_state.offset + self.chunk_state.bytes@.len() }
    pub open spec fn inv(&self) -> bool { self.core() && self.consumed() == self.msg@.len() }
    pub open spec fn mode(&self) -> (Seq<u32>, u8) { (self.key@, self.f()) }
    pub open spec fn root(&self) -> Node { root_node(self.key@, self.msg@, self.f()) }
}
// byte i of the output stream of a root node
pub open spec fn stream(n: Node, i: int) -> u8 { xofblk(n.cv, n.block, n.len, (64 * (i / 64)) as u64, n.flags)[i % 64] }
pub proof fn lemma_blk(o: Output, n: Node, off: u64)
    requires o.is(n)
    ensures o.blk(off) == xofblk(n.cv, n.block, n.len, off, n.flags | F_ROOT), o.blk(off).len() == 64
{
    reveal(xofblk);
    let f = o.flags;
    assert(((f as u8) | 8u8) as u32 == f | 8u32) by (bit_vector) requires f < 64;
}
pub proof fn lemma_cv(o: Output, n: Node)
    requires o.is(n)
    ensures comp(n.cv, n.block, n.len, n.off, n.flags) == full(o.input_chaining_value@, o.block_words@, o.offset, o.block_len, o.flags).subrange(0, 8)
{
    reveal(comp);
    let f = o.flags;
    assert((f as u8) as u32 == f) by (bit_vector) requires f < 64;
}
pub proof fn lemma_words16(w: Seq<u32>, b: Seq<u8>)
    requires b.len() == 64, w.len() == 16, forall|i: int| 0 <= i < 16 ==> w[i] == of_le4(b.subrange(4 * i, 4 * i + 4))
    ensures w == words16(b)
{ assert(w =~= words16(b)); }
pub proof fn lemma_fill(s0: ChunkState, s1: ChunkState, b: Seq<u8>, x: Seq<u8>, k: int)
    requires s0.st0(b), 0 <= k <= x.len(), s0.block_len + k <= 64, b.len() + k <= 2048,
        s1.frame(&s0), s1.blocks_compressed == s0.blocks_compressed, s1.chaining_value@ == s0.chaining_value@, s1.block_len == s0.block_len + k,
        s1.block@ =~= s0.block@.subrange(0, s0.block_len as int) + x.subrange(0, k) + s0.block@.subrange(s0.block_len + k, 64),
    ensures s1.st0(b + x.subrange(0, k))
{
    let b1 = b + x.subrange(0, k);
    let c = 64 * s0.blocks_compressed as int;
    assert(b.subrange(0, c) =~= b1.subrange(0, c));
    lemma_fold_prefix(s0.key@, b, b1, s0.blocks_compressed as nat, s0.offset, s0.flags as u8);
    assert(s1.block@ =~= pad64(b1.subrange(c, b1.len() as int)));
}
pub proof fn lemma_block(s0: ChunkState, s1: ChunkState, b: Seq<u8>)
    requires s0.st0(b), s0.block_len == 64, s1.frame(&s0), s1.blocks_compressed == s0.blocks_compressed + 1, s1.block_len == 0,
        s1.block@ =~= Seq::new(64, |i: int| 0u8),
        s1.chaining_value@ == comp(s0.chaining_value@, s0.block@, 64, s0.offset, (s0.flags as u8) | startf(s0.blocks_compressed as int)),
    ensures s1.st0(b)
{
    let k = s0.blocks_compressed as int;
    assert(s0.block@ =~= b.subrange(64 * k, 64 * (k + 1)));
    assert(s1.block@ =~= pad64(b.subrange(64 * (k + 1), b.len() as int)));
}
pub proof fn lemma_chunk_len(c: ChunkState)
    requires c.inv()
    ensures 64 * c.blocks_compressed + c.block_len == c.bytes@.len(), c.bytes@.len() <= 2048, c.flags < 64, c.key@.len() == 8
{ }
// more input does not disturb what is on the stack
pub proof fn lemma_grow(o: Hasher, h: Hasher, more: Seq<u8>)
    requires o.core(), h == (Hasher { msg: h.msg, ..o }), h.msg@ == o.msg@ + more, h.msg@.len() < 0x1_0000_0000_0000_0000,
    ensures h.core()
{
    let n = o.n();
    lemma_ccvs_grow(o.key@, o.msg@, more, o.f(), n);
    assert(n * 1 == n);
    lemma_stk_prefix(o.key@, o.f(), o.cs(), h.cs(), n, 1);
    assert(h.stack() =~= o.stack());
    assert(h.msg@.subrange(h.chunk_state.offset as int, h.consumed()) =~= o.msg@.subrange(o.chunk_state.offset as int, o.consumed()));
}
pub proof fn lemma_foldstep(key: Seq<u32>, flags: u8, st: Seq<Seq<u8>>, w: Seq<u8>)
    requires st.len() >= 1
    ensures
        st.len() == 1 ==> foldroot(key, flags, st, w) == rooted(parent_node(key, st[0], w, flags, 0)),
        st.len() > 1 ==> foldroot(key, flags, st, w) == foldroot(key, flags, st.drop_last(), node_cv(parent_node(key, st.last(), w, flags, 0)))
{ lemma_orz_all(); }
pub proof fn lemma_final(h: Hasher)
    requires h.inv()
    ensures
        h.stack().len() == 0 ==> rooted(h.chunk_state.node()) == h.root(),
        h.stack().len() > 0 ==> foldroot(h.key@, h.f(), h.stack().subrange(0, h.stack().len() as int), node_cv(h.chunk_state.node())) == h.root(),
        h.stack().len() == h.subtree_stack_len,
{
    lemma_orz_all();
    let n = h.n();
    let k = h.key@;
    let f = h.f();
    let cs = h.cs();
    lemma_stk_len(k, f, cs, n, 1);
    if n == 0 {
        assert(popcnt(0) == 0);
        assert(h.chunk_state.bytes@ =~= h.msg@);
    } else {
        lemma_popcnt_pos(n);
        assert(nchunks(h.msg@.len()) == n + 1);
        assert(chunk_of(h.msg@, n as int) =~= h.chunk_state.bytes@);
        let lo = cs.subrange(0, n as int);
        let xs = seq![cs[n as int]];
        assert(n * 1 == n);
        lemma_stk_prefix(k, f, cs, lo, n, 1);
        lemma_foldroot(k, f, lo, n, 1, xs);
        assert(cs =~= lo + xs);
        assert(h.stack().subrange(0, h.stack().len() as int) =~= h.stack());
    }
}
// the constant table is the schedule of the compression definition
pub open spec fn sched_row(r: int) -> bool {
    forall|i: int| 0 <= i < 16 ==> (#[trigger] MSG_SCHEDULE@[r]@[i]) as int == sched(r)[i] && MSG_SCHEDULE@[r]@[i] < 16
}
pub open spec fn sched_ok() -> bool { forall|r: int| 0 <= r < 7 ==> #[trigger] sched_row(r) }
pub proof fn lemma_sched()
    ensures sched_ok()
{
    assert(sched_row(0)); assert(sched_row(1)); assert(sched_row(2)); assert(sched_row(3));
    assert(sched_row(4)); assert(sched_row(5)); assert(sched_row(6));
}
pub open spec fn rooted(n: Node) -> Node { Node { flags: n.flags | F_ROOT, ..n } }
#end
#file reference_impl/reference_impl.rs
#const OUT_LEN KEY_LEN BLOCK_LEN CHUNK_LEN ROUNDS CHUNK_START CHUNK_END PARENT ROOT KEYED_HASH DERIVE_KEY IV MSG_SCHEDULE
#struct Output
#struct ChunkState
#struct Hasher
#ghost ChunkState bytes Ghost<Seq<u8>> = Ghost(Seq::<u8>::empty())
#ghost ChunkState key Ghost<Seq<u32>> = Ghost(key.view())
#ghost Hasher msg Ghost<Seq<u8>> = Ghost(Seq::<u8>::empty())

#fn g
spec {
    requires a < 16, b < 16, c < 16, d < 16, a != b, a != c, a != d, b != c, b != d, c != d,
    ensures final(state)@ == g_spec(old(state)@, a as int, b as int, c as int, d as int, mx, my),
}
start {
    hide(rotr);
}
end {
    proof {
        let e = g_spec(old(state)@, a as int, b as int, c as int, d as int, mx, my);
        assert(e.len() == 16);
        assert(state@[a as int] == e[a as int]);
        assert(state@[b as int] == e[b as int]);
        assert(state@[c as int] == e[c as int]);
        assert(state@[d as int] == e[d as int]);
        assert forall|j: int| 0 <= j < 16 implies state@[j] == e[j] by { if j != a && j != b && j != c && j != d { } }
        assert(state@ =~= e);
    }
}
#fn round
spec {
    requires forall|i: int| 0 <= i < 16 ==> (#[trigger] schedule[i]) < 16,
    ensures forall|r: int| (forall|i: int| 0 <= i < 16 ==> schedule[i] as int == sched(r)[i]) ==> final(state)@ == #[trigger] round_spec(old(state)@, m@, r),
}
#fn compress
ret r
spec {
    ensures r@ == full(chaining_value@, block_words@, offset, block_len, flags),
}
start {
    hide(g_spec); hide(cols); hide(diags); hide(round_spec); hide(sched);
    proof { lemma_sched(); }
}
beforeloop 1 {
    let ghost vx_s0 = state@;
    proof { assert(vx_s0 =~= state0(chaining_value@, offset, block_len, flags)); }
}
loop 1 {
    invariant
        vx_s0 == state0(chaining_value@, offset, block_len, flags),
        state@ == rounds(vx_s0, block_words@, r as nat), sched_ok(),
}
loopstart 1 {
    proof { assert(sched_row(r as int)); }
}
afterloop 1 {
    let ghost vx_s7 = state@;
}
loop 2 {
    invariant
        vx_s7.len() == 16,
        forall|j: int| 0 <= j < i ==> #[trigger] state@[j] == vx_s7[j] ^ vx_s7[j + 8],
        forall|j: int| 8 <= j < i + 8 ==> #[trigger] state@[j] == vx_s7[j] ^ chaining_value@[j - 8],
        forall|j: int| i <= j < 8 || i + 8 <= j < 16 ==> #[trigger] state@[j] == vx_s7[j],
}
end {
    proof { assert(state@ =~= full(chaining_value@, block_words@, offset, block_len, flags)); }
}
#fn first_8_words
ret r
spec {
    ensures r@ == compression_output@.subrange(0, 8),
}
#fn words_from_litte_endian_bytes
spec {
    requires bytes.len() == 4 * old(words).len(),
    ensures final(words).len() == old(words).len(), forall|i: int| 0 <= i < old(words).len() ==> final(words)@[i] == of_le4(bytes@.subrange(4 * i, 4 * i + 4)),
}
loop 1 {
    invariant
        vx_it1_0.wf(), vx_it1_0.n == 4, vx_it1_0.v@ == bytes@, vx_it1_0.pos == 4 * vx_ix1, words.len() == old(words).len(), bytes.len() == 4 * words.len(),
        forall|i: int| 0 <= i < vx_ix1 ==> words@[i] == of_le4(bytes@.subrange(4 * i, 4 * i + 4)),
    ensures
        vx_ix1 == words.len(),
    decreases bytes.len() - vx_it1_0.pos
}
#fn Output::chaining_value
ret r
spec {
    ensures forall|n: Node| #[trigger] self.is(n) ==> b8(r) == node_cv(n),
}
start {
    proof {
        assert forall|n: Node| #[trigger] self.is(n) implies comp(n.cv, n.block, n.len, n.off, n.flags) == full(self.input_chaining_value@, self.block_words@, self.offset, self.block_len, self.flags).subrange(0, 8) by { lemma_cv(*self, n); }
    }
}
#fn Output::root_output_bytes
spec {
    requires old(out_slice).len() <= 0x7fff_ffff_ffff_ffff,
    ensures final(out_slice).len() == old(out_slice).len(), forall|i: int| 0 <= i < old(out_slice).len() ==> final(out_slice)@[i] == self.blk((64 * (i / 64)) as u64)[i % 64],
}
start {
    hide(full); hide(le4);
    let ghost vx_n = out_slice.len();
}
loop 1 {
    invariant
        out_slice.len() == vx_n, vx_n <= 0x7fff_ffff_ffff_ffff, vx_n == old(out_slice).len(),
        vx_lo1_0 <= vx_n, vx_lo1_0 < vx_n ==> vx_lo1_0 == 64 * vx_ix1, offset == 64 * vx_ix1, 64 * vx_ix1 < vx_n + 64, vx_lo1_0 <= 64 * vx_ix1,
        forall|i: int| 0 <= i < vx_lo1_0 ==> out_slice@[i] == self.blk((64 * (i / 64)) as u64)[i % 64],
    ensures
        vx_lo1_0 == vx_n,
    decreases vx_n - vx_lo1_0
}
loopstart 1 {
    let ghost vx_s0 = out_slice@;
    let ghost vx_l0 = vx_lo1_0;
    let ghost mut vx_fin: Seq<u8> = Seq::empty();
}
beforeloop 2 {
    let ghost vx_bl = out_block.len();
    assert(words@ == full(self.input_chaining_value@, self.block_words@, offset, self.block_len, self.flags | 8));
    assert(words@.len() == 16);
}
loop 2 {
    invariant
        words@.len() == 16, out_block.len() == vx_bl, vx_bl <= 64,
        vx_lo2_1 <= out_block.len(), vx_lo2_1 < out_block.len() ==> vx_lo2_1 == 4 * vx_ix2, vx_ix2 <= 16, vx_lo2_1 <= 4 * vx_ix2,
        forall|i: int| 0 <= i < vx_lo2_1 ==> out_block@[i] == lebytes(words@)[i],
    ensures
        vx_lo2_1 == out_block.len(),
    decreases out_block.len() - vx_lo2_1
}
afterloop 2 {
    proof { vx_fin = out_block@; }
}
loopend 1 {
    proof {
        assert forall|i: int| 0 <= i < vx_lo1_0 implies out_slice@[i] == self.blk((64 * (i / 64)) as u64)[i % 64] by {
            if i >= vx_l0 { assert(out_slice@[i] == vx_fin[i - vx_l0]); assert(i / 64 == vx_ix1 - 1); }
            else { assert(out_slice@[i] == vx_s0[i]); }
        }
    }
}
#fn ChunkState::new
ret r
spec {
    requires flags < 64,
    ensures r.inv(), r.bytes@.len() == 0, r.offset == offset, r.key@ == key@, r.flags == flags,
}
return {
    proof { assert(vx_ret.block@ =~= pad64(Seq::<u8>::empty().subrange(0, 0))); }
}
#fn ChunkState::len
ret r
spec {
    ensures r == 64 * self.blocks_compressed + self.block_len, self.inv() ==> r == self.bytes@.len() && r <= 2048,
}
#fn ChunkState::start_flag
ret r
spec {
    ensures r == startf(self.blocks_compressed as int),
}
#fn ChunkState::update
spec {
    requires old(self).inv(), old(self).bytes@.len() + input.len() <= 2048,
    ensures final(self).inv(), final(self).bytes@ == old(self).bytes@ + input@, final(self).frame(old(self)),
}
start {
    hide(fold);
    let ghost vx_b = self.bytes@ + input@;
    let ghost vx_o = *self;
    proof {
        assert(vx_b.subrange(0, self.bytes@.len() as int) =~= self.bytes@);
        assert(input@ =~= vx_b.subrange(self.bytes@.len() as int, vx_b.len() as int));
    }
}
loop 1 {
    invariant
        self.frame(&vx_o), vx_b.len() <= 2048, input.len() <= vx_b.len(),
        self.st(vx_b.subrange(0, vx_b.len() - input.len())),
        input@ == vx_b.subrange(vx_b.len() - input.len(), vx_b.len() as int),
    decreases input.len()
}
loopstart 1 {
    let ghost vx_s0 = *self;
    let ghost vx_x = input@;
    let ghost vx_p = vx_b.subrange(0, vx_b.len() - input.len());
    proof { lemma_or32(self.flags, startf(self.blocks_compressed as int) as u32); reveal(comp); }
}
before compress 1 {
    proof {
        lemma_words16(block_words@, self.block@);
        let f = self.flags | (startf(self.blocks_compressed as int) as u32);
        assert((f as u8) as u32 == f) by (bit_vector) requires f < 64;
    }
}
before copy_from_slice 1 {
    let ghost vx_m = *self;
    proof { if vx_s0.block_len == 64 { lemma_block(vx_s0, vx_m, vx_p); } }
}
loopend 1 {
    proof {
        lemma_fill(vx_m, *self, vx_p, vx_x, take as int);
        assert(vx_p + vx_x.subrange(0, take as int) =~= vx_b.subrange(0, vx_b.len() - input.len()));
        assert(input@ =~= vx_b.subrange(vx_b.len() - input.len(), vx_b.len() as int));
    }
}
afterloop 1 {
    proof {
        assert(vx_b.subrange(0, vx_b.len() as int) =~= vx_b);
        self.bytes = Ghost(vx_b);
    }
}
#fn ChunkState::output
ret r
spec {
    requires self.inv(),
    ensures r.is(self.node()),
}
start {
    proof { lemma_out_flags(self.flags, startf(self.blocks_compressed as int)); }
}
return {
    proof { lemma_words16(block_words@, self.block@); }
}
#fn parent_output
ret r
spec {
    requires flags < 64,
    ensures r.is(parent_node(key@, b8(*left_child_cv), b8(*right_child_cv), flags as u8, 0)),
}
start {
    proof { lemma_out_flags(flags, 0); lemma_words16_pair(left_child_cv@, right_child_cv@); }
}
return {
    proof { assert(block_words@ =~= left_child_cv@ + right_child_cv@); }
}
#fn Hasher::new_internal
ret r
spec {
    requires flags < 64,
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (key@, flags as u8),
}
return {
    proof {
        assert(vx_ret.stack() =~= Seq::<Seq<u8>>::empty());
        assert(vx_ret.chunk_state.bytes@ =~= vx_ret.msg@.subrange(0, 0));
    }
}
#fn Hasher::new
ret r
spec {
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (spec_iv(), 0u8),
}
start {
    proof { assert(IV@ =~= spec_iv()); }
}
#fn Hasher::new_keyed
ret r
spec {
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (words8(key@), F_KEYED),
}
return {
    proof { assert(key_words@ =~= words8(key@)); }
}
#fn Hasher::new_derive_key
ret r
spec {
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (words8(key@), F_DERIVE),
}
return {
    proof { assert(key_words@ =~= words8(key@)); }
}
#fn Hasher::push_stack
spec {
    requires old(self).subtree_stack_len < 53,
    ensures final(self).stack() == old(self).stack().push(b8(*cv)), final(self).subtree_stack_len == old(self).subtree_stack_len + 1,
        final(self).chunk_state == old(self).chunk_state, final(self).key == old(self).key, final(self).msg == old(self).msg,
}
end {
    proof { assert(self.stack() =~= old(self).stack().push(b8(*cv))); }
}
#fn Hasher::pop_stack
ret r
spec {
    requires 0 < old(self).subtree_stack_len <= 53,
    ensures final(self).stack() == old(self).stack().drop_last(), b8(r) == old(self).stack().last(), final(self).subtree_stack_len == old(self).subtree_stack_len - 1,
        final(self).chunk_state == old(self).chunk_state, final(self).key == old(self).key, final(self).msg == old(self).msg,
}
end {
    proof { assert(self.stack() =~= old(self).stack().drop_last()); }
}
#fn Hasher::push_chunk_chaining_value
spec {
    requires
        total_bytes == 2048 * (old(self).n() + 1), old(self).n() + 1 <= old(self).cs().len(), b8(cv) == old(self).cs()[old(self).n() as int],
        old(self).subtree_stack_len <= 53, old(self).chunk_state.flags < 64,
        old(self).stack() == merged(old(self).key@, old(self).f(), old(self).cs(), old(self).n()),
    ensures
        final(self).stack() == merged(old(self).key@, old(self).f(), old(self).cs(), old(self).n() + 1), final(self).subtree_stack_len <= 53,
        final(self).chunk_state == old(self).chunk_state, final(self).key == old(self).key, final(self).msg == old(self).msg,
}
start {
    hide(stk); hide(tree); hide(popcnt); hide(node_cv); hide(words8); hide(bytes8); hide(pend);
    let ghost vx_n = self.n() + 1;
    let ghost vx_k = self.key@;
    let ghost vx_f = self.f();
    let ghost vx_cs = self.cs();
    let ghost mut vx_m: nat = vx_n;
    let ghost mut vx_s: nat = 1;
    proof {
        assert(vx_n * 1 == vx_n);
        lemma_unmerged_pend(vx_k, vx_f, vx_cs, vx_n);
        assert(is_pow2(2048)) by { reveal_with_fuel(is_pow2, 13); }
        lemma_popcnt_scale(vx_n, 2048);
        assert(vx_n * 2048 == total_bytes);
        assert(p2(53) == 0x20_0000_0000_0000) by (compute);
        lemma_popcnt_bound(vx_n, 53);
        lemma_popcnt_pos(vx_n);
        lemma_popcnt_scale(vx_n, 1);
    }
}
loop 1 {
    invariant
        self.chunk_state == old(self).chunk_state, self.key == old(self).key, self.msg == old(self).msg, self.subtree_stack_len <= 53, self.chunk_state.flags < 64,
        vx_k == self.key@, vx_f == self.f(), vx_cs == self.cs(), vx_n <= vx_cs.len(), vx_n == vx_m * vx_s, vx_m >= 1, is_pow2(vx_s),
        final_stack_len == popcnt(vx_n), 1 <= final_stack_len <= 53,
        self.stack().push(b8(cv)) == pend(vx_k, vx_f, vx_cs, vx_m, vx_s),
        stk(vx_k, vx_f, vx_cs, vx_m, vx_s) == merged(vx_k, vx_f, vx_cs, vx_n),
    decreases self.subtree_stack_len
}
loopstart 1 {
    let ghost vx_st = self.stack();
    let ghost vx_cv = b8(cv);
    proof {
        lemma_needs_merge(vx_k, vx_f, vx_cs, vx_m, vx_s);
        lemma_pend_merge(vx_k, vx_f, vx_cs, vx_m, vx_s);
        lemma_stk_half(vx_k, vx_f, vx_cs, vx_m, vx_s);
        assert(vx_m / 2 >= 1);
    }
}
loopend 1 {
    proof {
        let p = vx_st.push(vx_cv);
        assert(p.subrange(0, p.len() - 2) =~= vx_st.drop_last());
        vx_m = vx_m / 2;
        vx_s = 2 * vx_s;
    }
}
afterloop 1 {
    proof {
        lemma_needs_merge(vx_k, vx_f, vx_cs, vx_m, vx_s);
        lemma_pend_odd(vx_k, vx_f, vx_cs, vx_m, vx_s);
    }
}
#fn Hasher::update
spec {
    requires old(self).inv(), old(self).msg@.len() + input.len() < 0x1_0000_0000_0000_0000,
    ensures final(self).inv(), final(self).msg@ == old(self).msg@ + input@, final(self).mode() == old(self).mode(),
}
start {
    hide(stk); hide(fold); hide(tree); hide(popcnt); hide(node_cv); hide(chunk_node); hide(pend); hide(ChunkState::st);
    let ghost vx_o = *self;
    let ghost vx_mode = self.mode();
    let ghost vx_msg = self.msg@ + input@;
    proof {
        self.msg = Ghost(vx_msg);
        lemma_grow(vx_o, *self, input@);
        assert(input@ =~= vx_msg.subrange(self.consumed(), vx_msg.len() as int));
    }
}
loop 1 {
    invariant
        self.core(), self.mode() == vx_mode, self.msg@ == vx_msg,
        input.len() == vx_msg.len() - self.consumed(), input@ == vx_msg.subrange(self.consumed(), vx_msg.len() as int),
    decreases input.len()
}
loopstart 1 {
    let ghost vx_s0 = *self;
    let ghost vx_x = input@;
    proof {
        lemma_chunk_len(self.chunk_state);
        if self.chunk_state.bytes@.len() == 2048 { assert(chunk_of(vx_msg, self.n() as int) =~= self.chunk_state.bytes@); }
    }
}
before update 1 {
    proof {
        lemma_chunk_len(self.chunk_state);
        if vx_s0.chunk_state.bytes@.len() == 2048 { assert(self.n() == vx_s0.n() + 1); assert(self.chunk_state.bytes@ =~= vx_msg.subrange(self.chunk_state.offset as int, self.consumed())); }
    }
    let ghost vx_s1 = *self;
}
loopend 1 {
    proof {
        assert(self.chunk_state.bytes@ =~= vx_msg.subrange(self.chunk_state.offset as int, self.consumed()));
        assert(input@ =~= vx_msg.subrange(self.consumed(), vx_msg.len() as int));
    }
}
#fn Hasher::finalize
spec {
    requires self.inv(), old(out_slice).len() <= 0x7fff_ffff_ffff_ffff,
    ensures final(out_slice).len() == old(out_slice).len(),
        forall|i: int| 0 <= i < old(out_slice).len() ==> final(out_slice)@[i] == stream(self.root(), i),
}
start {
    hide(stk); hide(fold); hide(tree); hide(popcnt); hide(node_cv); hide(chunk_node); hide(pend); hide(parent_node); hide(foldroot);
    let ghost mut vx_node = self.chunk_state.node();
    let ghost vx_st = self.stack();
    proof { lemma_final(*self); }
}
loop 1 {
    invariant
        self.inv(), vx_st == self.stack(), output.is(vx_node), parent_nodes_remaining <= self.subtree_stack_len,
        self.subtree_stack_len == 0 ==> rooted(vx_node) == self.root(),
        self.subtree_stack_len > 0 && parent_nodes_remaining == 0 ==> rooted(vx_node) == self.root(),
        parent_nodes_remaining > 0 ==> foldroot(self.key@, self.f(), vx_st.subrange(0, parent_nodes_remaining as int), node_cv(vx_node)) == self.root(),
    decreases parent_nodes_remaining
}
loopend 1 {
    proof {
        let k = parent_nodes_remaining as int;
        let st = vx_st.subrange(0, k + 1);
        let w = node_cv(vx_node);
        vx_node = parent_node(self.key@, vx_st[k], w, self.f(), 0);
        lemma_foldstep(self.key@, self.f(), st, w);
        assert(st.drop_last() =~= vx_st.subrange(0, k));
    }
}
before root_output_bytes 1 {
    proof {
        assert forall|off: u64| #[trigger] output.blk(off) == xofblk(vx_node.cv, vx_node.block, vx_node.len, off, vx_node.flags | F_ROOT) by { lemma_blk(output, vx_node, off); }
    }
}
#text {
fn main() {}
}
#end
