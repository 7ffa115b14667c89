// Contracts for c/baokeshed.c and the functions of c/baokeshed_impl.h it uses (translated by cx.py).
#include shim.rs
#include comp.rs
#include hmspec.rs
#include spec.rs
#include stack.rs
#include ck.rs
#text {
verus! {
// ---- kernels (discharged by C10) ----
#[verifier::external_body]
pub fn compress_portable(state: &mut [u32], block: &[u8], block_len: u8, offset: u64, flags: u8)
    requires cpre(old(state)@, block@, block_len), ensures cpost(old(state)@, final(state)@, block@, block_len, offset, flags),
{ unimplemented!() }
#[verifier::external_body]
pub fn compress_sse41(state: &mut [u32], block: &[u8], block_len: u8, offset: u64, flags: u8)
    requires cpre(old(state)@, block@, block_len), ensures cpost(old(state)@, final(state)@, block@, block_len, offset, flags),
{ unimplemented!() }
#[verifier::external_body]
pub fn compress_avx512(state: &mut [u32], block: &[u8], block_len: u8, offset: u64, flags: u8)
    requires cpre(old(state)@, block@, block_len), ensures cpost(old(state)@, final(state)@, block@, block_len, offset, flags),
{ unimplemented!() }
#[verifier::external_body]
pub fn hash_many_portable(inputs: &[&[u8]], num: u64, blocks: u64, key: &[u32], offset: u64, deltas: &[u64], flags: u8, fs: u8, fe: u8, out: &mut [u8])
    requires hmpre(inputs@, num, blocks, key@, offset, deltas@, 2, old(out)@), ensures hmpost(inputs@, num, blocks, key@, offset, deltas@, flags, fs, fe, old(out)@, final(out)@),
{ unimplemented!() }
#[verifier::external_body]
pub fn hash_many_sse41(inputs: &[&[u8]], num: u64, blocks: u64, key: &[u32], offset: u64, deltas: &[u64], flags: u8, fs: u8, fe: u8, out: &mut [u8])
    requires hmpre(inputs@, num, blocks, key@, offset, deltas@, 5, old(out)@), ensures hmpost(inputs@, num, blocks, key@, offset, deltas@, flags, fs, fe, old(out)@, final(out)@),
{ unimplemented!() }
#[verifier::external_body]
pub fn hash_many_avx2(inputs: &[&[u8]], num: u64, blocks: u64, key: &[u32], offset: u64, deltas: &[u64], flags: u8, fs: u8, fe: u8, out: &mut [u8])
    requires hmpre(inputs@, num, blocks, key@, offset, deltas@, 9, old(out)@), ensures hmpost(inputs@, num, blocks, key@, offset, deltas@, flags, fs, fe, old(out)@, final(out)@),
{ unimplemented!() }
#[verifier::external_body]
pub fn hash_many_avx512(inputs: &[&[u8]], num: u64, blocks: u64, key: &[u32], offset: u64, deltas: &[u64], flags: u8, fs: u8, fe: u8, out: &mut [u8])
    requires hmpre(inputs@, num, blocks, key@, offset, deltas@, 17, old(out)@), ensures hmpost(inputs@, num, blocks, key@, offset, deltas@, flags, fs, fe, old(out)@, final(out)@),
{ unimplemented!() }
#[verifier::external_body]
pub fn hash_many_neon(inputs: &[&[u8]], num: u64, blocks: u64, key: &[u32], offset: u64, deltas: &[u64], flags: u8, fs: u8, fe: u8, out: &mut [u8])
    requires hmpre(inputs@, num, blocks, key@, offset, deltas@, 5, old(out)@), ensures hmpost(inputs@, num, blocks, key@, offset, deltas@, flags, fs, fe, old(out)@, final(out)@),
{ unimplemented!() }

// ---- the hasher ----
pub open spec fn rflag(b: bool) -> u8 { if b { F_ROOT } else { 0 } }
impl chunk_state {
    // `b` is what has been absorbed so far
    pub open spec fn st(&self, b: Seq<u8>) -> bool {
        &&& b.len() <= 2048
        &&& self.count % 64 == 0 && self.buf_len <= 64
        &&& self.count + self.buf_len == b.len()
        &&& self.state@ == fold(self.key@, b, (self.count / 64) as nat, self.offset, self.flags)
        &&& self.buf@ == pad64(b.subrange(self.count as int, b.len() as int))
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.st(self.bytes@)
        &&& self.count == 64 * nfull(self.bytes@.len())
        &&& self.count + self.buf_len == self.bytes@.len() <= 2048
    }
    pub open spec fn frame(&self, o: &chunk_state) -> bool { self.key@ == o.key@ && self.offset == o.offset && self.flags == o.flags }
    pub open spec fn same(&self, o: &chunk_state) -> bool {
        self.frame(o) && self.state@ == o.state@ && self.count == o.count && self.buf@ == o.buf@ && self.buf_len == o.buf_len && self.bytes@ == o.bytes@
    }
}
impl hasher {
    pub open spec fn key_(&self) -> Seq<u32> { self.chunk.key@ }
    pub open spec fn cs(&self) -> Seq<Seq<u8>> { ccvs(self.chunk.key@, self.msg@, 0, self.chunk.flags) }
    pub open spec fn stack(&self) -> Seq<Seq<u8>> { cvs_of(self.subtree_hashes@, self.subtree_hashes_len as nat) }
    pub open spec fn cap_ok(&self) -> bool { self.subtree_hashes_len <= MAX_STACK() }
    pub open spec fn n(&self) -> nat { (self.chunk.offset / 2048) as nat }
    pub open spec fn is_merged(&self) -> bool { self.stack() == merged(self.key_(), self.chunk.flags, self.cs(), self.n()) }
    pub open spec fn is_unmerged(&self) -> bool { self.n() >= 1 && self.stack() == unmerged(self.key_(), self.chunk.flags, self.cs(), self.n()) }
    pub open spec fn core(&self) -> bool {
        &&& self.chunk.inv()
        &&& self.chunk.offset % 2048 == 0
        &&& self.chunk.offset + self.chunk.bytes@.len() <= self.msg@.len() < 0x1_0000_0000_0000_0000
        &&& self.chunk.bytes@ == self.msg@.subrange(self.chunk.offset as int, self.chunk.offset + self.chunk.bytes@.len())
        &&& self.cap_ok()
        &&& self.is_merged() || self.is_unmerged()
    }
    pub open spec fn consumed(&self) -> int { self.chunk.offset + self.chunk.bytes@.len() }
    pub open spec fn inv(&self) -> bool {
        &&& self.core()
        &&& self.consumed() == self.msg@.len()
        &&& self.chunk.bytes@.len() > 0 ==> self.is_merged()
        &&& self.chunk.bytes@.len() == 0 ==> (self.n() == 0 || self.n() >= 2 && self.is_unmerged())
    }
    pub open spec fn mode(&self) -> (Seq<u32>, u8) { (self.chunk.key@, self.chunk.flags) }
    pub open spec fn root(&self) -> Node { root_node(self.chunk.key@, self.msg@, self.chunk.flags) }
    pub open spec fn merging(&self, m: nat, s: nat) -> bool {
        &&& self.n() <= self.cs().len()
        &&& {
            ||| self.is_merged() && self.stack().len() <= popcnt(self.n())
            ||| m >= 2 && m % 2 == 0 && is_pow2(s) && self.n() == m * s && self.stack().len() > popcnt(self.n())
                && self.stack() == pend(self.key_(), self.chunk.flags, self.cs(), m, s)
                && stk(self.key_(), self.chunk.flags, self.cs(), m, s) == merged(self.key_(), self.chunk.flags, self.cs(), self.n())
        }
    }
}
pub open spec fn MAX_STACK() -> nat { 53 }
// every byte of the stack beyond the entries in use is free
pub proof fn lemma_stack_push(a: Seq<u8>, b: Seq<u8>, n: nat, x: Seq<u8>)
    requires 32 * n + 32 <= a.len(), x.len() == 32, b == a.subrange(0, 32 * n as int) + x + a.subrange(32 * n as int + 32, a.len() as int),
    ensures cvs_of(b, n + 1) == cvs_of(a, n).push(x)
{
    assert forall|i: int| 0 <= i < n + 1 implies cvs_of(b, n + 1)[i] == cvs_of(a, n).push(x)[i] by {
        if i < n { assert(b.subrange(32 * i, 32 * i + 32) =~= a.subrange(32 * i, 32 * i + 32)); }
        else { assert(b.subrange(32 * i, 32 * i + 32) =~= x); }
    }
    assert(cvs_of(b, n + 1) =~= cvs_of(a, n).push(x));
}
pub proof fn lemma_stack_merge(a: Seq<u8>, b: Seq<u8>, n: nat, x: Seq<u8>)
    requires n >= 2, 32 * n <= a.len(), x.len() == 32, b == a.subrange(0, 32 * n - 64) + x + a.subrange(32 * n - 32, a.len() as int),
    ensures cvs_of(b, (n - 1) as nat) == cvs_of(a, n).subrange(0, n - 2).push(x)
{
    lemma_stack_push(a, b, (n - 2) as nat, x);
    assert(cvs_of(a, (n - 2) as nat) =~= cvs_of(a, n).subrange(0, n - 2));
}
// absorbing buffered bytes / one whole block
pub proof fn lemma_cs_fill(s0: chunk_state, s1: chunk_state, b: Seq<u8>, x: Seq<u8>, k: int)
    requires s0.st(b), 0 <= k <= x.len(), s0.buf_len + k <= 64, b.len() + k <= 2048,
        s1.frame(&s0), s1.count == s0.count, s1.state@ == s0.state@, s1.buf_len == s0.buf_len + k,
        s1.buf@ == s0.buf@.subrange(0, s0.buf_len as int) + x.subrange(0, k) + s0.buf@.subrange(s0.buf_len + k, 64),
    ensures s1.st(b + x.subrange(0, k))
{
    let b1 = b + x.subrange(0, k);
    let c = s0.count as int;
    assert(b.subrange(0, c) =~= b1.subrange(0, c));
    lemma_fold_prefix(s0.key@, b, b1, (s0.count / 64) as nat, s0.offset, s0.flags);
    assert(s1.buf@ =~= pad64(b1.subrange(c, b1.len() as int)));
}
pub proof fn lemma_cv_len(n: Node) ensures node_cv(n).len() == 32 { }
pub proof fn lemma_cs_move(c: chunk_state, d: chunk_state)
    requires c.inv(), c.bytes@.len() == 0, d == (chunk_state { offset: d.offset, ..c }),
    ensures d.inv()
{ }
pub proof fn lemma_cs_block(s0: chunk_state, s1: chunk_state, b: Seq<u8>, c: int)
    requires 0 <= s0.count <= c <= b.len(), s0.st(b.subrange(0, c)), s0.count + 64 <= b.len() <= 2048,
        s1.frame(&s0), s1.count == s0.count + 64, s1.buf_len == 0, s1.buf@ =~= Seq::new(64, |i: int| 0u8),
        s1.state@ == comp(s0.state@, b.subrange(s0.count as int, s0.count + 64), 64, s0.offset, s0.flags | startf((s0.count / 64) as int)),
    ensures s1.st(b.subrange(0, s0.count + 64))
{
    let k = (s0.count / 64) as nat;
    let c2 = s0.count + 64;
    assert(64 * k == s0.count);
    assert(c2 / 64 == k + 1);
    let b2 = b.subrange(0, c2);
    assert(b.subrange(0, c).subrange(0, 64 * k as int) =~= b2.subrange(0, 64 * k as int));
    lemma_fold_prefix(s0.key@, b.subrange(0, c), b2, k, s0.offset, s0.flags);
    assert(b2.subrange(64 * ((k + 1) - 1), 64 * (k + 1) as int) =~= b.subrange(s0.count as int, c2));
    assert(fold(s0.key@, b2, (k + 1) as nat, s0.offset, s0.flags) == s1.state@);
    assert(s1.buf@ =~= pad64(b2.subrange(c2, c2)));
}
pub proof fn lemma_merging_state(h: hasher, m: nat, s: nat)
    requires m >= 1, is_pow2(s), h.n() == m * s, h.n() <= h.cs().len(), h.stack() == pend(h.key_(), h.chunk.flags, h.cs(), m, s),
        stk(h.key_(), h.chunk.flags, h.cs(), m, s) == merged(h.key_(), h.chunk.flags, h.cs(), h.n()),
    ensures h.merging(m, s)
{
    lemma_needs_merge(h.key_(), h.chunk.flags, h.cs(), m, s);
    if m % 2 == 1 { lemma_pend_odd(h.key_(), h.chunk.flags, h.cs(), m, s); }
}
pub proof fn lemma_merging_init(h: hasher)
    requires h.is_merged() || h.is_unmerged(), h.n() <= h.cs().len(),
    ensures h.merging(h.n(), 1)
{
    if h.is_merged() {
        lemma_stk_len(h.key_(), h.chunk.flags, h.cs(), h.n(), 1);
    } else {
        lemma_unmerged_pend(h.key_(), h.chunk.flags, h.cs(), h.n());
        assert(h.n() * 1 == h.n());
        lemma_merging_state(h, h.n(), 1);
    }
}
pub proof fn lemma_merging_can(h: hasher, m: nat, s: nat)
    requires h.merging(m, s), h.stack().len() > popcnt(h.n()),
    ensures h.stack().len() >= 2
{
    lemma_pend_merge(h.key_(), h.chunk.flags, h.cs(), m, s);
}
pub proof fn lemma_merging_step(h: hasher, g: hasher, m: nat, s: nat)
    requires h.merging(m, s), h.stack().len() > popcnt(h.n()), g.chunk == h.chunk, g.msg == h.msg,
        g.stack() == h.stack().subrange(0, h.stack().len() - 2).push(node_cv(parent_node(h.key_(), h.stack()[h.stack().len() - 2], h.stack()[h.stack().len() - 1], h.chunk.flags, 0))),
    ensures g.merging(m / 2, 2 * s), g.stack().len() < h.stack().len(),
{
    lemma_pend_merge(h.key_(), h.chunk.flags, h.cs(), m, s);
    lemma_stk_half(h.key_(), h.chunk.flags, h.cs(), m, s);
    lemma_merging_state(g, m / 2, 2 * s);
}
pub proof fn lemma_hasher_grow(o: hasher, h: hasher, more: Seq<u8>)
    requires o.core(), h.chunk == o.chunk, h.subtree_hashes@ == o.subtree_hashes@, h.subtree_hashes_len == o.subtree_hashes_len, h.msg@ == o.msg@ + more, h.msg@.len() < 0x1_0000_0000_0000_0000,
    ensures h.core(), o.is_merged() ==> h.is_merged(), o.is_unmerged() ==> h.is_unmerged(), h.consumed() == o.consumed(),
{
    let n = o.n();
    lemma_ccvs_grow(o.key_(), o.msg@, more, o.chunk.flags, n);
    assert(n * 1 == n);
    lemma_stk_prefix(o.key_(), o.chunk.flags, o.cs(), h.cs(), n, 1);
    if n >= 1 {
        assert((n - 1) * 1 == n - 1);
        lemma_stk_prefix(o.key_(), o.chunk.flags, o.cs(), h.cs(), (n - 1) as nat, 1);
    }
    assert(h.msg@.subrange(h.chunk.offset as int, h.consumed()) =~= o.msg@.subrange(o.chunk.offset as int, o.consumed()));
}
pub proof fn lemma_hasher_final(h: hasher)
    requires h.inv(),
    ensures
        h.stack().len() == 0 ==> h.chunk.offset == 0 && h.root() == chunk_node(h.key_(), h.chunk.bytes@, 0, h.chunk.flags, F_ROOT),
        h.stack().len() > 0 && h.chunk.bytes@.len() > 0 ==> h.stack().len() <= popcnt(h.n())
            && foldroot(h.key_(), h.chunk.flags, h.stack(), node_cv(chunk_node(h.key_(), h.chunk.bytes@, h.chunk.offset, h.chunk.flags, 0))) == h.root(),
        h.stack().len() > 0 && h.chunk.bytes@.len() == 0 ==> h.stack().len() >= 2
            && foldroot(h.key_(), h.chunk.flags, h.stack().subrange(0, h.stack().len() - 1), h.stack()[h.stack().len() - 1]) == h.root(),
{
    let n = h.n();
    let k = h.key_();
    let f = h.chunk.flags;
    let cs = h.cs();
    lemma_stk_len(k, f, cs, n, 1);
    if n == 0 {
        assert(popcnt(0) == 0);
        assert(h.chunk.bytes@ =~= h.msg@);
    } else {
        lemma_popcnt_pos(n);
        if h.chunk.bytes@.len() > 0 {
            assert(nchunks(h.msg@.len()) == n + 1);
            assert(chunk_of(h.msg@, n as int) =~= h.chunk.bytes@);
            let lo = cs.subrange(0, n as int);
            let xs = seq![cs[n as int]];
            assert(n * 1 == n);
            lemma_stk_prefix(k, f, cs, lo, n, 1);
            lemma_foldroot(k, f, lo, n, 1, xs);
            assert(cs =~= lo + xs);
        } else {
            assert(nchunks(h.msg@.len()) == n);
            let m = (n - 1) as nat;
            let lo = cs.subrange(0, m as int);
            let xs = seq![cs[m as int]];
            assert(m * 1 == m);
            lemma_stk_len(k, f, cs, m, 1);
            lemma_popcnt_pos(m);
            lemma_stk_prefix(k, f, cs, lo, m, 1);
            lemma_foldroot(k, f, lo, m, 1, xs);
            assert(cs =~= lo + xs);
            assert(h.stack().subrange(0, h.stack().len() - 1) =~= merged(k, f, cs, m));
        }
    }
}
#end
#file c.rs
#const CHUNK_OFFSET_DELTAS
#struct chunk_state
#struct hasher
#ghost chunk_state bytes Ghost<Seq<u8>> = Ghost(Seq::<u8>::empty())
#ghost hasher msg Ghost<Seq<u8>> = Ghost(Seq::<u8>::empty())

#fn load32
ret r
spec {
    requires src.len() >= 4,
    ensures r == of_le4(src@.subrange(0, 4)),
}
#fn store32
spec {
    requires old(dst).len() >= 4,
    ensures final(dst)@ == put(old(dst)@, le4(w)), final(dst).len() == old(dst).len(),
}
end {
    proof {
        let w0 = w;
        assert(w0 as u8 == (w0 & 255) as u8) by (bit_vector);
        assert(dst@ =~= put(old(dst)@, le4(w)));
    }
}
#fn popcnt_
ret r
spec {
    ensures r == popcnt(x as nat), r <= 64,
}
start {
    let ghost vx_x = x;
    proof {
        assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute);
        lemma_popcnt_bound(x as nat, 64);
    }
}
loop 1 {
    invariant count + popcnt(x as nat) == popcnt(vx_x as nat), popcnt(vx_x as nat) <= 64,
    decreases x
}
loopstart 1 {
    proof {
        assert(((x as u8) & 1u8) as u64 == x % 2) by (bit_vector);
        assert(x >> 1u32 == x / 2) by (bit_vector);
        assert(popcnt(x as nat) == x % 2 + popcnt(x as nat / 2));
    }
}
#fn load_key_words
spec {
    requires key.len() >= 32, old(words).len() >= 8,
    ensures final(words)@ == put(old(words)@, words8(pfx(key@, 32))), final(words).len() == old(words).len(),
}
end {
    proof {
        let k = key@;
        let l = k.len() as int;
        let q = pfx(k, 32);
        assert(k.subrange(0, 4) =~= q.subrange(0, 4));
        assert(k.subrange(4, l).subrange(0, 4) =~= q.subrange(4, 8));
        assert(k.subrange(8, l).subrange(0, 4) =~= q.subrange(8, 12));
        assert(k.subrange(12, l).subrange(0, 4) =~= q.subrange(12, 16));
        assert(k.subrange(16, l).subrange(0, 4) =~= q.subrange(16, 20));
        assert(k.subrange(20, l).subrange(0, 4) =~= q.subrange(20, 24));
        assert(k.subrange(24, l).subrange(0, 4) =~= q.subrange(24, 28));
        assert(k.subrange(28, l).subrange(0, 4) =~= q.subrange(28, 32));
        assert(words@ =~= put(old(words)@, words8(q)));
    }
}
#fn write_state_bytes
spec {
    requires state.len() >= 8, old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, bytes8(pfx(state@, 8))), final(out).len() == old(out).len(),
}
end {
    proof {
        let w = pfx(state@, 8);
        assert(out@.subrange(28, 32) =~= le4(w[7]));
        assert(out@.subrange(24, 28) =~= le4(w[6]));
        assert(out@.subrange(20, 24) =~= le4(w[5]));
        assert(out@.subrange(16, 20) =~= le4(w[4]));
        assert(out@.subrange(12, 16) =~= le4(w[3]));
        assert(out@.subrange(8, 12) =~= le4(w[2]));
        assert(out@.subrange(4, 8) =~= le4(w[1]));
        assert(out@.subrange(0, 4) =~= le4(w[0]));
        assert(out@.subrange(32, out@.len() as int) =~= old(out)@.subrange(32, out@.len() as int));
        lemma_words_out(old(out)@, w, out@);
    }
}
#fn chunk_state_init
spec {
    requires key.len() >= 8,
    ensures final(this).inv(), final(this).bytes@.len() == 0, final(this).offset == 0, final(this).key@ == pfx(key@, 8), final(this).flags == flags,
}
end {
    proof {
        this.bytes = Ghost(Seq::<u8>::empty());
        assert(this.state@ =~= pfx(key@, 8));
        assert(this.key@ =~= pfx(key@, 8));
        assert(this.buf@ =~= pad64(Seq::<u8>::empty().subrange(0, 0)));
    }
}
#fn chunk_state_reset
spec {
    requires new_offset % 2048 == 0,
    ensures final(this).inv(), final(this).bytes@.len() == 0, final(this).offset == new_offset,
        final(this).key@ == old(this).key@, final(this).flags == old(this).flags,
}
end {
    proof {
        this.bytes = Ghost(Seq::<u8>::empty());
        assert(this.state@ =~= this.key@);
        assert(this.buf@ =~= pad64(Seq::<u8>::empty().subrange(0, 0)));
    }
}
#fn chunk_state_len
ret r
spec {
    requires this.count <= 2048,
    ensures r == this.count + this.buf_len,
}
#fn chunk_state_fill_buf
ret r
spec {
    requires old(this).buf_len <= 64, input.len() >= input_len,
    ensures ({
        let k = if 64 - old(this).buf_len <= input_len { 64 - old(this).buf_len } else { input_len as int };
        &&& r == k
        &&& final(this).buf_len == old(this).buf_len + k
        &&& final(this).buf@ == old(this).buf@.subrange(0, old(this).buf_len as int) + input@.subrange(0, k) + old(this).buf@.subrange(old(this).buf_len + k, 64)
        &&& final(this).frame(old(this)) && final(this).count == old(this).count && final(this).state@ == old(this).state@ && final(this).bytes == old(this).bytes
    }),
}
end {
    proof {
        let k = if 64 - old(this).buf_len <= input_len { 64 - old(this).buf_len } else { input_len as int };
        assert(this.buf@ =~= old(this).buf@.subrange(0, old(this).buf_len as int) + input@.subrange(0, k) + old(this).buf@.subrange(old(this).buf_len + k, 64));
    }
}
return {
    proof {
        let k = if 64 - old(this).buf_len <= input_len { 64 - old(this).buf_len } else { input_len as int };
        assert(this.buf@ =~= old(this).buf@.subrange(0, old(this).buf_len as int) + input@.subrange(0, k) + old(this).buf@.subrange(old(this).buf_len + k, 64));
    }
}
#fn chunk_state_maybe_start_flag
ret r
spec {
    ensures r == (if this.count == 0 { F_START } else { 0 }),
}
#fn compress
spec {
    requires cpre(old(state)@, block@, block_len),
    ensures cpost(old(state)@, final(state)@, block@, block_len, offset, flags),
}
#fn chunk_state_update
spec {
    requires old(this).inv(), input_len <= input.len(), old(this).bytes@.len() + input_len <= 2048,
    ensures final(this).inv(), final(this).bytes@ == old(this).bytes@ + input@.subrange(0, input_len as int), final(this).frame(old(this)),
}
start {
    hide(fold);
    let ghost vx_in = input@.subrange(0, input_len as int);
    let ghost vx_b = this.bytes@ + vx_in;
    let ghost vx_o = *this;
    let ghost mut vx_s0 = *this;
    let ghost mut vx_f1 = false;
    proof {
        assert(vx_b.subrange(0, this.bytes@.len() as int) =~= this.bytes@);
        assert(vx_in =~= vx_b.subrange(this.bytes@.len() as int, vx_b.len() as int));
    }
}
after chunk_state_fill_buf 1 {
    proof {
        let k = this.buf_len - vx_o.buf_len;
        assert(input@.subrange(0, k) =~= vx_in.subrange(0, k));
        lemma_cs_fill(vx_o, *this, vx_o.bytes@, vx_in, k);
        assert(vx_o.bytes@ + vx_in.subrange(0, k) =~= vx_b.subrange(0, vx_b.len() - (input_len - k)));
        assert(input@.subrange(k, input_len as int) =~= vx_b.subrange(vx_b.len() - (input_len - k), vx_b.len() as int));
        assert(input@.subrange(k, input@.len() as int).subrange(0, input_len - k) =~= input@.subrange(k, input_len as int));
    }
}
before compress 1 {
    proof {
        vx_s0 = *this;
        vx_f1 = true;
        assert(this.buf@ =~= vx_b.subrange(this.count as int, this.count + 64));
    }
}
beforeloop 1 {
    proof {
        if vx_f1 {
            lemma_cs_block(vx_s0, *this, vx_b, vx_b.len() - input_len);
        }
    }
}
loop 1 {
    invariant
        this.frame(&vx_o), vx_b.len() <= 2048, input_len <= vx_b.len(), input_len <= input.len(),
        this.st(vx_b.subrange(0, vx_b.len() - input_len)),
        input@.subrange(0, input_len as int) == vx_b.subrange(vx_b.len() - input_len, vx_b.len() as int),
        input_len > 0 ==> this.buf_len == 0 && this.count == vx_b.len() - input_len && this.buf@ =~= Seq::new(64, |i: int| 0u8),
        input_len == 0 ==> this.count == 64 * nfull(vx_b.len()),
    decreases input_len
}
loopstart 1 {
    let ghost vx_s1 = *this;
    let ghost vx_c = vx_b.len() - input_len;
    let ghost vx_l = input_len as int;
    let ghost vx_i = input@;
    proof {
        assert(pfx(input@, 64) =~= input@.subrange(0, input_len as int).subrange(0, 64));
        assert(pfx(input@, 64) =~= vx_b.subrange(vx_c, vx_c + 64));
    }
}
loopend 1 {
    proof {
        lemma_cs_block(vx_s1, *this, vx_b, vx_c);
        assert(input@.subrange(0, input_len as int) =~= vx_i.subrange(0, vx_l).subrange(64, vx_l));
        assert(input@.subrange(0, input_len as int) =~= vx_b.subrange(vx_c + 64, vx_b.len() as int));
    }
}
afterloop 1 {
    let ghost vx_s2 = *this;
    let ghost vx_i2 = input@.subrange(0, input_len as int);
}
after chunk_state_fill_buf 2 {
    proof {
        assert(input@.subrange(0, vx_i2.len() as int) =~= vx_i2);
        assert(vx_i2.subrange(0, vx_i2.len() as int) =~= vx_i2);
        lemma_cs_fill(vx_s2, *this, vx_b.subrange(0, vx_b.len() - vx_i2.len()), vx_i2, vx_i2.len() as int);
        assert(vx_b.subrange(0, vx_b.len() - vx_i2.len()) + vx_i2.subrange(0, vx_i2.len() as int) =~= vx_b);
        this.bytes = Ghost(vx_b);
    }
}
#fn chunk_state_finalize
spec {
    requires this.inv(), old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, node_cv(chunk_node(this.key@, this.bytes@, this.offset, this.flags, rflag(is_root)))), final(out).len() == old(out).len(),
}
start {
    proof {
        lemma_or4(this.flags, startf(nfull(this.bytes@.len()) as int), F_END, rflag(is_root));
        lemma_or0(this.flags | startf(nfull(this.bytes@.len()) as int) | F_END);
    }
}
#fn hash_one_parent
spec {
    requires block.len() >= 64, key.len() >= 8, old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, node_cv(parent_node(pfx(key@, 8), block@.subrange(0, 32), block@.subrange(32, 64), flags, rflag(is_root)))), final(out).len() == old(out).len(),
}
start {
    proof {
        lemma_or3(flags, F_PARENT, rflag(is_root));
        lemma_or0(flags | F_PARENT);
        assert(pfx(block@, 64) =~= block@.subrange(0, 32) + block@.subrange(32, 64));
    }
}
#fn hasher_init
spec {
    requires key.len() >= 32,
    ensures final(this).inv(), final(this).msg@.len() == 0, final(this).mode() == (words8(pfx(key@, 32)), flags),
}
end {
    proof {
        this.msg = Ghost(Seq::<u8>::empty());
        assert(this.stack() =~= Seq::<Seq<u8>>::empty());
        assert(this.chunk.bytes@ =~= this.msg@.subrange(0, 0));
        assert(this.is_merged());
    }
}
#fn hasher_needs_merge
ret r
spec {
    ensures r == (this.subtree_hashes_len > popcnt((total_bytes / 2048) as nat)),
}
#fn hasher_merge_parent
spec {
    requires 2 <= old(this).subtree_hashes_len <= MAX_STACK(),
    ensures final(this).chunk == old(this).chunk, final(this).msg == old(this).msg, final(this).cap_ok(),
        ({ let st = old(this).stack(); let l = st.len() as int;
           final(this).stack() == st.subrange(0, l - 2).push(node_cv(parent_node(old(this).key_(), st[l - 2], st[l - 1], old(this).chunk.flags, 0))) }),
}
before hash_one_parent 1 {
    let ghost vx_blk = this.subtree_hashes@.subrange(parent_block_start as int, 1696);
    proof {
        let st = this.stack();
        let l = st.len() as int;
        assert(vx_blk.subrange(0, 32) =~= st[l - 2]);
        assert(vx_blk.subrange(32, 64) =~= st[l - 1]);
    }
}
end {
    proof {
        let a = old(this).subtree_hashes@;
        let l = old(this).subtree_hashes_len as int;
        assert(this.subtree_hashes@ =~= a.subrange(0, 32 * l - 64) + out@ + a.subrange(32 * l - 32, a.len() as int));
        lemma_stack_merge(old(this).subtree_hashes@, this.subtree_hashes@, old(this).subtree_hashes_len as nat, out@);
    }
}
#fn hasher_push_chunk_hash
spec {
    requires old(this).cap_ok(), old(this).is_merged() || old(this).is_unmerged(),
        old(this).chunk.offset % 2048 == 0, old(this).chunk.offset + 2048 <= old(this).msg@.len() < 0x1_0000_0000_0000_0000,
        offset == old(this).chunk.offset, old(hash).len() >= 32,
        pfx(old(hash)@, 32) == old(this).cs()[old(this).n() as int],
    ensures final(this).chunk == old(this).chunk, final(this).msg == old(this).msg, final(this).cap_ok(), final(hash)@ == old(hash)@,
        final(this).stack() == unmerged(old(this).key_(), old(this).chunk.flags, old(this).cs(), old(this).n() + 1),
}
start {
    let ghost mut vx_m = this.n();
    let ghost mut vx_s: nat = 1;
    let ghost vx_hash = hash@;
    let ghost mut vx_a = this.subtree_hashes@;
    let ghost mut vx_l = this.subtree_hashes_len as nat;
    proof {
        lemma_merging_init(*this);
    }
}
loop 1 {
    invariant
        this.chunk == old(this).chunk, this.msg == old(this).msg, this.cap_ok(), hash@ == vx_hash,
        this.merging(vx_m, vx_s), offset == this.chunk.offset,
    decreases this.subtree_hashes_len
}
loopstart 1 {
    let ghost vx_h = *this;
    proof { lemma_merging_can(*this, vx_m, vx_s); }
}
loopend 1 {
    proof {
        lemma_merging_step(vx_h, *this, vx_m, vx_s);
        vx_m = vx_m / 2;
        vx_s = 2 * vx_s;
    }
}
afterloop 1 {
    proof {
        vx_a = this.subtree_hashes@;
        vx_l = this.subtree_hashes_len as nat;
        assert(this.is_merged());
        lemma_stk_len(this.key_(), this.chunk.flags, this.cs(), this.n(), 1);
        assert(p2(53) == 0x20_0000_0000_0000) by (compute);
        lemma_popcnt_bound(this.n(), 53);
    }
}
end {
    proof {
        assert(this.subtree_hashes@ =~= vx_a.subrange(0, 32 * vx_l as int) + pfx(hash@, 32) + vx_a.subrange(32 * vx_l as int + 32, vx_a.len() as int));
        lemma_stack_push(vx_a, this.subtree_hashes@, vx_l, pfx(hash@, 32));
    }
}
#fn hash_many
spec {
    requires hmpre(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, 17, old(out)@),
    ensures hmpost(inputs@, num_inputs, blocks, key_words@, offset, offset_deltas@, flags, flags_start, flags_end, old(out)@, final(out)@),
}
#fn hasher_update
spec {
    requires old(this).inv(), input_len <= input.len(), old(this).msg@.len() + input_len < 0x1_0000_0000_0000_0000,
    ensures final(this).inv(), final(this).msg@ == old(this).msg@ + input@.subrange(0, input_len as int), final(this).mode() == old(this).mode(),
}
start {
    hide(stk); hide(fold); hide(tree); hide(popcnt); hide(node_cv); hide(chunk_node); hide(hm); hide(chunk_state::st); hide(pend);
    let ghost vx_o = *this;
    let ghost vx_in = input@.subrange(0, input_len as int);
    let ghost vx_mode = this.mode();
    let ghost mut vx_m: nat = 0;
    let ghost mut vx_s: nat = 1;
    proof {
        this.msg = Ghost(this.msg@ + vx_in);
        lemma_hasher_grow(vx_o, *this, vx_in);
        assert(vx_in =~= this.msg@.subrange(this.consumed(), this.msg@.len() as int));
    }
}
before chunk_state_update 1 {
    let ghost vx_h1 = *this;
}
after chunk_state_update 1 {
    proof {
        assert(input_bytes@.subrange(0, take as int) =~= vx_in.subrange(0, take as int));
        assert(this.chunk.bytes@ =~= this.msg@.subrange(this.chunk.offset as int, this.consumed()));
    }
}
before hasher_push_chunk_hash 1 {
    proof {
        assert(chunk_of(this.msg@, this.n() as int) =~= this.chunk.bytes@);
        lemma_cv_len(chunk_node(this.key_(), this.chunk.bytes@, this.chunk.offset, this.chunk.flags, rflag(false)));
    }
}
after chunk_state_reset 1 {
    proof {
        assert(this.chunk.bytes@ =~= this.msg@.subrange(this.chunk.offset as int, this.consumed()));
        assert(input_bytes@.subrange(0, input_len as int) =~= this.msg@.subrange(this.consumed(), this.msg@.len() as int));
    }
}
beforeloop 1 {
    let ghost vx_msg = this.msg@;
    proof { assert(this.core()); }
}
loop 1 {
    invariant
        this.core(), this.mode() == vx_mode, this.msg@ == vx_msg, this.chunk.bytes@.len() == 0, num_chunks == 0,
        input_len <= input_bytes.len(), this.chunk.offset + input_len == vx_msg.len(),
        input_bytes@.subrange(0, input_len as int) == vx_msg.subrange(this.chunk.offset as int, vx_msg.len() as int),
        this.n() == 0 || this.is_unmerged(),
        input_len == 0 ==> this.n() == 0 || this.n() >= 2,
        this.chunk.offset == 0 ==> input_len != 2048,
    decreases input_len
}
loopstart 1 {
    let ghost vx_off0 = this.chunk.offset as int;
    let ghost vx_ib = input_bytes@;
    let ghost vx_il = input_len as int;
}
loop 2 {
    invariant
        num_chunks <= 16, vx_il <= vx_ib.len(), input_len + 2048 * num_chunks == vx_il,
        input_bytes@ == vx_ib.subrange(2048 * num_chunks, vx_ib.len() as int),
        vx_ib.subrange(0, vx_il) == vx_msg.subrange(vx_off0, vx_msg.len() as int), vx_off0 + vx_il == vx_msg.len(), vx_off0 >= 0, vx_off0 % 2048 == 0,
        forall|i: int| 0 <= i < num_chunks ==> (#[trigger] chunks[i])@.len() >= 2048 && chunks[i]@.subrange(0, 2048) == chunk_of(vx_msg, vx_off0 / 2048 + i),
        num_chunks >= 1 || input_len >= 2048,
    decreases input_len
}
loopend 2 {
    proof {
        let j = num_chunks - 1;
        assert(input_bytes@ =~= vx_ib.subrange(2048 * num_chunks, vx_ib.len() as int));
        assert(chunks[j]@.subrange(0, 2048) =~= vx_ib.subrange(0, vx_il).subrange(2048 * j, 2048 * j + 2048));
        assert(chunks[j]@.subrange(0, 2048) =~= chunk_of(vx_msg, vx_off0 / 2048 + j));
    }
}
afterloop 2 {
    let ghost vx_n = num_chunks as int;
}
after hash_many 1 {
    proof {
        assert forall|i: int| 0 <= i < vx_n implies #[trigger] out@.subrange(32 * i, 32 * i + 32) == this.cs()[vx_off0 / 2048 + i] by {
            lemma_hm_chunk(this.key_(), chunks[i]@.subrange(0, 2048), (vx_off0 + i * 2048) as u64, this.chunk.flags);
        }
    }
}
loop 3 {
    invariant
        this.core(), this.mode() == vx_mode, this.msg@ == vx_msg, this.chunk.bytes@.len() == 0,
        chunk_index <= num_chunks, num_chunks == vx_n, 1 <= vx_n <= 16,
        vx_off0 % 2048 == 0, vx_off0 >= 0, this.chunk.offset == vx_off0 + 2048 * chunk_index,
        vx_off0 + 2048 * vx_n <= vx_msg.len(),
        forall|i: int| 0 <= i < vx_n ==> #[trigger] out@.subrange(32 * i, 32 * i + 32) == this.cs()[vx_off0 / 2048 + i],
        chunk_index > 0 ==> this.is_unmerged(),
    decreases num_chunks - chunk_index
}
before hasher_push_chunk_hash 2 {
    let ghost vx_out = out@;
    proof {
        assert(pfx(out@.subrange(32 * chunk_index, 512), 32) =~= out@.subrange(32 * chunk_index, 32 * chunk_index + 32));
    }
}
after hasher_push_chunk_hash 2 {
    proof { assert(out@ =~= vx_out); }
}
loopstart 3 {
    let ghost vx_c2 = this.chunk;
}
loopend 3 {
    proof {
        lemma_cs_move(vx_c2, this.chunk);
        assert(this.chunk.bytes@ =~= this.msg@.subrange(this.chunk.offset as int, this.consumed()));
    }
}
loopend 1 {
    proof {
        assert(input_bytes@.subrange(0, input_len as int) =~= vx_ib.subrange(0, vx_il).subrange(2048 * vx_n, vx_il));
        assert(input_bytes@.subrange(0, input_len as int) =~= vx_msg.subrange(this.chunk.offset as int, vx_msg.len() as int));
    }
}
beforeloop 4 {
    proof {
        vx_m = this.n();
        lemma_merging_init(*this);
    }
}
afterloop 1 {
    let ghost vx_hl = *this;
}
loop 4 {
    invariant
        this.chunk.inv(), this.cap_ok(), this.mode() == vx_mode, this.msg@ == vx_msg, this.chunk == vx_hl.chunk,
        this.merging(vx_m, vx_s),
    decreases this.subtree_hashes_len
}
loopstart 4 {
    let ghost vx_h = *this;
    proof { lemma_merging_can(*this, vx_m, vx_s); }
}
loopend 4 {
    proof {
        lemma_merging_step(vx_h, *this, vx_m, vx_s);
        vx_m = vx_m / 2;
        vx_s = 2 * vx_s;
    }
}
after chunk_state_update 2 {
    proof {
        assert(this.chunk.bytes@ =~= this.msg@.subrange(this.chunk.offset as int, this.consumed()));
    }
}
#fn hasher_finalize
spec {
    requires this.inv(), old(out).len() >= 32,
    ensures final(out)@ == put(old(out)@, node_cv(this.root())),
}
start {
    hide(stk); hide(fold); hide(tree); hide(popcnt); hide(chunk_node); hide(hm); hide(chunk_state::st); hide(pend); hide(ccvs);
    proof { lemma_hasher_final(*this); }
}
beforeloop 1 {
    proof {
        let st = this.stack();
        assert(st.subrange(0, st.len() as int) =~= st);
        if this.chunk.bytes@.len() == 0 { assert(working_hash@ =~= st[st.len() - 1]); }
    }
}
loop 1 {
    invariant
        this.inv(), next_subtree_start % 32 == 0, next_subtree_start / 32 < this.stack().len(), out@ == old(out)@, out.len() >= 32,
        foldroot(this.key_(), this.chunk.flags, this.stack().subrange(0, next_subtree_start / 32 + 1), working_hash@) == this.root(),
    decreases next_subtree_start
}
loopstart 1 {
    proof {
        let st = this.stack().subrange(0, next_subtree_start / 32 + 1);
        assert(st.drop_last() =~= this.stack().subrange(0, next_subtree_start as int / 32));
    }
}
before hash_one_parent 1 {
    proof {
        assert(block@.subrange(0, 32) =~= this.stack()[next_subtree_start as int / 32]);
        assert(block@.subrange(32, 64) =~= working_hash@);
    }
}
#text {
}
fn main() {}
#end
