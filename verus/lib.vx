// Contracts for src/lib.rs and src/platform.rs.
#include shim.rs
#include comp.rs
#include hmspec.rs
#include spec.rs
#include stack.rs
#text {
pub mod sse41 { use super::*; verus! {
#[verifier::external_body]
pub fn compress(cv: &mut [u32; 8], block: &[u8; 64], block_len: u8, offset: u64, flags: u8)
    requires has_sse41(), block_len <= 64,
    ensures final(cv)@ == comp(old(cv)@, block@, block_len, offset, flags),
{ unimplemented!() }
#[verifier::external_body]
pub fn compress_xof(cv: &[u32; 8], block: &[u8; 64], block_len: u8, offset: u64, flags: u8) -> (r: [u8; 64])
    requires has_sse41(), block_len <= 64,
    ensures r@ == xofblk(cv@, block@, block_len, offset, flags),
{ unimplemented!() }
#[verifier::external_body]
pub fn hash_many<A: VxArray>(inputs: &[&A], key: &[u32; 8], offset: u64, offset_delta: u64, flags: u8, flags_start: u8, flags_end: u8, out: &mut [u8])
    requires has_sse41(), hm_pre(inputs@, offset, offset_delta, old(out)@),
    ensures hm_post(inputs@, key@, offset, offset_delta, flags, flags_start, flags_end, old(out)@, final(out)@),
{ unimplemented!() }
} }
pub mod avx2 { use super::*; verus! {
#[verifier::external_body]
pub fn hash_many<A: VxArray>(inputs: &[&A], key: &[u32; 8], offset: u64, offset_delta: u64, flags: u8, flags_start: u8, flags_end: u8, out: &mut [u8])
    requires has_avx2(), hm_pre(inputs@, offset, offset_delta, old(out)@),
    ensures hm_post(inputs@, key@, offset, offset_delta, flags, flags_start, flags_end, old(out)@, final(out)@),
{ unimplemented!() }
} }
pub mod portable { use super::*; verus! {
#[verifier::external_body]
pub fn compress(cv: &mut [u32; 8], block: &[u8; 64], block_len: u8, offset: u64, flags: u8)
    ensures final(cv)@ == comp(old(cv)@, block@, block_len, offset, flags),
{ unimplemented!() }
#[verifier::external_body]
pub fn compress_xof(cv: &[u32; 8], block: &[u8; 64], block_len: u8, offset: u64, flags: u8) -> (r: [u8; 64])
    ensures r@ == xofblk(cv@, block@, block_len, offset, flags),
{ unimplemented!() }
#[verifier::external_body]
pub fn hash_many<A: VxArray>(inputs: &[&A], key: &[u32; 8], offset: u64, offset_delta: u64, flags: u8, flags_start: u8, flags_end: u8, out: &mut [u8])
    requires hm_pre(inputs@, offset, offset_delta, old(out)@),
    ensures hm_post(inputs@, key@, offset, offset_delta, flags, flags_start, flags_end, old(out)@, final(out)@),
{ unimplemented!() }
} }
verus! {
pub open spec fn hm_pre<A: VxArray>(inputs: Seq<&A>, offset: u64, delta: u64, out: Seq<u8>) -> bool {
    &&& inputs.len() <= MAX_SIMD_DEGREE_OR_2
    &&& 32 * inputs.len() <= out.len()
    &&& offset + inputs.len() * delta < 0x1_0000_0000_0000_0000
    &&& forall|i: int| 0 <= i < inputs.len() ==> (#[trigger] inputs[i]).ab().len() == 64 || inputs[i].ab().len() == 2048
}

pub trait VxInto<T> {
    spec fn into_spec(self) -> T;
    fn vx_into(self) -> (r: T) ensures r == self.into_spec();
}
impl VxInto<Hash> for [u8; 32] {
    open spec fn into_spec(self) -> Hash { Hash(self) }
    fn vx_into(self) -> (r: Hash) { hash_from_bytes(self) }
}
impl VxInto<[u8; 32]> for Hash {
    open spec fn into_spec(self) -> [u8; 32] { self.0 }
    fn vx_into(self) -> (r: [u8; 32]) { bytes_from_hash(self) }
}

pub open spec fn rootf(r: IsRoot) -> u8 { match r { IsRoot::NotRoot => 0, IsRoot::Root => F_ROOT } }

impl Platform {
#if target_arch=x86_64
    pub open spec fn wf(&self) -> bool {
        match self { Platform::Portable => true, Platform::SSE41 => has_sse41(), Platform::AVX2 => has_avx2() && has_sse41() }
    }
    pub open spec fn deg(&self) -> nat {
        match self { Platform::Portable => 1, Platform::SSE41 => 4, Platform::AVX2 => 8 }
    }
#else
    pub open spec fn wf(&self) -> bool { true }
    pub open spec fn deg(&self) -> nat { 1 }
#endif
    // outputs of hash_recurse on a large input
    pub open spec fn wide(&self) -> nat { if self.deg() >= 2 { self.deg() } else { 2 } }
}

impl Output {
    pub open spec fn node(&self) -> Node { Node { cv: self.cv@, block: self.block@, len: self.block_len, off: self.offset, flags: self.flags } }
    pub open spec fn wf(&self) -> bool { self.platform.wf() && self.block_len <= 64 }
}

impl ChunkState {
    // `b` is what has been absorbed so far
    pub open spec fn st(&self, b: Seq<u8>) -> bool {
        &&& self.platform.wf()
        &&& b.len() <= 2048
        &&& self.count % 64 == 0 && self.buf_len <= 64
        &&& self.count + self.buf_len == b.len()
        &&& self.cv@ == fold(self.key@, b, (self.count / 64) as nat, self.offset, self.flags)
        &&& self.buf@ == pad64(b.subrange(self.count as int, b.len() as int))
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.st(self.bytes@)
        &&& self.count == 64 * nfull(self.bytes@.len())
        &&& self.platform.wf()
        &&& self.count + self.buf_len == self.bytes@.len() <= 2048
    }
    pub open spec fn frame(&self, o: &ChunkState) -> bool {
        self.key@ == o.key@ && self.offset == o.offset && self.flags == o.flags && self.platform == o.platform
    }
}

impl Hasher {
    pub open spec fn key(&self) -> Seq<u32> { self.chunk.key@ }
    pub open spec fn cs(&self) -> Seq<Seq<u8>> { ccvs(self.chunk.key@, self.msg@, 0, self.chunk.flags) }
    pub open spec fn stack(&self) -> Seq<Seq<u8>> { self.subtree_hashes.view().map_values(|a: [u8; 32]| a@) }
    pub open spec fn n(&self) -> nat { (self.chunk.offset / 2048) as nat }
    pub open spec fn is_merged(&self) -> bool { self.stack() == merged(self.key(), self.chunk.flags, self.cs(), self.n()) }
    pub open spec fn is_unmerged(&self) -> bool { self.n() >= 1 && self.stack() == unmerged(self.key(), self.chunk.flags, self.cs(), self.n()) }
    // after `offset + chunk.len()` bytes of `msg` have been consumed
    pub open spec fn core(&self) -> bool {
        &&& self.chunk.inv()
        &&& self.chunk.offset % 2048 == 0
        &&& self.chunk.offset + self.chunk.bytes@.len() <= self.msg@.len() < 0x1_0000_0000_0000_0000
        &&& self.chunk.bytes@ == self.msg@.subrange(self.chunk.offset as int, self.chunk.offset + self.chunk.bytes@.len())
        &&& self.subtree_hashes.cap_ok()
        &&& self.is_merged() || self.is_unmerged()
    }
    pub open spec fn consumed(&self) -> int { self.chunk.offset + self.chunk.bytes@.len() }
    pub open spec fn inv(&self) -> bool {
        &&& self.core()
        &&& self.consumed() == self.msg@.len()
        &&& self.chunk.bytes@.len() > 0 ==> self.is_merged()
        &&& self.chunk.bytes@.len() == 0 ==> (self.n() == 0 || self.n() >= 2 && self.is_unmerged())
    }
    pub open spec fn mode(&self) -> (Seq<u32>, u8) { (self.chunk.key@, self.chunk.flags) }
    pub open spec fn frame(&self, o: &Hasher) -> bool {
        self.chunk.key@ == o.chunk.key@ && self.chunk.flags == o.chunk.flags && self.msg@ == o.msg@
    }
    pub open spec fn root(&self) -> Node { root_node(self.chunk.key@, self.msg@, self.chunk.flags) }
}
// absorbing buffered bytes / one whole block
pub proof fn lemma_cs_fill(s0: ChunkState, s1: ChunkState, b: Seq<u8>, x: Seq<u8>, k: int)
    requires s0.st(b), 0 <= k <= x.len(), s0.buf_len + k <= 64, b.len() + k <= 2048,
        s1.frame(&s0), s1.count == s0.count, s1.cv@ == s0.cv@, s1.buf_len == s0.buf_len + k,
        s1.buf@ == s0.buf@.subrange(0, s0.buf_len as int) + x.subrange(0, k) + s0.buf@.subrange(s0.buf_len + k, 64),
    ensures s1.st(b + x.subrange(0, k))
{
    let b1 = b + x.subrange(0, k);
    let c = s0.count as int;
    assert(b.subrange(0, c) =~= b1.subrange(0, c));
    lemma_fold_prefix(s0.key@, b, b1, (s0.count / 64) as nat, s0.offset, s0.flags);
    assert(s1.buf@ =~= pad64(b1.subrange(c, b1.len() as int)));
}
// an empty chunk can be moved to another offset
pub proof fn lemma_cs_move(c: ChunkState, d: ChunkState)
    requires c.inv(), c.bytes@.len() == 0, d == (ChunkState { offset: d.offset, ..c }),
    ensures d.inv()
{ }
pub proof fn lemma_cs_block(s0: ChunkState, s1: ChunkState, b: Seq<u8>, c: int)
    requires 0 <= s0.count <= c <= b.len(), s0.st(b.subrange(0, c)), s0.count + 64 <= b.len() <= 2048,
        s1.frame(&s0), s1.count == s0.count + 64, s1.buf_len == 0, s1.buf@ =~= Seq::new(64, |i: int| 0u8),
        s1.cv@ == comp(s0.cv@, b.subrange(s0.count as int, s0.count + 64), 64, s0.offset, s0.flags | startf((s0.count / 64) as int)),
    ensures s1.st(b.subrange(0, s0.count + 64))
{
    let k = (s0.count / 64) as nat;
    let c2 = s0.count + 64;
    assert(64 * k == s0.count);
    assert(c2 / 64 == k + 1);
    let b2 = b.subrange(0, c2);
    assert(b.subrange(0, c).subrange(0, 64 * k as int) =~= b2.subrange(0, 64 * k as int));
    lemma_fold_prefix(s0.key@, b.subrange(0, c), b2, k, s0.offset, s0.flags);
    assert(b2.subrange(64 * ((k + 1) - 1), 64 * (k + 1) as int) =~= b.subrange(s0.count as int, c2));
    assert(fold(s0.key@, b2, (k + 1) as nat, s0.offset, s0.flags) == s1.cv@);
    assert(s1.buf@ =~= pad64(b2.subrange(c2, c2)));
}

impl Hasher {
    // while subtrees are being merged ahead of the next push
    pub open spec fn merging(&self, m: nat, s: nat) -> bool {
        &&& self.n() <= self.cs().len()
        &&& {
            ||| self.is_merged() && self.stack().len() <= popcnt(self.n())
            ||| m >= 2 && m % 2 == 0 && is_pow2(s) && self.n() == m * s && self.stack().len() > popcnt(self.n())
                && self.stack() == pend(self.key(), self.chunk.flags, self.cs(), m, s)
                && stk(self.key(), self.chunk.flags, self.cs(), m, s) == merged(self.key(), self.chunk.flags, self.cs(), self.n())
        }
    }
}
pub proof fn lemma_merging_state(h: Hasher, m: nat, s: nat)
    requires m >= 1, is_pow2(s), h.n() == m * s, h.n() <= h.cs().len(), h.stack() == pend(h.key(), h.chunk.flags, h.cs(), m, s),
        stk(h.key(), h.chunk.flags, h.cs(), m, s) == merged(h.key(), h.chunk.flags, h.cs(), h.n()),
    ensures h.merging(m, s)
{
    lemma_needs_merge(h.key(), h.chunk.flags, h.cs(), m, s);
    if m % 2 == 1 { lemma_pend_odd(h.key(), h.chunk.flags, h.cs(), m, s); }
}
pub proof fn lemma_merging_init(h: Hasher)
    requires h.is_merged() || h.is_unmerged(), h.n() <= h.cs().len(),
    ensures h.merging(h.n(), 1)
{
    if h.is_merged() {
        lemma_stk_len(h.key(), h.chunk.flags, h.cs(), h.n(), 1);
    } else {
        lemma_unmerged_pend(h.key(), h.chunk.flags, h.cs(), h.n());
        assert(h.n() * 1 == h.n());
        lemma_merging_state(h, h.n(), 1);
    }
}
// what merging can rely on while the merge condition holds
pub proof fn lemma_merging_can(h: Hasher, m: nat, s: nat)
    requires h.merging(m, s), h.stack().len() > popcnt(h.n()),
    ensures h.stack().len() >= 2
{
    lemma_pend_merge(h.key(), h.chunk.flags, h.cs(), m, s);
}
pub proof fn lemma_merging_step(h: Hasher, g: Hasher, m: nat, s: nat)
    requires h.merging(m, s), h.stack().len() > popcnt(h.n()), g.chunk == h.chunk, g.msg == h.msg,
        g.stack() == h.stack().subrange(0, h.stack().len() - 2).push(node_cv(parent_node(h.key(), h.stack()[h.stack().len() - 2], h.stack()[h.stack().len() - 1], h.chunk.flags, 0))),
    ensures g.merging(m / 2, 2 * s), g.stack().len() < h.stack().len(),
{
    lemma_pend_merge(h.key(), h.chunk.flags, h.cs(), m, s);
    lemma_stk_half(h.key(), h.chunk.flags, h.cs(), m, s);
    lemma_merging_state(g, m / 2, 2 * s);
}
// more input does not disturb what is on the stack
pub proof fn lemma_hasher_grow(o: Hasher, h: Hasher, more: Seq<u8>)
    requires o.core(), h.chunk == o.chunk, h.subtree_hashes == o.subtree_hashes, h.msg@ == o.msg@ + more, h.msg@.len() < 0x1_0000_0000_0000_0000,
    ensures h.core(), o.is_merged() ==> h.is_merged(), o.is_unmerged() ==> h.is_unmerged(),
        h.consumed() == o.consumed(),
{
    let n = o.n();
    lemma_ccvs_grow(o.key(), o.msg@, more, o.chunk.flags, n);
    assert(n * 1 == n);
    lemma_stk_prefix(o.key(), o.chunk.flags, o.cs(), h.cs(), n, 1);
    if n >= 1 {
        assert((n - 1) * 1 == n - 1);
        lemma_stk_prefix(o.key(), o.chunk.flags, o.cs(), h.cs(), (n - 1) as nat, 1);
    }
    assert(h.msg@.subrange(h.chunk.offset as int, h.consumed()) =~= o.msg@.subrange(o.chunk.offset as int, o.consumed()));
}
pub proof fn lemma_hasher_final(h: Hasher)
    requires h.inv(),
    ensures
        h.stack().len() == 0 ==> h.chunk.offset == 0 && h.root() == chunk_node(h.key(), h.chunk.bytes@, 0, h.chunk.flags, F_ROOT),
        h.stack().len() > 0 && h.chunk.bytes@.len() > 0 ==> h.stack().len() <= popcnt(h.n())
            && foldroot(h.key(), h.chunk.flags, h.stack(), node_cv(chunk_node(h.key(), h.chunk.bytes@, h.chunk.offset, h.chunk.flags, 0))) == h.root(),
        h.stack().len() > 0 && h.chunk.bytes@.len() == 0 ==> h.stack().len() >= 2
            && foldroot(h.key(), h.chunk.flags, h.stack().subrange(0, h.stack().len() - 1), h.stack()[h.stack().len() - 1]) == h.root(),
{
    let n = h.n();
    let k = h.key();
    let f = h.chunk.flags;
    let cs = h.cs();
    lemma_stk_len(k, f, cs, n, 1);
    if n == 0 {
        assert(popcnt(0) == 0);
        assert(h.chunk.bytes@ =~= h.msg@);
    } else {
        lemma_popcnt_pos(n);
        if h.chunk.bytes@.len() > 0 {
            assert(nchunks(h.msg@.len()) == n + 1);
            assert(chunk_of(h.msg@, n as int) =~= h.chunk.bytes@);
            let lo = cs.subrange(0, n as int);
            let xs = seq![cs[n as int]];
            assert(n * 1 == n);
            lemma_stk_prefix(k, f, cs, lo, n, 1);
            lemma_foldroot(k, f, lo, n, 1, xs);
            assert(cs =~= lo + xs);
        } else {
            assert(nchunks(h.msg@.len()) == n);
            let m = (n - 1) as nat;
            let lo = cs.subrange(0, m as int);
            let xs = seq![cs[m as int]];
            assert(m * 1 == m);
            lemma_stk_len(k, f, cs, m, 1);
            lemma_popcnt_pos(m);
            lemma_stk_prefix(k, f, cs, lo, m, 1);
            lemma_foldroot(k, f, lo, m, 1, xs);
            assert(cs =~= lo + xs);
            assert(h.stack().subrange(0, h.stack().len() - 1) =~= merged(k, f, cs, m));
        }
    }
}

pub proof fn lemma_stack_map(a: Seq<[u8; 32]>, x: [u8; 32])
    ensures a.push(x).map_values(|v: [u8; 32]| v@) == a.map_values(|v: [u8; 32]| v@).push(x@)
{ assert(a.push(x).map_values(|v: [u8; 32]| v@) =~= a.map_values(|v: [u8; 32]| v@).push(x@)); }

pub proof fn lemma_pow2_small(d: nat)
    requires d == 1 || d == 2 || d == 4 || d == 8 || d == 16,
    ensures is_pow2(d), popcnt(d) == 1, is_pow2(1), is_pow2(2),
{
    reveal_with_fuel(is_pow2, 6);
    reveal_with_fuel(popcnt, 6);
}
pub proof fn lemma_hr_split(key: Seq<u32>, flags: u8, input: Seq<u8>, offset: u64, deg: nat, wide: nat)
    requires deg == 1 || deg == 2 || deg == 4 || deg == 8 || deg == 16, wide == (if deg >= 2 { deg } else { 2 }),
        input.len() > deg * 2048, offset + input.len() < 0x1_0000_0000_0000_0000,
    ensures ({
        let n = nchunks(input.len());
        let l = lp2(n);
        &&& n > deg && 0 < l < n && n <= 2 * l && is_pow2(l) && deg <= l && is_pow2(deg) && is_pow2(wide)
        &&& n > wide ==> wide <= l
        &&& is_pow2(n) ==> n == 2 * l
        &&& n == 2 <==> l == 1
        &&& nchunks((2048 * l) as nat) == l
        &&& 2048 * l < input.len()
        &&& nchunks((input.len() - 2048 * l) as nat) == n - l
        &&& ccvs(key, input, offset, flags) == ccvs(key, input.subrange(0, 2048 * l as int), offset, flags)
            + ccvs(key, input.subrange(2048 * l as int, input.len() as int), (offset + 2048 * l) as u64, flags)
        &&& ccvs(key, input.subrange(0, 2048 * l as int), offset, flags).len() == l
        &&& ccvs(key, input.subrange(2048 * l as int, input.len() as int), (offset + 2048 * l) as u64, flags).len() == n - l
    })
{
    reveal_with_fuel(is_pow2, 6);
    let n = nchunks(input.len());
    lemma_lp2(n);
    lemma_lp2_pow2(n);
    lemma_lp2_geq(deg, n);
    if n > wide { lemma_lp2_geq(wide, n); }
    lemma_ccvs_split(key, input, offset, flags, lp2(n) as int);
    if is_pow2(n) { lemma_pow2_monotone(lp2(n), n); }
}

pub proof fn lemma_cvs_prefix(a: Seq<u8>, b: Seq<u8>, k: nat)
    requires 32 * k <= a.len(), 32 * k <= b.len(), a.subrange(0, 32 * k as int) =~= b.subrange(0, 32 * k as int),
    ensures cvs_of(a, k) == cvs_of(b, k)
{
    assert forall|i: int| 0 <= i < k implies cvs_of(a, k)[i] == cvs_of(b, k)[i] by {
        assert(a.subrange(32 * i, 32 * i + 32) =~= a.subrange(0, 32 * k as int).subrange(32 * i, 32 * i + 32));
        assert(b.subrange(32 * i, 32 * i + 32) =~= b.subrange(0, 32 * k as int).subrange(32 * i, 32 * i + 32));
    }
    assert(cvs_of(a, k) =~= cvs_of(b, k));
}

// the children of a left subtree (outputs lo) and a right one (ro), stored back to back
pub proof fn lemma_hr_join(key: Seq<u32>, flags: u8, lo: Seq<u8>, ro: Seq<u8>, ln: nat, rn: nat, cl: Seq<Seq<u8>>, cr: Seq<Seq<u8>>)
    requires lo.len() == 32 * ln, 32 * rn <= ro.len(), is_pow2(ln), 1 <= rn <= ln, is_pow2(cl.len()), 1 <= cr.len() <= cl.len(),
        tree(key, flags, cvs_of(lo, ln)) == tree(key, flags, cl),
        tree(key, flags, cvs_of(ro, rn)) == tree(key, flags, cr),
    ensures ({
        let c = lo + ro;
        let k = ln + rn;
        let y = cvs_of(c, k);
        let b = c.subrange(0, 32 * k as int);
        &&& y == cvs_of(c.subrange(0, 32 * k as int), k)
        &&& cvs_of(b, k) == y
        &&& tree(key, flags, y) == tree(key, flags, cl + cr)
        &&& top(key, flags, y) == top(key, flags, cl + cr)
        &&& tree(key, flags, pairup(key, flags, y)) == tree(key, flags, cl + cr)
        &&& k >= 3 ==> top(key, flags, pairup(key, flags, y)) == top(key, flags, cl + cr)
    })
{
    let c = lo + ro;
    let k = ln + rn;
    let y = cvs_of(c, k);
    let yl = cvs_of(lo, ln);
    let yr = cvs_of(ro, rn);
    assert forall|i: int| 0 <= i < k implies y[i] == (yl + yr)[i] by {
        if i < ln { assert(c.subrange(32 * i, 32 * i + 32) =~= yl[i]); }
        else { assert(c.subrange(32 * i, 32 * i + 32) =~= yr[i - ln]); }
    }
    assert(y =~= yl + yr);
    lemma_join(key, flags, cl, cr, yl, yr);
    lemma_pairup_tree(key, flags, y);
    let b = c.subrange(0, 32 * k as int);
    assert(b.subrange(0, 32 * k as int) =~= b);
    lemma_cvs_prefix(b, c, k);
}

pub proof fn lemma_cvs_len(out: Seq<u8>, n: nat) ensures cvs_of(out, n).len() == n { }
}
verus! {
#end
#file src/lib.rs
#type Word
#const WORD_BYTES WORD_BITS MAX_DEPTH OUT_LEN KEY_LEN BLOCK_LEN CHUNK_LEN IV
#flags Flags
#enum IsRoot #[derive(Clone, Copy)]
#struct Hash #[derive(Clone, Copy)]
#struct Output
#struct ChunkState
#struct Hasher
#ghost ChunkState bytes Ghost<Seq<u8>> = Ghost(Seq::<u8>::empty())
#ghost Hasher msg Ghost<Seq<u8>> = Ghost(Seq::<u8>::empty())

#fn IsRoot::flag
ret r
spec {
    ensures r == rootf(*self)
}
#fn words_from_key_bytes
ret r
spec {
    ensures r@ == words8(bytes@)
}
return {
    proof { assert(vx_ret@ =~= words8(bytes@)); }
}
#fn bytes_from_state_words
ret r
spec {
    ensures r@ == bytes8(words@)
}
return {
    proof { assert(vx_ret@ =~= bytes8(words@)); }
}
#fn Hash@From<[u8;OUT_LEN]>::from
rename fn:hash_from_bytes
ret r
spec {
    ensures r == Hash(bytes)
}
#fn [u8;OUT_LEN]@From<Hash>::from
rename fn:bytes_from_hash
ret r
spec {
    ensures r == hash.0
}
#fn Hash::as_bytes
ret r
spec {
    ensures *r == self.0
}
#fn Output::read
ret r
spec {
    requires old(self).wf(), old(self).offset + 64 < 0x1_0000_0000_0000_0000,
    ensures
        r@ == xofblk(old(self).cv@, old(self).block@, old(self).block_len, old(self).offset, old(self).flags),
        final(self).wf(),
        final(self).node() == (Node { off: (old(self).offset + 64) as u64, ..old(self).node() }),
}
#fn Output::to_hash
ret r
spec {
    requires self.wf(),
    ensures r.0@ == node_cv(self.node()),
}
#fn hash_one_chunk
ret r
spec {
    requires chunk.len() <= 2048, platform.wf(), is_root is Root ==> offset == 0,
    ensures r.node() == chunk_node(key@, chunk@, offset, flags, rootf(is_root)), r.wf(),
}
start {
    proof { lemma_or0(flags); lemma_or2(flags, F_START); }
}
loop 1 {
    invariant
        chunk.len() <= 2048, platform.wf(),
        block_offset % 64 == 0, block_offset <= chunk.len(), block_offset < chunk.len() || block_offset == 0,
        cv@ == fold(key@, chunk@, (block_offset / 64) as nat, offset, flags),
        block_flags == flags | startf((block_offset / 64) as int),
        flags | 0 == flags,
    decreases chunk.len() - block_offset
}
return {
    proof {
        assert(nfull(chunk.len() as nat) == block_offset / 64);
        lemma_or4(flags, startf((block_offset / 64) as int), F_END, rootf(is_root));
        assert(vx_ret.block@ =~= pad64(chunk@.subrange(block_offset as int, chunk.len() as int)));
    }
}
before compress 1 {
    proof {
        let k = (block_offset / 64) as int;
        assert(64 * k == block_offset);
        assert(chunk@.subrange(64 * ((k + 1) - 1), 64 * (k + 1)) =~= chunk@.subrange(block_offset as int, block_offset + 64));
    }
}
after compress 1 {
    proof {
        let k = (block_offset / 64) as int;
        assert(chunk@.subrange(0, chunk@.len() as int) =~= chunk@);
        assert(cv@ == fold(key@, chunk@, (k + 1) as nat, offset, flags));
        assert((block_offset + 64) / 64 == k + 1);
    }
}
#fn hash_chunks_parallel
ret r
spec {
    requires 0 < input.len() <= MAX_SIMD_DEGREE * CHUNK_LEN, offset % 2048 == 0,
        offset + input.len() < 0x1_0000_0000_0000_0000, platform.wf(),
        old(out).len() >= 32 * nchunks(input.len() as nat),
    ensures r == nchunks(input.len() as nat),
        cvs_of(final(out)@, r as nat) == ccvs(key@, input@, offset, flags),
        final(out).len() == old(out).len(),
}
loop 1 {
    invariant
        chunks_exact.wf(), chunks_exact.v@ == input@, chunks_exact.n == 2048, input.len() <= MAX_SIMD_DEGREE * CHUNK_LEN,
        chunks_exact.pos == 2048 * chunks_array.view().len(), chunks_array.cap_ok(),
        forall|i: int| 0 <= i < chunks_array.view().len() ==> (#[trigger] chunks_array.view()[i])@ == input@.subrange(2048 * i, 2048 * i + 2048),
    ensures
        input.len() - chunks_exact.pos < 2048,
    decreases input.len() - chunks_exact.pos
}
before push 1 {
    proof { assert(chunk@.subrange(0, 2048) =~= chunk@); }
}
return {
    proof {
        let nf = chunks_array.view().len() as int;
        let cs = ccvs(key@, input@, offset, flags);
        assert forall|i: int| 0 <= i < cs.len() implies cvs_of(out@, cs.len())[i] == cs[i] by {
            if i < nf {
                lemma_hm_chunk(key@, chunks_array.view()[i].ab(), (offset + i * 2048) as u64, flags);
                assert(chunk_of(input@, i) =~= chunks_array.view()[i]@);
                assert(out@.subrange(32 * i, 32 * i + 32) =~= vx_mid.subrange(32 * i, 32 * i + 32));
            } else {
                assert(i == nf);
                assert(chunk_of(input@, i) =~= input@.subrange(2048 * nf, input.len() as int));
            }
        }
        assert(cvs_of(out@, cs.len()) =~= cs);
    }
}
after hash_many 1 {
    let ghost vx_mid = out@;
    proof {
        let nf = chunks_array.view().len() as int;
        assert(input.len() % 2048 == input.len() - 2048 * nf);
    }
}
#fn hash_parents_parallel
ret r
spec {
    requires child_hashes.len() % 32 == 0, 64 <= child_hashes.len() <= 64 * MAX_SIMD_DEGREE_OR_2, platform.wf(),
        old(out).len() >= 32 * ((child_hashes.len() / 32 + 1) / 2),
    ensures r == (child_hashes.len() / 32 + 1) / 2,
        cvs_of(final(out)@, r as nat) == pairup(key@, flags, cvs_of(child_hashes@, (child_hashes.len() / 32) as nat)),
        final(out).len() == old(out).len(),
}
loop 1 {
    invariant
        parents_exact.wf(), parents_exact.v@ == child_hashes@, parents_exact.n == 64, child_hashes.len() <= 64 * MAX_SIMD_DEGREE_OR_2,
        parents_exact.pos == 64 * parents_array.view().len(), parents_array.cap_ok(),
        forall|i: int| 0 <= i < parents_array.view().len() ==> (#[trigger] parents_array.view()[i])@ == child_hashes@.subrange(64 * i, 64 * i + 64),
    ensures
        child_hashes.len() - parents_exact.pos < 64,
    decreases child_hashes.len() - parents_exact.pos
}
before push 1 {
    proof { assert(parent@.subrange(0, 64) =~= parent@); }
}
after hash_many 1 {
    let ghost vx_mid = out@;
    proof {
        let np = parents_array.view().len() as int;
        assert(child_hashes.len() % 64 == child_hashes.len() - 64 * np);
    }
}
return {
    proof {
        let nc = (child_hashes.len() / 32) as nat;
        let np = parents_array.view().len() as int;
        let xs = cvs_of(child_hashes@, nc);
        let ys = pairup(key@, flags, xs);
        assert forall|i: int| 0 <= i < ys.len() implies cvs_of(out@, ys.len())[i] == ys[i] by {
            if i < np {
                let b = parents_array.view()[i].ab();
                lemma_hm_parent(key@, b, flags);
                assert(b.subrange(0, 32) =~= xs[2 * i]);
                assert(b.subrange(32, 64) =~= xs[2 * i + 1]);
                assert(out@.subrange(32 * i, 32 * i + 32) =~= vx_mid.subrange(32 * i, 32 * i + 32));
                assert(i * 0 == 0);
            } else {
                assert(i == np);
                assert(out@.subrange(32 * i, 32 * i + 32) =~= child_hashes@.subrange(64 * np, child_hashes.len() as int));
                assert(xs[2 * i] =~= child_hashes@.subrange(64 * np, child_hashes.len() as int));
            }
        }
        assert(cvs_of(out@, ys.len()) =~= ys);
    }
}
#fn largest_power_of_two_leq
ret r
spec {
    requires n / 2 + 1 <= 0x8000_0000_0000_0000,
    ensures r == np2((n / 2 + 1) as nat),
}
#fn left_len
ret r
spec {
    requires content_len > 2048,
    ensures r == 2048 * lp2(nchunks(content_len as nat)), 0 < r < content_len,
}
start {
    proof {
        let m = nchunks(content_len as nat);
        lemma_lp2(m);
        lemma_np2_lp2(m);
        assert((m + 1) / 2 == ((content_len - 1) / 2048) / 2 + 1);
    }
}
#fn join
ret r
spec {
    requires oper_a.requires(()), oper_b.requires(()),
    ensures oper_a.ensures((), r.0), oper_b.ensures((), r.1),
}
#fn hash_recurse
ret r
spec {
    requires 0 < input.len(), offset % 2048 == 0, offset + input.len() < 0x1_0000_0000_0000_0000, platform.wf(),
        old(out).len() >= 32 * (if nchunks(input.len() as nat) <= platform.wide() { nchunks(input.len() as nat) } else { platform.wide() }),
    ensures
        final(out).len() == old(out).len(),
        1 <= r <= platform.wide(),
        nchunks(input.len() as nat) <= platform.wide() ==> r == nchunks(input.len() as nat),
        is_pow2(nchunks(input.len() as nat)) && nchunks(input.len() as nat) >= platform.wide() ==> r == platform.wide(),
        nchunks(input.len() as nat) >= 2 ==> r >= 2,
        tree(key@, flags, cvs_of(final(out)@, r as nat)) == tree(key@, flags, ccvs(key@, input@, offset, flags)),
        nchunks(input.len() as nat) >= 2 ==> top(key@, flags, cvs_of(final(out)@, r as nat)) == top(key@, flags, ccvs(key@, input@, offset, flags)),
    decreases input.len()
}
start {
    hide(tree); hide(top); hide(lp2); hide(is_pow2); hide(popcnt); hide(ccvs); hide(cvs_of); hide(pairup);
    let ghost mut vx_joined = false;
    let ghost mut vx_c: Seq<u8> = Seq::empty();
    proof {
        lemma_pow2_small(platform.deg());
        if input.len() > platform.deg() * 2048 {
            lemma_hr_split(key@, flags, input@, offset, platform.deg(), platform.wide());
        }
    }
}
before hash_recurse 1 {
    proof {
        assert(left@ =~= input@.subrange(0, 2048 * lp2(nchunks(input.len() as nat)) as int));
        assert(right@ =~= input@.subrange(2048 * lp2(nchunks(input.len() as nat)) as int, input.len() as int));
    }
}
after hash_recurse 1 {
    proof {
        lemma_hr_join(key@, flags, left_out@, right_out@, left_n as nat, right_n as nat, ccvs(key@, left@, offset, flags), ccvs(key@, right@, right_off, flags));
        vx_joined = true;
        vx_c = left_out@ + right_out@;
    }
}
return {
    proof {
        if vx_joined && vx_ret == 2 {
            if out@.subrange(0, 64) == vx_c.subrange(0, 64) {
                lemma_cvs_prefix(out@, vx_c, 2);
            }
        }
    }
}
#fn condense_root
ret r
spec {
    requires old(children).len() % 32 == 0, 64 <= old(children).len() <= 32 * MAX_SIMD_DEGREE_OR_2, platform.wf(),
    ensures r.node() == top(key@, flags, cvs_of(old(children)@, (old(children).len() / 32) as nat)), r.wf(),
}
start {
    let ghost vx_top = top(key@, flags, cvs_of(children@, (children.len() / 32) as nat));
}
loop 1 {
    invariant
        children.len() % 32 == 0, 64 <= children.len() <= 32 * MAX_SIMD_DEGREE_OR_2, platform.wf(),
        vx_top == top(key@, flags, cvs_of(children@, (children.len() / 32) as nat)),
    decreases children.len()
}
before hash_parents_parallel 1 {
    let ghost vx_xs = cvs_of(children@, (children.len() / 32) as nat);
    proof {
        lemma_pairup_tree(key@, flags, vx_xs);
    }
}
loopend 1 {
    proof {
        let k = (children.len() / 32) as nat;
        assert forall|i: int| 0 <= i < k implies cvs_of(children@, k)[i] == cvs_of(out_array@, k)[i] by {
            assert(children@.subrange(32 * i, 32 * i + 32) =~= out_array@.subrange(32 * i, 32 * i + 32));
        }
        assert(cvs_of(children@, k) =~= cvs_of(out_array@, k));
    }
}
return {
    proof {
        let xs = cvs_of(children@, 2);
        assert(lp2(2) == 1);
        assert(xs.subrange(0, 1)[0] == xs[0]);
        assert(xs.subrange(1, 2)[0] == xs[1]);
        assert(vx_ret.block@ =~= xs[0] + xs[1]);
        lemma_or3(flags, F_PARENT, F_ROOT);
    }
}
#fn hash_internal
ret r
spec {
    ensures r.node() == root_node(key_words@, input@, flags), r.wf(),
}
before condense_root 1 {
    proof {
        let b = children_array@.subrange(0, 32 * num_children as int);
        assert(b.subrange(0, 32 * num_children as int) =~= b);
        lemma_cvs_prefix(b, children_array@, num_children as nat);
    }
}
#fn hash
ret r
spec {
    ensures r.0@ == node_cv(root_node(spec_iv(), input@, 0)),
}
#fn hash_xof
ret r
spec {
    ensures r.node() == root_node(spec_iv(), input@, 0), r.wf(),
}
start {
    proof { assert(IV@ =~= spec_iv()); }
}
#fn keyed_hash
ret r
spec {
    ensures r.0@ == node_cv(root_node(words8(key@), input@, F_KEYED)),
}
#fn keyed_hash_xof
ret r
spec {
    ensures r.node() == root_node(words8(key@), input@, F_KEYED), r.wf(),
}
#fn derive_key
ret r
spec {
    ensures r@ == node_cv(root_node(words8(key@), context@, F_DERIVE)),
}
#fn derive_key_xof
ret r
spec {
    ensures r.node() == root_node(words8(key@), context@, F_DERIVE), r.wf(),
}

#fn ChunkState::new
ret r
spec {
    ensures r.inv(), r.bytes@.len() == 0, r.offset == 0, r.key@ == key@, r.flags == flags,
}
return {
    proof {
        assert(vx_ret.buf@ =~= pad64(Seq::<u8>::empty().subrange(0, 0)));
    }
}
#fn ChunkState::reset
spec {
    requires old(self).platform.wf(), new_offset % 2048 == 0,
    ensures final(self).inv(), final(self).bytes@.len() == 0, final(self).offset == new_offset,
        final(self).key@ == old(self).key@, final(self).flags == old(self).flags, final(self).platform == old(self).platform,
}
end {
    proof {
        self.bytes = Ghost(Seq::<u8>::empty());
        assert(self.buf@ =~= pad64(Seq::<u8>::empty().subrange(0, 0)));
    }
}
#fn ChunkState::len
ret r
spec {
    requires self.count <= 2048,
    ensures r == self.count + self.buf_len,
}
#fn ChunkState::fill_buf
spec {
    requires old(self).buf_len <= 64,
    ensures ({
        let k = if 64 - old(self).buf_len <= old(input)@.len() { 64 - old(self).buf_len } else { old(input)@.len() as int };
        &&& final(self).buf_len == old(self).buf_len + k
        &&& final(self).buf@ == old(self).buf@.subrange(0, old(self).buf_len as int) + old(input)@.subrange(0, k) + old(self).buf@.subrange(old(self).buf_len + k, 64)
        &&& final(input)@ == old(input)@.subrange(k, old(input)@.len() as int)
        &&& final(self).frame(old(self)) && final(self).count == old(self).count && final(self).cv@ == old(self).cv@
    }),
}
#fn ChunkState::maybe_chunk_start_flag
ret r
spec {
    ensures r == (if self.count == 0 { F_START } else { 0 }),
}
#fn ChunkState::update
spec {
    requires old(self).inv(), old(self).bytes@.len() + input.len() <= 2048,
    ensures final(self).inv(), final(self).bytes@ == old(self).bytes@ + input@, final(self).frame(old(self)),
}
start {
    hide(fold);
    let ghost vx_b = self.bytes@ + input@;
    let ghost vx_in = input@;
    let ghost vx_o = *self;
    let ghost mut vx_s0 = *self;
    let ghost mut vx_f1 = false;
    proof {
        assert(vx_b.subrange(0, self.bytes@.len() as int) =~= self.bytes@);
        assert(input@ =~= vx_b.subrange(self.bytes@.len() as int, vx_b.len() as int));
    }
}
after fill_buf 1 {
    proof {
        let k = vx_in.len() - input.len();
        lemma_cs_fill(vx_o, *self, vx_o.bytes@, vx_in, k);
        assert(vx_o.bytes@ + vx_in.subrange(0, k) =~= vx_b.subrange(0, vx_b.len() - input.len()));
        assert(input@ =~= vx_b.subrange(vx_b.len() - input.len(), vx_b.len() as int));
    }
}
before compress 1 {
    proof {
        vx_s0 = *self;
        vx_f1 = true;
        let c = vx_b.len() - input.len();
        assert(self.buf@ =~= vx_b.subrange(self.count as int, self.count + 64));
    }
}
beforeloop 1 {
    proof {
        if vx_f1 {
            lemma_cs_block(vx_s0, *self, vx_b, vx_b.len() - input.len());
        }
    }
}
loop 1 {
    invariant
        self.platform.wf(), self.frame(&vx_o), vx_b.len() <= 2048, input.len() <= vx_b.len(),
        self.st(vx_b.subrange(0, vx_b.len() - input.len())),
        input@ == vx_b.subrange(vx_b.len() - input.len(), vx_b.len() as int),
        input.len() > 0 ==> self.buf_len == 0 && self.count == vx_b.len() - input.len() && self.buf@ =~= Seq::new(64, |i: int| 0u8),
        input.len() == 0 ==> self.count == 64 * nfull(vx_b.len()),
    decreases input.len()
}
loopstart 1 {
    let ghost vx_s1 = *self;
    let ghost vx_c = vx_b.len() - input.len();
    proof {
        assert(input@.subrange(0, input@.len() as int) =~= input@);
        assert(input@.subrange(0, 64) =~= vx_b.subrange(vx_c, vx_c + 64));
    }
}
loopend 1 {
    proof {
        lemma_cs_block(vx_s1, *self, vx_b, vx_c);
        assert(input@ =~= vx_b.subrange(vx_c + 64, vx_b.len() as int));
    }
}
afterloop 1 {
    let ghost vx_s2 = *self;
    let ghost vx_i2 = input@;
}
after fill_buf 2 {
    proof {
        lemma_cs_fill(vx_s2, *self, vx_b.subrange(0, vx_b.len() - vx_i2.len()), vx_i2, vx_i2.len() as int);
        assert(vx_b.subrange(0, vx_b.len() - vx_i2.len()) + vx_i2.subrange(0, vx_i2.len() as int) =~= vx_b);
        self.bytes = Ghost(vx_b);
    }
}
#fn ChunkState::finalize
ret r
spec {
    requires self.inv(), is_root is Root ==> self.offset == 0,
    ensures r.node() == chunk_node(self.key@, self.bytes@, self.offset, self.flags, rootf(is_root)), r.wf(),
}
start {
    proof { lemma_or4(self.flags, startf(nfull(self.bytes@.len()) as int), F_END, rootf(is_root)); }
}
#fn hash_one_parent
ret r
spec {
    requires platform.wf(),
    ensures r.node() == parent_node(key@, left_child@, right_child@, flags, rootf(is_root)), r.wf(),
}
start {
    proof { lemma_or3(flags, F_PARENT, rootf(is_root)); }
}
#fn Hasher::new_internal
ret r
spec {
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (key_words@, flags),
}
return {
    proof {
        assert(vx_ret.stack() =~= Seq::<Seq<u8>>::empty());
        assert(vx_ret.chunk.bytes@ =~= vx_ret.msg@.subrange(0, 0));
        assert(vx_ret.is_merged());
    }
}
#fn Hasher::new
ret r
spec {
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (spec_iv(), 0u8),
}
start {
    proof { assert(IV@ =~= spec_iv()); }
}
#fn Hasher::new_keyed
ret r
spec {
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (words8(key@), F_KEYED),
}
#fn Hasher::new_derive_key
ret r
spec {
    ensures r.inv(), r.msg@.len() == 0, r.mode() == (words8(key@), F_DERIVE),
}
#fn Hasher::needs_merge
ret r
spec {
    ensures r == (self.stack().len() > popcnt((total_bytes / 2048) as nat)),
}
#fn Hasher::merge_parent
spec {
    requires old(self).subtree_hashes.view().len() >= 2, old(self).chunk.platform.wf(), old(self).subtree_hashes.cap_ok(),
    ensures final(self).chunk == old(self).chunk, final(self).msg == old(self).msg, final(self).subtree_hashes.cap_ok(),
        ({ let st = old(self).stack(); let l = st.len() as int;
           final(self).stack() == st.subrange(0, l - 2).push(node_cv(parent_node(old(self).key(), st[l - 2], st[l - 1], old(self).chunk.flags, 0))) }),
}
end {
    proof {
        let st = old(self).stack();
        let l = st.len() as int;
        assert(self.stack() =~= st.subrange(0, l - 2).push(node_cv(parent_node(old(self).key(), st[l - 2], st[l - 1], old(self).chunk.flags, 0))));
    }
}
#fn Hasher::push_chunk_hash
spec {
    requires old(self).chunk.platform.wf(), old(self).subtree_hashes.cap_ok(), old(self).is_merged() || old(self).is_unmerged(),
        old(self).chunk.offset % 2048 == 0, old(self).chunk.offset + 2048 <= old(self).msg@.len() < 0x1_0000_0000_0000_0000,
        offset == old(self).chunk.offset,
        hash@ == old(self).cs()[old(self).n() as int],
    ensures final(self).chunk == old(self).chunk, final(self).msg == old(self).msg, final(self).subtree_hashes.cap_ok(),
        final(self).stack() == unmerged(old(self).key(), old(self).chunk.flags, old(self).cs(), old(self).n() + 1),
}
start {
    let ghost mut vx_m = self.n();
    let ghost mut vx_s: nat = 1;
    proof {
        lemma_merging_init(*self);
    }
}
loop 1 {
    invariant
        self.chunk == old(self).chunk, self.msg == old(self).msg, self.subtree_hashes.cap_ok(), self.chunk.platform.wf(),
        self.merging(vx_m, vx_s), offset == self.chunk.offset,
    decreases self.subtree_hashes.view().len()
}
loopstart 1 {
    let ghost vx_h = *self;
    proof { lemma_merging_can(*self, vx_m, vx_s); }
}
loopend 1 {
    proof {
        lemma_merging_step(vx_h, *self, vx_m, vx_s);
        vx_m = vx_m / 2;
        vx_s = 2 * vx_s;
    }
}
afterloop 1 {
    proof {
        assert(self.is_merged());
        lemma_stk_len(self.key(), self.chunk.flags, self.cs(), self.n(), 1);
        assert(p2(53) == 0x20_0000_0000_0000) by (compute);
        lemma_popcnt_bound(self.n(), 53);
    }
}
before push 1 {
    proof { lemma_stack_map(self.subtree_hashes.view(), *hash); }
}
#fn Hasher::update
ret r
spec {
    requires old(self).inv(), old(self).msg@.len() + input.len() < 0x1_0000_0000_0000_0000,
    ensures r.inv(), r.msg@ == old(self).msg@ + input@, r.mode() == old(self).mode(), *final(self) == *final(r),
}
start {
    hide(stk); hide(fold); hide(tree); hide(popcnt); hide(node_cv); hide(chunk_node); hide(hm); hide(ChunkState::st); hide(pend);
    let ghost vx_o = *self;
    let ghost vx_in = input@;
    let ghost vx_mode = self.mode();
    let ghost mut vx_m: nat = 0;
    let ghost mut vx_s: nat = 1;
    proof {
        self.msg = Ghost(self.msg@ + input@);
        lemma_hasher_grow(vx_o, *self, input@);
        assert(input@ =~= self.msg@.subrange(self.consumed(), self.msg@.len() as int));
    }
}
before update 1 {
    let ghost vx_h1 = *self;
}
after update 1 {
    proof {
        assert(self.chunk.bytes@ =~= self.msg@.subrange(self.chunk.offset as int, self.consumed()));
    }
}
before push_chunk_hash 1 {
    proof {
        assert(chunk_of(self.msg@, self.n() as int) =~= self.chunk.bytes@);
    }
}
after reset 1 {
    proof {
        assert(self.chunk.bytes@ =~= self.msg@.subrange(self.chunk.offset as int, self.consumed()));
        assert(input@ =~= self.msg@.subrange(self.consumed(), self.msg@.len() as int));
    }
}
beforeloop 1 {
    let ghost vx_in2 = input@;
    let ghost vx_start = self.chunk.offset;
    let ghost vx_msg = self.msg@;
    proof { assert(self.core()); }
}
loop 1 {
    invariant
        self.core(), self.mode() == vx_mode, self.msg@ == vx_msg, self.chunk.bytes@.len() == 0,
        vx_in2.len() <= vx_msg.len(), vx_start == vx_msg.len() - vx_in2.len(), vx_start % 2048 == 0,
        vx_in2 == vx_msg.subrange(vx_start as int, vx_msg.len() as int),
        chunks_exact.wf(), chunks_exact.v@ == vx_in2, chunks_exact.n == 2048,
        self.chunk.offset == vx_start + chunks_exact.pos,
        chunks_array.view().len() == 0, chunks_array.v.len() == 0, chunks_array.cap_ok(),
        chunks_exact.pos > 0 ==> self.is_unmerged(),
        chunks_exact.pos == 0 ==> self.n() == 0 || vx_in2.len() > 0 || self.n() >= 2 && self.is_unmerged(),
        vx_start == 0 ==> vx_in2.len() != 2048,
    ensures
        vx_in2.len() - chunks_exact.pos < 2048,
    decreases vx_in2.len() - chunks_exact.pos
}
loopstart 1 {
    let ghost vx_pos0 = chunks_exact.pos as int;
    let ghost vx_off0 = self.chunk.offset as int;
    let ghost mut vx_j: int = 0;
}
before hash_many 1 {
    let ghost vx_arr = chunks_array.view();
    proof {
        assert forall|i: int| 0 <= i < vx_arr.len() implies (#[trigger] vx_arr[i])@ == chunk_of(vx_msg, vx_off0 / 2048 + i) by {
            assert(vx_arr[i]@ =~= chunk_of(vx_msg, vx_off0 / 2048 + i));
        }
    }
}
after hash_many 1 {
    proof {
        assert forall|i: int| 0 <= i < vx_arr.len() implies #[trigger] out_array@.subrange(32 * i, 32 * i + 32) == self.cs()[vx_off0 / 2048 + i] by {
            lemma_hm_chunk(self.key(), vx_arr[i].ab(), (vx_off0 + i * 2048) as u64, self.chunk.flags);
        }
    }
}
loop 2 {
    invariant
        self.core(), self.mode() == vx_mode, self.msg@ == vx_msg, self.chunk.bytes@.len() == 0,
        0 <= vx_j <= vx_arr.len() <= 8, chunks_array.view() == vx_arr, chunks_array.v.len() == vx_arr.len(), chunks_array.cap_ok(),
        vx_it1.it.wf(), vx_it1.it.v@ == out_array@, vx_it1.it.n == 32, vx_it1.it.pos == 32 * vx_j, vx_it1.k == vx_arr.len() - vx_j,
        vx_off0 % 2048 == 0, vx_off0 >= 0, self.chunk.offset == vx_off0 + 2048 * vx_j,
        vx_off0 + 2048 * vx_arr.len() <= vx_msg.len(),
        forall|i: int| 0 <= i < vx_arr.len() ==> #[trigger] out_array@.subrange(32 * i, 32 * i + 32) == self.cs()[vx_off0 / 2048 + i],
        vx_j > 0 ==> self.is_unmerged(),
    ensures
        vx_j == vx_arr.len(),
    decreases vx_it1.k
}
before push_chunk_hash 2 {
    proof {
        assert(chunk_hash@.subrange(0, 32) =~= out_array@.subrange(32 * vx_j, 32 * vx_j + 32));
    }
}
loopstart 2 {
    let ghost vx_c2 = self.chunk;
}
loopend 2 {
    proof {
        lemma_cs_move(vx_c2, self.chunk);
        vx_j = vx_j + 1;
        assert(self.chunk.bytes@ =~= self.msg@.subrange(self.chunk.offset as int, self.consumed()));
    }
}
beforeloop 3 {
    proof {
        vx_m = self.n();
        lemma_merging_init(*self);
    }
}
loop 3 {
    invariant
        self.chunk.inv(), self.subtree_hashes.cap_ok(), self.mode() == vx_mode, self.msg@ == vx_msg, self.chunk == vx_hl.chunk,
        self.merging(vx_m, vx_s),
    decreases self.subtree_hashes.view().len()
}
loopstart 3 {
    let ghost vx_h = *self;
    proof { lemma_merging_can(*self, vx_m, vx_s); }
}
loopend 3 {
    proof {
        lemma_merging_step(vx_h, *self, vx_m, vx_s);
        vx_m = vx_m / 2;
        vx_s = 2 * vx_s;
    }
}
afterloop 1 {
    let ghost vx_hl = *self;
    proof {
        assert(vx_in2.len() % 2048 == vx_in2.len() - chunks_exact.pos);
    }
}
after update 2 {
    proof {
        assert(self.chunk.bytes@ =~= self.msg@.subrange(self.chunk.offset as int, self.consumed()));
    }
}
#fn Hasher::finalize
ret r
spec {
    requires self.inv(),
    ensures r.0@ == node_cv(self.root()),
}
#fn Hasher::finalize_xof
ret r
spec {
    requires self.inv(),
    ensures r.node() == self.root(), r.wf(),
}
start {
    proof { lemma_hasher_final(*self); }
}
beforeloop 1 {
    proof {
        let st = self.stack();
        assert(st.subrange(0, st.len() as int) =~= st);
    }
}
loop 1 {
    invariant
        self.inv(), next_subtree_index < self.stack().len(),
        foldroot(self.key(), self.chunk.flags, self.stack().subrange(0, next_subtree_index + 1), working_hash@) == self.root(),
    decreases next_subtree_index
}
loopstart 1 {
    proof {
        let st = self.stack().subrange(0, next_subtree_index + 1);
        assert(st.drop_last() =~= self.stack().subrange(0, next_subtree_index as int));
    }
}

#fn Hasher@std::io::Write::write
ret r
spec {
    requires old(self).inv(), old(self).msg@.len() + input.len() < 0x1_0000_0000_0000_0000,
    ensures
        r is Ok, r->Ok_0 <= input.len(), input.len() > 0 ==> r->Ok_0 > 0,
        final(self).inv(), final(self).mode() == old(self).mode(),
        final(self).msg@ == old(self).msg@ + input@.subrange(0, r->Ok_0 as int),
}
start {
    proof { assert(input@.subrange(0, input.len() as int) =~= input@); }
}
#fn Hasher@std::io::Write::flush
ret r
spec {
    requires old(self).inv(),
    ensures r is Ok, final(self).inv(), final(self).mode() == old(self).mode(), final(self).msg@ == old(self).msg@,
}
#file src/platform.rs
#const MAX_SIMD_DEGREE MAX_SIMD_DEGREE_OR_2
#enum Platform #[derive(Clone, Copy)]
#fn Platform::detect
ret r
spec {
    ensures r.wf(),
}
#fn Platform::simd_degree
ret r
spec {
    ensures r == self.deg(), 1 <= r <= MAX_SIMD_DEGREE, is_pow2(r as nat),
}
start {
    proof { reveal_with_fuel(is_pow2, 5); }
}
#fn Platform::compress
spec {
    requires self.wf(), block_len <= 64,
    ensures final(cv)@ == comp(old(cv)@, block@, block_len, offset, flags),
}
#fn Platform::compress_xof
ret r
spec {
    requires self.wf(), block_len <= 64,
    ensures r@ == xofblk(cv@, block@, block_len, offset, flags),
}
#fn Platform::hash_many
spec {
    requires self.wf(), hm_pre(inputs@, offset, offset_delta, old(out)@),
    ensures hm_post(inputs@, key@, offset, offset_delta, flags, flags_start, flags_end, old(out)@, final(out)@),
}

#text {
} // verus!
fn main() {}
#end
