// ---------------------------------------------------------------------------
// spec.rs: the mathematical definition of the hash and the lemmas over it.
// `comp` / `xofblk` are the compression function (comp.rs).
// ---------------------------------------------------------------------------
verus! {

// domain flags of the definition
pub spec const F_START: u8 = 1;
pub spec const F_END: u8 = 2;
pub spec const F_PARENT: u8 = 4;
pub spec const F_ROOT: u8 = 8;
pub spec const F_KEYED: u8 = 16;
pub spec const F_DERIVE: u8 = 32;

// A node of the tree just before its last compression.
pub struct Node { pub cv: Seq<u32>, pub block: Seq<u8>, pub len: u8, pub off: u64, pub flags: u8 }

pub open spec fn node_cv(n: Node) -> Seq<u8> { bytes8(comp(n.cv, n.block, n.len, n.off, n.flags)) }

pub open spec fn startf(i: int) -> u8 { if i == 0 { F_START } else { 0 } }

// chaining value after the first n whole blocks of a chunk
pub open spec fn fold(key: Seq<u32>, bytes: Seq<u8>, n: nat, off: u64, flags: u8) -> Seq<u32>
    decreases n
{
    if n == 0 { key } else {
        comp(fold(key, bytes, (n - 1) as nat, off, flags), bytes.subrange(64 * (n - 1), 64 * n as int), 64, off, flags | startf(n - 1))
    }
}
pub open spec fn nfull(len: nat) -> nat { if len == 0 { 0 } else { ((len - 1) / 64) as nat } }
pub open spec fn pad64(b: Seq<u8>) -> Seq<u8> { Seq::new(64, |i: int| if i < b.len() { b[i] } else { 0u8 }) }

pub open spec fn chunk_node(key: Seq<u32>, bytes: Seq<u8>, off: u64, flags: u8, rootf: u8) -> Node {
    let n = nfull(bytes.len());
    Node { cv: fold(key, bytes, n, off, flags), block: pad64(bytes.subrange(64 * n as int, bytes.len() as int)),
        len: (bytes.len() - 64 * n) as u8, off, flags: flags | startf(n as int) | F_END | rootf }
}
pub open spec fn parent_node(key: Seq<u32>, l: Seq<u8>, r: Seq<u8>, flags: u8, rootf: u8) -> Node {
    Node { cv: key, block: l + r, len: 64, off: 0, flags: flags | F_PARENT | rootf }
}

// chunks of a message starting at byte offset `off`
pub open spec fn nchunks(len: nat) -> nat { if len == 0 { 1 } else { ((len - 1) / 2048 + 1) as nat } }
pub open spec fn chunk_of(msg: Seq<u8>, i: int) -> Seq<u8> {
    msg.subrange(2048 * i, if 2048 * (i + 1) <= msg.len() { 2048 * (i + 1) } else { msg.len() as int })
}
pub open spec fn ccv(key: Seq<u32>, msg: Seq<u8>, off: u64, flags: u8, i: int) -> Seq<u8> {
    node_cv(chunk_node(key, chunk_of(msg, i), (off + 2048 * i) as u64, flags, 0))
}
pub open spec fn ccvs(key: Seq<u32>, msg: Seq<u8>, off: u64, flags: u8) -> Seq<Seq<u8>> {
    Seq::new(nchunks(msg.len()), |i: int| ccv(key, msg, off, flags, i))
}

// the largest power of two below n (n >= 2)
pub open spec fn lp2(n: nat) -> nat
    decreases n
{
    if n <= 2 { 1 } else { 2 * lp2((n + 1) / 2) }
}

// the subtree over a list of chaining values: left side = largest power of two that leaves one
pub open spec fn tree(key: Seq<u32>, flags: u8, xs: Seq<Seq<u8>>) -> Seq<u8>
    decreases xs.len()
{
    if xs.len() <= 1 { xs[0] } else {
        let l = lp2(xs.len()) as int;
        if 0 < l < xs.len() {
            node_cv(parent_node(key, tree(key, flags, xs.subrange(0, l)), tree(key, flags, xs.subrange(l, xs.len() as int)), flags, 0))
        } else { arbitrary() }
    }
}
// the root above at least two chaining values
pub open spec fn top(key: Seq<u32>, flags: u8, xs: Seq<Seq<u8>>) -> Node {
    let l = lp2(xs.len()) as int;
    parent_node(key, tree(key, flags, xs.subrange(0, l)), tree(key, flags, xs.subrange(l, xs.len() as int)), flags, F_ROOT)
}
pub open spec fn root_node(key: Seq<u32>, msg: Seq<u8>, flags: u8) -> Node {
    if msg.len() <= 2048 { chunk_node(key, msg, 0, flags, F_ROOT) } else { top(key, flags, ccvs(key, msg, 0, flags)) }
}

// 32-byte chaining values stored back to back
pub open spec fn cvs_of(out: Seq<u8>, n: nat) -> Seq<Seq<u8>> {
    Seq::new(n, |i: int| out.subrange(32 * i, 32 * i + 32))
}

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_or0(a: u8) ensures a | 0 == a, 0 | a == a
{ assert(a | 0 == a) by (bit_vector); assert(0 | a == a) by (bit_vector); }

pub proof fn lemma_or_assoc(a: u8, b: u8, c: u8) ensures (a | b) | c == a | (b | c)
{ assert((a | b) | c == a | (b | c)) by (bit_vector); }

// a few flag terms or-ed together: every order, the usual associations (ground facts, no quantifiers)
pub proof fn lemma_or3(a: u8, b: u8, c: u8)
    ensures
        (a|(b|c)) == ((a|b)|c), ((a|c)|b) == ((a|b)|c), (a|(c|b)) == ((a|b)|c), ((b|a)|c) == ((a|b)|c),
        (b|(a|c)) == ((a|b)|c), ((b|c)|a) == ((a|b)|c), (b|(c|a)) == ((a|b)|c), ((c|a)|b) == ((a|b)|c),
        (c|(a|b)) == ((a|b)|c), ((c|b)|a) == ((a|b)|c), (c|(b|a)) == ((a|b)|c),
{
    assert((a|(b|c)) == ((a|b)|c)) by (bit_vector);
    assert(((a|c)|b) == ((a|b)|c)) by (bit_vector);
    assert((a|(c|b)) == ((a|b)|c)) by (bit_vector);
    assert(((b|a)|c) == ((a|b)|c)) by (bit_vector);
    assert((b|(a|c)) == ((a|b)|c)) by (bit_vector);
    assert(((b|c)|a) == ((a|b)|c)) by (bit_vector);
    assert((b|(c|a)) == ((a|b)|c)) by (bit_vector);
    assert(((c|a)|b) == ((a|b)|c)) by (bit_vector);
    assert((c|(a|b)) == ((a|b)|c)) by (bit_vector);
    assert(((c|b)|a) == ((a|b)|c)) by (bit_vector);
    assert((c|(b|a)) == ((a|b)|c)) by (bit_vector);
}
pub proof fn lemma_or4(a: u8, b: u8, c: u8, d: u8)
    ensures
        ((a|b)|(c|d)) == (((a|b)|c)|d), (a|((b|c)|d)) == (((a|b)|c)|d), (((a|b)|d)|c) == (((a|b)|c)|d), ((a|b)|(d|c)) == (((a|b)|c)|d),
        (a|((b|d)|c)) == (((a|b)|c)|d), (((a|c)|b)|d) == (((a|b)|c)|d), ((a|c)|(b|d)) == (((a|b)|c)|d), (a|((c|b)|d)) == (((a|b)|c)|d),
        (((a|c)|d)|b) == (((a|b)|c)|d), ((a|c)|(d|b)) == (((a|b)|c)|d), (a|((c|d)|b)) == (((a|b)|c)|d), (((a|d)|b)|c) == (((a|b)|c)|d),
        ((a|d)|(b|c)) == (((a|b)|c)|d), (a|((d|b)|c)) == (((a|b)|c)|d), (((a|d)|c)|b) == (((a|b)|c)|d), ((a|d)|(c|b)) == (((a|b)|c)|d),
        (a|((d|c)|b)) == (((a|b)|c)|d), (((b|a)|c)|d) == (((a|b)|c)|d), ((b|a)|(c|d)) == (((a|b)|c)|d), (b|((a|c)|d)) == (((a|b)|c)|d),
        (((b|a)|d)|c) == (((a|b)|c)|d), ((b|a)|(d|c)) == (((a|b)|c)|d), (b|((a|d)|c)) == (((a|b)|c)|d), (((b|c)|a)|d) == (((a|b)|c)|d),
        ((b|c)|(a|d)) == (((a|b)|c)|d), (b|((c|a)|d)) == (((a|b)|c)|d), (((b|c)|d)|a) == (((a|b)|c)|d), ((b|c)|(d|a)) == (((a|b)|c)|d),
        (b|((c|d)|a)) == (((a|b)|c)|d), (((b|d)|a)|c) == (((a|b)|c)|d), ((b|d)|(a|c)) == (((a|b)|c)|d), (b|((d|a)|c)) == (((a|b)|c)|d),
        (((b|d)|c)|a) == (((a|b)|c)|d), ((b|d)|(c|a)) == (((a|b)|c)|d), (b|((d|c)|a)) == (((a|b)|c)|d), (((c|a)|b)|d) == (((a|b)|c)|d),
        ((c|a)|(b|d)) == (((a|b)|c)|d), (c|((a|b)|d)) == (((a|b)|c)|d), (((c|a)|d)|b) == (((a|b)|c)|d), ((c|a)|(d|b)) == (((a|b)|c)|d),
        (c|((a|d)|b)) == (((a|b)|c)|d), (((c|b)|a)|d) == (((a|b)|c)|d), ((c|b)|(a|d)) == (((a|b)|c)|d), (c|((b|a)|d)) == (((a|b)|c)|d),
        (((c|b)|d)|a) == (((a|b)|c)|d), ((c|b)|(d|a)) == (((a|b)|c)|d), (c|((b|d)|a)) == (((a|b)|c)|d), (((c|d)|a)|b) == (((a|b)|c)|d),
        ((c|d)|(a|b)) == (((a|b)|c)|d), (c|((d|a)|b)) == (((a|b)|c)|d), (((c|d)|b)|a) == (((a|b)|c)|d), ((c|d)|(b|a)) == (((a|b)|c)|d),
        (c|((d|b)|a)) == (((a|b)|c)|d), (((d|a)|b)|c) == (((a|b)|c)|d), ((d|a)|(b|c)) == (((a|b)|c)|d), (d|((a|b)|c)) == (((a|b)|c)|d),
        (((d|a)|c)|b) == (((a|b)|c)|d), ((d|a)|(c|b)) == (((a|b)|c)|d), (d|((a|c)|b)) == (((a|b)|c)|d), (((d|b)|a)|c) == (((a|b)|c)|d),
        ((d|b)|(a|c)) == (((a|b)|c)|d), (d|((b|a)|c)) == (((a|b)|c)|d), (((d|b)|c)|a) == (((a|b)|c)|d), ((d|b)|(c|a)) == (((a|b)|c)|d),
        (d|((b|c)|a)) == (((a|b)|c)|d), (((d|c)|a)|b) == (((a|b)|c)|d), ((d|c)|(a|b)) == (((a|b)|c)|d), (d|((c|a)|b)) == (((a|b)|c)|d),
        (((d|c)|b)|a) == (((a|b)|c)|d), ((d|c)|(b|a)) == (((a|b)|c)|d), (d|((c|b)|a)) == (((a|b)|c)|d),
{
    assert(((a|b)|(c|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((a|((b|c)|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((a|b)|d)|c) == (((a|b)|c)|d)) by (bit_vector);
    assert(((a|b)|(d|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((a|((b|d)|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((a|c)|b)|d) == (((a|b)|c)|d)) by (bit_vector);
    assert(((a|c)|(b|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((a|((c|b)|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((a|c)|d)|b) == (((a|b)|c)|d)) by (bit_vector);
    assert(((a|c)|(d|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((a|((c|d)|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((a|d)|b)|c) == (((a|b)|c)|d)) by (bit_vector);
    assert(((a|d)|(b|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((a|((d|b)|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((a|d)|c)|b) == (((a|b)|c)|d)) by (bit_vector);
    assert(((a|d)|(c|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((a|((d|c)|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((b|a)|c)|d) == (((a|b)|c)|d)) by (bit_vector);
    assert(((b|a)|(c|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((b|((a|c)|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((b|a)|d)|c) == (((a|b)|c)|d)) by (bit_vector);
    assert(((b|a)|(d|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((b|((a|d)|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((b|c)|a)|d) == (((a|b)|c)|d)) by (bit_vector);
    assert(((b|c)|(a|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((b|((c|a)|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((b|c)|d)|a) == (((a|b)|c)|d)) by (bit_vector);
    assert(((b|c)|(d|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((b|((c|d)|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((b|d)|a)|c) == (((a|b)|c)|d)) by (bit_vector);
    assert(((b|d)|(a|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((b|((d|a)|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((b|d)|c)|a) == (((a|b)|c)|d)) by (bit_vector);
    assert(((b|d)|(c|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((b|((d|c)|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((c|a)|b)|d) == (((a|b)|c)|d)) by (bit_vector);
    assert(((c|a)|(b|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((c|((a|b)|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((c|a)|d)|b) == (((a|b)|c)|d)) by (bit_vector);
    assert(((c|a)|(d|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((c|((a|d)|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((c|b)|a)|d) == (((a|b)|c)|d)) by (bit_vector);
    assert(((c|b)|(a|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((c|((b|a)|d)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((c|b)|d)|a) == (((a|b)|c)|d)) by (bit_vector);
    assert(((c|b)|(d|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((c|((b|d)|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((c|d)|a)|b) == (((a|b)|c)|d)) by (bit_vector);
    assert(((c|d)|(a|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((c|((d|a)|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((c|d)|b)|a) == (((a|b)|c)|d)) by (bit_vector);
    assert(((c|d)|(b|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((c|((d|b)|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((d|a)|b)|c) == (((a|b)|c)|d)) by (bit_vector);
    assert(((d|a)|(b|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((d|((a|b)|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((d|a)|c)|b) == (((a|b)|c)|d)) by (bit_vector);
    assert(((d|a)|(c|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((d|((a|c)|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((d|b)|a)|c) == (((a|b)|c)|d)) by (bit_vector);
    assert(((d|b)|(a|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((d|((b|a)|c)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((d|b)|c)|a) == (((a|b)|c)|d)) by (bit_vector);
    assert(((d|b)|(c|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((d|((b|c)|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((d|c)|a)|b) == (((a|b)|c)|d)) by (bit_vector);
    assert(((d|c)|(a|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((d|((c|a)|b)) == (((a|b)|c)|d)) by (bit_vector);
    assert((((d|c)|b)|a) == (((a|b)|c)|d)) by (bit_vector);
    assert(((d|c)|(b|a)) == (((a|b)|c)|d)) by (bit_vector);
    assert((d|((c|b)|a)) == (((a|b)|c)|d)) by (bit_vector);
}
pub proof fn lemma_or2(a: u8, b: u8) ensures a | b == b | a
{ assert(a | b == b | a) by (bit_vector); }
pub proof fn lemma_lp2(n: nat)
    requires n >= 2,
    ensures 0 < lp2(n) < n, n <= 2 * lp2(n),
    decreases n
{
    if n > 2 { lemma_lp2((n + 1) / 2); }
}

pub open spec fn is_pow2(n: nat) -> bool
    decreases n
{
    if n == 0 { false } else if n == 1 { true } else { n % 2 == 0 && is_pow2(n / 2) }
}
pub proof fn lemma_lp2_pow2(n: nat)
    requires n >= 2,
    ensures is_pow2(lp2(n)),
    decreases n
{
    if n > 2 { lemma_lp2_pow2((n + 1) / 2); lemma_lp2((n + 1) / 2); }
}
// characterisation
pub proof fn lemma_lp2_geq(d: nat, n: nat)
    requires is_pow2(d), d < n,
    ensures d <= lp2(n),
    decreases d
{
    if d == 1 { lemma_lp2(n); } else { lemma_lp2_geq(d / 2, (n + 1) / 2); }
}
pub proof fn lemma_lp2_unique(d: nat, r: nat)
    requires is_pow2(d), 1 <= r <= d,
    ensures lp2(d + r) == d,
    decreases d
{
    if d == 1 { } else {
        lemma_lp2_unique(d / 2, (r + 1) / 2);
        assert((d + r + 1) / 2 == d / 2 + (r + 1) / 2);
    }
}
pub proof fn lemma_np2_lp2(m: nat)
    requires m >= 2,
    ensures np2((m + 1) / 2) == lp2(m),
    decreases m
{
    if m > 2 { lemma_np2_lp2((m + 1) / 2); }
}
pub proof fn lemma_pow2_monotone(a: nat, b: nat)
    requires is_pow2(a), is_pow2(b), a < b,
    ensures 2 * a <= b,
    decreases b
{
    if a == 1 { } else { lemma_pow2_monotone(a / 2, b / 2); }
}

// one level of pairing; an odd child is carried up unchanged
pub open spec fn pairup(key: Seq<u32>, flags: u8, xs: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    Seq::new((xs.len() + 1) / 2, |i: int|
        if 2 * i + 1 < xs.len() { node_cv(parent_node(key, xs[2 * i], xs[2 * i + 1], flags, 0)) } else { xs[2 * i] })
}

pub proof fn lemma_pairup_split(key: Seq<u32>, flags: u8, xs: Seq<Seq<u8>>, l: int)
    requires 0 <= l <= xs.len(), l % 2 == 0,
    ensures pairup(key, flags, xs) == pairup(key, flags, xs.subrange(0, l)) + pairup(key, flags, xs.subrange(l, xs.len() as int))
{
    assert(pairup(key, flags, xs) =~= pairup(key, flags, xs.subrange(0, l)) + pairup(key, flags, xs.subrange(l, xs.len() as int)));
}

pub proof fn lemma_pairup_tree(key: Seq<u32>, flags: u8, xs: Seq<Seq<u8>>)
    requires xs.len() >= 1,
    ensures tree(key, flags, pairup(key, flags, xs)) == tree(key, flags, xs),
        xs.len() >= 3 ==> top(key, flags, pairup(key, flags, xs)) == top(key, flags, xs),
    decreases xs.len()
{
    let n = xs.len();
    let ys = pairup(key, flags, xs);
    if n == 1 {
        assert(ys =~= xs);
    } else if n == 2 {
        assert(xs.subrange(0, 1)[0] == xs[0]);
        assert(xs.subrange(1, 2)[0] == xs[1]);
        assert(ys.len() == 1);
        assert(lp2(2) == 1);
        assert(tree(key, flags, xs.subrange(0, 1)) == xs[0]);
        assert(tree(key, flags, xs.subrange(1, 2)) == xs[1]);
    } else {
        lemma_lp2(n);
        let l = lp2(n) as int;
        assert(l % 2 == 0 && lp2((n + 1) / 2) == l / 2);
        lemma_pairup_split(key, flags, xs, l);
        let a = xs.subrange(0, l);
        let b = xs.subrange(l, n as int);
        lemma_pairup_tree(key, flags, a);
        lemma_pairup_tree(key, flags, b);
        let pa = pairup(key, flags, a);
        let pb = pairup(key, flags, b);
        assert(pa.len() == l / 2);
        assert(ys.len() == (n + 1) / 2);
        assert(ys.subrange(0, l / 2) =~= pa);
        assert(ys.subrange(l / 2, ys.len() as int) =~= pb);
        lemma_lp2(ys.len());
    }
}

// joining the reductions of a left full subtree and a right subtree
pub proof fn lemma_join(key: Seq<u32>, flags: u8, cl: Seq<Seq<u8>>, cr: Seq<Seq<u8>>, yl: Seq<Seq<u8>>, yr: Seq<Seq<u8>>)
    requires is_pow2(cl.len()), 1 <= cr.len() <= cl.len(), is_pow2(yl.len()), 1 <= yr.len() <= yl.len(),
        tree(key, flags, yl) == tree(key, flags, cl), tree(key, flags, yr) == tree(key, flags, cr),
    ensures tree(key, flags, yl + yr) == tree(key, flags, cl + cr),
        top(key, flags, yl + yr) == top(key, flags, cl + cr),
{
    lemma_lp2_unique(cl.len(), cr.len());
    lemma_lp2_unique(yl.len(), yr.len());
    let c = cl + cr;
    let y = yl + yr;
    assert(c.subrange(0, cl.len() as int) =~= cl);
    assert(c.subrange(cl.len() as int, c.len() as int) =~= cr);
    assert(y.subrange(0, yl.len() as int) =~= yl);
    assert(y.subrange(yl.len() as int, y.len() as int) =~= yr);
}

pub proof fn lemma_fold_prefix(key: Seq<u32>, a: Seq<u8>, b: Seq<u8>, n: nat, off: u64, flags: u8)
    requires 64 * n <= a.len(), 64 * n <= b.len(), a.subrange(0, 64 * n as int) == b.subrange(0, 64 * n as int),
    ensures fold(key, a, n, off, flags) == fold(key, b, n, off, flags),
    decreases n
{
    if n > 0 {
        let m = 64 * (n - 1) as int;
        assert(a.subrange(0, m) =~= a.subrange(0, 64 * n as int).subrange(0, m));
        assert(b.subrange(0, m) =~= b.subrange(0, 64 * n as int).subrange(0, m));
        lemma_fold_prefix(key, a, b, (n - 1) as nat, off, flags);
        assert(a.subrange(m, 64 * n as int) =~= a.subrange(0, 64 * n as int).subrange(m, 64 * n as int));
        assert(b.subrange(m, 64 * n as int) =~= b.subrange(0, 64 * n as int).subrange(m, 64 * n as int));
    }
}

// a whole chunk hashed by hash_many is the chunk's chaining value
pub proof fn lemma_hmfold(key: Seq<u32>, bytes: Seq<u8>, total: nat, n: nat, off: u64, flags: u8)
    requires n < total, bytes.len() == 64 * total,
    ensures hmfold(key, bytes, total, n, off, flags, F_START, F_END) == fold(key, bytes, n, off, flags)
    decreases n
{
    if n > 0 {
        lemma_hmfold(key, bytes, total, (n - 1) as nat, off, flags);
        lemma_or0(flags); lemma_or0(flags | startf(n - 1)); lemma_or2(flags, F_START);
    }
}
pub proof fn lemma_hm_chunk(key: Seq<u32>, bytes: Seq<u8>, off: u64, flags: u8)
    requires bytes.len() == 2048,
    ensures hm(key, bytes, off, flags, F_START, F_END) == node_cv(chunk_node(key, bytes, off, flags, 0))
{
    lemma_hmfold(key, bytes, 32, 31, off, flags);
    lemma_or0(flags); lemma_or0(flags | F_END);
    assert(nfull(2048) == 31);
    assert(pad64(bytes.subrange(1984, 2048)) =~= bytes.subrange(1984, 2048));
}
pub proof fn lemma_hm_parent(key: Seq<u32>, bytes: Seq<u8>, flags: u8)
    requires bytes.len() == 64,
    ensures hm(key, bytes, 0, flags | F_PARENT, 0, 0) == node_cv(parent_node(key, bytes.subrange(0, 32), bytes.subrange(32, 64), flags, 0))
{
    lemma_or0(flags | F_PARENT);
    assert(bytes.subrange(0, 32) + bytes.subrange(32, 64) =~= bytes);
    assert(bytes.subrange(0, 64) =~= bytes);
    reveal_with_fuel(hmfold, 2);
}

// chunk chaining values of a message split at a chunk boundary
pub proof fn lemma_ccvs_split(key: Seq<u32>, msg: Seq<u8>, off: u64, flags: u8, l: int)
    requires 0 < l, 2048 * l < msg.len(), off + msg.len() < 0x1_0000_0000_0000_0000,
    ensures ccvs(key, msg, off, flags)
        == ccvs(key, msg.subrange(0, 2048 * l), off, flags) + ccvs(key, msg.subrange(2048 * l, msg.len() as int), (off + 2048 * l) as u64, flags),
        ccvs(key, msg.subrange(0, 2048 * l), off, flags).len() == l,
{
    let a = msg.subrange(0, 2048 * l);
    let b = msg.subrange(2048 * l, msg.len() as int);
    let n = nchunks(msg.len());
    assert(nchunks(a.len()) == l);
    assert(nchunks(b.len()) == n - l);
    assert forall|i: int| 0 <= i < n implies ccvs(key, msg, off, flags)[i] == (ccvs(key, a, off, flags) + ccvs(key, b, (off + 2048 * l) as u64, flags))[i] by {
        if i < l {
            assert(chunk_of(msg, i) =~= chunk_of(a, i));
        } else {
            assert(chunk_of(msg, i) =~= chunk_of(b, i - l));
        }
    }
    assert(ccvs(key, msg, off, flags) =~= ccvs(key, a, off, flags) + ccvs(key, b, (off + 2048 * l) as u64, flags));
}

} // verus!
