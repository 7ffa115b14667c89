// ---------------------------------------------------------------------------
// stack.rs: the incremental hasher's subtree stack, as a function of the
// chunk chaining values pushed so far.
// ---------------------------------------------------------------------------
verus! {

// stack of perfect subtrees covering cs[0 .. m*s], every subtree a multiple of s
// chunks wide: the binary representation of m.
pub open spec fn stk(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat) -> Seq<Seq<u8>>
    decreases m
{
    if m == 0 { Seq::empty() }
    else if m % 2 == 1 {
        stk(key, flags, cs, m / 2, 2 * s).push(tree(key, flags, cs.subrange((m - 1) * s, (m * s) as int)))
    } else { stk(key, flags, cs, m / 2, 2 * s) }
}

// a stack on which the last subtree (of s chunks) has not been merged yet
pub open spec fn pend(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat) -> Seq<Seq<u8>> {
    stk(key, flags, cs, (m - 1) as nat, s).push(tree(key, flags, cs.subrange((m - 1) * s, (m * s) as int)))
}

pub open spec fn merged(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, n: nat) -> Seq<Seq<u8>> { stk(key, flags, cs, n, 1) }
pub open spec fn unmerged(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, n: nat) -> Seq<Seq<u8>> {
    merged(key, flags, cs, (n - 1) as nat).push(cs[n - 1])
}

pub proof fn lemma_mulmono(a: int, b: int, s: int)
    requires 0 <= a <= b, 0 <= s,
    ensures 0 <= a * s <= b * s
{ assert(0 <= a * s <= b * s) by (nonlinear_arith) requires 0 <= a <= b, 0 <= s; }

pub proof fn lemma_stk_len(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat)
    ensures stk(key, flags, cs, m, s).len() == popcnt(m),
    decreases m
{
    if m > 0 { lemma_stk_len(key, flags, cs, m / 2, 2 * s); }
}

pub proof fn lemma_stk_half(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat)
    requires m % 2 == 0,
    ensures stk(key, flags, cs, m, s) == stk(key, flags, cs, m / 2, 2 * s),
{
    if m == 0 { assert(stk(key, flags, cs, 0, s) =~= stk(key, flags, cs, 0, 2 * s)); }
}

// depends only on the chunks it covers
pub proof fn lemma_stk_prefix(key: Seq<u32>, flags: u8, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, m: nat, s: nat)
    requires m * s <= a.len(), m * s <= b.len(), forall|i: int| 0 <= i < m * s ==> a[i] == b[i],
    ensures stk(key, flags, a, m, s) == stk(key, flags, b, m, s),
    decreases m
{
    if m > 0 {
        assert((m / 2) * (2 * s) <= m * s) by (nonlinear_arith) requires m >= 0, s >= 0;
        lemma_stk_prefix(key, flags, a, b, m / 2, 2 * s);
        lemma_mulmono(m - 1, m as int, s as int);
        assert(a.subrange((m - 1) * s, (m * s) as int) =~= b.subrange((m - 1) * s, (m * s) as int));
    }
}

// two adjacent perfect subtrees of s chunks make one of 2s
pub proof fn lemma_tree_double(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, a: int, s: nat)
    requires is_pow2(s), 0 <= a, a + 2 * s <= cs.len(),
    ensures tree(key, flags, cs.subrange(a, a + 2 * s)) == node_cv(parent_node(key, tree(key, flags, cs.subrange(a, a + s)), tree(key, flags, cs.subrange(a + s, a + 2 * s)), flags, 0))
{
    lemma_pow2_pos(s);
    let x = cs.subrange(a, a + 2 * s);
    lemma_lp2_unique(s, s);
    assert(x.subrange(0, s as int) =~= cs.subrange(a, a + s));
    assert(x.subrange(s as int, 2 * s as int) =~= cs.subrange(a + s, a + 2 * s));
}

pub proof fn lemma_pow2_pos(s: nat)
    requires is_pow2(s),
    ensures s >= 1
{ }

pub proof fn lemma_pow2_double(s: nat)
    requires is_pow2(s),
    ensures is_pow2(2 * s)
{ assert((2 * s) / 2 == s); assert((2 * s) % 2 == 0); }

pub proof fn lemma_popcnt_odd(m: nat)
    requires m % 2 == 1,
    ensures popcnt((m - 1) as nat) + 1 == popcnt(m)
{
    assert((m - 1) / 2 == m / 2);
    if m == 1 { assert(popcnt(0) == 0); }
}
pub proof fn lemma_popcnt_even(m: nat)
    requires m % 2 == 0, m > 0,
    ensures popcnt((m - 1) as nat) >= popcnt(m)
    decreases m
{
    assert((m - 1) / 2 == m / 2 - 1);
    let h = m / 2;
    if h % 2 == 1 { lemma_popcnt_odd(h); } else { lemma_popcnt_even(h); }
}
pub proof fn lemma_popcnt_scale(m: nat, s: nat)
    requires is_pow2(s),
    ensures popcnt(m * s) == popcnt(m)
    decreases s
{
    if s == 1 { assert(m * 1 == m); } else {
        let h = s / 2;
        assert(m * s == 2 * (m * h)) by (nonlinear_arith) requires s == 2 * h;
        lemma_popcnt_scale(m, h);
        if m * s == 0 { assert(m * h == 0); } else {
            assert(popcnt(m * s) == (m * s) % 2 + popcnt(m * s / 2));
        }
    }
}
pub open spec fn p2(k: nat) -> nat
    decreases k
{ if k == 0 { 1 } else { 2 * p2((k - 1) as nat) } }

pub proof fn lemma_popcnt_bound(n: nat, k: nat)
    requires n < p2(k),
    ensures popcnt(n) <= k, n < p2(k) - 1 ==> popcnt(n) < k,
    decreases k
{
    if n > 0 {
        assert(k > 0);
        lemma_popcnt_bound(n / 2, (k - 1) as nat);
    } else if k > 0 { }
}

// "needs_merge" on a pending stack is exactly "m is even"
pub proof fn lemma_needs_merge(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat)
    requires m >= 1, is_pow2(s),
    ensures (pend(key, flags, cs, m, s).len() > popcnt(m * s)) == (m % 2 == 0),
{
    lemma_stk_len(key, flags, cs, (m - 1) as nat, s);
    lemma_popcnt_scale(m, s);
    if m % 2 == 1 { lemma_popcnt_odd(m); } else { lemma_popcnt_even(m); }
}
// merging the two top entries of a pending stack with m even
pub proof fn lemma_pend_merge(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat)
    requires m >= 1, is_pow2(s), m % 2 == 0, m * s <= cs.len(),
    ensures
        ({  let p = pend(key, flags, cs, m, s);
            let l = p.len() as int;
            l >= 2 && pend(key, flags, cs, m / 2, 2 * s)
                == p.subrange(0, l - 2).push(node_cv(parent_node(key, p[l - 2], p[l - 1], flags, 0))) }),
        is_pow2(2 * s), (m / 2) * (2 * s) == m * s,
{
    lemma_pow2_double(s);
    let p = pend(key, flags, cs, m, s);
    let q = stk(key, flags, cs, (m - 1) as nat, s);
    assert((m - 1) % 2 == 1);
    assert((m - 1) / 2 == m / 2 - 1);
    let h = (m / 2) as int;
    assert((h - 1) * (2 * s) == (m - 2) * s) by (nonlinear_arith) requires m == 2 * h;
    assert(h * (2 * s) == m * s) by (nonlinear_arith) requires m == 2 * h;
    assert((m - 2) * s + s == (m - 1) * s) by (nonlinear_arith);
    assert((m - 1) * s + s == m * s) by (nonlinear_arith);
    lemma_mulmono(0, m - 2, s as int);
    lemma_tree_double(key, flags, cs, (m - 2) * s, s);
    assert(q == stk(key, flags, cs, (h - 1) as nat, 2 * s).push(tree(key, flags, cs.subrange((m - 2) * s, (m - 1) * s))));
    let l = p.len() as int;
    assert(p.subrange(0, l - 2) =~= stk(key, flags, cs, (h - 1) as nat, 2 * s));
}
// a pending stack with m odd is the merged one
pub proof fn lemma_pend_odd(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat)
    requires m % 2 == 1,
    ensures pend(key, flags, cs, m, s) == stk(key, flags, cs, m, s)
{
    lemma_stk_half(key, flags, cs, (m - 1) as nat, s);
    assert((m - 1) / 2 == m / 2);
}
pub proof fn lemma_unmerged_pend(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, n: nat)
    requires 1 <= n <= cs.len(),
    ensures unmerged(key, flags, cs, n) == pend(key, flags, cs, n, 1)
{
    assert((n - 1) * 1 == n - 1);
    assert(n * 1 == n);
    assert(cs.subrange(n - 1, n as int).len() == 1);
    assert(cs.subrange(n - 1, n as int)[0] == cs[n - 1]);
}

// ------------------------------------------------------------- finalization
pub open spec fn foldroot(key: Seq<u32>, flags: u8, st: Seq<Seq<u8>>, w: Seq<u8>) -> Node
    decreases st.len()
{
    if st.len() <= 1 { parent_node(key, st[0], w, flags, F_ROOT) }
    else { foldroot(key, flags, st.drop_last(), node_cv(parent_node(key, st.last(), w, flags, 0))) }
}

pub proof fn lemma_foldroot(key: Seq<u32>, flags: u8, cs: Seq<Seq<u8>>, m: nat, s: nat, xs: Seq<Seq<u8>>)
    requires m >= 1, is_pow2(s), 1 <= xs.len() <= s, m * s == cs.len(),
    ensures foldroot(key, flags, stk(key, flags, cs, m, s), tree(key, flags, xs)) == top(key, flags, cs + xs),
    decreases m
{
    lemma_pow2_double(s);
    let h = m / 2;
    if m % 2 == 0 {
        assert(h * (2 * s) == m * s) by (nonlinear_arith) requires m == 2 * h;
        lemma_foldroot(key, flags, cs, h, 2 * s, xs);
    } else {
        assert(h * (2 * s) + s == m * s) by (nonlinear_arith) requires m == 2 * h + 1;
        assert((m - 1) * s == h * (2 * s)) by (nonlinear_arith) requires m == 2 * h + 1;
        lemma_mulmono(0, h as int, 2 * s as int);
        let k = (h * (2 * s)) as int;
        let x = cs.subrange(k, k + s);
        let lo = cs.subrange(0, k);
        lemma_lp2_unique(s, xs.len());
        let ys = x + xs;
        assert(ys.subrange(0, s as int) =~= x);
        assert(ys.subrange(s as int, ys.len() as int) =~= xs);
        let st = stk(key, flags, cs, m, s);
        let pre = stk(key, flags, cs, h, 2 * s);
        assert(st == pre.push(tree(key, flags, x)));
        lemma_stk_len(key, flags, cs, h, 2 * s);
        if h == 0 {
            assert(k == 0) by (nonlinear_arith) requires h == 0, k == h * (2 * s);
            assert(st.len() == 1);
            assert(cs =~= x);
        } else {
            lemma_popcnt_pos(h);
            assert(st.drop_last() =~= pre);
            assert(cs + xs =~= lo + ys);
            lemma_stk_prefix(key, flags, cs, lo, h, 2 * s);
            lemma_foldroot(key, flags, lo, h, 2 * s, ys);
            assert(tree(key, flags, ys) == node_cv(parent_node(key, tree(key, flags, x), tree(key, flags, xs), flags, 0)));
        }
    }
}
pub proof fn lemma_popcnt_pos(m: nat)
    requires m >= 1,
    ensures popcnt(m) >= 1
    decreases m
{ if m % 2 == 0 { lemma_popcnt_pos(m / 2); } }

// chunk values of whole chunks do not change when the message grows
pub proof fn lemma_ccvs_grow(key: Seq<u32>, msg: Seq<u8>, more: Seq<u8>, flags: u8, n: nat)
    requires 2048 * n <= msg.len(),
    ensures forall|i: int| 0 <= i < n ==> ccvs(key, msg, 0, flags)[i] == ccvs(key, msg + more, 0, flags)[i],
        n <= nchunks(msg.len()), n <= nchunks((msg + more).len()),
{
    assert forall|i: int| 0 <= i < n implies ccvs(key, msg, 0, flags)[i] == ccvs(key, msg + more, 0, flags)[i] by {
        assert(chunk_of(msg, i) =~= chunk_of(msg + more, i));
    }
}

} // verus!
