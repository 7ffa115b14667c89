// ---------------------------------------------------------------------------
// shim.rs: stand-ins for std / arrayref / arrayvec / bitflags operations.
// Functions WITH a body here are verified; `external_body` and
// `assume_specification` items are assumed contracts on dependencies.
// ---------------------------------------------------------------------------
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::slice::*;
#[allow(unused_imports)]
use vstd::array::*;
#[allow(unused_imports)]
use core::cmp;

verus! {

global size_of usize == 8;

// does not return (used by the vacuity probes only)
#[verifier::external_body]
pub fn vx_diverge() -> ! { loop {} }
// an exec check that must hold: debug_assert!, assert!
pub fn vx_check(b: bool)
    requires b,
{ }

#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false,
{ unreachable!() }

pub trait VxSlice {
    spec fn sl(&self) -> Seq<u8>;
    fn vx_sl(&self) -> (r: &[u8])
        ensures r@ == self.sl();
}
impl VxSlice for [u8] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    fn vx_sl(&self) -> (r: &[u8]) { self }
}
impl<const N: usize> VxSlice for [u8; N] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    fn vx_sl(&self) -> (r: &[u8]) { self.as_slice() }
}
impl<T: VxSlice + ?Sized> VxSlice for &T {
    open spec fn sl(&self) -> Seq<u8> { (**self).sl() }
    fn vx_sl(&self) -> (r: &[u8]) { (**self).vx_sl() }
}
impl<T: VxSlice + ?Sized> VxSlice for &mut T {
    open spec fn sl(&self) -> Seq<u8> { (**self).sl() }
    fn vx_sl(&self) -> (r: &[u8]) { (**self).vx_sl() }
}
pub fn vx_s<T: VxSlice + ?Sized>(x: &T) -> (r: &[u8])
    ensures r@ == x.sl(),
{ x.vx_sl() }

// core::cmp::min / max on the machine integers used here
pub trait VxOrd: Sized + Copy {
    spec fn oi(self) -> int;
    fn vx_le(self, o: Self) -> (r: bool) ensures r == (self.oi() <= o.oi());
}
impl VxOrd for usize { open spec fn oi(self) -> int { self as int } fn vx_le(self, o: Self) -> (r: bool) { self <= o } }
impl VxOrd for u64 { open spec fn oi(self) -> int { self as int } fn vx_le(self, o: Self) -> (r: bool) { self <= o } }
impl VxOrd for u128 { open spec fn oi(self) -> int { self as int } fn vx_le(self, o: Self) -> (r: bool) { self <= o } }
impl VxOrd for u32 { open spec fn oi(self) -> int { self as int } fn vx_le(self, o: Self) -> (r: bool) { self <= o } }
pub fn vx_min<T: VxOrd>(a: T, b: T) -> (r: T)
    ensures r == (if a.oi() <= b.oi() { a } else { b }),
{ if a.vx_le(b) { a } else { b } }
pub fn vx_max<T: VxOrd>(a: T, b: T) -> (r: T)
    ensures r == (if a.oi() <= b.oi() { b } else { a }),
{ if a.vx_le(b) { b } else { a } }

// arrayref::array_ref!
#[verifier::external_body]
pub fn vx_array_ref<const N: usize>(s: &[u8], off: usize) -> (r: &[u8; N])
    requires off + N <= s.len(),
    ensures r@ == s@.subrange(off as int, off + N),
{ unimplemented!() }

// arrayref::array_mut_ref!
#[verifier::external_body]
pub fn vx_array_mut_ref<'a, const N: usize>(s: &'a mut [u8], off: usize) -> (r: &'a mut [u8; N])
    requires off + N <= old(s).len(),
    ensures
        r@ == old(s)@.subrange(off as int, off + N),
        final(s)@ == old(s)@.subrange(0, off as int) + final(r)@ + old(s)@.subrange(off + N, old(s).len() as int),
        final(s)@.subrange(off as int, off + N) == final(r)@,
{ unimplemented!() }

// a mutable window of a slice (one element of chunks_mut)
#[verifier::external_body]
pub fn vx_sub_mut<'a, T>(s: &'a mut [T], lo: usize, hi: usize) -> (r: &'a mut [T])
    requires lo <= hi <= old(s).len(),
    ensures
        r@ == old(s)@.subrange(lo as int, hi as int),
        final(s)@ == old(s)@.subrange(0, lo as int) + final(r)@ + old(s)@.subrange(hi as int, old(s).len() as int),
        final(r).len() == r.len(),
{ unimplemented!() }
// x = &mut x[n..], with the position kept beside the whole slice
pub fn vx_advance(po: usize, n: usize, len: usize) -> (r: usize)
    requires po + n <= len,
    ensures r == po + n,
{ po + n }
#[verifier::external_body]
pub fn vx_tail_mut<'a>(s: &'a mut [u8], n: usize) -> (r: &'a mut [u8])
    requires n <= old(s).len(),
    ensures
        r@ == old(s)@.subrange(n as int, old(s).len() as int),
        final(r).len() == r.len(),
        final(s)@ == old(s)@.subrange(0, n as int) + final(r)@,
        // consequences of the two lines above, in the form the stores use
        forall|lo: int, hi: int| 0 <= lo <= hi <= n ==> #[trigger] final(s)@.subrange(lo, hi) == old(s)@.subrange(lo, hi),
        forall|lo: int, hi: int| n <= lo <= hi <= old(s).len() ==> #[trigger] final(s)@.subrange(lo, hi) == final(r)@.subrange(lo - n, hi - n),
        forall|lo: int, hi: int| 0 <= lo <= hi <= old(s).len() - n ==> #[trigger] r@.subrange(lo, hi) == old(s)@.subrange(n + lo, n + hi),
{ &mut s[n..] }
pub fn vx_chunk_end(lo: usize, n: usize, len: usize) -> (r: usize)
    requires lo <= len, n > 0,
    ensures r == (if len - lo < n { len as int } else { lo + n }), lo < len ==> lo < r, r <= len,
{ if len - lo < n { len } else { lo + n } }
// <[T; N]>::try_from(slice).unwrap()
#[verifier::external_body]
pub fn vx_to_array<T: Copy, const N: usize>(s: &[T]) -> (r: [T; N])
    requires s.len() == N,
    ensures r@ == s@,
{ unimplemented!() }
pub open spec fn rotr(x: u32, n: u32) -> u32 { (x >> n) | (x << ((32 - n) as u32)) }
pub assume_specification [u32::rotate_right] (x: u32, n: u32) -> (r: u32)
    ensures 0 < n < 32 ==> r == rotr(x, n);

// arrayref::mut_array_refs!
#[verifier::external_body]
pub fn vx_mut_array_refs2<'a, const A: usize, const B: usize, T, const N: usize>(s: &'a mut [T; N])
    -> (r: (&'a mut [T; A], &'a mut [T; B]))
    requires A + B == N,
    ensures
        r.0@ == old(s)@.subrange(0, A as int),
        r.1@ == old(s)@.subrange(A as int, A + B),
        final(s)@ == final(r.0)@ + final(r.1)@,
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_mut_array_refs4<'a, const A: usize, const B: usize, const C: usize, const D: usize, T, const N: usize>(s: &'a mut [T; N])
    -> (r: (&'a mut [T; A], &'a mut [T; B], &'a mut [T; C], &'a mut [T; D]))
    requires A + B + C + D == N,
    ensures
        r.0@ == old(s)@.subrange(0, A as int),
        r.1@ == old(s)@.subrange(A as int, A + B),
        r.2@ == old(s)@.subrange(A + B, A + B + C),
        r.3@ == old(s)@.subrange(A + B + C, A + B + C + D),
        final(s)@ == final(r.0)@ + final(r.1)@ + final(r.2)@ + final(r.3)@,
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_mut_array_refs8<'a, const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize, const G: usize, const H: usize, T, const N: usize>(s: &'a mut [T; N])
    -> (r: (&'a mut [T; A], &'a mut [T; B], &'a mut [T; C], &'a mut [T; D], &'a mut [T; E], &'a mut [T; F], &'a mut [T; G], &'a mut [T; H]))
    requires A + B + C + D + E + F + G + H == N,
    ensures
        r.0@ == old(s)@.subrange(0, A as int),
        r.1@ == old(s)@.subrange(A as int, A + B),
        r.2@ == old(s)@.subrange(A + B, A + B + C),
        r.3@ == old(s)@.subrange(A + B + C, A + B + C + D),
        r.4@ == old(s)@.subrange(A + B + C + D, A + B + C + D + E),
        r.5@ == old(s)@.subrange(A + B + C + D + E, A + B + C + D + E + F),
        r.6@ == old(s)@.subrange(A + B + C + D + E + F, A + B + C + D + E + F + G),
        r.7@ == old(s)@.subrange(A + B + C + D + E + F + G, A + B + C + D + E + F + G + H),
        final(s)@ == final(r.0)@ + final(r.1)@ + final(r.2)@ + final(r.3)@ + final(r.4)@ + final(r.5)@ + final(r.6)@ + final(r.7)@,
{ unimplemented!() }

// ---- little-endian words ----
pub open spec fn le4(w: u32) -> Seq<u8> {
    seq![w as u8, (w >> 8u32) as u8, (w >> 16u32) as u8, (w >> 24u32) as u8]
}
pub open spec fn of_le4(b: Seq<u8>) -> u32 {
    (b[0] as u32) | ((b[1] as u32) << 8u32) | ((b[2] as u32) << 16u32) | ((b[3] as u32) << 24u32)
}
pub trait VxLe { fn vx_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == self.lev(); spec fn lev(self) -> Seq<u8>; }
impl VxLe for u32 {
    open spec fn lev(self) -> Seq<u8> { le4(self) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
#[verifier::external_body]
pub fn vx_from_le_bytes_u32(b: [u8; 4]) -> (r: u32)
    ensures r == of_le4(b@)
{ u32::from_le_bytes(b) }

// ---- bit counting ----
pub open spec fn popcnt(n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { n % 2 + popcnt(n / 2) }
}
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32)
    ensures r == popcnt(x as nat), r <= 64;
pub assume_specification [u32::count_ones] (x: u32) -> (r: u32)
    ensures r == popcnt(x as nat), r <= 32;
pub assume_specification [usize::count_ones] (x: usize) -> (r: u32)
    ensures r == popcnt(x as nat), r <= 64;

// smallest power of two >= n
pub open spec fn np2(n: nat) -> nat
    decreases n
{
    if n <= 1 { 1 } else { 2 * np2((n + 1) / 2) }
}
pub assume_specification [usize::next_power_of_two] (x: usize) -> (r: usize)
    requires x <= 0x8000_0000_0000_0000,
    ensures r == np2(x as nat);

// ---- slice::chunks_exact ----
pub struct VxChunksExact<'a> { pub v: &'a [u8], pub n: usize, pub pos: usize }

impl<'a> VxChunksExact<'a> {
    pub open spec fn wf(&self) -> bool {
        self.n > 0 && self.pos <= self.v.len() && self.pos % self.n == 0
    }
    // bytes not yet yielded, the remainder included
    pub open spec fn rest(&self) -> Seq<u8> { self.v@.subrange(self.pos as int, self.v.len() as int) }

    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).v@ == old(self).v@, final(self).n == old(self).n,
            old(self).v.len() - old(self).pos >= old(self).n ==>
                r is Some && r->Some_0@ == old(self).v@.subrange(old(self).pos as int, old(self).pos + old(self).n)
                && final(self).pos == old(self).pos + old(self).n,
            old(self).v.len() - old(self).pos < old(self).n ==> r is None && final(self).pos == old(self).pos,
    {
        if self.v.len() - self.pos >= self.n {
            let r = slice_subrange(self.v, self.pos, self.pos + self.n);
            proof {
                vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(self.pos as int, self.n as int);
            }
            self.pos = self.pos + self.n;
            Some(r)
        } else {
            None
        }
    }
    pub fn remainder(&self) -> (r: &'a [u8])
        requires self.wf(),
        ensures r@ == self.v@.subrange(self.v.len() - (self.v.len() as int) % (self.n as int), self.v.len() as int),
    {
        let k = self.v.len() % self.n;
        proof { vstd::arithmetic::div_mod::lemma_mod_decreases(self.v.len() as nat, self.n as nat); }
        slice_subrange(self.v, self.v.len() - k, self.v.len())
    }
    pub fn take(self, k: usize) -> (r: VxTake<'a>)
        ensures r.it == self, r.k == k
    { VxTake { it: self, k } }
}

pub struct VxTake<'a> { pub it: VxChunksExact<'a>, pub k: usize }
impl<'a> VxTake<'a> {
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).it.wf(),
        ensures final(self).it.wf(), final(self).it.v@ == old(self).it.v@, final(self).it.n == old(self).it.n,
            old(self).it.v.len() - old(self).it.pos >= old(self).it.n && old(self).k > 0 ==>
                r is Some && r->Some_0@ == old(self).it.v@.subrange(old(self).it.pos as int, old(self).it.pos + old(self).it.n)
                && final(self).it.pos == old(self).it.pos + old(self).it.n && final(self).k == old(self).k - 1,
            (old(self).it.v.len() - old(self).it.pos < old(self).it.n || old(self).k == 0) ==> r is None && final(self).it.pos == old(self).it.pos,
            old(self).k == 0 ==> final(self).k == 0,
    {
        if self.k == 0 { None } else { self.k = self.k - 1; self.it.next() }
    }
}

pub trait VxChunksExt {
    spec fn ce_view(&self) -> Seq<u8>;
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: VxChunksExact<'a>)
        requires n > 0,
        ensures r.wf(), r.v@ == self.ce_view(), r.n == n, r.pos == 0;
}
impl VxChunksExt for [u8] {
    open spec fn ce_view(&self) -> Seq<u8> { self@ }
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: VxChunksExact<'a>)
    { proof { vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat); } VxChunksExact { v: self, n, pos: 0 } }
}
impl<const N: usize> VxChunksExt for [u8; N] {
    open spec fn ce_view(&self) -> Seq<u8> { self@ }
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: VxChunksExact<'a>)
    { proof { vstd::arithmetic::div_mod::lemma_small_mod(0, n as nat); } VxChunksExact { v: self.as_slice(), n, pos: 0 } }
}

// ---- arrayvec::ArrayVec (capacity N; push on a full one panics) ----
pub struct ArrayVec<T, const N: usize> { pub v: Vec<T> }
impl<T, const N: usize> ArrayVec<T, N> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub open spec fn cap_ok(&self) -> bool { self.v.len() <= N }
    pub fn new() -> (r: Self)
        ensures r.view() == Seq::<T>::empty(), r.cap_ok()
    { ArrayVec { v: Vec::new() } }
    pub fn push(&mut self, x: T)
        requires old(self).v.len() < N,
        ensures final(self).view() == old(self).view().push(x), final(self).cap_ok()
    { self.v.push(x) }
    pub fn len(&self) -> (r: usize) ensures r == self.view().len(), r == self.v.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { self.v.len() == 0 }
    pub fn truncate(&mut self, n: usize)
        ensures final(self).view() == (if n <= old(self).view().len() { old(self).view().subrange(0, n as int) } else { old(self).view() }),
            old(self).cap_ok() ==> final(self).cap_ok()
    {
        let ghost s0 = self.v@;
        let ghost l0 = self.v.len();
        assert(self.v@ =~= s0.subrange(0, l0 as int));
        while self.v.len() > n
            invariant n <= self.v.len() || self.v.len() == l0, self.v.len() <= l0, self.v@ == s0.subrange(0, self.v.len() as int), l0 == s0.len()
            decreases self.v.len()
        { let ghost q = self.v@; let _ = self.v.pop(); assert(self.v@ =~= s0.subrange(0, self.v.len() as int)); }
        assert(n >= l0 ==> self.v@ =~= s0);
    }
    pub fn clear(&mut self)
        ensures final(self).view() == Seq::<T>::empty(), final(self).cap_ok()
    { self.v = Vec::new(); }
    pub fn last(&self) -> (r: Option<&T>)
        ensures self.view().len() > 0 ==> r is Some && *r->Some_0 == self.view()[self.view().len() - 1],
            self.view().len() == 0 ==> r is None
    { if self.v.len() == 0 { None } else { Some(&self.v[self.v.len() - 1]) } }
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures old(self).view().len() > 0 ==> r is Some && r->Some_0 == old(self).view().last() && final(self).view() == old(self).view().drop_last(),
            old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
            old(self).cap_ok() ==> final(self).cap_ok()
    { self.v.pop() }
    pub fn vx_at(&self, i: usize) -> (r: &T)
        requires i < self.view().len(),
        ensures *r == self.view()[i as int]
    { &self.v[i] }
    pub fn vx_set(&mut self, i: usize, x: T)
        requires i < old(self).view().len(),
        ensures final(self).view() == old(self).view().update(i as int, x), final(self).v.len() == old(self).v.len()
    { self.v.set(i, x) }
    pub fn vx_slice(&self) -> (r: &[T])
        ensures r@ == self.view()
    { self.v.as_slice() }
}

// byte arrays usable as hash_many inputs (arrayvec::Array<Item = u8>)
pub trait VxArray {
    spec fn ab(&self) -> Seq<u8>;
    spec fn cap() -> nat;
    fn vx_cap() -> (r: usize)
        ensures r == Self::cap();
    fn as_slice(&self) -> (r: &[u8])
        ensures r@ == self.ab();
    proof fn law(&self)
        ensures self.ab().len() == Self::cap();
}
impl<const N: usize> VxArray for [u8; N] {
    open spec fn ab(&self) -> Seq<u8> { self@ }
    open spec fn cap() -> nat { N as nat }
    fn vx_cap() -> usize { N }
    fn as_slice(&self) -> &[u8] { vx_arr_sl(self) }
    proof fn law(&self) { vstd::array::array_len_matches_n(self); }
}
fn vx_arr_sl<const N: usize>(a: &[u8; N]) -> (r: &[u8])
    ensures r@ == a@
{ a.as_slice() }

// A.extend(chunks.by_ref().map(|c| array_ref!(c, 0, N)).fuse().by_ref().take(k))
pub fn vx_extend_chunks<'a, const N: usize, const C: usize>(a: &mut ArrayVec<&'a [u8; N], C>, it: &mut VxChunksExact<'a>, k: usize)
    requires old(it).wf(), old(it).n == N, old(a).v.len() + k <= C,
    ensures
        final(it).wf(), final(it).v@ == old(it).v@, final(it).n == old(it).n,
        final(a).v.len() <= C, final(a).v.len() >= old(a).v.len(),
        final(a).v.len() <= old(a).v.len() + k,
        final(it).pos == old(it).pos + N * (final(a).v.len() - old(a).v.len()),
        final(a).v.len() < old(a).v.len() + k ==> final(it).v.len() - final(it).pos < N,
        forall|i: int| 0 <= i < old(a).v.len() ==> final(a).view()[i] == old(a).view()[i],
        forall|i: int| old(a).v.len() <= i < final(a).v.len() ==> (#[trigger] final(a).view()[i])@
            == old(it).v@.subrange(old(it).pos + N * (i - old(a).v.len()), old(it).pos + N * (i - old(a).v.len()) + N),
{
    let mut j: usize = 0;
    let ghost a0 = a.view();
    let ghost l0 = a.v.len();
    let ghost p0 = it.pos;
    let ghost v0 = it.v@;
    assert(N * 0 == 0) by (nonlinear_arith);
    while j < k
        invariant
            a0 == old(a).view(),
            l0 == old(a).v.len(), p0 == old(it).pos, v0 == old(it).v@, old(it).n == N,
            j <= k, it.wf(), it.v@ == v0, it.n == N, N > 0, a.v.len() == l0 + j, l0 + k <= C, l0 == a0.len(),
            it.pos == p0 + N * j, it.pos <= it.v.len(),
            forall|i: int| 0 <= i < l0 ==> (#[trigger] a.view()[i]) == a0[i],
            forall|i: int| l0 <= i < a.v.len() ==> (#[trigger] a.view()[i])@ == v0.subrange(p0 + N * (i - l0), p0 + N * (i - l0) + N),
        decreases k - j
    {
        match it.next() {
            None => { return; }
            Some(c) => {
                let r: &'a [u8; N] = vx_array_ref::<N>(c, 0);
                proof {
                    assert(c@.subrange(0, N as int) =~= c@);
                    assert(N * (j + 1) == N * j + N) by (nonlinear_arith);
                }
                a.push(r);
                j = j + 1;
            }
        }
    }
}

// ---- rayon::join: runs both closures (assumed) ----
pub mod rayon { use super::*; verus! {
#[verifier::external_body]
pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (r: (RA, RB))
    where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send,
    requires oper_a.requires(()), oper_b.requires(()),
    ensures oper_a.ensures((), r.0), oper_b.ensures((), r.1),
{ unimplemented!() }
} }

// ---- CPU feature detection ----
pub uninterp spec fn has_sse41() -> bool;
pub uninterp spec fn has_avx2() -> bool;
#[verifier::external_body]
pub fn vx_detected_sse4_1() -> (r: bool) ensures r ==> has_sse41() { unimplemented!() }
#[verifier::external_body]
pub fn vx_detected_avx2() -> (r: bool) ensures r ==> has_avx2(), r ==> has_sse41() { unimplemented!() }

// ---- std::io::Error ----
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum IoErrorKind { Interrupted, WouldBlock, UnexpectedEof, InvalidData, InvalidInput, WriteZero, BrokenPipe, PermissionDenied, NotFound, TimedOut, ConnectionReset, Other }
pub struct IoError { pub k: IoErrorKind, pub id: u64 }
impl IoError {
    pub fn kind(&self) -> (r: IoErrorKind)
        ensures r == self.k
    { self.k }
}

} // verus!
