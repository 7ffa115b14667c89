// Contracts for src/copy.rs.
#include shim.rs
#text {
verus! {
// ---- std::io: what the callers of Read / Write may rely on (assumed of every reader and writer) ----
// one call of read: the bytes it delivered, or its error
pub enum RdEv { Got(Seq<u8>), Err(IoError) }
pub trait IoRead {
    // every call of read so far, in order
    spec fn rd(&self) -> Seq<RdEv>;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures
            final(buf).len() == old(buf).len(),
            match r {
                Ok(n) => n <= old(buf).len() && final(self).rd() == old(self).rd().push(RdEv::Got(final(buf)@.subrange(0, n as int))),
                Err(e) => final(self).rd() == old(self).rd().push(RdEv::Err(e)),
            },
            forall|n0: int| #![trigger since(final(self).rd(), n0)] #![trigger since(old(self).rd(), n0)] 0 <= n0 <= final(self).rd().len() ==> nbytes(since(final(self).rd(), n0)) < 0x1_0000_0000_0000_0000,
    ;
}
pub trait IoWrite {
    // the bytes accepted so far
    spec fn got(&self) -> Seq<u8>;
    // the errors returned so far
    spec fn errs(&self) -> Seq<IoError>;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures match r {
            Ok(n) => n <= buf.len() && final(self).got() == old(self).got() + buf@.subrange(0, n as int) && final(self).errs() == old(self).errs(),
            Err(e) => final(self).errs() == old(self).errs().push(e) && final(self).got() == old(self).got(),
        };
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoError>)
        ensures match r {
            Ok(()) => final(self).got() == old(self).got() + buf@ && final(self).errs() == old(self).errs(),
            Err(e) => final(self).errs() == old(self).errs().push(e),
        };
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures final(self).got() == old(self).got(), match r {
            Ok(()) => final(self).errs() == old(self).errs(),
            Err(e) => final(self).errs() == old(self).errs().push(e),
        };
}
pub open spec fn bytes_of(e: RdEv) -> Seq<u8> { match e { RdEv::Got(b) => b, RdEv::Err(_) => Seq::<u8>::empty() } }
// the bytes delivered by a list of calls, in order
pub open spec fn delivered(s: Seq<RdEv>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        delivered(s.drop_last()) + bytes_of(s.last())
    }
}
pub open spec fn nbytes(s: Seq<RdEv>) -> nat { delivered(s).len() }
// calls after which copying goes on: some bytes, or an interruption
pub open spec fn goes_on(e: RdEv) -> bool { match e { RdEv::Got(b) => b.len() > 0, RdEv::Err(e) => e.k == IoErrorKind::Interrupted } }
pub open spec fn all_go_on(s: Seq<RdEv>) -> bool { forall|i: int| 0 <= i < s.len() ==> goes_on(#[trigger] s[i]) }
// the calls made after the first n0
pub open spec fn since(s: Seq<RdEv>, n0: int) -> Seq<RdEv> { s.subrange(n0, s.len() as int) }
pub mod cl { use super::*; verus! {
pub proof fn lemma_delivered_push(a: Seq<RdEv>, e: RdEv)
    ensures delivered(a.push(e)) == delivered(a) + bytes_of(e)
{ assert(a.push(e).drop_last() =~= a); }
pub proof fn lemma_go_on_push(a: Seq<RdEv>, e: RdEv)
    ensures all_go_on(a.push(e)) == (all_go_on(a) && goes_on(e))
{
    assert(forall|i: int| 0 <= i < a.len() ==> #[trigger] a.push(e)[i] == a[i]);
    assert(a.push(e)[a.len() as int] == e);
    if all_go_on(a.push(e)) { assert forall|i: int| 0 <= i < a.len() implies goes_on(#[trigger] a[i]) by { assert(goes_on(a.push(e)[i])); } }
}
pub proof fn lemma_drop_push(a: Seq<RdEv>, e: RdEv)
    ensures a.push(e).drop_last() == a
{ assert(a.push(e).drop_last() =~= a); }
pub broadcast proof fn lemma_since_push(s: Seq<RdEv>, e: RdEv, n0: int)
    requires 0 <= n0 <= s.len()
    ensures
        since(#[trigger] s.push(e), n0) == (#[trigger] since(s, n0)).push(e),
        since(s.push(e), n0).len() == since(s, n0).len() + 1,
        since(s.push(e), n0).last() == e,
        since(s.push(e), n0).drop_last() == since(s, n0),
        delivered(since(s.push(e), n0)) == delivered(since(s, n0)) + bytes_of(e),
        nbytes(since(s.push(e), n0)) == nbytes(since(s, n0)) + bytes_of(e).len(),
        all_go_on(since(s.push(e), n0)) == (all_go_on(since(s, n0)) && goes_on(e)),
{
    let a = since(s, n0);
    assert(since(s.push(e), n0) =~= a.push(e));
    lemma_delivered_push(a, e); lemma_go_on_push(a, e); lemma_drop_push(a, e);
}
pub broadcast proof fn lemma_none(b: Seq<u8>)
    ensures #[trigger] b.subrange(0, 0) == Seq::<u8>::empty()
{ assert(b.subrange(0, 0) =~= Seq::<u8>::empty()); }
pub broadcast proof fn lemma_since_all(s: Seq<RdEv>)
    ensures #[trigger] since(s, s.len() as int) == Seq::<RdEv>::empty()
{ assert(since(s, s.len() as int) =~= Seq::<RdEv>::empty()); }
pub broadcast proof fn lemma_prefix_push(s: Seq<RdEv>, e: RdEv, n0: int)
    requires 0 <= n0 <= s.len()
    ensures (#[trigger] s.push(e)).subrange(0, n0) == #[trigger] s.subrange(0, n0)
{ assert(s.push(e).subrange(0, n0) =~= s.subrange(0, n0)); }
pub broadcast proof fn lemma_add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_add_empty(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a
{ assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast group copy_lemmas { lemma_since_push, lemma_since_all, lemma_prefix_push, lemma_none, lemma_add_assoc, lemma_add_empty }
} }
// what one copy may do: `ev` are the calls of read it made
pub open spec fn copied(ev: Seq<RdEv>, got0: Seq<u8>, got1: Seq<u8>, errs0: Seq<IoError>, errs1: Seq<IoError>, r: Result<u64, IoError>) -> bool {
    match r {
        // everything up to the end of file, and its length
        Ok(n) => ev.len() > 0 && all_go_on(ev.drop_last()) && ev.last() == RdEv::Got(Seq::<u8>::empty())
            && got1 == got0 + delivered(ev) && n == nbytes(ev) && errs1 == errs0,
        // the first error that is not an interruption, at once
        Err(e) => {
            ||| ev.len() > 0 && all_go_on(ev.drop_last()) && ev.last() == RdEv::Err(e) && e.k != IoErrorKind::Interrupted && got1 == got0 + delivered(ev) && errs1 == errs0
            ||| all_go_on(ev) && errs1 == errs0.push(e)
        }
    }
}
#end
#file src/platform.rs
#const MAX_SIMD_DEGREE
#file src/lib.rs
#type Word
#const WORD_BYTES CHUNK_LEN
#file src/copy.rs
#const WIDE_BUF_LEN STD_DEFAULT_BUF_LEN COPY_BUF_LEN
#fn copy_wide
attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
ret r
spec {
    ensures
        final(reader).rd().len() >= old(reader).rd().len(),
        final(reader).rd().subrange(0, old(reader).rd().len() as int) == old(reader).rd(),
        copied(since(final(reader).rd(), old(reader).rd().len() as int), old(writer).got(), final(writer).got(), old(writer).errs(), final(writer).errs(), r),
}
start {
    broadcast use cl::copy_lemmas;
    let ghost vx_n0 = reader.rd().len() as int;
    proof { assert(reader.rd().subrange(0, vx_n0) =~= reader.rd()); assert(nbytes(Seq::empty()) == 0); assert(all_go_on(Seq::empty())); }
}
loop 1 {
    invariant
        vx_n0 == old(reader).rd().len(), vx_n0 <= reader.rd().len(), reader.rd().subrange(0, vx_n0) == old(reader).rd(),
        all_go_on(since(reader.rd(), vx_n0)), writer.errs() == old(writer).errs(),
        writer.got() == old(writer).got() + delivered(since(reader.rd(), vx_n0)),
        total as nat == nbytes(since(reader.rd(), vx_n0)),
}
#text {
fn main() {}
}
#end
