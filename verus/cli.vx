// Contracts for baokeshed_bin/src/main.rs, over the library's contracts of lib.vx.
#use lib.vx
#world print_hex hash_one hash read copy_wide
#text {
// ---------------------------------------------------------------- the outside world (assumed)
// one handle each for standard input and standard output; `goal` says which
// (standard output, exit status) pairs the run may end with
pub struct Stdin { pub rest: Ghost<Seq<u8>> }
pub struct World { pub out: Ghost<Seq<char>>, pub stdin: Stdin, pub goal: Ghost<spec_fn(Seq<char>, int) -> bool> }
pub fn vx_stdin<'a>(w: &'a mut World) -> (r: &'a mut Stdin)
    ensures *r == old(w).stdin, final(w).stdin == *final(r), final(w).out == old(w).out, final(w).goal == old(w).goal
{ &mut w.stdin }
#[verifier::external_body]
pub fn vx_exit(code: i32, w: &mut World) -> !
    requires (old(w).goal@)(old(w).out@, code as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_error() -> IoError { unimplemented!() }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for [u8] { open spec fn shown(&self) -> Seq<char> { chars(self@) } }
impl<const N: usize> VxShow for [u8; N] { open spec fn shown(&self) -> Seq<char> { chars(self@) } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for PathText { open spec fn shown(&self) -> Seq<char> { ptext(self.p@) } }
impl VxShow for IoError { uninterp spec fn shown(&self) -> Seq<char>; }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub fn vx_print_lit(w: &mut World, s: &str)
    ensures final(w).out@ == old(w).out@ + s@, final(w).stdin == old(w).stdin, final(w).goal == old(w).goal
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_print<T: VxShow + ?Sized>(w: &mut World, x: &T)
    ensures final(w).out@ == old(w).out@ + x.shown(), final(w).stdin == old(w).stdin, final(w).goal == old(w).goal
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_eprint<T: VxShow + ?Sized>(x: &T) { unimplemented!() }

// ---- std::path, std::fs: files do not change during the run ----
#[derive(PartialEq, Eq, Structural)]
pub struct PathBuf { pub id: u64 }
pub type Path = PathBuf;
pub struct PathText { pub p: Ghost<PathBuf> }
pub uninterp spec fn path_of(s: Seq<char>) -> PathBuf;
pub uninterp spec fn ptext(p: PathBuf) -> Seq<char>;
// what is stored under a name; whether it can be opened and read; whether some operation on it fails
pub uninterp spec fn pcontent(p: PathBuf) -> Seq<u8>;
pub uninterp spec fn preadable(p: PathBuf) -> bool;
pub uninterp spec fn pbad(p: PathBuf) -> bool;
pub uninterp spec fn pregular(p: PathBuf) -> bool;
impl PathBuf {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: &'static PathBuf) ensures *r == path_of(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: PathBuf) ensures r == path_of(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: PathText) ensures r.p@ == *self { unimplemented!() }
    pub fn as_path(&self) -> (r: &PathBuf) ensures *r == *self { self }
}
pub struct File { pub path: Ghost<PathBuf>, pub rest: Ghost<Seq<u8>> }
pub struct Metadata { pub path: Ghost<PathBuf> }
impl File {
    #[verifier::external_body]
    pub fn open(p: &PathBuf) -> (r: Result<File, IoError>)
        ensures match r {
            Ok(f) => f.path@ == *p && f.rest@ == pcontent(*p) && pcontent(*p).len() < 0x8000_0000_0000_0000,
            Err(_) => !preadable(*p) && pbad(*p),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata, IoError>)
        ensures match r { Ok(m) => m.path == self.path, Err(_) => pbad(self.path@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures rd_ok(r, old(self).rest@, final(self).rest@, old(buf)@, final(buf)@), final(self).path == old(self).path
    { unimplemented!() }
}
impl Stdin {
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures rd_ok(r, old(self).rest@, final(self).rest@, old(buf)@, final(buf)@)
    { unimplemented!() }
}
// one call of read: some of the bytes that are left, none only at the end, or an error
pub open spec fn rd_ok(r: Result<usize, IoError>, rest0: Seq<u8>, rest1: Seq<u8>, buf0: Seq<u8>, buf1: Seq<u8>) -> bool {
    &&& buf1.len() == buf0.len()
    &&& match r {
        Ok(n) => n <= buf0.len() && n <= rest0.len() && buf1.subrange(0, n as int) == rest0.subrange(0, n as int)
            && rest1 == rest0.subrange(n as int, rest0.len() as int) && (n == 0 && buf0.len() > 0 ==> rest0.len() == 0),
        Err(_) => rest1 == rest0,
    }
}
impl Metadata {
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == pregular(self.path@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures pregular(self.path@) ==> r == pcontent(self.path@).len() { unimplemented!() }
}
// ---- memmap: only regular, non-empty files whose size fits a slice ----
pub mod memmap { use super::*; verus! {
pub type Mmap = Vec<u8>;
pub struct MmapOptions { pub n: Option<usize> }
impl MmapOptions {
    pub fn new() -> (r: MmapOptions) ensures r.n is None { MmapOptions { n: None } }
    pub fn len(self, n: usize) -> (r: MmapOptions) ensures r.n == Some(n) { MmapOptions { n: Some(n) } }
    #[verifier::external_body]
    pub fn map(self, f: &File) -> (r: Result<Vec<u8>, IoError>)
        requires
            pregular(f.path@),
            0 < pcontent(f.path@).len() <= isize::MAX,
            self.n is Some ==> 0 < self.n->Some_0 <= pcontent(f.path@).len(),
        ensures match r {
            Ok(m) => preadable(f.path@) && m@ == (if self.n is Some { pcontent(f.path@).subrange(0, self.n->Some_0 as int) } else { pcontent(f.path@) }),
            Err(_) => pbad(f.path@),
        }
    { unimplemented!() }
}
} }
// ---- hex::decode ----
pub open spec fn hexval(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn ishex(s: Seq<char>) -> bool { s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> hexval(#[trigger] s[i]) >= 0 }
pub open spec fn unhex(s: Seq<char>) -> Seq<u8> { Seq::new(s.len() / 2, |i: int| (16 * hexval(s[2 * i]) + hexval(s[2 * i + 1])) as u8) }
pub mod hex { use super::*; verus! {
#[verifier::external_body]
pub fn decode(s: &String) -> (r: Result<Vec<u8>, IoError>)
    ensures r is Ok == ishex(s@), r is Ok ==> r->Ok_0@ == unhex(s@)
{ unimplemented!() }
} }
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });

// ---------------------------------------------------------------- what it has to print
pub open spec fn chars(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
pub open spec fn hexdig(v: int) -> char { if v < 10 { (48 + v) as u8 as char } else { (87 + v) as u8 as char } }
// the j-th character of the lowercase hexadecimal form of b
pub open spec fn hexch(b: Seq<u8>, j: int) -> char { if j % 2 == 0 { hexdig(b[j / 2] as int / 16) } else { hexdig(b[j / 2] as int % 16) } }
// Hash::to_hex, an ArrayString of 64 ASCII characters (the conversion itself is decided by C09)
impl Hash {
    #[verifier::external_body]
    pub fn to_hex(&self) -> (r: [u8; 64])
        ensures forall|j: int| 0 <= j < 64 ==> #[trigger] chars(r@)[j] == hexch(self.0@, j)
    { unimplemented!() }
}
// byte i of the extended output of a root node
pub open spec fn xof_byte(n: Node, i: int) -> u8 { xofblk(n.cv, n.block, n.len, (n.off + 64 * (i / 64)) as u64, n.flags)[i % 64] }
// the first k characters of its hexadecimal form
pub open spec fn hexs(n: Node, k: nat) -> Seq<char> {
    Seq::new(k, |j: int| if j % 2 == 0 { hexdig(xof_byte(n, j / 2) as int / 16) } else { hexdig(xof_byte(n, j / 2) as int % 16) })
}
pub proof fn lemma_hex_piece(n: Node, k: int, half: int, blk: Seq<u8>, h: Seq<u8>, hx: Seq<u8>, t: int)
    requires
        k >= 0, half == 0 || half == 1, 0 <= t <= 64, n.off + 64 * k < 0x1_0000_0000_0000_0000,
        blk == xofblk(n.cv, n.block, n.len, (n.off + 64 * k) as u64, n.flags), blk.len() == 64,
        h == blk.subrange(32 * half, 32 * half + 32), hx.len() == 64,
        forall|j: int| 0 <= j < 64 ==> #[trigger] chars(hx)[j] == hexch(h, j),
    ensures hexs(n, (128 * k + 64 * half) as nat) + chars(hx.subrange(0, t)) == hexs(n, (128 * k + 64 * half + t) as nat)
{
    let p = 128 * k + 64 * half;
    let a = hexs(n, p as nat) + chars(hx.subrange(0, t));
    let b = hexs(n, (p + t) as nat);
    assert forall|i: int| 0 <= i < p + t implies a[i] == b[i] by {
        if i >= p {
            let j = i - p;
            assert(a[i] == chars(hx)[j]);
            assert(i / 2 == 64 * k + 32 * half + j / 2 && i % 2 == j % 2);
            assert((i / 2) / 64 == k && (i / 2) % 64 == 32 * half + j / 2);
        }
    }
    assert(a =~= b);
}
pub open spec fn off_by(n: Node, b: int) -> Node { Node { off: (n.off + b) as u64, ..n } }
// mode selected by the key and --derive-key
pub open spec fn out_of(key: Option<Seq<u8>>, derive: bool, input: Seq<u8>) -> Node {
    if key is None { root_node(spec_iv(), input, 0) } else { root_node(words8(key->Some_0), input, if derive { F_DERIVE } else { F_KEYED }) }
}
pub open spec fn keyv(k: Option<&[u8; 32]>) -> Option<Seq<u8>> { if k is Some { Some(k->Some_0@) } else { None } }
pub open spec fn from_stdin(p: Option<PathBuf>) -> bool { p is None || p->Some_0 == path_of("-"@) }
pub open spec fn src_bytes(p: Option<PathBuf>, stdin: Seq<u8>) -> Seq<u8> { if from_stdin(p) { stdin } else { pcontent(p->Some_0) } }
impl Input {
    pub open spec fn isf(&self) -> bool { self is File }
    pub open spec fn fpath(&self) -> PathBuf { self->File_0.path@ }
    pub open spec fn pending(&self, w: &World) -> Seq<u8> { match self { Input::Stdin => w.stdin.rest@, Input::File(f) => f.rest@ } }
}
// copy::copy_wide over this reader and this writer (copy.vx, with Input::read and Hasher::write as proved)
#[verifier::external_body]
pub fn copy_wide(reader: &mut Input, writer: &mut Hasher, w: &mut World) -> (r: Result<u64, IoError>)
    requires old(writer).inv(), old(writer).msg@.len() + old(reader).pending(old(w)).len() < 0x1_0000_0000_0000_0000
    ensures
        final(w).out == old(w).out, final(w).goal == old(w).goal, old(reader).isf() ==> final(w).stdin == old(w).stdin,
        final(w).stdin.rest@.len() <= old(w).stdin.rest@.len(),
        old(reader).isf() ==> final(reader).isf() && final(reader).fpath() == old(reader).fpath(),
        match r {
            Ok(n) => final(writer).inv() && final(writer).mode() == old(writer).mode() && final(writer).msg@ == old(writer).msg@ + old(reader).pending(old(w))
                && n == old(reader).pending(old(w)).len() && (!old(reader).isf() ==> final(w).stdin.rest@.len() == 0) && (old(reader).isf() ==> preadable(old(reader).fpath())),
            Err(_) => old(reader).isf() ==> pbad(old(reader).fpath()),
        }
{ unimplemented!() }
// one input: its line, or some message
pub struct St { pub out: Seq<char>, pub stdin: Seq<u8>, pub ok: bool }
pub open spec fn starts_with(a: Seq<char>, b: Seq<char>) -> bool { a.len() >= b.len() && a.subrange(0, b.len() as int) == b }
pub open spec fn line(args: Args, p: Option<PathBuf>, input: Seq<u8>) -> Seq<char> {
    hexs(out_of(args.keyb(), args.flag_derive_key is Some, input), 2 * args.nbytes())
        + (if args.arg_inputs@.len() > 1 { "  "@ + ptext(p->Some_0) } else { Seq::empty() }) + "\n"@
}
impl Args {
    pub open spec fn nbytes(&self) -> nat { if self.flag_length is Some { self.flag_length->Some_0 as nat } else { 32 } }
    pub open spec fn keytext(&self) -> Option<Seq<char>> {
        if self.flag_key is Some { Some(self.flag_key->Some_0@) } else if self.flag_derive_key is Some { Some(self.flag_derive_key->Some_0@) } else { None }
    }
    pub open spec fn key_ok(&self) -> bool { self.keytext() is Some ==> ishex(self.keytext()->Some_0) && self.keytext()->Some_0.len() == 64 }
    pub open spec fn keyb(&self) -> Option<Seq<u8>> { if self.keytext() is Some { Some(unhex(self.keytext()->Some_0)) } else { None } }
}
pub open spec fn step(args: Args, p: Option<PathBuf>, a: St, b: St) -> bool {
    &&& b.ok ==> b.out == a.out + line(args, p, src_bytes(p, a.stdin))
    &&& !b.ok ==> starts_with(b.out, a.out)
    &&& !from_stdin(p) ==> b.stdin == a.stdin && (b.ok ==> preadable(p->Some_0)) && (!b.ok ==> pbad(p->Some_0))
    &&& from_stdin(p) && b.ok ==> b.stdin.len() == 0
}
pub open spec fn steps(args: Args, tr: Seq<St>) -> bool {
    forall|i: int| 0 <= i < tr.len() - 1 ==> step(args, Some(args.arg_inputs@[i]), #[trigger] tr[i], tr[i + 1])
}
pub open spec fn all_ok(tr: Seq<St>) -> bool { forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).ok }
pub proof fn lemma_trace_push(args: Args, tr: Seq<St>, b: St)
    requires tr.len() > 0, steps(args, tr), step(args, Some(args.arg_inputs@[tr.len() - 1]), tr.last(), b)
    ensures steps(args, tr.push(b)), all_ok(tr.push(b)) == (all_ok(tr) && b.ok)
{
    let t = tr.push(b);
    assert forall|i: int| 0 <= i < t.len() - 1 implies step(args, Some(args.arg_inputs@[i]), #[trigger] t[i], t[i + 1]) by {
        if i < tr.len() - 1 { assert(tr[i] == t[i] && tr[i + 1] == t[i + 1]); }
    }
    if all_ok(tr) && b.ok { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).ok by { if i < tr.len() { assert(tr[i].ok); } } }
    if all_ok(t) { assert forall|i: int| 0 <= i < tr.len() implies (#[trigger] tr[i]).ok by { assert(t[i].ok); } assert(t[tr.len() as int].ok); }
}
// the run of the tool may end with this standard output and exit status
pub open spec fn runs(args: Args, out0: Seq<char>, stdin0: Seq<u8>, out: Seq<char>, code: int) -> bool {
    let s0 = St { out: out0, stdin: stdin0, ok: true };
    if !args.key_ok() { out == out0 && code == 1 }
    else if args.arg_inputs@.len() == 0 { (code == 0 && out == out0 + line(args, None, stdin0)) || (code == 1 && out == out0) }
    else {
        exists|tr: Seq<St>| #![trigger steps(args, tr)] tr.len() == args.arg_inputs@.len() + 1 && tr[0] == s0 && steps(args, tr) && out == tr.last().out
            && code == (if all_ok(tr) { 0int } else { 1int })
    }
}
#end
#file baokeshed_bin/src/main.rs
#struct Args
#enum Input
#fn path_if_some_and_not_dash
ret r
spec {
    ensures
        from_stdin(*maybe_path) == (r is None),
        r is Some ==> maybe_path is Some && *r->Some_0 == maybe_path->Some_0,
}
#fn open_input
ret r
spec {
    ensures match r {
        Ok(Input::Stdin) => from_stdin(*maybe_path),
        Ok(Input::File(f)) => !from_stdin(*maybe_path) && f.path@ == maybe_path->Some_0 && f.rest@ == pcontent(f.path@) && f.rest@.len() < 0x8000_0000_0000_0000,
        Err(_) => !from_stdin(*maybe_path) && !preadable(maybe_path->Some_0) && pbad(maybe_path->Some_0),
    }
}
#fn Input@Read::read
ret r
spec {
    ensures
        rd_ok(r, old(self).pending(old(vx_w)), final(self).pending(final(vx_w)), old(buf)@, final(buf)@),
        final(vx_w).out == old(vx_w).out, final(vx_w).goal == old(vx_w).goal,
        old(self).isf() ==> final(self).isf() && final(vx_w).stdin == old(vx_w).stdin && final(self).fpath() == old(self).fpath(),
}
#fn maybe_memmap_input
ret r
spec {
    requires input is File ==> input->File_0.rest@ == pcontent(input->File_0.path@)
    ensures match r {
        Ok(Some(m)) => input is File && m@ == pcontent(input->File_0.path@) && preadable(input->File_0.path@),
        Ok(None) => true,
        Err(_) => input is File && pbad(input->File_0.path@),
    }
}
#fn hash_one
ret r
spec {
    requires old(vx_w).stdin.rest@.len() < 0x1_0000_0000_0000_0000
    ensures
        final(vx_w).out == old(vx_w).out, final(vx_w).goal == old(vx_w).goal,
        !from_stdin(*maybe_path) ==> final(vx_w).stdin == old(vx_w).stdin,
        final(vx_w).stdin.rest@.len() <= old(vx_w).stdin.rest@.len(),
        match r {
            Ok(o) => o.wf() && o.node() == out_of(keyv(key), derive_key, src_bytes(*maybe_path, old(vx_w).stdin.rest@))
                && (from_stdin(*maybe_path) ==> final(vx_w).stdin.rest@.len() == 0) && (!from_stdin(*maybe_path) ==> preadable(maybe_path->Some_0)),
            Err(_) => !from_stdin(*maybe_path) ==> pbad(maybe_path->Some_0),
        }
}
#fn print_hex
spec {
    requires old(output).wf(), old(output).offset + 64 * ((byte_length + 63) / 64) < 0x1_0000_0000_0000_0000
    ensures
        final(vx_w).out@ == old(vx_w).out@ + hexs(old(output).node(), 2 * byte_length as nat),
        final(vx_w).stdin == old(vx_w).stdin, final(vx_w).goal == old(vx_w).goal,
}
start {
    let ghost vx_n0 = output.node();
    let ghost vx_len = 2 * byte_length as int;
    let ghost mut vx_k: int = 0;
    let ghost mut vx_p: int = 0;
    proof { assert(hexs(vx_n0, 0) =~= Seq::<char>::empty()); assert(vx_w.out@ + Seq::<char>::empty() =~= vx_w.out@); assert(off_by(vx_n0, 0) == vx_n0); }
}
loop 1 {
    invariant
        vx_n0 == old(output).node(), vx_len == 2 * byte_length, output.wf(),
        old(output).offset + 64 * ((byte_length + 63) / 64) < 0x1_0000_0000_0000_0000,
        hex_bytes_remaining <= vx_len,
        hex_bytes_remaining > 0 ==> vx_len - hex_bytes_remaining == 128 * vx_k && output.node() == off_by(vx_n0, 64 * vx_k),
        vx_k >= 0,
        vx_w.out@ == old(vx_w).out@ + hexs(vx_n0, (vx_len - hex_bytes_remaining) as nat),
        vx_w.stdin == old(vx_w).stdin, vx_w.goal == old(vx_w).goal,
    decreases hex_bytes_remaining
}
loopstart 1 {
    proof { vx_p = vx_len - hex_bytes_remaining; }
}
before vx_print 1 {
    let ghost vx_o1 = vx_w.out@;
}
after vx_print 1 {
    proof {
        assert(hash1@ =~= bytes@.subrange(0, 32));
        let t = vx_w.out@.len() - vx_o1.len();
        lemma_hex_piece(vx_n0, vx_k, 0, bytes@, hash1@, hex1@, t);
        assert(vx_w.out@ =~= old(vx_w).out@ + hexs(vx_n0, (vx_p + t) as nat));
    }
}
before vx_print 2 {
    let ghost vx_o2 = vx_w.out@;
}
after vx_print 2 {
    proof {
        let t = vx_w.out@.len() - vx_o2.len();
        assert(hex_bytes_remaining > 0 ==> vx_len - hex_bytes_remaining == 128 * vx_k + 64);
        assert(hash2@ =~= bytes@.subrange(32, 64));
        if hex_bytes_remaining > 0 { lemma_hex_piece(vx_n0, vx_k, 1, bytes@, hash2@, hex2@, t); }
        assert(vx_w.out@ =~= old(vx_w).out@ + hexs(vx_n0, (vx_len - hex_bytes_remaining + t) as nat));
        vx_k = vx_k + 1;
    }
}
#fn hash
rename cli_hash
ret r
spec {
    requires
        !(args.flag_key is Some && args.flag_derive_key is Some), args.nbytes() <= 0xffff_ffff_ffff_ffc0,
        old(vx_w).stdin.rest@.len() < 0x1_0000_0000_0000_0000,
        old(vx_w).goal@ == (|o: Seq<char>, c: int| runs(*args, old(vx_w).out@, old(vx_w).stdin.rest@, o, c)),
    ensures runs(*args, old(vx_w).out@, old(vx_w).stdin.rest@, final(vx_w).out@, if r is Ok { 0int } else { 1int }),
}
start {
    let ghost vx_s0 = St { out: vx_w.out@, stdin: vx_w.stdin.rest@, ok: true };
    let ghost mut vx_tr: Seq<St> = seq![vx_s0];
    proof { assert(vx_w.out@ + Seq::<char>::empty() =~= vx_w.out@); }
}
loop 1 {
    invariant
        vx_ix1 <= args.arg_inputs@.len(), 0 < args.arg_inputs@.len(),
        vx_tr.len() == vx_ix1 + 1, vx_tr[0] == vx_s0, steps(*args, vx_tr),
        vx_tr.last().out == vx_w.out@, vx_tr.last().stdin == vx_w.stdin.rest@,
        did_error == !all_ok(vx_tr), vx_w.goal == old(vx_w).goal,
        vx_w.stdin.rest@.len() < 0x1_0000_0000_0000_0000,
        byte_length == args.nbytes(), args.nbytes() <= 0xffff_ffff_ffff_ffc0, args.key_ok(),
        key is Some == args.keytext() is Some, key is Some ==> args.keyb() == Some(key->Some_0@),
        derive_key == args.flag_derive_key is Some,
    ensures vx_ix1 == args.arg_inputs@.len()
    decreases args.arg_inputs@.len() - vx_ix1
}
loopstart 1 {
    let ghost vx_a = vx_tr.last();
    let ghost mut vx_ok = false;
}
before print_hex 1 {
    proof {
        vx_ok = true; assert(keyv(if key is Some { Some(&key->Some_0) } else { None }) == args.keyb()); }
}
loopend 1 {
    proof {
        let b = St { out: vx_w.out@, stdin: vx_w.stdin.rest@, ok: vx_ok };
        let t = vx_tr.push(b);
        let p = Some(args.arg_inputs@[vx_i1 as int]);
        if vx_ok { assert(b.out =~= vx_a.out + line(*args, p, src_bytes(p, vx_a.stdin))); }
        else { assert(b.out.subrange(0, vx_a.out.len() as int) =~= vx_a.out); }
        assert(step(*args, Some(args.arg_inputs@[vx_i1 as int]), vx_a, b));
        lemma_trace_push(*args, vx_tr, b);
        vx_tr = t;
    }
}
return {
    proof {
        if args.key_ok() && args.arg_inputs@.len() == 0 && vx_ret is Ok { assert(vx_w.out@ =~= vx_s0.out + line(*args, None, vx_s0.stdin)); }
    }
}
#text {
} // verus!
fn main() {}
#end
