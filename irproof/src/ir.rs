//! Reader for textual LLVM IR (LLVM 18 as printed by clang, LLVM 23 as printed
//! by rustc). Anything it does not know becomes `Inst::Bad`, which the
//! evaluator reports as undecided when it is reached.
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Vec(usize, Box<Ty>), Arr(usize, Box<Ty>), Struct(Vec<Ty>, bool), Named(String), Float(u32), Other }
#[derive(Clone, Debug)]
pub enum C {
    Int(Vec<u64>, u32), Null, Undef, Zero, Str(Vec<u8>), Agg(Vec<(Ty, C)>), Glob(String), Splat(Box<(Ty, C)>),
    Gep(Ty, Box<C>, Vec<(Ty, C)>), Cast(Box<(Ty, C)>, Ty), Bad(String),
}
#[derive(Clone, Debug)]
pub enum O { Reg(usize), K(Ty, Rc<C>) }
#[derive(Clone, Debug)]
pub enum Inst {
    Alloca(usize, Ty, Option<O>, u32),
    Load(usize, Ty, O, u32),
    Store(Ty, O, O, u32),
    Bin(usize, u8, Ty, O, O),
    Icmp(usize, String, Ty, O, O),
    Cast(usize, String, Ty, O, Ty),
    Select(usize, Ty, O, O, O),
    Phi(usize, Vec<(O, usize)>),
    Br(usize),
    CondBr(O, usize, usize),
    Switch(Ty, O, usize, Vec<(C, usize)>),
    Ret(Option<(Ty, O)>),
    Call(Option<usize>, Ty, O, Vec<(Ty, O, bool)>, Option<(usize, usize)>),
    Asm(Option<usize>, Ty, String, String, Vec<(Ty, O)>),
    Gep(usize, Ty, O, Vec<(Ty, O)>),
    Extract(usize, Ty, O, Vec<usize>),
    Insert(usize, Ty, O, Ty, O, Vec<usize>),
    ExtElt(usize, Ty, O, O),
    InsElt(usize, Ty, O, O, O),
    Shuf(usize, Ty, O, O, Vec<i64>),
    Freeze(usize, O),
    Unreachable,
    Nop,
    Bad(String),
}
pub const OPS: [&str; 13] = ["add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"];
pub struct Func { pub name: String, pub module: usize, pub ret: Ty, pub params: Vec<(Ty, usize)>, pub nregs: usize, pub blocks: Vec<Vec<Inst>>, pub text: Vec<Vec<String>>, pub bnames: Vec<String> }
/// `, align N` of an instruction or a global
fn align_of(l: &str) -> u32 { l.rfind(", align ").and_then(|k| l[k + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(1) }
pub struct Global { pub al: u32, pub ty: Ty, pub init: Option<C>, pub constant: bool }
#[derive(Default)]
pub struct Module { pub name: String, pub types: HashMap<String, Ty>, pub globals: HashMap<String, Global>, pub funcs: HashMap<String, Rc<Func>>, pub local: HashMap<String, bool>, pub decls: HashMap<String, bool> }

struct P<'a> { s: &'a [u8], i: usize }
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn new(s: &'a str) -> Self { P { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1 } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn need(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected {:?} at {:?}", c as char, self.rest())) } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 60)]).into() }
    fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    fn word(&mut self) -> String { self.ws(); let st = self.i; while self.i < self.s.len() && Self::isid(self.s[self.i]) { self.i += 1 } String::from_utf8_lossy(&self.s[st..self.i]).into() }
    fn peekword(&mut self) -> String { let i = { self.ws(); self.i }; let w = self.word(); self.i = i; w }
    fn eatw(&mut self, w: &str) -> bool { if self.peekword() == w { self.word(); true } else { false } }
    fn needw(&mut self, w: &str) -> R<()> { if self.eatw(w) { Ok(()) } else { Err(format!("expected {} at {:?}", w, self.rest())) } }
    fn name(&mut self) -> R<String> {
        // after % or @
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1; let st = self.i;
            while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into(); self.i += 1; Ok(r)
        } else { let w = { let st = self.i; while self.i < self.s.len() && Self::isid(self.s[self.i]) { self.i += 1 } String::from_utf8_lossy(&self.s[st..self.i]).to_string() }; if w.is_empty() { Err(format!("name at {}", self.rest())) } else { Ok(w) } }
    }
    fn paren(&mut self) { // skip a balanced (...) group
        if self.peek() != b'(' { return }
        let mut d = 0;
        while self.i < self.s.len() { match self.s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return } } b'"' => { self.i += 1; while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1 } } _ => {} } self.i += 1 }
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() { b'[' | b'<' | b'{' | b'%' => true, _ => { let w = self.peekword(); w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "label" || w == "metadata" || w == "x86_fp80" || w == "token" || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())) } }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'[' => { self.i += 1; let n = self.word().parse().map_err(|_| "array size".to_string())?; self.needw("x")?; let t = self.ty()?; self.need(b']')?; Ty::Arr(n, Box::new(t)) }
            b'<' => { self.i += 1; if self.eat(b'{') { let mut v = vec![]; if !self.eat(b'}') { loop { v.push(self.ty()?); if self.eat(b'}') { break } self.need(b',')? } } self.need(b'>')?; Ty::Struct(v, true) } else { let n = self.word().parse().map_err(|_| "vec size".to_string())?; self.needw("x")?; let t = self.ty()?; self.need(b'>')?; Ty::Vec(n, Box::new(t)) } }
            b'{' => { self.i += 1; let mut v = vec![]; if !self.eat(b'}') { loop { v.push(self.ty()?); if self.eat(b'}') { break } self.need(b',')? } } Ty::Struct(v, false) }
            b'%' => { self.i += 1; Ty::Named(self.name()?) }
            _ => { let w = self.word(); match w.as_str() { "ptr" => { if self.peekword() == "addrspace" { self.word(); self.paren(); } Ty::Ptr } "void" => Ty::Void, "float" => Ty::Float(32), "double" => Ty::Float(64), "half" => Ty::Float(16), "label" | "metadata" | "token" | "x86_fp80" => Ty::Other, _ => if w.starts_with('i') { Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?) } else { return Err(format!("type {:?} at {:?}", w, self.rest())) } } }
        };
        // a function type in a call: `void (ptr, ...)`
        Ok(t)
    }
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'%' || c == b'@' || c == b'[' || c == b'<' || c == b'{' || c == b'-' || c.is_ascii_digit() || c == 0 || c == b',' || c == b')' || c == b'(' { return }
            if c == b'#' { self.i += 1; self.word(); continue }
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1; if self.eat(b'=') { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } self.i += 1 } continue }
            let w = self.peekword();
            match w.as_str() { "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "blockaddress" | "none" | "asm" | "c" | "addrspacecast" | "ptrtoaddr" | "dso_local_equivalent" => return, "" => return, _ => {} }
            if self.is_type_start() { return }
            self.word();
            if w == "align" && self.peek() != b'(' { self.word(); } else if self.s.get(self.i) == Some(&b'(') { self.paren() }
        }
    }
    fn int(&mut self, w: u32) -> R<C> {
        let t = self.word();
        if let Some(h) = t.strip_prefix("u0x").or(t.strip_prefix("s0x")) { let mut v = vec![0u64; ((w + 63) / 64) as usize]; for (k, ch) in h.bytes().rev().enumerate() { let d = (ch as char).to_digit(16).ok_or("hex")? as u64; if k / 16 < v.len() { v[k / 16] |= d << (4 * (k % 16)) } } return Ok(C::Int(v, w)) }
        let neg = t.starts_with('-');
        let mut v = vec![0u64; ((w.max(1) + 63) / 64) as usize];
        for ch in t.trim_start_matches('-').bytes() { let d = (ch as char).to_digit(10).ok_or_else(|| format!("int {:?}", t))? as u128; let mut c = d; for x in v.iter_mut() { let y = *x as u128 * 10 + c; *x = y as u64; c = y >> 64 } }
        if neg { let mut c = true; for x in v.iter_mut() { let (y, o) = (!*x).overflowing_add(c as u64); *x = y; c = o } }
        let n = v.len(); if w % 64 != 0 { v[n - 1] &= (1u64 << (w % 64)) - 1 }
        Ok(C::Int(v, w))
    }
    fn konst(&mut self, t: &Ty) -> R<C> {
        match self.peek() {
            b'@' => { self.i += 1; Ok(C::Glob(self.name()?)) }
            b'[' => { self.i += 1; let mut v = vec![]; if !self.eat(b']') { loop { let t = self.ty()?; let c = self.konst(&t)?; v.push((t, c)); if self.eat(b']') { break } self.need(b',')? } } Ok(C::Agg(v)) }
            b'{' => { self.i += 1; let mut v = vec![]; if !self.eat(b'}') { loop { let t = self.ty()?; let c = self.konst(&t)?; v.push((t, c)); if self.eat(b'}') { break } self.need(b',')? } } Ok(C::Agg(v)) }
            b'<' => { self.i += 1; let packed = self.eat(b'{'); let mut v = vec![]; let end = if packed { b'}' } else { b'>' }; if !self.eat(end) { loop { let t = self.ty()?; let c = self.konst(&t)?; v.push((t, c)); if self.eat(end) { break } self.need(b',')? } } if packed { self.need(b'>')? } Ok(C::Agg(v)) }
            c if c.is_ascii_digit() || c == b'-' => match t { Ty::Int(w) => self.int(*w), _ => { let w = self.word(); Ok(C::Bad(format!("literal {}", w))) } },
            _ => {
                if self.s[self.i..].starts_with(b"c\"") {
                    self.i += 2; let mut v = vec![];
                    while self.s[self.i] != b'"' { if self.s[self.i] == b'\\' { let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap(); if let Ok(x) = u8::from_str_radix(h, 16) { v.push(x); self.i += 3 } else { v.push(b'\\'); self.i += 2 } } else { v.push(self.s[self.i]); self.i += 1 } }
                    self.i += 1; return Ok(C::Str(v));
                }
                let w = self.word();
                match w.as_str() {
                    "true" => Ok(C::Int(vec![1], 1)), "false" => Ok(C::Int(vec![0], 1)), "null" | "none" => Ok(C::Null), "undef" | "poison" => Ok(C::Undef), "zeroinitializer" => Ok(C::Zero),
                    "splat" => { self.need(b'(')?; let t = self.ty()?; let c = self.konst(&t)?; self.need(b')')?; Ok(C::Splat(Box::new((t, c)))) }
                    "getelementptr" => { while self.peek() != b'(' { self.word(); if self.s.get(self.i) == Some(&b'(') && self.peek() == b'(' { break } } if self.peek() == b'(' { let save = self.i; self.i += 1; if !self.is_type_start() { self.i = save; self.paren(); } else { self.i = save } } self.need(b'(')?; let t = self.ty()?; self.need(b',')?; let bt = self.ty()?; let b = self.konst(&bt)?; let mut v = vec![]; while self.eat(b',') { let t = self.ty()?; let c = self.konst(&t)?; v.push((t, c)) } self.need(b')')?; Ok(C::Gep(t, Box::new(b), v)) }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => { self.need(b'(')?; let t = self.ty()?; let c = self.konst(&t)?; self.needw("to")?; let t2 = self.ty()?; self.need(b')')?; Ok(C::Cast(Box::new((t, c)), t2)) }
                    _ => { self.paren(); Ok(C::Bad(w)) }
                }
            }
        }
    }
}
struct FB<'a> { regs: HashMap<String, usize>, blocks: HashMap<String, usize>, m: &'a Module }
impl<'a> FB<'a> {
    fn reg(&mut self, n: String) -> usize { let k = self.regs.len(); *self.regs.entry(n).or_insert(k) }
    fn val(&mut self, p: &mut P, t: &Ty) -> R<O> {
        if p.peek() == b'%' { p.i += 1; let n = p.name()?; return Ok(O::Reg(self.reg(n))) }
        Ok(O::K(t.clone(), Rc::new(p.konst(t)?)))
    }
    fn tv(&mut self, p: &mut P) -> R<(Ty, O)> { let t = p.ty()?; p.attrs(); let v = self.val(p, &t)?; Ok((t, v)) }
    fn lab(&mut self, p: &mut P) -> R<usize> { p.needw("label")?; p.need(b'%')?; let n = p.name()?; self.blocks.get(&n).copied().ok_or_else(|| format!("label {}", n)) }
    fn line(&mut self, l: &str) -> R<Inst> {
        let mut p = P::new(l);
        let p = &mut p;
        let mut dst = None;
        if p.peek() == b'%' { let st = p.i; p.i += 1; let n = p.name()?; if p.eat(b'=') { dst = Some(self.reg(n)) } else { p.i = st } }
        let d = dst.unwrap_or(usize::MAX); let al = align_of(l);
        let mut op = p.word();
        while op == "tail" || op == "musttail" || op == "notail" { op = p.word() }
        if let Some(k) = OPS.iter().position(|x| *x == op) {
            while matches!(p.peekword().as_str(), "nuw" | "nsw" | "exact" | "disjoint") { p.word(); }
            let t = p.ty()?; let a = self.val(p, &t)?; p.need(b',')?; let b = self.val(p, &t)?;
            return Ok(Inst::Bin(d, k as u8, t, a, b));
        }
        Ok(match op.as_str() {
            "alloca" => { let t = { if p.peekword() == "inalloca" { p.word(); } p.ty()? }; let mut n = None; if p.eat(b',') && p.is_type_start() { n = Some(self.tv(p)?.1) } Inst::Alloca(d, t, n, al) }
            "load" => { while matches!(p.peekword().as_str(), "atomic" | "volatile") { p.word(); } let t = p.ty()?; p.need(b',')?; let (_, a) = self.tv(p)?; Inst::Load(d, t, a, al) }
            "store" => { while matches!(p.peekword().as_str(), "atomic" | "volatile") { p.word(); } let (t, v) = self.tv(p)?; p.need(b',')?; let (_, a) = self.tv(p)?; Inst::Store(t, v, a, al) }
            "icmp" => { if p.peekword() == "samesign" { p.word(); } let pr = p.word(); let t = p.ty()?; let a = self.val(p, &t)?; p.need(b',')?; let b = self.val(p, &t)?; Inst::Icmp(d, pr, t, a, b) }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => { while matches!(p.peekword().as_str(), "nneg" | "nuw" | "nsw") { p.word(); } let (t, v) = self.tv(p)?; p.needw("to")?; let t2 = p.ty()?; Inst::Cast(d, op, t, v, t2) }
            "select" => { let (ct, c) = self.tv(p)?; p.need(b',')?; let (_, a) = self.tv(p)?; p.need(b',')?; let (_, b) = self.tv(p)?; Inst::Select(d, ct, c, a, b) }
            "phi" => { let t = p.ty()?; let mut v = vec![]; loop { p.need(b'[')?; let a = self.val(p, &t)?; p.need(b',')?; p.need(b'%')?; let n = p.name()?; let b = *self.blocks.get(&n).ok_or("phi label")?; p.need(b']')?; v.push((a, b)); if !p.eat(b',') || p.peek() != b'[' { break } } Inst::Phi(d, v) }
            "br" => { if p.peekword() == "label" { Inst::Br(self.lab(p)?) } else { let (_, c) = self.tv(p)?; p.need(b',')?; let a = self.lab(p)?; p.need(b',')?; let b = self.lab(p)?; Inst::CondBr(c, a, b) } }
            "switch" => { let (t, v) = self.tv(p)?; p.need(b',')?; let df = self.lab(p)?; p.need(b'[')?; let mut cs = vec![]; while !p.eat(b']') { let t = p.ty()?; let c = p.konst(&t)?; p.need(b',')?; let b = self.lab(p)?; cs.push((c, b)) } Inst::Switch(t, v, df, cs) }
            "ret" => { if p.peekword() == "void" { Inst::Ret(None) } else { Inst::Ret(Some(self.tv(p)?)) } }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "freeze" => { let (_, v) = self.tv(p)?; Inst::Freeze(d, v) }
            "extractvalue" => { let (t, v) = self.tv(p)?; let mut ix = vec![]; while p.eat(b',') { match p.word().parse() { Ok(k) => ix.push(k), Err(_) => break } } Inst::Extract(d, t, v, ix) }
            "insertvalue" => { let (t, v) = self.tv(p)?; p.need(b',')?; let (t2, w) = self.tv(p)?; let mut ix = vec![]; while p.eat(b',') { match p.word().parse() { Ok(k) => ix.push(k), Err(_) => break } } Inst::Insert(d, t, v, t2, w, ix) }
            "extractelement" => { let (t, v) = self.tv(p)?; p.need(b',')?; let (_, i) = self.tv(p)?; Inst::ExtElt(d, t, v, i) }
            "insertelement" => { let (t, v) = self.tv(p)?; p.need(b',')?; let (_, x) = self.tv(p)?; p.need(b',')?; let (_, i) = self.tv(p)?; Inst::InsElt(d, t, v, x, i) }
            "shufflevector" => { let (t, a) = self.tv(p)?; p.need(b',')?; let (_, b) = self.tv(p)?; p.need(b',')?; let mt = p.ty()?; let m = p.konst(&mt)?; let n = match mt { Ty::Vec(n, _) => n, _ => return Err("mask".into()) }; let v = match m { C::Zero => vec![0; n], C::Undef => vec![-1; n], C::Splat(b) => match &b.1 { C::Int(x, _) => vec![x[0] as i64; n], _ => vec![-1; n] }, C::Agg(v) => v.iter().map(|(_, c)| match c { C::Int(x, _) => x[0] as i64, _ => -1 }).collect(), _ => return Err("mask".into()) }; Inst::Shuf(d, t, a, b, v) }
            "getelementptr" => { while !p.is_type_start() { let w = p.word(); if w.is_empty() { return Err("gep".into()) } if p.s.get(p.i) == Some(&b'(') { p.paren() } } let t = p.ty()?; p.need(b',')?; let (_, b) = self.tv(p)?; let mut v = vec![]; while p.eat(b',') { if !p.is_type_start() { break } v.push(self.tv(p)?) } Inst::Gep(d, t, b, v) }
            "call" | "invoke" => {
                p.attrs();
                let t = p.ty()?;
                if p.peek() == b'(' { p.paren() } // function type
                p.attrs();
                if p.peekword() == "asm" {
                    p.word(); while p.peek() != b'"' { p.word(); }
                    let q = |p: &mut P| { p.i += 1; let st = p.i; while p.s[p.i] != b'"' { p.i += 1 } let r = String::from_utf8_lossy(&p.s[st..p.i]).to_string(); p.i += 1; r };
                    let tpl = q(p); p.need(b',')?; p.ws(); let con = q(p);
                    p.need(b'(')?; let mut a = vec![]; if !p.eat(b')') { loop { a.push(self.tv(p)?); if p.eat(b')') { break } p.need(b',')? } }
                    return Ok(Inst::Asm(dst, t, tpl, con, a));
                }
                let f = self.val(p, &Ty::Ptr)?;
                p.need(b'(')?;
                let mut a = vec![];
                if !p.eat(b')') { loop { let t = p.ty()?; if t == Ty::Other { // metadata argument
                        return Ok(Inst::Nop) }
                    let st = p.i; p.attrs(); let byval = l[st..p.i].contains("byval"); let v = self.val(p, &t)?; a.push((t, v, byval)); if p.eat(b')') { break } p.need(b',')? } }
                let mut inv = None;
                if op == "invoke" { loop { if p.peekword() == "to" { p.word(); break } if p.peek() == 0 { return Err("invoke".into()) } if p.peek() == b'#' { p.i += 1; } else if p.peek() == b'[' { while !p.eat(b']') { p.i += 1 } } else if p.peek() == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1 } p.i += 1; } else if p.word().is_empty() { p.i += 1 } } let n = self.lab(p)?; p.needw("unwind")?; let u = self.lab(p)?; inv = Some((n, u)) }
                Inst::Call(dst, t, f, a, inv)
            }
            "landingpad" | "resume" | "cleanupret" => Inst::Bad(op),
            _ => return Err(format!("instruction {}", op)),
        })
    }
}
pub fn parse(text: &str, name: &str, idx: usize) -> Result<Module, String> {
    let mut m = Module { name: name.into(), ..Default::default() };
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    let mut bodies: Vec<(String, Ty, String, usize, usize)> = vec![];
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') { let mut p = P::new(l); p.i = 1; let n = p.name()?; p.need(b'=')?; p.needw("type")?; if p.peekword() != "opaque" { let t = p.ty()?; m.types.insert(n, t); } }
        else if l.starts_with('@') {
            let mut p = P::new(l); p.i = 1; let n = p.name()?; p.need(b'=')?;
            let mut local = false; let mut kind = String::new(); let mut ext = false;
            loop { let w = p.word(); if w.is_empty() { break } if w == "private" || w == "internal" { local = true } if w == "external" || w == "extern_weak" { ext = true } if w == "constant" || w == "global" || w == "alias" || w == "ifunc" { kind = w; break } if p.s.get(p.i) == Some(&b'(') { p.paren() } }
            if kind == "constant" || kind == "global" {
                let t = p.ty()?; let init = if ext { None } else { Some(p.konst(&t).unwrap_or_else(|e| C::Bad(e))) };
                m.local.insert(n.clone(), local); m.globals.insert(n, Global { al: align_of(l), ty: t, init, constant: kind == "constant" });
            }
        } else if l.starts_with("declare ") { if let Some(k) = l.find('@') { let mut p = P::new(l); p.i = k + 1; m.decls.insert(p.name()?, true); } }
        else if l.starts_with("define ") {
            let k = l.find('@').ok_or("define")?;
            let mut p = P::new(l); p.i = 7;
            let mut local = false;
            loop { if p.is_type_start() { break } let w = p.word(); if w == "internal" || w == "private" { local = true } if w.is_empty() { return Err(format!("define: {}", l)) } if w == "align" && p.peek() != b'(' { p.word(); } else if p.s.get(p.i) == Some(&b'(') { p.paren() } }
            let t = p.ty()?;
            // attributes may stand between the type and the name
            p.i = k + 1; let n = p.name()?; let st = p.i; p.paren();
            let args = l[st + 1..p.i - 1].to_string();
            let s = i + 1; let mut e = s; while e < lines.len() && lines[e] != "}" { e += 1 }
            m.local.insert(n.clone(), local);
            bodies.push((n, t, args, s, e)); i = e;
        }
        i += 1;
    }
    let mut fs = vec![];
    for (n, t, args, s, e) in bodies {
        let mut fb = FB { regs: HashMap::new(), blocks: HashMap::new(), m: &m };
        let _ = fb.m;
        // join continuation lines, find blocks
        let mut items: Vec<String> = vec![];
        let mut k = s;
        while k < e {
            let l = lines[k];
            let tl = l.trim();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") { k += 1; continue }
            let mut cur = l.to_string();
            if tl.starts_with("switch ") && !tl.ends_with(']') && !tl.contains("], !") { while k + 1 < e { k += 1; cur.push(' '); cur.push_str(lines[k].trim()); if lines[k].trim().starts_with(']') { break } } }
            while k + 1 < e { let nx = lines[k + 1]; let nt = nx.trim(); if nx.starts_with("   ") && (nt.starts_with("to label") || nt == "cleanup" || nt.starts_with("catch ") || nt.starts_with("filter ")) { cur.push(' '); cur.push_str(nt); k += 1 } else { break } }
            items.push(cur); k += 1;
        }
        let mut params = vec![];
        { let mut p = P::new(&args); if p.peek() != 0 { loop { if p.peekword() == "..." || p.peek() == b'.' { break } let t = match p.ty() { Ok(t) => t, Err(x) => return Err(format!("{}: {}", n, x)) }; p.attrs(); let nm = if p.peek() == b'%' { p.i += 1; p.name()? } else { format!("{}", params.len()) }; let r = fb.reg(nm); params.push((t, r)); if !p.eat(b',') { break } } } }
        let mut nb = 0; let mut bnames = vec![];
        let islabel = |l: &str| -> Option<String> { if l.starts_with(' ') { return None } let l = l.split(';').next().unwrap().trim(); l.strip_suffix(':').map(|x| x.trim_matches('"').to_string()) };
        if items.first().map_or(false, |l| islabel(l).is_none()) { fb.blocks.insert(format!("{}", params.len()), 0); bnames.push("entry".into()); nb = 1; }
        for l in &items { if let Some(b) = islabel(l) { fb.blocks.insert(b.clone(), nb); bnames.push(b); nb += 1; } }
        let mut blocks: Vec<Vec<Inst>> = vec![]; let mut text: Vec<Vec<String>> = vec![];
        if items.first().map_or(false, |l| islabel(l).is_none()) { blocks.push(vec![]); text.push(vec![]) }
        for l in &items {
            if islabel(l).is_some() { blocks.push(vec![]); text.push(vec![]); continue }
            let ins = fb.line(l.trim()).unwrap_or_else(|x| Inst::Bad(format!("{} in: {}", x, l.trim())));
            blocks.last_mut().unwrap().push(ins); text.last_mut().unwrap().push(l.trim().to_string());
        }
        let nregs = fb.regs.len();
        fs.push((n.clone(), Rc::new(Func { name: n, module: idx, ret: t, params, nregs, blocks, text, bnames })));
    }
    for (n, f) in fs { m.funcs.insert(n, f); }
    Ok(m)
}
