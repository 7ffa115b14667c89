//! Evaluates a function of the compiled code on symbolic data. Every load and
//! store is checked against the object it goes to; every branch condition and
//! every address is checked for dependence on secret data.
use crate::ir::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Clone, Debug)]
pub enum Val { U, B(B), V(Rc<[B]>), A(Rc<[Val]>) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cell { pub b: B, pub i: u8 }
pub const UNDEF: Cell = Cell { b: u32::MAX, i: 0 };
#[derive(Clone)]
pub struct Obj { pub al: u32, pub size: usize, pub cells: Vec<Cell>, pub ro: bool, pub dead: bool, pub name: Rc<str>, pub func: Option<(usize, Rc<str>)>, pub secret_ptr: bool }
#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: usize, pub ip: usize, pub prev: usize, pub regs: Vec<Val>, pub allocs: Vec<u32>, pub dst: Option<usize>, pub inv: Option<usize> }
#[derive(Clone)]
pub struct State { pub objs: Vec<Rc<Obj>>, pub frames: Vec<Frame>, pub conds: Vec<(B, bool)>, pub nb: HashMap<(usize, usize), u32> }
#[derive(Clone, Debug, PartialEq)]
pub enum End { Ret, Panic(String), Bounds(String), Frame(String), Undecided(String), Stopped }
pub struct Path { pub st: State, pub end: End, pub ret: Val }
#[derive(Clone, Debug)]
pub struct Ct { pub what: String, pub at: String }
pub struct M { pub c: Ctx, pub mods: Vec<Module>, pub glob: HashMap<String, usize>, pub gobj: HashMap<(usize, String), u32>, pub objs0: Vec<Rc<Obj>>, kc: Map<usize, Val>, pub ct: Vec<Ct>, pub steps: u64, pub accesses: u64, pub calls: HashMap<String, u64>, pub limit: u64, pub stop_at_fork: bool, pub deadline: Option<std::time::Instant> }
type E<T> = Result<T, End>;
fn und<T>(s: impl Into<String>) -> E<T> { Err(End::Undecided(s.into())) }
impl M {
    pub fn new(mods: Vec<Module>) -> M {
        let mut glob = HashMap::new();
        for (k, m) in mods.iter().enumerate() { for n in m.funcs.keys() { if !m.local[n] { glob.insert(n.clone(), k); } } for (n, g) in &m.globals { if !m.local[n] && g.init.is_some() { glob.entry(n.clone()).or_insert(k); } } }
        M { c: Ctx::new(), mods, glob, gobj: HashMap::new(), objs0: vec![], kc: Default::default(), ct: vec![], steps: 0, accesses: 0, calls: HashMap::new(), limit: 400_000_000, stop_at_fork: false, deadline: None }
    }
    pub fn find(&self, name: &str) -> Option<Rc<Func>> { self.glob.get(name).and_then(|m| self.mods[*m].funcs.get(name).cloned()) }
    // ---- types
    pub fn res(&self, m: usize, t: &Ty) -> Ty { match t { Ty::Named(n) => self.mods[m].types.get(n).cloned().map(|t| self.res(m, &t)).unwrap_or(Ty::Other), _ => t.clone() } }
    pub fn align(&self, m: usize, t: &Ty) -> usize { match t { Ty::Int(w) => { let b = ((*w as usize + 7) / 8).next_power_of_two(); b.min(16).max(1) } Ty::Ptr => 8, Ty::Float(w) => *w as usize / 8, Ty::Vec(..) => self.size(m, t).next_power_of_two(), Ty::Arr(_, t) => self.align(m, t), Ty::Struct(v, p) => if *p { 1 } else { v.iter().map(|t| self.align(m, t)).max().unwrap_or(1) }, Ty::Named(_) => { let t = self.res(m, t); self.align(m, &t) } _ => 1 } }
    pub fn store_size(&self, m: usize, t: &Ty) -> usize { match t { Ty::Int(w) => (*w as usize + 7) / 8, Ty::Vec(n, e) => match **e { Ty::Int(w) => (n * w as usize + 7) / 8, _ => n * self.size(m, e) }, _ => self.size(m, t) } }
    pub fn size(&self, m: usize, t: &Ty) -> usize {
        match t { Ty::Int(w) => { let b = (*w as usize + 7) / 8; let a = self.align(m, t); (b + a - 1) / a * a } Ty::Ptr => 8, Ty::Float(w) => *w as usize / 8, Ty::Vec(n, e) => { let s = match **e { Ty::Int(w) => (n * w as usize + 7) / 8, _ => n * self.size(m, e) }; s.next_power_of_two() } Ty::Arr(n, e) => n * self.size(m, e), Ty::Struct(v, p) => self.layout(m, v, *p).1, Ty::Named(_) => { let t = self.res(m, t); self.size(m, &t) } _ => 0 }
    }
    fn layout(&self, m: usize, v: &[Ty], packed: bool) -> (Vec<usize>, usize) { let mut o = 0; let mut offs = vec![]; let mut al = 1; for t in v { let a = if packed { 1 } else { self.align(m, t) }; al = al.max(a); o = (o + a - 1) / a * a; offs.push(o); o += self.size(m, t) } (offs, (o + al - 1) / al * al) }
    // ---- objects
    pub fn new_obj(&mut self, objs: &mut Vec<Rc<Obj>>, size: usize, al: u32, name: &str, ro: bool) -> B { let id = objs.len() as u32; objs.push(Rc::new(Obj { al, size, cells: vec![UNDEF; size], ro, dead: false, name: name.into(), func: None, secret_ptr: false })); self.c.base(id) }
    fn global(&mut self, m: usize, n: &str, st: &mut Vec<Rc<Obj>>) -> E<B> {
        let m = if self.mods[m].funcs.contains_key(n) || self.mods[m].globals.get(n).map_or(false, |g| g.init.is_some()) { m } else { match self.glob.get(n) { Some(k) => *k, None => m } };
        if let Some(o) = self.gobj.get(&(m, n.to_string())) { return Ok(self.c.base(*o)) }
        // globals live in the low object numbers, created before evaluation starts
        let _ = st; und(format!("external symbol {}", n))
    }
    /// creates every global and function object; call once
    pub fn link(&mut self) {
        let mut objs = vec![];
        let mut todo = vec![];
        for m in 0..self.mods.len() {
            let fs: Vec<String> = self.mods[m].funcs.keys().cloned().collect();
            for f in fs { let id = objs.len() as u32; objs.push(Rc::new(Obj { al: 1, size: 0, cells: vec![], ro: true, dead: false, name: f.as_str().into(), func: Some((m, f.as_str().into())), secret_ptr: false })); self.gobj.insert((m, f), id); }
            let ds: Vec<String> = self.mods[m].decls.keys().cloned().collect();
            for f in ds { if self.glob.contains_key(&f) || self.gobj.contains_key(&(m, f.clone())) { continue } let id = objs.len() as u32; objs.push(Rc::new(Obj { al: 1, size: 0, cells: vec![], ro: true, dead: false, name: f.as_str().into(), func: Some((usize::MAX, f.as_str().into())), secret_ptr: false })); self.gobj.insert((m, f), id); }
            let gs: Vec<(String, Ty, bool, bool, u32)> = self.mods[m].globals.iter().map(|(n, g)| (n.clone(), g.ty.clone(), g.constant, g.init.is_some(), g.al)).collect();
            for (n, t, con, init, al) in gs { if !init { if self.glob.contains_key(&n) { continue } } let size = self.size(m, &t); let id = objs.len() as u32; objs.push(Rc::new(Obj { al, size, cells: vec![UNDEF; size], ro: con, dead: !init, name: n.as_str().into(), func: None, secret_ptr: false })); self.gobj.insert((m, n.clone()), id); if init { todo.push((m, n, t, id)) } }
        }
        for (m, n, t, id) in todo {
            let c = self.mods[m].globals[&n].init.clone().unwrap();
            let mut cells = vec![];
            if self.cells_of(m, &t, &c, &mut cells, &mut objs).is_ok() { let o = Rc::make_mut(&mut objs[id as usize]); cells.resize(o.size, UNDEF); o.cells = cells; } else { Rc::make_mut(&mut objs[id as usize]).dead = true }
        }
        self.objs0 = objs;
    }
    fn cells_of(&mut self, m: usize, t: &Ty, c: &C, out: &mut Vec<Cell>, st: &mut Vec<Rc<Obj>>) -> E<()> {
        let t = self.res(m, t);
        match (&t, c) {
            (_, C::Zero) => { let n = self.size(m, &t); let z = self.c.konst(0, 8); for _ in 0..n { out.push(Cell { b: z, i: 0 }) } }
            (_, C::Undef) => { let n = self.size(m, &t); for _ in 0..n { out.push(UNDEF) } }
            (Ty::Arr(..), C::Str(v)) => for x in v { let z = self.c.konst(*x as u64, 8); out.push(Cell { b: z, i: 0 }) },
            (Ty::Arr(..), C::Agg(v)) | (Ty::Vec(..), C::Agg(v)) => for (t, c) in v { self.cells_of(m, t, c, out, st)? },
            (Ty::Struct(ts, p), C::Agg(v)) => { let st0 = out.len(); let (offs, sz) = self.layout(m, ts, *p); for (k, (t, c)) in v.iter().enumerate() { while out.len() < st0 + offs[k] { out.push(UNDEF) } self.cells_of(m, t, c, out, st)? } while out.len() < st0 + sz { out.push(UNDEF) } }
            _ => { let n = self.size(m, &t); let v = self.kval(m, &t, c, st)?; let v = match v { Val::B(b) => b, _ => return und("global initialiser") }; let b = self.c.zext(v, 8 * n as u32); for k in 0..n { out.push(Cell { b, i: k as u8 }) } }
        }
        Ok(())
    }
    fn kval(&mut self, m: usize, t: &Ty, c: &C, st: &mut Vec<Rc<Obj>>) -> E<Val> {
        let t = self.res(m, t);
        Ok(match (&t, c) {
            (Ty::Int(_), C::Int(v, w)) => Val::B(self.c.wide(v, *w)),
            (_, C::Undef) => Val::U,
            (Ty::Int(w), C::Zero) => Val::B(self.c.konst(0, *w)),
            (Ty::Ptr, C::Null) | (Ty::Ptr, C::Zero) => Val::B(self.c.konst(0, 64)),
            (Ty::Ptr, C::Glob(n)) => Val::B(self.global(m, n, st)?),
            (Ty::Vec(n, e), C::Zero) => { let z = self.kval(m, e, &C::Zero, st)?; Val::V(vec![self.gb(&z, 0)?; *n].into()) }
            (Ty::Vec(n, _), C::Splat(b)) => { let z = self.kval(m, &b.0, &b.1, st)?; let z = match z { Val::B(b) => b, _ => return und("splat") }; Val::V(vec![z; *n].into()) }
            (Ty::Vec(..), C::Agg(v)) => { let mut l = vec![]; for (t, c) in v { let x = self.kval(m, t, c, st)?; let w = self.bits(m, t); l.push(self.gb(&x, w)?) } Val::V(l.into()) }
            (Ty::Arr(n, e), C::Zero) => { let z = self.kval(m, e, &C::Zero, st)?; Val::A(vec![z; *n].into()) }
            (Ty::Struct(ts, _), C::Zero) => { let mut l = vec![]; for t in ts { l.push(self.kval(m, t, &C::Zero, st)?) } Val::A(l.into()) }
            (_, C::Agg(v)) => { let mut l = vec![]; for (t, c) in v { l.push(self.kval(m, t, c, st)?) } Val::A(l.into()) }
            (_, C::Str(v)) => { let l: Vec<Val> = v.iter().map(|x| Val::B(self.c.konst(*x as u64, 8))).collect(); Val::A(l.into()) }
            (_, C::Gep(bt, b, ix)) => { let p = self.kval(m, &Ty::Ptr, b, st)?; let mut l = vec![]; for (t, c) in ix { let v = self.kval(m, t, c, st)?; l.push((t.clone(), v)) } let p = match p { Val::B(b) => b, _ => return und("gep") }; Val::B(self.gep(m, bt, p, &l)?) }
            (_, C::Cast(b, t2)) => { let v = self.kval(m, &b.0, &b.1, st)?; let w = self.bits(m, t2); match v { Val::B(x) => { let xw = self.c.w(x); Val::B(if w <= xw { self.c.trunc(x, w) } else { self.c.zext(x, w) }) } v => v } }
            _ => return und(format!("constant {:?} of type {:?}", c, t)),
        })
    }
    fn bits(&self, m: usize, t: &Ty) -> u32 { match t { Ty::Int(w) => *w, Ty::Ptr => 64, _ => 8 * self.size(m, t) as u32 } }
    fn gb(&mut self, v: &Val, w: u32) -> E<B> { match v { Val::B(b) => Ok(*b), Val::U => Ok(self.c.unknown(w)), _ => und("scalar expected") } }
    fn gv(&mut self, m: usize, v: &Val, t: &Ty) -> E<Rc<[B]>> { match (v, t) { (Val::V(x), _) => Ok(x.clone()), (Val::U, Ty::Vec(n, e)) => { let w = self.bits(m, e); let l: Vec<B> = (0..*n).map(|_| self.c.unknown(w)).collect(); Ok(l.into()) } _ => und("vector expected") } }
    fn gep(&mut self, m: usize, t: &Ty, p: B, ix: &[(Ty, Val)]) -> E<B> {
        let mut t = self.res(m, t); let mut p = p;
        for (k, (it, v)) in ix.iter().enumerate() {
            let w = self.bits(m, it); let i = self.gb(v, w)?; let i = self.c.sext(i, 64);
            if k == 0 { let s = self.size(m, &t); p = self.c.lin(&[(p, 1), (i, s as u64)], 0, 64); continue }
            match t.clone() {
                Ty::Arr(_, e) | Ty::Vec(_, e) => { t = self.res(m, &e); let s = self.size(m, &t); p = self.c.lin(&[(p, 1), (i, s as u64)], 0, 64) }
                Ty::Struct(ts, pk) => { let j = match self.c.as_const(i) { Some(j) => j as usize, None => return und("struct index") }; let o = self.layout(m, &ts, pk).0[j]; p = self.c.lin(&[(p, 1)], o as u64, 64); t = self.res(m, &ts[j]) }
                _ => return und("gep type"),
            }
        }
        Ok(p)
    }
    // ---- memory
    fn locate(&mut self, st: &State, p: B, n: usize, write: bool, at: &str) -> E<(u32, usize)> {
        self.accesses += 1;
        match self.c.ptr_parts(p) {
            Some((o, k)) => {
                let ob = &st.objs[o as usize];
                if ob.func.is_some() { return Err(End::Bounds(format!("data access to a function: {}", at))) }
                if ob.dead { return if ob.size == 0 || ob.cells.is_empty() { und(format!("external data {}", ob.name)) } else { Err(End::Bounds(format!("use of {} after its lifetime: {}", ob.name, at))) } }
                if (k as i64) < 0 || k as usize + n > ob.size { return Err(End::Bounds(format!("{} of {} bytes at offset {} of `{}` ({} bytes): {}", if write { "write" } else { "read" }, n, k as i64, ob.name, ob.size, at))) }
                if write && ob.ro { return Err(End::Frame(format!("write of {} bytes at offset {} of read-only `{}`: {}", n, k, ob.name, at))) }
                Ok((o, k as usize))
            }
            None => {
                if self.c.is_secret(p) { self.ct.push(Ct { what: "address depends on secret data".into(), at: at.into() }) }
                if let Some(k) = self.c.as_const(p) { return Err(End::Bounds(format!("access to address {:#x}: {}", k, at))) }
                if self.c.fl(p) & 2 != 0 { return und(format!("address depends on uninitialised data: {}", at)) }
                if let Some((_, r)) = self.c.ptr_sym(p) { if let Some(v) = self.c.enumerate(r) { if v.len() == 1 { let (o, _) = self.c.ptr_sym(p).unwrap(); let b = self.c.base(o); let q = self.c.lin(&[(b, 1)], v[0], 64); return self.locate(st, q, n, write, at) } } }
                und(format!("symbolic address: {}", at))
            }
        }
    }
    /// accesses that need an alignment of 16 or more fault without it
    fn aligned(&self, st: &State, p: B, al: u32) -> E<()> { if let Some((o, k)) = self.c.ptr_parts(p) { let ob = &st.objs[o as usize]; if ob.al < al || k % al as u64 != 0 { return Err(End::Bounds(format!("access that needs alignment {} at offset {} of `{}`, which has alignment {}: {}", al, k as i64, ob.name, ob.al, Self::at(st)))) } } Ok(()) }
    pub fn byte(&mut self, st: &State, o: u32, k: usize) -> B { let c = st.objs[o as usize].cells[k]; if c.b == u32::MAX { return self.c.unknown(8) } self.c.slice(c.b, c.i as u32 * 8, 8) }
    pub fn bytes(&mut self, st: &State, o: u32, k: usize, n: usize) -> B {
        let cs = &st.objs[o as usize].cells[k..k + n];
        let f = cs[0];
        if f.b != u32::MAX && cs.iter().enumerate().all(|(i, c)| c.b == f.b && c.i as usize == f.i as usize + i) { return self.c.slice(f.b, f.i as u32 * 8, n as u32 * 8) }
        let mut parts = vec![]; let cs: Vec<Cell> = cs.to_vec(); let mut i = 0;
        while i < n { if cs[i].b == u32::MAX { parts.push(self.c.unknown(8)); i += 1; continue } let mut j = i + 1; while j < n && cs[j].b == cs[i].b && cs[j].i as usize == cs[i].i as usize + j - i { j += 1 } parts.push(self.c.slice(cs[i].b, cs[i].i as u32 * 8, (j - i) as u32 * 8)); i = j }
        self.c.concat(&parts)
    }
    fn load(&mut self, st: &State, m: usize, t: &Ty, o: u32, k: usize) -> E<Val> {
        Ok(match t {
            Ty::Int(w) => { let n = (*w as usize + 7) / 8; if st.objs[o as usize].cells[k..k + n].iter().all(|c| c.b == u32::MAX) { return Ok(Val::U) } let b = self.bytes(st, o, k, n); Val::B(self.c.trunc(b, *w)) }
            Ty::Ptr => { if st.objs[o as usize].cells[k..k + 8].iter().all(|c| c.b == u32::MAX) { return Ok(Val::U) } Val::B(self.bytes(st, o, k, 8)) }
            Ty::Vec(n, e) => { let w = self.bits(m, e); if w % 8 != 0 { let nb = (*n * w as usize + 7) / 8; let b = self.bytes(st, o, k, nb); let l: Vec<B> = (0..*n as u32).map(|i| self.c.slice(b, i * w, w)).collect(); return Ok(Val::V(l.into())) } let s = w as usize / 8; let mut l = Vec::with_capacity(*n); for i in 0..*n { l.push(self.bytes(st, o, k + i * s, s)) } Val::V(l.into()) }
            Ty::Arr(n, e) => { let e = self.res(m, e); let s = self.size(m, &e); let mut l = vec![]; for i in 0..*n { l.push(self.load(st, m, &e, o, k + i * s)?) } Val::A(l.into()) }
            Ty::Struct(ts, p) => { let offs = self.layout(m, ts, *p).0; let mut l = vec![]; for (i, t) in ts.iter().enumerate() { let t = self.res(m, t); l.push(self.load(st, m, &t, o, k + offs[i])?) } Val::A(l.into()) }
            Ty::Named(_) => { let t = self.res(m, t); self.load(st, m, &t, o, k)? }
            Ty::Float(w) => Val::B({ let n = *w as usize / 8; self.bytes(st, o, k, n) }),
            _ => return und("load type"),
        })
    }
    fn put(&mut self, st: &mut State, o: u32, k: usize, b: B) { let n = self.c.w(b) as usize / 8; let ob = Rc::make_mut(&mut st.objs[o as usize]); for i in 0..n { ob.cells[k + i] = Cell { b, i: i as u8 } } }
    fn store(&mut self, st: &mut State, m: usize, t: &Ty, v: &Val, o: u32, k: usize) -> E<()> {
        if let Val::U = v { let n = self.store_size(m, t); let ob = Rc::make_mut(&mut st.objs[o as usize]); for i in 0..n { ob.cells[k + i] = UNDEF } return Ok(()) }
        match (t, v) {
            (Ty::Int(_), Val::B(b)) | (Ty::Ptr, Val::B(b)) | (Ty::Float(_), Val::B(b)) => { let n = (self.c.w(*b) + 7) / 8; let b = self.c.zext(*b, n * 8); if n > 255 { return und("wide store") } self.put(st, o, k, b) }
            (Ty::Vec(_, e), Val::V(l)) => { let w = self.bits(m, e); if w % 8 != 0 { let b = self.c.concat(l); let n = (self.c.w(b) + 7) / 8; let b = self.c.zext(b, n * 8); self.put(st, o, k, b) } else { for (i, b) in l.iter().enumerate() { self.put(st, o, k + i * w as usize / 8, *b) } } }
            (Ty::Arr(_, e), Val::A(l)) => { let e = self.res(m, e); let s = self.size(m, &e); for (i, v) in l.iter().enumerate() { self.store(st, m, &e, v, o, k + i * s)? } }
            (Ty::Struct(ts, p), Val::A(l)) => { let offs = self.layout(m, ts, *p).0; for (i, v) in l.iter().enumerate() { let t = self.res(m, &ts[i]); self.store(st, m, &t, v, o, k + offs[i])? } }
            (Ty::Named(_), _) => { let t = self.res(m, t); self.store(st, m, &t, v, o, k)? }
            _ => return und(format!("store type {:?} {:?}", t, v)),
        }
        Ok(())
    }
    // ---- running
    pub fn start(&self, f: Rc<Func>, args: Vec<Val>, objs: Vec<Rc<Obj>>) -> State {
        let mut regs = vec![Val::U; f.nregs];
        for ((_, r), v) in f.params.iter().zip(args) { regs[*r] = v }
        State { objs, frames: vec![Frame { f, blk: 0, ip: 0, prev: 0, regs, allocs: vec![], dst: None, inv: None }], conds: vec![], nb: HashMap::new() }
    }
    pub fn run(&mut self, st: State) -> Vec<Path> {
        let mut work = vec![st]; let mut done = vec![];
        while let Some(mut s) = work.pop() {
            if done.len() + work.len() > 64 { done.push(Path { st: s, end: End::Undecided("too many paths".into()), ret: Val::U }); break }
            loop {
                let r = self.step(&mut s);
                match r {
                    Ok(None) => {}
                    Ok(Some(Go::Done(v))) => { done.push(Path { st: s, end: End::Ret, ret: v }); break }
                    Ok(Some(Go::Fork(l))) => {
                        if self.stop_at_fork { done.push(Path { st: s, end: End::Stopped, ret: Val::U }); break }
                        for (c, v, tgt) in l { let mut t = s.clone(); t.conds.push((c, v)); let n = t.nb.entry((Rc::as_ptr(&t.frames.last().unwrap().f) as usize, t.frames.last().unwrap().blk)).or_insert(0); *n += 1; if *n > 40 { done.push(Path { st: t, end: End::Undecided("loop whose end depends on data".into()), ret: Val::U }); continue } Self::jump(&mut t, tgt); work.push(t) }
                        break
                    }
                    Err(e) => { done.push(Path { st: s, end: e, ret: Val::U }); break }
                }
                if self.steps > self.limit || (self.steps & 0xffff == 0 && self.deadline.map_or(false, |d| std::time::Instant::now() > d)) { done.push(Path { st: s, end: End::Undecided("step limit".into()), ret: Val::U }); return done }
            }
        }
        done
    }
    fn jump(s: &mut State, b: usize) { let f = s.frames.last_mut().unwrap(); f.prev = f.blk; f.blk = b; f.ip = 0 }
    pub fn at(s: &State) -> String { let f = s.frames.last().unwrap(); let t = f.f.text.get(f.blk).and_then(|b| b.get(f.ip)).cloned().unwrap_or_default(); let mut c: Vec<String> = s.frames.iter().map(|f| short(&f.f.name)).collect(); c.reverse(); format!("{} in {}", t.split(", align").next().unwrap_or(""), c.join(" < ")) }
    fn o(&mut self, s: &mut State, o: &O) -> E<Val> {
        match o {
            O::Reg(r) => Ok(s.frames.last().unwrap().regs[*r].clone()),
            O::K(t, c) => { let key = Rc::as_ptr(c) as usize; if let Some(v) = self.kc.get(&key) { return Ok(v.clone()) } let m = s.frames.last().unwrap().f.module; let v = self.kval(m, t, c, &mut s.objs)?; self.kc.insert(key, v.clone()); Ok(v) }
        }
    }
    fn set(s: &mut State, r: usize, v: Val) { if r != usize::MAX { s.frames.last_mut().unwrap().regs[r] = v } }
    fn fold(&mut self, s: &State, c: B) -> E<Option<bool>> {
        if let Some(k) = self.c.as_const(c) { return Ok(Some(k & 1 == 1)) }
        for (b, v) in &s.conds { if *b == c { return Ok(Some(*v)) } }
        let n = self.c.not(c); for (b, v) in &s.conds { if *b == n { return Ok(Some(!*v)) } }
        if self.c.is_secret(c) { let at = Self::at(s); self.ct.push(Ct { what: "branch depends on secret data".into(), at }) }
        if self.c.fl(c) & 2 != 0 { return und(format!("branch on uninitialised data: {}", Self::at(s))) }
        if let Some(v) = self.c.enumerate(c) { if v.len() == 1 { return Ok(Some(v[0] == 1)) } }
        Ok(None)
    }
    fn step(&mut self, s: &mut State) -> E<Option<Go>> {
        self.steps += 1;
        let (f, blk, ip) = { let fr = s.frames.last().unwrap(); (fr.f.clone(), fr.blk, fr.ip) };
        let m = f.module;
        let ins = match f.blocks[blk].get(ip) { Some(i) => i, None => return und("fell off a block") };
        macro_rules! next { () => { s.frames.last_mut().unwrap().ip += 1 } }
        match ins {
            Inst::Nop => next!(),
            Inst::Alloca(d, t, n, al) => { let cnt = match n { None => 1, Some(o) => { let v = self.o(s, o)?; let v = self.gb(&v, 64)?; match self.c.as_const(v) { Some(k) => k as usize, None => return und("alloca size") } } }; let t = self.res(m, t); let sz = self.size(m, &t) * cnt; let id = s.objs.len() as u32; let p = self.new_obj(&mut s.objs, sz, *al, &format!("local of {}", short(&f.name)), false); s.frames.last_mut().unwrap().allocs.push(id); Self::set(s, *d, Val::B(p)); next!() }
            Inst::Load(d, t, p, al) => {
                let t = self.res(m, t); let pv = self.o(s, p)?; let p = self.gb(&pv, 64)?; let n = self.store_size(m, &t); if *al >= 16 { self.aligned(s, p, *al)? }
                if n == 0 { Self::set(s, *d, Val::A(vec![].into())); next!(); return Ok(None) }
                let v = match self.table(s, &t, p)? { Some(v) => v, None => { let at = if self.c.ptr_parts(p).is_some() { self.quiet(s, p, n, false) } else { None }; match at { Some((o, k)) => { self.accesses += 1; self.load(s, m, &t, o, k)? } None => { let w = Self::at(s); let (o, k) = self.locate(s, p, n, false, &w)?; self.load(s, m, &t, o, k)? } } } };
                Self::set(s, *d, v); next!()
            }
            Inst::Store(t, v, p, al) => {
                let t = self.res(m, t); let v = self.o(s, v)?; let pv = self.o(s, p)?; let p = self.gb(&pv, 64)?; let n = self.store_size(m, &t); if *al >= 16 { self.aligned(s, p, *al)? }
                if n > 0 { let (o, k) = match self.quiet(s, p, n, true) { Some(x) => { self.accesses += 1; x } None => { let w = Self::at(s); self.locate(s, p, n, true, &w)? } }; self.store(s, m, &t, &v, o, k)? }
                next!()
            }
            Inst::Bin(d, op, t, a, b) => {
                let t = self.res(m, t); let (a, b) = (self.o(s, a)?, self.o(s, b)?);
                let v = match &t {
                    Ty::Vec(..) => { let (x, y) = (self.gv(m, &a, &t)?, self.gv(m, &b, &t)?); let mut l = Vec::with_capacity(x.len()); for i in 0..x.len() { l.push(self.bin(s, *op, x[i], y[i])?) } Val::V(l.into()) }
                    _ => { let w = self.bits(m, &t); let (x, y) = (self.gb(&a, w)?, self.gb(&b, w)?); Val::B(self.bin(s, *op, x, y)?) }
                };
                Self::set(s, *d, v); next!()
            }
            Inst::Icmp(d, pr, t, a, b) => {
                let t = self.res(m, t); let (a, b) = (self.o(s, a)?, self.o(s, b)?);
                let v = match &t { Ty::Vec(..) => { let (x, y) = (self.gv(m, &a, &t)?, self.gv(m, &b, &t)?); let mut l = vec![]; for i in 0..x.len() { l.push(self.icmp(pr, x[i], y[i])) } Val::V(l.into()) } _ => { let w = self.bits(m, &t); let (x, y) = (self.gb(&a, w)?, self.gb(&b, w)?); Val::B(self.icmp(pr, x, y)) } };
                Self::set(s, *d, v); next!()
            }
            Inst::Cast(d, op, t, v, t2) => {
                let (t, t2) = (self.res(m, t), self.res(m, t2)); let v = self.o(s, v)?;
                let r = self.cast(m, op, &t, v, &t2)?; Self::set(s, *d, r); next!()
            }
            Inst::Select(d, ct, c, a, b) => {
                let c = self.o(s, c)?; let (a, b) = (self.o(s, a)?, self.o(s, b)?);
                let v = match (ct, &c) {
                    (Ty::Vec(..), _) => { let ct = ct.clone(); let c = self.gv(m, &c, &ct)?; match (&a, &b) { (Val::V(a), Val::V(b)) => { let l: Vec<B> = (0..a.len()).map(|i| self.c.ite(c[i], a[i], b[i])).collect(); Val::V(l.into()) } _ => return und("select") } }
                    _ => { let c = self.gb(&c, 1)?; match self.c.as_const(c) { Some(k) => if k & 1 == 1 { a } else { b }, None => { if self.c.is_secret(c) { let at = Self::at(s); self.ct.push(Ct { what: "selection depends on secret data".into(), at }) } self.ite(c, &a, &b)? } } }
                };
                Self::set(s, *d, v); next!()
            }
            Inst::Phi(..) => { // all phis of the block at once
                let prev = s.frames.last().unwrap().prev; let mut k = ip; let mut vals = vec![];
                while let Some(Inst::Phi(d, l)) = f.blocks[blk].get(k) { let o = match l.iter().find(|x| x.1 == prev) { Some(x) => x.0.clone(), None => return und("phi") }; let v = self.o(s, &o)?; vals.push((*d, v)); k += 1 }
                for (d, v) in vals { Self::set(s, d, v) } s.frames.last_mut().unwrap().ip = k;
            }
            Inst::Br(b) => Self::jump(s, *b),
            Inst::CondBr(c, a, b) => {
                let c = self.o(s, c)?; if let Val::U = c { return und(format!("branch on uninitialised data: {}", Self::at(s))) } let c = self.gb(&c, 1)?;
                match self.fold(s, c)? { Some(true) => Self::jump(s, *a), Some(false) => Self::jump(s, *b), None => return Ok(Some(Go::Fork(vec![(c, true, *a), (c, false, *b)]))) }
            }
            Inst::Switch(t, v, df, cs) => {
                let w = self.bits(m, t); let v = self.o(s, v)?; let v = self.gb(&v, w)?;
                if let Some(k) = self.c.as_const(v) { for (c, b) in cs { if let C::Int(x, _) = c { if x[0] == k { Self::jump(s, *b); return Ok(None) } } } Self::jump(s, *df); return Ok(None) }
                if self.c.is_secret(v) { let at = Self::at(s); self.ct.push(Ct { what: "branch depends on secret data".into(), at }) }
                // one case at a time
                let mut forks = vec![]; let mut none = self.c.konst(1, 1);
                for (c, b) in cs { if let C::Int(x, _) = c { let k = self.c.konst(x[0], w); let e = self.c.eq(v, k); if self.c.as_const(e) == Some(0) { continue } forks.push((e, true, *b)); let ne = self.c.not(e); none = self.c.and(none, ne) } }
                forks.push((none, true, *df));
                return Ok(Some(Go::Fork(forks)))
            }
            Inst::Ret(v) => {
                let r = match v { None => Val::U, Some((_, o)) => self.o(s, o)? };
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocs { let o = Rc::make_mut(&mut s.objs[*a as usize]); o.dead = true; if s.frames.is_empty() { continue } o.cells = vec![UNDEF]; }
                if s.frames.is_empty() { return Ok(Some(Go::Done(r))) }
                if let Some(d) = fr.dst { Self::set(s, d, r) }
                match fr.inv { Some(b) => Self::jump(s, b), None => s.frames.last_mut().unwrap().ip += 1 }
            }
            Inst::Gep(d, t, b, ix) => {
                let bv = self.o(s, b)?; if let Val::V(_) = bv { return und("vector gep") } let p = self.gb(&bv, 64)?; let mut l = Vec::with_capacity(ix.len());
                for (t, o) in ix { let v = self.o(s, o)?; l.push((t.clone(), v)) }
                let r = self.gep(m, t, p, &l)?; Self::set(s, *d, Val::B(r)); next!()
            }
            Inst::Extract(d, _, v, ix) => { let mut v = self.o(s, v)?; for i in ix { v = match v { Val::A(l) => l[*i].clone(), _ => Val::U } } Self::set(s, *d, v); next!() }
            Inst::Insert(d, t, v, _, x, ix) => { let t = self.res(m, t); let v = self.o(s, v)?; let x = self.o(s, x)?; let r = self.insert(m, &t, v, x, ix)?; Self::set(s, *d, r); next!() }
            Inst::ExtElt(d, t, v, i) => { let v = self.o(s, v)?; let v = self.gv(m, &v, t)?; let i = self.o(s, i)?; let i = self.gb(&i, 64)?; match self.c.as_const(i) { Some(k) if (k as usize) < v.len() => Self::set(s, *d, Val::B(v[k as usize])), _ => return und("element index") } next!() }
            Inst::InsElt(d, t, v, x, i) => { let v = self.o(s, v)?; let v = self.gv(m, &v, t)?; let w = match t { Ty::Vec(_, e) => self.bits(m, e), _ => 0 }; let x = self.o(s, x)?; let x = self.gb(&x, w)?; let i = self.o(s, i)?; let i = self.gb(&i, 64)?; match self.c.as_const(i) { Some(k) if (k as usize) < v.len() => { let mut l = v.to_vec(); l[k as usize] = x; Self::set(s, *d, Val::V(l.into())) } _ => return und("element index") } next!() }
            Inst::Shuf(d, t, a, b, mask) => { let (a, b) = (self.o(s, a)?, self.o(s, b)?); let (a, b) = (self.gv(m, &a, t)?, self.gv(m, &b, t)?); let w = match t { Ty::Vec(_, e) => self.bits(m, e), _ => 0 }; let l: Vec<B> = mask.iter().map(|k| if *k < 0 { self.c.unknown(w) } else if (*k as usize) < a.len() { a[*k as usize] } else { b[*k as usize - a.len()] }).collect(); Self::set(s, *d, Val::V(l.into())); next!() }
            Inst::Freeze(d, v) => { let v = self.o(s, v)?; Self::set(s, *d, v); next!() }
            Inst::Unreachable => return Err(End::Panic(format!("unreachable code reached: {}", Self::at(s)))),
            Inst::Bad(e) => return und(e.clone()),
            Inst::Asm(d, _, tpl, con, a) => { if !tpl.trim().is_empty() { return und(format!("inline assembly {}", tpl)) } let mut r = Val::U; if con.starts_with("=") && a.len() == 1 { r = self.o(s, &a[0].1)?; } else if d.is_some() { return und("inline assembly") } if let Some(d) = d { Self::set(s, *d, r) } next!() }
            Inst::Call(d, rt, fo, args, inv) => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o, byval) in args { let v = self.o(s, o)?; if *byval { return und("byval") } av.push((t.clone(), v)) }
                let fv = self.o(s, fo)?; let fp = self.gb(&fv, 64)?;
                let (mm, name) = match self.c.ptr_parts(fp) { Some((o, 0)) => match &s.objs[o as usize].func { Some(x) => x.clone(), None => return und("call of data") }, _ => return und(format!("indirect call: {}", Self::at(s))) };
                if mm == usize::MAX {
                    if name.starts_with("llvm.") { let r = self.intrinsic(s, m, &name, rt, &av)?; if let Some(d) = d { Self::set(s, *d, r) } match inv { Some((b, _)) => Self::jump(s, *b), None => next!() } return Ok(None) }
                    if name.contains("panic") || name.contains("_fail") || name.contains("expect_failed") || name.contains("unwrap_failed") || name.contains("abort") || &*name == "__assert_fail" { return Err(End::Panic(format!("{} reached: {}", short(&name), Self::at(s)))) }
                    if &*name == "memcpy" || &*name == "memmove" { self.copy(s, &av)?; if let Some(d) = d { Self::set(s, *d, av[0].1.clone()) } next!(); return Ok(None) }
                    if &*name == "memset" { self.fill(s, &av)?; if let Some(d) = d { Self::set(s, *d, av[0].1.clone()) } next!(); return Ok(None) }
                    if &*name == "memcmp" || &*name == "bcmp" { let n = match self.gb(&av[2].1, 64).map(|x| self.c.as_const(x))? { Some(n) => n as usize, None => return und("memcmp length") }; let (p, q) = (self.gb(&av[0].1, 64)?, self.gb(&av[1].1, 64)?); let at = Self::at(s); let mut r = self.c.konst(1, 1); if n > 0 { let (o1, k1) = self.locate(s, p, n, false, &at)?; let (o2, k2) = self.locate(s, q, n, false, &at)?; for i in 0..n { let (x, y) = (self.byte(s, o1, k1 + i), self.byte(s, o2, k2 + i)); let e = self.c.eq(x, y); r = self.c.and(r, e) } } if self.c.is_secret(r) { self.ct.push(Ct { what: "memcmp of secret data".into(), at }) } let nr = self.c.not(r); let v = self.c.zext(nr, 32); if let Some(d) = d { Self::set(s, *d, Val::B(v)) } next!(); return Ok(None) }
                    return und(format!("external function {}", short(&name)))
                }
                let g = self.mods[mm].funcs[&*name].clone();
                *self.calls.entry(name.to_string()).or_insert(0) += 1;
                if s.frames.len() > 60 { return und("call depth") }
                let mut regs = vec![Val::U; g.nregs];
                if av.len() < g.params.len() { return und("argument count") }
                for ((_, r), (_, v)) in g.params.iter().zip(av) { regs[*r] = v }
                s.frames.push(Frame { f: g, blk: 0, ip: 0, prev: 0, regs, allocs: vec![], dst: *d, inv: inv.map(|x| x.0) });
            }
        }
        Ok(None)
    }
    fn quiet(&mut self, s: &State, p: B, n: usize, write: bool) -> Option<(u32, usize)> { let (o, k) = self.c.ptr_parts(p)?; let ob = &s.objs[o as usize]; if ob.func.is_some() || ob.dead || (k as i64) < 0 || k as usize + n > ob.size || (write && ob.ro) { None } else { Some((o, k as usize)) } }
    /// load through an index that ranges over a few bits: a table lookup
    fn table(&mut self, s: &State, t: &Ty, p: B) -> E<Option<Val>> {
        if self.c.ptr_parts(p).is_some() { return Ok(None) }
        let w = match t { Ty::Int(w) if w % 8 == 0 => *w, _ => return Ok(None) };
        let (o, r) = match self.c.ptr_sym(p) { Some(x) => x, None => return Ok(None) };
        let vals = match self.c.enumerate(r) { Some(v) if v.len() > 1 && v.len() <= 256 => v, _ => return Ok(None) };
        let at = Self::at(s);
        if self.c.is_secret(r) { self.ct.push(Ct { what: "address depends on secret data".into(), at: at.clone() }) }
        // index bits: lowest run that is not constant
        let sg = self.c.bvs[r as usize].to_vec();
        let b0 = self.c.base(o);
        let mut pos = 0; let mut idx = None; for x in &sg { if x.a != 0 { if idx.is_some() || x.w > 8 { return Ok(None) } idx = Some((pos, x.w as u32)) } pos += x.w as u32 }
        let (ip, iw) = match idx { Some(x) => x, None => return Ok(None) };
        let konst: u64 = { let mut k = 0; let mut pos = 0; for x in &sg { if x.a == 0 { k |= x.k << pos } pos += x.w as u32 } k };
        let ib = self.c.slice(r, ip, iw);
        let mut tab = vec![0; 1 << iw];
        for i in 0..1u64 << iw { let off = konst | (i << ip); if !vals.contains(&off) { continue } let q = self.c.lin(&[(b0, 1)], off, 64); let (o, k) = self.locate(s, q, w as usize / 8, false, &at)?; let v = self.bytes(s, o, k, w as usize / 8); match self.c.as_const(v) { Some(x) => tab[i as usize] = x, None => return und(format!("symbolic address: {}", at)) } }
        Ok(Some(Val::B(self.c.tab(tab, ib, w))))
    }
    fn ite(&mut self, c: B, a: &Val, b: &Val) -> E<Val> { Ok(match (a, b) { (Val::B(x), Val::B(y)) => Val::B(self.c.ite(c, *x, *y)), (Val::V(x), Val::V(y)) => { let l: Vec<B> = (0..x.len()).map(|i| self.c.ite(c, x[i], y[i])).collect(); Val::V(l.into()) } (Val::A(x), Val::A(y)) => { let mut l = vec![]; for i in 0..x.len() { l.push(self.ite(c, &x[i], &y[i])?) } Val::A(l.into()) } (Val::U, v) | (v, Val::U) => v.clone(), _ => return und("select") }) }
    fn insert(&mut self, m: usize, t: &Ty, v: Val, x: Val, ix: &[usize]) -> E<Val> {
        if ix.is_empty() { return Ok(x) }
        let (n, et) = match t { Ty::Arr(n, e) => (*n, self.res(m, e)), Ty::Struct(ts, _) => (ts.len(), self.res(m, &ts[ix[0]])), _ => return und("insertvalue") };
        let mut l = match v { Val::A(l) => l.to_vec(), _ => vec![Val::U; n] };
        let old = l[ix[0]].clone(); l[ix[0]] = self.insert(m, &et, old, x, &ix[1..])?; Ok(Val::A(l.into()))
    }
    fn bin(&mut self, s: &State, op: u8, a: B, b: B) -> E<B> {
        Ok(match OPS[op as usize] {
            "add" => self.c.add(a, b), "sub" => self.c.sub(a, b), "mul" => self.c.mul(a, b), "and" => self.c.and(a, b), "or" => self.c.or(a, b), "xor" => self.c.xor(a, b),
            "shl" => self.c.op(2, a, b), "lshr" => self.c.op(3, a, b), "ashr" => self.c.op(4, a, b),
            o => {
                if self.c.is_secret(a) || self.c.is_secret(b) { let at = Self::at(s); self.ct.push(Ct { what: "division of secret data".into(), at }) }
                match o { "udiv" => self.c.op(0, a, b), "urem" => self.c.op(1, a, b), _ => { let (x, y) = (self.c.range(a), self.c.range(b)); let w = self.c.w(a); if x.1 <= mask(w) / 2 && y.1 <= mask(w) / 2 { self.c.op(if o == "sdiv" { 0 } else { 1 }, a, b) } else { return und("signed division") } } }
            }
        })
    }
    fn icmp(&mut self, pr: &str, a: B, b: B) -> B { match pr { "eq" => self.c.eq(a, b), "ne" => { let e = self.c.eq(a, b); self.c.not(e) } "ult" => self.c.ult(a, b), "ugt" => self.c.ult(b, a), "uge" => { let e = self.c.ult(a, b); self.c.not(e) } "ule" => { let e = self.c.ult(b, a); self.c.not(e) } "slt" => self.c.slt(a, b), "sgt" => self.c.slt(b, a), "sge" => { let e = self.c.slt(a, b); self.c.not(e) } _ => { let e = self.c.slt(b, a); self.c.not(e) } } }
    fn cast(&mut self, m: usize, op: &str, t: &Ty, v: Val, t2: &Ty) -> E<Val> {
        if let Val::U = v { return Ok(Val::U) }
        if op == "bitcast" {
            let (ew, l): (u32, Vec<B>) = match (t, &v) { (Ty::Vec(_, e), Val::V(l)) => (self.bits(m, e), l.to_vec()), (_, Val::B(b)) => (self.c.w(*b), vec![*b]), _ => return und("bitcast") };
            return Ok(match t2 {
                Ty::Vec(n, e) => { let w2 = self.bits(m, e); let mut out = Vec::with_capacity(*n); if ew % w2 == 0 { for b in l { for k in 0..ew / w2 { out.push(self.c.slice(b, k * w2, w2)) } } } else if w2 % ew == 0 { let g = (w2 / ew) as usize; for ch in l.chunks(g) { out.push(self.c.concat(ch)) } } else { let b = self.c.concat(&l); for k in 0..*n as u32 { out.push(self.c.slice(b, k * w2, w2)) } } Val::V(out.into()) }
                _ => Val::B(self.c.concat(&l)),
            })
        }
        let f = |c: &mut Ctx, b: B, w: u32| match op { "trunc" => c.trunc(b, w), "zext" => c.zext(b, w), "sext" => c.sext(b, w), _ => { let bw = c.w(b); if w <= bw { c.trunc(b, w) } else { c.zext(b, w) } } };
        Ok(match (&v, t2) { (Val::V(l), Ty::Vec(_, e)) => { let w = self.bits(m, e); let l: Vec<B> = l.iter().map(|b| f(&mut self.c, *b, w)).collect(); Val::V(l.into()) } (Val::B(b), _) => { let w = self.bits(m, t2); Val::B(f(&mut self.c, *b, w)) } _ => return und("cast") })
    }
    fn copy(&mut self, s: &mut State, a: &[(Ty, Val)]) -> E<()> {
        let (d, src, n) = (self.gb(&a[0].1, 64)?, self.gb(&a[1].1, 64)?, self.gb(&a[2].1, 64)?);
        let at = Self::at(s);
        let n = match self.c.as_const(n) { Some(n) => n as usize, None => { if self.c.is_secret(n) { self.ct.push(Ct { what: "length depends on secret data".into(), at: at.clone() }) } return und(format!("symbolic length: {}", at)) } };
        if n == 0 { return Ok(()) }
        let (o2, k2) = self.locate(s, src, n, false, &at)?; let (o1, k1) = self.locate(s, d, n, true, &at)?;
        let cs = s.objs[o2 as usize].cells[k2..k2 + n].to_vec(); Rc::make_mut(&mut s.objs[o1 as usize]).cells[k1..k1 + n].copy_from_slice(&cs); Ok(())
    }
    fn fill(&mut self, s: &mut State, a: &[(Ty, Val)]) -> E<()> {
        let (d, v, n) = (self.gb(&a[0].1, 64)?, self.gb(&a[1].1, 8)?, self.gb(&a[2].1, 64)?);
        let at = Self::at(s);
        let n = match self.c.as_const(n) { Some(n) => n as usize, None => return und(format!("symbolic length: {}", at)) };
        if n == 0 { return Ok(()) }
        let v = self.c.trunc(v, 8); let (o, k) = self.locate(s, d, n, true, &at)?; let ob = Rc::make_mut(&mut s.objs[o as usize]); for i in 0..n { ob.cells[k + i] = Cell { b: v, i: 0 } } Ok(())
    }
    fn intrinsic(&mut self, s: &mut State, m: usize, name: &str, rt: &Ty, a: &[(Ty, Val)]) -> E<Val> {
        let n = &name[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") { self.copy(s, a)?; return Ok(Val::U) }
        if n.starts_with("memset") { self.fill(s, a)?; return Ok(Val::U) }
        if n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("dbg") || n.starts_with("experimental.noalias") || n.starts_with("prefetch") || n.starts_with("stackrestore") || n.starts_with("x86.sse2.pause") { return Ok(Val::U) }
        if n.starts_with("stacksave") { return Ok(Val::B(self.c.konst(0, 64))) }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return Err(End::Panic(format!("trap: {}", Self::at(s)))) }
        if n.starts_with("expect") { return Ok(a[0].1.clone()) }
        if n.starts_with("is.constant") { return Ok(Val::B(self.c.konst(0, 1))) }
        // element-wise helpers
        let vecs = |me: &mut M, k: usize| -> E<Vec<B>> { let t = me.res(m, &a[k].0); match (&a[k].1, &t) { (v, Ty::Vec(..)) => Ok(me.gv(m, v, &t)?.to_vec()), (v, _) => { let w = me.bits(m, &t); Ok(vec![me.gb(v, w)?]) } } };
        let pack = |l: Vec<B>| if let Ty::Vec(..) = rt { Val::V(l.into()) } else { Val::B(l[0]) };
        if n.starts_with("fshr") || n.starts_with("fshl") {
            let (x, y, z) = (vecs(self, 0)?, vecs(self, 1)?, vecs(self, 2)?); let mut l = vec![];
            for i in 0..x.len() { let w = self.c.w(x[i]); let k = match self.c.as_const(z[i]) { Some(k) => (k % w as u64) as u32, None => return und("funnel shift by data") }; let cc = self.c.concat(&[y[i], x[i]]); let lo = if n.starts_with("fshr") { k } else { w - k }; l.push(self.c.slice(cc, lo, w)) }
            return Ok(pack(l))
        }
        if n.starts_with("umin") || n.starts_with("umax") || n.starts_with("smin") || n.starts_with("smax") { let (x, y) = (vecs(self, 0)?, vecs(self, 1)?); let mut l = vec![]; for i in 0..x.len() { let c = if n.starts_with('u') { self.c.ult(x[i], y[i]) } else { self.c.slt(x[i], y[i]) }; l.push(if n[1..].starts_with("min") { self.c.ite(c, x[i], y[i]) } else { self.c.ite(c, y[i], x[i]) }) } return Ok(pack(l)) }
        if n.starts_with("bswap") { let x = vecs(self, 0)?; let mut l = vec![]; for b in x { let w = self.c.w(b); let mut p: Vec<B> = (0..w / 8).map(|i| self.c.slice(b, 8 * i, 8)).collect(); p.reverse(); l.push(self.c.concat(&p)) } return Ok(pack(l)) }
        if n.starts_with("ctpop") || n.starts_with("ctlz") || n.starts_with("cttz") { let x = vecs(self, 0)?; let o = if n.starts_with("ctpop") { 5 } else if n.starts_with("ctlz") { 6 } else { 7 }; let mut l = vec![]; for b in x { let w = self.c.w(b); let z = self.c.konst(0, w); l.push(self.c.op(o, b, z)) } return Ok(pack(l)) }
        if n.contains(".with.overflow") {
            let (x, y) = (vecs(self, 0)?[0], vecs(self, 1)?[0]); let w = self.c.w(x);
            if n.starts_with("uadd") { let r = self.c.add(x, y); let (rx, ry) = (self.c.range(x), self.c.range(y)); let o = if rx.1.checked_add(ry.1).map_or(false, |v| v <= mask(w)) { self.c.konst(0, 1) } else { self.c.ult(r, x) }; return Ok(Val::A(vec![Val::B(r), Val::B(o)].into())) }
            if n.starts_with("usub") { let r = self.c.sub(x, y); let o = self.c.ult(x, y); return Ok(Val::A(vec![Val::B(r), Val::B(o)].into())) }
            if n.starts_with("umul") { if let (Some(p), Some(q)) = (self.c.as_const(x), self.c.as_const(y)) { let v = p as u128 * q as u128; let r = self.c.konst(v as u64, w); let o = self.c.konst((v > mask(w) as u128) as u64, 1); return Ok(Val::A(vec![Val::B(r), Val::B(o)].into())) } let r = self.c.mul(x, y); let (rx, ry) = (self.c.range(x), self.c.range(y)); if (rx.1 as u128) * (ry.1 as u128) <= mask(w) as u128 { let o = self.c.konst(0, 1); return Ok(Val::A(vec![Val::B(r), Val::B(o)].into())) } }
            return und(format!("{}", name))
        }
        if n.starts_with("usub.sat") { let (x, y) = (vecs(self, 0)?, vecs(self, 1)?); let mut l = vec![]; for i in 0..x.len() { let w = self.c.w(x[i]); let d = self.c.sub(x[i], y[i]); let c = self.c.ult(x[i], y[i]); let z = self.c.konst(0, w); l.push(self.c.ite(c, z, d)) } return Ok(pack(l)) }
        if n.starts_with("uadd.sat") { let (x, y) = (vecs(self, 0)?, vecs(self, 1)?); let mut l = vec![]; for i in 0..x.len() { let w = self.c.w(x[i]); let d = self.c.add(x[i], y[i]); let c = self.c.ult(d, x[i]); let z = self.c.konst(!0, w); l.push(self.c.ite(c, z, d)) } return Ok(pack(l)) }
        if let Some(r) = n.strip_prefix("vector.reduce.") { let x = vecs(self, 0)?; let mut acc = x[0]; for b in &x[1..] { acc = if r.starts_with("add") { self.c.add(acc, *b) } else if r.starts_with("xor") { self.c.xor(acc, *b) } else if r.starts_with("or") { self.c.or(acc, *b) } else if r.starts_with("and") { self.c.and(acc, *b) } else { return und(name) } } return Ok(Val::B(acc)) }
        if let Some(r) = n.strip_prefix("x86.") {
            let last = r.rsplit('.').next().unwrap_or("");
            for (nm, o) in [("psrli", 3u8), ("pslli", 2), ("psrai", 4)] { if r.contains(nm) { let x = vecs(self, 0)?; let k = vecs(self, 1)?[0]; let k = match self.c.as_const(k) { Some(k) => k, None => return und("shift count") }; let l: Vec<B> = x.iter().map(|b| { let w = self.c.w(*b); let kk = self.c.konst(k, 32); let _ = kk; match o { 3 => self.c.shr_c(*b, k), 2 => self.c.shl_c(*b, k), _ => { let kb = self.c.konst(k.min(w as u64 - 1), w); self.c.op(4, *b, kb) } } }).collect(); return Ok(pack(l)) } }
            if r.contains("pshuf.b") { let (x, y) = (vecs(self, 0)?, vecs(self, 1)?); let mut l = vec![]; for i in 0..x.len() { let k = match self.c.as_const(y[i]) { Some(k) => k, None => return und("shuffle mask") }; l.push(if k & 0x80 != 0 { self.c.konst(0, 8) } else { x[(i & !15) + (k & 15) as usize] }) } return Ok(pack(l)) }
            if r.contains("vpermi2var") { let (x, ix, y) = (vecs(self, 0)?, vecs(self, 1)?, vecs(self, 2)?); let mut l = vec![]; for i in 0..x.len() { let k = match self.c.as_const(ix[i]) { Some(k) => k as usize % (2 * x.len()), None => return und("shuffle mask") }; l.push(if k < x.len() { x[k] } else { y[k - x.len()] }) } return Ok(pack(l)) }
            if r.contains("avx2.permd") || r.contains("permvar") { let (x, ix) = (vecs(self, 0)?, vecs(self, 1)?); let mut l = vec![]; for i in 0..x.len() { let k = match self.c.as_const(ix[i]) { Some(k) => k as usize % x.len(), None => return und("shuffle mask") }; l.push(x[k]) } return Ok(pack(l)) }
            let _ = last;
        }
        if n.starts_with("aarch64.neon.tbl1") { let (x, y) = (vecs(self, 0)?, vecs(self, 1)?); let mut l = vec![]; for i in 0..y.len() { let k = match self.c.as_const(y[i]) { Some(k) => k as usize, None => return und("shuffle mask") }; l.push(if k < x.len() { x[k] } else { self.c.konst(0, 8) }) } return Ok(pack(l)) }
        if n.starts_with("aarch64.neon.vsri") || n.starts_with("aarch64.neon.vsli") { let (x, y) = (vecs(self, 0)?, vecs(self, 1)?); let kv = vecs(self, 2)?[0]; let k = match self.c.as_const(kv) { Some(k) => k as u32, None => return und("shift") }; let mut l = vec![]; for i in 0..x.len() { let w = self.c.w(x[i]); l.push(if n.contains("vsri") { if k >= w { x[i] } else { let lo = self.c.slice(y[i], k, w - k); let hi = self.c.slice(x[i], w - k, k); self.c.concat(&[lo, hi]) } } else { let lo = self.c.slice(x[i], 0, k); let hi = self.c.slice(y[i], 0, w - k); self.c.concat(&[lo, hi]) }) } return Ok(pack(l)) }
        und(format!("intrinsic {}", name))
    }
}
pub enum Go { Done(Val), Fork(Vec<(B, bool, usize)>) }
pub fn short(n: &str) -> String { // last readable parts of a mangled name
    if !n.starts_with("_RNv") && !n.starts_with("_ZN") && !n.starts_with("_RI") && !n.starts_with("_R") { return n.to_string() }
    let b = n.as_bytes(); let mut i = 0; let mut parts: Vec<String> = vec![];
    while i < b.len() { if b[i].is_ascii_digit() && b[i] != b'0' { let s = i; while i < b.len() && b[i].is_ascii_digit() { i += 1 } let k: usize = n[s..i].parse().unwrap_or(0); let st = if i < b.len() && b[i] == b'_' { i + 1 } else { i }; if k > 0 && st + k <= b.len() && b[st..st + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[st].is_ascii_digit() { parts.push(n[st..st + k].into()); i = st + k; continue } } i += 1 }
    let l = parts.len(); parts[l.saturating_sub(3)..].join("::")
}
