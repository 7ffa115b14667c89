//! The contracts of the kernels: precondition (the objects and symbolic values a
//! call starts from) and postcondition (what every output byte is, and that no
//! other byte changes).
use crate::exec::*;
use crate::ir::*;
use crate::spec::*;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Default)]
pub struct Rep { pub name: String, pub func: String, pub obl: Vec<(&'static str, u64, u64)>, pub fails: Vec<Fail>, pub und: Vec<String>, pub ct: Vec<Ct>, pub steps: u64, pub accesses: u64, pub paths: usize, pub ms: f64, pub atoms: usize, pub fns: Vec<String>, pub z3_ms: f64 }
pub struct Fail { pub kind: &'static str, pub msg: String, pub case: String }
pub struct J<'a> { pub kv: HashMap<&'a str, &'a str> }
impl<'a> J<'a> { pub fn s(&self, k: &str) -> &'a str { self.kv.get(k).copied().unwrap_or("") } pub fn n(&self, k: &str) -> usize { self.s(k).parse().unwrap_or(0) } }
pub struct Env { pub m: M, pub vars: HashMap<String, B>, pub z3: f64 }
impl Env {
    pub fn var(&mut self, n: &str, w: u32, secret: bool) -> B { if let Some(b) = self.vars.get(n) { if self.m.c.w(*b) == w { return *b } } let b = self.m.c.var(n, w, secret); self.vars.insert(n.into(), b); b }
    fn words(&mut self, o: &mut Vec<Rc<Obj>>, al: u32, name: &str, ws: &[B], ro: bool) -> (B, u32) {
        let n: usize = ws.iter().map(|b| self.m.c.w(*b) as usize / 8).sum();
        let p = self.m.new_obj(o, n, al, name, ro); let id = o.len() as u32 - 1; let ob = Rc::make_mut(o.last_mut().unwrap()); let mut k = 0;
        for b in ws { for i in 0..self.m.c.w(*b) / 8 { ob.cells[k] = Cell { b: *b, i: i as u8 }; k += 1 } }
        (p, id)
    }
}
struct Post { what: &'static str, obj: u32, at: usize, want: B }
pub fn run(e: &mut Env, j: &J) -> Rep {
    let t0 = std::time::Instant::now();
    let mut r = Rep { name: j.s("name").into(), ..Default::default() };
    let sym = j.s("sym");
    r.func = j.s("fn").into();
    let f = match e.m.find(sym) { Some(f) => f, None => { r.und.push(format!("{} is not in the compiled code", sym)); return r } };
    let s = if j.s("word") == "64" { &S64 } else { &S32 };
    let bw = 16 * s.w as usize / 8; // block bytes
    let mut o = e.m.objs0.clone();
    let cvs: Vec<B> = (0..s.cvn).map(|i| e.var(&format!("cv{}", i), s.w, true)).collect();
    let off = e.var("off", 64, false);
    let mut post: Vec<Post> = vec![];
    let mut args: Vec<B> = vec![];
    let mut ret: Option<B> = None;
    let msg = |e: &mut Env, i: usize, b: usize| -> Vec<B> { (0..16).map(|k| e.var(&format!("m{}.{}.{}", i, b, k), s.w, true)).collect() };
    let free: Vec<u32> = (0..e.m.objs0.len() as u32).collect();
    match j.s("kind") {
        "comp" | "xof" => {
            let xf = j.s("kind") == "xof";
            let m = msg(e, 0, 0); let (len, fl) = (e.var("blen", 8, false), e.var("flags", 8, false));
            let (pc, oc) = e.words(&mut o, s.w / 8, "chaining value", &cvs, xf); let (pb, ob) = e.words(&mut o, 1, "block", &m, true);
            args.extend([pc, pb, len, off, fl]);
            for (k, b) in m.iter().enumerate() { post.push(Post { what: "frame", obj: ob, at: k * s.w as usize / 8, want: *b }) }
            if xf {
                let p = e.m.new_obj(&mut o, bw, 1, "output", false); args.push(p); let oo = o.len() as u32 - 1;
                for (k, b) in xof(&mut e.m.c, s, &cvs, &m, len, off, fl).into_iter().enumerate() { post.push(Post { what: "post", obj: oo, at: k * s.w as usize / 8, want: b }) }
                for (k, b) in cvs.iter().enumerate() { post.push(Post { what: "frame", obj: oc, at: k * s.w as usize / 8, want: *b }) }
            } else { for (k, b) in compress(&mut e.m.c, s, &cvs, &m, len, off, fl).into_iter().enumerate() { post.push(Post { what: "post", obj: oc, at: k * s.w as usize / 8, want: b }) } }
        }
        "many" | "manyc" | "fixedc" => {
            let (n, blocks, extra) = (j.n("n"), j.n("blocks"), j.n("extra"));
            let (delta, fl, fs, fe) = (e.var("delta", 64, false), e.var("flags", 8, false), e.var("fstart", 8, false), e.var("fend", 8, false));
            let (pk, ok) = e.words(&mut o, s.w / 8, "key", &cvs, true);
            for (k, b) in cvs.iter().enumerate() { post.push(Post { what: "frame", obj: ok, at: k * s.w as usize / 8, want: *b }) }
            let mut ptrs = vec![];
            let mut want: Vec<B> = vec![];
            for i in 0..n {
                let mut all = vec![]; let mut cv = cvs.clone(); let d = e.m.c.lin(&[(off, 1), (delta, i as u64)], 0, 64);
                for b in 0..blocks {
                    let m = msg(e, i, b); let mut f = fl; if b == 0 { f = e.m.c.or(f, fs) } if b + 1 == blocks { f = e.m.c.or(f, fe) }
                    let bl = e.m.c.konst(bw as u64, 8); cv = compress(&mut e.m.c, s, &cv, &m, bl, d, f); all.extend(m);
                }
                let (p, _) = e.words(&mut o, 1, &format!("input {}", i), &all, true); ptrs.push(p); want.extend(cv);
            }
            let (pi, oi) = e.words(&mut o, 8, "input pointers", &ptrs, true);
            for (k, b) in ptrs.iter().enumerate() { post.push(Post { what: "frame", obj: oi, at: k * 8, want: *b }) }
            let sur: Vec<B> = (0..extra).map(|k| e.var(&format!("old{}", k), 8, false)).collect();
            let mut init: Vec<B> = (0..32 * n).map(|k| e.var(&format!("out{}", k), 8, false)).collect(); init.extend(&sur);
            let (po, oo) = e.words(&mut o, 1, "output", &init, false);
            for (k, b) in want.into_iter().enumerate() { post.push(Post { what: "post", obj: oo, at: k * s.w as usize / 8, want: b }) }
            for (k, b) in sur.iter().enumerate() { post.push(Post { what: "frame", obj: oo, at: 32 * n + k, want: *b }) }
            let kn = e.m.c.konst(n as u64, 64); let kb = e.m.c.konst(blocks as u64, 64);
            if j.s("kind") == "many" { let kl = e.m.c.konst((32 * n + extra) as u64, 64); args.extend([pi, kn, pk, off, delta, fl, fs, fe, po, kl]) }
            else {
                let nd = j.n("deltas"); let ds: Vec<B> = (0..nd).map(|i| e.m.c.lin(&[(delta, i as u64)], 0, 64)).collect();
                let (pd, od) = e.words(&mut o, 8, "offset deltas", &ds, true);
                for (k, b) in ds.iter().enumerate() { post.push(Post { what: "frame", obj: od, at: k * 8, want: *b }) }
                args.push(pi); if j.s("kind") == "manyc" { args.push(kn) } args.extend([kb, pk, off, pd, fl, fs, fe, po]);
            }
        }
        "eq" => {
            let a: Vec<B> = (0..32).map(|i| e.var(&format!("a{}", i), 8, true)).collect(); let b: Vec<B> = (0..32).map(|i| e.var(&format!("b{}", i), 8, true)).collect();
            let (pa, oa) = e.words(&mut o, 1, "left", &a, true); let (pb, ob) = e.words(&mut o, 1, "right", &b, true); args.extend([pa, pb]);
            for i in 0..32 { post.push(Post { what: "frame", obj: oa, at: i, want: a[i] }); post.push(Post { what: "frame", obj: ob, at: i, want: b[i] }) }
            let mut x = e.m.c.konst(1, 1); for i in 0..32 { let q = e.m.c.eq(a[i], b[i]); x = e.m.c.and(x, q) } ret = Some(x);
        }
        "hex" => {
            let a: Vec<B> = (0..32).map(|i| e.var(&format!("a{}", i), 8, true)).collect(); let (pa, oa) = e.words(&mut o, 1, "hash", &a, true);
            let p = e.m.new_obj(&mut o, 64, 1, "hex output", false); let oo = o.len() as u32 - 1; args.extend([pa, p]);
            let t: Vec<u64> = b"0123456789abcdef".iter().map(|x| *x as u64).collect();
            for i in 0..32 { post.push(Post { what: "frame", obj: oa, at: i, want: a[i] }); for h in 0..2 { let nib = e.m.c.slice(a[i], if h == 0 { 4 } else { 0 }, 4); let d = e.m.c.tab(t.clone(), nib, 8); post.push(Post { what: "post", obj: oo, at: 2 * i + h, want: d }) } }
            ret = Some(e.m.c.konst(64, 64));
        }
        "conv" => { // 32 bytes in, the same 32 bytes out
            let a: Vec<B> = (0..32).map(|i| e.var(&format!("a{}", i), 8, true)).collect(); let (pa, oa) = e.words(&mut o, 1, "array", &a, true);
            let p = e.m.new_obj(&mut o, 32, 1, "output", false); let oo = o.len() as u32 - 1; args.extend([pa, p]);
            for i in 0..32 { post.push(Post { what: "frame", obj: oa, at: i, want: a[i] }); post.push(Post { what: "post", obj: oo, at: i, want: a[i] }) }
        }
        k => { r.und.push(format!("unknown contract {}", k)); return r }
    }
    let _ = free;
    // every object of the program that is writable and global must keep its value
    let globals: Vec<(u32, Rc<Obj>)> = e.m.objs0.iter().enumerate().filter(|(_, o)| !o.ro && !o.dead).map(|(k, o)| (k as u32, o.clone())).collect();
    if args.len() != f.params.len() { r.und.push(format!("{} takes {} parameters, the contract is for {}", sym, f.params.len(), args.len())); return r }
    // match parameter widths (bool results and u8 arguments)
    let av: Vec<Val> = args.iter().zip(f.params.iter()).map(|(b, (t, _))| match t { Ty::Int(w) => { let x = e.m.c.w(*b); Val::B(if *w < x { e.m.c.trunc(*b, *w) } else { e.m.c.zext(*b, *w) }) } _ => Val::B(*b) }).collect();
    e.m.ct.clear(); e.m.steps = 0; e.m.accesses = 0; e.m.calls.clear();
    let st = e.m.start(f.clone(), av, o);
    let paths = e.m.run(st);
    r.paths = paths.len();
    let npost = post.iter().filter(|p| p.what == "post").count() as u64 + ret.is_some() as u64;
    let nframe = post.iter().filter(|p| p.what == "frame").count() as u64 + globals.len() as u64;
    let (mut dpost, mut dframe, mut dbounds, mut dpanic) = (npost, nframe, 1u64, 1u64);
    for p in paths {
        match &p.end {
            End::Ret => {
                let mut bad: Vec<(usize, B, B)> = vec![]; let mut badf: Vec<(usize, B, B)> = vec![];
                for (k, q) in post.iter().enumerate() { let n = e.m.c.w(q.want) as usize / 8; let got = e.m.bytes(&p.st, q.obj, q.at, n); if got != q.want { if q.what == "post" { bad.push((k, got, q.want)) } else { badf.push((k, got, q.want)) } } }
                if let Some(w) = ret { let g = match p.ret { Val::B(b) => { let ww = e.m.c.w(w); let b = if e.m.c.w(b) > ww { e.m.c.trunc(b, ww) } else { b }; b } _ => e.m.c.unknown(1) }; let g = if e.m.c.w(g) == e.m.c.w(w) { g } else { let x = e.m.c.w(w); e.m.c.unknown(x) }; if g != w { bad.push((usize::MAX, g, w)) } }
                for (list, kind) in [(bad, "post"), (badf, "frame")] {
                    if list.is_empty() { continue }
                    if kind == "post" { dpost = dpost.saturating_sub(list.len() as u64) } else { dframe = dframe.saturating_sub(list.len() as u64) }
                    match crate::decide::differ(e, &p.st.conds, &list.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>()) {
                        crate::decide::D::Equal => { if kind == "post" { dpost += list.len() as u64 } else { dframe += list.len() as u64 } }
                        crate::decide::D::Infeasible => { if kind == "post" { dpost += list.len() as u64 } else { dframe += list.len() as u64 } }
                        crate::decide::D::Differ(i, a) => { let k = list[i].0; let w = if k == usize::MAX { "the return value".to_string() } else { format!("byte {} of `{}`", post[k].at, p.st.objs[post[k].obj as usize].name) }; let gv = a.value(&e.m.c, list[i].1); let wv = a.value(&e.m.c, list[i].2); r.fails.push(Fail { kind: if kind == "post" { "functional" } else { "frame" }, msg: format!("{} ({}): {} is {:#x}, the contract says {:#x}", sym, r.name, w, gv, wv), case: case(e, j, s, &a) }) }
                        crate::decide::D::Unknown(w) => r.und.push(format!("{} of {} postconditions not settled: {}", list.len(), npost, w)),
                    }
                }
                for (k, g) in &globals { let now = &p.st.objs[*k as usize]; if now.cells.iter().zip(g.cells.iter()).any(|(a, b)| a != b) { dframe = dframe.saturating_sub(1); r.fails.push(Fail { kind: "frame", msg: format!("{} ({}) changes the global `{}`", sym, r.name, g.name), case: String::new() }) } }
            }
            End::Undecided(w) => { r.und.push(w.clone()); dpost = 0; dbounds = 0; dpanic = 0; dframe = 0 }
            End::Stopped => r.und.push("stopped".into()),
            End::Panic(w) | End::Bounds(w) | End::Frame(w) => {
                let kind = match &p.end { End::Panic(_) => { dpanic = 0; "panic" } End::Bounds(_) => { dbounds = 0; "bounds" } _ => { dframe = dframe.saturating_sub(1); "frame" } };
                dpost = 0;
                let one = e.m.c.konst(1, 1); let zero = e.m.c.konst(0, 1);
                match crate::decide::differ(e, &p.st.conds, &[(one, zero)]) { crate::decide::D::Differ(_, a) => { let c = case(e, j, s, &a); r.fails.push(Fail { kind, msg: format!("{} ({}): {}", sym, r.name, w), case: c }) } crate::decide::D::Infeasible => { dpost = npost; if kind == "panic" { dpanic = 1 } else if kind == "bounds" { dbounds = 1 } } _ => r.und.push(format!("path to \"{}\" not settled", w)) }
            }
        }
    }
    let nct = 1u64; let dct = e.m.ct.is_empty() as u64;
    r.obl = vec![("post", npost, dpost), ("frame", nframe, dframe), ("bounds", 1, dbounds), ("panic", 1, dpanic), ("ct", nct, dct)];
    r.ct = e.m.ct.clone(); r.ct.dedup_by(|a, b| a.at == b.at); r.ct.truncate(8);
    r.steps = e.m.steps; r.accesses = e.m.accesses; r.atoms = e.m.c.atoms.len();
    let mut fns: Vec<String> = e.m.calls.keys().map(|k| short(k)).collect(); fns.push(short(sym)); fns.sort(); fns.dedup(); r.fns = fns;
    r.z3_ms = e.z3; e.z3 = 0.0;
    r.ms = t0.elapsed().as_secs_f64() * 1e3;
    r
}
/// the assignment as a case line of the witness program, which runs the real code
fn case(e: &Env, j: &J, s: &Shape, a: &crate::decide::Asg) -> String {
    let g = |n: &str| e.vars.get(n).map_or(0, |b| a.value(&e.m.c, *b));
    let hexw = |names: Vec<String>, w: u32| -> String { names.iter().map(|n| { let v = g(n); (0..w / 8).map(|i| format!("{:02x}", (v >> (8 * i)) & 255)).collect::<String>() }).collect() };
    let cv = hexw((0..s.cvn).map(|i| format!("cv{}", i)).collect(), s.w);
    match j.s("kind") {
        "comp" | "xof" => format!("{} blen={} off={} flags={} cv={} block={}", j.s("case"), g("blen"), g("off"), g("flags"), cv, hexw((0..16).map(|k| format!("m0.0.{}", k)).collect(), s.w)),
        "many" | "manyc" | "fixedc" => { let (n, bl) = (j.n("n"), j.n("blocks")); let mut names = vec![]; for i in 0..n { for b in 0..bl { for k in 0..16 { names.push(format!("m{}.{}.{}", i, b, k)) } } } format!("{} n={} size={} off={} delta={} flags={} extra={} key={} data={}", j.s("case"), n, bl * 16 * s.w as usize / 8, g("off"), g("delta"), g("flags") | g("fstart") << 8 | g("fend") << 16, j.n("extra"), cv, hexw(names, s.w)) }
        "eq" => format!("{} a={} b={}", j.s("case"), hexw((0..32).map(|i| format!("a{}", i)).collect(), 8), hexw((0..32).map(|i| format!("b{}", i)).collect(), 8)),
        _ => format!("{} a={}", j.s("case"), hexw((0..32).map(|i| format!("a{}", i)).collect(), 8)),
    }
}
