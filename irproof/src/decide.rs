//! Two terms that are not identical: find an input on which they differ, or
//! have z3 show that there is none.
use crate::jobs::Env;
use crate::term::*;
use std::collections::HashMap;
pub struct Asg { pub v: Vec<u64> , pub vars: HashMap<u32, u64> }
impl Asg { pub fn value(&self, c: &Ctx, b: B) -> u64 { let o = c.deps(&[b]); let mut v = vec![]; c.eval(&o, &|k| self.vars.get(&k).copied().unwrap_or(0), &mut v); c.evb(b, &v) } }
pub enum D { Equal, Infeasible, Differ(usize, Asg), Unknown(String) }
pub struct Rng(pub u64);
impl Rng { pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) } }
fn pick(r: &mut Rng, name: &str, w: u32, t: usize) -> u64 {
    let x = r.next();
    let v = match name {
        "off" => match t % 4 { 0 => x >> 1 & !2047, 1 => (1u64 << 32) - 2048 * (x % 9), 2 => ((x >> 20) << 32 >> 1) - 2048 * (x % 9).min(3), _ => x >> (x & 31) >> 1 },
        "delta" => match t % 3 { 0 => 2048, 1 => 0, _ => x >> 30 },
        "flags" | "fstart" | "fend" | "blen" => match t % 2 { 0 => x, _ => 1 << (x % 8) },
        _ => match t % 5 { 4 => if x & 1 == 0 { 0 } else { !0 }, _ => x },
    };
    v & mask(w)
}
pub fn differ(e: &mut Env, conds: &[(B, bool)], pairs: &[(B, B)]) -> D {
    let mut roots: Vec<B> = pairs.iter().flat_map(|x| [x.0, x.1]).collect();
    roots.extend(conds.iter().map(|x| x.0));
    let order = e.m.c.deps(&roots);
    let vars = e.m.c.support(&order);
    let names: Vec<Var> = e.m.c.vars.clone();
    let mut rng = Rng(7);
    let mut v = vec![];
    let corder = e.m.c.deps(&conds.iter().map(|x| x.0).collect::<Vec<_>>());
    let mut trial = |e: &Env, asg: HashMap<u32, u64>| -> Option<Option<(usize, Asg)>> {
        e.m.c.eval(&corder, &|k| asg.get(&k).copied().unwrap_or(0), &mut v);
        if conds.iter().any(|(b, x)| (e.m.c.evb(*b, &v) & 1 == 1) != *x) { return None }
        e.m.c.eval(&order, &|k| asg.get(&k).copied().unwrap_or(0), &mut v);
        for (i, (a, b)) in pairs.iter().enumerate() { if e.m.c.evb(*a, &v) != e.m.c.evb(*b, &v) { return Some(Some((i, Asg { v: vec![], vars: asg }))) } }
        Some(None)
    };
    // all the variables of the case get values, also those the terms do not mention
    let mut feasible = 0;
    let tries = if order.len() > 200_000 { 24 } else { 400 };
    for t in 0..tries * (1 + conds.len().min(3)) {
        let asg: HashMap<u32, u64> = names.iter().enumerate().map(|(k, x)| (k as u32, pick(&mut rng, &x.name, x.w, t))).collect();
        match trial(e, asg) { None => {} Some(None) => feasible += 1, Some(Some((i, a))) => return D::Differ(i, a) }
        if feasible >= tries { break }
    }
    let _ = vars;
    // a model of the path condition, then more of them
    if feasible == 0 && !conds.is_empty() {
        let mut extra = String::new();
        for round in 0..4 {
            let mut smt = Smt::new();
            for (b, x) in conds { let t = smt.bv(&e.m.c, *b); smt.asserts.push_str(&format!("(assert (= {} #b{}))\n", t, *x as u8)) }
            smt.asserts.push_str(&extra);
            match smt.solve(e, 20) {
                R::Unsat => return if round == 0 { D::Infeasible } else { D::Unknown("equal on every sample of the path".into()) },
                R::Sat(m) => {
                    let asg: HashMap<u32, u64> = names.iter().enumerate().map(|(k, x)| (k as u32, m.get(&(k as u32)).copied().unwrap_or_else(|| pick(&mut rng, &x.name, x.w, 0)))).collect();
                    extra.push_str("(assert (not (and true"); for (k, v) in &m { extra.push_str(&format!(" (= v{} {})", k, lit(*v, names[*k as usize].w))) } extra.push_str(")))\n");
                    match trial(e, asg) { Some(Some((i, a))) => return D::Differ(i, a), _ => {} }
                }
                R::Unknown => return D::Unknown("path condition not settled by z3".into()),
            }
        }
    }
    // equal on samples: prove, merging equal inner terms first
    match sweep(e, conds, pairs) { true => D::Equal, false => D::Unknown("equal on every sample, not proved".into()) }
}
fn lit(v: u64, w: u32) -> String { let mut s = String::from("#b"); for i in (0..w).rev() { s.push(if (v >> i) & 1 == 1 { '1' } else { '0' }) } s }
pub enum R { Sat(HashMap<u32, u64>), Unsat, Unknown }
pub struct Smt { pub decl: String, pub asserts: String, done: HashMap<A, ()>, vars: Vec<u32>, pub cut: HashMap<A, A> }
impl Smt {
    pub fn new() -> Smt { Smt { decl: String::new(), asserts: String::new(), done: HashMap::new(), vars: vec![], cut: HashMap::new() } }
    pub fn bv(&mut self, c: &Ctx, b: B) -> String { for a in c.deps(&[b]) { self.atom(c, a) } self.term(c, b) }
    fn term(&self, c: &Ctx, b: B) -> String {
        let mut parts = vec![];
        for s in c.bvs[b as usize].iter() { let t = if s.a == 0 { lit(s.k, s.w as u32) } else { let n = format!("a{}", self.cut.get(&s.a).unwrap_or(&s.a)); let t = if s.w as u32 == c.aw[s.a as usize] { n } else { format!("((_ extract {} {}) {})", s.lo + s.w - 1, s.lo, n) }; if s.k == 0 { t } else { format!("(bvxor {} {})", t, lit(s.k, s.w as u32)) } }; parts.push(t) }
        if parts.len() == 1 { return parts.pop().unwrap() }
        parts.reverse(); format!("(concat {})", parts.join(" "))
    }
    fn atom(&mut self, c: &Ctx, a: A) {
        if self.done.contains_key(&a) { return } self.done.insert(a, ());
        let w = c.aw[a as usize];
        let f = |me: &Smt, op: &str, l: &[B]| { let mut t = me.term(c, l[0]); for x in &l[1..] { t = format!("({} {} {})", op, t, me.term(c, *x)) } t };
        let d = match &c.atoms[a as usize] {
            Atom::Zero => return,
            Atom::Var(k) => { self.vars.push(*k); self.decl.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", k, w)); format!("v{}", k) }
            Atom::Base(_) | Atom::Unk(_) => { self.decl.push_str(&format!("(declare-const a{} (_ BitVec {}))\n", a, w)); return }
            Atom::Sum(t, k, _) => { let mut s = lit(*k, w); for (b, co) in t.iter() { let x = self.term(c, *b); s = if *co == 1 { format!("(bvadd {} {})", s, x) } else if *co == mask(w) { format!("(bvsub {} {})", s, x) } else { format!("(bvadd {} (bvmul {} {}))", s, lit(*co, w), x) } } s }
            Atom::Xor(l) => f(self, "bvxor", l), Atom::And(l) => f(self, "bvand", l), Atom::Mul(x, y) => f(self, "bvmul", &[*x, *y]),
            Atom::Ite(x, y, z) => format!("(ite (= {} #b1) {} {})", self.term(c, *x), self.term(c, *y), self.term(c, *z)),
            Atom::Eq0(x) => format!("(ite (= {} {}) #b1 #b0)", self.term(c, *x), lit(0, c.w(*x))),
            Atom::Ult(x, y) => format!("(ite (bvult {} {}) #b1 #b0)", self.term(c, *x), self.term(c, *y)),
            Atom::Op(o, x, y) => match o { 0 => f(self, "bvudiv", &[*x, *y]), 1 => f(self, "bvurem", &[*x, *y]), 2 => f(self, "bvshl", &[*x, *y]), 3 => f(self, "bvlshr", &[*x, *y]), 4 => f(self, "bvashr", &[*x, *y]), _ => { self.decl.push_str(&format!("(declare-const a{} (_ BitVec {}))\n", a, w)); return } },
            Atom::Tab(t, x) => { let iw = c.w(*x); let mut s = lit(t[0], w); let xt = self.term(c, *x); for (i, v) in t.iter().enumerate().skip(1) { s = format!("(ite (= {} {}) {} {})", xt, lit(i as u64, iw), lit(*v, w), s) } s }
        };
        self.decl.push_str(&format!("(define-fun a{} () (_ BitVec {}) {})\n", a, w, d));
    }
    pub fn solve(&self, e: &mut Env, secs: u32) -> R {
        use std::io::Write;
        let mut text = format!("(set-logic QF_BV)\n{}{}(check-sat)\n", self.decl, self.asserts);
        if !self.vars.is_empty() { text.push_str(&format!("(get-value ({}))\n", self.vars.iter().map(|k| format!("v{}", k)).collect::<Vec<_>>().join(" "))) }
        let t0 = std::time::Instant::now();
        let mut ch = match std::process::Command::new("z3").args(["-in", &format!("-T:{}", secs)]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn() { Ok(c) => c, Err(_) => return R::Unknown };
        let _ = ch.stdin.take().unwrap().write_all(text.as_bytes());
        let out = ch.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        e.z3 += t0.elapsed().as_secs_f64() * 1e3;
        if out.starts_with("unsat") { return R::Unsat }
        if !out.starts_with("sat") { return R::Unknown }
        let mut m = HashMap::new();
        let toks: Vec<String> = out[3..].replace('(', " ").replace(')', " ").split_whitespace().map(|x| x.to_string()).collect();
        let mut i = 0; while i + 1 < toks.len() { if let Some(k) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) { let t = &toks[i + 1]; let v = if let Some(h) = t.strip_prefix("#x") { u64::from_str_radix(h, 16).unwrap_or(0) } else { u64::from_str_radix(t.trim_start_matches("#b"), 2).unwrap_or(0) }; m.insert(k, v); i += 2 } else { i += 1 } }
        R::Sat(m)
    }
}
/// Proof of equality: atoms with equal values on all samples are candidates; each is
/// proved by z3 over its operands (earlier merged atoms stand for each other), so
/// that only the place where the two computations differ is ever given to the solver.
fn sweep(e: &mut Env, conds: &[(B, bool)], pairs: &[(B, B)]) -> bool {
    let mut roots: Vec<B> = pairs.iter().flat_map(|x| [x.0, x.1]).collect();
    roots.extend(conds.iter().map(|x| x.0));
    let order = e.m.c.deps(&roots);
    if order.len() > 60_000 || order.iter().any(|a| e.m.c.flags[*a as usize] & 2 != 0) { return false }
    let t0 = std::time::Instant::now();
    let names = e.m.c.vars.clone();
    let mut rng = Rng(99); let mut sig: HashMap<A, Vec<u64>> = HashMap::new(); let mut v = vec![];
    for t in 0..48 {
        let asg: Vec<u64> = names.iter().map(|x| pick(&mut rng, &x.name, x.w, t)).collect();
        e.m.c.eval(&order, &|k| asg[k as usize], &mut v);
        for a in &order { sig.entry(*a).or_default().push(v[*a as usize]) }
    }
    let mut class: HashMap<(u32, Vec<u64>), Vec<A>> = HashMap::new();
    let mut cut: HashMap<A, A> = HashMap::new();
    for a in &order {
        let w = e.m.c.aw[*a as usize];
        let key = (w, sig[a].clone());
        let reps = class.entry(key).or_default().clone();
        let mut merged = false;
        for rp in reps.iter().take(3) {
            if t0.elapsed().as_secs() > 60 { return false }
            // local query: the two definitions over their direct operands, cut at the next level if that is enough
            for depth in [1, 2, 4] {
                let mut smt = Smt::new(); smt.cut = cut.clone();
                let mut fr: Vec<A> = vec![*a, *rp]; let mut keep: Vec<A> = fr.clone();
                for _ in 1..depth { let mut nx = vec![]; for x in &fr { for o in operands(&e.m.c, *x) { let o = *cut.get(&o).unwrap_or(&o); if !keep.contains(&o) { keep.push(o); nx.push(o) } } } fr = nx }
                keep.sort();
                let mut leafs: Vec<A> = vec![]; for x in &keep { for o in operands(&e.m.c, *x) { let o = *cut.get(&o).unwrap_or(&o); if !keep.contains(&o) && !leafs.contains(&o) { leafs.push(o) } } }
                for l in leafs { smt.done.insert(l, ()); smt.decl.push_str(&format!("(declare-const a{} (_ BitVec {}))\n", l, e.m.c.aw[l as usize])) }
                for x in &keep { smt.atom(&e.m.c, *x) }
                smt.vars.clear();
                smt.asserts.push_str(&format!("(assert (not (= a{} a{})))\n", a, rp));
                if let R::Unsat = smt.solve(e, 5) { cut.insert(*a, *rp); merged = true; break }
            }
            if merged { break }
        }
        if !merged { class.get_mut(&(w, sig[a].clone())).unwrap().push(*a) }
    }
    for (x, y) in pairs {
        let mut smt = Smt::new(); smt.cut = cut.clone();
        let (mut lx, mut ly) = (vec![], vec![]);
        for (b, l) in [(x, &mut lx), (y, &mut ly)] { for s in e.m.c.bvs[*b as usize].iter() { if s.a != 0 { let a = *cut.get(&s.a).unwrap_or(&s.a); l.push(a); if !smt.done.contains_key(&a) { smt.done.insert(a, ()); smt.decl.push_str(&format!("(declare-const a{} (_ BitVec {}))\n", a, e.m.c.aw[a as usize])) } } } }
        let (tx, ty) = (smt.term(&e.m.c, *x), smt.term(&e.m.c, *y));
        smt.asserts.push_str(&format!("(assert (not (= {} {})))\n", tx, ty));
        if !matches!(smt.solve(e, 10), R::Unsat) {
            let mut smt = Smt::new(); let (tx, ty) = (smt.bv(&e.m.c, *x), smt.bv(&e.m.c, *y));
            for (b, v) in conds { let t = smt.bv(&e.m.c, *b); smt.asserts.push_str(&format!("(assert (= {} #b{}))\n", t, *v as u8)) }
            smt.asserts.push_str(&format!("(assert (not (= {} {})))\n", tx, ty));
            if !matches!(smt.solve(e, 20), R::Unsat) { return false }
        }
    }
    true
}
fn operands(c: &Ctx, a: A) -> Vec<A> { let mut v = vec![]; let mut add = |b: B| for s in c.bvs[b as usize].iter() { if s.a != 0 { v.push(s.a) } }; match &c.atoms[a as usize] { Atom::Sum(t, _, _) => for x in t.iter() { add(x.0) }, Atom::Xor(o) | Atom::And(o) => for x in o.iter() { add(*x) }, Atom::Ite(a, b, d) => { add(*a); add(*b); add(*d) } Atom::Eq0(a) | Atom::Tab(_, a) => add(*a), Atom::Ult(a, b) | Atom::Mul(a, b) | Atom::Op(_, a, b) => { add(*a); add(*b) } _ => {} } v }
