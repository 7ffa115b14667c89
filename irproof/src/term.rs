//! Symbolic bit vectors in a canonical form. A vector is a list of segments; a
//! segment is a constant or a run of consecutive bits of one atom, xored with a
//! constant. Shifts, rotations, shuffles and byte (un)packing only rearrange
//! segments, so two computations of one word that differ in such detail have
//! the same id. Every rewrite here is an identity of fixed-width arithmetic.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
pub type B = u32;
pub type A = u32;
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Seg { pub a: A, pub lo: u8, pub w: u8, pub k: u64 } // a == 0: constant
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Zero,
    Var(u32),
    Base(u32),
    Sum(Box<[(B, u64)]>, u64, u32),
    Xor(Box<[B]>),
    And(Box<[B]>),
    Ite(B, B, B),
    Eq0(B),
    Ult(B, B),
    Mul(B, B),
    Op(u8, B, B), // 0 udiv 1 urem 2 shl 3 lshr 4 ashr 5 ctpop 6 ctlz 7 cttz
    Tab(Box<[u64]>, B),
    Unk(u32),
}
#[derive(Clone)]
pub struct Var { pub name: String, pub w: u32, pub secret: bool }
pub struct Ctx {
    pub atoms: Vec<Atom>, pub aw: Vec<u32>, pub secret: Vec<bool>, pub flags: Vec<u8>, // flags: 1 pointer inside, 2 unknown inside
    amap: Map<Atom, A>,
    pub bvs: Vec<Box<[Seg]>>, pub bw: Vec<u32>, bmap: Map<Box<[Seg]>, B>,
    memo: Map<(u8, B, B, u64), B>,
    pub vars: Vec<Var>,
    half: Map<A, A>, // public 64-bit sum -> its low half, a 32-bit sum
    unk: u32,
}
pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { atoms: vec![], aw: vec![], secret: vec![], flags: vec![], amap: Default::default(), bvs: vec![], bw: vec![], bmap: Default::default(), memo: Default::default(), vars: vec![], half: Default::default(), unk: 0 };
        c.atoms.push(Atom::Zero); c.aw.push(0); c.secret.push(false); c.flags.push(0);
        c
    }
    fn atom(&mut self, a: Atom, w: u32, secret: bool, flags: u8) -> A {
        if let Some(x) = self.amap.get(&a) { return *x }
        let i = self.atoms.len() as A;
        self.atoms.push(a.clone()); self.aw.push(w); self.secret.push(secret); self.flags.push(flags); self.amap.insert(a, i); i
    }
    pub fn mk(&mut self, segs: Vec<Seg>) -> B {
        let mut out: Vec<Seg> = Vec::with_capacity(segs.len());
        let mut pos = 0u32;
        let mut st: Vec<Seg> = segs; st.reverse();
        while let Some(mut s) = st.pop() {
            if s.w == 0 { continue }
            let room = 64 - pos % 64;
            if s.w as u32 > room { let r = room as u8; st.push(Seg { a: s.a, lo: if s.a == 0 { 0 } else { s.lo + r }, w: s.w - r, k: s.k >> r }); s.w = r }
            s.k &= mask(s.w as u32);
            if s.a == 0 { s.lo = 0 }
            let merged = match out.last_mut() {
                Some(l) if pos % 64 != 0 && ((s.a == 0 && l.a == 0) || (s.a != 0 && l.a == s.a && l.lo + l.w == s.lo)) => { l.k |= s.k << l.w; l.w += s.w; true }
                _ => false,
            };
            if !merged { out.push(s) }
            pos += s.w as u32;
        }
        let key: Box<[Seg]> = out.into();
        if let Some(x) = self.bmap.get(&key) { return *x }
        let i = self.bvs.len() as B;
        self.bvs.push(key.clone()); self.bw.push(pos); self.bmap.insert(key, i); i
    }
    pub fn w(&self, b: B) -> u32 { self.bw[b as usize] }
    pub fn konst(&mut self, v: u64, w: u32) -> B { let mut segs = vec![]; let mut left = w; let mut v = v; while left > 0 { let t = left.min(64); segs.push(Seg { a: 0, lo: 0, w: t as u8, k: v & mask(t) }); left -= t; v = 0 } self.mk(segs) }
    pub fn wide(&mut self, v: &[u64], w: u32) -> B { let mut segs = vec![]; let mut left = w; for x in v { if left == 0 { break } let t = left.min(64); segs.push(Seg { a: 0, lo: 0, w: t as u8, k: x & mask(t) }); left -= t } self.mk(segs) }
    pub fn var(&mut self, name: &str, w: u32, secret: bool) -> B { let v = self.vars.len() as u32; self.vars.push(Var { name: name.into(), w, secret }); let a = self.atom(Atom::Var(v), w, secret, 0); self.whole(a) }
    pub fn base(&mut self, obj: u32) -> B { let a = self.atom(Atom::Base(obj), 64, false, 1); self.whole(a) }
    pub fn unknown(&mut self, w: u32) -> B { let mut segs = vec![]; let mut l = w; while l > 0 { let t = l.min(64); self.unk += 1; let a = self.atom(Atom::Unk(self.unk), t, false, 2); segs.push(Seg { a, lo: 0, w: t as u8, k: 0 }); l -= t } self.mk(segs) }
    fn whole(&mut self, a: A) -> B {
        let w = self.aw[a as usize];
        if let Some(h) = self.half.get(&a).copied() { return self.mk(vec![Seg { a: h, lo: 0, w: 32, k: 0 }, Seg { a, lo: 32, w: 32, k: 0 }]) }
        self.mk(vec![Seg { a, lo: 0, w: w as u8, k: 0 }])
    }
    pub fn as_const(&self, b: B) -> Option<u64> { let s = &self.bvs[b as usize]; match s.len() { 0 => Some(0), 1 if s[0].a == 0 => Some(s[0].k), _ => { if s.iter().all(|x| x.a == 0) && s[1..].iter().all(|x| x.k == 0) { Some(s[0].k) } else { None } } } }
    pub fn is_const(&self, b: B) -> bool { self.bvs[b as usize].iter().all(|x| x.a == 0) }
    pub fn is_secret(&self, b: B) -> bool { self.bvs[b as usize].iter().any(|x| x.a != 0 && self.secret[x.a as usize]) }
    pub fn fl(&self, b: B) -> u8 { self.bvs[b as usize].iter().fold(0, |f, x| f | self.flags[x.a as usize]) }
    pub fn slice(&mut self, b: B, lo: u32, w: u32) -> B {
        let tw = self.w(b);
        if lo == 0 && w == tw { return b }
        if let Some(r) = self.memo.get(&(0, b, lo, w as u64)) { return *r }
        let mut out = vec![]; let mut pos = 0u32;
        for s in self.bvs[b as usize].iter() {
            let (s0, s1) = (pos, pos + s.w as u32); pos = s1;
            let a = s0.max(lo); let e = s1.min(lo + w);
            if a >= e { continue }
            let d = (a - s0) as u8;
            out.push(Seg { a: s.a, lo: if s.a == 0 { 0 } else { s.lo + d }, w: (e - a) as u8, k: s.k >> d });
        }
        let r = self.mk(out);
        self.memo.insert((0, b, lo, w as u64), r); r
    }
    pub fn concat(&mut self, l: &[B]) -> B { // least significant first
        if l.len() == 1 { return l[0] }
        let mut v = vec![]; for b in l { v.extend_from_slice(&self.bvs[*b as usize]) } self.mk(v)
    }
    pub fn zext(&mut self, b: B, w: u32) -> B { let bw = self.w(b); if bw == w { return b } let z = self.konst(0, w - bw); self.concat(&[b, z]) }
    pub fn trunc(&mut self, b: B, w: u32) -> B { self.slice(b, 0, w) }
    pub fn sext(&mut self, b: B, w: u32) -> B { let bw = self.w(b); if bw == w { return b } let s = self.slice(b, bw - 1, 1); let v = vec![s; (w - bw) as usize]; let mut l = vec![b]; l.extend(v); self.concat(&l) }
    pub fn not(&mut self, b: B) -> B { let v = self.bvs[b as usize].iter().map(|s| Seg { k: !s.k & mask(s.w as u32), ..*s }).collect(); self.mk(v) }
    pub fn rotr(&mut self, b: B, n: u32) -> B { let w = self.w(b); let n = n % w; if n == 0 { return b } let hi = self.slice(b, n, w - n); let lo = self.slice(b, 0, n); self.concat(&[hi, lo]) }
    pub fn shl_c(&mut self, b: B, n: u64) -> B { let w = self.w(b); if n >= w as u64 { return self.konst(0, w) } if n == 0 { return b } let z = self.konst(0, n as u32); let s = self.slice(b, 0, w - n as u32); self.concat(&[z, s]) }
    pub fn shr_c(&mut self, b: B, n: u64) -> B { let w = self.w(b); if n >= w as u64 { return self.konst(0, w) } if n == 0 { return b } let s = self.slice(b, n as u32, w - n as u32); self.zext(s, w) }
    /// runs of (lo, w, kind) where kind says which of a, b is constant there
    fn runs(&self, a: B, b: B, bits: bool) -> Vec<(u32, u32, bool, bool, u64, u64)> {
        let (sa, sb) = (&self.bvs[a as usize], &self.bvs[b as usize]);
        let (mut i, mut j, mut pos) = (0, 0, 0u32); let (mut ea, mut eb) = (0u32, 0u32);
        let mut out: Vec<(u32, u32, bool, bool, u64, u64)> = vec![];
        let w = self.w(a);
        let (mut sta, mut stb) = (0u32, 0u32);
        while pos < w {
            while ea <= pos { sta = ea; ea += sa[i].w as u32; i += 1 }
            while eb <= pos { stb = eb; eb += sb[j].w as u32; j += 1 }
            let (x, y) = (sa[i - 1], sb[j - 1]);
            let mut e = ea.min(eb);
            let (ca, cb) = (x.a == 0, y.a == 0);
            let (mut ka, mut kb) = (0, 0);
            if bits && (ca || cb) { // split where the constant changes
                let bit = |s: &Seg, st: u32, p: u32| (s.k >> (p - st)) & 1;
                if ca { ka = bit(&x, sta, pos) } if cb { kb = bit(&y, stb, pos) }
                let mut p = pos + 1;
                while p < e && (!ca || bit(&x, sta, p) == ka) && (!cb || bit(&y, stb, p) == kb) { p += 1 }
                e = p;
            }
            match out.last_mut() {
                Some(l) if l.2 == ca && l.3 == cb && (!bits || !(ca || cb) || (l.4 == ka && l.5 == kb)) && (l.0 / 32 == (e - 1) / 32) => l.1 += e - pos,
                _ => out.push((pos, e - pos, ca, cb, ka, kb)),
            }
            pos = e;
        }
        out
    }
    fn windows(r: Vec<(u32, u32, bool, bool, u64, u64)>) -> Vec<(u32, u32, bool, bool, u64, u64)> { let mut o = vec![]; for (p, w, a, b, x, y) in r { let mut q = p; while q < p + w { let e = ((q / 32 + 1) * 32).min(p + w); o.push((q, e - q, a, b, x, y)); q = e } } o }
    pub fn xor(&mut self, a: B, b: B) -> B {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == b { let w = self.w(a); return self.konst(0, w) }
        if let Some(r) = self.memo.get(&(1, a, b, 0)) { return *r }
        let runs = Self::windows(self.runs(a, b, false));
        let mut parts = vec![];
        for (lo, w, ca, cb, _, _) in runs {
            let (x, y) = (self.slice(a, lo, w), self.slice(b, lo, w));
            parts.push(if ca { self.xork(y, x) } else if cb { self.xork(x, y) } else { self.xor_word(x, y) });
        }
        let r = self.concat(&parts);
        self.memo.insert((1, a, b, 0), r); r
    }
    fn xork(&mut self, a: B, k: B) -> B { // k constant
        let k = self.as_const(k).unwrap(); let mut pos = 0;
        let v = self.bvs[a as usize].iter().map(|s| { let r = Seg { k: s.k ^ ((k >> pos) & mask(s.w as u32)), ..*s }; pos += s.w as u32; r }).collect();
        self.mk(v)
    }
    fn strip(&mut self, a: B) -> (B, u64) { let mut pos = 0; let mut k = 0; let mut dirty = false; let v: Vec<Seg> = self.bvs[a as usize].iter().map(|s| { k |= s.k << pos; pos += s.w as u32; if s.k != 0 { dirty = true } Seg { k: 0, ..*s } }).collect(); if dirty { (self.mk(v), k) } else { (a, 0) } }
    fn xor_word(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        let ((a, ka), (b, kb)) = (self.strip(a), self.strip(b));
        let mut set: Vec<B> = vec![];
        for x in [a, b] {
            let s = &self.bvs[x as usize];
            let ops: Vec<B> = if s.len() == 1 && s[0].lo == 0 && s[0].w as u32 == self.aw[s[0].a as usize] { if let Atom::Xor(o) = &self.atoms[s[0].a as usize] { o.to_vec() } else { vec![x] } } else { vec![x] };
            for o in ops { if let Some(p) = set.iter().position(|y| *y == o) { set.remove(p); } else { set.push(o) } }
        }
        let k = ka ^ kb;
        if set.is_empty() { return self.konst(k, w) }
        let r = if set.len() == 1 { set[0] } else { set.sort(); let (s, f) = self.props(&set); let a = self.atom(Atom::Xor(set.into()), w, s, f); self.whole(a) };
        let kk = self.konst(k, w); self.xork(r, kk)
    }
    fn props(&self, l: &[B]) -> (bool, u8) { (l.iter().any(|b| self.is_secret(*b)), l.iter().fold(0, |f, b| f | self.fl(*b))) }
    pub fn and(&mut self, a: B, b: B) -> B {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == b { return a }
        if let Some(r) = self.memo.get(&(2, a, b, 0)) { return *r }
        let runs = Self::windows(self.runs(a, b, true));
        let mut parts = vec![];
        for (lo, w, ca, cb, ka, kb) in runs {
            let p = if ca && cb { if ka & kb == 1 { self.konst(!0, w) } else { self.konst(0, w) } } else if ca { if ka == 1 { self.slice(b, lo, w) } else { self.konst(0, w) } } else if cb { if kb == 1 { self.slice(a, lo, w) } else { self.konst(0, w) } }
                else { let (x, y) = (self.slice(a, lo, w), self.slice(b, lo, w)); self.and_word(&[x, y]) };
            parts.push(p);
        }
        let r = self.concat(&parts);
        self.memo.insert((2, a, b, 0), r); r
    }
    fn and_word(&mut self, l: &[B]) -> B {
        let w = self.w(l[0]);
        let mut set: Vec<B> = vec![];
        for x in l { let s = &self.bvs[*x as usize]; if s.len() == 1 && s[0].lo == 0 && s[0].k == 0 && s[0].a != 0 && s[0].w as u32 == self.aw[s[0].a as usize] { if let Atom::And(o) = &self.atoms[s[0].a as usize] { set.extend_from_slice(o); continue } } set.push(*x) }
        set.sort(); set.dedup();
        let all = self.konst(!0, w); set.retain(|x| *x != all);
        if set.is_empty() { return all }
        for i in 0..set.len() { let n = self.not(set[i]); if set.contains(&n) || self.as_const(set[i]) == Some(0) { return self.konst(0, w) } }
        if set.len() == 1 { return set[0] }
        let (s, f) = self.props(&set); let a = self.atom(Atom::And(set.into()), w, s, f); self.whole(a)
    }
    pub fn or(&mut self, a: B, b: B) -> B { let (x, y) = (self.not(a), self.not(b)); let r = self.and(x, y); self.not(r) }
    // ---- sums
    fn is_whole(&self, b: B, w: u32) -> bool { let s = &self.bvs[b as usize]; (s.len() == 1 && s[0].a != 0 && s[0].lo == 0 && s[0].k == 0 && self.aw[s[0].a as usize] == w) || (s.len() == 2 && s[0].a != 0 && s[1].a != 0 && s[1].lo == 32 && s[0].lo == 0 && s[0].k == 0 && s[1].k == 0 && self.half.get(&s[1].a) == Some(&s[0].a)) }
    fn sum_of(&self, b: B) -> Option<(&[(B, u64)], u64)> {
        let s = &self.bvs[b as usize];
        let a = if s.len() == 1 && s[0].a != 0 && s[0].lo == 0 && s[0].k == 0 && s[0].w as u32 == self.aw[s[0].a as usize] { s[0].a }
            else if s.len() == 2 && s[0].a != 0 && s[1].a != 0 && s[1].lo == 32 && s[1].w == 32 && s[0].w == 32 && s[0].lo == 0 && s[0].k == 0 && s[1].k == 0 && self.half.get(&s[1].a) == Some(&s[0].a) { s[1].a } else { return None };
        match &self.atoms[a as usize] { Atom::Sum(t, k, _) => Some((t, *k)), _ => None }
    }
    pub fn lin(&mut self, ops: &[(B, u64)], k0: u64, w: u32) -> B { // sum of coef*op + k0 mod 2^w
        let m = mask(w);
        let mut t: Vec<(B, u64)> = vec![]; let mut k = k0;
        for (b, c) in ops {
            let c = c & m; if c == 0 { continue }
            if let Some(v) = self.as_const(*b) { k = k.wrapping_add(v.wrapping_mul(c)); continue }
            if let Some((ts, kk)) = self.sum_of(*b) { k = k.wrapping_add(kk.wrapping_mul(c)); let ts: Vec<_> = ts.to_vec(); for (x, y) in ts { t.push((x, y.wrapping_mul(c) & m)) } continue }
            t.push((*b, c));
        }
        k &= m;
        // strip low zero bits into the coefficient, drop bits the coefficient shifts out
        let mut u: Vec<(B, u64)> = vec![];
        for (b, c) in t {
            if c == 0 { continue }
            let s0 = self.bvs[b as usize][0];
            let (mut b, mut c) = (b, c);
            if s0.a == 0 && s0.k == 0 && self.bvs[b as usize].len() > 1 { let z = s0.w as u32; b = self.shr_c(b, z as u64); c = c.wrapping_shl(z) & m; if z >= w { continue } }
            if c == 0 { continue }
            let tz = c.trailing_zeros();
            if tz > 0 { // the top bits do not count: an atom they come from is taken whole
                let x = self.slice(b, 0, w - tz); b = self.zext(x, w);
                let sg = self.bvs[x as usize].clone();
                let full = match sg.len() { 1 if sg[0].a != 0 && sg[0].lo == 0 && sg[0].k == 0 && self.aw[sg[0].a as usize] == w => Some(sg[0].a), 2 if sg[0].a != 0 && sg[1].a != 0 && sg[0].lo == 0 && sg[1].lo == 32 && sg[0].k == 0 && sg[1].k == 0 && w == 64 && self.half.get(&sg[1].a) == Some(&sg[0].a) => Some(sg[1].a), _ => None };
                if let Some(a) = full { b = self.whole(a); if let Some((ts, kk)) = self.sum_of(b) { k = k.wrapping_add(kk.wrapping_mul(c)) & m; let ts: Vec<_> = ts.to_vec(); for (x, y) in ts { u.push((x, y.wrapping_mul(c) & m)) } continue } }
            }
            if let Some(v) = self.as_const(b) { k = k.wrapping_add(v.wrapping_mul(c)) & m; continue }
            u.push((b, c));
        }
        u.sort();
        let mut v: Vec<(B, u64)> = vec![];
        for (b, c) in u { match v.last_mut() { Some(l) if l.0 == b => l.1 = l.1.wrapping_add(c) & m, _ => v.push((b, c)) } }
        v.retain(|x| x.1 != 0);
        if v.is_empty() { return self.konst(k, w) }
        if v.iter().any(|x| x.1.trailing_zeros() > 0 && !self.is_whole(x.0, w) && { let z = x.1.trailing_zeros(); let s = &self.bvs[x.0 as usize]; let last = s[s.len() - 1]; !(last.a == 0 && last.k == 0 && last.w as u32 >= z) }) { return self.lin(&v, k, w) }
        if v.len() == 1 && k == 0 && v[0].1.is_power_of_two() { return self.shl_c(v[0].0, v[0].1.trailing_zeros() as u64) }
        let l: Vec<B> = v.iter().map(|x| x.0).collect();
        let (s, f) = self.props(&l);
        let nt = v.clone();
        let n = self.atoms.len();
        let a = self.atom(Atom::Sum(v.into(), k, w), w, s, f);
        if a as usize == n && w == 64 && !s && f == 0 {
            let lo: Vec<(B, u64)> = nt.iter().map(|(b, c)| (self.slice(*b, 0, 32), *c)).collect();
            let h = self.lin(&lo, k, 32);
            let sg = self.bvs[h as usize].clone();
            if sg.len() == 1 && sg[0].a != 0 && sg[0].lo == 0 && sg[0].k == 0 && self.aw[sg[0].a as usize] == 32 { self.half.insert(a, sg[0].a); }
        }
        self.whole(a)
    }
    pub fn add(&mut self, a: B, b: B) -> B {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if let Some(r) = self.memo.get(&(3, a, b, 0)) { return *r }
        let w = self.w(a);
        let r = if w > 64 { self.unknown(w) } else { self.lin(&[(a, 1), (b, 1)], 0, w) };
        self.memo.insert((3, a, b, 0), r); r
    }
    pub fn sub(&mut self, a: B, b: B) -> B { let w = self.w(a); if w > 64 { return self.unknown(w) } self.lin(&[(a, 1), (b, !0)], 0, w) }
    pub fn mul(&mut self, a: B, b: B) -> B {
        let w = self.w(a);
        if w > 64 { return self.unknown(w) }
        if let Some(k) = self.as_const(a) { return self.lin(&[(b, k)], 0, w) }
        if let Some(k) = self.as_const(b) { return self.lin(&[(a, k)], 0, w) }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let (s, f) = self.props(&[a, b]); let x = self.atom(Atom::Mul(a, b), w, s, f); self.whole(x)
    }
    pub fn op(&mut self, o: u8, a: B, b: B) -> B {
        let w = self.w(a);
        let kb = self.as_const(b);
        match (o, kb) {
            (2, Some(k)) => return self.shl_c(a, k), (3, Some(k)) => return self.shr_c(a, k),
            (4, Some(k)) => { let k = k.min(w as u64 - 1) as u32; let s = self.slice(a, k, w - k); return self.sext(s, w) }
            (0, Some(k)) if k.is_power_of_two() => return self.shr_c(a, k.trailing_zeros() as u64),
            (1, Some(k)) if k.is_power_of_two() => { let z = k.trailing_zeros(); if z == 0 { return self.konst(0, w) } let s = self.slice(a, 0, z); return self.zext(s, w) }
            _ => {}
        }
        if w > 64 { return self.unknown(w) }
        if let (Some(x), Some(y)) = (self.as_const(a), kb) { let v = eval_op(o, x, y, w); return self.konst(v, w) }
        let (s, f) = self.props(&[a, b]); let x = self.atom(Atom::Op(o, a, b), w, s, f); self.whole(x)
    }
    pub fn range(&self, b: B) -> (u64, u64) { // crude unsigned bounds
        if self.w(b) > 64 { return (0, !0) }
        let s = &self.bvs[b as usize];
        if s.len() == 1 && s[0].a != 0 && s[0].k == 0 && s[0].lo == 0 { match &self.atoms[s[0].a as usize] { Atom::Tab(t, _) if s[0].w as u32 == self.aw[s[0].a as usize] => return (*t.iter().min().unwrap(), *t.iter().max().unwrap()), _ => {} } }
        let (mut lo, mut hi, mut pos) = (0u64, 0u64, 0);
        for x in s.iter() { let m = mask(x.w as u32); if x.a == 0 { lo |= x.k << pos; hi |= x.k << pos } else { let (l, h) = match &self.atoms[x.a as usize] { Atom::Tab(t, _) if x.k == 0 && x.lo == 0 && x.w as u32 == self.aw[x.a as usize] => (*t.iter().min().unwrap(), *t.iter().max().unwrap()), _ => (0, m) }; lo |= l << pos; hi |= h << pos } pos += x.w as u32 }
        (lo, hi)
    }
    pub fn eq(&mut self, a: B, b: B) -> B {
        if a == b { return self.konst(1, 1) }
        if let (Some((x, xk)), Some((y, yk))) = (self.ptr_parts(a), self.ptr_parts(b)) { if x == y { return self.konst((xk == yk) as u64, 1) } if self.fl(a) & 1 == 1 && self.fl(b) & 1 == 1 { return self.konst(0, 1) } }
        if (self.fl(a) | self.fl(b)) & 1 == 1 && (self.is_const(a) || self.is_const(b)) { return self.konst(0, 1) } // an address is not a small constant
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 || rb.1 < ra.0 { return self.konst(0, 1) }
        let w = self.w(a);
        if w <= 64 && (self.sum_of(a).is_some() || self.sum_of(b).is_some()) { // a - b == 0, sign-normalised
            let d = self.sub(a, b);
            if let Some(k) = self.as_const(d) { return self.konst((k == 0) as u64, 1) }
            if let Some((t, _)) = self.sum_of(d) { let d2 = if t[0].1 > mask(w) / 2 { self.lin(&[(d, !0)], 0, w) } else { d }; return self.eq0(d2) }
        }
        let d = self.xor(a, b); self.eq0(d)
    }
    fn eq0(&mut self, d: B) -> B {
        // conjunction over bytes, so that the width of the comparison does not show
        let w = self.w(d); let mut lits = vec![];
        if self.sum_of(d).is_some() { return self.eq0_atom(d) }
        let mut p = 0;
        while p < w {
            let n = (8 - p % 8).min(w - p); let s = self.slice(d, p, n); p += n;
            let s = self.push(s);
            if let Some(k) = self.as_const(s) { if k != 0 { return self.konst(0, 1) } continue }
            // ~And{~x..} == 0  <=>  every x == 0
            let ns = self.not(s); let sg = self.bvs[ns as usize].clone();
            if sg.len() == 1 && sg[0].k == 0 && sg[0].lo == 0 && sg[0].w as u32 == self.aw[sg[0].a as usize] { if let Atom::And(o) = self.atoms[sg[0].a as usize].clone() { for x in o.iter() { let nx = self.not(*x); let e = self.eq0(nx); lits.push(e) } continue } }
            if self.w(s) == 1 { let e = self.not(s); lits.push(e); continue }
            lits.push(self.eq0_atom(s));
        }
        if lits.is_empty() { return self.konst(1, 1) }
        let mut r = lits[0]; for l in &lits[1..] { r = self.and(r, *l) } r
    }
    fn eq0_atom(&mut self, d: B) -> B {
        // if d is a boolean widened, invert it
        let s = self.bvs[d as usize].clone();
        if s.len() == 2 && s[0].w == 1 && s[1].a == 0 && s[1].k == 0 { let b = self.slice(d, 0, 1); return self.not(b) }
        let (s, f) = self.props(&[d]); let x = self.atom(Atom::Eq0(d), 1, s, f); self.whole(x)
    }
    /// slice of a bitwise atom -> bitwise atom of slices
    fn push(&mut self, b: B) -> B {
        let s = self.bvs[b as usize].clone();
        let mut out = vec![];
        for x in s.iter() {
            if x.a == 0 || x.w as u32 == self.aw[x.a as usize] { let r = self.mk(vec![*x]); out.push(r); continue }
            let k = self.konst(x.k, x.w as u32);
            match self.atoms[x.a as usize].clone() {
                Atom::Xor(o) => { let mut r = k; for y in o.iter() { let z = self.slice(*y, x.lo as u32, x.w as u32); let z = self.push(z); r = self.xor(r, z) } out.push(r) }
                Atom::And(o) => { let mut r = self.konst(!0, x.w as u32); for y in o.iter() { let z = self.slice(*y, x.lo as u32, x.w as u32); let z = self.push(z); r = self.and(r, z) } let r = self.xor(r, k); out.push(r) }
                _ => { let r = self.mk(vec![*x]); out.push(r) }
            }
        }
        self.concat(&out)
    }
    pub fn ult(&mut self, a: B, b: B) -> B {
        if a == b { return self.konst(0, 1) }
        if let (Some((x, xk)), Some((y, yk))) = (self.ptr_parts(a), self.ptr_parts(b)) { if x == y { return self.konst((xk < yk) as u64, 1) } }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 { return self.konst(1, 1) }
        if ra.0 >= rb.1 { return self.konst(0, 1) }
        let w = self.w(a);
        if self.as_const(b) == Some(1) { let z = self.konst(0, w); return self.eq(a, z) }
        if self.as_const(a) == Some(0) { let e = self.eq(b, a); return self.not(e) }
        let (s, f) = self.props(&[a, b]); let x = self.atom(Atom::Ult(a, b), 1, s, f); self.whole(x)
    }
    pub fn slt(&mut self, a: B, b: B) -> B { let w = self.w(a); let k = self.konst(if w <= 64 { 1u64 << (w - 1) } else { 0 }, w); let (x, y) = (self.xor(a, k), self.xor(b, k)); self.ult(x, y) }
    pub fn ite(&mut self, c: B, a: B, b: B) -> B {
        if a == b { return a }
        if let Some(k) = self.as_const(c) { return if k & 1 == 1 { a } else { b } }
        let s = self.bvs[c as usize][0]; if s.k == 1 { let n = self.not(c); return self.ite(n, b, a) }
        let w = self.w(a);
        if w == 1 { let nc = self.not(c); let (x, y) = (self.and(c, a), self.and(nc, b)); return self.or(x, y) }
        if w > 64 { return self.unknown(w) }
        let (s, f) = self.props(&[a, b, c]); let x = self.atom(Atom::Ite(c, a, b), w, s, f); self.whole(x)
    }
    pub fn tab(&mut self, t: Vec<u64>, idx: B, w: u32) -> B { // idx has log2(t.len()) bits
        if let Some(k) = self.as_const(idx) { return self.konst(t[k as usize], w) }
        if t.iter().all(|x| *x == t[0]) { return self.konst(t[0], w) }
        let (s, f) = self.props(&[idx]); let a = self.atom(Atom::Tab(t.into(), idx), w, s, f); self.whole(a)
    }
    pub fn ptr_parts(&self, b: B) -> Option<(u32, u64)> {
        let s = &self.bvs[b as usize];
        if s.len() != 1 || s[0].a == 0 || s[0].w != 64 || s[0].k != 0 { return None }
        match &self.atoms[s[0].a as usize] {
            Atom::Base(o) => Some((*o, 0)),
            Atom::Sum(t, k, 64) if t.len() == 1 && t[0].1 == 1 => match self.ptr_parts(t[0].0) { Some((o, 0)) => Some((o, *k)), _ => None },
            _ => None,
        }
    }
    /// pointer = object + const + symbolic rest
    pub fn ptr_sym(&mut self, b: B) -> Option<(u32, B)> {
        if let Some((o, k)) = self.ptr_parts(b) { let k = self.konst(k, 64); return Some((o, k)) }
        let (t, k) = { let (t, k) = self.sum_of(b)?; (t.to_vec(), k) };
        let mut o = None; let mut rest = vec![];
        for (x, c) in t { match self.ptr_parts(x) { Some((ob, 0)) if c == 1 && o.is_none() => o = Some(ob), _ => { if self.fl(x) & 1 != 0 { return None } rest.push((x, c)) } } }
        let r = self.lin(&rest, k, 64); Some((o?, r))
    }
    // ---- evaluation under an assignment of the variables
    pub fn deps(&self, roots: &[B]) -> Vec<A> { // atoms reachable, ascending (operands first)
        let mut seen = vec![false; self.atoms.len()]; let mut st: Vec<A> = vec![];
        let add = |b: B, st: &mut Vec<A>| for s in self.bvs[b as usize].iter() { if s.a != 0 { st.push(s.a) } };
        for r in roots { add(*r, &mut st) }
        let mut out = vec![];
        while let Some(a) = st.pop() {
            if seen[a as usize] { continue } seen[a as usize] = true; out.push(a);
            match &self.atoms[a as usize] { Atom::Sum(t, _, _) => for x in t.iter() { add(x.0, &mut st) }, Atom::Xor(o) | Atom::And(o) => for x in o.iter() { add(*x, &mut st) }, Atom::Ite(a, b, c) => { add(*a, &mut st); add(*b, &mut st); add(*c, &mut st) } Atom::Eq0(a) | Atom::Tab(_, a) => add(*a, &mut st), Atom::Ult(a, b) | Atom::Mul(a, b) | Atom::Op(_, a, b) => { add(*a, &mut st); add(*b, &mut st) } _ => {} }
        }
        out.sort(); out
    }
    pub fn evb(&self, b: B, v: &[u64]) -> u64 { let (mut r, mut pos) = (0u64, 0u32); for s in self.bvs[b as usize].iter() { if pos >= 64 { break } let x = if s.a == 0 { s.k } else { ((v[s.a as usize] >> s.lo) & mask(s.w as u32)) ^ s.k }; r |= x << pos; pos += s.w as u32 } r }
    pub fn eval(&self, order: &[A], assign: &dyn Fn(u32) -> u64, v: &mut Vec<u64>) {
        if v.len() < self.atoms.len() { v.resize(self.atoms.len(), 0) }
        for a in order {
            let w = self.aw[*a as usize];
            let x = match &self.atoms[*a as usize] {
                Atom::Zero => 0, Atom::Var(k) => assign(*k), Atom::Base(o) => 0x1000_0000 + (*o as u64) * 0x10_0000, Atom::Unk(k) => (*k as u64).wrapping_mul(0x9E3779B97F4A7C15),
                Atom::Sum(t, k, _) => t.iter().fold(*k, |s, (b, c)| s.wrapping_add(self.evb(*b, v).wrapping_mul(*c))),
                Atom::Xor(o) => o.iter().fold(0, |s, b| s ^ self.evb(*b, v)), Atom::And(o) => o.iter().fold(!0, |s, b| s & self.evb(*b, v)),
                Atom::Ite(c, a, b) => if self.evb(*c, v) & 1 == 1 { self.evb(*a, v) } else { self.evb(*b, v) },
                Atom::Eq0(a) => (self.evb(*a, v) == 0) as u64, Atom::Ult(a, b) => (self.evb(*a, v) < self.evb(*b, v)) as u64,
                Atom::Mul(a, b) => self.evb(*a, v).wrapping_mul(self.evb(*b, v)), Atom::Op(o, a, b) => eval_op(*o, self.evb(*a, v), self.evb(*b, v), w),
                Atom::Tab(t, a) => t[self.evb(*a, v) as usize],
            };
            v[*a as usize] = x & mask(w);
        }
    }
    pub fn support(&self, order: &[A]) -> Vec<u32> { order.iter().filter_map(|a| if let Atom::Var(v) = &self.atoms[*a as usize] { Some(*v) } else { None }).collect() }
    /// If the value depends on at most 16 bits of input, its possible values are enumerated.
    pub fn enumerate(&self, b: B) -> Option<Vec<u64>> {
        let order = self.deps(&[b]);
        if order.iter().any(|a| matches!(self.atoms[*a as usize], Atom::Unk(_) | Atom::Base(_))) { return None }
        let sup = self.support(&order);
        // which bits of each variable are used
        let mut used: HashMap<u32, u64> = HashMap::new();
        let mut note = |x: B| for s in self.bvs[x as usize].iter() { if s.a != 0 { if let Atom::Var(v) = &self.atoms[s.a as usize] { *used.entry(*v).or_insert(0) |= mask(s.w as u32) << s.lo } } };
        note(b);
        for a in &order { match &self.atoms[*a as usize] { Atom::Sum(t, _, _) => for x in t.iter() { note(x.0) }, Atom::Xor(o) | Atom::And(o) => for x in o.iter() { note(*x) }, Atom::Ite(a, b, c) => { note(*a); note(*b); note(*c) } Atom::Eq0(a) | Atom::Tab(_, a) => note(*a), Atom::Ult(a, b) | Atom::Mul(a, b) | Atom::Op(_, a, b) => { note(*a); note(*b) } _ => {} } }
        let total: u32 = sup.iter().map(|v| used.get(v).map_or(0, |m| m.count_ones())).sum();
        if total > 16 || order.len() > 200 { return None }
        let mut v = vec![]; let mut vals = vec![];
        for x in 0..(1u64 << total) {
            let mut asg: HashMap<u32, u64> = HashMap::new(); let mut k = 0;
            for s in &sup { let mut m = used.get(s).copied().unwrap_or(0); let mut val = 0; while m != 0 { let bit = m.trailing_zeros(); m &= m - 1; val |= ((x >> k) & 1) << bit; k += 1 } asg.insert(*s, val); }
            self.eval(&order, &|k| asg[&k], &mut v); vals.push(self.evb(b, &v));
        }
        vals.sort(); vals.dedup(); Some(vals)
    }
}
pub fn eval_op(o: u8, x: u64, y: u64, w: u32) -> u64 {
    (match o { 0 => if y == 0 { 0 } else { x / y }, 1 => if y == 0 { 0 } else { x % y }, 2 => if y >= w as u64 { 0 } else { x << y }, 3 => if y >= w as u64 { 0 } else { x >> y }, 4 => { let s = ((x << (64 - w)) as i64) >> (64 - w); (s >> y.min(63)) as u64 } 5 => x.count_ones() as u64, 6 => (x.leading_zeros() - (64 - w)) as u64, 7 => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }, _ => 0 }) & mask(w)
}
