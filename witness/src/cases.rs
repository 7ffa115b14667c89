use crate::spec::{self, Cv};
use crate::util::*;
use std::io::{self, Read, Write};

pub fn key_of(seed: u64) -> [u8; 32] { let mut k = [0; 32]; Rng::new(seed ^ 0x6b6579).fill(&mut k); k }
pub fn mode(m: &str, seed: u64) -> ([u8; 32], [u32; 8], u8) {
    let k = key_of(seed);
    match m { "keyed" => (k, spec::words(&k), spec::KEYED), "derive" => (k, spec::words(&k), spec::DERIVE), _ => (k, spec::IV, 0) }
}
pub fn ck<T: AsRef<[u8]>, U: AsRef<[u8]>>(what: &str, got: T, want: U) -> Result<(), String> {
    static FRAME: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *FRAME.get_or_init(|| std::env::var_os("VX_FRAME_ONLY").is_some()) && !what.contains("FRAME") { return Ok(()); }
    if got.as_ref() == want.as_ref() { Ok(()) } else {
        let (g, w) = (got.as_ref(), want.as_ref());
        let i = (0..g.len().min(w.len())).find(|&i| g[i] != w[i]).unwrap_or(g.len().min(w.len()));
        Err(format!("{}: got {} want {} (first difference at byte {})", what, hex(&g[..g.len().min(128)]), hex(&w[..w.len().min(128)]), i))
    }
}
pub use ck as check_eq;
fn plat(c: &Case) { baokeshed::vx_feat::set(match st(c, "plat") { "portable" => 0, "sse41" => 1, _ => 2 }); }
fn oneshot(m: &str, key: &[u8; 32], d: &[u8]) -> (Vec<u8>, baokeshed::Output) {
    match m {
        "keyed" => (baokeshed::keyed_hash(key, d).as_bytes().to_vec(), baokeshed::keyed_hash_xof(key, d)),
        "derive" => (baokeshed::derive_key(key, d).to_vec(), baokeshed::derive_key_xof(key, d)),
        _ => (baokeshed::hash(d).as_bytes().to_vec(), baokeshed::hash_xof(d)),
    }
}
fn hasher(m: &str, key: &[u8; 32]) -> baokeshed::Hasher {
    match m { "keyed" => baokeshed::Hasher::new_keyed(key), "derive" => baokeshed::Hasher::new_derive_key(key), _ => baokeshed::Hasher::new() }
}

pub fn run(case: &str) -> Result<(), String> {
    let c = &parse(case);
    plat(c);
    match st(c, "kind") {
        "one" => one(c),
        "oneclone" => oneclone(c),
        "rec" => rec(c),
        "inc" => inc(c),
        "incdeep" => incdeep(c),
        "xof" => xof(c),
        "xofat" => xofat(c),
        "kcomp" => kcomp(c),
        "kmany" => kmany(c),
        "kcomp64" => kcomp64(c),
        "kmany64" => kmany64(c),
        "copy" => copy(c),
        "hashv" => hashv(c),
        "refimpl" => refimpl(c),
        #[cfg(feature = "c")]
        "ccomp" | "cmany" | "ccomp64" | "cmany64" | "cinc" | "cchunk" | "cincdeep" => crate::ccases::run(c),
        k => Err(format!("unknown case kind {}", k)),
    }
}

fn one(c: &Case) -> Result<(), String> {
    let len = num(c, "len") as usize;
    let data = Data::make(st(c, "pat"), num(c, "dseed"), len);
    let d = data.get(len);
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let want = spec::root(&kw, fl, d);
    let (h, mut o) = oneshot(st(c, "mode"), &k, d);
    ck("one-shot hash", &h, want.cv())?;
    for i in 0..num(c, "xof").max(1) { ck(&format!("xof block {}", i), o.read(), want.xof(i))?; }
    Ok(())
}
fn oneclone(c: &Case) -> Result<(), String> { one(c) }

#[cfg(feature = "hooks")]
fn rec(c: &Case) -> Result<(), String> {
    let len = num(c, "len") as usize;
    let off = num(c, "off");
    let data = Data::make(st(c, "pat"), num(c, "dseed"), len);
    let d = data.get(len);
    let (_, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let mut out = [0u8; 32 * 8];
    let n = baokeshed::vx_hook::recurse(d, &kw, off, fl, &mut out);
    if n > 8 { return Err(format!("hash_recurse returned {}", n)); }
    let got: Vec<Cv> = (0..n).map(|i| out[32 * i..32 * i + 32].try_into().unwrap()).collect();
    let want = spec::chunk_cvs(&kw, fl, d, off);
    ck("subtree value", spec::tree(&kw, fl, &got), spec::tree(&kw, fl, &want))?;
    if want.len() > 1 {
        if n < 2 { return Err("a root with two children was reduced too far".into()); }
        ck("root over the subtree", spec::top(&kw, fl, &got).cv(), spec::top(&kw, fl, &want).cv())?;
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn rec(_: &Case) -> Result<(), String> { Ok(()) }

// ops: u<n> update, w<n> io::Write, f finalize, x<n> finalize_xof reads, c clone and continue, a<n> abandon: a clone takes n bytes
fn inc(c: &Case) -> Result<(), String> {
    let ops: Vec<(char, usize)> = st(c, "ops").split(',').filter(|s| !s.is_empty()).map(|s| (s.chars().next().unwrap(), s[1..].parse().unwrap_or(0))).collect();
    let total: usize = ops.iter().filter(|o| o.0 == 'u' || o.0 == 'w').map(|o| o.1).sum();
    let data = Data::make(st(c, "pat"), num(c, "dseed"), total);
    let d = data.get(total);
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let mut h = hasher(st(c, "mode"), &k);
    let mut p = 0;
    let junk = Rng::new(num(c, "dseed") ^ 77).bytes(5000);
    for (i, (op, n)) in ops.iter().enumerate() {
        match op {
            'u' => { h.update(&d[p..p + n]); p += n; }
            'w' => {
                let mut q = p;
                while q < p + n {
                    let m = h.write(&d[q..p + n]).map_err(|e| format!("write failed: {}", e))?;
                    if m == 0 || m > p + n - q { return Err(format!("write returned {}", m)); }
                    q += m;
                }
                h.flush().map_err(|e| e.to_string())?;
                p += n;
            }
            'f' => ck(&format!("finalize at op {} after {} bytes", i, p), h.finalize().as_bytes(), spec::root(&kw, fl, &d[..p]).cv())?,
            'x' => {
                let want = spec::root(&kw, fl, &d[..p]);
                let mut o = h.finalize_xof();
                for j in 0..(*n).max(1) { ck(&format!("finalize_xof block {} at op {} after {} bytes", j, i, p), o.read(), want.xof(j as u64))?; }
            }
            'c' => { let g = h.clone(); drop(std::mem::replace(&mut h, g)); }
            'a' => { let mut g = h.clone(); g.update(&junk[..*n % 5000]); g.finalize(); }
            _ => return Err("op".into()),
        }
    }
    let want = spec::root(&kw, fl, d);
    ck("final hash", h.finalize().as_bytes(), want.cv())?;
    ck("final hash repeated", h.finalize().as_bytes(), want.cv())?;
    let mut o = h.finalize_xof();
    for j in 0..2 { ck("final xof", o.read(), want.xof(j))?; }
    Ok(())
}

// A tree whose first n chunks are already known only as subtree values.
pub struct Deep { pub n: u64, pub parts: Vec<(u64, u64, Cv)> }
impl Deep {
    pub fn new(n: u64, unmerged: bool, seed: u64) -> Deep {
        let mut r = Rng::new(seed ^ 0xdee9);
        let mut parts = vec![];
        let mut at = 0;
        let m = if unmerged { n - 1 } else { n };
        for b in (0..64).rev() {
            if m >> b & 1 == 1 { let mut cv = [0; 32]; r.fill(&mut cv); parts.push((at, 1u64 << b, cv)); at += 1 << b; }
        }
        if unmerged { let mut cv = [0; 32]; r.fill(&mut cv); parts.push((at, 1, cv)); }
        Deep { n, parts }
    }
    pub fn cv(&self, key: &[u32; 8], fl: u8, more: &[Cv], lo: u64, hi: u64) -> Cv {
        if let Some(p) = self.parts.iter().find(|p| p.0 == lo && p.1 == hi - lo) { return p.2; }
        if hi - lo == 1 { return more[(lo - self.n) as usize]; }
        let l = spec::left(hi - lo);
        spec::parent(key, &self.cv(key, fl, more, lo, lo + l), &self.cv(key, fl, more, lo + l, hi), fl, 0).cv()
    }
    pub fn root(&self, key: &[u32; 8], fl: u8, tail: &[u8]) -> spec::Node {
        let more = if tail.is_empty() { vec![] } else { spec::chunk_cvs(key, fl, tail, self.n * 2048) };
        let hi = self.n + more.len() as u64;
        let l = spec::left(hi);
        spec::parent(key, &self.cv(key, fl, &more, 0, l), &self.cv(key, fl, &more, l, hi), fl, spec::ROOT)
    }
}
// ops as above, starting after n chunks (unmerged=1: the last one still on its own)
#[cfg(feature = "hooks")]
fn incdeep(c: &Case) -> Result<(), String> {
    let n = num(c, "n");
    let deep = Deep::new(n, num(c, "unmerged") == 1, num(c, "dseed"));
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let mut h = hasher(st(c, "mode"), &k);
    let cvs: Vec<[u8; 32]> = deep.parts.iter().map(|p| p.2).collect();
    baokeshed::vx_hook::hasher_put(&mut h, n * 2048, &cvs);
    let ops: Vec<(char, usize)> = st(c, "ops").split(',').filter(|s| !s.is_empty()).map(|s| (s.chars().next().unwrap(), s[1..].parse().unwrap_or(0))).collect();
    let total: usize = ops.iter().map(|o| o.1).sum();
    let d = Rng::new(num(c, "dseed")).bytes(total);
    let mut p = 0;
    for (op, m) in ops {
        match op { 'f' => {} , _ => { h.update(&d[p..p + m]); p += m; } }
        if p > 0 || num(c, "unmerged") == 1 {
            ck(&format!("finalize after {} chunks and {} bytes", n, p), h.finalize().as_bytes(), deep.root(&kw, fl, &d[..p]).cv())?;
        }
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn incdeep(_: &Case) -> Result<(), String> { Ok(()) }

fn xof(c: &Case) -> Result<(), String> {
    let len = num(c, "len") as usize;
    let data = Data::make(st(c, "pat"), num(c, "dseed"), len);
    let d = data.get(len);
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let want = spec::root(&kw, fl, d);
    let (_, mut o) = oneshot(st(c, "mode"), &k, d);
    let mut o2 = { let mut h = hasher(st(c, "mode"), &k); h.update(d); h.finalize_xof() };
    let reads = num(c, "reads");
    for i in 0..reads {
        // positions are spot-checked on long runs
        let b = o.read();
        if reads < 5000 || i % 65536 < 2 || i + 3 > reads { ck(&format!("block {}", i), b, want.xof(i))?; }
        if reads < 5000 { ck(&format!("incremental block {}", i), o2.read(), want.xof(i))?; }
    }
    let h = o.to_hash();
    ck("hash after the reads", h.as_bytes(), &want.xof(reads)[..32])
}
#[cfg(feature = "hooks")]
fn xofat(c: &Case) -> Result<(), String> {
    let len = num(c, "len") as usize;
    let d = Rng::new(num(c, "dseed")).bytes(len);
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let want = spec::root(&kw, fl, &d);
    let (_, mut o) = oneshot(st(c, "mode"), &k, &d);
    let at = num(c, "block");
    baokeshed::vx_hook::output_at(&mut o, at * 64);
    for i in 0..3 { ck(&format!("block {}", at + i), o.read(), want.xof(at + i))?; }
    ck("hash after the reads", o.to_hash().as_bytes(), &want.xof(at + 3)[..32])
}
#[cfg(not(feature = "hooks"))]
fn xofat(_: &Case) -> Result<(), String> { Ok(()) }

/// bytes given explicitly in the case, instead of drawn from dseed
pub fn given(c: &Case, k: &str) -> Option<Vec<u8>> { let h = c.get(k)?; Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()) }
pub struct KIn { pub cv: [u32; 8], pub block: [u8; 64], pub len: u8, pub off: u64, pub flags: u8 }
pub fn kin(c: &Case) -> KIn {
    let mut r = Rng::new(num(c, "dseed"));
    let mut cv = [0; 8];
    for w in cv.iter_mut() { *w = r.u64() as u32; }
    let mut block = [0; 64];
    r.fill(&mut block);
    if let Some(v) = given(c, "cv") { for i in 0..8 { cv[i] = u32::from_le_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]); } }
    if let Some(v) = given(c, "block") { block.copy_from_slice(&v); }
    KIn { cv, block, len: num(c, "blen") as u8, off: num(c, "off"), flags: num(c, "flags") as u8 }
}
fn kcomp(c: &Case) -> Result<(), String> {
    let k = kin(c);
    let want = spec::bytes(&spec::compress(&k.cv, &k.block, k.len, k.off, k.flags));
    let wantx = spec::xof(&k.cv, &k.block, k.len, k.off, k.flags);
    for at_end in [false, true] {
        let cvb: Vec<u8> = k.cv.iter().flat_map(|w| w.to_ne_bytes()).collect();
        let gcv = Guard::of(&cvb, at_end);
        let gbl = Guard::of(&k.block, at_end);
        let cv = unsafe { &mut *(gcv.ptr as *mut [u32; 8]) };
        let bl = unsafe { &*(gbl.ptr as *const [u8; 64]) };
        let x = match st(c, "impl") {
            "sse41" => unsafe { baokeshed::sse41::compress_xof(cv, bl, k.len, k.off, k.flags) },
            _ => baokeshed::portable::compress_xof(cv, bl, k.len, k.off, k.flags),
        };
        ck("compress_xof", x, wantx)?;
        if *cv != k.cv { return Err("FRAME compress_xof changed its input".into()); }
        match st(c, "impl") {
            "sse41" => unsafe { baokeshed::sse41::compress(cv, bl, k.len, k.off, k.flags) },
            _ => baokeshed::portable::compress(cv, bl, k.len, k.off, k.flags),
        }
        ck("compress", spec::bytes(cv), want)?;
        if gbl.get() != &k.block[..] { return Err("FRAME compress changed the block".into()); }
    }
    Ok(())
}
pub struct MIn { pub key: [u32; 8], pub data: Vec<u8>, pub n: usize, pub size: usize, pub off: u64, pub delta: u64, pub fl: [u8; 3], pub extra: usize }
pub fn min(c: &Case) -> MIn {
    let mut r = Rng::new(num(c, "dseed"));
    let mut key = [0; 8];
    for w in key.iter_mut() { *w = r.u64() as u32; }
    let (n, size) = (num(c, "n") as usize, num(c, "size") as usize);
    let f = num(c, "flags");
    if let Some(v) = given(c, "key") { for i in 0..8 { key[i] = u32::from_le_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]); } }
    MIn { key, data: given(c, "data").unwrap_or_else(|| r.bytes(n * size)), n, size, off: num(c, "off"), delta: num(c, "delta"), fl: [f as u8, (f >> 8) as u8, (f >> 16) as u8], extra: num(c, "extra") as usize }
}
pub fn many_want(m: &MIn) -> Vec<u8> {
    let mut w = vec![];
    for i in 0..m.n {
        w.extend(spec::many(&m.key, &m.data[i * m.size..(i + 1) * m.size], m.off.wrapping_add(m.delta.wrapping_mul(i as u64)), m.fl[0], m.fl[1], m.fl[2]));
    }
    w.extend(vec![0xa5; m.extra]);
    w
}
fn kmany_n<A: arrayvec_array::Arr>(c: &Case, m: &MIn) -> Result<(), String> {
    let want = many_want(m);
    for at_end in [false, true] {
        let gs: Vec<Guard> = (0..m.n).map(|i| Guard::of(&m.data[i * m.size..(i + 1) * m.size], at_end)).collect();
        let ins: Vec<&A> = gs.iter().map(|g| unsafe { &*(g.ptr as *const A) }).collect();
        let gout = Guard::of(&vec![0xa5; 32 * m.n + m.extra], at_end);
        A::call(st(c, "impl"), &ins, m, gout.get_mut());
        ck("hash_many output", &gout.get()[..32 * m.n], &want[..32 * m.n])?;
        ck("bytes beyond the output, FRAME", &gout.get()[32 * m.n..], &want[32 * m.n..])?;
        for i in 0..m.n { if gs[i].get() != &m.data[i * m.size..(i + 1) * m.size] { return Err("FRAME hash_many changed an input".into()); } }
    }
    Ok(())
}
mod arrayvec_array {
    pub trait Arr: Sized { fn call(imp: &str, ins: &[&Self], m: &super::MIn, out: &mut [u8]); fn call64(ins: &[&Self], key: &[u64; 4], m: &super::MIn, out: &mut [u8]); }
    macro_rules! arr { ($($n:expr)*) => { $( impl Arr for [u8; $n] {
        fn call(imp: &str, ins: &[&Self], m: &super::MIn, out: &mut [u8]) {
            match imp {
                "sse41" => unsafe { baokeshed::sse41::hash_many(ins, &m.key, m.off, m.delta, m.fl[0], m.fl[1], m.fl[2], out) },
                "avx2" => unsafe { baokeshed::avx2::hash_many(ins, &m.key, m.off, m.delta, m.fl[0], m.fl[1], m.fl[2], out) },
                _ => baokeshed::portable::hash_many(ins, &m.key, m.off, m.delta, m.fl[0], m.fl[1], m.fl[2], out),
            }
        }
        fn call64(ins: &[&Self], key: &[u64; 4], m: &super::MIn, out: &mut [u8]) { baokeshed::portable64::hash_many(ins, key, m.off, m.delta, m.fl[0], m.fl[1], m.fl[2], out) }
    } )* } }
    arr!(64 128 192 256 384 512 2048 4096);
}
fn kmany(c: &Case) -> Result<(), String> {
    let m = min(c);
    match m.size { 64 => kmany_n::<[u8; 64]>(c, &m), 128 => kmany_n::<[u8; 128]>(c, &m), 192 => kmany_n::<[u8; 192]>(c, &m), 256 => kmany_n::<[u8; 256]>(c, &m), _ => kmany_n::<[u8; 2048]>(c, &m) }
}
pub fn cv64(m: &KIn64) -> [u8; 32] { spec::bytes64(&spec::compress64(&m.cv, &m.block, m.len, m.off, m.flags)) }
pub struct KIn64 { pub cv: [u64; 4], pub block: [u8; 128], pub len: u8, pub off: u64, pub flags: u8 }
pub fn kin64(c: &Case) -> KIn64 {
    let mut r = Rng::new(num(c, "dseed"));
    let mut cv = [0; 4];
    for w in cv.iter_mut() { *w = r.u64(); }
    let mut block = [0; 128];
    r.fill(&mut block);
    if let Some(v) = given(c, "cv") { for i in 0..4 { let mut x = [0; 8]; x.copy_from_slice(&v[8 * i..8 * i + 8]); cv[i] = u64::from_le_bytes(x); } }
    if let Some(v) = given(c, "block") { block.copy_from_slice(&v); }
    KIn64 { cv, block, len: num(c, "blen") as u8, off: num(c, "off"), flags: num(c, "flags") as u8 }
}
fn kcomp64(c: &Case) -> Result<(), String> {
    let k = kin64(c);
    ck("portable64::compress_xof", baokeshed::portable64::compress_xof(&k.cv, &k.block, k.len, k.off, k.flags), spec::xof64(&k.cv, &k.block, k.len, k.off, k.flags))?;
    let mut cv = k.cv;
    baokeshed::portable64::compress(&mut cv, &k.block, k.len, k.off, k.flags);
    ck("portable64::compress", spec::bytes64(&cv), cv64(&k))
}
pub fn key64(m: &MIn) -> [u64; 4] {
    let mut k = [0; 4];
    for i in 0..4 { k[i] = m.key[2 * i] as u64 | (m.key[2 * i + 1] as u64) << 32; }
    k
}
pub fn many_want64(m: &MIn) -> Vec<u8> {
    let mut w = vec![];
    for i in 0..m.n {
        w.extend(spec::many64(&key64(m), &m.data[i * m.size..(i + 1) * m.size], m.off.wrapping_add(m.delta.wrapping_mul(i as u64)), m.fl[0], m.fl[1], m.fl[2]));
    }
    w.extend(vec![0xa5; m.extra]);
    w
}
fn kmany64_n<A: arrayvec_array::Arr>(m: &MIn) -> Result<(), String> {
    let want = many_want64(m);
    for at_end in [false, true] {
        let gs: Vec<Guard> = (0..m.n).map(|i| Guard::of(&m.data[i * m.size..(i + 1) * m.size], at_end)).collect();
        let ins: Vec<&A> = gs.iter().map(|g| unsafe { &*(g.ptr as *const A) }).collect();
        let gout = Guard::of(&vec![0xa5; 32 * m.n + m.extra], at_end);
        A::call64(&ins, &key64(m), m, gout.get_mut());
        ck("portable64::hash_many output", &gout.get()[..32 * m.n], &want[..32 * m.n])?;
        ck("bytes beyond the output, FRAME", &gout.get()[32 * m.n..], &want[32 * m.n..])?;
    }
    Ok(())
}
fn kmany64(c: &Case) -> Result<(), String> {
    let m = min(c);
    match m.size { 128 => kmany64_n::<[u8; 128]>(&m), 256 => kmany64_n::<[u8; 256]>(&m), 384 => kmany64_n::<[u8; 384]>(&m), 512 => kmany64_n::<[u8; 512]>(&m), _ => kmany64_n::<[u8; 4096]>(&m) }
}

// script: r<n> read of at most n bytes (0 = as many as fit), i interrupted, e error, z end of file; w: writer limits
struct Rd { script: Vec<(char, usize)>, p: usize, data: Vec<u8>, at: usize, calls: usize }
impl Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 10_000 { panic!("copy_wide keeps reading"); }
        let (op, n) = *self.script.get(self.p).unwrap_or(&('z', 0));
        self.p += 1;
        match op {
            'i' => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            'e' => Err(io::Error::new(io::ErrorKind::Other, "read error")),
            'b' => Err(io::Error::new(io::ErrorKind::WouldBlock, "would block")),
            'r' => {
                let n = if n == 0 { buf.len() } else { n.min(buf.len()) };
                let n = n.min(self.data.len() - self.at);
                if n == 0 && self.at < self.data.len() { panic!("empty buffer passed to read"); }
                buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
                self.at += n;
                Ok(n)
            }
            _ => Ok(0),
        }
    }
}
struct Wr { got: Vec<u8>, limit: usize, fail_at: usize, intr: u64, rng: Rng, calls: usize }
impl Write for Wr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 2_000_000 { panic!("copy_wide keeps writing"); }
        if self.intr > 0 && self.rng.chance(self.intr, 10) { return Err(io::Error::new(io::ErrorKind::Interrupted, "w")); }
        if self.got.len() >= self.fail_at { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "write error")); }
        let n = b.len().min(self.limit).min(self.fail_at - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn copy(c: &Case) -> Result<(), String> {
    let script: Vec<(char, usize)> = st(c, "script").split(',').filter(|s| !s.is_empty()).map(|s| (s.chars().next().unwrap(), s[1..].parse().unwrap_or(0))).collect();
    let len = num(c, "len") as usize;
    let data = Rng::new(num(c, "dseed")).bytes(len);
    let fail_at = c.get("fail").map(|s| s.parse().unwrap()).unwrap_or(usize::MAX);
    let mut w = Wr { got: vec![], limit: num(c, "limit").max(1) as usize, fail_at, intr: num(c, "intr"), rng: Rng::new(5), calls: 0 };
    let mut r = Rd { script: script.clone(), p: 0, data: data.clone(), at: 0, calls: 0 };
    let res = baokeshed::copy::copy_wide(&mut r, &mut w);
    // what should have happened: every byte read is written; the first non-interrupted error ends it
    let read_err = script[..r.p.min(script.len())].iter().position(|s| s.0 == 'e' || s.0 == 'b');
    match res {
        Ok(n) => {
            if let Some(i) = read_err { return Err(format!("a read error at step {} was not returned", i)); }
            if r.at > fail_at { return Err("a write error was not returned".into()); }
            let ended = r.p > script.len() || script[r.p - 1].0 == 'z' || (script[r.p - 1].0 == 'r' && r.at == len);
            if !ended { return Err(format!("stopped after {} reads before the end of file", r.p)); }
            if n != r.at as u64 { return Err(format!("returned {} after {} bytes", n, r.at)); }
            ck("bytes written", &w.got, &data[..r.at])
        }
        Err(e) => {
            if e.kind() == io::ErrorKind::Interrupted { return Err("an interruption was returned".into()); }
            if e.kind() == io::ErrorKind::BrokenPipe {
                if r.at <= fail_at && w.got.len() < fail_at { return Err("spurious write error".into()); }
                return ck("bytes written before the write error", &w.got, &data[..w.got.len()]);
            }
            match read_err {
                None => Err(format!("spurious error {}", e)),
                Some(i) if i + 1 != r.p => Err(format!("read again after the error at step {}", i)),
                Some(i) => {
                    let want = if script[i].0 == 'e' { io::ErrorKind::Other } else { io::ErrorKind::WouldBlock };
                    if e.kind() != want { return Err("another error was returned".into()); }
                    ck("bytes written before the read error", &w.got, &data[..r.at])
                }
            }
        }
    }
}
fn hashv(c: &Case) -> Result<(), String> {
    let mut r = Rng::new(num(c, "dseed"));
    let mut a = [0u8; 32];
    match st(c, "pat") {
        "const" => a = [num(c, "byte") as u8; 32],
        _ => r.fill(&mut a),
    }
    if let Some(v) = given(c, "a") { a.copy_from_slice(&v); }
    let mut b = a;
    if let Some(v) = given(c, "b") { b.copy_from_slice(&v); }
    for i in st(c, "flip").split(',').filter(|s| !s.is_empty()) {
        let i: usize = i.parse().unwrap();
        b[i / 8] ^= 1 << (i % 8);
    }
    let (ha, hb) = (baokeshed::Hash::from(a), baokeshed::Hash::from(b));
    if (ha == hb) != (a == b) { return Err(format!("{} == {} is {}", hex(&a), hex(&b), ha == hb)); }
    if (ha == b) != (a == b) { return Err(format!("{} == bytes {} is {}", hex(&a), hex(&b), ha == b)); }
    if (ha != hb) != (a != b) { return Err("!=".into()); }
    ck("as_bytes", ha.as_bytes(), a)?;
    let back: [u8; 32] = ha.into();
    ck("into bytes", back, a)?;
    ck("to_hex", ha.to_hex().as_bytes(), hex(&a).as_bytes())
}
fn refimpl(c: &Case) -> Result<(), String> {
    let ops: Vec<usize> = st(c, "ops").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let total: usize = ops.iter().sum();
    let data = Data::make(st(c, "pat"), num(c, "dseed"), total);
    let d = data.get(total);
    let (k, kw, fl) = mode(st(c, "mode"), num(c, "dseed"));
    let mut h = match st(c, "mode") {
        "keyed" => reference_impl::Hasher::new_keyed(&k),
        "derive" => reference_impl::Hasher::new_derive_key(&k),
        _ => reference_impl::Hasher::new(),
    };
    let mut p = 0;
    for n in ops { h.update(&d[p..p + n]); p += n; }
    let want = spec::root(&kw, fl, d);
    let olen = num(c, "olen") as usize;
    let g = Guard::of(&vec![0xa5; olen], num(c, "dseed") % 2 == 0);
    h.finalize(g.get_mut());
    let mut w = vec![];
    let mut i = 0;
    while w.len() < olen { w.extend(want.xof(i)); i += 1; }
    ck("reference output", g.get(), &w[..olen])?;
    let mut again = vec![0; olen];
    h.finalize(&mut again);
    ck("reference output repeated", &again, &w[..olen])
}
