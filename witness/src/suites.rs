use crate::util::*;
use std::collections::VecDeque;
pub struct Gen { name: String, rng: Rng, q: VecDeque<String>, deep: bool, must: bool, pub exhausted: bool }
const MODES: [&str; 3] = ["hash", "keyed", "derive"];
const PLATS: [&str; 3] = ["avx2", "sse41", "portable"];
const CV: [&str; 4] = ["portable", "sse41", "avx2", "avx512"];
fn lens(max_chunks: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 4, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 1983, 1984, 1985];
    for n in 1..=max_chunks { for d in [-1i64, 0, 1] { v.push((n as i64 * 2048 + d) as u64); } v.push(n * 2048 + 700); }
    v
}
fn edge_off(r: &mut Rng) -> u64 {
    // multiples of 2048, near the places where a word or a sign changes
    let b = *r.pick(&[0u64, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 63, u64::MAX - 2047 - 2048 * 400, 3 << 32, (1 << 32) * 7]);
    let k = r.below(24) * 2048;
    match r.below(4) { 0 => b.wrapping_add(k), 1 => b.saturating_sub(k) / 2048 * 2048, 2 => b, _ => r.u64() >> (1 + r.below(40)) << 11 >> 11 & !2047 }
}
fn cap_off(o: u64, room: u64) -> u64 { if o > u64::MAX - room { (u64::MAX - room) / 2048 * 2048 } else { o } }
fn piece(r: &mut Rng, at: u64) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 64 - at % 64,
        3 => 2048 - at % 2048,
        4 => 2048 - at % 2048 + 1,
        5 => (2048 - at % 2048) - 1,
        6 => 2048 * (1 + r.below(20)),
        7 => 2048 - at % 2048 + 2048 * r.below(20),
        8 => r.below(200),
        9 => r.below(5000),
        10 => { let p = at.next_power_of_two().max(2048); p - at % p }
        _ => r.below(40000),
    }
}
fn kflags(r: &mut Rng) -> u64 {
    // flags, flags at the start, flags at the end: the values the library uses, then any
    match r.below(4) {
        0 => *r.pick(&[0u64, 16, 32]) | 1 << 8 | 2 << 16,
        1 => *r.pick(&[4u64, 20, 36]),
        _ => r.u64() & 0xffffff,
    }
}
impl Gen {
    pub fn new(name: &str, seed: u64, deep: bool) -> Gen {
        let mut g = Gen { name: name.into(), rng: Rng::new(seed), q: VecDeque::new(), deep, must: true, exhausted: false };
        g.fixed();
        g
    }
    pub fn must(&self) -> bool { self.must }
    pub fn next(&mut self) -> Option<String> {
        if let Some(c) = self.q.pop_front() { self.must = false; return Some(c); }
        self.must = false;
        let c = self.random();
        if c.is_none() { self.exhausted = true; }
        c
    }
    fn fixed(&mut self) {
        let name = self.name.clone();
        let mut q = vec![];
        match name.as_str() {
            "one" => {
                for l in lens(if self.deep { 70 } else { 34 }) { for (i, p) in PLATS.iter().enumerate() {
                    let m = MODES[(l as usize + i) % 3];
                    q.push(format!("one len={} pat=rand dseed={} mode={} plat={} xof=2", l, l + i as u64, m, p));
                } }
                for p in PLATS { for m in MODES { for k in 0..12u64 {
                    let off = [(1u64 << 32) - 2048 * 5, 1 << 32, 1 << 63, u64::MAX - 2047 - 2048 * 100, (1 << 31) - 2048 * 3, 1 << 40][k as usize % 6];
                    q.push(format!("rec len={} off={} pat=rand dseed={} mode={} plat={}", 2048 * (2 + 3 * k) + 17 * k, off, k, m, p));
                } } }
                if self.deep {
                    for p in PLATS { q.push(format!("one len={} pat=zero dseed=1 mode=keyed plat={}", (1u64 << 32) + 2048 * 3 + 5, p)); }
                    q.push(format!("one len={} pat=zero dseed=1 mode=hash plat=avx2", (1u64 << 33) - 1));
                }
            }
            "inc" => {
                for l in lens(if self.deep { 70 } else { 20 }) { for (i, p) in PLATS.iter().enumerate() {
                    let m = MODES[(l as usize + i) % 3];
                    q.push(format!("inc ops=u{},f,x2,u1,f,u2048,f,u0,f pat=rand dseed={} mode={} plat={}", l, l, m, p));
                    q.push(format!("inc ops=u{},u{},f,u{},f,c,x1 pat=rand dseed={} mode={} plat={}", l / 2, l - l / 2, l, l, m, p));
                } }
                for p in PLATS { for n in [1u64, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 255, 256, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 1 << 32, (1 << 52) - 1, 1 << 52, (1 << 52) + 1, (1 << 53) - 64, (1 << 53) - 20] {
                    for um in [0, 1] {
                        if n < 2 { continue; }
                        q.push(format!("incdeep n={} unmerged={} ops=u1,u2047,u1,u4096,u9000 dseed={} mode=keyed plat={}", n, um, n, p));
                        q.push(format!("incdeep n={} unmerged={} ops=u4096,u2048,u18,u2030 dseed={} mode=hash plat={}", n, um, n + 1, p));
                    }
                } }
                for (i, l) in [16384u64, 65536, 65541, 1 << 20, (1 << 20) + 7, 3_000_000].iter().enumerate() {
                    q.push(format!("inc ops=w{},f,w1,w{},f pat=rand dseed={} mode={} plat={}", l, l, i, MODES[i % 3], PLATS[(i + 1) % 3]));
                }
                if self.deep { q.push(format!("inc ops=w{},f,w9,f pat=zero dseed=1 mode=hash plat=avx2", 20_000_000)); }
                if self.deep { q.push(format!("inc ops=u{},f,u9000,f pat=zero dseed=1 mode=hash plat=avx2", (1u64 << 32) - 2048)); }
            }
            "xof" => {
                for p in PLATS { for l in [0u64, 1, 64, 65, 2048, 2049, 4096, 9000, 20000] { for m in MODES {
                    q.push(format!("xof len={} pat=rand dseed={} mode={} plat={} reads=40", l, l, m, p));
                    for b in [1u64, 2, (1 << 25) - 1, (1 << 26) - 1, 1 << 26, 1 << 27, (1 << 57) - 2, 1 << 57, (1 << 58) - 8] {
                        q.push(format!("xofat len={} dseed={} mode={} plat={} block={}", l, l + b % 7, m, p, b));
                    }
                } } }
                if self.deep { q.push(format!("xof len=5 pat=rand dseed=1 mode=hash plat=avx2 reads={}", (1u64 << 26) + 10)); }
            }
            "copy" => {
                for s in ["", "r0", "r0,r0", "r1,i,r1", "i,i,i", "e", "r5,e", "i,e", "r5,i,b", "r5,z,r5", "i,r100000,i,z", "b,r5", "r16384,r16384,r1"] {
                    for f in ["", " fail=0", " fail=1", " fail=4", " fail=16384", " fail=20000"] { for l in [0, 5, 16384, 16385, 100000] {
                        q.push(format!("copy script={} len={} dseed=1 limit=7000 intr=1{}", s, l, f));
                    } }
                }
            }
            "hash" => {
                for b in 0..256 { q.push(format!("hashv pat=const byte={} flip= dseed=1", b)); }
                for b in 0..256 { q.push(format!("hashv pat=rand flip={} dseed={}", b, b)); }
                for a in 0..32 { for b in 0..32 { if a != b { q.push(format!("hashv pat=rand flip={},{} dseed={}", a * 8 + 3, b * 8 + 3, a * 32 + b)); } } }
                for p in PLATS { for m in MODES { q.push(format!("one len=5 pat=rand dseed=2 mode={} plat={}", m, p)); } }
            }
            "ref" => {
                for l in lens(if self.deep { 40 } else { 20 }) { for m in MODES {
                    q.push(format!("refimpl ops={},{},0 pat=rand dseed={} mode={} olen={}", l / 3, l - l / 3, l, m, [0, 1, 3, 31, 32, 33, 63, 64, 65, 130, 500][l as usize % 11]));
                } }
                for o in 0..200 { q.push(format!("refimpl ops=3000 pat=rand dseed={} mode=hash olen={}", o, o)); }
            }
            "kern" | "ckern" | "k64" => {}
            "cinc" => {
                for l in lens(if self.deep { 70 } else { 36 }) { for (i, p) in CV.iter().enumerate() {
                    let m = MODES[(l as usize + i) % 3];
                    q.push(format!("cinc ops=u{},f,u1,f,u2048,f,u0,f impl={} pat=rand dseed={} mode={}", l, p, l, m));
                    q.push(format!("cinc ops=u{},u{},f,u{},f impl={} pat=rand dseed={} mode={}", l / 2, l - l / 2, l, p, l, m));
                    if l <= 2048 { q.push(format!("cchunk ops=u{},u{} impl={} dseed={} mode={}", l / 3, l - l / 3, p, l, m)); }
                } }
                for p in CV { for n in [2u64, 3, 4, 5, 7, 8, 15, 16, 17, 31, 255, 256, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 1 << 32, (1 << 51) - 1, (1 << 52) - 1, 1 << 52, (1 << 52) + 1, (1 << 53) - 64, (1 << 53) - 20] {
                    for um in [0, 1] {
                        q.push(format!("cincdeep n={} unmerged={} ops=u1,u2047,u1,u4096,u9000 dseed={} mode=keyed impl={}", n, um, n, p));
                        q.push(format!("cincdeep n={} unmerged={} ops=u4096,u2048,u18,u2030 dseed={} mode=hash impl={}", n, um, n + 1, p));
                    }
                } }
                if self.deep { q.push(format!("cinc ops=u{},f,u9000,f pat=zero dseed=1 mode=hash impl=avx512", (1u64 << 32) + 5)); }
            }
            _ => panic!("no suite {}", name),
        }
        self.q = q.into();
    }
    fn ops(&mut self, total: u64, extra: &[&str]) -> String {
        let mut s = vec![];
        let mut at = 0;
        let n = 1 + self.rng.below(10);
        for _ in 0..n {
            if !extra.is_empty() && self.rng.chance(1, 3) {
                let e = self.rng.pick(extra).to_string();
                s.push(if e == "x" { format!("x{}", 1 + self.rng.below(4)) } else if e == "a" { format!("a{}", self.rng.below(5000)) } else { e });
            }
            let p = piece(&mut self.rng, at).min(total - at);
            at += p;
            s.push(format!("{}{}", if extra.contains(&"a") && self.rng.chance(1, 6) { "w" } else { "u" }, p));
        }
        s.join(",")
    }
    fn random(&mut self) -> Option<String> {
        let deep = self.deep;
        let r = &mut self.rng;
        let (ds, m, p) = (r.below(1 << 40), *r.pick(&MODES), *r.pick(&PLATS));
        Some(match self.name.as_str() {
            "one" => {
                let len = match r.below(5) { 0 => r.below(3000), 1 => r.below(40000), 2 => 2048 * r.below(70) + r.below(3), 3 => r.below(400_000), _ => r.below(if deep { 4_000_000 } else { 600_000 }) };
                if r.chance(1, 3) {
                    let len = 1 + len % 300_000;
                    let off = cap_off(edge_off(r), len + 2048);
                    format!("rec len={} off={} pat=rand dseed={} mode={} plat={}", len, off, ds, m, p)
                } else { format!("one len={} pat={} dseed={} mode={} plat={} xof={}", len, if r.chance(1, 8) { "ff" } else { "rand" }, ds, m, p, 1 + r.below(3)) }
            }
            "inc" => {
                if r.chance(1, 3) {
                    let n = match r.below(4) { 0 => 2 + r.below(70), 1 => (1u64 << (1 + r.below(52))) + r.below(3), 2 => (1u64 << (3 + r.below(49))) - 1 - r.below(4), _ => (r.u64() >> (11 + r.below(50))).clamp(2, (1 << 53) - 200) };
                    let um = r.below(2);
                    let o = self.ops(90_000, &[]);
                    format!("incdeep n={} unmerged={} ops={} dseed={} mode={} plat={}", n, um, o, ds, m, p)
                } else {
                    let o = self.ops(250_000, &["f", "x", "c", "a"]);
                    format!("inc ops={} pat=rand dseed={} mode={} plat={}", o, ds, m, p)
                }
            }
            "xof" => if r.chance(1, 2) { format!("xof len={} pat=rand dseed={} mode={} plat={} reads={}", r.below(10000), ds, m, p, r.below(70)) }
                else { let s = 6 + r.below(58); format!("xofat len={} dseed={} mode={} plat={} block={}", r.below(7000), ds, m, p, (r.u64() >> s).saturating_sub(8)) },
            "kern" => {
                if r.chance(1, 3) { format!("kcomp impl={} dseed={} blen={} off={} flags={}", r.pick(&["portable", "sse41"]), ds, r.below(65), if r.chance(1, 2) { r.u64() } else { edge_off(r) }, r.below(256)) }
                else {
                    let size = *r.pick(&[64u64, 2048]);
                    let delta = *r.pick(&[0u64, 2048]);
                    let hi = if r.chance(1, 4) { 20 } else { 9 };
                    let n = r.below(hi);
                    format!("kmany impl={} dseed={} n={} size={} off={} delta={} flags={} extra={}", r.pick(&["portable", "sse41", "avx2"]), ds, n, size, cap_off(edge_off(r), 64 * 2048), delta, kflags(r), r.below(3) * 16)
                }
            }
            "ckern" => {
                #[cfg(feature = "c")] { use crate::ccases as cc;
                if r.chance(1, 3) { format!("ccomp impl={} dseed={} blen={} off={} flags={}", r.pick(&cc::COMP), ds, r.below(65), if r.chance(1, 2) { r.u64() } else { edge_off(r) }, r.below(256)) }
                else {
                    let n = r.below(17);
                    format!("cmany impl={} dseed={} n={} size={} off={} delta={} flags={} extra={}", r.pick(&cc::MANY), ds, n, r.pick(&[64u64, 2048]), cap_off(edge_off(r), 64 * 2048), r.pick(&[0u64, 2048]), kflags(r), r.below(3) * 16)
                } }
                #[cfg(not(feature = "c"))] return None;
            }
            "k64" => {
                #[cfg(feature = "c")] { use crate::ccases as cc;
                match r.below(6) {
                    0 => format!("kcomp64 dseed={} blen={} off={} flags={}", ds, r.below(129), if r.chance(1, 2) { r.u64() } else { edge_off(r) }, r.below(256)),
                    1 => format!("kmany64 dseed={} n={} size={} off={} delta={} flags={} extra={}", ds, r.below(17), r.pick(&[128u64, 4096]), cap_off(edge_off(r), 64 * 4096), r.pick(&[0u64, 4096]), kflags(r), r.below(3) * 16),
                    2 => format!("ccomp64 impl={} dseed={} blen={} off={} flags={}", r.pick(&cc::COMP64), ds, r.below(129), if r.chance(1, 2) { r.u64() } else { edge_off(r) }, r.below(256)),
                    _ => format!("cmany64 impl={} dseed={} n={} size={} off={} delta={} flags={} extra={}", r.pick(&cc::MANY64), ds, r.below(17), r.pick(&[128u64, 4096]), cap_off(edge_off(r), 64 * 4096), r.pick(&[0u64, 4096]), kflags(r), r.below(3) * 16),
                } }
                #[cfg(not(feature = "c"))] format!("kcomp64 dseed={} blen={} off={} flags={}", ds, r.below(129), r.u64(), r.below(256))
            }
            "copy" => {
                let mut s = vec![];
                for _ in 0..r.below(30) { s.push(match r.below(14) { 0 | 1 => "i".to_string(), 2 if r.chance(1, 4) => "e".into(), 3 if r.chance(1, 4) => "b".into(), 4 => "r0".into(), 5 => "r1".into(), _ => format!("r{}", 1 + r.below(20000)) }); }
                let fail = if r.chance(1, 3) { format!(" fail={}", r.below(60000)) } else { String::new() };
                format!("copy script={} len={} dseed={} limit={} intr={}{}", s.join(","), r.below(100_000), ds, 1 + r.below(20000), r.below(4), fail)
            }
            "hash" => {
                let k = r.below(4);
                let fl: Vec<String> = (0..k).map(|_| r.below(256).to_string()).collect();
                format!("hashv pat=rand flip={} dseed={}", fl.join(","), ds)
            }
            "ref" => {
                let o: Vec<String> = { let mut at = 0; (0..1 + r.below(8)).map(|_| { let x = piece(r, at); at += x; x.to_string() }).collect() };
                format!("refimpl ops={} pat=rand dseed={} mode={} olen={}", o.join(","), ds, m, r.below(300))
            }
            "cinc" => {
                let v = *r.pick(&CV);
                if r.chance(1, 3) {
                    let n = match r.below(4) { 0 => 2 + r.below(70), 1 => (1u64 << (1 + r.below(52))) + r.below(3), 2 => (1u64 << (3 + r.below(49))) - 1 - r.below(4), _ => (r.u64() >> (11 + r.below(50))).clamp(2, (1 << 53) - 200) };
                    let um = r.below(2);
                    let o = self.ops(90_000, &[]);
                    format!("cincdeep n={} unmerged={} ops={} dseed={} mode={} impl={}", n, um, o, ds, m, v)
                } else {
                    let o = self.ops(250_000, &["f"]);
                    format!("cinc ops={} impl={} pat=rand dseed={} mode={}", o, v, ds, m)
                }
            }
            _ => return None,
        })
    }
}
