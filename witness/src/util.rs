use std::collections::BTreeMap;
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); r.u64(); r }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.u64() % n }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len() as u64) as usize] }
    pub fn chance(&mut self, a: u64, b: u64) -> bool { self.below(b) < a }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) { let x = self.u64().to_le_bytes(); let n = c.len(); c.copy_from_slice(&x[..n]); }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0; n]; self.fill(&mut v); v }
}
pub type Case = BTreeMap<String, String>;
pub fn parse(s: &str) -> Case {
    let mut m = Case::new();
    for (i, t) in s.split_whitespace().enumerate() {
        if i == 0 { m.insert("kind".into(), t.into()); continue; }
        let (k, v) = t.split_once('=').expect("k=v");
        m.insert(k.into(), v.into());
    }
    m
}
pub fn num(c: &Case, k: &str) -> u64 { c.get(k).map(|s| s.parse().expect(k)).unwrap_or(0) }
pub fn st<'a>(c: &'a Case, k: &str) -> &'a str { c.get(k).map(|s| s.as_str()).unwrap_or("") }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}
/// memory ending (or starting) exactly at an inaccessible page
pub struct Guard { base: *mut u8, total: usize, pub ptr: *mut u8, pub len: usize }
impl Guard {
    pub fn new(len: usize, at_end: bool) -> Guard {
        let pages = (len + 4095) / 4096 + 2;
        let total = pages * 4096;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            assert!(mprotect(base, 4096, 0) == 0 && mprotect(base.add(total - 4096), 4096, 0) == 0);
            let ptr = if at_end { base.add(total - 4096 - len) } else { base.add(4096) };
            Guard { base, total, ptr, len }
        }
    }
    pub fn of(b: &[u8], at_end: bool) -> Guard { let g = Guard::new(b.len(), at_end); g.get_mut().copy_from_slice(b); g }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.ptr, self.len) } }
    pub fn get_mut(&self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) } }
}
impl Drop for Guard { fn drop(&mut self) { unsafe { munmap(self.base, self.total); } } }
/// a lot of zero bytes without the memory
pub struct Zeros { base: *mut u8, len: usize }
impl Zeros {
    pub fn new(len: usize) -> Zeros {
        unsafe { let base = mmap(std::ptr::null_mut(), len, 1, 0x4022, -1, 0); assert!(base as isize != -1); Zeros { base, len } }
    }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.base, self.len) } }
}
impl Drop for Zeros { fn drop(&mut self) { unsafe { munmap(self.base, self.len); } } }
pub enum Data { V(Vec<u8>), Z(Zeros) }
impl Data {
    pub fn make(pat: &str, seed: u64, len: usize) -> Data {
        match pat {
            "zero" => Data::Z(Zeros::new(len.max(1))),
            "ff" => Data::V(vec![0xff; len]),
            _ => Data::V(Rng::new(seed).bytes(len)),
        }
    }
    pub fn get(&self, len: usize) -> &[u8] { match self { Data::V(v) => &v[..len], Data::Z(z) => &z.get()[..len] } }
}
