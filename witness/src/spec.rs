//! The definition, written independently of the repository's code.
pub const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
pub const IV64: [u64; 8] = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
    0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179];
// BLAKE2's sigma permutations 0..7
pub const SIGMA: [[usize; 16]; 8] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
];
pub const START: u8 = 1;
pub const END: u8 = 2;
pub const PARENT: u8 = 4;
pub const ROOT: u8 = 8;
pub const KEYED: u8 = 16;
pub const DERIVE: u8 = 32;
pub type Cv = [u8; 32];

macro_rules! mix {
    ($v:ident, $a:expr, $b:expr, $c:expr, $d:expr, $x:expr, $y:expr, $r:expr) => {
        $v[$a] = $v[$a].wrapping_add($v[$b]).wrapping_add($x);
        $v[$d] = ($v[$d] ^ $v[$a]).rotate_right($r[0]);
        $v[$c] = $v[$c].wrapping_add($v[$d]);
        $v[$b] = ($v[$b] ^ $v[$c]).rotate_right($r[1]);
        $v[$a] = $v[$a].wrapping_add($v[$b]).wrapping_add($y);
        $v[$d] = ($v[$d] ^ $v[$a]).rotate_right($r[2]);
        $v[$c] = $v[$c].wrapping_add($v[$d]);
        $v[$b] = ($v[$b] ^ $v[$c]).rotate_right($r[3]);
    };
}
macro_rules! rounds {
    ($v:ident, $m:ident, $n:expr, $r:expr) => {
        for s in &SIGMA[..$n] {
            for i in 0..4 { mix!($v, i, 4 + i, 8 + i, 12 + i, $m[s[2 * i]], $m[s[2 * i + 1]], $r); }
            for i in 0..4 { mix!($v, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, $m[s[8 + 2 * i]], $m[s[9 + 2 * i]], $r); }
        }
    };
}
#[inline(always)]
pub fn core32(cv: &[u32; 8], block: &[u8], len: u8, off: u64, flags: u8) -> [u32; 16] {
    let mut m = [0u32; 16];
    for i in 0..16 { m[i] = u32::from_le_bytes(block[4 * i..4 * i + 4].try_into().unwrap()); }
    let mut v = [cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3],
        (off & 0xffff_ffff) as u32, (off >> 32) as u32, len as u32, flags as u32];
    rounds!(v, m, 7, [16u32, 12, 8, 7]);
    v
}
pub fn compress(cv: &[u32; 8], block: &[u8], len: u8, off: u64, flags: u8) -> [u32; 8] {
    let v = core32(cv, block, len, off, flags);
    let mut r = [0; 8];
    for i in 0..8 { r[i] = v[i] ^ v[i + 8]; }
    r
}
pub fn xof(cv: &[u32; 8], block: &[u8], len: u8, off: u64, flags: u8) -> [u8; 64] {
    let v = core32(cv, block, len, off, flags);
    let mut r = [0; 64];
    for i in 0..8 {
        r[4 * i..4 * i + 4].copy_from_slice(&(v[i] ^ v[i + 8]).to_le_bytes());
        r[32 + 4 * i..36 + 4 * i].copy_from_slice(&(v[i + 8] ^ cv[i]).to_le_bytes());
    }
    r
}
pub fn bytes(w: &[u32; 8]) -> Cv {
    let mut r = [0; 32];
    for i in 0..8 { r[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes()); }
    r
}
pub fn words(b: &[u8]) -> [u32; 8] {
    let mut r = [0; 8];
    for i in 0..8 { r[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()); }
    r
}
#[derive(Clone)]
pub struct Node { pub cv: [u32; 8], pub block: [u8; 64], pub len: u8, pub off: u64, pub flags: u8 }
impl Node {
    pub fn cv(&self) -> Cv { bytes(&compress(&self.cv, &self.block, self.len, self.off, self.flags)) }
    pub fn xof(&self, k: u64) -> [u8; 64] { xof(&self.cv, &self.block, self.len, self.off + 64 * k, self.flags) }
}
pub fn chunk(key: &[u32; 8], b: &[u8], off: u64, flags: u8, root: u8) -> Node {
    assert!(b.len() <= 2048);
    let n = if b.is_empty() { 0 } else { (b.len() - 1) / 64 };
    let mut cv = *key;
    for i in 0..n { cv = compress(&cv, &b[64 * i..64 * i + 64], 64, off, flags | if i == 0 { START } else { 0 }); }
    let mut block = [0; 64];
    block[..b.len() - 64 * n].copy_from_slice(&b[64 * n..]);
    Node { cv, block, len: (b.len() - 64 * n) as u8, off, flags: flags | if n == 0 { START } else { 0 } | END | root }
}
pub fn parent(key: &[u32; 8], l: &Cv, r: &Cv, flags: u8, root: u8) -> Node {
    let mut block = [0; 64];
    block[..32].copy_from_slice(l);
    block[32..].copy_from_slice(r);
    Node { cv: *key, block, len: 64, off: 0, flags: flags | PARENT | root }
}
/// number of chunks on the left of a node with n >= 2 chunks
pub fn left(n: u64) -> u64 {
    let mut l = 1u64;
    while l < n - l { l *= 2; }
    l
}
pub fn tree(key: &[u32; 8], flags: u8, xs: &[Cv]) -> Cv {
    if xs.len() == 1 { return xs[0]; }
    let l = left(xs.len() as u64) as usize;
    parent(key, &tree(key, flags, &xs[..l]), &tree(key, flags, &xs[l..]), flags, 0).cv()
}
pub fn top(key: &[u32; 8], flags: u8, xs: &[Cv]) -> Node {
    let l = left(xs.len() as u64) as usize;
    parent(key, &tree(key, flags, &xs[..l]), &tree(key, flags, &xs[l..]), flags, ROOT)
}
pub fn chunk_cvs(key: &[u32; 8], flags: u8, msg: &[u8], off: u64) -> Vec<Cv> {
    let n = if msg.is_empty() { 1 } else { (msg.len() - 1) / 2048 + 1 };
    let mut out = vec![[0u8; 32]; n];
    let one = |i: usize| chunk(key, &msg[2048 * i..msg.len().min(2048 * (i + 1))], off + 2048 * i as u64, flags, 0).cv();
    if n < 512 {
        for i in 0..n { out[i] = one(i); }
    } else {
        let per = (n + 31) / 32;
        std::thread::scope(|s| {
            let mut hs = vec![];
            for (j, part) in out.chunks_mut(per).enumerate() {
                let one = &one;
                hs.push(s.spawn(move || for (i, o) in part.iter_mut().enumerate() { *o = one(j * per + i); }));
            }
        });
    }
    out
}
pub fn root(key: &[u32; 8], flags: u8, msg: &[u8]) -> Node {
    if msg.len() <= 2048 { chunk(key, msg, 0, flags, ROOT) } else { top(key, flags, &chunk_cvs(key, flags, msg, 0)) }
}
pub fn many(key: &[u32; 8], msg: &[u8], off: u64, flags: u8, fs: u8, fe: u8) -> Cv {
    let n = msg.len() / 64;
    let mut cv = *key;
    for i in 0..n {
        cv = compress(&cv, &msg[64 * i..64 * i + 64], 64, off, flags | if i == 0 { fs } else { 0 } | if i == n - 1 { fe } else { 0 });
    }
    bytes(&cv)
}
// ---- 64-bit variant
pub fn core64(cv: &[u64; 4], block: &[u8], len: u8, off: u64, flags: u8) -> [u64; 16] {
    let mut m = [0u64; 16];
    for i in 0..16 { m[i] = u64::from_le_bytes(block[8 * i..8 * i + 8].try_into().unwrap()); }
    let mut v = [cv[0], cv[1], cv[2], cv[3], IV64[4], IV64[5], IV64[6], IV64[7], IV64[0], IV64[1], IV64[2], IV64[3],
        off, IV64[5], len as u64, flags as u64];
    rounds!(v, m, 8, [32u32, 24, 16, 63]);
    v
}
pub fn compress64(cv: &[u64; 4], block: &[u8], len: u8, off: u64, flags: u8) -> [u64; 4] {
    let v = core64(cv, block, len, off, flags);
    [v[0] ^ v[4], v[1] ^ v[5], v[2] ^ v[6], v[3] ^ v[7]]
}
pub fn xof64(cv: &[u64; 4], block: &[u8], len: u8, off: u64, flags: u8) -> [u8; 128] {
    let v = core64(cv, block, len, off, flags);
    let mut w = v;
    for i in 0..4 { w[i] = v[i] ^ v[i + 4]; w[4 + i] = v[4 + i] ^ cv[i]; }
    let mut r = [0; 128];
    for i in 0..16 { r[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes()); }
    r
}
pub fn bytes64(w: &[u64; 4]) -> Cv {
    let mut r = [0; 32];
    for i in 0..4 { r[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes()); }
    r
}
pub fn many64(key: &[u64; 4], msg: &[u8], off: u64, flags: u8, fs: u8, fe: u8) -> Cv {
    let n = msg.len() / 128;
    let mut cv = *key;
    for i in 0..n {
        cv = compress64(&cv, &msg[128 * i..128 * i + 128], 128, off, flags | if i == 0 { fs } else { 0 } | if i == n - 1 { fe } else { 0 });
    }
    bytes64(&cv)
}
