//! The definition of the compression functions, built symbolically.
use crate::term::*;
pub const IV32: [u64; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
pub const IV64: [u64; 8] = [0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179];
pub const SIGMA: [[usize; 16]; 8] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
];
pub struct Shape { pub w: u32, pub rounds: usize, pub rot: [u32; 4], pub cvn: usize }
pub const S32: Shape = Shape { w: 32, rounds: 7, rot: [16, 12, 8, 7], cvn: 8 };
pub const S64: Shape = Shape { w: 64, rounds: 8, rot: [32, 24, 16, 63], cvn: 4 };
pub fn core(c: &mut Ctx, s: &Shape, cv: &[B], m: &[B], len: B, off: B, flags: B) -> Vec<B> {
    let iv = if s.w == 32 { &IV32 } else { &IV64 };
    let mut v: Vec<B> = cv.to_vec();
    let k: Vec<B> = iv.iter().map(|x| c.konst(*x, s.w)).collect();
    if s.w == 64 { v.extend_from_slice(&k[4..8]) }
    v.extend_from_slice(&k[0..4]);
    if s.w == 32 { let (a, b) = (c.slice(off, 0, 32), c.slice(off, 32, 32)); v.push(a); v.push(b) } else { v.push(off); v.push(k[5]) }
    let (l, f) = (c.zext(len, s.w), c.zext(flags, s.w)); v.push(l); v.push(f);
    for r in 0..s.rounds {
        for g in 0..8 {
            let (a, b, cc, d) = if g < 4 { (g, 4 + g, 8 + g, 12 + g) } else { (g - 4, 4 + (g - 3) % 4, 8 + (g - 2) % 4, 12 + (g - 1) % 4) };
            for h in 0..2 {
                let t = c.add(v[a], v[b]); v[a] = c.add(t, m[SIGMA[r][2 * g + h]]);
                let t = c.xor(v[d], v[a]); v[d] = c.rotr(t, s.rot[2 * h]);
                v[cc] = c.add(v[cc], v[d]);
                let t = c.xor(v[b], v[cc]); v[b] = c.rotr(t, s.rot[2 * h + 1]);
            }
        }
    }
    v
}
pub fn compress(c: &mut Ctx, s: &Shape, cv: &[B], m: &[B], len: B, off: B, flags: B) -> Vec<B> { let v = core(c, s, cv, m, len, off, flags); (0..s.cvn).map(|i| c.xor(v[i], v[i + s.cvn])).collect() }
pub fn xof(c: &mut Ctx, s: &Shape, cv: &[B], m: &[B], len: B, off: B, flags: B) -> Vec<B> {
    let v = core(c, s, cv, m, len, off, flags); let n = s.cvn;
    (0..16).map(|i| if i < n { c.xor(v[i], v[i + n]) } else if i < 2 * n { c.xor(v[i], cv[i - n]) } else { v[i] }).collect()
}
