//! One entry point per kernel and message size, so that the generic functions
//! of the library are compiled. Each only passes its arguments on.
#![allow(improper_ctypes_definitions)]
use baokeshed::*;
macro_rules! many { ($($m:ident $h:ident $w:ty, $k:literal, $n:literal;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $h(inputs: *const &[u8; $n], n: usize, key: &[$w; $k], off: u64, d: u64, f: u8, fs: u8, fe: u8, out: *mut u8, ol: usize) {
        $m::hash_many::<[u8; $n]>(std::slice::from_raw_parts(inputs, n), key, off, d, f, fs, fe, std::slice::from_raw_parts_mut(out, ol)) }
)* } }
macro_rules! comp { ($($m:ident $c:ident $x:ident $w:ty, $k:literal, $b:literal;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $c(cv: &mut [$w; $k], block: &[u8; $b], bl: u8, off: u64, fl: u8) { $m::compress(cv, block, bl, off, fl) }
    #[no_mangle] pub unsafe extern "C" fn $x(cv: &[$w; $k], block: &[u8; $b], bl: u8, off: u64, fl: u8, out: &mut [u8; $b]) { *out = $m::compress_xof(cv, block, bl, off, fl) }
)* } }
comp! { portable portable_c portable_x u32, 8, 64; portable64 portable64_c portable64_x u64, 4, 128; }
many! { portable portable_1 u32, 8, 64; portable portable_2 u32, 8, 128; portable portable_3 u32, 8, 192; portable portable_4 u32, 8, 256; portable portable_32 u32, 8, 2048;
    portable64 portable64_1 u64, 4, 128; portable64 portable64_2 u64, 4, 256; portable64 portable64_3 u64, 4, 384; portable64 portable64_4 u64, 4, 512; portable64 portable64_32 u64, 4, 4096; }
#[cfg(target_arch = "x86_64")]
comp! { sse41 sse41_c sse41_x u32, 8, 64; }
#[cfg(target_arch = "x86_64")]
many! { sse41 sse41_1 u32, 8, 64; sse41 sse41_2 u32, 8, 128; sse41 sse41_3 u32, 8, 192; sse41 sse41_4 u32, 8, 256; sse41 sse41_32 u32, 8, 2048;
    avx2 avx2_1 u32, 8, 64; avx2 avx2_2 u32, 8, 128; avx2 avx2_3 u32, 8, 192; avx2 avx2_4 u32, 8, 256; avx2 avx2_32 u32, 8, 2048; }
#[no_mangle] pub extern "C" fn hash_eq(a: &Hash, b: &Hash) -> bool { a == b }
#[no_mangle] pub extern "C" fn hash_ne(a: &Hash, b: &Hash) -> bool { !(a != b) }
#[no_mangle] pub extern "C" fn hash_eq_arr(a: &Hash, b: &[u8; 32]) -> bool { a == b }
#[no_mangle] pub extern "C" fn hash_hex(a: &Hash, out: &mut [u8; 64]) -> usize { let s = a.to_hex(); let s: &str = s.as_ref(); out[..s.len()].copy_from_slice(s.as_bytes()); s.len() }
#[no_mangle] pub extern "C" fn hash_from(a: &[u8; 32], out: &mut [u8; 32]) { *out = *Hash::from(*a).as_bytes() }
#[no_mangle] pub extern "C" fn hash_into(a: &Hash, out: &mut [u8; 32]) { *out = (*a).into() }
#[no_mangle] pub extern "C" fn hash_bytes(a: &Hash, out: &mut [u8; 32]) { *out = *a.as_bytes() }
