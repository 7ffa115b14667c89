#!/usr/bin/env python3
"""Copies /repo's working tree to build/w/{repo,refimpl} and the witness crate
beside it. What the copy adds to the crate: CPU feature detection answers from a
settable level (so every SIMD level runs on one machine), and a module of
wrappers that reach private functions. Nothing is taken out or rewritten."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import cargo_env
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''
#[allow(unused_macros)]
macro_rules! is_x86_feature_detected { ($f:tt) => { crate::vx_feat::get($f) }; }
'''
FEAT = '''
#[doc(hidden)]
pub mod vx_feat {
    use std::sync::atomic::{AtomicU8, Ordering};
    static LEVEL: AtomicU8 = AtomicU8::new(2);
    pub fn set(l: u8) { LEVEL.store(l, Ordering::SeqCst); }
    #[allow(dead_code)]
    pub fn get(f: &str) -> bool {
        let l = LEVEL.load(Ordering::SeqCst);
        match f {
            "sse4.1" => l >= 1 && std::is_x86_feature_detected!("sse4.1"),
            "avx2" => l >= 2 && std::is_x86_feature_detected!("avx2"),
            "sse2" => true,
            _ => false,
        }
    }
}
'''
HOOK = '''
#[cfg(feature = "vx_hooks")]
#[doc(hidden)]
pub mod vx_hook {
    use super::*;
    pub fn recurse(input: &[u8], kw: &[u32; 8], off: u64, flags: u8, out: &mut [u8]) -> usize {
        hash_recurse(input, kw, off, Flags::from_bits(flags).unwrap(), Platform::detect(), out)
    }
    pub fn hasher_put(h: &mut Hasher, offset: u64, cvs: &[[u8; 32]]) {
        h.chunk.offset = offset;
        h.subtree_hashes.clear();
        for c in cvs { h.subtree_hashes.push(*c); }
    }
    pub fn output_at(o: &mut Output, off: u64) { o.offset = off; }
}
'''
def sh(*a, **k): return subprocess.run(a, **k)
def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding='utf-8').read() == text: return
    open(path, 'w', encoding='utf-8').write(text)
def mirror(src, dst):
    """copy a flat dir, leaving unchanged files alone, dropping vanished ones"""
    keep = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f); q = os.path.join(dst, os.path.relpath(p, src)); keep.add(os.path.abspath(q))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            b = open(p, 'rb').read()
            if not os.path.exists(q) or open(q, 'rb').read() != b: open(q, 'wb').write(b)
    for d, _, fs in os.walk(dst):
        for f in fs:
            q = os.path.abspath(os.path.join(d, f))
            if q not in keep: os.remove(q)
def copy_lib(repo, dst):
    """lib.rs with the inner attributes and docs first, then the macro"""
    t = open(os.path.join(repo, 'src/lib.rs'), encoding='utf-8').read()
    lines = t.split('\n'); i = 0; depth = 0
    while i < len(lines):
        l = lines[i].strip()
        if l.startswith('//') or l == '' or l.startswith('#!['): i += 1; continue
        break
    return '\n'.join(lines[:i]) + PRE + '\n'.join(lines[i:]) + FEAT + HOOK
def prep(repo, w):
    R = os.path.join(w, 'repo')
    for d in ('c', 'c64'):
        mirror(os.path.join(repo, d), os.path.join(R, d))
    for f in sorted(os.listdir(os.path.join(repo, 'src'))):
        p = os.path.join(repo, 'src', f)
        if f == 'lib.rs' or not os.path.isfile(p): continue
        put(os.path.join(R, 'src', f), open(p, encoding='utf-8').read())
    put(os.path.join(R, 'src/lib.rs'), copy_lib(repo, R))
    if os.path.exists(os.path.join(repo, 'build.rs')): put(os.path.join(R, 'build.rs'), open(os.path.join(repo, 'build.rs')).read())
    put(os.path.join(R, 'README.md'), 'x')
    ct = open(os.path.join(repo, 'Cargo.toml')).read()
    ct = re.sub(r'\[dev-dependencies\].*?(?=\n\[|\Z)', '', ct, flags=re.S)
    ct = re.sub(r'\[\[bench\]\].*?(?=\n\[|\Z)', '', ct, flags=re.S)
    ct = ct.replace('[features]', '[features]\nvx_hooks = []', 1)
    put(os.path.join(R, 'Cargo.toml'), ct)
    for f in ('Cargo.toml', 'reference_impl.rs'):
        put(os.path.join(w, 'refimpl', f), open(os.path.join(repo, 'reference_impl', f)).read())
    mirror(os.path.join(VERIF, 'witness'), os.path.join(w, 'witness'))
def build(repo, w, jobs=8, threads=True):
    """returns (binary, features) - falls back when the private names moved"""
    prep(repo, w)
    tgt = os.path.join(w, 'target')
    env = cargo_env({'CARGO_TARGET_DIR': tgt, 'RUSTFLAGS': '-Awarnings'})
    last = ''
    t = ['threads'] if threads else []
    for feats in (t + ['c', 'hooks'], t + ['c'], t + ['hooks'], t):
        p = sh('cargo', 'build', '--release', '--offline', '-j', str(jobs), '--features', ','.join(feats),
               cwd=os.path.join(w, 'witness'), env=env, capture_output=True, text=True)
        if p.returncode == 0:
            return os.path.join(tgt, 'release', 'witness'), feats, ''
        last = p.stderr
    return None, [], last
if __name__ == '__main__':
    b, f, e = build(sys.argv[1] if len(sys.argv) > 1 else '/repo', sys.argv[2] if len(sys.argv) > 2 else os.path.join(VERIF, 'build/w'))
    print(b, f); print(e[-6000:])
    sys.exit(0 if b else 1)
