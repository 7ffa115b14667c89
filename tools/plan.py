"""Which functions, proof units and concrete suites decide which property."""
import os, json
from common import *
import ir_unit as _ir
X = 'target_arch=x86_64'; A = 'target_arch=aarch64'; R = 'feature=rayon'
VERUS = {
    'lib': dict(overlay='lib.vx', cfgs=[(X, R), (X,), (A, R), (A,)]),
    'copy': dict(overlay='copy.vx', cfgs=[(X,), (A,)]),
    'py': dict(overlay='py.vx', cfgs=[(X,)], gen='py'),
    'c': dict(overlay='c.vx', gen='c', cfgs=[(X, 'gen:none'), (X, 'gen:BAOKESHED_USE_SSE41'), (X, 'gen:BAOKESHED_USE_SSE41', 'gen:BAOKESHED_USE_AVX2'),
        (X, 'gen:BAOKESHED_USE_SSE41', 'gen:BAOKESHED_USE_AVX2', 'gen:BAOKESHED_USE_AVX512'), (A, 'gen:BAOKESHED_USE_NEON')]),
    'cli': dict(overlay='cli.vx', cfgs=[(X, R)]),
    'ref': dict(overlay='ref.vx', cfgs=[(X,)]),
    'port': dict(overlay='port.vx', cfgs=[(X,)]),
    'port64': dict(overlay='port64.vx', cfgs=[(X,)]),
    'sse41': dict(overlay='sse41.vx', cfgs=[(X,)]),
    'avx2': dict(overlay='avx2.vx', cfgs=[(X,)]),
    'ckport': dict(overlay='ckport.vx', cfgs=[(X, 'gen:none')], gen='ckport'),
    'ckavx2': dict(overlay='ckavx2.vx', cfgs=[(X, 'gen:none')], gen='ckavx2'),
    'ck512x4': dict(overlay='ck512x4.vx', cfgs=[(X, 'gen:none')], gen='ck512x4'),
    'ck512x8': dict(overlay='ck512x8.vx', cfgs=[(X, 'gen:none')], gen='ck512x8'),
    'ck512x16': dict(overlay='ck512x16.vx', cfgs=[(X, 'gen:none')], gen='ck512x16'),
    'ckavx512': dict(overlay='ckavx512.vx', cfgs=[(X, 'gen:none')], gen='ckavx512'),
    'cksse': dict(overlay='cksse.vx', cfgs=[(X, 'gen:none')], gen='cksse'),
    'ckneon': dict(overlay='ckneon.vx', cfgs=[(X, 'gen:none')], gen='ckneon'),
    'ckport64': dict(overlay='ckport64.vx', cfgs=[(X, 'gen:none')], gen='ckport64'),
    'ck64sse': dict(overlay='ck64sse.vx', cfgs=[(X, 'gen:none')], gen='ck64sse'),
    'ck64avx2': dict(overlay='ck64avx2.vx', cfgs=[(X, 'gen:none')], gen='ck64avx2'),
    'ck64x2': dict(overlay='ck64x2.vx', cfgs=[(X, 'gen:none')], gen='ck64x2'),
    'ck64x4': dict(overlay='ck64x4.vx', cfgs=[(X, 'gen:none')], gen='ck64x4'),
    'ck64x8': dict(overlay='ck64x8.vx', cfgs=[(X, 'gen:none')], gen='ck64x8'),
    'ck64avx512': dict(overlay='ck64avx512.vx', cfgs=[(X, 'gen:none')], gen='ck64avx512'),
    'ck64neon': dict(overlay='ck64neon.vx', cfgs=[(X, 'gen:none')], gen='ck64neon'),
}
KERNELS = ['port', 'sse41', 'avx2', 'port64', 'ckport', 'cksse', 'ckneon', 'ckavx2', 'ck512x4', 'ck512x8', 'ck512x16', 'ckavx512', 'ckport64', 'ck64sse', 'ck64avx2', 'ck64x2', 'ck64x4', 'ck64x8', 'ck64avx512', 'ck64neon']
CONV = ['words_from_key_bytes', 'bytes_from_state_words', r'Hash@.*', r'\[u8;OUT_LEN\]@.*', 'Hash::as_bytes', 'IsRoot::flag']
PLAT = [r'Platform::.*']
ONE = CONV + PLAT + ['Output::.*', 'hash_one_chunk', 'hash_chunks_parallel', 'hash_parents_parallel', 'largest_power_of_two_leq', 'left_len', 'join', 'hash_recurse', 'condense_root', 'hash_internal', 'hash', 'hash_xof', 'keyed_hash', 'keyed_hash_xof', 'derive_key', 'derive_key_xof']
INC = CONV + PLAT + ['Output::to_hash', 'ChunkState::.*', 'Hasher::.*', 'hash_one_parent', r'Hasher@.*']
XOF = CONV + ['Platform::detect', 'Platform::compress', 'Platform::compress_xof', 'Output::.*', 'hash_xof', 'keyed_hash_xof', 'derive_key_xof', 'hash_internal', 'condense_root', 'hash_one_chunk', 'Hasher::finalize_xof', 'ChunkState::finalize', 'hash_one_parent']
TRUSTED_COMMON = [
    'Verus 0.2026.09.13 with z3, and vstd', 'vx, the extractor (rewrites listed in DESIGN.md)', 'rustc',
    'shim.rs: assumed contracts of std, arrayref, arrayvec, bitflags operations marked external_body',
    'rayon::join runs both closures and returns both results',
    'CPU feature detection reports features truthfully',
]
ASSUME_COMMON = []
IR = {
    'rust-kernels': (['rust32'], ['post', 'panic']),
    'kernel-memory': (['rust32', 'rust64', 'c32', 'c64', 'neon32', 'neon64'], ['bounds', 'frame']),
    'hash-values': (['hash'], ['post', 'frame', 'bounds', 'panic', 'ct-eq']),
    'c-kernels': (['c32', 'neon32'], ['post', 'panic']),
    'kernels-64': (['rust64', 'c64', 'neon64'], ['post', 'panic']),
    'constant-time': (['rust32', 'rust64', 'c32', 'c64', 'neon32', 'neon64', 'hash'], ['ct']),
}
def ir_unit(n, tier, seed): return _ir.unit(*IR[n], tier)
IRP = 'contract-based deductive verification (irproof: verification conditions from the LLVM IR of the real functions, decided by term normalisation and z3)'
VRP = 'contract-based deductive verification (Verus over the mechanically extracted code, for every number of inputs and blocks; irproof: verification conditions from the LLVM IR of the real functions, decided by term normalisation and z3)'
KT = ['simd*.rs: the meaning of the SIMD intrinsics, by Intel\'s and Arm\'s definitions (irproof executes them independently, and its reading was tested on the CPU)', 'the contracts of the single-block vector kernels that hash_one calls, which irproof discharges for all inputs', 'cx.py, the translator from C, for the C kernels; memcpy and memset; little-endian memory; buffers handed to a kernel do not overlap']
def py_suite_deep(tier, seed, secs):
    rc, o, e = run(['python3', os.path.join(VERIF, 'tools', 'pysuite.py'), REPO, str(secs), str(seed)], timeout=secs + 60, cwd=BUILD)
    try: return json.loads(o)
    except Exception: return dict(evaluations=0, distinct=0, fails=[], samples=[], error='the Python suite did not finish: ' + (e or o)[-300:])
def py_suite(tier, seed): return py_suite_deep(tier, seed, 12 if tier == 'quick' else 240)
def cli_binary():
    import prep_witness as pw, re
    def b():
        w = os.path.join(BUILD, 'cli'); R = os.path.join(w, 'repo')
        for d in ('c', 'c64', 'src', 'baokeshed_bin/src'): pw.mirror(os.path.join(REPO, d), os.path.join(R, d))
        for f in ('Cargo.toml', 'build.rs', 'baokeshed_bin/Cargo.toml'):
            if not os.path.exists(os.path.join(REPO, f)): continue
            t = open(os.path.join(REPO, f)).read()
            if f.endswith('.toml'):
                t = re.sub(r'\[dev-dependencies\].*?(?=\n\[|\Z)', '', t, flags=re.S)
                t = re.sub(r'\[\[bench\]\].*?(?=\n\[|\Z)', '', t, flags=re.S)
            pw.put(os.path.join(R, f), t)
        pw.put(os.path.join(R, 'README.md'), 'x')
        rc, o, e = run(['cargo', 'build', '--offline'], cwd=os.path.join(R, 'baokeshed_bin'), timeout=600, env=cargo_env({'CARGO_TARGET_DIR': os.path.join(w, 'target'), 'RUSTFLAGS': '-Awarnings'}))
        return (None, e[-1500:]) if rc else (os.path.join(w, 'target', 'debug', 'baokeshed'), '')
    return once('cli', b)
def cli_suite_deep(tier, seed, secs):
    b, err = cli_binary()
    if not b: return dict(evaluations=0, distinct=0, fails=[], samples=[], error='the command-line tool does not build: ' + err)
    rc, o, e = run(['python3', os.path.join(VERIF, 'tools', 'clisuite.py'), b, str(secs), str(seed)], timeout=secs + 90, cwd=BUILD)
    try: return json.loads(o)
    except Exception: return dict(evaluations=0, distinct=0, fails=[], samples=[], error='the command-line suite did not finish: ' + (e or o)[-300:])
def cli_suite(tier, seed): return cli_suite_deep(tier, seed, 15 if tier == 'quick' else 240)
PLAN = {
    'C01': dict(level='proof', verus={'lib': ONE}, suites=['one', 'kern'], single=True),
    'C02': dict(level='proof', verus={'lib': INC}, suites=['inc']),
    'C03': dict(level='proof', verus={'lib': XOF}, suites=['xof']),
    'C06': dict(level='proof', verus={'lib': ['.*']}, suites=['one', 'inc', 'xof'], only=r'^(PANIC|CRASH|TIMEOUT)', kinds=['safety']),
    'C07': dict(level='proof', verus={'ref': ['.*']}, suites=['ref']),
    'C08': dict(level='proof', verus={'copy': ['.*']}, suites=['copy']),
    'C04': dict(level='proof', verus={'port': ['.*'], 'sse41': ['.*'], 'avx2': ['.*']}, ir=['rust-kernels'], suites=['kern'], technique=VRP, trusted=KT),
    'C05': dict(level='proof', verus={u: ['.*'] for u in KERNELS}, kinds=['safety', 'memory'], no_probe=True, ir=['kernel-memory'], suites=['kern', 'ckern', 'k64'], frame_only=True, technique=VRP, trusted=KT),
    'C09': dict(level='proof', ir=['hash-values'], suites=['hash'], technique=IRP),
    'C10': dict(level='proof', verus={'ckport': ['.*'], 'cksse': ['.*'], 'ckneon': ['.*'], 'ckavx2': ['.*'], 'ck512x4': ['.*'], 'ck512x8': ['.*'], 'ck512x16': ['.*'], 'ckavx512': ['.*']}, ir=['c-kernels'], suites=['ckern'], technique=VRP, trusted=KT),
    'C13': dict(level='proof', verus={'port64': ['.*'], 'ckport64': ['.*'], 'ck64sse': ['.*'], 'ck64avx2': ['.*'], 'ck64x2': ['.*'], 'ck64x4': ['.*'], 'ck64x8': ['.*'], 'ck64avx512': ['.*'], 'ck64neon': ['.*']}, ir=['kernels-64'], suites=['k64'], technique=VRP, trusted=KT),
    'C14': dict(level='proof', ir=['constant-time'], technique=IRP),
    'C11': dict(level='proof', verus={'c': ['.*']}, suites=['cinc'], trusted=['cx.py, the translator from C (clang AST; what it accepts and how is in DESIGN.md)', 'the contracts of the C kernels, which C10 discharges for every number of inputs', 'the meaning of memcpy and memset; size_t is 64 bits; buffers handed to the library do not overlap its state']),
    'C12': dict(level='proof', verus={'cli': ['.*']}, extra=['cli_suite'], trusted=['the contracts of the library (lib.vx) and of copy_wide (copy.vx), which C01-C03 and C08 discharge', 'Hash::to_hex gives the lowercase hexadecimal form (discharged by C09)', 'cli.vx: assumed contracts of std::fs, std::io, memmap, hex, anyhow and the printing macros; files do not change during the run'], outside=['main: command-line parsing by docopt (exercised by the concrete suite only)']),
    'C15': dict(level='proof', verus={'py': ['.*']}, extra=['py_suite'], trusted=['pyx.py, the translator from Python (what it accepts and how is in DESIGN.md)', 'pyshim.rs: the meaning of Python integers, byte strings and lists']),
}
NA = {}
NOTES = 'Every check rebuilds from /repo. A failed obligation is followed by a search for a failing input on the real code.'
for i, n in {
    'C01': 'Proof, for all inputs: the one-shot functions equal the tree hash over the compression function. Assumes the stand-in contracts listed in the evidence.',
    'C02': 'Proof, for all histories: the hasher equals the tree hash of everything fed so far.',
    'C03': 'Proof: block k of the extended output is the root compression with counter 64k.',
    'C06': 'Proof of every bounds, overflow, assertion, capacity and termination obligation of the hashing API under the contracts of C01-C03.',
    'C07': 'Proof, for all inputs and histories, of every function of the reference implementation down to the rounds of the compression function, which the contracts write out; a 32-bit usize is not modelled.',
    'C08': 'Proof, for every reader and writer (every sequence of short reads, interruptions, errors and write outcomes): the writer got exactly the bytes delivered, the count is their number, and the first error other than an interruption is returned at once.',
    'C04': 'Proof, for all contents, keys, flags, block lengths, offsets and steps, of every Rust kernel: for every number of inputs and blocks by Verus over the assumed contracts of the intrinsics, and again from the LLVM IR at enumerated numbers with the intrinsics by definition.',
    'C05': 'Proof: every load and store of every kernel lies inside its buffer and only the output changes, for all contents and parameters: for every number of inputs and blocks by Verus, and again from the LLVM IR at enumerated numbers.',
    'C09': 'Proof over all 32-byte values, from the LLVM IR of the real functions.',
    'C10': 'Proof, for all contents, keys, flags, block lengths and offsets, of every C kernel (NEON included): for every number of inputs and blocks by Verus over text translated mechanically from clang\'s syntax tree, and again from the LLVM IR at enumerated numbers.',
    'C13': 'As C04 and C10 for the 64-bit variant.',
    'C11': 'Proof, for all histories, of every function of the C hasher, translated mechanically from clang\'s syntax tree, in each of the five kernel configurations; the kernels enter through the contracts C10 discharges.',
    'C12': 'Proof, for every input, option and length up to 2^64-64, of every function of the tool but main, over the contracts of the library and of the operating system; a concrete suite runs the binary, docopt included.',
    'C15': 'Proof, for all messages, 32-byte keys and output lengths, of every function of the Python file, translated mechanically to the verifier on every run; the meaning of the Python built-ins is assumed.',
    'C14': 'Proof that no branch and no address in any kernel or hash comparison depends on content, key, chaining value or hash bytes.',
}.items(): PLAN[i]['note'] = n
