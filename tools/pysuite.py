#!/usr/bin/env python3
"""pysuite.py REPO SECS SEED [case]: python/baokeshed.py against an independent definition (JSON on stdout)."""
import sys, time, random, json, importlib.util, os
M = 0xffffffff
IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
PERM = ['0123456789abcdef', 'ea489fd61c02b753', 'b8c052fdae367194', '7931dcbe265a40f8', '905724afe1bc683d', '2c6a0b834d75fe19', 'c51fed4a0763928b']
S = [[int(c, 16) for c in p] for p in PERM]
def rot(x, n): return ((x >> n) | (x << (32 - n))) & M
def comp(cv, block, blen, off, flags):
    w = [block[4 * i] | block[4 * i + 1] << 8 | block[4 * i + 2] << 16 | block[4 * i + 3] << 24 for i in range(16)]
    v = list(cv) + IV[:4] + [off & M, off >> 32 & M, blen, flags]
    for r in range(7):
        for j, (a, b, c, d) in enumerate([(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]):
            x, y = w[S[r][2 * j]], w[S[r][2 * j + 1]]
            v[a] = (v[a] + v[b] + x) & M; v[d] = rot(v[d] ^ v[a], 16); v[c] = (v[c] + v[d]) & M; v[b] = rot(v[b] ^ v[c], 12)
            v[a] = (v[a] + v[b] + y) & M; v[d] = rot(v[d] ^ v[a], 8); v[c] = (v[c] + v[d]) & M; v[b] = rot(v[b] ^ v[c], 7)
    return [v[i] ^ v[i + 8] for i in range(8)] + [v[i + 8] ^ cv[i] for i in range(8)]
def by(w): return b''.join(x.to_bytes(4, 'little') for x in w)
def chunk(m, key, off, f):
    cv = key; n = 0 if not m else (len(m) - 1) // 64
    for i in range(n): cv = comp(cv, m[64 * i:64 * i + 64], 64, off, f | (i == 0))[:8]
    t = m[64 * n:]
    return (cv, t + bytes(64 - len(t)), len(t), off, f | (n == 0) | 2)
def cv(n): return by(comp(*n)[:8])
def sub(m, key, off, f):
    if len(m) <= 2048: return chunk(m, key, off, f)
    p = 2048
    while 2 * p < len(m): p *= 2
    return (key, cv(sub(m[:p], key, off, f)) + cv(sub(m[p:], key, off + p, f)), 64, 0, f | 4)
def stream(n, out):
    r = b''; k = 0
    while len(r) < out: r += by(comp(n[0], n[1], n[2], 64 * k, n[4] | 8)); k += 1
    return r[:out]
def words(b): return [int.from_bytes(b[i:i + 4], 'little') for i in range(0, len(b), 4)]
def load(repo):
    sys.dont_write_bytecode = True
    sp = importlib.util.spec_from_file_location('bk_under_test', os.path.join(repo, 'python', 'baokeshed.py'))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m
def message(rng, n): return bytes(rng.getrandbits(8) for _ in range(n)) if n < 600 else random.Random(rng.getrandbits(30)).randbytes(n)
def run(m, case):
    """case: kind:len:out:seed -> None or what is wrong"""
    k, n, out, seed = case.split(':'); n, out, seed = int(n), int(out), int(seed)
    rng = random.Random(seed)
    key = rng.randbytes(32); data = message(rng, n)
    try:
        if k == 'plain': got, want = m.hash(data, out), stream(sub(data, IV, 0, 0), out)
        elif k == 'keyed': got, want = m.keyed_hash(key, data, out), stream(sub(data, words(key), 0, 16), out)
        elif k == 'derive': got, want = m.derive_key(key, data, out), stream(sub(data, words(key), 0, 32), out)
        elif k == 'bytearray':
            got, want = m.hash(bytearray(data), out), stream(sub(data, IV, 0, 0), out)
        elif k == 'recurse':   # a subtree at a high offset
            if not hasattr(m, 'hash_recurse'): return None
            off = 2048 * rng.choice([2**21 - 1, 2**21, 2**21 + 1, 2**32 + 5, 2**52])
            got, want = m.hash_recurse(data, words(key), off, 16).chaining_value(), cv(sub(data, words(key), off, 16))
        elif k == 'left':
            if not hasattr(m, 'left_len'): return None
            x = n + out * 2048
            if x <= 2048: return None
            p = 2048
            while 2 * p < x: p *= 2
            g = m.left_len(x)
            return None if g == p else 'left_len(%d) = %d, want %d' % (x, g, p)
        got = bytes(got)
    except Exception as e: return 'PANIC %s: %s' % (type(e).__name__, str(e)[:200])
    return None if got == want else 'MISMATCH got %s want %s' % (got.hex()[:80], want.hex()[:80])
EDGE = [0, 1, 3, 4, 63, 64, 65, 127, 128, 129, 1023, 1984, 1985, 2047, 2048, 2049, 2112, 4095, 4096, 4097, 6144, 6145, 8192, 8193, 10240, 14336, 16384, 16385]
OUTS = [0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200]
def main():
    repo, secs, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    t0 = time.time(); res = dict(evaluations=0, distinct=0, fails=[], samples=[], error='')
    try: m = load(repo)
    except BaseException as e:
        res['error'] = 'python/baokeshed.py does not load: %r' % e; print(json.dumps(res)); return
    if len(sys.argv) > 4:
        r = run(m, sys.argv[4]); print(json.dumps(r)); return
    rng = random.Random(seed); seen = set()
    def todo():
        for n in EDGE: yield 'plain:%d:32:%d' % (n, n)
        for o in OUTS:
            for k in ('plain', 'keyed', 'derive'): yield '%s:%d:%d:%d' % (k, rng.choice([0, 1, 64, 100, 2049]), o, o)
        yield 'keyed:1:66000:7'
        for n in (67584, 67585, 133121): yield 'plain:%d:32:1' % n
        for n in [1, 64, 65, 2048, 2049, 4097]: yield 'recurse:%d:32:%d' % (n, n)
        for i in range(1, 62):
            for d in (-1, 0, 1): yield 'left:%d:%d:0' % (d + 2048, 2**i)
        while True:
            k = rng.choice(['plain', 'keyed', 'derive', 'recurse', 'left', 'bytearray'])
            n = rng.choice([rng.choice(EDGE), rng.randrange(0, 3000), 2048 * rng.randrange(1, 9) + rng.choice([-1, 0, 1])])
            yield '%s:%d:%d:%d' % (k, n, rng.choice([32, rng.choice(OUTS), rng.randrange(0, 300)]) if k != 'left' else rng.randrange(1, 2**40), rng.randrange(2**20))
    for c in todo():
        if time.time() - t0 > secs: break
        e = run(m, c)
        res['evaluations'] += 1; seen.add(c)
        if len(res['samples']) < 5: res['samples'].append(c)
        if e: res['fails'].append(['py ' + c, e])
        if len(res['fails']) > 3: break
    res['distinct'] = len(seen)
    print(json.dumps(res))
if __name__ == '__main__': main()
