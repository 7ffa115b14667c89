"""Deductive proofs about the compiled code of the kernels: builds unoptimised LLVM IR of /repo's
current Rust and C sources and has irproof verify each kernel against its contract."""
import glob, json, os, re, shutil, subprocess, time, hashlib, concurrent.futures as cf
from common import *
D = os.path.join(BUILD, 'ir')
def prover():
    def b():
        rc, o, e = cargo_build(os.path.join(VERIF, 'irproof'), os.path.join(BUILD, 'irproof'))
        if rc: raise RuntimeError('irproof does not build: ' + e[-2000:])
        return os.path.join(BUILD, 'irproof/release/irproof')
    return once('irproof', b)
def rust_ll():
    """IR of the library, its dependencies and the entry points, rustc -O0 without overflow checks or debug assertions (the code of a release build before optimisation)"""
    def b():
        d = os.path.join(D, 'roots-' + hashlib.sha1(REPO.encode()).hexdigest()[:8]); s = os.path.join(VERIF, 'irproof/roots')
        os.makedirs(os.path.join(d, 'src'), exist_ok=True)
        open(os.path.join(d, 'Cargo.toml'), 'w').write(open(os.path.join(s, 'Cargo.toml')).read().replace('@REPO@', REPO))
        t = open(os.path.join(s, 'src/lib.rs')).read(); p = os.path.join(d, 'src/lib.rs')
        if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)
        env = cargo_env({'CARGO_TARGET_DIR': os.path.join(d, 't'), 'RUSTFLAGS': '--emit=llvm-ir -Zshare-generics=no -Awarnings', 'RUSTC_BOOTSTRAP': '1', 'CARGO_PROFILE_DEV_DEBUG': 'false'})
        rc, o, e = run(['cargo', 'build', '--offline'], cwd=d, timeout=400, env=env)
        if rc: return None, 'the entry points do not compile against /repo: ' + e[-1200:]
        out = []
        for n in ('baokeshed', 'irroots', 'constant_time_eq', 'arrayvec', 'arrayref'):
            l = sorted(glob.glob(os.path.join(d, 't/debug/deps', n + '-*.ll')), key=os.path.getmtime)
            if l: out.append(l[-1])
        return out, ''
    return once('rust_ll', b)
CFLAGS = {'sse41': ['-msse4.1'], 'avx2': ['-mavx2'], 'avx512': ['-mavx512f', '-mavx512vl']}
def c_ll(neon=False):
    def b():
        d = os.path.join(D, 'neon' if neon else 'c'); os.makedirs(d, exist_ok=True)
        out, errs = {}, []
        for sub, pre in (('c', 'baokeshed'), ('c64', 'baokeshed64')):
            for v in (('portable', 'neon') if neon else ('portable', 'sse41', 'avx2', 'avx512')):
                src = os.path.join(REPO, sub, '%s_%s.c' % (pre, v)); o = os.path.join(d, '%s_%s.ll' % (pre, v))
                fl = ['--target=aarch64-linux-gnu', '-ffreestanding', '-isystem', os.path.join(VERIF, 'irproof/stub')] if neon else CFLAGS.get(v, [])
                rc, so, e = run(['clang-18', '-std=c11', '-O0', '-w', '-S', '-emit-llvm', *fl, src, '-o', o], timeout=120)
                if rc: errs.append('%s: %s' % (src, e[-400:]))
                else: out[(sub, v)] = o
        return out, errs
    return once('c_ll%d' % neon, b)
def line(**k): return ' '.join('%s=%s' % (a, v) for a, v in k.items())
RSIZE = {1: '1', 2: '2', 3: '3', 4: '4', 32: '32'}
def rust_jobs(tier, which):
    """(files, jobs, functions) for the Rust kernels; which: '32' or '64'"""
    J = []
    q = tier == 'quick'
    def comp(m, word, kind):
        J.append(line(name='%s::%s' % (m, 'compress' if kind == 'comp' else 'compress_xof'), fn='%s::%s' % (m, 'compress' if kind == 'comp' else 'compress_xof'), kind=kind, sym='%s_%s' % (m, 'c' if kind == 'comp' else 'x'), word=word, cost=1, case='%s,impl:%s' % ('kcomp64' if word == 64 else 'kcomp', m)))
    def many(m, word, n, bl, extra):
        J.append(line(name='%s::hash_many[n=%d,blocks=%d,surplus=%d]' % (m, n, bl, extra), fn='%s::hash_many' % m, kind='many', sym='%s_%d' % (m, bl), word=word, n=n, blocks=bl, extra=extra, cost=1 + n * bl, case='%s,impl:%s' % ('kmany64' if word == 64 else 'kmany', m)))
    ms = [('portable', 32), ('sse41', 32), ('avx2', 32)] if which == '32' else [('portable64', 64)]
    for m, w in ms:
        if m != 'avx2': comp(m, w, 'comp'); comp(m, w, 'xof')
        for n in range(0, 20 if q else 41): many(m, w, n, 1, (0, 1, 32, 45)[n % 4])
        for n in (range(0, 6) if q else range(0, 18)):
            for bl in (2, 3, 4): many(m, w, n, bl, (0, 33)[n % 2])
        for n in (range(0, 10) if q else range(0, 26)): many(m, w, n, 32, (0, 32)[n % 2])
    return J
CK = {'32': dict(comp=['portable', 'sse41', 'avx512'], fixed=[('hash4_sse41', 4, 'sse41'), ('hash8_avx2', 8, 'avx2'), ('hash4_avx512', 4, 'avx512'), ('hash8_avx512', 8, 'avx512'), ('hash16_avx512', 16, 'avx512')], many=['portable', 'sse41', 'avx2', 'avx512']),
      '64': dict(comp=['portable', 'avx2', 'avx512'], fixed=[('hash2_sse41', 2, 'sse41'), ('hash4_avx2', 4, 'avx2'), ('hash2_avx512', 2, 'avx512'), ('hash4_avx512', 4, 'avx512'), ('hash8_avx512', 8, 'avx512')], many=['portable', 'sse41', 'avx2', 'avx512'])}
CN = {'32': dict(comp=['portable'], fixed=[('hash4_neon', 4, 'neon')], many=['neon']), '64': dict(comp=['portable'], fixed=[('hash2_neon', 2, 'neon')], many=['neon'])}
def c_jobs(tier, which, neon=False):
    J = []; q = tier == 'quick'
    T = (CN if neon else CK)[which]; pre = '' if which == '32' else 'baokeshed64_'; dl = 17 if which == '32' else 9
    sfx = '64' if which == '64' else ''; tag = 'aarch64 ' if neon else ''
    for v in T['comp']:
        s = pre + 'compress_' + v
        J.append(line(name=(tag + s).replace(' ', ':'), fn='C:' + s, kind='comp', sym=s, word=which, cost=1, case='ccomp%s,impl:%s' % (sfx, v)))
    for s0, n, v in T['fixed']:
        s = pre + s0
        for bl in ([1, 2, 3, 4, 32] if q else range(1, 34)):
            for extra in (0, 32):
                if extra and bl > 2: continue
                J.append(line(name='%s[blocks=%d,surplus=%d]' % (s, bl, extra), fn='C:' + s, kind='fixedc', sym=s, word=which, n=n, blocks=bl, extra=extra, deltas=dl, cost=1 + n * bl / 4, case='cmany%s,impl:%d%s' % (sfx, n, v)))
    for v in T['many']:
        s = pre + 'hash_many_' + v
        for n in range(0, 36 if q else 68): J.append(line(name='%s[n=%d,blocks=1]' % (s, n), fn='C:' + s, kind='manyc', sym=s, word=which, n=n, blocks=1, extra=(0, 32, 5)[n % 3], deltas=dl, cost=1 + n, case='cmany%s,impl:%s' % (sfx, v)))
        for n, bl in ([(1, 2), (1, 3), (1, 32), (5, 2), (15, 32), (16, 32), (2, 3)] if q else [(n, bl) for n in (1, 2, 3, 7, 15, 16, 17, 31) for bl in (2, 3, 4, 5, 31, 32)]):
            J.append(line(name='%s[n=%d,blocks=%d]' % (s, n, bl), fn='C:' + s, kind='manyc', sym=s, word=which, n=n, blocks=bl, extra=0, deltas=dl, cost=1 + n * bl, case='cmany%s,impl:%s' % (sfx, v)))
    return J
def hash_jobs():
    J = [line(name='Hash==Hash', fn='Hash::eq', kind='eq', sym='hash_eq', case='hashv'), line(name='Hash!=Hash', fn='Hash::ne', kind='eq', sym='hash_ne', case='hashv'), line(name='Hash==[u8;32]', fn='Hash::eq', kind='eq', sym='hash_eq_arr', case='hashv'), line(name='Hash::to_hex', fn='Hash::to_hex', kind='hex', sym='hash_hex', case='hashv')]
    for s, f in (('hash_from', 'From<[u8;32]>'), ('hash_into', 'Into<[u8;32]>'), ('hash_bytes', 'Hash::as_bytes')): J.append(line(name=f, fn=f, kind='conv', sym=s, case='hashv'))
    return J
def execute(groups, tier):
    """groups: [(files, jobs)] -> (results, errors); the jobs are spread over the cores"""
    b = prover(); work = []
    for files, jobs in groups:
        cost = lambda j: float(re.search(r'cost=(\S+)', j).group(1)) if 'cost=' in j else 1
        js = sorted(jobs, key=cost, reverse=True)
        k = max(1, min(8, len(js) // 6 or 1, int(sum(map(cost, js)) / 60) + 1)); bins = [[0, []] for _ in range(k)]
        for j in js: m = min(bins, key=lambda x: x[0]); m[0] += cost(j) + 1; m[1].append(j)
        for w, l in bins: work.append((w, files, l))
    work.sort(key=lambda x: -x[0])
    def go(w):
        p = subprocess.Popen([b, *w[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        PROCS.add(p)
        try: o, e = p.communicate('\n'.join(w[2]) + '\n', timeout=300 if tier == 'quick' else 700)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); o, e = p.communicate()
        finally: PROCS.discard(p)
        rs = []; fatal = ''
        for l in o.splitlines():
            try: r = json.loads(l)
            except ValueError: continue
            if 'fatal' in r: fatal = r['fatal']
            else: rs.append(r)
        done = {r['name'] for r in rs}
        for j in w[2]:
            n = re.search(r'name=(\S+)', j).group(1)
            if n not in done: rs.append(dict(name=n, fn=re.search(r'fn=(\S+)', j).group(1), obl={}, fails=[], und=['no result: %s' % (fatal or e[-300:] or 'time limit')], ct=[], steps=0, accesses=0, paths=0, ms=0, z3_ms=0, atoms=0, fns=[]))
        return rs
    with cf.ThreadPoolExecutor(8) as ex: return [r for rs in ex.map(go, work) for r in rs]
def groups_for(parts, tier):
    G, und = [], []
    if any(p in parts for p in ('rust32', 'rust64', 'hash')):
        f, err = rust_ll()
        if f is None: und.append(('Rust kernels', err))
        else:
            js = []
            if 'rust32' in parts: js += rust_jobs(tier, '32')
            if 'rust64' in parts: G.append((f, rust_jobs(tier, '64')))
            if 'hash' in parts: js += hash_jobs()
            if js: G.append((f, js))
    for neon in (False, True):
        ws = [w for w in ('32', '64') if ('neon' if neon else 'c') + w in parts]
        if not ws: continue
        out, errs = c_ll(neon)
        for e in errs: und.append(('C compilation', e))
        for w in ws: G.append(([v for k, v in out.items() if k[0] == ('c' if w == '32' else 'c64')], c_jobs(tier, w, neon)))
    return G, und
WHAT = {'post': 'functional', 'frame': 'frame', 'bounds': 'bounds', 'panic': 'panic', 'ct': 'ct'}
def unit(parts, keep, tier):
    """keep: which obligation kinds belong to the property"""
    t0 = time.time(); G, und = groups_for(parts, tier)
    rs = once('ir:' + ','.join(sorted(parts)) + tier, lambda: execute(G, tier))
    tot = dis = 0; failed = []; undecided = [dict(fn=a, why=b) for a, b in und]; fns = {}; per = {}; inl = set(); outside = []
    for r in rs:
        f = per.setdefault(r['fn'], dict(jobs=0, obligations=0, discharged=0, ms=0.0, steps=0, accesses=0)); f['jobs'] += 1; f['ms'] += r['ms']; f['steps'] += r['steps']; f['accesses'] += r['accesses']
        iseq = r['fn'] in ('Hash::eq', 'Hash::ne'); inner = not r['fn'].startswith(('Hash', 'From', 'Into'))
        # printing and converting a hash compares nothing: only the kernels and the comparisons have to run in constant time
        ctk = 'ct' in keep and (iseq or inner) or 'ct-eq' in keep and iseq
        for k, (a, b) in r['obl'].items():
            if not (ctk if k == 'ct' else k in keep): continue
            tot += a; dis += min(a, b); f['obligations'] += a; f['discharged'] += min(a, b)
        if not r['obl']: tot += 1; f['obligations'] += 1
        inl.update(r['fns'])
        hit = False
        for x in r['fails']:
            k = {'functional': 'post'}.get(x['kind'], x['kind'])
            if k in keep: failed.append(dict(fn=r['fn'], kind=x['kind'], msg=x['msg'], case=x['case'], detail='job %s' % r['name'])); hit = True
            elif k in ('bounds', 'panic') and 'post' not in keep or 'post' in keep: outside.append('%s: %s' % (r['name'], x['msg']))
        if ctk:
            for c in r['ct']: failed.append(dict(fn=r['fn'], kind='ct', msg='%s: %s' % (c['what'], c['at']), case='', detail='job %s' % r['name']))
        for u in r['und']:
            # a postcondition that is not settled matters only where postconditions are claimed
            if 'postconditions' in u and 'post' not in keep: continue
            undecided.append(dict(fn='%s (%s)' % (r['fn'], r['name']), why=u))
    return dict(obligations=tot, discharged=dis, solver_ms=round(sum(r['z3_ms'] for r in rs), 1), verifier_ms=round(sum(r['ms'] for r in rs), 1), failed=failed, undecided=undecided, functions_under_contract=per, functions_evaluated=sorted(inl)[:400], jobs=len(rs), instructions=sum(r['steps'] for r in rs), memory_accesses_checked=sum(r['accesses'] for r in rs), other_failures=outside[:10], wall_s=round(time.time() - t0, 1))
if __name__ == '__main__':
    import sys
    r = unit(sys.argv[1].split(','), sys.argv[2].split(','), sys.argv[3] if len(sys.argv) > 3 else 'quick')
    r['functions_evaluated'] = len(r['functions_evaluated'])
    r['failed'] = r['failed'][:5]; r['undecided'] = r['undecided'][:5]
    print(json.dumps(r, indent=1))
