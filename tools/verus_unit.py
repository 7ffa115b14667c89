"""Extract the real functions with vx, verify with Verus, classify what fails."""
import time, json, os, re, concurrent.futures as cf
from common import *
SAFETY = ('possible arithmetic', 'possible division', 'index out of bounds', 'possible bit shift', 'decreases', 'unreachable', 'termination')
UNDECIDED = ('rlimit', 'Resource limit', 'timed out', 'not supported', 'unsupported')
class Fail:
    def __init__(s, fn, kind, msg, detail, cfg): s.fn, s.kind, s.msg, s.detail, s.cfg = fn, kind, msg, detail, cfg
def fn_at(ranges, line):
    for r in ranges:
        if r['start'] <= line < r['end'] and not r['name'].startswith('<'): return r
    return None
def spans_of(d):
    out = [(s['line_start'], s['is_primary'], s.get('label') or '') for s in d.get('spans', []) if s['file_name'].endswith('out.rs')]
    for c in d.get('children', []): out += spans_of(c)
    return out
def verus(path, extra, timeout):
    return run(['verus', '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--error-format=json', *extra, os.path.basename(path)],
               cwd=os.path.dirname(path), timeout=timeout, env=dict(os.environ))
def clause_of(d):
    """the lines of the precondition that fails, with its text"""
    return [(s['line_start'], ' '.join(t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1] for t in s.get('text', []))) for s in d.get('spans', []) if 'failed precondition' in (s.get('label') or '')]
def in_proof_fn(path, line):
    ls = open(path).read().split('\n')
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.match(r'\s*(?:pub(?:\([a-z]+\))? )?((?:\w+ )*)fn \w', ls[i])
        if m: return 'proof' in m.group(1) or 'spec' in m.group(1)
    return False
def classify(diags, j, out, cfg):
    fails = []
    for d in diags:
        msg = d['message']
        if msg.startswith('aborting due to') or not d.get('spans'): continue
        sp = spans_of(d)
        prim = [s for s in sp if s[1]] or sp
        r = fn_at(j['functions'], prim[0][0]) if prim else None
        sec = [s for s in sp if not s[1]]
        # a failed postcondition points at the contract; the body it belongs to is in the same range
        name = r['name'] if r else '<lemma>'
        if r is None:
            for s in sp:
                q = fn_at(j['functions'], s[0])
                if q: name = q['name']; r = q
        kind = 'functional'
        if any(u in msg for u in UNDECIDED): kind = 'undecided'
        elif any(u in msg for u in SAFETY): kind = 'safety'
        elif 'precondition' in msg:
            # of a stand-in for a std operation (bounds, assert, capacity): safety; of another contract: functional
            tgt = [q for q in j['functions'] for s in sp if q['start'] <= s[0] < q['end'] and q is not r]
            kind = 'safety' if any(q['name'].startswith('<shim') for q in tgt) or not tgt else 'functional'
            if kind == 'functional' and any('.len() >=' in t and not in_proof_fn(out, ln) for ln, t in clause_of(d)): kind = 'memory'
        fails.append(Fail(name, kind, msg, render(d, out), ' '.join(cfg)))
    return fails
def parse(e):
    ds = []
    for l in e.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('level') == 'error': ds.append(d)
    return ds
def retry(res, j, out, cfg, deadline):
    """a failed function once more, with what is known before a loop kept inside it (a local moved out of a loop needs no new invariant then)"""
    names = {f.fn for f in res['fails']}
    # first with every other function assumed to keep its contract (it was just verified), then, if that text is refused, all of it
    for light in (True, False):
        if deadline - time.time() < 40: return
        r = retry_run(names, j, out, cfg, deadline, light)
        if r is None: continue
        still, errors = r
        ok = names - still if '<lemma>' not in still else set()
        if ok:
            res['notes'] = list(res['notes']) + ['%s: proved with loop_isolation(false)' % x for x in sorted(ok)]
            res['fails'] = [f for f in res['fails'] if f.fn not in ok]
            res['errors'] = errors
        return
def retry_run(names, j, out, cfg, deadline, light):
    ls = open(out).read().split('\n')
    n = 0
    for r in j['functions']:
        if r['name'].startswith('<') or (r['name'] not in names and (not light or r['external'])): continue
        for i in range(r['start'] - 1, min(r['end'], len(ls))):
            if re.match(r'\s*(pub(\([a-z]+\))? )?(const )?(unsafe )?(fn) ', ls[i]):
                if r['name'] not in names: ls[i] = '#[verifier::external_body] ' + ls[i]
                elif not any('loop_isolation' in x for x in ls[max(i - 4, 0):i]):
                    ls[i] = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ' + ls[i]; n += 1
                break
    if not n: return set(names), 0
    d2 = os.path.join(os.path.dirname(out), 'retry'); os.makedirs(d2, exist_ok=True)
    out2 = os.path.join(d2, 'out.rs')
    open(out2, 'w').write('\n'.join(ls))
    rc, o, e = verus(out2, ['--multiple-errors', '3', '--num-threads', '2', '--rlimit', '50', '-V', 'spinoff-all'], deadline - time.time())
    if rc == -999: return set(names), 0
    try: vr = json.loads(o[o.index('{'):]).get('verification-results', {})
    except Exception: return None
    if vr.get('encountered-vir-error') or 'verified' not in vr: return None
    ds = parse(e)
    if any((d.get('code') or {}).get('code', '').startswith('E') for d in ds): return None
    return {f.fn for f in classify(ds, j, out2, cfg)}, vr['errors']
def one_cfg(overlay, cfg, work, stub0=(), probe=False, timeout=400, src=None):
    os.makedirs(work, exist_ok=True)
    ov = os.path.join(VERIF, 'verus', overlay)
    res = dict(cfg=' '.join(cfg), fails=[], undecided={}, stubs=list(stub0), ranges=[], verified=0, errors=0, lost=[], notes=[], inlined=[], times=[], fatal=None, smt_ms=0, total_ms=0, probes=0)
    stubs = list(stub0)
    deadline = time.time() + timeout
    for attempt in range(8):
        out, oj = os.path.join(work, 'out.rs'), os.path.join(work, 'out.json')
        args = [vx_bin(), ov, src or REPO, out, oj]
        for c in cfg: args += ['--cfg', c]
        for s in stubs: args += ['--stub', s]
        if probe: args.append('--probe')
        rc, o, e = run(args, timeout=60)
        if rc:
            res['fatal'] = 'extraction failed: ' + (e or o)[-1500:]
            return res
        j = json.load(open(oj))
        res.update(ranges=j['functions'], lost=j['lost'], notes=j['notes'], inlined=j['inlined'], probes=j.get('probes', 0))
        rc, o, e = verus(out, ['--multiple-errors', '0' if probe else '3', '--num-threads', '2', '--rlimit', '50', '-V', 'spinoff-all'], max(deadline - time.time(), 5))
        diags = []
        raw = []
        for l in e.splitlines():
            try: d = json.loads(l)
            except Exception: raw.append(l); continue
            if d.get('level') == 'error': diags.append(d)
        try: js = json.loads(o[o.index('{'):])
        except Exception: js = None
        if rc == -999:
            res['fatal'] = 'verus timed out'
            return res
        vr = (js or {}).get('verification-results', {})
        done = js is not None and not vr.get('encountered-vir-error') and 'verified' in vr
        # rustc's own errors (a hint naming a local the body no longer has, a type that no longer fits) are no verdicts
        if any((d.get('code') or {}).get('code', '').startswith('E') for d in diags): done = False
        if not done:
            # a construct Verus does not take: assume that function's contract, and say so
            bad = set()
            for d in diags:
                for ln, prim, lab in spans_of(d):
                    r = fn_at(j['functions'], ln)
                    if r and prim: bad.add(r['name'])
            bad -= set(stubs)
            if not bad or attempt == 7:
                res['fatal'] = 'verus rejects the extracted text: ' + '; '.join(d['message'] for d in diags[:4]) + ' '.join(raw[-5:])[:500]
                return res
            for b in bad:
                stubs.append(b)
                res['undecided'][b] = 'not accepted by the verifier: ' + '; '.join(d['message'] for d in diags if any(fn_at(j['functions'], s[0]) and fn_at(j['functions'], s[0])['name'] == b for s in spans_of(d)))[:400]
            continue
        res['verified'], res['errors'] = vr['verified'], vr['errors']
        t = js.get('times-ms', {})
        res['smt_ms'], res['total_ms'] = t.get('smt', {}).get('smt-run', 0), t.get('total', 0)
        for m in t.get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []): res['times'].append((f['function'], f.get('mode:', ''), f['time'], f.get('rlimit', 0), f.get('success')))
        res['fails'] = classify(diags, j, out, cfg)
        if res['fails'] and not probe: retry(res, j, out, cfg, deadline)
        break
    res['stubs'] = stubs
    for r in res['ranges']:
        if r['shape_changed'] and any(f.fn == r['name'] for f in res['fails']):
            res['undecided'].setdefault(r['name'], 'the proof hints no longer fit its shape: ' + ','.join(r['dropped_hints'])[:200])
    for f in res['fails']:
        if f.kind == 'undecided': res['undecided'].setdefault(f.fn, f.msg)
    for l in res['lost']:
        w = l.split()
        res['undecided'].setdefault(w[1].rstrip(':') if len(w) > 1 and w[0] == 'fn' else '<extraction>', 'lost: ' + l)
    return res
def render(d, path):
    t = d.get('rendered') or d['message']
    return t[:3000]
GEN = {
    # source text translated mechanically to Rust text before vx sees it
    'py': (['pyx.py'], 'python/baokeshed.py', 'py.rs'),
    'c': (['cx.py'], 'c/baokeshed.c', 'c.rs'),
    'ckport': (['cx.py', 'root:hash_many_portable', 'root:compress_portable'], 'c/baokeshed_portable.c', 'ckport.rs'),
    'ckavx2': (['cx.py', 'root:hash_many_avx2'], 'c/baokeshed_avx2.c', 'ckavx2.rs'),
    'ck512x4': (['cx.py', 'root:hash4_avx512'], 'c/baokeshed_avx512.c', 'ck512x4.rs'),
    'ck512x8': (['cx.py', 'root:hash8_avx512'], 'c/baokeshed_avx512.c', 'ck512x8.rs'),
    'ck512x16': (['cx.py', 'root:hash16_avx512'], 'c/baokeshed_avx512.c', 'ck512x16.rs'),
    'ckavx512': (['cx.py', 'root:hash_many_avx512'], 'c/baokeshed_avx512.c', 'ckavx512.rs'),
    'cksse': (['cx.py', 'root:hash_many_sse41'], 'c/baokeshed_sse41.c', 'cksse.rs'),
    'ckneon': (['cx.py', 'root:hash_many_neon'], 'c/baokeshed_neon.c', 'ckneon.rs'),
    'ckport64': (['cx.py', 'root:baokeshed64_hash_many_portable', 'root:baokeshed64_compress_portable'], 'c64/baokeshed64_portable.c', 'ckport64.rs'),
    'ck64sse': (['cx.py', 'root:baokeshed64_hash_many_sse41'], 'c64/baokeshed64_sse41.c', 'ck64sse.rs'),
    'ck64avx2': (['cx.py', 'root:baokeshed64_hash_many_avx2'], 'c64/baokeshed64_avx2.c', 'ck64avx2.rs'),
    'ck64x2': (['cx.py', 'root:baokeshed64_hash2_avx512'], 'c64/baokeshed64_avx512.c', 'ck64x2.rs'),
    'ck64x4': (['cx.py', 'root:baokeshed64_hash4_avx512'], 'c64/baokeshed64_avx512.c', 'ck64x4.rs'),
    'ck64x8': (['cx.py', 'root:baokeshed64_hash8_avx512'], 'c64/baokeshed64_avx512.c', 'ck64x8.rs'),
    'ck64avx512': (['cx.py', 'root:baokeshed64_hash_many_avx512'], 'c64/baokeshed64_avx512.c', 'ck64avx512.rs'),
    'ck64neon': (['cx.py', 'root:baokeshed64_hash_many_neon'], 'c64/baokeshed64_neon.c', 'ck64neon.rs'),
}
def translate(gen, cfg, work):
    tool, inp, outp = GEN[gen]
    os.makedirs(work, exist_ok=True)
    args = ['python3', os.path.join(VERIF, 'tools', tool[0]), os.path.join(REPO, inp), os.path.join(work, outp)]
    rc, o, e = run(args + tool[1:] + [x for x in cfg if x.startswith('gen:')], timeout=120)
    return None if rc == 0 else 'translation failed: ' + (e or o)[-800:]
def run_unit(name, overlay, cfgs, probe_cfg=None, timeout=400, gen=None):
    """all configurations in parallel (+ the vacuity probe of one of them)"""
    vx_bin()
    if gen:
        real = one_cfg
        def one_cfg_(overlay, cfg, work, *a):
            g = os.path.join(work, 'gen')
            err = translate(gen, cfg, g)
            if err: return dict(cfg=' '.join(cfg), fails=[], undecided={}, stubs=[], ranges=[], verified=0, errors=0, lost=[], notes=[], inlined=[], times=[], fatal=err, smt_ms=0, total_ms=0, probes=0)
            return real(overlay, tuple(x for x in cfg if not x.startswith('gen:')), work, *a, src=g)
    else: one_cfg_ = one_cfg
    with cf.ThreadPoolExecutor(8) as ex:
        hs = [ex.submit(one_cfg_, overlay, c, os.path.join(BUILD, 'vu', '%s-%d' % (name, i)), (), False, timeout) for i, c in enumerate(cfgs)]
        hp = ex.submit(one_cfg_, overlay, probe_cfg, os.path.join(BUILD, 'vu', name + '-probe'), (), True, timeout) if probe_cfg is not None else None
        rs = [h.result() for h in hs]
        pr = hp.result() if hp else None
    vac = None
    if pr is not None:
        got = {f.fn for f in pr['fails']}
        want = {r['name'] for r in pr['ranges'] if not r['name'].startswith('<') and not r['external']}
        vac = dict(probes=len(want), failed=len(got & want), missing=sorted(want - got), fatal=pr['fatal'])
    return rs, vac
if __name__ == '__main__':
    rs, vac = run_unit('lib', 'lib.vx', [('target_arch=x86_64', 'feature=rayon')], ('target_arch=x86_64', 'feature=rayon'))
    for r in rs:
        print(r['cfg'], r['verified'], r['errors'], r['fatal'], r['undecided'], r['smt_ms'])
        for f in r['fails']: print(f.fn, f.kind, f.msg)
    print(vac)
