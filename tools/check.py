#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import json, os, sys, time, traceback, re, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import verus_unit, witness, plan
START = time.time()
def left(budget): return budget - (time.time() - START)
def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = plan.PLAN[prop]
    known = load_known(prop)
    log = []
    def say(*a):
        log.append(' '.join(str(x) for x in a)); print(*a, flush=True)
    wenv = {'VX_FRAME_ONLY': '1'} if p.get('frame_only') else None
    # ---- 1. proofs and the concrete side, side by side
    secs = p.get('quick_secs', 10) if tier == 'quick' else 90
    with cf.ThreadPoolExecutor(8) as ex:
        fv = {n: ex.submit(guard, lambda n: verus_unit.run_unit(n, plan.VERUS[n]['overlay'], plan.VERUS[n]['cfgs'], None if p.get('no_probe') else plan.VERUS[n]['cfgs'][0], min(430, max(20, left(560))), plan.VERUS[n].get('gen')), n) for n in p.get('verus', {})}
        fi = {n: ex.submit(guard, plan.ir_unit, n, tier, seed) for n in p.get('ir', [])}
        fw = ex.submit(guard, witness.suites, p['suites'], seed, secs, 'quick' if tier == 'quick' else 'deep', True, wenv) if p.get('suites') else None
        fx = {n: ex.submit(guard, getattr(plan, n), tier, seed) for n in p.get('extra', [])}
        verus = {n: f.result() for n, f in fv.items()}
        ir = {n: f.result() for n, f in fi.items()}
        wit = fw.result() if fw else ([], '', [])
        extra = {n: f.result() for n, f in fx.items()}
    found, failed, undecided, notes = [], [], [], []
    # ---- 2. what the proofs say
    obligations = discharged = 0
    smt_ms = 0; details = []; trusted = set(plan.TRUSTED_COMMON if not p.get('trusted_only') else []) | set(p.get('trusted', []))
    for n, r in verus.items():
        if isinstance(r, Exception): undecided.append(('%s' % n, 'verifier did not run: %r' % r)); continue
        rs, vac = r
        fns = p['verus'][n]
        for c in rs:
            if c['fatal']: undecided.append((n + ' [' + c['cfg'] + ']', c['fatal'])); continue
            mine = [x['name'] for x in c['ranges'] if not x['name'].startswith('<') and matches(x['name'], fns)]
            bad = {}
            for f in c['fails']:
                if not (f.fn in mine or f.fn == '<lemma>'): continue
                if f.kind == 'undecided' or f.fn in c['undecided'] or f.fn == '<lemma>': continue
                if p.get('kinds') and f.kind not in p['kinds']:
                    undecided.append(('%s [%s]' % (f.fn, c['cfg']), 'a functional obligation fails, so its safety obligations hold only conditionally: ' + f.msg)); bad[f.fn] = 1; continue
                bad[f.fn] = 1
                failed.append(dict(unit=n, cfg=c['cfg'], fn=f.fn, kind=f.kind, msg=f.msg, detail=f.detail))
            for u, why in c['undecided'].items():
                if u in mine or u.startswith('<'): undecided.append(('%s [%s]' % (u, c['cfg']), why)); bad[u] = 1
            lem = [f for f in c['fails'] if f.fn == '<lemma>']
            for f in lem: undecided.append(('lemma [%s]' % c['cfg'], f.msg))
            nl = sum(1 for t in c['times'] if t[1] == 'proof')
            obligations += len(mine) + nl
            discharged += len(mine) - len([b for b in bad if b in mine]) + nl - len(lem)
            smt_ms += c['smt_ms']
            details.append(dict(back_end='verus 0.2026.09.13 / z3', unit=n, cfg=c['cfg'], functions_under_contract=mine, lemmas=nl, verified_items_total=c['verified'], errors_total=c['errors'], solver_ms=c['smt_ms'], total_ms=c['total_ms'], slowest=sorted(c['times'], key=lambda t: -t[2])[:5], inlined=c['inlined'], extraction_notes=c['notes'], assumed_this_run=c['stubs']))
        if vac is not None:
            details.append(dict(vacuity=vac))
            if vac['fatal']: notes.append('vacuity probe did not run: ' + vac['fatal'])
            elif vac['missing']:
                undecided.append((n, 'contradictory precondition (vacuous): %s' % vac['missing']))
    for n, r in ir.items():
        if isinstance(r, Exception): undecided.append((n, 'ir prover did not run: %r' % r)); continue
        obligations += r['obligations']; discharged += r['discharged']
        smt_ms += r.get('solver_ms', 0)
        details.append(dict(back_end='irproof', unit=n, **{k: v for k, v in r.items() if k not in ('failed', 'undecided')}))
        for f in r['failed']: failed.append(dict(unit=n, cfg='', fn=f['fn'], kind=f.get('kind', 'functional'), msg=f['msg'], detail=f.get('detail', ''), case=f.get('case', '')))
        for u in r['undecided']: undecided.append((u['fn'], u['why']))
    # ---- 3. concrete failures
    ws, werr, feats = wit if not isinstance(wit, Exception) else ([], repr(wit), [])
    if werr: notes.append(werr)
    def collect(ws):
        for s in ws or []:
            if s.get('error'): notes.append(s['error'])
            for c, e in s['fails']:
                if p.get('only') and not re.search(p['only'], e): continue
                found.append((c, e, s['suite']))
    collect(ws)
    xev = {}
    for n, r in extra.items():
        if isinstance(r, Exception): notes.append('%s did not run: %r' % (n, r)); continue
        xev[n] = {k: v for k, v in r.items() if k != 'fails'}
        for c, e in r['fails']: found.append((c, e, n))
        obligations += r.get('obligations', 0); discharged += r.get('discharged', 0)
        for f in r.get('failed', []): failed.append(f)
        for u in r.get('undecided', []): undecided.append(u)
    # the prover's counterexamples, run on the real code
    cases = [d for d in failed if d.get('case')]
    if cases and not new(found, known):
        b, _, e = witness.binary()
        if not b: notes.append('the concrete program does not build: ' + e[-400:])
        for d in cases[:40] if b else []:
            r = witness.case(b, d['case'], env=wenv)
            if r and wenv and not re.search('FRAME|CRASH|PANIC', r): r = None
            if r: found.append((d['case'], r, 'counterexample of ' + d['fn'])); break
    # ---- 4. a proof that fails or does not apply: search for the failing input
    deep = []
    if (failed or undecided) and not new(found, known) and p.get('suites'):
        budget = min(max(left(780) - 40, 20), 240 if tier == 'quick' else 400)
        say('searching for a failing input (%d s): %s' % (budget, '; '.join('%s %s' % (f['fn'], f['msg']) for f in failed[:3]) or '; '.join(str(u) for u in undecided[:2])[:600]))
        r = guard(witness.suites, p['suites'], seed + 1000, budget, 'deep', True, wenv)
        if not isinstance(r, Exception):
            deep = r[0] or []
            collect(deep)
            if r[1]: notes.append(r[1])
        else: notes.append(repr(r))
        if not new(found, known) and left(780) > 120 and 'rayon' in str(undecided) + str(failed) and p.get('single'):
            r = guard(witness.suites, p['suites'], seed, 40, 'quick', False, wenv)
            if not isinstance(r, Exception): collect(r[0])
    if (failed or undecided) and not new(found, known):
        for n in p.get('extra', []):
            if not hasattr(plan, n + '_deep'): continue
            budget = min(max(left(780) - 40, 20), 240 if tier == 'quick' else 400)
            say('searching for a failing input (%d s) with %s: %s' % (budget, n, '; '.join('%s %s' % (f['fn'], f['msg']) for f in failed[:3]) or '; '.join(str(u) for u in undecided[:2])[:600]))
            r = guard(getattr(plan, n + '_deep'), tier, seed + 1000, budget)
            if isinstance(r, Exception): notes.append(repr(r)); continue
            xev[n + '_deep'] = {k: v for k, v in r.items() if k != 'fails'}
            for c, e in r['fails']: found.append((c, e, n))
    # ---- 5. verdict
    viol = []
    for k in known:
        if k['kind'] == 'finding': print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    fresh = new(found, known)
    rdir = os.path.join(BUILD, 'replay'); os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + '.txt')
    if fresh:
        c, e, s = fresh[0]
        with open(path, 'w') as f:
            f.write('property %s\nconcrete failing input, checked against the real code (suite %s)\n\ncase: %s\nresult: %s\n\nreplay: python3 /verif/tools/replay.py "%s"\n' % (prop, s, c, e, c))
            for d in failed: f.write('\nfailed obligation: %s %s: %s\n%s\n' % (d['fn'], d['cfg'], d['msg'], d['detail']))
        viol.append('VIOLATION property=%s replay=%s' % (prop, path))
        say('failing input: %s -> %s' % (c, e[:400]))
    elif failed:
        with open(path, 'w') as f:
            f.write('property %s\nno failing input found; obligations that passed on the original code and fail now:\n' % prop)
            for d in failed: f.write('\nfailed obligation: %s [%s] %s: %s\n%s\n' % (d['fn'], d['cfg'], d['kind'], d['msg'], d['detail']))
        for d in failed[:5]: say('failed obligation: %s [%s]: %s' % (d['fn'], d['cfg'], d['msg']))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    for u in undecided[:10]: say('undecided (bounded search only): %s: %s' % (u[0], str(u[1])[:300]))
    level = p['level']
    cov = dict(obligations=obligations, discharged=discharged, checker_cmd='python3 tools/check.py %s --tier %s' % (prop, tier), trusted_base=sorted(trusted),
               evaluations=sum(s['evaluations'] for s in (ws or []) + deep) + sum(x.get('evaluations', 0) for x in xev.values()),
               distinct_nontrivial=sum(s['distinct'] for s in (ws or []) + deep) + sum(x.get('distinct', 0) for x in xev.values()),
               rule='bounded companion of the proof: concrete inputs through the real code, compared with an independent definition; distinct case lines',
               samples=[x for s in (ws or []) for x in s.get('samples', [])][:12] + [x for v in xev.values() for x in v.get('samples', [])][:8],
               solver_ms=smt_ms, proofs=details, bounded=[{k: s.get(k) for k in ('suite', 'evaluations', 'distinct', 'kinds', 'secs', 'exhausted')} for s in (ws or []) + deep], other_parts=xev,
               undecided=[dict(what=u[0], why=str(u[1])[:600]) for u in undecided], failed=[dict(fn=d['fn'], cfg=d['cfg'], kind=d['kind'], msg=d['msg']) for d in failed], notes=notes,
               bounded_only=p.get('bounded_only', []), functions_outside=p.get('outside', []))
    if level == 'other': cov['explanation'] = p.get('explanation', '')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=p.get('assumptions', []) + plan.ASSUME_COMMON, wall_s=round(time.time() - START, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    say('%s: %d/%d obligations discharged, %d concrete evaluations, %d undecided, %.0f s' % (prop, discharged, obligations, cov['evaluations'], len(undecided), time.time() - START))
    for v in viol: print(v, flush=True)
    sys.exit(1 if viol else 0)
def guard(f, *a):
    try: return f(*a)
    except Exception as e:
        traceback.print_exc()
        return e
def matches(n, pats): return any(re.fullmatch(x, n) for x in pats)
def load_known(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r'(finding|fixed): property=(\S+) (.*)', l)
            if m and m.group(2) == prop:
                c = re.search(r'case="([^"]*)"', m.group(3))
                out.append(dict(kind=m.group(1), text=m.group(3), case=c.group(1) if c else None))
    return out
def new(found, known):
    ks = {k['case'] for k in known if k['kind'] == 'finding' and k['case']}
    return [f for f in found if f[0] not in ks]
if __name__ == '__main__': main()
