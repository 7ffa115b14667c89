"""The concrete side: builds the search/replay program against /repo's current source and runs suites."""
import json, os, concurrent.futures as cf
from common import *
import prep_witness
def binary(threads=True):
    def b():
        return prep_witness.build(REPO, os.path.join(BUILD, 'w' if threads else 'w1'), threads=threads)
    return once('witness%d' % threads, b)
def case(bin_, c, timeout=120, env=None):
    rc, o, e = run([bin_, 'case', c], timeout=timeout, env=dict(os.environ, **(env or {})))
    if rc == 0: return None
    if rc == -999: return 'TIMEOUT no answer after %d s' % timeout
    if rc == 1 and o.startswith('MISMATCH'): return o[9:].strip()
    return 'CRASH exit status %d %s' % (rc, (e or o)[-600:].strip())
def suite(bin_, name, seed, secs, tier, tag='', env=None):
    d = os.path.join(BUILD, 'ws'); os.makedirs(d, exist_ok=True)
    out, last = os.path.join(d, name + tag + '.json'), os.path.join(d, name + tag + '.last')
    for f in (out, last):
        if os.path.exists(f): os.remove(f)
    rc, o, e = run([bin_, 'suite', name, '--seed', str(seed), '--secs', str(secs), '--tier', tier, '--out', out, '--last', last], timeout=secs + 90, env=dict(os.environ, **(env or {})))
    if os.path.exists(out):
        j = json.load(open(out)); j['fails'] = [(f['case'], f['error']) for f in j['fails']]
        return j
    c = open(last).read().strip() if os.path.exists(last) else ''
    j = dict(suite=name, evaluations=0, distinct=0, kinds={}, samples=[c], secs=secs, fails=[])
    if not c or c == 'DONE': j['error'] = 'suite did not run: rc %s %s' % (rc, e[-300:]); return j
    err = case(bin_, c, env=env)
    if err: j['fails'] = [(c, err)]
    else: j['error'] = 'suite ended (rc %s) but its last case passes alone: %s %s' % (rc, c, e[-300:])
    return j
def suites(names, seed, secs, tier, threads=True, env=None):
    b, feats, err = binary(threads)
    if not b: return None, 'the concrete program does not build: ' + err[-800:], feats
    with cf.ThreadPoolExecutor(6) as ex:
        hs = [ex.submit(suite, b, n, seed, secs, tier, '' if threads else '-1', env) for n in names]
        return [h.result() for h in hs], '', feats
