#!/usr/bin/env python3
"""clisuite.py BINARY SECS SEED [case]: the command-line tool against an independent definition (JSON on stdout).
case: mode:length:key:seed:source[,source...]; every file it makes is in a scratch directory it removes."""
import sys, time, random, json, os, subprocess, tempfile, shutil, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pysuite import IV, stream, sub, words
def data_of(src, seed):
    k, _, n = src.partition('@')
    return random.Random('%s/%d' % (src, seed)).randbytes(int(n)) if n else b''
def keytext(mode, spec, rng):
    k = rng.randbytes(32)
    if spec == 'good': return k.hex(), k
    if spec == 'upper': return k.hex().upper(), k
    if spec == 'mixed': return ''.join(c.upper() if rng.random() < .5 else c for c in k.hex()), k
    if spec == 'short': return k[:31].hex(), None
    if spec == 'long': return k.hex() + '00', None
    if spec == 'odd': return k.hex()[:63], None
    if spec == 'bad': return k.hex()[:40] + 'g' + k.hex()[41:], None
    if spec == 'empty': return '', None
    raise ValueError(spec)
def run(binary, case):
    mode, length, kspec, seed, srcs = case.split(':')
    seed = int(seed); rng = random.Random(seed)
    srcs = srcs.split(',') if srcs else []
    d = tempfile.mkdtemp(prefix='clisuite')
    try:
        args = []; key = None; keyfail = False
        if mode != 'plain':
            t, key = keytext(mode, kspec, rng); keyfail = key is None
            args.append(('--key=' if mode == 'keyed' else '--derive-key=') + t)
        n = 32
        if length != '-': n = int(length); args.append('--length=%d' % n)
        show = min(n, 4096)
        kw, fl = (words(key), 16 if mode == 'keyed' else 32) if key else (IV, 0)
        stdin = b''; dashed = False; exp = []; fifos = []; names = []
        for i, s in enumerate(srcs):
            k = s.partition('@')[0]; b = data_of(s, seed); p = os.path.join(d, 'in%d' % i)
            if k == 'file' or k == 'empty': open(p, 'wb').write(b); ok = True
            elif k == 'fifo': os.mkfifo(p); fifos.append((p, b)); ok = True
            elif k == 'null': p = '/dev/null'; ok = True
            elif k == 'dir': os.mkdir(p); ok = False
            elif k == 'missing': ok = False
            elif k == 'dash':
                p = '-'; ok = True
                if dashed: b = b''      # standard input is at its end the second time
                else: stdin = b
                dashed = True
            elif k == 'stdin': stdin = b; exp.append((b, None, True)); continue
            names.append(p); exp.append((b, p, ok))
        args += names
        if not srcs: exp = [(b'', None, True)]
        for p, b in fifos:
            def feed(p=p, b=b):
                try:
                    with open(p, 'wb') as f: f.write(b)
                except OSError: pass
            threading.Thread(target=feed, daemon=True).start()
        pr = subprocess.Popen([binary] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        def give():
            try: pr.stdin.write(stdin); pr.stdin.close()
            except OSError: pass
        th = threading.Thread(target=give, daemon=True); th.start()
        if n > 4096 and not keyfail:
            # endless as far as this test is concerned: its beginning, and that it goes on
            want = stream(sub(exp[0][0], kw, 0, fl), 4096).hex()
            got = b''
            while len(got) < 8192:
                x = pr.stdout.read1(8192)
                if not x: break
                got += x
            pr.kill(); pr.wait()
            if len(got) < 8192: return 'MISMATCH only %d characters for --length=%d: %r' % (len(got), n, pr.stderr.read()[-200:])
            return None if got[:8192].decode('latin1') == want else 'MISMATCH beginning of --length=%d' % n
        try: out, err = pr.stdout.read(), pr.stderr.read(); rc = pr.wait(60)
        except subprocess.TimeoutExpired: pr.kill(); return 'TIMEOUT'
        if b'panicked' in err or rc not in (0, 1): return 'PANIC status %d %r' % (rc, err[-300:])
        out = out.decode('utf8', 'replace')
        if keyfail: return None if rc != 0 and out == '' else 'MISMATCH key %r accepted: status %d output %r' % (kspec, rc, out[:80])
        bad = any(not ok for _, _, ok in exp)
        if (rc != 0) != bad: return 'MISMATCH exit status %d, unreadable input: %s' % (rc, bad)
        lines = out.split('\n')
        if lines[-1] != '': return 'MISMATCH output does not end with a newline'
        lines = lines[:-1]; j = 0; extra = 0
        for b, p, ok in exp:
            if not ok: continue
            h = stream(sub(b, kw, 0, fl), n).hex()
            want = h + ('  ' + p if len(exp) > 1 else '')
            while j < len(lines) and lines[j] != want: j += 1; extra += 1
            if j == len(lines): return 'MISMATCH no line %s (%d bytes of input) in %r' % (want[:90], len(b), out[:300])
            j += 1
        extra += len(lines) - j
        if extra > sum(not ok for _, _, ok in exp): return 'MISMATCH unexpected output %r' % out[:300]
        return None
    finally: shutil.rmtree(d, ignore_errors=True)
LENS = ['-', '0', '1', '31', '32', '33', '63', '64', '65', '95', '96', '97', '127', '128', '129', '160', '191', '192', '193', '256', '1000', '4096']
SIZES = [0, 1, 63, 64, 65, 2047, 2048, 2049, 4096, 8192, 16384, 16385]
def main():
    binary, secs, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    if len(sys.argv) > 4: print(json.dumps(run(binary, sys.argv[4]))); return
    t0 = time.time(); res = dict(evaluations=0, distinct=0, fails=[], samples=[], error='')
    rng = random.Random(seed); seen = set()
    def todo():
        for m in ('plain', 'keyed', 'derive'):
            for s in ('file@100', 'file@5000', 'stdin@100', 'stdin@5000', 'dash@3000', 'fifo@3000', 'empty', 'null', ''):
                yield '%s:-:good:1:%s' % (m, s)
            yield m + ':100:good:2:missing,file@10,dir,empty,file@4096,dash@70'
        for l in LENS: yield 'plain:%s:good:3:file@70' % l
        for k in ('upper', 'mixed', 'short', 'long', 'odd', 'bad', 'empty'):
            for m in ('keyed', 'derive'): yield '%s:-:%s:4:file@70' % (m, k)
        for s in ('missing', 'dir', 'missing,dir', 'file@1,missing', 'missing,file@1', 'dash@5,dash@6', 'dir,dash@9,file@9'): yield 'plain:-:good:5:' + s
        for l in (2**63, 2**64 - 64, 2**63 - 1, 2**32, 5000): yield 'keyed:%d:good:6:file@70' % l
        yield 'plain:-:good:7:stdin@140000'; yield 'keyed:-:good:7:file@140000'; yield 'derive:-:good:7:fifo@140000'
        while True:
            ks = [rng.choice(['file', 'file', 'fifo', 'empty', 'null', 'dir', 'missing', 'dash']) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            if rng.random() < .2: ks = ['stdin']
            src = ','.join(k + ('@%d' % rng.choice([rng.choice(SIZES), rng.randrange(0, 9000)]) if k in ('file', 'fifo', 'dash', 'stdin') else '') for k in ks)
            yield '%s:%s:%s:%d:%s' % (rng.choice(['plain', 'keyed', 'derive']), rng.choice([rng.choice(LENS), str(rng.randrange(0, 600))]), rng.choice(['good'] * 6 + ['upper', 'mixed', 'short', 'long', 'odd', 'bad']), rng.randrange(2**20), src)
    for c in todo():
        if time.time() - t0 > secs: break
        e = run(binary, c)
        res['evaluations'] += 1; seen.add(c)
        if len(res['samples']) < 8: res['samples'].append(c)
        if e: res['fails'].append(['cli ' + c, e])
        if len(res['fails']) > 3: break
    res['distinct'] = len(seen)
    print(json.dumps(res))
if __name__ == '__main__': main()
