import json, os, subprocess, sys, threading, time, shutil, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
os.makedirs(BUILD, exist_ok=True)
PROCS = set()
def cargo_env(extra=None):
    e = dict(os.environ)
    # the toolchain and cache that the repository's own build uses
    if os.path.exists('/opt/vp/env.sh'):
        o = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout.decode()
        for kv in o.split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                if k.startswith(('CARGO', 'RUST', 'PATH')): e[k] = v
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.update(extra or {})
    return e
def run(cmd, timeout=None, **kw):
    """returns (rc, stdout, stderr); rc = -999 on timeout; kills the whole group"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, **kw)
    PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return -999, o, e
    finally:
        PROCS.discard(p)
def cargo_build(d, target, args=(), env=None, timeout=800):
    return run(['cargo', 'build', '--release', '--offline', *args], cwd=d, timeout=timeout, env=cargo_env(dict({'CARGO_TARGET_DIR': target, 'RUSTFLAGS': '-Awarnings'}, **(env or {}))))
_locks = {}
_l = threading.Lock()
def once(name, f, _cache={}):
    """f() at most once per process, whichever thread asks first"""
    with _l: lk = _locks.setdefault(name, threading.Lock())
    with lk:
        if name not in _cache: _cache[name] = f()
        return _cache[name]
def vx_bin():
    def b():
        rc, o, e = cargo_build(os.path.join(VERIF, 'vx'), os.path.join(BUILD, 'vx'))
        if rc: raise RuntimeError('vx does not build: ' + e[-2000:])
        return os.path.join(BUILD, 'vx/release/vx')
    return once('vx', b)
