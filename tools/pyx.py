#!/usr/bin/env python3
"""pyx.py IN.py OUT.rs: mechanical translation of a small, statically typable part of Python into
Rust text over the wrapper types of pyshim.rs (integers, byte strings, lists of integers).
Everything that is not understood is an error: nothing is dropped silently.
Semantics kept: evaluation order of calls, unbounded integers, clamped slices, list mutation through
parameters (a mutated parameter becomes &mut).  Aliases of lists are turned into copies; that is only
done where neither name is mutated afterwards (checked below), so it cannot be observed."""
import ast, sys

INT, BOOL, BYTES, INTS, TABLE, NONE = 'int', 'bool', 'bytes', 'ints', 'table', 'none'
RUST = {INT: 'PyInt', BOOL: 'bool', BYTES: 'PyBytes', INTS: 'PyInts', TABLE: 'PyTable', NONE: '()'}
API = {'hash': [BYTES, INT], 'keyed_hash': [BYTES, BYTES, INT], 'derive_key': [BYTES, BYTES, INT]}
RESERVED = {'as', 'box', 'match', 'mod', 'ref', 'type', 'use', 'fn', 'let', 'mut', 'loop', 'move', 'self', 'final', 'proof', 'spec', 'ghost', 'int', 'nat'}
class Bad(Exception): pass
def bad(n, m): raise Bad('line %s: %s' % (getattr(n, 'lineno', '?'), m))
def cls(t): return t not in RUST
def rt(t): return RUST.get(t, t)
OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'shl', ast.RShift: 'shr', ast.Pow: 'pow'}
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}

class Fn:
    def __init__(s, node, owner=None):
        s.node, s.owner = node, owner
        s.name = node.name
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs or node.decorator_list: bad(node, 'parameter kinds')
        s.params = [x.arg for x in a.args]
        s.ptypes = [None] * len(s.params)
        if owner: s.ptypes[0] = owner
        s.ret = None
        s.locals = {}
        s.mutated = set()
        s.full = (owner + '::' if owner else '') + s.name
        s.body = [x for x in node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]

class Mod:
    def __init__(m, src):
        t = ast.parse(src)
        m.consts, m.fns, m.classes, m.order = {}, {}, {}, []
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                m.fns[n.name] = Fn(n); m.order.append(('fn', n.name))
            elif isinstance(n, ast.ClassDef):
                if n.bases or n.keywords or n.decorator_list: bad(n, 'class form')
                c = {}
                for k in n.body:
                    if isinstance(k, ast.FunctionDef): c[k.name] = Fn(k, n.name)
                    elif isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant): pass
                    elif isinstance(k, ast.Pass): pass
                    else: bad(k, 'class body')
                m.classes[n.name] = dict(methods=c, fields={})
                m.order.append(('class', n.name))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if n.targets[0].id in m.consts: bad(n, 'global assigned twice')
                m.consts[n.targets[0].id] = dict(value=n.value, ty=None); m.order.append(('const', n.targets[0].id))
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): pass
            elif isinstance(n, (ast.Import, ast.ImportFrom)): bad(n, 'import')
            else: bad(n, 'top-level statement')
        for f in m.all():
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef)) and x is not f.node: bad(x, 'nested scope')
        m.infer()
    def all(m):
        for f in m.fns.values(): yield f
        for c in m.classes.values():
            for f in c['methods'].values(): yield f

    # ------------------------------------------------------------- types
    def infer(m):
        for name, tys in API.items():
            if name in m.fns:
                f = m.fns[name]
                if len(f.params) != len(tys): bad(f.node, 'public function with another number of parameters')
                f.ptypes = list(tys)
        for _ in range(60):
            m.changed = False
            for c in m.consts.values():
                if c['ty'] is None:
                    t = m.ty(c['value'], None)
                    if t: c['ty'] = t; m.changed = True
            for f in m.all(): m.infer_fn(f)
            if not m.changed: break
        for f in m.all():
            if None in f.ptypes: bad(f.node, 'cannot infer the parameter types of %s (not called from the public functions?)' % f.full)
            if f.ret is None: f.ret = NONE
        # mutation through parameters
        ch = True
        while ch:
            ch = False
            for f in m.all():
                for v, _ in m.mutations(f):
                    if v not in f.mutated: f.mutated.add(v); ch = True
    def bind(m, f, n, t):
        if t is None: return
        o = f.locals.get(n)
        if o is None: f.locals[n] = t; m.changed = True
        elif o != t: raise Bad('%s: %s has types %s and %s' % (f.full, n, o, t))
    def infer_fn(m, f):
        for p, t in zip(f.params, f.ptypes): m.bind(f, p, t)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                if len(x.targets) != 1: bad(x, 'chained assignment')
                g = x.targets[0]
                t = m.ty(x.value, f)
                if isinstance(g, ast.Name): m.bind(f, g.id, t)
                elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and f.owner and g.value.id == f.params[0]:
                    fl = m.classes[f.owner]['fields']
                    if t and fl.get(g.attr) is None: fl[g.attr] = t; m.changed = True
                    elif t and fl[g.attr] != t: bad(x, 'field with two types')
            elif isinstance(x, ast.AnnAssign): bad(x, 'annotated assignment')
            elif isinstance(x, ast.For):
                if not isinstance(x.target, ast.Name): bad(x, 'loop target')
                m.bind(f, x.target.id, INT)
            elif isinstance(x, ast.Return):
                t = m.ty(x.value, f) if x.value else NONE
                if t and f.ret is None: f.ret = t; m.changed = True
                elif t and f.ret != t: bad(x, 'two return types')
            elif isinstance(x, ast.Call): m.ty(x, f)
    def callee(m, n, f):
        """(Fn, argument expressions incl. self) of a call to a function of this module"""
        if isinstance(n.func, ast.Name):
            k = n.func.id
            if k in m.fns: return m.fns[k], n.args
            if k in m.classes: return m.classes[k]['methods'].get('__init__'), [None] + n.args
        if isinstance(n.func, ast.Attribute):
            t = m.ty(n.func.value, f)
            if t in m.classes:
                if n.func.attr not in m.classes[t]['methods']: bad(n, 'no such method')
                return m.classes[t]['methods'][n.func.attr], [n.func.value] + n.args
        return None, None
    def ty(m, e, f):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool): return BOOL
            if isinstance(e.value, int): return INT
            if isinstance(e.value, bytes): return BYTES
            bad(e, 'constant %r' % e.value)
        if isinstance(e, ast.Name):
            if f and e.id in f.locals: return f.locals[e.id]
            if e.id in m.consts: return m.consts[e.id]['ty']
            return None
        if isinstance(e, ast.List):
            ts = {m.ty(x, f) for x in e.elts}
            if ts == {INTS}: return TABLE
            return INTS
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not): return BOOL
            if isinstance(e.op, (ast.USub, ast.Invert)): return INT
            bad(e, 'unary operator')
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.Compare): return BOOL
        if isinstance(e, ast.BinOp):
            l, r = m.ty(e.left, f), m.ty(e.right, f)
            if isinstance(e.op, ast.Mult) and (INTS in (l, r) or BYTES in (l, r)): return l if l != INT else r
            return l or r
        if isinstance(e, ast.IfExp): return m.ty(e.body, f) or m.ty(e.orelse, f)
        if isinstance(e, ast.Subscript):
            t = m.ty(e.value, f)
            if isinstance(e.slice, ast.Slice): return t
            return {BYTES: INT, INTS: INT, TABLE: INTS}.get(t)
        if isinstance(e, ast.Attribute):
            t = m.ty(e.value, f)
            if t in m.classes: return m.classes[t]['fields'].get(e.attr)
            return None
        if isinstance(e, ast.Call):
            if e.keywords: bad(e, 'keyword argument')
            g, args = m.callee(e, f)
            if g is None and isinstance(e.func, ast.Name) and e.func.id in m.classes: bad(e, 'class without __init__')
            if g:
                if len(args) != len(g.params): bad(e, 'wrong number of arguments')
                for i, a in enumerate(args):
                    if a is None: continue
                    t = m.ty(a, f)
                    if t and g.ptypes[i] is None: g.ptypes[i] = t; m.changed = True
                    elif t and g.ptypes[i] != t: bad(e, 'argument %d of %s: %s for %s' % (i, g.full, t, g.ptypes[i]))
                return g.owner if g.name == '__init__' else g.ret
            if isinstance(e.func, ast.Name):
                return {'len': INT, 'min': INT, 'max': INT, 'bytearray': BYTES, 'bytes': BYTES, 'int': INT}.get(e.func.id)
            if isinstance(e.func, ast.Attribute):
                if isinstance(e.func.value, ast.Name) and e.func.value.id == 'int' and e.func.attr == 'from_bytes': return INT
                return {'bit_length': INT, 'to_bytes': BYTES, 'copy': m.ty(e.func.value, f)}.get(e.func.attr)
        bad(e, 'expression %s' % type(e).__name__)

    # ------------------------------------------------------------- mutation and aliasing
    def mutations(m, f):
        """(variable, node) for every place where an object held by a variable changes"""
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for g in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(g, ast.Subscript):
                        if not isinstance(g.value, ast.Name): bad(g, 'assignment into a nested object')
                        yield g.value.id, x
                    elif isinstance(x, ast.AugAssign) and isinstance(g, ast.Name) and f.locals.get(g.id) in (BYTES, INTS):
                        yield g.id, x
                    elif isinstance(g, (ast.Tuple, ast.List)): bad(g, 'unpacking')
            elif isinstance(x, ast.Call):
                g, args = m.callee(x, f)
                for a, p in zip(args or [], g.params if g else []):
                    if a is not None and p in g.mutated:
                        if not isinstance(a, ast.Name): bad(x, 'a mutated argument that is not a variable')
                        yield a.id, x
                if not g and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert', 'pop', 'sort', 'reverse', 'clear', 'remove'): bad(x, 'list method')
            elif isinstance(x, ast.Delete): bad(x, 'del')
    def fresh(m, e, f, depth=0):
        if depth > 8: return False
        if isinstance(e, ast.List) or isinstance(e, ast.BinOp): return True
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice): return m.ty(e.value, f) in (INTS, BYTES)
        if isinstance(e, ast.Call):
            g, _ = m.callee(e, f)
            if g is None or g.name == '__init__': return True
            ok = True
            for r in ast.walk(g.node):
                if isinstance(r, ast.Return) and r.value is not None:
                    v = r.value
                    if isinstance(v, ast.Name): ok &= m.local_fresh(g, v.id, depth + 1)
                    else: ok &= m.fresh(v, g, depth + 1)
            return ok
        return False
    def local_fresh(m, f, v, depth=0):
        if v in f.params or v in m.consts and v not in f.locals: return False
        ds = [x for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v]
        return bool(ds) and all(m.fresh(d.value, f, depth) for d in ds)
    def check_alias(m, f):
        muts = list(m.mutations(f))
        mv = {v for v, _ in muts}
        for v in mv:
            if v not in f.params and not m.local_fresh(f, v): bad(f.node, '%s: %s is mutated but may be shared' % (f.full, v))
            if v in f.params and any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v for x in ast.walk(f.node)):
                bad(f.node, '%s: %s is mutated and rebound' % (f.full, v))
        # events that create a second name for an object
        loops = {}
        def walk(n, ls):
            loops[id(n)] = ls
            for c in ast.iter_child_nodes(n): walk(c, ls + ([id(n)] if isinstance(n, (ast.For, ast.While)) else []))
        walk(f.node, [])
        pos = {id(n): i for i, n in enumerate(m.preorder(f.node))}
        for n in ast.walk(f.node):
            src = []
            if isinstance(n, ast.Assign): src = [n.value]
            elif isinstance(n, ast.Return) and n.value is not None: src = []
            elif isinstance(n, ast.Call):
                g, args = m.callee(n, f)
                if g: src = [a for a, p in zip(args, g.params) if a is not None and p not in g.mutated]
                if g:
                    mut = [a.id for a, p in zip(args, g.params) if a is not None and p in g.mutated]
                    names = [x.id for a, p in zip(args, g.params) if a is not None for x in ast.walk(a) if isinstance(x, ast.Name) and f.locals.get(x.id) != INT]
                    for v in mut:
                        if names.count(v) > 1: bad(n, '%s passed twice to a function that changes it' % v)
            elif isinstance(n, (ast.List, ast.Tuple)): src = n.elts
            for e in src:
                for x in ([e] if not isinstance(e, ast.IfExp) else [e.body, e.orelse]):
                    if isinstance(x, ast.Name) and m.ty(x, f) in (BYTES, INTS, TABLE) and x.id in mv:
                        keeps = not isinstance(n, ast.Call) or m.keeps(m.callee(n, f)[0])
                        if not keeps: continue
                        for v, w in muts:
                            if v == x.id and (pos[id(w)] > pos[id(n)] or set(loops[id(w)]) & set(loops[id(n)])):
                                bad(n, '%s: %s is shared and changed afterwards' % (f.full, x.id))
    def keeps(m, g):
        """may the callee keep a reference to an argument (by storing or returning it)?"""
        if g.name == '__init__': return True
        if g.ret in (INT, NONE, BOOL): return False
        for r in ast.walk(g.node):
            if isinstance(r, ast.Return) and r.value is not None:
                v = r.value
                if not (m.local_fresh(g, v.id) if isinstance(v, ast.Name) else m.fresh(v, g)): return True
                if cls(g.ret): return True
        return False
    def preorder(m, n):
        yield n
        for c in ast.iter_child_nodes(n): yield from m.preorder(c)

    # ------------------------------------------------------------- output
    def id(m, n): return n + '_' if n in RESERVED else n
    def emit(m):
        for f in m.all(): m.check_alias(f)
        out = []
        for kind, name in m.order:
            if kind == 'const':
                c = m.consts[name]
                if c['ty'] is None: bad(c['value'], 'constant %s' % name)
                out.append('pub fn %s() -> %s { %s }' % (m.cname(name), rt(c['ty']), m.own(c['value'], None)))
            elif kind == 'fn': out.append(m.fn(m.fns[name]))
            else:
                c = m.classes[name]
                out.append('pub struct %s { %s }' % (name, ', '.join('pub %s: %s' % (m.id(k), rt(t)) for k, t in c['fields'].items())))
                out.append('impl %s {\n%s\n}' % (name, '\n'.join(m.init(f, c) if f.name == '__init__' else m.fn(f) for f in c['methods'].values())))
        return '\n'.join(out) + '\n'
    def cname(m, n): return 'const_' + n.lower()
    def params(m, f, skip=0):
        out = []
        for p, t in list(zip(f.params, f.ptypes))[skip:]:
            rebound = any(isinstance(x, (ast.Assign, ast.AugAssign)) and isinstance(g, ast.Name) and g.id == p for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AugAssign)) for g in (x.targets if isinstance(x, ast.Assign) else [x.target]))
            out.append('%s: %s%s' % (m.id(p), '&mut ' if p in f.mutated else '&', rt(t)))
        return ', '.join(out)
    def rebound(m, f):
        return [p for p in f.params if p not in f.mutated and any(isinstance(g, ast.Name) and g.id == p for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AugAssign, ast.For)) for g in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
    def fn(m, f):
        f.owned = set(); f.nloop = 0
        sig = m.params(f, 1 if f.owner else 0)
        if f.owner: sig = '&self' + (', ' + sig if sig else '')
        if f.owner and f.params[0] in f.mutated: bad(f.node, 'method that changes its object')
        pre = ''
        for p in m.rebound(f):
            pre += 'let mut %s = %s.clone();\n' % (m.id(p), m.id(p)); f.owned.add(p)
        body = m.block(f.body, f, m.hoist(f))
        if f.ret != NONE and not m.returns(f.body): bad(f.node, 'may fall off the end')
        return 'pub fn %s(%s)%s {\n%s%s}' % (m.id(f.name), sig, '' if f.ret == NONE else ' -> ' + rt(f.ret), pre, body)
    def returns(m, b):
        if not b: return False
        l = b[-1]
        return isinstance(l, (ast.Return, ast.Raise)) or isinstance(l, ast.If) and m.returns(l.body) and m.returns(l.orelse)
    def init(m, f, c):
        # self.x = e for every field, nothing else
        vals = {}
        f.owned = set(); f.nloop = 0
        for s in f.body:
            if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == f.params[0]): bad(s, '__init__ statement')
            vals[s.targets[0].attr] = m.own(s.value, f)
        if set(vals) != set(c['fields']): bad(f.node, 'fields')
        return 'pub fn new(%s) -> Self {\nSelf { %s }\n}' % (m.params(f, 1), ', '.join('%s: %s' % (m.id(k), v) for k, v in vals.items()))
    def hoist(m, f):
        """locals whose uses are not all inside the block of their first assignment"""
        first, path = {}, {}
        def walk(b, p):
            for i, s in enumerate(b):
                q = p + (i,)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name): uses.setdefault(x.id, []).append(q)
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name): first.setdefault(s.targets[0].id, q)
                if isinstance(s, (ast.If, ast.While, ast.For)):
                    walk(s.body, q + (0,)); walk(s.orelse, q + (1,))
        uses = {}
        walk(f.body, ())
        return {v for v, q in first.items() if v not in f.params and any(u[:len(q) - 1] != q[:-1] and not (len(u) < len(q) and q[:len(u)] == u) for u in uses[v])}
    def block(m, b, f, hoisted=()):
        out = ''.join('let mut %s: %s;\n' % (m.id(v), rt(f.locals[v])) for v in sorted(hoisted))
        f.owned |= set(hoisted)
        for s in b: out += m.stmt(s, f)
        return out
    def scoped(m, b, f):
        o = set(f.owned)
        r = m.block(b, f)
        f.owned = o
        return r
    def stmt(m, s, f):
        if isinstance(s, ast.Assign):
            g = s.targets[0]
            if isinstance(g, ast.Name):
                v = m.own(s.value, f)
                if g.id in f.owned: return '%s = %s;\n' % (m.id(g.id), v)
                f.owned.add(g.id)
                return 'let mut %s = %s;\n' % (m.id(g.id), v)
            if isinstance(g, ast.Subscript): return m.store(g, m.own(s.value, f), s, f)
            bad(s, 'assignment target')
        if isinstance(s, ast.AugAssign):
            op = OPS.get(type(s.op)) or bad(s, 'operator')
            if isinstance(s.target, ast.Name):
                v = s.target.id
                if v not in f.owned: bad(s, 'augmented assignment to a parameter or global')
                return '%s = %s;\n' % (m.id(v), m.binop(s.op, s.target, s.value, f, s))
            if isinstance(s.target, ast.Subscript):
                if isinstance(s.target.slice, ast.Slice): bad(s, 'augmented slice')
                return m.store(s.target, m.binop(s.op, s.target, s.value, f, s), s, f)
            bad(s, 'augmented target')
        if isinstance(s, ast.Return): return 'return %s;\n' % (m.own(s.value, f) if s.value is not None else '')
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): return ''
            if isinstance(s.value, ast.Call): return m.own(s.value, f) + ';\n'
            return 'let _ = %s;\n' % m.own(s.value, f)
        if isinstance(s, ast.Pass): return ''
        if isinstance(s, ast.If): 
            r = 'if %s {\n%s}' % (m.cond(s.test, f), m.scoped(s.body, f))
            return r + (' else {\n%s}\n' % m.scoped(s.orelse, f) if s.orelse else '\n')
        if isinstance(s, ast.While):
            if s.orelse: bad(s, 'while-else')
            return 'while %s {\n%s}\n' % (m.cond(s.test, f), m.scoped(s.body, f))
        if isinstance(s, ast.For):
            if s.orelse: bad(s, 'for-else')
            it = s.iter
            if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and 1 <= len(it.args) <= 3): bad(s, 'loop over %s' % ast.dump(it)[:60])
            if len(it.args) == 3 and not (isinstance(it.args[2], ast.Constant) or isinstance(it.args[2], ast.Name) and it.args[2].id in m.consts): bad(s, 'range step')
            f.nloop += 1; k = f.nloop
            lo, hi = (None, it.args[0]) if len(it.args) == 1 else it.args[:2]
            step = m.ref(it.args[2], f) if len(it.args) == 3 else '&py(1)'
            v = m.id(s.target.id)
            r = 'let mut py_at%d = %s;\nlet py_end%d = %s;\n' % (k, 'py(0)' if lo is None else m.own(lo, f), k, m.own(hi, f))
            if s.target.id in f.owned: dec = '%s = py_at%d.clone();\n' % (v, k)
            else:
                dec = 'let mut %s = py_at%d.clone();\n' % (v, k)
            o = set(f.owned); f.owned.add(s.target.id)
            body = m.block(s.body, f)
            f.owned = o
            if any(isinstance(x, ast.Continue) for x in ast.walk(s)): bad(s, 'continue')
            if len(it.args) == 3: dec = 'py_step(%s);\n' % step + dec
            return r + 'while py_lt(&py_at%d, &py_end%d) {\n%spy_at%d = py_add(&py_at%d, %s);\n%s}\n' % (k, k, dec, k, k, step, body)
        if isinstance(s, ast.Break): return 'break;\n'
        if isinstance(s, ast.Assert): return 'py_assert(%s);\n' % m.cond(s.test, f)
        if isinstance(s, ast.Raise): return 'py_raise();\n'
        bad(s, 'statement %s' % type(s).__name__)
    def store(m, g, val, s, f):
        t = m.ty(g.value, f)
        v = m.id(g.value.id)
        if isinstance(g.slice, ast.Slice):
            lo, hi = m.bounds(g.slice, v, f)
            return '{ let py_v = %s; %s.set_slice(%s, %s, &py_v); }\n' % (val, v, lo, hi)
        return '{ let py_v = %s; let py_i = %s; %s.set(&py_i, py_v); }\n' % (val, m.own(g.slice, f), v)
    def bounds(m, sl, v, f):
        if sl.step is not None: bad(sl, 'slice step')
        lo = '&py(0)' if sl.lower is None else m.ref(sl.lower, f)
        hi = '&%s.length()' % v if sl.upper is None else m.ref(sl.upper, f)
        return lo, hi
    def cond(m, e, f):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return '!(%s)' % m.cond(e.operand, f)
        if isinstance(e, ast.BoolOp): return '(%s)' % (' && ' if isinstance(e.op, ast.And) else ' || ').join(m.cond(x, f) for x in e.values)
        if isinstance(e, ast.Compare):
            r = []
            l = e.left
            if len(e.ops) > 1 and any(isinstance(x, ast.Call) for x in e.comparators[:-1]): bad(e, 'chained comparison')
            for op, x in zip(e.ops, e.comparators):
                if m.ty(l, f) != INT or m.ty(x, f) != INT: bad(e, 'comparison of non-integers')
                r.append('py_%s(%s, %s)' % (CMP.get(type(op)) or bad(e, 'comparison'), m.ref(l, f), m.ref(x, f)))
                l = x
            return r[0] if len(r) == 1 else '(%s)' % ' && '.join(r)
        t = m.ty(e, f)
        if t == BOOL: return m.own(e, f)
        if t == INT: return 'py_ne(%s, &py(0))' % m.ref(e, f)
        if t in (BYTES, INTS): return 'py_ne(&%s.length(), &py(0))' % m.place(e, f)
        bad(e, 'condition')
    def binop(m, op, l, r, f, at):
        tl, tr = m.ty(l, f), m.ty(r, f)
        o = OPS.get(type(op)) or bad(at, 'operator %s' % type(op).__name__)
        if tl == tr == INT: return 'py_%s(%s, %s)' % (o, m.ref(l, f), m.ref(r, f))
        if o == 'add' and tl == tr and tl in (BYTES, INTS): return '%s.concat(%s)' % (m.place(l, f), m.ref(r, f))
        if o == 'mul' and tl == INTS and tr == INT: return '%s.repeat(%s)' % (m.place(l, f), m.ref(r, f))
        if o == 'mul' and tl == INT and tr == INTS: return '%s.repeat(%s)' % (m.place(r, f), m.ref(l, f))
        bad(at, 'operator %s on %s and %s' % (o, tl, tr))
    def is_place(m, e, f):
        return isinstance(e, ast.Name) and f and e.id in f.locals or isinstance(e, ast.Attribute)
    def place(m, e, f):
        """something that fields and methods can be taken of"""
        if isinstance(e, ast.Name) and f and e.id in f.locals: return 'self' if f.owner and e.id == f.params[0] else m.id(e.id)
        if isinstance(e, ast.Attribute):
            t = m.ty(e.value, f)
            if t not in m.classes: bad(e, 'attribute')
            return '%s.%s' % (m.place(e.value, f), m.id(e.attr))
        return m.own(e, f)
    def isref(m, e, f): return isinstance(e, ast.Name) and f and e.id in f.params and e.id not in f.owned
    def ref(m, e, f):
        if m.isref(e, f):
            if e.id in f.mutated: return '&*%s' % m.id(e.id)
            return m.place(e, f)
        return '&' + m.place(e, f)
    def own(m, e, f):
        if m.is_place(e, f):
            if m.ty(e, f) == BOOL: return m.place(e, f)
            return m.place(e, f) + '.clone()'
        if isinstance(e, ast.Name):
            if e.id in m.consts: return m.cname(e.id) + '()'
            bad(e, 'name %s' % e.id)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool): return 'true' if e.value else 'false'
            if isinstance(e.value, int):
                if e.value >= 2**64: bad(e, 'literal')
                return 'py(%d)' % e.value
            bad(e, 'constant')
        if isinstance(e, ast.List):
            if m.ty(e, f) == TABLE: return 'py_table([%s])' % (', '.join(m.own(x, f) for x in e.elts))
            for x in e.elts:
                if m.ty(x, f) != INT: bad(x, 'list element')
            return 'py_list([%s])' % ', '.join(m.own(x, f) for x in e.elts)
        if isinstance(e, (ast.Compare, ast.BoolOp)): return m.cond(e, f)
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not): return m.cond(e, f)
            if isinstance(e.op, ast.USub) and m.ty(e.operand, f) == INT: return 'py_sub(&py(0), %s)' % m.ref(e.operand, f)
            bad(e, 'unary operator')
        if isinstance(e, ast.IfExp): return 'if %s { %s } else { %s }' % (m.cond(e.test, f), m.own(e.body, f), m.own(e.orelse, f))
        if isinstance(e, ast.BinOp): return m.binop(e.op, e.left, e.right, f, e)
        if isinstance(e, ast.Subscript):
            t = m.ty(e.value, f)
            if t not in (BYTES, INTS, TABLE): bad(e, 'subscript of %s' % t)
            v = m.place(e.value, f)
            if isinstance(e.slice, ast.Slice):
                if not m.is_place(e.value, f) and e.slice.upper is None: bad(e, 'open slice of a temporary')
                lo, hi = m.bounds(e.slice, v, f)
                return '%s.slice(%s, %s)' % (v, lo, hi)
            return '%s.at(%s)' % (v, m.ref(e.slice, f))
        if isinstance(e, ast.Call):
            g, args = m.callee(e, f)
            if g:
                rs = []
                for a, p in zip(args, g.params):
                    if a is None: continue
                    if p in g.mutated:
                        rs.append(('&mut ' if not m.isref(a, f) else '&mut *') + m.id(a.id))
                    else: rs.append(m.ref(a, f))
                if g.name == '__init__': return '%s::new(%s)' % (g.owner, ', '.join(rs))
                if g.owner: return '%s.%s(%s)' % (m.place(args[0], f), m.id(g.name), ', '.join(rs[1:]))
                return '%s(%s)' % (m.id(g.name), ', '.join(rs))
            if isinstance(e.func, ast.Name):
                k = e.func.id
                if k in m.consts or f and k in f.locals: bad(e, 'call of a value')
                if k == 'len' and len(e.args) == 1:
                    if m.ty(e.args[0], f) not in (BYTES, INTS, TABLE): bad(e, 'len')
                    return '%s.length()' % m.place(e.args[0], f)
                if k in ('min', 'max') and len(e.args) == 2: return 'py_%s(%s, %s)' % (k, m.ref(e.args[0], f), m.ref(e.args[1], f))
                if k in ('bytearray', 'bytes') and len(e.args) == 1:
                    t = m.ty(e.args[0], f)
                    if t == INT: return 'py_bytearray(%s)' % m.ref(e.args[0], f)
                    if t == BYTES: return '%s.clone()' % m.place(e.args[0], f)
                if k == 'int' and len(e.args) == 1 and m.ty(e.args[0], f) == INT: return m.own(e.args[0], f)
            if isinstance(e.func, ast.Attribute):
                k = e.func.attr
                def little(n): return len(e.args) == n and isinstance(e.args[-1], ast.Constant) and e.args[-1].value == 'little'
                if isinstance(e.func.value, ast.Name) and e.func.value.id == 'int' and k == 'from_bytes' and little(2): return 'py_from_bytes(%s)' % m.ref(e.args[0], f)
                if k == 'to_bytes' and little(2): return 'py_to_bytes(%s, %s)' % (m.ref(e.func.value, f), m.ref(e.args[0], f))
                if k == 'bit_length' and not e.args: return 'py_bit_length(%s)' % m.ref(e.func.value, f)
                if k == 'copy' and not e.args and m.ty(e.func.value, f) in (INTS, BYTES): return '%s.clone()' % m.place(e.func.value, f)
            bad(e, 'call %s' % ast.unparse(e)[:60])
        bad(e, 'expression %s' % type(e).__name__)

if __name__ == '__main__':
    try: out = Mod(open(sys.argv[1]).read()).emit()
    except Bad as e: sys.exit('pyx: %s: %s' % (sys.argv[1], e))
    open(sys.argv[2], 'w').write(out)
