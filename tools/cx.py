#!/usr/bin/env python3
"""cx.py IN.c OUT.rs [gen:NAME=VALUE ...]: mechanical translation of a subset of C to Rust text.
The syntax tree is clang's (-ast-dump=json): macros, conditional compilation, implicit conversions and
integer promotions are clang's own.  What is kept: unsigned arithmetic wraps (wrapping_*), signed
arithmetic must not overflow (plain Rust operators, proved by the verifier), conversions are `as`.
A pointer is a Rust slice that starts where it points and ends where its object ends, so that pointer
arithmetic and every access carry their bounds as obligations; a pointer to a struct is a reference.
memcpy/memset/assert are calls of cshim.rs.  Two live pointers into one object, one of them writable, are
a borrow error.  A function with anything else in it is emitted with a body that the verifier rejects."""
import json, subprocess, sys, os, re
STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cstub')
CANON = {'unsigned char': 'u8', 'uint8_t': 'u8', 'unsigned short': 'u16', 'uint16_t': 'u16', 'unsigned int': 'u32', 'uint32_t': 'u32', 'unsigned': 'u32',
         'unsigned long': 'u64', 'unsigned long long': 'u64', 'uint64_t': 'u64', 'size_t': 'u64', 'uintptr_t': 'u64', 'int': 'i32', 'int32_t': 'i32', 'long': 'i64', 'long long': 'i64', 'int64_t': 'i64', 'ssize_t': 'i64', 'ptrdiff_t': 'i64',
         'signed char': 'i8', 'char': 'i8', 'int8_t': 'i8', 'short': 'i16', 'int16_t': 'i16', '_Bool': 'bool', 'bool': 'bool', 'void': 'void', 'uint_fast8_t': 'u8'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'bool': 1}
KEYWORDS = {'as', 'box', 'match', 'mod', 'ref', 'type', 'use', 'fn', 'let', 'mut', 'loop', 'move', 'final', 'proof', 'spec', 'ghost', 'nat', 'in', 'impl', 'dyn', 'where', 'trait', 'pub', 'crate', 'super', 'async', 'await', 'yield', 'try', 'abstract', 'become', 'priv', 'virtual', 'unsized', 'macro', 'override', 'do'}
VECPAIR = {'uint32x4x2_t'}  # pairs of vector registers: defined by the overlay
VEC = {'__m128i', '__m256i', '__m512i', 'uint32x4_t', 'uint64x2_t', 'uint8x16_t', 'uint16x8_t', 'uint32x2_t', 'uint64x1_t'}  # vector registers: opaque values
# functions of the specification that C code may name too
SPECNAMES = {'popcnt', 'comp', 'fold', 'tree', 'stk', 'pend', 'hm', 'pfx', 'le4', 'of_le4', 'p2', 'merged', 'unmerged', 'foldroot', 'node_cv'}
class Bad(Exception): pass
def bad(n, m): raise Bad('line %s: %s' % (line_of(n), m))
def line_of(n):
    l = n.get('loc', {}).get('line') or n.get('range', {}).get('begin', {}).get('line') or n.get('range', {}).get('begin', {}).get('expansionLoc', {}).get('line')
    return l or '?'
def ident(s):
    if s == 'self': return 'this'
    return s + '_' if s in KEYWORDS or s in SPECNAMES else s

class T:
    """int kinds: T('u8'); arrays T('arr', elem, n); pointers T('ptr', elem, const); structs T('rec', name)"""
    def __init__(s, k, e=None, x=None): s.k, s.e, s.x = k, e, x
    def isint(s): return s.k in BITS and s.k != 'bool'
    def uns(s): return s.k.startswith('u')
    def rust(s, lt=''):
        if s.k in BITS: return s.k
        if s.k == 'arr': return '[%s; %d]' % (s.e.rust(lt), s.x)
        if s.k in ('rec', 'vec'): return s.x
        if s.k == 'void': return '()'
        if s.k == 'ptr':
            m = '' if s.x else 'mut '
            if s.e.k == 'rec': return '&%s%s%s' % (lt, m, s.e.x)
            return '&%s%s[%s]' % (lt, m, 'u8' if s.e.k == 'void' else s.e.rust(lt))
        raise Bad('type ' + s.k)
    def __eq__(s, o): return isinstance(o, T) and (s.k, s.e, s.x) == (o.k, o.e, o.x)
    def bytes(s):
        if s.k in BITS: return max(BITS[s.k] // 8, 1)
        if s.k == 'arr': return s.e.bytes() * s.x
        if s.k == 'vec': return {'__m256i': 32, '__m512i': 64}.get(s.x, 16)
        raise Bad('size of ' + s.k)

def top(s):
    """drop one redundant outer pair of parentheses"""
    if s.startswith('(') and s.endswith(')'):
        d = 0
        for i, c in enumerate(s):
            d += (c == '(') - (c == ')')
            if d == 0: return s[1:-1] if i == len(s) - 1 else s
    return s
def wrapn(cnt, s): return s + cnt + ')' if re.fullmatch(r'\w+', cnt) else '{ let vx_n = %s; %svx_n) }' % (cnt, s)
def ix(s):
    m = re.fullmatch(r'(\d+)u64', s)
    return m.group(1) + 'usize' if m else '(%s) as usize' % s
def oadd(a, b):
    if a in (None, '0u64'): return b
    if b == '0u64': return a
    return '%s.wrapping_add(%s)' % (a if re.fullmatch(r'\w+', a) else '(%s)' % a, b)
class Mod:
    def __init__(m, ast):
        m.recs, m.typedefs, m.fns, m.globs, m.decls = {}, {}, {}, {}, {}
        byid = {}
        for n in ast['inner']:
            k = n.get('kind')
            if k == 'RecordDecl': byid[n['id']] = n
            elif k == 'TypedefDecl':
                rid = None
                def look(x):
                    nonlocal rid
                    for y in x.get('inner', []):
                        for key in ('ownedTagDecl', 'decl'):
                            if key in y and y[key].get('id') in byid: rid = y[key]['id']
                        look(y)
                look(n)
                if rid and n['name'] not in m.recs: m.recs[n['name']] = byid[rid]
                else: m.typedefs[n['name']] = n['type']
            elif k == 'FunctionDecl':
                m.decls.setdefault(n['name'], n)
                if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])): m.fns[n['name']] = n; m.decls[n['name']] = n
            elif k == 'VarDecl': m.globs[n['name']] = n
        for i, n in byid.items():
            if n.get('name') and n.get('completeDefinition'): m.recs.setdefault('struct ' + n['name'], n)
        m.depth = 0
    def ty(m, t):
        q = t if isinstance(t, str) else t['qualType']
        r = m.parse(q)
        if r is None and not isinstance(t, str) and 'desugaredQualType' in t: r = m.parse(t['desugaredQualType'])
        if r is None: raise Bad('type %s' % q)
        return r
    def parse(m, q):
        q = q.strip()
        mm = re.fullmatch(r'(.*?)\s*((?:\[\d+\])+)', q)
        if mm:
            e = m.parse(mm.group(1))
            if e is None: return None
            for d in reversed(re.findall(r'\[(\d+)\]', mm.group(2))): e = T('arr', e, int(d))
            return e
        mm = re.fullmatch(r'(.*)\*\s*(?:const|restrict|\s)*', q)
        if mm:
            inner = mm.group(1).strip()
            cst = inner.endswith('const') if inner.endswith('const') and '*' in inner else bool(re.match(r'const\b', inner)) and '*' not in inner
            if inner.endswith('const') and '*' not in inner: cst = True
            e = m.parse(inner)
            return None if e is None else T('ptr', e, cst)
        q = ' '.join(w for w in q.split() if w not in ('const', 'volatile', 'restrict', 'register'))
        if 'volatile' in q: return None
        if q in CANON: return T(CANON[q])
        if q in VEC: return T('vec', None, q)
        if q in m.recs: return T('rec', None, q.replace('struct ', ''))
        if q in m.typedefs: return m.parse(m.typedefs[q]['qualType'])
        return None

class V:
    """a value: text; t = C type; b = bool text when the value is a truth value; nar = (text, width) narrower unsigned text; lit"""
    def __init__(s, text, t, b=None, nar=None, lit=None): s.text, s.t, s.b, s.nar, s.lit = text, t, b, nar, lit
class P:
    """a pointer value: base place / slice text, offset text or None; const; elem; rec: reference to a struct"""
    def __init__(s, base, e, off=None, place=True): s.base, s.e, s.off, s.place = base, e, off, place

def lit(v, t): return V('%d%s' % (v, t.k) if v >= 0 else '(%d%s)' % (v, t.k), t, lit=v)
def wrap(v, t):
    b = BITS[t.k]; v &= (1 << b) - 1
    return v - (1 << b) if not t.uns() and v >> (b - 1) else v

class Fn:
    def __init__(f, m, n):
        f.m, f.n, f.name = m, n, n['name']
        f.ret = m.ty(n['type']['qualType'].split('(')[0])
        f.params = [(ident(p.get('name', '_p%d' % i)), m.ty(p['type']), p) for i, p in enumerate(c for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl')]
        f.body = next((c for c in n['inner'] if c['kind'] == 'CompoundStmt'), None) if 'inner' in n else None
        f.vars = {}; f.alias = {}; f.tmp = 0; f.calls = set(); f.out = []; f.ind = 0; f.used_globals = set(); f.assigned = set()
    # ------------------------------------------------------------ statements
    def emit(f, s): f.out.append('    ' * f.ind + s)
    def sig(f):
        lts = any(t.k == 'ptr' and t.e.k == 'ptr' for _, t, _ in f.params)
        ps = ', '.join('%s%s: %s' % ('mut ' if nm in f.assigned else '', nm, t.rust()) for nm, t, _ in f.params)
        return 'pub fn %s(%s)%s' % (ident(f.name), ps, '' if f.ret.k == 'void' else ' -> ' + f.ret.rust())
    def translate(f):
        for nm, t, p in f.params: f.vars[p['id']] = (nm, t)
        f.scan(f.body)
        f.ind = 1
        for nm, t, p in f.params:
            # a writable pointer parameter that moves: the slice and a position in it
            if nm in f.assigned and t.k == 'ptr' and not t.x and t.e.k not in ('rec', 'ptr'):
                f.assigned.discard(nm)
                f.emit('let mut %s_off: u64 = 0u64;' % nm)
                f.alias[p['id']] = (nm, T('u8') if t.e.k == 'void' else t.e, nm + '_off', False)
        for s in f.body.get('inner', []): f.stmt(s)
        return f.sig() + ' {\n' + '\n'.join(f.out) + '\n}\n'
    def scan(f, n):
        """which parameters and locals are assigned"""
        k = n.get('kind')
        if k == 'CompoundAssignOperator' or k == 'BinaryOperator' and n.get('opcode') == '=' or k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            l = n['inner'][0]
            while l.get('kind') == 'ParenExpr': l = l['inner'][0]
            if l.get('kind') == 'DeclRefExpr': f.assigned.add(ident(l['referencedDecl'].get('name', '')))
        for c in n.get('inner', []) or []: f.scan(c)
    def block(f, n):
        f.ind += 1
        for s in (n.get('inner', []) if n['kind'] == 'CompoundStmt' else [n]): f.stmt(s)
        f.ind -= 1
    def stmt(f, n):
        k = n['kind']
        I = n.get('inner', [])
        if k == 'CompoundStmt':
            f.emit('{'); f.block(n); f.emit('}')
        elif k == 'NullStmt': pass
        elif k == 'DeclStmt':
            for d in I: f.decl(d)
        elif k == 'ReturnStmt':
            f.emit('return;' if not I else 'return %s;' % top(f.val(I[0], f.ret) if f.ret.k != 'ptr' else bad(n, 'pointer returned')))
        elif k == 'IfStmt':
            if n.get('hasVar') or n.get('hasInit'): bad(n, 'declaration in if')
            f.emit('if %s {' % f.cond(I[0])); f.block(I[1])
            while len(I) > 2 and I[2]['kind'] == 'IfStmt':
                n = I[2]; I = n['inner']
                f.emit('} else if %s {' % f.cond(I[0])); f.block(I[1])
            if len(I) > 2: f.emit('} else {'); f.block(I[2])
            f.emit('}')
        elif k == 'WhileStmt':
            c = f.cond(I[0])
            f.loops = getattr(f, 'loops', []) + [None]
            f.emit('loop {' if c == 'true' else 'while %s {' % c); f.block(I[1]); f.emit('}')
            f.loops.pop()
        elif k == 'DoStmt':
            if f.has(I[0], 'ContinueStmt'): bad(n, 'continue in do-while')
            if I[1]['kind'] == 'IntegerLiteral' and I[1]['value'] == '0' and not f.has(I[0], 'BreakStmt'):
                f.emit('{'); f.block(I[0]); f.emit('}')
                return
            f.loops = getattr(f, 'loops', []) + [None]
            f.emit('loop {'); f.block(I[0]); f.ind += 1
            f.emit('if !(%s) { break; }' % f.cond(I[1])); f.ind -= 1; f.emit('}')
            f.loops.pop()
        elif k == 'ForStmt':
            ini, dv, cnd, inc, body = (I + [{}] * 5)[:5]
            f.emit('{'); f.ind += 1
            if ini.get('kind'): f.stmt(ini)
            f.loops = getattr(f, 'loops', []) + [inc if inc.get('kind') else None]
            f.emit('while %s {' % (f.cond(cnd) if cnd.get('kind') else 'true')); f.block(body)
            if inc.get('kind'): f.ind += 1; f.stmt(inc); f.ind -= 1
            f.emit('}'); f.loops.pop(); f.ind -= 1; f.emit('}')
        elif k == 'BreakStmt': f.emit('break;')
        elif k == 'ContinueStmt':
            if f.loops[-1]: f.stmt(f.loops[-1])
            f.emit('continue;')
        else: f.effect(n)
    def has(f, n, kind): return n.get('kind') == kind or any(f.has(c, kind) for c in n.get('inner', []) or [])
    def decl(f, d):
        if d['kind'] != 'VarDecl': bad(d, d['kind'])
        if d.get('storageClass') == 'static': bad(d, 'static local')
        t = f.m.ty(d['type']); nm = ident(d['name'])
        # C scopes nest like Rust's, and an initialiser that names the variable itself is refused by rustc
        ini = d['inner'][0] if d.get('init') and d.get('inner') else None
        if t.k == 'ptr' and not t.x and t.e.k not in ('rec', 'ptr'):
            if ini is None: bad(d, 'uninitialised pointer to writable memory')
            p = f.ptr(ini)
            f.emit('let mut %s_off: u64 = %s;' % (nm, p.off or '0u64'))
            f.alias[d['id']] = (p.base, p.e, '%s_off' % nm, p.place)
            f.vars[d['id']] = (nm, t)
            return
        f.vars[d['id']] = (nm, t)
        mut = 'mut '
        if ini is None:
            if t.k in ('arr', 'rec', 'vec'): f.emit('let mut %s: %s = vx_any();' % (nm, t.rust()))
            else: f.emit('let mut %s: %s;' % (nm, t.rust()))
            return
        if t.k == 'arr':
            if ini['kind'] != 'InitListExpr': bad(d, 'array initialiser')
            f.emit('let mut %s: %s = %s;' % (nm, t.rust(), f.initlist(ini, t))); return
        if t.k == 'rec':
            if ini['kind'] == 'InitListExpr': bad(d, 'struct initialiser')
            x = f.strip(ini)
            f.emit('let mut %s: %s = %s;' % (nm, t.rust(), f.call(x) if x['kind'] == 'CallExpr' else f.place(x))); return
        if t.k == 'ptr':
            f.emit('let %s%s: %s = %s;' % ('mut ' if nm in f.assigned else '', nm, t.rust(), f.arg(ini, t))); return
        f.emit('let mut %s: %s = %s;' % (nm, t.rust(), top(f.val(ini, t))))
    def initlist(f, ini, t):
        xs = ini.get('inner', []) if 'array_filler' not in ini else None
        if xs is None:
            xs = [x for x in ini['array_filler'] if x['kind'] != 'ImplicitValueInitExpr']
        if t.e.k == 'arr': return '[%s]' % ', '.join(f.initlist(x, t.e) for x in xs)
        v = [f.val(x, t.e) for x in xs]
        if t.e.k == 'vec':
            if len(v) != t.x: raise Bad('partly initialised array of vectors')
            return '[%s]' % ', '.join(v)
        z = 'false' if t.e.k == 'bool' else '0' + t.e.k
        if not v: return '[%s; %d]' % (z, t.x)
        return '[%s]' % ', '.join(v + [z] * (t.x - len(v)))
    # ------------------------------------------------------------ effects
    def strip(f, n):
        while n['kind'] in ('ParenExpr', 'ConstantExpr') or n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('LValueToRValue', 'NoOp'): n = n['inner'][0]
        return n
    def effect(f, n):
        k = n['kind']; I = n.get('inner', [])
        if k == 'ParenExpr': return f.effect(I[0])
        if k == 'CStyleCastExpr' and n.get('castKind') == 'ToVoid':
            x = f.strip(I[0])
            if x['kind'] in ('DeclRefExpr', 'IntegerLiteral', 'MemberExpr'): return
            return f.effect(x)
        if k == 'BinaryOperator' and n['opcode'] == ',':
            f.effect(I[0]); return f.effect(I[1])
        if k == 'BinaryOperator' and n['opcode'] == '=': return f.assign(I[0], I[1])
        if k == 'CompoundAssignOperator':
            op = n['opcode'][:-1]; lt = f.m.ty(n['type'])
            if lt.k == 'ptr': return f.padd(I[0], I[1], op)
            ct = f.m.ty(n['computeResultType'])
            l = f.place(I[0]); a = f.conv(V(l, lt), ct)
            r = f.expr(I[1])
            v = f.conv(f.binop(n, op, a, r if op in ('<<', '>>') else f.conv(r, ct), ct), lt)
            f.emit('%s = %s;' % (l, top(v.text))); return
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            lt = f.m.ty(n['type']); op = n['opcode'][0]
            if lt.k == 'ptr': return f.padd(I[0], None, op)
            ct = lt if BITS[lt.k] >= 32 else T('i32')
            l = f.place(I[0])
            v = f.conv(f.binop(n, op, f.conv(V(l, lt), ct), lit(1, ct), ct), lt)
            f.emit('%s = %s;' % (l, top(v.text))); return
        if k == 'CallExpr':
            f.emit(f.call(n) + ';'); return
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') : return f.effect(I[0])
        if k == 'ConditionalOperator':
            f.emit('if %s {' % f.cond(I[0])); f.ind += 1; f.effect(I[1]); f.ind -= 1
            f.emit('} else {'); f.ind += 1; f.effect(I[2]); f.ind -= 1; f.emit('}'); return
        if k in ('DeclRefExpr', 'IntegerLiteral', 'MemberExpr'): return
        bad(n, 'statement ' + k)
    def padd(f, l, r, op):
        l = f.strip(l)
        if l['kind'] != 'DeclRefExpr': bad(l, 'pointer arithmetic on ' + l['kind'])
        d = l['referencedDecl']['id']
        off = '1u64' if r is None else f.val(r, T('u64'))
        if d in f.alias:
            o = f.alias[d][2]
            if op == '+': f.emit('%s = (%s).wrapping_add(%s);' % (o, o, off))
            else: f.emit('%s = (%s).wrapping_sub(%s);' % (o, o, off))
            return
        nm, t = f.vars[d]
        if op != '+': bad(l, 'pointer moved backwards')
        if not t.x: bad(l, 'writable pointer parameter is moved')
        f.emit('%s = &%s[(%s) as usize..];' % (nm, nm, off))
    def assign(f, l, r):
        t = f.m.ty(l['type'])
        x = f.strip(l)
        if t.k == 'ptr':
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] in f.alias:
                p = f.ptr(r); b, e, o, pl = f.alias[x['referencedDecl']['id']]
                if p.base != b: bad(l, 'pointer moved to another object')
                f.emit('%s = %s;' % (o, p.off or '0u64')); return
            if not t.x: bad(l, 'assignment of a writable pointer')
            f.emit('%s = %s;' % (f.place(x), f.arg(r, t))); return
        if t.k == 'rec': f.emit('%s = %s;' % (f.place(x), f.place(f.strip(r)))); return
        if r['kind'] == 'BinaryOperator' and r.get('opcode') == '=': bad(l, 'chained assignment')
        f.emit('%s = %s;' % (f.place(x), top(f.val(r, t))))
    # ------------------------------------------------------------ places
    def place(f, n):
        n = f.strip(n); k = n['kind']; I = n.get('inner', [])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in f.vars: return f.vars[d['id']][0]
            if d['name'] in f.m.globs: f.used_globals.add(d['name']); return d['name']
            bad(n, 'name ' + d.get('name', '?'))
        if k == 'MemberExpr':
            if n.get('isArrow'):
                p = f.ptr(I[0])
                if p.off or p.e.k != 'rec': bad(n, 'member of a computed pointer')
                return p.base + '.' + ident(n['name'])
            return f.place(I[0]) + '.' + ident(n['name'])
        if k == 'ArraySubscriptExpr':
            p = f.ptr(I[0]); i = f.val(I[1], T('u64'))
            i = oadd(p.off, i)
            return '%s[%s]' % (p.base, ix(i))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = f.ptr(I[0])
            if p.e.k == 'rec': return '*' + p.base
            return '%s[%s]' % (p.base, ix(p.off or '0u64'))
        bad(n, 'place ' + k)
    def ptr(f, n):
        k = n['kind']; I = n.get('inner', [])
        if k in ('ParenExpr', 'ConstantExpr'): return f.ptr(I[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n['castKind']
            if ck == 'ArrayToPointerDecay':
                t = f.m.ty(I[0]['type'])
                return P(f.place(I[0]), t.e)
            if ck in ('LValueToRValue', 'NoOp'): return f.ptr(I[0])
            if ck == 'BitCast':
                p = f.ptr(I[0]); t = f.m.ty(n['type'])
                if t.e.k == 'void' or t.e == p.e: return p
                if t.e.k == 'vec' and p.e.k in ('u8', 'u32', 'u64'): return p
                if t.e.k == 'u8' and p.e.k == 'u64' and p.off in (None, '0u64'): return P('BYTES ' + p.base, T('u8'), None, p.place)
                if p.e.k == 'void' and t.e.k == 'u8': return P(p.base, T('u8'), p.off, p.place)
                bad(n, 'cast between pointer types')
            bad(n, 'pointer cast ' + ck)
        t = f.m.ty(n['type'])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']['id']
            if d in f.alias:
                b, e, o, pl = f.alias[d]
                return P(b, e, o, pl)
            if d not in f.vars: bad(n, 'pointer ' + n['referencedDecl'].get('name', '?'))
            nm, t = f.vars[d]
            return P(nm, T('u8') if t.e.k == 'void' else t.e, None, False)
        if k == 'UnaryOperator' and n['opcode'] == '&':
            x = I[0]
            while x['kind'] == 'ParenExpr': x = x['inner'][0]
            if x['kind'] == 'ArraySubscriptExpr':
                p = f.ptr(x['inner'][0]); i = f.val(x['inner'][1], T('u64'))
                return P(p.base, p.e, oadd(p.off, i), p.place)
            t = f.m.ty(x['type'])
            if t.k == 'rec': return P(f.place(x), t)
            if t.k in ('vec', 'u8', 'u32', 'u64') and x['kind'] == 'DeclRefExpr': return P('ONE ' + f.place(x), t)
            bad(n, 'address of ' + x['kind'])
        if k == 'BinaryOperator' and n['opcode'] in '+-':
            a, b = I
            if f.m.ty(b['type']).k == 'ptr' and n['opcode'] == '+': a, b = b, a
            p = f.ptr(a); i = f.val(b, T('u64'))
            if p.e.k == 'rec': bad(n, 'arithmetic on struct pointers')
            if n['opcode'] == '-':
                if not p.off: bad(n, 'pointer before its start')
                return P(p.base, p.e, '(%s).wrapping_sub(%s)' % (p.off, i), p.place)
            return P(p.base, p.e, oadd(p.off, i), p.place)
        if k == 'ArraySubscriptExpr':
            return P(f.place(n), t.e, None, False)
        bad(n, 'pointer ' + k)
    def arg(f, n, t):
        """a pointer value passed / stored as type t"""
        p = f.ptr(n)
        if t.e.k == 'rec':
            if p.place: return '&%s%s' % ('' if t.x else 'mut ', p.base)
            return p.base
        m = '&' if t.x else '&mut '
        if p.base.startswith('ONE '): return 'vx_one%s(%s%s)' % ('' if t.x else '_mut', m, p.base[4:])
        if p.base.startswith('BYTES '): return 'vx_bytes64%s(%s%s)' % ('' if t.x else '_mut', m if p.place else '', p.base[6:])
        if p.off and p.off != '0u64': return '%s%s[%s..]' % (m, p.base, ix(p.off))
        if p.place: return m + p.base
        if p.off and not t.x: return '%s%s[..]' % (m, p.base)
        return p.base
    # ------------------------------------------------------------ values
    def cond(f, n):
        v = f.expr(n)
        return top(f.truth(v))
    def truth(f, v):
        if v.b is not None: return v.b
        if v.t.k == 'bool': return v.text
        if v.lit is not None: return 'true' if v.lit else 'false'
        return '(%s != 0)' % (v.nar[0] if v.nar else v.text)
    def val(f, n, t=None):
        v = f.expr(n)
        if t is not None: v = f.conv(v, t)
        return v.text
    def conv(f, v, t):
        if t.k == 'void': return v
        if t.k == 'vec' or v.t.k == 'vec':
            if t != v.t: raise Bad('conversion of a vector')
            return v
        if t.k == 'bool':
            b = f.truth(v); return V(b, t, b=b)
        if v.t.k == t.k: return v
        if v.b is not None or v.t.k == 'bool':
            b = v.b if v.b is not None else v.text
            return V('(if %s { 1%s } else { 0%s })' % (b, t.k, t.k), t, b=b)
        if v.lit is not None: return lit(wrap(v.lit, t), t)
        if v.nar:
            x, w = v.nar
            if w == t.k: return V(x, t)
            if t.uns() or BITS[t.k] > BITS[w]:
                if BITS[t.k] > BITS[w]: return V('(%s as %s)' % (x, t.k), t, nar=v.nar)
                return V('(%s as %s)' % (x, t.k), t)
        nar = (v.text, v.t.k) if v.t.uns() and BITS[t.k] > BITS[v.t.k] else None
        return V('(%s as %s)' % (v.text, t.k), t, nar=nar)
    def binop(f, n, op, a, b, t):
        if a.lit is not None and b.lit is not None and op in ('+', '-', '*', '&', '|', '^', '<<', '>>'):
            r = {'+': lambda: a.lit + b.lit, '-': lambda: a.lit - b.lit, '*': lambda: a.lit * b.lit, '&': lambda: a.lit & b.lit, '|': lambda: a.lit | b.lit, '^': lambda: a.lit ^ b.lit, '<<': lambda: a.lit << b.lit, '>>': lambda: a.lit >> b.lit}[op]()
            return lit(wrap(r, t), t)
        if a.lit is not None and b.lit is not None and op in '/%' and b.lit > 0 and a.lit >= 0: return lit(a.lit // b.lit if op == '/' else a.lit % b.lit, t)
        if op in '&|^':
            def w(v):
                if v.nar: return BITS[v.nar[1]]
                if v.t.uns() and v.lit is None: return BITS[v.t.k]
                return None
            ws = [w(v) for v in (a, b)]
            def to(v, k): return str(v.lit) + k if v.lit is not None else (v.nar[0] if v.nar and v.nar[1] == k else '(%s as %s)' % (v.nar[0], k) if v.nar else v.text)
            kn = None
            if all(x is not None for x in ws): kn = max(ws)
            elif a.lit is None and ws[0] and b.lit is not None and 0 <= b.lit < 1 << ws[0]: kn = ws[0]
            elif b.lit is None and ws[1] and a.lit is not None and 0 <= a.lit < 1 << ws[1]: kn = ws[1]
            if kn and kn < BITS[t.k]:
                k = 'u%d' % kn; x = '(%s %s %s)' % (to(a, k), op, to(b, k))
                return V('(%s as %s)' % (x, t.k), t, nar=(x, k))
            return V('(%s %s %s)' % (a.text, op, b.text), t)
        if op in '+-' and t.uns():
            if b.lit == 0: return a
            if a.lit == 0 and op == '+': return b
            return V('%s.wrapping_%s(%s)' % (a.text if re.fullmatch(r'[a-z_]\w*(\.\w+)*|\(.*\)', a.text) and top(a.text) != a.text or re.fullmatch(r'[a-z_]\w*(\.\w+)*|\d+u\d+', a.text) else '(%s)' % a.text, {'+': 'add', '-': 'sub'}[op], b.text), t)
        if op == '*' and t.uns(): return V('vx_wmul%s(%s, %s)' % (t.k[1:], a.text, b.text), t)
        if op == '>>' and a.nar and b.lit is not None and b.lit < BITS[a.nar[1]]:
            x = '(%s >> %s)' % (a.nar[0], b.text)
            return V('(%s as %s)' % (x, t.k), t, nar=(x, a.nar[1]))
        if op in '/%' and a.nar and b.lit is not None and 0 < b.lit < 1 << BITS[a.nar[1]]:
            x = '(%s %s %d%s)' % (a.nar[0], op, b.lit, a.nar[1])
            return V('(%s as %s)' % (x, t.k), t, nar=(x, a.nar[1]))
        if op in ('/', '%') and not t.uns(): bad(n, 'signed division')
        if op in ('<<', '>>') and b.lit is not None:
            if not 0 <= b.lit < BITS[t.k]: bad(n, 'shift by %d' % b.lit)
            return V('(%s %s %du32)' % (a.text, op, b.lit), t) if b.lit else a
        if op in ('+', '-', '*', '/', '%', '<<', '>>'): return V('(%s %s %s)' % (a.text, op, b.text), t)
        bad(n, 'operator ' + op)
    def expr(f, n):
        k = n['kind']; I = n.get('inner', [])
        if k in ('ParenExpr', 'ConstantExpr'): return f.expr(I[0])
        t = f.m.ty(n['type'])
        if k == 'IntegerLiteral': return lit(int(n['value']), t)
        if k == 'CharacterLiteral': return lit(int(n['value']), t)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n['castKind']
            if ck == 'LValueToRValue':
                return V(f.place(I[0]), t)
            if ck in ('IntegralCast', 'IntegralToBoolean', 'NoOp'): return f.conv(f.expr(I[0]), t)
            bad(n, 'cast ' + ck)
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'): return V(f.place(n), t)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n.get('name') != 'sizeof': bad(n, n.get('name'))
            x = f.m.ty(n['argType']) if 'argType' in n else f.m.ty(f.strip(I[0])['type'])
            return lit(x.bytes(), t)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '!':
                b = '!(%s)' % top(f.truth(f.expr(I[0])))
                return V('(if %s { 1%s } else { 0%s })' % (b, t.k, t.k), t, b='(%s)' % b)
            if op == '*': return V(f.place(n), t)
            v = f.conv(f.expr(I[0]), t)
            if op == '-' and v.lit is not None: return lit(wrap(-v.lit, t), t)
            if op == '-' and t.uns(): return V('(0%s).wrapping_sub(%s)' % (t.k, v.text), t)
            if op == '~' and v.lit is not None: return lit(wrap(~v.lit, t), t)
            if op == '~' and t.uns(): return V('(!%s)' % v.text, t)
            if op == '+': return v
            bad(n, 'operator ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('&&', '||'):
                b = '(%s %s %s)' % (f.truth(f.expr(I[0])), op, f.truth(f.expr(I[1])))
                return V('(if %s { 1i32 } else { 0i32 })' % b, t, b=b)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                if f.m.ty(I[0]['type']).k == 'ptr': bad(n, 'comparison of pointers')
                a, b = f.expr(I[0]), f.expr(I[1])
                # comparing in the narrower type is the same comparison
                if a.nar and b.lit is not None and 0 <= b.lit < 1 << BITS[a.nar[1]] and a.b is None: x, y = a.nar[0], '%d%s' % (b.lit, a.nar[1])
                elif a.nar and b.nar and a.nar[1] == b.nar[1]: x, y = a.nar[0], b.nar[0]
                else: x, y = a.text, b.text
                c = '(%s %s %s)' % (x, op, y)
                return V('(if %s { 1i32 } else { 0i32 })' % c, t, b=c)
            if op in ('=', ','): bad(n, 'side effect in an expression')
            a, b = f.expr(I[0]), f.expr(I[1])
            if op in ('<<', '>>'): return f.binop(n, op, f.conv(a, t), b, t)
            return f.binop(n, op, f.conv(a, t), f.conv(b, t), t)
        if k == 'CompoundLiteralExpr': bad(n, 'compound literal')
        if k == 'ConditionalOperator':
            c = f.cond(I[0]); a, b = f.conv(f.expr(I[1]), t), f.conv(f.expr(I[2]), t)
            return V('(if %s { %s } else { %s })' % (c, a.text, b.text), t)
        if k == 'CallExpr': return V(f.call(n), t)
        bad(n, 'expression ' + k)
    def call(f, n):
        I = n['inner']; c = I[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c['kind'] != 'DeclRefExpr' or c['referencedDecl']['kind'] != 'FunctionDecl': bad(n, 'call of a pointer')
        nm = c['referencedDecl']['name']; A = I[1:]
        nm = nm.replace('__builtin___', '').replace('_chk', '') if nm.startswith('__builtin___') else nm.replace('__builtin_', '') if nm in ('__builtin_memcpy', '__builtin_memset') else nm
        if nm in ('memcpy', 'memset', 'memmove'):
            d = f.ptr(A[0])
            w = {'u8': '8', 'u32': '32', 'u64': '64'}.get(d.e.k)
            # a whole vector register to or from memory
            if nm == 'memcpy' and d.e.k == 'vec' and f.ptr(A[1]).e.k == 'u8':
                return 'vx_memcpyv_8(%s, %s, %s)' % (f.arg(A[0], T('ptr', d.e, False)), f.arg(A[1], T('ptr', T('u8'), True)), f.val(A[2], T('u64')))
            if nm == 'memcpy' and d.e.k == 'u8' and f.ptr(A[1]).e.k == 'vec':
                return 'vx_memcpy8_v(%s, %s, %s)' % (f.arg(A[0], T('ptr', d.e, False)), f.arg(A[1], T('ptr', f.ptr(A[1]).e, True)), f.val(A[2], T('u64')))
            if not w: bad(n, nm + ' of ' + d.e.k)
            dst = f.arg(A[0], T('ptr', d.e, False))
            cnt = f.val(A[2], T('u64'))
            if nm == 'memset': 
                v = f.conv(f.expr(A[1]), T('u8'))
                if w != '8' and v.lit != 0: bad(n, 'memset of words')
                return wrapn(cnt, 'vx_memset%s(%s, %s, ' % (w, dst, v.text))
            s = f.ptr(A[1])
            if d.e.k == 'u8' and s.e.k in ('u32', 'u64') and nm == 'memcpy': return wrapn(cnt, 'vx_memcpy8_%s(%s, %s, ' % (s.e.k[1:], dst, f.arg(A[1], T('ptr', s.e, True))))
            if s.e != d.e: bad(n, nm + ' between types')
            if nm == 'memmove' and s.base.split('.')[0] == d.base.split('.')[0]: bad(n, 'memmove within an object')
            return wrapn(cnt, 'vx_memcpy%s(%s, %s, ' % (w, dst, f.arg(A[1], T('ptr', s.e, True))))
        if nm == 'vx_check': return 'vx_check(%s)' % f.cond(A[0])
        if nm not in f.m.decls: bad(n, 'call of ' + nm)
        d = f.m.decls[nm]
        ps = [f.m.ty(p['type']) for p in d.get('inner', []) if p['kind'] == 'ParmVarDecl']
        if len(ps) != len(A): bad(n, 'argument count')
        f.calls.add(nm)
        mutable = any(t.k == 'ptr' and not t.x for t in ps)
        pre, args = [], []
        for x, t in zip(A, ps):
            # a vector read from (or written to) words: another function of the verifier's prelude, named by the element
            if t.k == 'ptr' and t.e.k in ('vec', 'void') and f.ptr(x).e.k in ('u32', 'u64'):
                if not nm.startswith('_mm'): bad(n, 'words passed as a vector')
                nm += '_' + f.ptr(x).e.k
            if t.k == 'ptr':
                args.append(f.arg(x, t)); continue
            v = f.conv(f.expr(x), t)
            if mutable and v.lit is None and not re.fullmatch(r'\w+', v.text):
                f.tmp += 1; pre.append('let vx_c%d: %s = %s;' % (f.tmp, t.rust(), v.text)); args.append('vx_c%d' % f.tmp)
            else: args.append(v.text)
        # offsets of pointer arguments read their operands before any writable pointer is formed
        if mutable:
            for i, a in enumerate(args):
                mm = re.fullmatch(r'(&(?:mut )?[\w.]+\[\()(.+)(\) as usize\.\.\])', a)
                if mm and not re.fullmatch(r'\w+', mm.group(2)):
                    f.tmp += 1; pre.append('let vx_c%d: u64 = %s;' % (f.tmp, mm.group(2))); args[i] = mm.group(1) + 'vx_c%d' % f.tmp + mm.group(3)
        s = '%s(%s)' % (ident(nm), ', '.join(args))
        return '{ %s %s }' % (' '.join(pre), s) if pre else s

def main():
    inp, outp = sys.argv[1:3]
    defs = [a[4:] for a in sys.argv[3:] if a.startswith('gen:')]
    defs = [d for d in defs if d != 'none']
    r = subprocess.run(['clang-18', '-std=c11', '-fsyntax-only', '-w', '-I' + STUB, *['-D%s=1' % d for d in defs], '-Xclang', '-ast-dump=json', inp], capture_output=True, text=True)
    if r.returncode: sys.exit('clang: ' + r.stderr[-800:])
    m = Mod(json.loads(r.stdout))
    out = ['// generated by cx.py from %s; do not edit\n' % os.path.basename(inp)]
    want = [a[5:] for a in sys.argv[3:] if a.startswith('root:')] or ['hasher_init', 'hasher_update', 'hasher_finalize']
    roots = [x for x in want if x in m.fns]
    if len(roots) != len(want): sys.exit('not there: %s' % ', '.join(x for x in want if x not in m.fns))
    todo, seen, text, globs, recs = list(roots), set(), {}, set(), set()
    while todo:
        nm = todo.pop(0)
        if nm in seen or nm not in m.fns: continue
        seen.add(nm)
        try:
            f = Fn(m, m.fns[nm])
            text[nm] = f.translate()
            globs |= f.used_globals
        except Bad as e:
            try: s = Fn(m, m.fns[nm]).sig()
            except Bad as e2: sys.exit('%s: %s' % (nm, e2))
            text[nm] = s + ' {\n    vx_untranslated("%s")\n}\n' % str(e).replace('"', "'")
            f = None
        def calls(n):
            if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl': todo.append(n['referencedDecl']['name'])
            for c in n.get('inner', []) or []: calls(c)
        calls(m.fns[nm])
    used = ' '.join(text.values())
    for nm, n in m.recs.items():
        if nm.replace('struct ', '') in VEC | VECPAIR: continue
        if not re.search(r'\b%s\b' % nm.replace('struct ', ''), used): 
            if not any(re.search(r'\b%s\b' % nm, json.dumps([c.get('type') for c in r.get('inner', [])])) for r in m.recs.values()) or nm.startswith('_'): continue
        try: fs = [(ident(c['name']), m.ty(c['type']).rust()) for c in n['inner'] if c['kind'] == 'FieldDecl']
        except (Bad, KeyError): continue
        out.append('pub struct %s {\n%s}\n' % (nm.replace('struct ', ''), ''.join('    pub %s: %s,\n' % x for x in fs)))
    for g in sorted(globs):
        n = m.globs[g]; t = m.ty(n['type'])
        if not n.get('init'): sys.exit('global %s without a value' % g)
        if 'const' not in n['type']['qualType']: sys.exit('global %s is writable' % g)
        h = Fn(m, dict(name='x', type=dict(qualType='void (void)'), inner=[]))
        v = h.initlist(n['inner'][0], t) if t.k == 'arr' else h.val(n['inner'][0], t)
        out.append('pub const %s: %s = %s;\n' % (g, t.rust(), v))
    order = [x for x in m.fns if x in text]
    out += [text[x] for x in order]
    open(outp, 'w').write('\n'.join(out))
main()
