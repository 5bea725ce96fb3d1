"""A value model of file streams and the file system for the interpreter, and implication between path conditions.

A stream is the value stream(path, open, mode, throws); opening, closing and testing it are functions of that value, so the
conditions under which it is used are ordinary gated values.  Uses of streams and changes of the file system are recorded as
effects with the condition under which they happen."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from vg import *
import facts as FX
FSTREAM = re.compile(r'(std::)?(__1::)?basic_(i|o)?fstream\b')
IOSTREAM = re.compile(r'(std::)?(__1::)?basic_(i|o)?(f|io)?(stream|s)\b')
def isfs(t): return bool(FSTREAM.match(base_t(t or '')))
def isios(t): return bool(re.match(r'(std::)?basic_(istream|ostream|iostream|ios)\b|(std::)?ios_base', base_t(t or '')))
def stream(path, open_, mode, exc=FALSE): return fn('stream', path, open_, mode, exc)
CLOSED = stream(string(''), FALSE, string(''))
def isstream(v): return v.op == 'fn' and v.a[0] == 'stream' or v.op == 'ite' and isstream(v.a[1]) and isstream(v.a[2])
def spart(v, i):
    if v.op == 'ite': return gite(v.a[0], spart(v.a[1], i), spart(v.a[2], i))
    return v.a[i]
def modes(t):
    return {x.a[0].split('::')[-1] for x in walk(t) if x.op == 'sym'}
USE = {'read', 'write', 'get', 'put', 'seekg', 'seekp', 'tellg', 'tellp', 'getline', 'ignore', 'peek', 'flush', 'gcount', 'rdbuf'}
FS = {'remove', 'remove_all', 'rename', 'copy', 'copy_file', 'create_directories', 'create_directory', 'resize_file', 'create_symlink'}

class World(object):
    def __init__(s, assume_params_open=True): s.n = 0; s.report = False
    def opened(s, path): return fn('opened', path)
    def ctor(s, I, cls, args, st, e):
        if not isfs(cls): return None
        if not args: return CLOSED
        return s.doopen(I, args, st, e, cls, FALSE)
    def doopen(s, I, args, st, e, cls, exc):
        m = modes(args[1]) if len(args) > 1 else set()
        w = 'ofstream' in cls or ('fstream' in cls and 'ifstream' not in cls and 'out' in m)
        kind = 'w' if w and 'app' not in m else 'a' if w else 'r'
        path = args[0]
        I.emit(st, 'open-' + kind, (path,), e)
        o = s.opened(path)
        st.thr = bor(st.thr, band(exc, bnot(o)))
        return stream(path, o, string(kind), exc)
    def sval(s, v, t):
        if isstream(v): return v
        if v is UNDEF: return CLOSED
        if isfs(t) and v.op == 'fn' and v.a[0].startswith('uninit'): return CLOSED
        return None
    def good(s, I, v, e): return band(spart(v, 2), fn('good', spart(v, 1), num((e or {}).get('ln') or 0)))
    def tobool(s, I, v, e):
        v2 = s.sval(v, (e.get('e') or e.get('b') or {}).get('t'))
        if v2 is not None: return s.good(I, v2, e)
        if v.op in ('list', 'str') or '_ptr' in ((e.get('e') or e.get('b') or {}).get('t') or '') + (e.get('n') or ''): return None
        return fn('good', v, num(e.get('ln') or 0))
    def use(s, I, v, st, e, what, unguarded=False):
        I.emit(st, 'use', (spart(v, 1), spart(v, 2), string(what)), e)
    def method(s, I, mn, b, args, e, st, this):
        t = e.get('bt') or e.get('cls') or ''
        if not (isfs(t) or isios(t) or isfs(e.get('cls')) or isstream(b)): return None
        v = s.sval(b, t)
        bn = e.get('b')
        while bn is not None and bn['k'] in ('cast', 'conv', 'rcast'): bn = bn['e']
        if v is None:      # a stream handed in from outside: opening it is the caller's business
            if mn in ('is_open',): return fn('isopen', b)
            if mn in ('good', 'eof', 'fail', 'bad'): return fn(mn, b, num(e.get('ln') or 0))
            if mn in USE or mn == 'close':
                I.emit(st, 'use?', (I.freeze(b, st), string(mn)), e)
                return s.result(I, mn, b, args, e, st, this)
            if mn == 'open' and bn is not None: I.assign(bn, s.doopen(I, args, st, e, t + (e.get('cls') or ''), FALSE), st, this); return NONE
            return NONE if mn in ('exceptions', 'clear', 'setf', 'precision', 'imbue', 'width', 'fill') else None
        if mn == 'open':
            I.assign(bn, s.doopen(I, args, st, e, t + (e.get('cls') or ''), spart(v, 4)), st, this); return NONE
        if mn == 'close':
            I.assign(bn, stream(spart(v, 1), FALSE, spart(v, 3), spart(v, 4)), st, this); return NONE
        if mn == 'is_open': return spart(v, 2)
        if mn == 'good': return s.good(I, v, e)
        if mn in ('fail', 'bad'): return bnot(s.good(I, v, e)) if mn == 'fail' else fn('bad', spart(v, 1))
        if mn == 'eof': return fn('eof', spart(v, 1), num(e.get('ln') or 0))
        if mn == 'exceptions' and args:
            I.assign(bn, stream(spart(v, 1), spart(v, 2), spart(v, 3), TRUE), st, this); return NONE
        if mn in USE:
            s.use(I, v, st, e, mn)
            return s.result(I, mn, v, args, e, st, this)
        return NONE
    def result(s, I, mn, v, args, e, st, this):
        if mn in ('read', 'get', 'getline') and e.get('a'):
            s.havoc(I, e['a'][0], st, this, e)
        return v if mn in ('read', 'write', 'getline', 'ignore', 'put', 'seekg', 'seekp', 'flush') else fn('io:' + mn, spart(v, 1) if isstream(v) else v, num(e.get('ln') or 0))
    def havoc(s, I, n, st, this, e):
        while n['k'] in ('cast', 'conv', 'rcast') or n['k'] == 'un' and n['op'] == '&': n = n['e']
        if n['k'] in ('ref', 'mem') and not n.get('const'):
            s.n += 1
            I.assign(n, fn('in', num(e.get('ln') or 0)), st, this)
    def oper(s, I, op, a, e, st, this):
        if op == '!':
            v = I.ev(a[0], st, this); v2 = s.sval(v, a[0].get('t'))
            if v2 is not None: return bnot(s.good(I, v2, e))
            if isfs(a[0].get('t')) or isios(a[0].get('t')): return bnot(fn('good', v, num(e.get('ln') or 0)))
            return None
        t = a[0].get('t')
        if not (isfs(t) or isios(t)): return None
        r = a[0]
        while r.get('k') == 'opc' and r['op'] == op or r.get('k') in ('cast', 'conv'): r = r['a'][0] if r['k'] == 'opc' else r['e']
        if 'stringstream' in (r.get('t') or ''): return None
        v = I.ev(a[0], st, this)
        if v.op in ('str', 'list') or v.op == 'fn' and v.a[0] == 'concat': return None
        v2 = s.sval(v, t)
        r = I.ev(a[1], st, this)
        if op == '>>' and a[1]['k'] in ('ref', 'mem'): s.havoc(I, a[1], st, this, e)
        if v2 is None:
            if s.report and v.op == 'sym' and v.a[0] in ('g:std::cerr', 'g:std::cout'): I.emit(st, 'report', (v, I.freeze(r, st)), e)
            if not (v.op == 'sym' and v.a[0] in ('g:std::cout', 'g:std::cerr', 'g:std::cin', 'g:std::clog')): I.emit(st, 'use?', (I.freeze(v, st), string(op)), e)
            return v
        s.use(I, v2, st, e, op)
        return v
    # ---------------------------------------------------------------- free functions
    def hooks(s):
        def fs(name):
            def f(I, e, a, st, this):
                if 'filesystem' not in (e.get('n') or '') and 'filesystem' not in (e.get('fn') or ''): return NotImplemented
                I.emit(st, name, tuple(I.freeze(x, st) for x in a), e)
                return fn('fs:' + name, *[I.freeze(x, st) for x in a])
            return f
        def q(name):
            def f(I, e, a, st, this):
                if 'filesystem' not in (e.get('n') or '') and 'filesystem' not in (e.get('fn') or ''): return NotImplemented
                return fn(name, a[0])
            return f
        def gl(I, e, a, st, this):
            v = s.sval(a[0], e['a'][0].get('t'))
            if v is None:
                if a[0].op not in ('str',): I.emit(st, 'use?', (I.freeze(a[0], st), string('getline')), e)
                if len(e['a']) > 1: s.havoc(I, e['a'][1], st, this, e)
                return a[0]
            s.use(I, v, st, e, 'getline')
            s.havoc(I, e['a'][1], st, this, e)
            return v
        H = {n: fs(n) for n in FS}
        H.update({'exists': q('exists'), 'is_directory': q('isdir'), 'is_regular_file': q('isfile'), 'canonical': q('canonical'), 'absolute': q('absolute'),
                  'file_size': q('filesize'), 'getline': gl, 'directory_iterator': q('dirlist')})
        return H

# -------------------------------------------------------------------- propositional reading of path conditions
def atoms(t, out):
    """atoms of a condition in order of first occurrence (out: list, extended)"""
    seen = set(); have = set(out)
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op in ('and', 'or', 'not'):
            for x in t.a: go(x)
        elif t.op == 'ite' and isbool(t):
            for x in t.a: go(x)
        elif t.op == 'bool': pass
        elif t.op == 'anyi': go(t.a[3])
        elif t not in have: have.add(t); out.append(t)
    go(t)
    return out
BOOLS = {}
def isbool(t):
    if t.op == 'ite':
        if t not in BOOLS: BOOLS[t] = isbool(t.a[1]) and isbool(t.a[2])
        return BOOLS[t]
    return t.op in ('and', 'or', 'not', 'bool', 'ieq', 'ilt', 'flt', 'feq', 'teq', 'anyi', 'any', 'all', 'fn')
def simp(t, m):
    """t with the atoms of m decided (m: atom -> bool)"""
    memo = {}
    def go(t):
        if t in memo: return memo[t]
        memo[t] = r = go1(t)
        return r
    def go1(t):
        if t in m: return boolean(m[t])
        if t.op == 'anyi': return go(t.a[3])
        if t.op == 'any':
            b = go(t.a[3])
            return b if b in (TRUE, FALSE) else t
        if t.op == 'and': return band(*[go(x) for x in t.a])
        if t.op == 'or': return bor(*[go(x) for x in t.a])
        if t.op == 'not': return bnot(go(t.a[0]))
        if t.op == 'ite' and isbool(t):
            c = go(t.a[0])
            return go(t.a[1]) if c is TRUE else go(t.a[2]) if c is FALSE else bor(band(c, go(t.a[1])), band(bnot(c), go(t.a[2])))
        return t
    return go(t)
def satisfiable(t, budget=None):
    """is the path condition propositionally consistent (atoms independent)?  None when too large to tell"""
    budget = budget if budget is not None else [3000]
    budget[0] -= 1
    if budget[0] < 0: return None
    if t is FALSE: return False
    if t is TRUE: return True
    t = simp(t, {})
    if t in (TRUE, FALSE): return t is TRUE
    # literals every model must contain
    unit = {}
    for x in (t.a if t.op == 'and' else (t,)):
        y, v = (x.a[0], False) if x.op == 'not' else (x, True)
        if y.op not in ('and', 'or', 'ite', 'bool', 'anyi'): unit[y] = v
    if unit:
        q = simp(t, unit)
        return satisfiable(q, budget)
    at = atoms(t, [])
    if not at: return t is not FALSE
    x = at[0]
    r = satisfiable(simp(t, {x: True}), budget)
    if r: return True
    q = satisfiable(simp(t, {x: False}), budget)
    return True if q else None if r is None or q is None else False
def implies(g, c):
    """does the path condition g entail c?  True / False / None"""
    if c.op == 'fn' and simp(g, {c: False}) is FALSE: return True
    r = satisfiable(band(g, bnot(c)))
    return None if r is None else not r
