"""Gated value graph construction over the extracted AST.

Abstract interpretation with a symbolic value domain: statements are evaluated
once, branches are joined with gates (ite), counted loops become indexed
sums/folds/maps, calls to repository functions are inlined through the resolved
callee (virtual calls through the concrete class under analysis).
"""
import re
from alg import *
import facts as FX

INT_T = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
         'char', 'signed char', 'unsigned char', 'bool', 'wchar_t', 'char16_t', 'char32_t', '__int128'}
WIDTH = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'bool': 1, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
         'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
FLT_T = {'float', 'double', 'long double'}
def targs(t):
    """template arguments"""
    if '<' not in t: return []
    out, d, cur = [], 0, ''
    for ch in t[t.index('<') + 1:t.rindex('>')]:
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        d += ch in '<(['; d -= ch in '>)]'; cur += ch
    return out + [cur.strip()]
def pointed(r):
    """the objects pointed to by a list of addresses"""
    while r.get('k') in ('cast', 'conv', 'rcast') and r.get('e'): r = r['e']
    while r.get('k') == 'ctor' and len(r.get('a') or []) == 1: r = r['a'][0]
    if r.get('k') != 'init' or not r.get('a'): return None
    xs = [x for x in r['a']]
    return [x['e'] for x in xs] if all(x.get('k') == 'un' and x.get('op') == '&' and x['e'].get('k') in ('ref', 'mem') for x in xs) else None
def lv_root(n):
    while True:
        k = n.get('k')
        if k in ('cast', 'conv', 'rcast'): n = n.get('e') or {}
        elif k == 'mem': n = n.get('b') or {}
        elif k == 'opc' and n['op'] in ('[]', '*', '->'): n = n['a'][0]
        elif k == 'sub': n = n.get('b') or n['a'][0]
        elif k == 'mcall' and n['mn'] in ('at', 'front', 'back'): n = n.get('b') or {}
        elif k == 'un' and n['op'] == '*': n = n['e']
        else: return n
MUTATORS = {'push_back', 'emplace_back', 'clear', 'insert', 'erase', 'resize', 'assign', 'pop_back', 'append', 'replace', 'emplace', 'swap', 'push_front'}
def writes_to(body, vid):
    """the body writes the variable, or an element or field of it, itself"""
    of = lambda n: isinstance(n, dict) and lv_root(n).get('id') == vid and lv_root(n).get('k') == 'ref'
    for x in FX.walk(body):
        k = x.get('k')
        if k == 'asg' and of(x['l']): return True
        if k == 'un' and x['op'] in ('++', '--') and of(x['e']): return True
        if k == 'opc' and x['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--') and of(x['a'][0]): return True
        if k == 'mcall' and x['mn'] in MUTATORS and (x.get('cls') or '').startswith('std') and of(x['b']): return True
        if k == 'rfor' and of(x['r']) and isinstance(x.get('v'), dict) and '&' in (x['v'].get('t') or '') and writes_to(x['b'], x['v']['id']): return True
    return False
def base_t(t): return (t or '').replace('const ', '').replace(' const', '').replace('&', '').strip()
def is_int(t, F=None):
    b = base_t(t)
    return b in INT_T or b.endswith('size_type') or (F is not None and b in F.enums)
def is_flt(t): return base_t(t) in FLT_T
UNDEF = T('undef')
def list_leaves(t, n=12):
    """an ite tree over constant-length lists with few leaves"""
    if t.op == 'list': return 1
    if t.op != 'ite': return 99
    x = list_leaves(t.a[1], n)
    return x + list_leaves(t.a[2], n) if x < n else 99
def num_leaves(t):
    if t.op == 'num': return 1
    if t.op != 'ite': return 99
    return num_leaves(t.a[1]) + num_leaves(t.a[2])
def pushed(b, x):
    if b.op == 'list': return T('list', b.a + (x,))
    if b.op == 'ite' and list_leaves(b) <= 12: return gite(b.a[0], pushed(b.a[1], x), pushed(b.a[2], x))
    return T('push', (b, x))
def filled(n, d):
    if n.op == 'num' and 0 <= n.a[0] <= 16: return T('list', (d,) * int(n.a[0]))
    return T('filln', (n, d))
def elem_default(cls):
    i = cls.find('<')
    et = cls[i + 1:].lstrip() if i >= 0 else ''
    h = base_t(et.split('<')[0].split(',')[0].split('>')[0])
    if h in INT_T: return FALSE if h == 'bool' else ZERO
    if h in FLT_T: return ZERO
    if 'vector' in h or 'map' in h or 'queue' in h: return T('list', ())
    if 'basic_string' in h: return string('')
    if 'stream' in h: return fn('new:' + h)
    return T('null')
def array_default(t, sizes=None):
    """value-initialised arrays of a known length (std::array<T, N>, T[N])"""
    t = base_t(t)
    m = re.match(r'^(?:std::)?array<(.*), ?(\d+)U?L?>$', t) or re.match(r'^(.*)\[(\d+)\]$', t)
    if not m or int(m.group(2)) > 1024: return None
    el = array_default(m.group(1), sizes) or class_default(m.group(1)) or elem_default('v<' + m.group(1) + '>')
    n = int(m.group(2))
    return T('list', (el,) * (sizes or {}).get(n, n))
def class_default(t):
    """value of a default-initialised member of class type; None for scalars"""
    t = base_t(t).replace('std::', '')
    if t.startswith(('shared_ptr', 'weak_ptr', 'unique_ptr')): return T('null')
    if t.startswith(('vector', 'map', 'unordered_map', 'set', 'unordered_set', 'queue', 'deque', 'list<')): return T('list', ())
    if t.startswith(('string', 'basic_string')): return string('')
    return None
def resize(b, n, d):
    if b.op == 'list' and n.op == 'num' and 0 <= n.a[0] <= 16:
        k = int(n.a[0]); return T('list', b.a[:k] + (d,) * (k - len(b.a)))
    if b.op == 'list' and not b.a: return T('filln', (n, d))
    if b.op == 'ite': return ite(b.a[0], resize(b.a[1], n, d), resize(b.a[2], n, d))
    return fn('resize', b, n, d)
def ismap(t): return re.match(r'(std::)?(__1::)?(unordered_)?map(<|$)', base_t(t or '')) is not None
def ground_key(k): return k.op in ('num', 'str', 'bool')
def amap_items(b):
    """[(key, value)] of a map whose keys are known, or None"""
    if b.op == 'amap': return [(b.a[i], b.a[i + 1]) for i in range(0, len(b.a), 2)]
    if b.op == 'list' and not b.a: return []
    return None
def amap(items, t=''):
    if 'unordered' not in (t or ''): items = sorted(items, key=lambda kv: (kv[0].op, kv[0].a[0]))
    return T('amap', tuple(x for kv in items for x in kv)) if items else T('list', ())
def amap_list(b): return T('list', tuple(fn('pair', k, v) for k, v in amap_items(b)))
def amap_set(b, k, v, t=''):
    its = amap_items(b)
    return amap([(x, y) for x, y in its if x is not k] + [(k, v)] if not any(x is k for x, _ in its) else [(x, v if x is k else y) for x, y in its], t)
def mapped_default(t):
    t = base_t(t); i = t.find('<')
    d = 0; args = ['']
    for ch in t[i + 1:]:
        if ch == '<': d += 1
        if ch == '>':
            d -= 1
            if d < 0: break
        if ch == ',' and d == 0: args.append(''); continue
        args[-1] += ch
    m = args[1].strip() if len(args) > 1 else ''
    return elem_default('x<' + m + '>') if m else T('null')
def pstore(b, v, ix):
    if b.op == 'pstore':
        jx = b.a[2:]
        if len(jx) == len(ix) and all(x is y for x, y in zip(jx, ix)): return pstore(b.a[0], v, ix)
        if len(jx) < len(ix) and all(x is y for x, y in zip(jx, ix)): return pstore(b.a[0], pstore(b.a[1], v, ix[len(jx):]), jx)
    return T('pstore', (b, v) + tuple(ix))
def pupd(b, v, binders, ix):
    if b.op == 'pstore':
        jx = b.a[2:]; bs = {x[0] for x in binders}
        if len(jx) < len(ix) and all(x is y for x, y in zip(jx, ix)) and not any(contains_term(x, q) for x in jx for q in bs):
            return pstore(b.a[0], pupd(b.a[1], v, binders, ix[len(jx):]), jx)
    return T('pupd', (b, v, len(binders)) + tuple(y for x in binders for y in x) + tuple(ix))
def loopmax(kind, init, m):
    """max/min of init and a set-maximum term"""
    if kind == 'maxf' and show(init) in ('INF*-1', 'FMAX*-1', 'FLOWEST'): return m
    if kind == 'minf' and show(init) in ('INF', 'FMAX'): return m
    return fn('max' if kind == 'maxf' else 'min', init, m)

class St(object):
    __slots__ = ('env', 'heap', 'thr', 'alias', 'eff')
    def __init__(s): s.env = {}; s.heap = {}; s.thr = FALSE; s.alias = {}; s.eff = ()
    def copy(s):
        n = St(); n.env = dict(s.env); n.heap = {o: (c, dict(f)) for o, (c, f) in s.heap.items()}
        n.thr = s.thr; n.alias = dict(s.alias); n.eff = s.eff
        return n
    def set(s, o):
        s.env = o.env; s.heap = o.heap; s.thr = o.thr; s.alias = o.alias; s.eff = o.eff

def gite(c, a, b):
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    return ite(c, a, b)
def merge(c, A, B):
    if A is None: return B
    if B is None: return A
    if c is TRUE: return A
    if c is FALSE: return B
    n = St()
    for k in A.env.keys() | B.env.keys():
        a = A.env.get(k); b = B.env.get(k)
        n.env[k] = b if a is None else a if b is None else gite(c, a, b)
    for o in A.heap.keys() | B.heap.keys():
        x = A.heap.get(o); y = B.heap.get(o)
        if x is None or y is None: n.heap[o] = y if x is None else x; continue
        f = {}
        for k in x[1].keys() | y[1].keys():
            a = x[1].get(k); b = y[1].get(k)
            f[k] = b if a is None else a if b is None else gite(c, a, b)
        n.heap[o] = (x[0], f)
    n.thr = ite(c, A.thr, B.thr)
    n.alias = dict(B.alias); n.alias.update(A.alias)
    n.eff = merge_eff(c, A.eff, B.eff)
    return n
def merge_eff(c, A, B):
    if A == B: return A
    i = 0
    while i < len(A) and i < len(B) and A[i] == B[i]: i += 1
    return A[:i] + tuple((band(c, e[0]),) + e[1:] for e in A[i:]) + tuple((band(bnot(c), e[0]),) + e[1:] for e in B[i:])
def loop_eff(nx, f):
    """effects of one iteration over all its exits; each exit is a (condition, ..., state) entry"""
    xs = [(x[0], x[-1].eff) for x in (nx, f.brk, f.ret) if x is not None]
    if not xs: return ()
    out = xs[-1][1]
    for c, e in reversed(xs[:-1]): out = merge_eff(c, e, out)
    return out

class Flow(object):
    """gated outcome of a statement: each entry (cond, val?, state)"""
    __slots__ = ('fall', 'ret', 'brk', 'cont')
    def __init__(s): s.fall = s.ret = s.brk = s.cont = None
def j2(x, y):
    """join (cond,state) pairs"""
    if x is None: return y
    if y is None: return x
    return (bor(x[0], y[0]), merge(x[0], x[1], y[1]))
def j3(x, y):
    if x is None: return y
    if y is None: return x
    return (bor(x[0], y[0]), gite(x[0], x[1], y[1]), merge(x[0], x[2], y[2]))
def under(c, x):
    if x is None: return None
    return (band(c, x[0]),) + tuple(x[1:])

class Budget(Exception): pass

class Interp(object):
    def __init__(s, F, opaque=(), max_depth=40, budget=400000, virtual_ok=True, hooks=None):
        s.max_rec = 2   # activations of one function on one object before a call is left uninterpreted
        s.bvs = []; s.max_unroll = 16; s.sizes = None; s.typed = False; s.F = F; s.n_obj = 0; s.depth = 0; s.max_depth = max_depth; s.budget = budget; s.steps = 0
        s.opaque_fns = set(opaque); s.clos = {}; s.unk = []; s.home = {}; s.stack = []; s.inlined = set(); s.hooks = hooks or {}
        s.loc = None; s.world = None; s.watch = None; s.handlers = False   # handlers: model what catch clauses do (otherwise a throw leaves the function)
    # ------------------------------------------------------------ helpers
    def emit(s, st, kind, args, node):
        """record an effect with the condition (relative to the current path) under which it happens"""
        st.eff = st.eff + ((bnot(st.thr), kind, tuple(args), (s.loc['path'] if s.loc else None, (node or {}).get('ln'))),)
    def write_iter(s, iv, v, n, st, this):
        """*it = v: the element of the container the iterator was obtained from"""
        box = iv.a[1] if iv.a[0] != 'sfind' else iv.a[2] if len(iv.a) > 2 else None
        h = s.home.get(box.id) if box is not None else None
        cur = s.ev(h[1], st, h[2]) if h is not None and h[1] is not None and h[1]['k'] in ('ref', 'mem') else None
        if cur is None or (cur is not box and not (amap_items(cur) is not None and amap_list(cur) is box)):
            s.unknown('write through an iterator', n); return
        if iv.a[0] == 'sfind': new, it = pstore(cur, v.a[2] if v.op == 'fn' and v.a[0] == 'pair' else s.getf(v, 'second', st), (iv.a[3],)), None
        else:
            ix = iv.a[2] if iv.a[0] == 'iter' else sub(s.size(box), add(iv.a[2], ONE))
            if cur.op == 'amap':
                if ix.op != 'num' or not 0 <= ix.a[0] < len(box.a) or not (v.op == 'fn' and v.a[0] == 'pair'): s.unknown('write through an iterator', n); return
                new = amap_set(cur, box.a[int(ix.a[0])].a[1], v.a[2]); nb = amap_list(new)
            elif cur.op == 'list':
                if ix.op != 'num' or not 0 <= ix.a[0] < len(cur.a): s.unknown('write through an iterator', n); return
                l = list(cur.a); l[int(ix.a[0])] = v; new = nb = T('list', tuple(l))
            else: new = nb = pstore(cur, v, (ix,))
            s.home[nb.id] = (nb, h[1], h[2]); it = fn(iv.a[0], nb, iv.a[2])
        s.assign(h[1], new, st, h[2])
        if n['a'][0]['k'] == 'ref': s.assign(n['a'][0], it if it is not None else fn('sfind', TRUE, new, iv.a[3]), st, this)
        if it is None: s.home[new.id] = (new, h[1], h[2])
    def unknown(s, why, node=None, *args):
        s.unk.append((why, (node or {}).get('ln')))
        return fn('?' + why, *args)
    def new_obj(s, cls, st):
        s.n_obj += 1
        o = s.n_obj
        st.heap[o] = (cls, {})
        return T('ref', (o,))
    def freeze(s, t, st, up=()):
        """replace heap refs by structural terms; a reference back to an enclosing object names how far up it is"""
        if t.op == 'ref':
            if t in up: return fn('enclosing', num(up.index(t)))
            if len(up) > 12: return fn('obj?')
            c, f = st.heap.get(t.a[0], ('?', {}))
            return T('obj', (c,) + tuple(x for k in sorted(f) for x in (k, s.freeze(f[k], st, (t,) + up))))
        if not any(isinstance(x, T) for x in t.a): return t
        if not any(y.op == 'ref' for y in walk(t)): return t
        return rebuild(t.op, [s.freeze(x, st, up) if isinstance(x, T) else x for x in t.a])
    def ground(s, t, st):
        """evaluate remaining operations on frozen/ref tensors inside t"""
        return s.freeze(t, st)
    def getf(s, o, f, st, node=None):
        if o.op == 'ref':
            c, d = st.heap[o.a[0]]
            if f in d: return d[f]
            return fn('uninit:' + f, o)
        if o.op == 'ite': return gite(o.a[0], s.getf(o.a[1], f, st), s.getf(o.a[2], f, st))
        if o is UNDEF: return UNDEF
        if o.op == 'obj':
            a = o.a
            for i in range(1, len(a), 2):
                if a[i] == f: return a[i + 1]
        if o.op == 'fn' and o.a[0] == 'pair' and f in ('first', 'second'): return o.a[1 if f == 'first' else 2]
        return fn('.' + f, o)
    def setf(s, o, f, v, st):
        if o.op == 'ref':
            if o.a[0] in st.heap: st.heap[o.a[0]][1][f] = v
            return True
        if o.op == 'ite':
            a, b = o.a[1], o.a[2]
            ok = True
            for side, c in ((a, o.a[0]), (b, bnot(o.a[0]))):
                if side.op == 'ref': s.setf(side, f, gite(c, v, s.getf(side, f, st)), st)
                else: ok = False
            return ok
        return False
    # ------------------------------------------------------------ containers
    def size(s, c):
        o = c.op
        if o == 'list': return num(len(c.a))
        if o == 'amap': return num(len(c.a) // 2)
        if o == 'push': return add(s.size(c.a[0]), ONE)
        if o == 'cat': return add(*[s.size(x) for x in c.a])
        if o == 'map': return fn('imax', ZERO, sub(c.a[2], c.a[1])) if not (c.a[1] is ZERO) else c.a[2]
        if o == 'ite': return ite(c.a[0], s.size(c.a[1]), s.size(c.a[2]))
        if o in ('pstore', 'pupd') and c.a[0].op == 'list' and not c.a[0].a: return fn('size', c)  # entries of a map
        if o in ('pstore', 'pupd'): return s.size(c.a[0])
        if o == 'fn' and c.a[0] == 'resize' and len(c.a) > 2: return c.a[2]
        if o == 'str': return num(len(c.a[0]))
        if o == 'filln': return c.a[0]
        if o == 'fn' and c.a[0] == 'pair': return num(2)
        if o == 'fn' and c.a[0] == 'at':
            x, ix = s.chain(c)
            if x.op in ('pstore', 'pupd'):
                jx = x.a[2:] if x.op == 'pstore' else x.a[3 + 3 * x.a[2]:]
                if len(jx) > len(ix): return s.size(s.at(x.a[0], *ix))
        return fn('size', c)
    def chain(s, c):
        ix = []
        while c.op == 'fn' and c.a[0] == 'at': ix.append(c.a[2]); c = c.a[1]
        return c, ix[::-1]
    def at(s, c, *path):
        if not path: return c
        if c.op == 'fn' and c.a[0] == 'at':
            x, ix = s.chain(c)
            if x.op in ('pstore', 'pupd'):
                jx = x.a[2:] if x.op == 'pstore' else x.a[3 + 3 * x.a[2]:]
                if len(jx) > len(ix): return s.at(x, *(tuple(ix) + path))
        i = path[0]
        o = c.op
        if o == 'undef': return UNDEF
        if o == 'ite': return gite(c.a[0], s.at(c.a[1], *path), s.at(c.a[2], *path))
        if o == 'amap' and ground_key(i):
            for k, v in amap_items(c):
                if k is i: return s.at(v, *path[1:])
        if o == 'list':
            if i.op == 'num' and 0 <= i.a[0] < len(c.a): return s.at(c.a[int(i.a[0])], *path[1:])
            if i.op == 'ite' and num_leaves(i) <= 8: return gite(i.a[0], s.at(c, i.a[1], *path[1:]), s.at(c, i.a[2], *path[1:]))
            if len(c.a) and len(c.a) <= 40 and i.op != 'num':
                r = fn('at', c, i)
                return s.at(r, *path[1:]) if len(path) > 1 else r
        if o == 'push':
            n = s.size(c.a[0])
            e = eq(i, n, 'i')
            return gite(e, s.at(c.a[1], *path[1:]), s.at(c.a[0], *path)) if e is not TRUE else s.at(c.a[1], *path[1:])
        if o == 'cat':
            if len(c.a) == 2:
                n = s.size(c.a[0])
                if n is ZERO: return s.at(c.a[1], *path)
                return gite(lt(i, n, True), s.at(c.a[0], *path), s.at(c.a[1], sub(i, n), *path[1:]))
        if o == 'map': return s.at(map_at(c, i), *path[1:])
        if o == 'filln': return s.at(c.a[1], *path[1:])
        if o == 'pstore':
            base, val = c.a[0], c.a[1]; ix = c.a[2:]
            if len(path) >= len(ix):
                g = band(*[eq(p, q, 'i' if p.op != 'str' and q.op != 'str' else 't') for p, q in zip(path, ix)])
                return gite(g, s.at(val, *path[len(ix):]), s.at(base, *path))
            g = band(*[eq(p, q, 'i') for p, q in zip(path, ix)])
            return gite(g, pstore(s.at(base, *path), val, tuple(ix[len(path):])), s.at(base, *path))
        if o == 'pupd':
            base, val, nb = c.a[0], c.a[1], c.a[2]
            binders = [(c.a[3 + 3 * k], c.a[4 + 3 * k], c.a[5 + 3 * k]) for k in range(nb)]
            ix = c.a[3 + 3 * nb:]
            if len(path) >= len(ix):
                g = []; m = {}
                bt = {b: (lo, hi) for b, lo, hi in binders}
                ok = True
                for p, q in zip(path, ix):
                    if q in bt and q not in m:
                        m[q] = p
                    elif not any(contains_term(q, b) for b in bt): g.append(eq(p, q, 'i'))
                    elif q.op == 'add' and len(q.a) == 2 and any(x in bt and x not in m for x in q.a):
                        x = [y for y in q.a if y in bt and y not in m][0]; rest = [y for y in q.a if y is not x][0]
                        if any(contains_term(rest, b) for b in bt): ok = False; break
                        m[x] = sub(p, rest)
                    else: ok = False; break
                if ok and len(m) == len(bt):
                    for b, (lo, hi) in bt.items():
                        lo2, hi2 = subst(lo, m), subst(hi, m)
                        g += [le(lo2, m[b], True), lt(m[b], hi2, True)]
                    return gite(band(*g), s.at(subst(val, m), *path[len(ix):]), s.at(base, *path))
        r = c
        for i in path: r = fn('at', r, i)
        return r
    # ------------------------------------------------------------ tensors
    TENS = {'getValue': 'val', 'rowCount': 'rows', 'columnCount': 'cols', 'channelCount': 'chans'}
    # ------------------------------------------------------------ calls
    def construct(s, cls, args, st, ctor=None, node=None):
        """new object of repo class cls built with args (terms)"""
        F = s.F
        o = s.new_obj(cls, st)
        s.run_ctor(o, cls, ctor, args, st, node)
        return o
    def run_ctor(s, o, cls, ctor, args, st, node=None, derived_cls=None):
        F = s.F
        if ctor is None or ctor not in F.fns or F.fns[ctor].get('body') is None:
            f = None
            if ctor is None or ctor not in F.fns:
                cands = [c for c in F.ctors(cls) if len(c['params']) == len(args)]
                if ctor is not None and F.rec.get(cls):
                    cands = cands if not args else []
                if len(cands) == 1: f = cands[0]
            if f is None:
                # implicit ctor / aggregate
                rec = F.rec.get(cls, {})
                s.default_members(o, cls, st, ())
                for fl in rec.get('fields', []):
                    if fl.get('i') is not None: s.setf(o, fl['n'], s.ev(fl['i'], st, o), st)
                    elif 'init' in fl and fl['init'] is not None: s.setf(o, fl['n'], s.ev(fl['init'], st, o), st)
                flds = rec.get('fields', [])
                if args and len(args) <= len(flds):
                    for fl, a in zip(flds, args): s.setf(o, fl['n'], a, st)
                for b in rec.get('bases', []):
                    if b in F.rec: s.run_ctor(o, b, None, [], st)
                return
        else: f = F.fns[ctor]
        if s.depth > s.max_depth: s.unknown('depth', node); return
        s.depth += 1
        s.inlined.add(f['id'])
        saved = {p['id']: st.env.get(p['id']) for p in f['params']}
        sal = {p['id']: st.alias.pop(p['id'], None) for p in f['params']}
        for p, a in zip(f['params'], args): st.env[p['id']] = a
        for p in f['params'][len(args):]:
            if p.get('d') is not None: st.env[p['id']] = s.ev(p['d'], st, o)
        # default member initialisers first, then ctor inits override
        rec = F.rec.get(cls, {})
        inits = f.get('inits') or []
        named = {i.get('f') for i in inits}
        deleg = any(i.get('deleg') for i in inits)
        based = {i.get('base') for i in inits}
        if not deleg:
            for b in rec.get('bases', []):
                if b in F.rec and b not in based: s.run_ctor(o, b, None, [], st)
        if not deleg: s.default_members(o, cls, st, named)
        for i in inits:
            if i.get('base') or i.get('deleg'):
                c = i['i']
                if c and c['k'] == 'ctor':
                    a = [s.ev(x, st, o) for x in c['a']]
                    if (i.get('base') or cls) in F.rec: s.run_ctor(o, i.get('base') or cls, c.get('fn'), a, st, c)
            else:
                s.setf(o, i['f'], s.ev(i['i'], st, o), st) if i.get('i') else None
        if not deleg:
            for fl in rec.get('fields', []):
                if fl['n'] not in named and fl.get('i') is not None: s.setf(o, fl['n'], s.ev(fl['i'], st, o), st)
        ol = s.loc; s.loc = f
        fl = s.ex(f['body'], st, o)
        s.finish(fl, st)
        s.loc = ol
        for k, v in saved.items():
            if v is not None: st.env[k] = v
        for k, v in sal.items():
            if v is not None: st.alias[k] = v
        s.depth -= 1
    def default_members(s, o, cls, st, named):
        if o.op != 'ref' or o.a[0] not in st.heap: return
        for fl in s.F.rec.get(cls, {}).get('fields', []):
            if fl['n'] not in named and fl.get('i') is None and fl['n'] not in st.heap[o.a[0]][1]:
                v = class_default(fl['t'])
                if v is not None: s.setf(o, fl['n'], v, st)
    def finish(s, fl, st):
        """merge function exits into st, return value"""
        r = fl.ret
        if r is None:
            if fl.fall: st.set(fl.fall[1])
            return NONE
        if fl.fall is None:
            st.set(r[2]); return r[1]
        st.set(merge(r[0], r[2], fl.fall[1]))
        return r[1]
    def inline(s, f, this, args, st, node=None, argnodes=None, thisnode=None):
        if s.depth > s.max_depth or s.stack.count((f["id"], this)) >= s.max_rec:
            return s.unknown('recursion:' + f['mn'], node, *([this] if this is not None else []) + list(args))
        s.steps += 1
        if s.steps > s.budget: raise Budget()
        loc = None
        if any(x[0] == f['id'] for x in s.stack):   # re-entered: the outer activation keeps its own locals
            loc = {k: (st.env.get(k), st.alias.get(k)) for k in s.locals_of(f)}
        s.depth += 1; s.stack.append((f['id'], this)); s.inlined.add(f['id'])
        saved = {p['id']: st.env.get(p['id']) for p in f['params']}
        sal = {p['id']: st.alias.pop(p['id'], None) for p in f['params']}
        for p, a in zip(f['params'], args): st.env[p['id']] = a
        for p in f['params'][len(args):]:
            if p.get('d') is not None: st.env[p['id']] = s.ev(p['d'], st, this)
        ol = s.loc; s.loc = f
        fl = s.ex(f['body'], st, this)
        v = s.finish(fl, st)
        s.loc = ol
        outs = []
        for i, p in enumerate(f['params']):
            t = p['t']
            if '&' in t and 'const' not in t.split('<')[0] and '&&' not in t and i < len(args):
                nv = st.env.get(p['id'])
                if nv is not None and nv is not args[i] and argnodes is not None: outs.append((argnodes[i], nv))
        for k, x in saved.items():
            if x is not None: st.env[k] = x
        for k, x in sal.items():
            if x is not None: st.alias[k] = x
            else: st.alias.pop(k, None)
        if loc is not None:
            for k, (x, al) in loc.items():
                if x is not None: st.env[k] = x
                if al is not None: st.alias[k] = al
                else: st.alias.pop(k, None)
        s.depth -= 1; s.stack.pop()
        return v, outs
    def locals_of(s, f):
        m = s.__dict__.setdefault('_loc', {})
        if f['id'] in m: return m[f['id']]
        out = set()
        for x in FX.walk(f['body']):
            ds = x['a'] if x['k'] == 'decl' else [x['v']] if x['k'] == 'rfor' and isinstance(x.get('v'), dict) else []
            for d in ds:
                out.add(d['id'])
                for b in d.get('binds') or []: out.add(b['id'] if isinstance(b, dict) else b)
        m[f['id']] = out
        return out
    def call(s, f, this, args, st):
        """public: run function f; returns value"""
        r = s.inline(f, this, args, st)
        return r[0] if isinstance(r, tuple) else r
    def method(s, obj, name, args, st, cls=None):
        cls = cls or (st.heap[obj.a[0]][0] if obj.op == 'ref' else None)
        if cls is None:
            if obj.op == 'ite': return gite(obj.a[0], s.method(obj.a[1], name, args, st), s.method(obj.a[2], name, args, st))
            if name in s.TENS: return fn(s.TENS[name], obj, *args)
            return fn('m:' + name, obj, *args)
        f = s.F.method(cls, name, len(args))
        if f is None: raise KeyError('%s::%s/%d' % (cls, name, len(args)))
        return s.call(f, obj, args, st)
    # ------------------------------------------------------------ expressions
    def ev(s, e, st, this):
        if e is None: return NONE
        s.steps += 1
        if s.steps > s.budget: raise Budget()
        return getattr(s, 'e_' + e['k'], s.e_unknown)(e, st, this)
    def e_unknown(s, e, st, this): return s.unknown('expr:' + e['k'], e)
    def e_x(s, e, st, this):
        for c in e.get('a', []): s.ev(c, st, this)
        return s.unknown('expr:x:' + str(e.get('cls')), e)
    def e_int(s, e, st, this): return num(int(e['v']))
    def e_flt(s, e, st, this):
        try: return fnum(e['v'])
        except Exception: return sym('flt:' + str(e['v']))
    def e_bool(s, e, st, this): return boolean(e['v'] in (True, 'true', 1))
    def e_str(s, e, st, this): return string(e['v'])
    def e_chr(s, e, st, this):
        v = e['v']
        return num(v if isinstance(v, int) else int(v) if str(v).lstrip('-').isdigit() else ord(v))
    def e_null(s, e, st, this): return T('null')
    def e_this(s, e, st, this): return this if this is not None else sym('this')
    def e_ref(s, e, st, this):
        if e['dk'] == 'enum' : return s.enumval(e)
        eid = e.get('id')
        if eid is None: return sym('g:' + (e.get('q') or e.get('n') or '?'))
        if e['id'] in st.alias:
            an, ath = st.alias[e['id']]
            if an['k'] != 'ref' or an['id'] != e['id']: return s.ev(an, st, ath)
        if e['id'] in st.env: return st.env[e['id']]
        if e['dk'] in ('global', 'static', 'fn'):
            g = s.F.globals.get(e['id']) if hasattr(s.F, 'globals') else None
            return sym('g:' + (e.get('q') or e['n']))
        return sym('v:%s' % e['n'])
    def enumval(s, e):
        q = e.get('q') or e['n']
        for en in s.F.enums.values():
            for v in en['vals']:
                if v['q'] == q or v['q'].split('::')[-1] == q.split('::')[-1] and v['q'].endswith(e['n']):
                    return num(v['v'])
        return sym('enum:' + q)
    def e_mem(s, e, st, this):
        b = s.ev(e['b'], st, this)
        return s.getf(b, e['n'], st, e)
    def e_memfn(s, e, st, this): return s.unknown('memfn', e)
    def e_cast(s, e, st, this):
        v = s.ev(e['e'], st, this)
        to, fr = base_t(e['to']), base_t(e['from'])
        if v.op == 'num':
            if to in INT_T and to != 'bool':
                q = v.a[0]; q = Fraction(int(q))
                w = WIDTH.get(to, 64)
                if to.startswith('unsigned') : q = q % (1 << w)
                elif w <= 64 and to not in ('bool',):
                    q = q % (1 << w)
                    if q >= (1 << (w - 1)): q -= (1 << w)
                return num(q)
            if to == 'bool': return boolean(v.a[0] != 0)
            return v
        if v.op == 'bool':
            if to == 'bool': return v
            return num(1 if v.a[0] else 0)
        if to in FLT_T: return ite(v, ONE, ZERO) if fr == 'bool' else fn('itof', v) if s.typed and fr in INT_T else v
        if to == 'bool':
            if fr == 'bool': return v
            return bnot(eq(v, ZERO, 'i' if is_int(fr) else 'f'))
        if fr in FLT_T and to in INT_T:
            if v.op == 'fn' and v.a[0] in ('floor', 'ceil', 'round'): return v
            return fn('trunc', v)
        if fr == 'bool': return ite(v, ONE, ZERO)
        wt, wf = WIDTH.get(to, 64), WIDTH.get(fr, 64)
        if wt < wf and (wt < 32 or (s.typed and not (v.op == 'num' and abs(v.a[0]) < 2**31))): return fn('narrow%d%s' % (wt, 'u' if to.startswith('unsigned') else 's'), v)
        if to == 'unsigned char' and fr in ('char', 'signed char'): return fn('tou8', v)
        return v
    def e_rcast(s, e, st, this): return s.ev(e['e'], st, this)
    def e_voidcast(s, e, st, this):
        s.ev(e['e'], st, this); return NONE
    def e_conv(s, e, st, this):
        if s.world is not None and 'operator bool' in (e.get('n') or ''):
            x = s.world.tobool(s, s.ev(e.get('e') or e.get('b'), st, this), e)
            if x is not None: return x
        o = e.get('e') or e.get('b') or (e.get('a') or [None])[0]
        v = s.ev(o, st, this)
        if 'operator bool' in (e.get('n') or '') and v.op in ('sym', 'fn', 'ite') and re.match(r'(const )?(std::)?(__)?(shared|unique)_ptr<', base_t(o.get('t') or '')):
            z = s.isnull(v)
            return v if z is UNDEF else bnot(z)
        return v
    def e_bin(s, e, st, this):
        op = e['op']
        if op == ',':
            s.ev(e['l'], st, this); return s.ev(e['r'], st, this)
        if op in ('&&', '||'):
            l = s.ev(e['l'], st, this)
            l = s.tobool(l)
            if op == '&&' and l is FALSE: return FALSE
            if op == '||' and l is TRUE: return TRUE
            c = st.copy()
            r = s.tobool(s.ev(e['r'], c, this))
            st.set(merge(l, c, st) if op == '&&' else merge(l, st, c))
            return band(l, r) if op == '&&' else bor(l, r)
        l = s.ev(e['l'], st, this); r = s.ev(e['r'], st, this)
        return s.arith(op, l, r, e['l'].get('t'), e['r'].get('t'), e.get('t'), e)
    def tobool(s, v):
        if v.op == 'fn' and v.a[0][:2] == 't!' or v.op == 'ref': return TRUE
        if v.op == 'null': return FALSE
        if v.op in ('num',): return boolean(v.a[0] != 0)
        if v.op == 'ite':
            x, y = s.tobool(v.a[1]), s.tobool(v.a[2])
            if x is not v.a[1] or y is not v.a[2]: return bor(band(v.a[0], x), band(bnot(v.a[0]), y))
        return v
    def lift2(s, f, l, r):
        return f(l, r)
    def arith(s, op, l, r, lt_, rt_, t, e=None):
        if l is UNDEF or r is UNDEF: return UNDEF
        I = not (is_flt(lt_) or is_flt(rt_))
        enumish = False
        if op in ('==', '!='):
            if l.op == 'null' or r.op == 'null':
                o = r if l.op == 'null' else l
                c = s.isnull(o)
            elif l.op == 'ref' or r.op == 'ref':
                c = s.refeq(l, r)
            else:
                kind = 'f' if not I else ('i' if (is_int(lt_, s.F) or lt_ is None) else 't')
                c = eq(l, r, kind)
            return c if op == '==' else bnot(c)
        if op == '+': return add(l, r)
        if op == '-': return sub(l, r)
        if op == '*': return mul(l, r)
        if op == '/': return idiv(l, r) if (is_int(lt_) and is_int(rt_)) else div(l, r)
        if op == '%': return mod(l, r)
        if op == '<': return lt(l, r, I)
        if op == '>': return lt(r, l, I)
        if op == '<=': return le(l, r, I)
        if op == '>=': return le(r, l, I)
        if op in ('&', '|', '^', '<<', '>>'):
            if l.op == 'num' and r.op == 'num':
                a, b = int(l.a[0]), int(r.a[0])
                return num({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
            if op in ('&', '|', '^') and l.id > r.id: l, r = r, l
            return fn('bit' + op, l, r)
        return s.unknown('binop' + op, e, l, r)
    def refeq(s, l, r):
        if l.op == 'ite': return ite(l.a[0], s.refeq(l.a[1], r), s.refeq(l.a[2], r))
        if r.op == 'ite': return ite(r.a[0], s.refeq(l, r.a[1]), s.refeq(l, r.a[2]))
        if l is r: return TRUE
        if l.op == 'ref' and r.op in ('ref', 'sym', 'null') or r.op == 'ref' and l.op in ('sym', 'null'): return FALSE
        for x, y in ((l, r), (r, l)):   # t!name: a tensor that exists
            if x.op == 'fn' and x.a[0][:2] == 't!' and (y.op in ('null', 'ref') or y.op == 'fn' and y.a[0][:2] == 't!'): return FALSE
        return eq(l, r, 't')
    def isnull(s, o):
        if o.op == 'null': return TRUE
        if o.op == 'ref' or o.op == 'fn' and o.a[0][:2] == 't!': return FALSE
        if o.op == 'ite': return ite(o.a[0], s.isnull(o.a[1]), s.isnull(o.a[2]))
        if o is UNDEF: return UNDEF
        return eq(o, T('null'), 't')
    def e_asg(s, e, st, this):
        op = e['op']
        r = s.ev(e['r'], st, this)
        if op != '=':
            l = s.ev(e['l'], st, this)
            lt_ = e['l'].get('t'); ct = e.get('ct')
            r = s.arith(op[:-1], l, r, ct or lt_, e['r'].get('t') if not ct else ct, lt_, e)
            if ct and is_flt(ct) and is_int(lt_): r = fn('trunc', r)
        s.assign(e['l'], r, st, this)
        return r
    def assign(s, n, v, st, this):
        k = n['k']
        if k == 'ref':
            if n.get('id') is None: return
            if n['id'] in st.alias:
                an, ath = st.alias[n['id']]
                if an['k'] != 'ref' or an['id'] != n['id']:
                    s.assign(an, v, st, ath); return
            st.env[n['id']] = v; return
        if k == 'mem':
            b = s.ev(n['b'], st, this)
            if b.op == 'fn' and b.a[0] == 'pair' and n['n'] in ('first', 'second'): s.assign(n['b'], fn('pair', v, b.a[2]) if n['n'] == 'first' else fn('pair', b.a[1], v), st, this); return
            if not s.setf(b, n['n'], v, st):
                # value-struct stored in a container or symbolic object: functional update
                bt = n['b']
                if bt['k'] in ('ref', 'mem', 'opc', 'mcall') and b.op != 'ref' and this is not b:
                    s.assign(bt, T('upd.' + n['n'], (b, v)), st, this)
                else: s.unknown('store.' + n['n'], n)
            return
        if k in ('opc', 'mcall', 'sub'):
            isidx = (k == 'opc' and n['op'] == '[]') or (k == 'mcall' and n['mn'] == 'at') or k == 'sub'
            if isidx:
                bn = n['a'][0] if k == 'opc' else n.get('b') if k == 'mcall' else (n.get('b') or n['a'][0])
                ixn = n['a'][1] if k == 'opc' else n['a'][0] if k == 'mcall' else (n.get('i') or n['a'][1])
                ix = s.ev(ixn, st, this)
                b = s.ev(bn, st, this)
                if ismap(bn.get('t')) and ground_key(ix) and amap_items(b) is not None: nv = amap_set(b, ix, v, bn.get('t'))
                elif v.op == 'pstore' and v.a[0].op == 'fn' and v.a[0].a[0] == 'at' and v.a[0].a[1] is b and v.a[0].a[2] is ix:
                    nv = pstore(b, v.a[1], (ix,) + tuple(v.a[2:]))
                elif b.op == 'list' and ix.op == 'num' and 0 <= ix.a[0] < len(b.a):
                    l = list(b.a); l[int(ix.a[0])] = v; nv = T('list', l)
                elif ix.op == 'ite' and num_leaves(ix) <= 8 and b.op == 'list':
                    def put(q):
                        if q.op == 'ite': return gite(q.a[0], put(q.a[1]), put(q.a[2]))
                        l = list(b.a)
                        if 0 <= q.a[0] < len(l): l[int(q.a[0])] = v
                        return T('list', l)
                    nv = put(ix)
                else:
                    # v may be pstore over something equal to at(b,ix)
                    if v.op == 'pstore' and v.a[0] is s.at(b, ix): nv = pstore(b, v.a[1], (ix,) + tuple(v.a[2:]))
                    else: nv = pstore(b, v, (ix,))
                s.assign(bn, nv, st, this)
                return
            if k == 'opc' and n['op'] in ('*', '->'):
                iv = s.ev(n['a'][0], st, this)
                if iv.op == 'fn' and (iv.a[0] in ('iter', 'riter') or iv.a[0] == 'sfind'): s.write_iter(iv, v, n, st, this); return
                s.assign(n['a'][0], v, st, this); return
            if k == 'mcall' and n['mn'] in ('back', 'front'):
                b = s.ev(n['b'], st, this)
                ix = ZERO if n['mn'] == 'front' else sub(s.size(b), ONE)
                s.assign(n['b'], pstore(b, v, (ix,)), st, this); return
        if k == 'un' and n['op'] == '*': s.assign(n['e'], v, st, this); return
        if k in ('cast', 'conv', 'rcast'): s.assign(n['e'], v, st, this); return
        if k == 'cond':
            c = s.tobool(s.ev(n['c'], st, this))
            A = st.copy(); B = st.copy()
            s.assign(n['a'], v, A, this); s.assign(n['b'], v, B, this)
            st.set(merge(c, A, B)); return
        s.unknown('assign:' + k, n)
    def e_un(s, e, st, this):
        op = e['op']
        if op in ('++', '--'):
            v = s.ev(e['e'], st, this)
            n = add(v, ONE if op == '++' else num(-1))
            s.assign(e['e'], n, st, this)
            return v if e.get('post') else n
        v = s.ev(e['e'], st, this)
        if op == '-': return neg(v)
        if op == '+': return v
        if op == '!': return bnot(s.tobool(v))
        if op in ('*', '&'): return v
        if op == '~': return fn('bitnot', v)
        return s.unknown('unop' + op, e, v)
    def e_cond(s, e, st, this):
        c = s.tobool(s.ev(e['c'], st, this))
        if c is TRUE: return s.ev(e['a'], st, this)
        if c is FALSE: return s.ev(e['b'], st, this)
        A = st.copy(); B = st.copy()
        a = s.ev(e['a'], A, this); b = s.ev(e['b'], B, this)
        st.set(merge(c, A, B))
        return gite(c, a, b)
    def e_sub(s, e, st, this):
        b = s.ev(e.get('b') or e['a'][0], st, this); i = s.ev(e.get('i') or e['a'][1], st, this)
        return s.at(b, i)
    def e_init(s, e, st, this):
        t = e.get('t') or ''; a = e.get('a', [])
        if t.startswith('std::array<') and (not a or len(a) == 1 and (a[0].get('t') or '').endswith(']')):
            return s.ev(a[0], st, this) if a else array_default(t, s.sizes) or T('list', ())
        d = array_default(t, s.sizes) if t.endswith(']') else None
        if d is not None: return T('list', tuple(s.ev(x, st, this) for x in a) + d.a[len(a):])
        return T('list', [s.ev(x, st, this) for x in a])
    def e_sizeof(s, e, st, this): return num(int(e['v'])) if str(e.get('v', '')).isdigit() else sym('sizeof')
    def e_new(s, e, st, this):
        c = e.get('i') or (e.get('a') or [None])[0]
        return s.ev(c, st, this) if c else s.unknown('new', e)
    def e_throw(s, e, st, this):
        st.thr = TRUE
        return UNDEF
    def e_lambda(s, e, st, this):
        t = T('clo', (len(s.clos),))
        s.clos[t] = (e, this, {c.get('id'): None for c in e.get('caps', []) if isinstance(c, dict)})
        return t
    def e_ctor(s, e, st, this):
        cls = e['cls']
        args = [s.ev(x, st, this) for x in e['a']]
        if cls in s.F.rec:
            if len(args) == 1 and args[0].op == 'ref' and st.heap.get(args[0].a[0], ('',))[0] == cls: return args[0]
            if cls in s.hooks: return s.hooks[cls](s, e, args, st, this)
            return s.construct(cls, args, st, e.get('fn'), e)
        return s.std_ctor(cls, e, args, st)
    def std_ctor(s, cls, e, args, st):
        c = cls.split('<')[0]
        if s.world is not None:
            x = s.world.ctor(s, c, args, st, e)
            if x is not None: return x
        if c == 'std::initializer_list' and not args: return T('list', ())
        if c in ('std::vector', 'std::map', 'std::unordered_map', 'std::unordered_set', 'std::set', 'std::queue', 'std::deque', 'std::stack', 'std::list', 'std::array', 'std::multiset'):
            if not args: return T('list', ())
            if len(args) == 1 and args[0].op in ('list',): return args[0]
            if c == 'std::vector':
                at = [base_t(x.get('t')) for x in e['a']]
                if is_int(at[0]):
                    et = cls[cls.index('<') + 1:cls.rindex('>')].split(',')[0].strip() if '<' in cls else ''
                    d = args[1] if len(args) > 1 and not re.match(r'(std::)?allocator|.*allocator_type$', at[1].strip()) else elem_default(e.get('t') if '<' in (e.get('t') or '') else cls)
                    return filled(args[0], d)
                if len(args) >= 2:
                    r = s.iter_range(args[0], args[1])
                    if r is not None: return r
            if len(args) == 1: return args[0]
            return s.unknown('ctor:' + c, e, *args)
        if c in ('std::basic_string', 'std::__cxx11::basic_string', 'std::string'):
            if not args: return string('')
            if len(args) == 1: return args[0]
            r = s.iter_range(args[0], args[1])
            if r is not None: return r
            return fn('strctor', *args)
        if c == 'std::pair' and not args:
            ts = targs((e or {}).get('t') or cls)
            if len(ts) == 2: return fn('pair', *[elem_default('v<' + t) for t in ts])
        if c == 'std::pair' and len(args) == 2: return fn('pair', *args)
        if c in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::function', 'std::optional'):
            return args[0] if args else T('null')
        if c == 'std::tuple': return fn('tuple', *args)
        if len(args) == 1: return args[0]
        return fn('new:' + c, *args)
    def iter_range(s, a, b):
        if a.op == 'fn' and b.op == 'fn' and a.a[0] == 'iter' and b.a[0] == 'iter' and a.a[1] is b.a[1]:
            c, lo, hi = a.a[1], a.a[2], b.a[2]
            if lo is ZERO and hi is s.size(c): return c
            bv = fresh_bv()
            return T('map', (bv, ZERO, sub(hi, lo), s.at(c, add(bv, lo))))
        return None
    # ------------------------------------------------------------ call expressions
    MATH1 = {'exp': 'exp', 'expf': 'exp', 'log': 'log', 'logf': 'log', 'log2': 'log2', 'log2f': 'log2', 'sqrt': 'sqrt', 'sqrtf': 'sqrt',
             'tanh': 'tanh', 'tanhf': 'tanh', 'abs': 'abs', 'fabs': 'abs', 'fabsf': 'abs', 'round': 'round', 'roundf': 'round', 'floor': 'floor', 'floorf': 'floor',
             'ceil': 'ceil', 'ceilf': 'ceil', 'sin': 'sin', 'cos': 'cos', 'sinf': 'sin', 'cosf': 'cos', 'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite', 'log10': 'log10',
             'trunc': 'trunc'}
    def e_call(s, e, st, this):
        fid = e.get('fn'); n = e.get('n') or ''
        short = n.split('::')[-1].split('<')[0]
        if e.get('ce') is not None and not fid:     # call through expression
            f = s.ev(e['ce'], st, this); args = [s.ev(x, st, this) for x in e['a']]
            return s.call_value(f, args, st, this, e)
        f = s.F.fns.get(fid)
        if f is not None and f.get('body') is not None and fid not in s.opaque_fns and f['mn'] not in s.opaque_fns:
            args = [s.ev(x, st, this) for x in e['a']]
            if s.watch is not None: s.watch('call', tuple(args), st, e, fid)
            if f['mn'] in s.hooks:
                x = s.hooks[f['mn']](s, e, args, st, this)
                if x is not NotImplemented: return x
            r = s.inline(f, None, args, st, e, e['a'])
            if isinstance(r, tuple):
                for nnode, v in r[1]: s.assign_out(nnode, v, st, this)
                return r[0]
            return r
        args = [s.ev(x, st, this) for x in e['a']]
        if f is not None:
            if s.watch is not None: s.watch('call', tuple(args), st, e, fid)
            if f['mn'] in s.hooks: return s.hooks[f['mn']](s, e, args, st, this)
            st.eff = st.eff + ((TRUE, f['mn'], tuple(args), e.get('ln')),)
            return fn('f:' + f['mn'], *[s.freeze(a, st) for a in args])
        if short in s.hooks:
            x = s.hooks[short](s, e, args, st, this)
            if x is not NotImplemented: return x
        return s.std_call(short, n, args, e, st, this)
    def assign_out(s, n, v, st, this):
        if n['k'] in ('ref', 'mem', 'sub', 'opc', 'mcall', 'un'):
            try: s.assign(n, v, st, this)
            except KeyError: pass
    def std_call(s, short, n, args, e, st, this):
        if n.startswith('std::') or '::' not in n or n.startswith('__builtin'):
            if short in s.MATH1 and len(args) == 1:
                if s.MATH1[short] == 'abs' and args[0].op == 'num': return num(abs(args[0].a[0]))
                return fn(s.MATH1[short], args[0])
            if short in ('max', 'min') and len(args) == 2:
                I = is_int(e.get('t')) 
                return fn(('i' if I else '') + short, *args)
            if short in ('fmax', 'fmaxf', 'fmin', 'fminf'): return fn(short[1:4], *args)
            if short in ('pow', 'powf'): return fn('pow', *args)
            if short == 'fmod': return fn('fmod', *args)
            if short == 'clamp':
                v, lo, hi = args
                I = is_int(e.get('t'))
                return ite(lt(v, lo, I), lo, ite(lt(hi, v, I), hi, v))
            if short in ('__builtin_inff', '__builtin_inf', '__builtin_huge_valf'): return sym('INF')
            if short in ('move', 'forward', 'ref', 'cref', 'static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'addressof', 'as_const'): return args[0]
            if short in ('make_shared', 'make_unique'):
                cls = e.get('t', '')
                c = cls[cls.index('<') + 1:cls.rindex('>')] if '<' in cls else cls
                c = base_t(c.split(', std::default_delete<')[0])
                if c in s.F.rec:
                    if c in s.hooks: return s.hooks[c](s, e, args, st, this)
                    return s.construct_best(c, args, st, e)
                if c.startswith('std::vector') and not args: return T('list', ())
                return s.std_ctor(c, e, args, st)
            if short == 'make_pair': return fn('pair', *args)
            if short == 'to_string': return fn('to_string', args[0])
            if short == 'swap' and len(args) == 2:
                s.assign(e['a'][0], args[1], st, this); s.assign(e['a'][1], args[0], st, this); return NONE
            if short in ('for_each',):
                it = [a for a in args if a.op == 'fn' and a.a[0] == 'iter']
                clo = [a for a in args if a.op == 'clo']
                if len(it) == 2 and clo:
                    c = s.iter_range(it[0], it[1])
                    if c is not None:
                        s.loop_over(c, clo[0], st, this, e); return NONE
            if short == 'accumulate' and len(args) >= 3:
                c = s.iter_range(args[0], args[1])
                if c is not None:
                    if len(args) == 3:
                        bv = fresh_bv(); return add(args[2], tsum(bv, ZERO, s.size(c), s.at(c, bv)))
            if short in ('transform',) and len(args) == 4:
                c = s.iter_range(args[0], args[1])
                tl = [x for x in FX.walk(e['a'][3]) if x.get('k') == 'ref' and (x.get('n') or '').split('::')[-1] in ('tolower', 'toupper')] if c is not None and 'string' in (e['a'][0].get('bt') or '') else []
                if tl and args[2].op == 'fn' and args[2].a[0] == 'iter' and args[2].a[1] is c and args[2].a[2] is ZERO and e['a'][2].get('b') is not None:
                    s.assign(e['a'][2]['b'], fn('lower' if tl[0]['n'].endswith('lower') else 'upper', c), st, this); return NONE
                if c is not None and args[3].op == 'clo' and e['a'][2].get('k') in ('mcall',):
                    bv = fresh_bv()
                    c2 = st.copy()
                    v = s.call_value(args[3], [s.at(c, bv)], c2, this, e)
                    m = T('map', (bv, ZERO, s.size(c), v))
                    tgt = e['a'][2].get('b')
                    if tgt is not None: s.assign(tgt, m, st, this); return NONE
            if short in ('find', 'find_if', 'find_if_not', 'count', 'count_if', 'any_of', 'all_of', 'none_of') and len(args) == 3 and args[0].op == 'fn' and args[0].a[0] == 'iter':
                c = s.iter_range(args[0], args[1])
                els = list(c.a) if c is not None and c.op == 'list' else None
                if els is not None and len(els) <= 40:
                    def test(x):
                        if args[2].op == 'clo': return s.tobool(s.call_value(args[2], [x], st, this, e))
                        if x.op in ('ref', 'null') or args[2].op in ('ref', 'null'): return s.refeq(x, args[2])
                        return eq(x, args[2], 't' if x.op == 'str' or args[2].op == 'str' else 'i')
                    ts = [test(x) for x in els]
                    if short == 'find_if_not': ts = [bnot(t) for t in ts]
                    if short[:4] == 'find':
                        r = num(len(els))
                        for i in range(len(els) - 1, -1, -1): r = ite(ts[i], num(i), r)
                        return fn('iter', args[0].a[1], add(args[0].a[2], r))
                    if short[:5] == 'count': return add(ZERO, *[ite(t, ONE, ZERO) for t in ts])
                    return band(*ts) if short == 'all_of' else bor(*ts) if short == 'any_of' else bnot(bor(*ts))
            if short in ('max_element', 'min_element') and len(args) == 2:
                c = s.iter_range(args[0], args[1])
                if c is not None: return fn('iter', c, fn('argmax' if short[1] == 'a' else 'argmin', c))
            if short in ('distance',):
                if args[0].op == 'fn' and args[1].op == 'fn' and args[0].a[0] == args[1].a[0] == 'iter' and args[0].a[1] is args[1].a[1]: return sub(args[1].a[2], args[0].a[2])
            if short in ('begin', 'end') and len(args) == 1:
                return fn('iter', args[0], ZERO if short == 'begin' else s.size(args[0]))
            if short in ('get',) and args and args[0].op == 'fn' and args[0].a[0] in ('pair', 'tuple'):
                pass
        # opaque external: outputs through non-const refs are havocked
        fz = [s.freeze(a, st) for a in args]
        for i, an in enumerate(e['a']):
            if an['k'] in ('ref', 'mem') and short in ('getline', 'sort', 'shuffle', 'iota', 'from_chars', 'transform', 'copy', 'fill'):
                s.assign(an, fn('out:%s:%d' % (short, i), *fz), st, this)
        if short in ('sort', 'stable_sort', 'shuffle', 'iota', 'fill', 'reverse') and args and args[0].op == 'fn' and args[0].a[0] == 'iter':
            bn = e['a'][0].get('b')
            if bn is not None:
                if short in ('sort', 'stable_sort', 'reverse') and len(args) <= 3:
                    c = s.iter_range(args[0], args[1])
                    r = None if c is None or c.op != 'list' else tuple(reversed(c.a)) if short == 'reverse' else s.sort_list(c.a, args[2] if len(args) > 2 else None, st, this, e)
                    if r is not None and c is args[0].a[1]: s.assign(bn, T('list', r), st, this); return NONE
                if short == 'iota':
                    bv = fresh_bv(); c = args[0].a[1]
                    s.assign(bn, T('map', (bv, ZERO, s.size(c), add(bv, args[2]))), st, this)
                elif short == 'fill': s.assign(bn, T('filln', (s.size(args[0].a[1]), args[2])), st, this)
                else: s.assign(bn, fn('out:' + short, *[x for x in fz]), st, this)
        st.eff = st.eff + ((TRUE, short, tuple(args), e.get('ln')),)
        return fn('c:' + short, *fz)
    def sort_list(s, xs, cmp, st, this, e):
        """the sorted list when every comparison is decided"""
        out = []
        for x in xs:
            i = len(out)
            while i > 0:
                if cmp is not None: b = s.tobool(s.call_value(cmp, [x, out[i - 1]], st, this, e))
                else: b = s.less(x, out[i - 1], st)
                if b is TRUE: i -= 1
                elif b is FALSE: break
                else: return None
            out.insert(i, x)
        return tuple(out)
    def construct_best(s, cls, args, st, e):
        """make_shared<cls>(args): choose the constructor by arity and argument types"""
        F = s.F
        cands = []
        for c in F.ctors(cls):
            req = [p for p in c['params'] if p.get('d') is None]
            if len(req) <= len(args) <= len(c['params']): cands.append(c)
        if e is not None and e.get('ctor') in F.fns: cands = [F.fns[e['ctor']]]
        if len(cands) > 1:
            tn = [(x.get('t') or '') for x in (e['a'] if e else [])]
            def score(c):
                sc = 0
                for p, t in zip(c['params'], tn):
                    a, b = FX.norm_t(p['t']), FX.norm_t(t)
                    if a == b: sc += 4
                    elif ('shared_ptr' in a) == ('shared_ptr' in b) and ('vector' in a) == ('vector' in b) and ('string' in a) == ('string' in b or 'char' in b):
                        sc += 2 if is_flt(a) == is_flt(b) else 1
                    else: sc -= 10
                return sc
            cands.sort(key=score, reverse=True)
        return s.construct(cls, args, st, cands[0]['id'] if cands else None, e)
    def call_value(s, f, args, st, this, e):
        if f.op == 'clo':
            lam, lthis, _ = s.clos[f]
            if s.depth > s.max_depth: return s.unknown('depth', e)
            s.depth += 1
            saved = {p['id']: st.env.get(p['id']) for p in lam['params']}
            for p, a in zip(lam['params'], args): st.env[p['id']] = a
            fl = s.ex(lam['body'], st, lthis)
            v = s.finish(fl, st)
            for k, x in saved.items():
                if x is not None: st.env[k] = x
            s.depth -= 1
            return v
        if f.op == 'ite': return gite(f.a[0], s.call_value(f.a[1], args, st, this, e), s.call_value(f.a[2], args, st, this, e))
        if f.op == 'ref':
            m = s.F.method(st.heap[f.a[0]][0], 'operator()')
            if m: return s.call(m, f, args, st)
        return fn('call', f, *[s.freeze(a, st) for a in args])
    def loop_over(s, c, clo, st, this, e):
        lam, lthis, _ = s.clos[clo]
        node = {'k': 'rfor', 'ln': e.get('ln'), '_lam': lam}
        cont = None
        its = [a['b'] for a in (e.get('a') or []) if a.get('k') == 'mcall' and a.get('mn') in ('begin', 'end') and a.get('b')]
        if len(its) == 2: cont = its[0]
        s.range_loop(c, lam['params'][0], lam['body'], st, lthis, node, lam=True, over=(cont, this) if cont else None)
    def e_mcall(s, e, st, this):
        mn = e['mn']
        b = s.ev(e['b'], st, this) if e.get('b') is not None else this
        args = None
        fid = e.get('fn')
        f = s.F.fns.get(fid)
        cls = e.get('cls')
        if f is not None or cls in s.F.rec:
            args = [s.ev(x, st, this) for x in e['a']]
            r = s.dispatch(b, f, fid, mn, args, e, st, this)
            return r
        args = [s.ev(x, st, this) for x in e['a']]
        return s.std_method(mn, b, args, e, st, this)
    def dispatch(s, b, f, fid, mn, args, e, st, this):
        if b is UNDEF: return UNDEF
        if b.op == 'ite':
            A = st.copy(); B = st.copy()
            x = s.dispatch(b.a[1], f, fid, mn, args, e, A, this); y = s.dispatch(b.a[2], f, fid, mn, args, e, B, this)
            st.set(merge(b.a[0], A, B))
            return gite(b.a[0], x, y)
        target = f
        if b.op == 'ref':
            cc = st.heap[b.a[0]][0]
            if e.get('virt'):
                target = s.F.resolve(fid, cc) if fid in s.F.fns or fid else None
        elif e.get('virt') or f is None or f.get('body') is None:
            target = s.sole_impl(fid, e.get('cls'))
        elif e.get('cls') == 'happyml::BaseTensor' and mn in s.TENS and f.get('virt'): target = None
        if mn in s.hooks:
            x = s.hooks[mn](s, e, [b] + args, st, this)
            if x is not NotImplemented: return x
        if target is not None and target.get('body') is not None and target['id'] not in s.opaque_fns and mn not in s.opaque_fns:
            r = s.inline(target, b, args, st, e, e['a'])
            if isinstance(r, tuple):
                for nnode, v in r[1]: s.assign_out(nnode, v, st, this)
                return r[0]
            return r
        if mn in s.TENS and len(args) == (3 if mn == 'getValue' else 0):
            return fn(s.TENS[mn], b, *args)
        st.eff = st.eff + ((TRUE, mn, (b,) + tuple(args), e.get('ln')),)
        return fn('m:' + mn, s.freeze(b, st), *[s.freeze(a, st) for a in args])
    def sole_impl(s, fid, cls):
        """the only implementation a virtual call can reach, if there is exactly one"""
        if fid not in s.F.fns or cls not in s.F.rec: return None
        ts = {}
        for c in s.F.concrete(cls):
            m = s.F.resolve(fid, c)
            if m is None: return None
            ts[m['id']] = m
        return list(ts.values())[0] if len(ts) == 1 else None
    def std_method(s, mn, b, args, e, st, this):
        h = s.hooks.get('std.' + mn)
        if h is not None:
            x = h(s, e, [b] + args, st, this)
            if x is not NotImplemented: return x
        cls = e.get('cls') or ''
        bn = e.get('b')
        if s.watch is not None: s.watch(mn, (b,) + tuple(args), st, e, e.get('bt') or cls)
        if s.world is not None:
            x = s.world.method(s, mn, b, args, e, st, this)
            if x is not None: return x
        if mn in ('size', 'length'): return s.size(b)
        if mn == 'empty': return eq(s.size(b), ZERO, 'i')
        if mn == 'at' and len(args) == 1: return s.at(b, args[0])
        if mn in ('get', 'lock', 'c_str', 'data', 'str', 'str', 'value', 'string', 'shared_from_this', 'native', 'generic_string'):
            if mn == 'shared_from_this': return b
            return b
        if re.match(r'(std::)?multiset(<|$)', base_t(cls)) and mn in ('insert', 'emplace') and len(args) == 1 and bn is not None:
            v = s.sorted_insert(b, args[0], st)
            s.assign(bn, v if v is not None else s.unknown('multiset', e, b, args[0]), st, this); return NONE
        if re.match(r'(std::)?(__1::)?(unordered_)?(multi)?set(<|$)', base_t(cls)) and len(args) == 1 and mn in ('find', 'count', 'contains', 'insert', 'emplace', 'erase'):
            x = args[0]; m = s.member(b, x, st)
            if mn == 'find': return fn('sfind', m)
            if mn == 'count': return ite(m, ONE, ZERO)
            if mn == 'contains': return m
            if bn is not None:
                if mn == 'erase': v = T('list', tuple(y for y in b.a if s.refeq(y, x) is not TRUE)) if b.op == 'list' else fn('erase', b, x)
                else:
                    pu = T('list', b.a + (x,)) if b.op == 'list' else T('push', (b, x))
                    v = gite(m, b, pu)
                s.assign(bn, v, st, this)
            return ite(m, ONE, ZERO) if mn == 'erase' else fn('pair', fn('sfind', TRUE), bnot(m))
        if mn in ('begin', 'end', 'rbegin', 'rend', 'find', 'cbegin', 'cend', 'lower_bound'):
            s.home[b.id] = (b, bn, this)
            if amap_items(b) is not None: l_ = amap_list(b); s.home[l_.id] = (l_, bn, this)
        if ismap(cls) and amap_items(b) is not None:
            its = amap_items(b)
            if mn in ('begin', 'cbegin'): return fn('iter', amap_list(b), ZERO)
            if mn in ('end', 'cend'): return fn('iter', amap_list(b), num(len(its)))
            if mn in ('rbegin',): return fn('riter', amap_list(b), ZERO)
            if mn in ('rend',): return fn('riter', amap_list(b), num(len(its)))
            if mn in ('find', 'count', 'contains', 'at', 'erase') and len(args) == 1 and ground_key(args[0]):
                pos = next((i for i, kv in enumerate(its) if kv[0] is args[0]), None)
                if mn == 'find': return fn('iter', amap_list(b), num(len(its) if pos is None else pos))
                if mn == 'count': return ZERO if pos is None else ONE
                if mn == 'contains': return boolean(pos is not None)
                if mn == 'at':
                    if pos is not None: return its[pos][1]
                    st.thr = TRUE; return UNDEF
                if bn is not None: s.assign(bn, amap([kv for i, kv in enumerate(its) if i != pos], cls), st, this)
                return ZERO if pos is None else ONE
            if mn in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and bn is not None:
                kv = (args[0], args[1]) if len(args) == 2 else (args[0].a[1], args[0].a[2]) if args[0].op == 'fn' and args[0].a[0] == 'pair' else None
                if kv and ground_key(kv[0]):
                    had = any(k is kv[0] for k, _ in its)
                    if not had or mn == 'insert_or_assign': s.assign(bn, amap_set(b, kv[0], kv[1], cls), st, this)
                    nb = s.ev(bn, st, this)
                    return fn('pair', fn('iter', amap_list(nb), num([k for k, _ in amap_items(nb)].index(kv[0]))), boolean(not had))
        if ismap(cls) and mn == 'find' and len(args) == 1:   # the key is not known: found exactly when it is counted
            return fn('sfind', bnot(eq(fn('s:count', s.freeze(b, st), s.freeze(args[0], st)), ZERO, 'i')), b, args[0])
        if mn in ('front',): return s.at(b, ZERO)
        if mn in ('back',):
            if b.op == 'push': return b.a[1]
            return s.at(b, sub(s.size(b), ONE))
        if mn in ('push_back', 'emplace_back', 'push', 'emplace', 'append', 'insert') and bn is not None:
            if mn in ('append',) or (mn == 'push_back' and 'basic_string' in cls):
                x = args[0] if len(args) == 1 else fn('substr', *args) if len(args) == 3 else fn('strctor', *args)
                v = s.concat(b, fn('chr', args[0]) if mn == 'push_back' else x)
            elif mn == 'insert' and len(args) == 3:
                r = s.iter_range(args[1], args[2])
                v = T('cat', (b, r)) if r is not None else s.unknown('insert', e, b, *args)
            elif mn == 'insert' or (mn == 'emplace' and len(args) == 2):
                v = fn('insert', b, *args)
            else:
                x = args[0] if len(args) == 1 else fn('pair', *args) if len(args) == 2 and re.match(r'[\w:]*vector<\s*(std::)?pair<', e.get('bt') or '') else fn('mk', *args)
                if mn == 'emplace_back' and len(args) != 1:
                    et = cls[cls.index('<') + 1:cls.rindex('>')].split(',')[0] if '<' in cls else ''
                    if base_t(et) in s.F.rec: x = s.construct_best(base_t(et), args, st, e)
                v = pushed(b, x)
            s.assign(bn, v, st, this)
            return NONE
        if mn in ('pop', 'pop_back', 'pop_front') and bn is not None:
            if b.op == 'list' and b.a: v = T('list', b.a[1:] if mn in ('pop', 'pop_front') else b.a[:-1])
            else: v = fn('tail' if mn != 'pop_back' else 'init', b)
            s.assign(bn, v, st, this); return NONE
        if mn == 'clear' and bn is not None:
            s.assign(bn, string('') if 'basic_string' in cls else T('list', ()), st, this); return NONE
        if mn in ('resize', 'assign') and bn is not None and args:
            d = args[1] if len(args) > 1 else elem_default(bn.get('t') if '<' in (bn.get('t') or '') else cls)
            if mn == 'assign': v = filled(args[0], d)
            else: v = resize(b, args[0], d)
            s.assign(bn, v, st, this); return NONE
        if mn in ('reserve', 'shrink_to_fit', 'flush', 'close', 'lock', 'unlock', 'precision', 'copyfmt'): 
            return NONE
        if mn in ('begin', 'cbegin'): return fn('iter', b, ZERO)
        if mn in ('end', 'cend'): return fn('iter', b, s.size(b))
        if mn in ('rbegin', 'crbegin'): return fn('riter', b, ZERO)
        if mn in ('rend', 'crend'): return fn('riter', b, s.size(b))
        if mn == 'swap' and bn is not None:
            s.assign(bn, args[0], st, this); s.assign(e['a'][0], b, st, this); return NONE
        fz = [s.freeze(b, st)] + [s.freeze(a, st) for a in args]
        if bn is not None and not e.get('const') and bn['k'] in ('ref', 'mem') and mn not in ('find', 'count', 'substr', 'compare', 'is_open', 'rfind', 'find_first_of', 'eof', 'good', 'fail', 'contains'):
            s.assign(bn, fn('out:' + mn, *fz), st, this)
        for i, an in enumerate(e['a']):
            if an['k'] == 'ref' and mn in ('read', 'getline', 'get'): s.assign(an, fn('out:%s:%d' % (mn, i), *fz), st, this)
        st.eff = st.eff + ((TRUE, mn, (b,) + tuple(args), e.get('ln')),)
        return fn('s:' + mn, *fz)
    def less(s, x, y, st):
        for v in (x, y):
            if v.op == 'ref':
                m = s.F.method(st.heap[v.a[0]][0], 'operator<', 1)
                if m: return s.tobool(s.call(m, x, [y], st))
            if v.op == 'obj':
                m = s.F.method(v.a[0], 'operator<', 1)
                if m: return s.tobool(s.call(m, x, [y], st))
        return lt(x, y, False)
    def sorted_insert(s, b, x, st):
        if b.op == 'ite':
            p, q = s.sorted_insert(b.a[1], x, st), s.sorted_insert(b.a[2], x, st)
            return None if p is None or q is None else gite(b.a[0], p, q)
        if b.op != 'list' or len(b.a) > 5: return None
        r = T('list', b.a + (x,))
        for i in reversed(range(len(b.a))):   # after the last element that is not greater
            r = gite(s.less(x, b.a[i], st), T('list', b.a[:i] + (x,) + b.a[i:]), r) if i == 0 else gite(band(s.less(x, b.a[i], st), bnot(s.less(x, b.a[i - 1], st))), T('list', b.a[:i] + (x,) + b.a[i:]), r)
        return r
    def member(s, b, x, st):
        if b.op == 'list': return bor(*[s.refeq(y, x) if y.op in ('ref', 'null', 'ite') or x.op in ('ref', 'null', 'ite') else eq(y, x, 'i') for y in b.a]) if b.a else FALSE
        if b.op == 'ite': return gite(b.a[0], s.member(b.a[1], x, st), s.member(b.a[2], x, st))
        if b.op == 'push': return bor(s.member(b.a[0], x, st), s.refeq(b.a[1], x))
        return fn('member', s.freeze(b, st), s.freeze(x, st))
    def concat(s, a, b):
        xs = []
        for x in (a, b): xs += list(x.a[1:]) if x.op == 'fn' and x.a[0] == 'concat' else [x]
        out = []
        for x in xs:
            if x.op == 'fn' and x.a[0] == 'chr' and x.a[1].op == 'num': x = string(chr(int(x.a[1].a[0]) % 256))
            if out and x.op == 'str' and out[-1].op == 'str': out[-1] = string(out[-1].a[0] + x.a[0])
            elif x.op == 'str' and x.a[0] == '' : continue
            else: out.append(x)
        return out[0] if len(out) == 1 else fn('concat', *out) if out else string('')
    def e_opc(s, e, st, this):
        op = e['op']; a = e['a']
        fid = e.get('fn')
        f = s.F.fns.get(fid)
        if s.world is not None and op in ('!', '<<', '>>') and f is None:
            x = s.world.oper(s, op, a, e, st, this)
            if x is not None: return x
        if op == '=' and (f is None or f.get('body') is None):
            v = s.ev(a[1], st, this); s.assign(a[0], v, st, this); return v
        if op in ('->', '*') and len(a) == 1:
            v = s.ev(a[0], st, this)
            if s.watch is not None and op == '->': s.watch('->', (v,), st, e, a[0].get('t'))
            if v.op == 'fn' and v.a[0] == 'iter': return s.at(v.a[1], v.a[2])
            if v.op == 'fn' and v.a[0] == 'riter': return s.at(v.a[1], sub(s.size(v.a[1]), add(v.a[2], ONE)))
            if v.op == 'fn' and v.a[0] == 'sfind' and len(v.a) > 2: return fn('pair', v.a[3], s.at(v.a[2], v.a[3]))
            return v
        if f is not None and f.get('body') is not None:
            args = [s.ev(x, st, this) for x in a]
            if f.get('cls'): r = s.inline(f, args[0], args[1:], st, e, a[1:])
            else: r = s.inline(f, None, args, st, e, a)
            if isinstance(r, tuple):
                for nnode, v in r[1]: s.assign_out(nnode, v, st, this)
                return r[0]
            return r
        if op == '[]':
            b = s.ev(a[0], st, this); i = s.ev(a[1], st, this)
            if s.watch is not None: s.watch('[]', (b, i), st, e, a[0].get('t'))
            if ismap(a[0].get('t')) and ground_key(i) and amap_items(b) is not None:
                for k, v in amap_items(b):
                    if k is i: return v
                v = mapped_default(a[0].get('t'))
                s.assign(a[0], amap_set(b, i, v, a[0].get('t')), st, this)
                return v
            return s.at(b, i)
        if op == '()':
            fv = s.ev(a[0], st, this); args = [s.ev(x, st, this) for x in a[1:]]
            return s.call_value(fv, args, st, this, e)
        if op == '<<':
            l = s.ev(a[0], st, this)
            c = st.copy()
            r = s.ev(a[1], st, this)
            h = s.hooks.get('op<<')
            if h is not None:
                v = h(s, e, [l, r], st, this)
                if v is not NotImplemented: return v
            if a[0].get('k') in ('ref', 'mem') and 'stringstream' in (a[0].get('t') or ''):
                s.assign(a[0], s.concat(l if l.op != 'sym' and l.op != 'list' else string(''), r), st, this)
            elif a[0].get('k') == 'opc':
                # chained: assign to root stringstream
                root = a[0]
                while root.get('k') == 'opc' and root['op'] == '<<': root = root['a'][0]
                if root.get('k') in ('ref', 'mem') and 'stringstream' in (root.get('t') or ''):
                    s.assign(root, s.concat(s.ev(root, st, this), r), st, this)
            return l
        args = [s.ev(x, st, this) for x in a]
        if op in ('==', '!=') and len(args) == 2:
            for v in args:
                if v.op == 'fn' and v.a[0] == 'sfind': return v.a[1] if op == '!=' else bnot(v.a[1])
        if op in ('++', '--'):
            v = args[0]
            if v.op == 'fn' and v.a[0] in ('iter', 'riter'):
                n = fn(v.a[0], v.a[1], add(v.a[2], ONE if op == '++' else num(-1)))
                s.assign(a[0], n, st, this)
                return v if len(a) > 1 else n
            s.assign(a[0], fn('inc' if op == '++' else 'dec', v), st, this)
            return v
        if len(args) == 2:
            l, r = args
            if l.op == 'fn' and l.a[0] in ('iter', 'riter') and op in ('+', '-') and not (r.op == 'fn' and r.a[0] == l.a[0]):
                return fn(l.a[0], l.a[1], add(l.a[2], r) if op == '+' else sub(l.a[2], r))
            if l.op == 'fn' and r.op == 'fn' and l.a[0] == r.a[0] and l.a[0] in ('iter', 'riter') and l.a[1] is r.a[1]:
                if op == '-': return sub(l.a[2], r.a[2])
                if op in ('==', '!='):
                    c = eq(l.a[2], r.a[2], 'i'); return c if op == '==' else bnot(c)
                if op == '<': return lt(l.a[2], r.a[2], True)
            tt = (a[0].get('t') or '') + (a[1].get('t') or '')
            if op == '+' and ('basic_string' in tt or 'path' in tt):
                def ch(v, n): return fn('chr', v) if base_t(n.get('t')) == 'char' else v
                return s.concat(ch(l, a[0]), ch(r, a[1]))
            if op == '+=' :
                if 'basic_string' in tt:
                    v = s.concat(l, fn('chr', r) if base_t(a[1].get('t')) == 'char' else r)
                    s.assign(a[0], v, st, this); return v
                v = add(l, r); s.assign(a[0], v, st, this); return v
            if op in ('==', '!='):
                if l.op == 'null' or r.op == 'null':
                    c = s.isnull(r if l.op == 'null' else l)
                elif l.op == 'ref' or r.op == 'ref' or 'shared_ptr' in tt: c = s.refeq(l, r)
                else: c = eq(l, r, 't')
                return c if op == '==' else bnot(c)
        return fn('op' + op, *[s.freeze(x, st) for x in args])
    # ------------------------------------------------------------ statements
    def ex(s, n, st, this):
        """execute statement in st (mutated); returns Flow whose fall state is st or merged"""
        fl = Flow()
        if n is None:
            fl.fall = (TRUE, st); return fl
        k = n['k']
        m = getattr(s, 's_' + k, None)
        if m: return m(n, st, this)
        s.ev(n, st, this)
        if n['k'] == 'throw':
            fl.ret = (TRUE, UNDEF, st); return fl
        fl.fall = (TRUE, st)
        return fl
    def seq(s, stmts, st, this):
        acc = Flow()
        cur = (TRUE, st)
        for x in stmts:
            f = s.ex(x, cur[1], this)
            c = cur[0]
            acc.ret = j3(acc.ret, under(c, f.ret)); acc.brk = j2(acc.brk, under(c, f.brk)); acc.cont = j2(acc.cont, under(c, f.cont))
            if f.fall is None: cur = None; break
            cur = (band(c, f.fall[0]), f.fall[1])
            if cur[0] is FALSE: cur = None; break
            # inlined callee that always throws
            if cur[1].thr is TRUE:
                acc.ret = j3(acc.ret, (cur[0], UNDEF, cur[1])); cur = None; break
        acc.fall = cur
        return acc
    def s_blk(s, n, st, this): return s.seq(n['a'], st, this)
    def s_nop(s, n, st, this):
        f = Flow(); f.fall = (TRUE, st); return f
    def s_decl(s, n, st, this):
        for d in n['a']:
            if d.get('i') is not None:
                t = d.get('t') or ''
                v = s.ev(d['i'], st, this)
                st.env[d['id']] = v
                st.alias.pop(d['id'], None)
                if t.rstrip().endswith('&') and 'const' not in t.split('<')[0] and d['i']['k'] in ('ref', 'mem', 'opc', 'mcall', 'sub'):
                    if s.simple_lv(d['i']): st.alias[d['id']] = (s.pin(d['i'], st, this), this)
            else:
                t = base_t(d.get('t'))
                v = UNDEF
                if t.startswith('std::vector') or t.startswith('std::map') or t.startswith('std::unordered') or t.startswith('std::queue') or t.startswith('std::set'): v = T('list', ())
                elif 'basic_string' in t or 'stringstream' in t: v = string('')
                elif 'shared_ptr' in t: v = T('null')
                st.env[d['id']] = v
                st.alias.pop(d['id'], None)
            for b in d.get('binds') or []:
                i = (d.get('binds')).index(b)
                bid = b['id'] if isinstance(b, dict) else b
                v = st.env[d['id']]
                st.env[bid] = s.getf(v, 'first' if i == 0 else 'second', st) if v.op != 'list' else s.at(v, num(i))
        f = Flow(); f.fall = (TRUE, st); return f
    def simple_lv(s, n):
        if n['k'] == 'ref': return n['dk'] in ('var', 'param')
        if n['k'] == 'mem': return True
        if n['k'] == 'opc' and n['op'] in ('[]',): return s.simple_lv(n['a'][0])
        if n['k'] == 'mcall' and n['mn'] == 'at': return s.simple_lv(n['b'])
        return False
    def pin(s, n, st, this):
        """freeze index expressions of an lvalue by storing them in synthetic variables"""
        if n['k'] in ('ref', 'mem'): return n
        n = dict(n)
        if n['k'] == 'opc':
            a = list(n['a']); s.n_obj += 1; sid = -s.n_obj
            st.env[sid] = s.ev(a[1], st, this)
            a[0] = s.pin(a[0], st, this); a[1] = {'k': 'ref', 'dk': 'var', 'id': sid, 'n': '$%d' % -sid, 't': a[1].get('t')}
            n['a'] = a
        elif n['k'] == 'mcall':
            s.n_obj += 1; sid = -s.n_obj
            st.env[sid] = s.ev(n['a'][0], st, this)
            n['b'] = s.pin(n['b'], st, this); n['a'] = [{'k': 'ref', 'dk': 'var', 'id': sid, 'n': '$%d' % -sid, 't': n['a'][0].get('t')}]
        return n
    def s_if(s, n, st, this):
        if n.get('init'):
            f0 = s.ex(n['init'], st, this); st = f0.fall[1]
        if n.get('cv'): s.s_decl({'a': [n['cv']]} if 'id' in n['cv'] else n['cv'], st, this)
        c = s.tobool(s.ev(n['c'], st, this))
        if c is TRUE: return s.ex(n['t'], st, this)
        if c is FALSE: return s.ex(n.get('e'), st, this)
        if c is UNDEF: c = s.unknown('undef-cond', n)
        B = st.copy()
        fa = s.ex(n['t'], st, this); fb = s.ex(n.get('e'), B, this)
        nc = bnot(c)
        f = Flow()
        f.fall = j2(under(c, fa.fall), under(nc, fb.fall))
        f.ret = j3(under(c, fa.ret), under(nc, fb.ret))
        f.brk = j2(under(c, fa.brk), under(nc, fb.brk))
        f.cont = j2(under(c, fa.cont), under(nc, fb.cont))
        return f
    def s_ret(s, n, st, this):
        v = s.ev(n['e'], st, this) if n.get('e') else NONE
        f = Flow(); f.ret = (TRUE, v, st); return f
    def s_throw(s, n, st, this):
        if n.get('e'): pass
        st.thr = TRUE
        f = Flow(); f.ret = (TRUE, UNDEF, st); return f
    def s_brk(s, n, st, this):
        f = Flow(); f.brk = (TRUE, st); return f
    def s_cont(s, n, st, this):
        f = Flow(); f.cont = (TRUE, st); return f
    def s_try(s, n, st, this):
        if not s.handlers or not n.get('h'): return s.ex(n['b'], st, this)
        thr0 = st.thr
        f = s.ex(n['b'], st, this)
        tot = None
        for x in (f.fall, f.ret, f.brk, f.cont):
            if x is not None: tot = (x[0], x[-1]) if tot is None else j2((x[0], x[-1]), tot)
        t = band(tot[1].thr, bnot(thr0)) if tot else FALSE
        if t is FALSE: return f
        def normal(x):
            if x is None: return None
            c = x[-1].copy(); c.thr = thr0
            return under(bnot(t), tuple(x[:-1]) + (c,))
        out = Flow()
        out.fall, out.ret, out.brk, out.cont = (normal(x) for x in (f.fall, f.ret, f.brk, f.cont))
        rest = TRUE
        for i, h in enumerate(n['h']):
            hs = tot[1].copy(); hs.thr = thr0
            if h.get('v'): hs.env[h['v']['id'] if isinstance(h['v'], dict) else h['v']] = fn('caught', num(i))
            c = band(t, rest) if i == len(n['h']) - 1 else band(t, rest, fn('thrown', string(h.get('t') or '...'), num(n.get('ln') or 0)))
            if i < len(n['h']) - 1: rest = band(rest, bnot(fn('thrown', string(h.get('t') or '...'), num(n.get('ln') or 0))))
            fh = s.ex(h['b'], hs, this)
            out.fall = j2(under(c, fh.fall), out.fall)
            out.ret = j3(under(c, fh.ret), out.ret)
            out.brk = j2(under(c, fh.brk), out.brk); out.cont = j2(under(c, fh.cont), out.cont)
        return out
    def s_switch(s, n, st, this):
        v = s.ev(n['c'], st, this)
        items = []   # (labels, stmt)
        def flat(x, labels):
            if x['k'] == 'case': flat(x['s'], labels + [x['c']]) if x.get('s') else items.append((labels + [x['c']], None))
            elif x['k'] == 'default': flat(x['s'], labels + ['default']) if x.get('s') else items.append((labels + ['default'], None))
            else: items.append((labels, x))
        body = n['b']
        for x in (body['a'] if body['k'] == 'blk' else [body]): flat(x, [])
        arms = []; dflt = None
        conds = []
        for i, (labs, _) in enumerate(items):
            if not labs: continue
            c = FALSE
            for l in labs:
                if l == 'default': dflt = i
                else: c = bor(c, eq(v, s.ev(l, st, this), 'i'))
            if c is not FALSE: arms.append((c, i)); conds.append(c)
        def run(i, st):
            if i is None:
                f = Flow(); f.fall = (TRUE, st); return f
            f = s.seq([x for _, x in items[i:] if x is not None], st, this)
            f.fall = j2(f.fall, f.brk); f.brk = None
            return f
        def chain(k, st):
            if k == len(arms): return run(dflt, st)
            c, i = arms[k]
            if c is TRUE: return run(i, st)
            if c is FALSE: return chain(k + 1, st)
            B = st.copy()
            fa = run(i, st); fb = chain(k + 1, B); nc = bnot(c)
            f = Flow()
            f.fall = j2(under(c, fa.fall), under(nc, fb.fall)); f.ret = j3(under(c, fa.ret), under(nc, fb.ret))
            f.cont = j2(under(c, fa.cont), under(nc, fb.cont))
            return f
        return chain(0, st)
    # ------------------------------------------------------------ loops
    def s_for(s, n, st, this):
        if n.get('init'):
            f0 = s.ex(n['init'], st, this); st = f0.fall[1]
        cnt = s.counted(n, st, this)
        if cnt is None:
            return s.gen_loop(n.get('c'), n.get('inc'), n['b'], st, this, n)
        var, lo, hi, order, step = cnt
        if step == 1:
            bv = fresh_bv(); val = bv; L, H = lo, hi
        else:
            bv = fresh_bv(); val = add(lo, mul(num(step), bv)); L = ZERO; H = fn('ceildiv', sub(hi, lo), num(step))
        if lo.op == 'num' and hi.op == 'num' and (hi.a[0] - lo.a[0]) / step <= s.max_unroll and order > 0 and lo.a[0] == int(lo.a[0]) and hi.a[0] == int(hi.a[0]):
            vals = range(int(lo.a[0]), int(hi.a[0]), step)
            return s.unroll(n, var, [num(q) for q in vals], num(int(lo.a[0]) + len(vals) * step), st, this)
        if n.get('init') is None and any(x['k'] == 'brk' for x in FX.walk(n['b'])): return s.gen_loop(n.get('c'), n.get('inc'), n['b'], st, this, n)
        st0 = st.copy() if order < 0 else None
        f = s.core_loop(bv, L, H, lambda t: t.env.__setitem__(var, val), n['b'], st, this, n, skip={var}, rev=(order < 0))
        if order < 0 and f.fall and any(g[0].op == 'anyi' or g[0].op == 'and' for g in f.fall[1].eff[len(st0.eff):]):   # actions: counted in the order they happen
            bv = fresh_bv(); v2 = sub(sub(hi, ONE), bv)
            f = s.core_loop(bv, ZERO, sub(hi, lo), lambda t: t.env.__setitem__(var, v2), n['b'], st0, this, n, skip={var})
        if f.fall: f.fall[1].env[var] = fn('imax', lo, hi) if order > 0 else sub(lo, ONE)
        return f
    def unroll(s, n, var, vals, final, st, this):
        acc = Flow(); cur = (TRUE, st)
        brk = None
        for v in vals:
            cur[1].env[var] = v
            f = s.ex(n['b'], cur[1], this)
            c = cur[0]
            acc.ret = j3(acc.ret, under(c, f.ret))
            brk = j2(brk, under(c, f.brk))
            nx = j2(f.fall, f.cont)
            if nx is None: cur = None; break
            cur = (band(c, nx[0]), nx[1])
            if cur[0] is FALSE: cur = None; break
        if cur is not None and var is not None: cur[1].env[var] = final
        acc.fall = j2(cur, brk)
        return acc
    def assigned_in(s, n, vid):
        for x in FX.walk(n):
            if x['k'] == 'asg' and x['l']['k'] == 'ref' and x['l'].get('id') == vid: return True
            if x['k'] == 'un' and x['op'] in ('++', '--') and x['e'].get('k') == 'ref' and x['e'].get('id') == vid: return True
            if x['k'] in ('call', 'mcall') :
                f = s.F.fns.get(x.get('fn'))
                if f:
                    for p, a in zip(f['params'], x['a']):
                        if a.get('k') == 'ref' and a.get('id') == vid and '&' in p['t'] and 'const' not in p['t'].split('<')[0]: return True
            if x['k'] == 'un' and x['op'] == '&' and x['e'].get('k') == 'ref' and x['e'].get('id') == vid: return True
        return False
    def counted(s, n, st, this):
        c, inc = n.get('c'), n.get('inc')
        if not c or not inc: return None
        def strip(x):
            while x['k'] in ('cast', 'conv'): x = x['e'] if 'e' in x else x
            return x
        # increment
        step = None
        if inc['k'] == 'un' and inc['op'] in ('++', '--') and strip(inc['e'])['k'] == 'ref':
            var = strip(inc['e'])['id']; step = 1 if inc['op'] == '++' else -1
        elif inc['k'] == 'asg' and inc['op'] in ('+=', '-=') and inc['l']['k'] == 'ref':
            var = inc['l']['id']
            r = s.ev(inc['r'], st.copy(), this)
            if r.op != 'num' or r.a[0] <= 0 or r.a[0].denominator != 1: return None
            step = int(r.a[0]) * (1 if inc['op'] == '+=' else -1)
        elif inc['k'] == 'asg' and inc['op'] == '=' and inc['l']['k'] == 'ref' and strip(inc['r'])['k'] == 'bin' and strip(inc['r'])['op'] in '+-':
            var = inc['l']['id']; rr = strip(inc['r'])
            if strip(rr['l']).get('id') != var: return None
            r = s.ev(rr['r'], st.copy(), this)
            if r.op != 'num' or r.a[0] <= 0: return None
            step = int(r.a[0]) * (1 if rr['op'] == '+' else -1)
        else: return None
        if s.assigned_in(n['b'], var) or s.assigned_in(c, var): return None
        if var not in st.env: return None
        lo = st.env[var]
        if lo.op == 'fn' and lo.a[0] == 'iter': return None
        c = strip(c)
        if c['k'] != 'bin' or c['op'] not in ('<', '<=', '>', '>=', '!='): return None
        l, r = strip(c['l']), strip(c['r'])
        op = c['op']
        if l.get('k') == 'ref' and l.get('id') == var: bound = c['r']
        elif r.get('k') == 'ref' and r.get('id') == var:
            bound = c['l']; op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
        else: return None
        for x in FX.walk(bound):
            if x['k'] == 'ref' and x.get('dk') in ('var', 'param') and (x.get('id') == var or s.assigned_in(n['b'], x['id'])): return None
        if not s.invariant(bound, n['b']): return None
        b = s.ev(bound, st.copy(), this)
        if step > 0:
            if op == '<': hi = b
            elif op == '<=': hi = add(b, ONE)
            elif op == '!=' and step == 1: hi = b
            else: return None
            return var, lo, hi, 1, step
        if step == -1:
            if op == '>=': return var, b, add(lo, ONE), -1, 1
            if op == '>': return var, add(b, ONE), add(lo, ONE), -1, 1
        return None
    def invariant(s, bound, body):
        """a size()/member bound must not be changed by the body: check receiver members assigned/pushed"""
        names = set()
        for x in FX.walk(bound):
            if x['k'] == 'mem': names.add(('m', x['n']))
            if x['k'] == 'ref' and x.get('dk') in ('var', 'param'): names.add(('v', x['id']))
        if not names: return True
        for x in FX.walk(body):
            tgt = None
            if x['k'] == 'asg': tgt = x['l']
            elif x['k'] == 'un' and x['op'] in ('++', '--'): tgt = x['e']
            elif x['k'] == 'mcall' and x['mn'] in ('push_back', 'pop_back', 'push', 'pop', 'clear', 'resize', 'erase', 'insert', 'emplace_back', 'append'): tgt = x.get('b')
            elif x['k'] == 'opc' and x['op'] in ('=', '+='): tgt = x['a'][0]
            if tgt is None: continue
            if tgt['k'] == 'mem' and ('m', tgt['n']) in names: return False
            if tgt['k'] == 'ref' and ('v', tgt.get('id')) in names: return False
        return True
    def s_rfor(s, n, st, this):
        c = s.ev(n['r'], st, this)
        if c.op == 'amap': c = amap_list(c)
        return s.range_loop(c, n['v'], n['b'], st, this, n, lvs=pointed(n['r']), over=(n['r'], this))
    def element_alias(s, v, body, over, st):
        """the container element a reference loop variable stands for, when the body writes it"""
        t = (v.get('t') or '')
        if over is None or not t.rstrip().endswith('&') or t.startswith('const ') or v.get('binds'): return None
        r = over[0]
        while r.get('k') in ('cast', 'conv', 'rcast') and r.get('e'): r = r['e']
        if not s.simple_lv(r) or ismap(r.get('t')) or 'map<' in (r.get('t') or '') or 'set<' in (r.get('t') or ''): return None
        if not writes_to(body, v['id']): return None
        r = s.pin(r, st, over[1])
        def at(st2, i):
            s.n_obj += 1; sid = -s.n_obj; st2.env[sid] = i
            return ({'k': 'sub', 'b': r, 'i': {'k': 'ref', 'dk': 'var', 'id': sid, 'n': '$%d' % -sid, 't': 'unsigned long'}, 't': t.rstrip(' &')}, over[1])
        return at
    def range_loop(s, c, v, body, st, this, n, lam=False, lvs=None, over=None):
        vid = v['id']
        alias = None if lvs else s.element_alias(v, body, over, st)
        n2 = dict(n); n2['b'] = body
        binds = v.get('binds') or []
        def bindv(t, val):
            t.env[vid] = val; t.alias.pop(vid, None)
            for i, b in enumerate(binds):
                bid = b['id'] if isinstance(b, dict) else b
                t.env[bid] = s.at(val, num(i)) if 'array<' in (v.get('t') or '') or val.op in ('list', 'pstore') else s.getf(val, 'first' if i == 0 else 'second', t)
        if s.max_unroll > 16 and c.op not in ('list', 'amap') and s.size(c).op == 'num' and s.size(c).a[0] <= s.max_unroll: c = T('list', tuple(s.at(c, num(i)) for i in range(int(s.size(c).a[0]))))
        if c.op == 'list' and len(c.a) <= max(12, s.max_unroll if s.max_unroll > 16 else 0):
            acc = Flow(); cur = (TRUE, st); brk = None
            for i, x in enumerate(c.a):
                bindv(cur[1], s.ev(lvs[i], cur[1], this) if lvs else x)
                if lvs: cur[1].alias[vid] = (lvs[i], this)
                if alias: cur[1].alias[vid] = alias(cur[1], num(i))
                f = s.ex(body, cur[1], this); cc = cur[0]
                if lam: f.cont = j2(f.cont, (f.ret[0], f.ret[2])) if f.ret else f.cont; f.ret = None
                acc.ret = j3(acc.ret, under(cc, f.ret)); brk = j2(brk, under(cc, f.brk))
                nx = j2(f.fall, f.cont)
                if nx is None: cur = None; break
                cur = (band(cc, nx[0]), nx[1])
            acc.fall = j2(cur, brk)
            return acc
        bv = fresh_bv()
        el = s.at(c, bv)
        def bindel(t):
            bindv(t, el)
            if alias: t.alias[vid] = alias(t, bv)
        return s.core_loop(bv, ZERO, s.size(c), bindel, body, st, this, n2, skip={vid}, lam=lam)
    def changed(s, a, b, skip):
        out = []
        for k in a.env:
            if k in skip: continue
            if b.env.get(k) is not a.env[k]: out.append(('e', k))
        for o, (c, f) in a.heap.items():
            g = b.heap.get(o, (c, {}))[1]
            for k in f.keys() | g.keys():
                if f.get(k) is not g.get(k): out.append(('h', o, k))
        return out
    def getk(s, st, k): return st.env.get(k[1]) if k[0] == 'e' else st.heap[k[1]][1].get(k[2]) if k[1] in st.heap else None
    def setk(s, st, k, v):
        if k[0] == 'e': st.env[k[1]] = v
        else: st.heap[k[1]][1][k[2]] = v
    def core_loop(s, bv, lo, hi, bind, body, st, this, n, skip=frozenset(), rev=False, lam=False):
        mod = []
        for _ in range(6):
            w = st.copy(); w.thr = FALSE; w.eff = ()
            phi = {}
            for k in mod:
                phi[k] = fresh_bv('p'); s.setk(w, k, phi[k])
            base = w.copy()
            bind(w); s.bvs.append(bv)
            try: f = s.ex(body, w, this)
            finally: s.bvs.pop()
            if lam and f.ret:
                f.cont = j2(f.cont, (f.ret[0], f.ret[2])); f.ret = None
            nx = j2(f.fall, f.cont)
            ch = set()
            for x in ((nx[1] if nx else None), (f.brk[1] if f.brk else None), (f.ret[2] if f.ret else None)):
                if x is not None: ch |= set(s.changed(base, x, skip))
            ch = [k for k in ch if k not in mod and s.getk(base, k) is not None]
            if not ch: break
            mod = mod + ch
        else:
            s.unknown('loop-nofix', n)
        phis = list(phi.values())
        out = Flow()
        # conditions of leaving early
        pf = lambda t: not any(contains_term(t, p) for p in phis)
        thr = nx[1].thr if nx else (f.ret[2].thr if f.ret else FALSE)
        retc = f.ret[0] if f.ret else FALSE
        brkc = f.brk[0] if f.brk else FALSE
        if retc is UNDEF: retc = FALSE
        ok = pf(retc) and pf(brkc) and (f.ret is None or pf(f.ret[1]))
        stop = bor(retc, brkc)
        res = st
        fin = {}
        if nx and stop is FALSE and not rev:
            ind = {}
            for k in mod:
                new = s.getk(nx[1], k); p = phi[k]
                if new is not None and new.op == 'add':
                    rest = [x for x in new.a if x is not p]
                    if len(rest) == len(new.a) - 1 and all(pf(x) and not contains_term(x, bv) for x in rest):
                        ind[p] = add(s.getk(st, k), mul(add(*rest), sub(bv, lo)))
            if ind:
                for k in mod:
                    new = s.getk(nx[1], k)
                    if new is None or phi[k] in ind: continue
                    s.setk(nx[1], k, subst(new, ind))
                thr = subst(thr, ind)
        order_dep = rev
        for k in mod:
            init = s.getk(st, k); p = phi[k]
            new = s.getk(nx[1], k) if nx else p
            if new is None: new = p
            if stop is not FALSE and ok:
                # value at break
                bval = s.getk(f.brk[1], k) if f.brk else p
                if new is p and (bval is p or bval is None): fin[k] = init
                elif new is p and pf(bval):
                    x = T('first', (bv, lo, hi, stop, bval)) if contains_term(bval, bv) else bval
                    fin[k] = ite(T('any', (bv, lo, hi, stop)), x, init)
                elif f.brk is None:
                    fin[k] = s.classify(p, new, init, bv, lo, hi, phis, rev) or s.fold(k, phi, nx, st, bv, lo, hi, stop, rev)
                else:
                    fin[k] = s.fold(k, phi, nx, st, bv, lo, hi, stop, rev, f.brk)
            elif stop is not FALSE:
                fin[k] = s.fold(k, phi, nx, st, bv, lo, hi, stop, rev, f.brk)
            else:
                v = s.classify(p, new, init, bv, lo, hi, phis, rev)
                fin[k] = v if v is not None else s.fold(k, phi, nx, st, bv, lo, hi, stop, rev)
        # effects inside the loop
        leff = loop_eff(nx, f)
        if leff: st.eff = st.eff + tuple((band(bnot(st.thr), T('anyi', (bv, lo, hi, e[0]))),) + e[1:] for e in leff)
        for k, v in fin.items(): s.setk(st, k, v)
        if nx:
            for o, cf in nx[1].heap.items():
                if o not in st.heap: st.heap[o] = cf
        if thr is not FALSE:
            t = T('any', (bv, lo, hi, thr)) if pf(thr) else s.unknown('throw-in-loop', n)
            st.thr = bor(st.thr, t)
        if f.ret and f.ret[2].thr is TRUE and f.ret[1] is UNDEF:
            # only throwing exits
            c = T('any', (bv, lo, hi, retc)) if ok else s.unknown('exit', n)
            st.thr = bor(st.thr, c)
            out.fall = (TRUE, st)
            return out
        if f.ret:
            c = T('any', (bv, lo, hi, retc)) if ok else fn('?loopret', *[s.getk(st, k) for k in mod if s.getk(st, k) is not None])
            rv = f.ret[1]
            if ok and (contains_term(rv, bv)): rv = T('first', (bv, lo, hi, retc, rv))
            elif not ok: rv = fn('?loopretval', T('fold', tuple([bv, lo, hi] + phis + [rv])))
            if not ok: s.unk.append(('loop exit depends on carried value', n.get('ln')))
            rs = st.copy()
            for o, cf in f.ret[2].heap.items():
                if o not in rs.heap: rs.heap[o] = cf
            out.ret = (c, rv, rs)
            out.fall = (bnot(c), st)
        else:
            out.fall = (TRUE, st)
        return out
    def fold(s, k, phi, nx, st, bv, lo, hi, stop, rev, brk=None):
        """generic loop-carried value: alpha-canonical structural term.  Only the carried variables this one depends on are kept."""
        need = [k]; i = 0
        bodies = {}
        while i < len(need):
            kk = need[i]; i += 1
            new = s.getk(nx[1], kk) if nx else phi[kk]
            bodies[kk] = new
            for k2, p in phi.items():
                if k2 not in need and new is not None and (contains_term(new, p) or contains_term(stop, p)): need.append(k2)
        parts = [bv, lo, hi] + [s.getk(st, x) or NONE for x in need] + [phi[x] for x in need] + [bodies[x] or NONE for x in need] + [stop]
        if brk is not None: parts += [s.getk(brk[1], k) or NONE]
        parts.append(string('rev' if rev else 'fwd'))
        return T('fold', tuple(parts))
    def lin(s, new, p, phis):
        if new is p: return ZERO
        if new is UNDEF: return ZERO
        if new.op == 'add':
            hit = [x for x in new.a if x is p]
            if len(hit) == 1 and not any(contains_term(x, q) for x in new.a if x is not p for q in phis):
                return add(*[x for x in new.a if x is not p])
            cond = [x for x in new.a if x.op == 'ite' and contains_term(x, p)]
            rest = [x for x in new.a if not (x.op == 'ite' and contains_term(x, p))]
            if len(cond) == 1 and not any(contains_term(x, q) for x in rest for q in phis):
                d = s.lin(cond[0], p, phis)
                return None if d is None else add(d, *rest)
            return None
        if new.op == 'ite' and not any(contains_term(new.a[0], q) for q in phis):
            a = s.lin(new.a[1], p, phis); b = s.lin(new.a[2], p, phis)
            if a is None or b is None: return None
            return ite(new.a[0], a, b)
        if new.op == 'mul': return None
        return None
    def fac(s, new, p, phis):
        if new is p: return ONE
        if new.op == 'mul':
            hit = [x for x in new.a if x is p]
            if len(hit) == 1 and not any(contains_term(x, q) for x in new.a if x is not p for q in phis):
                return mul(*[x for x in new.a if x is not p])
            return None
        if new.op == 'ite' and not any(contains_term(new.a[0], q) for q in phis):
            a = s.fac(new.a[1], p, phis); b = s.fac(new.a[2], p, phis)
            return None if a is None or b is None else ite(new.a[0], a, b)
        return None
    def classify(s, p, new, init, bv, lo, hi, phis, rev):
        if new is p: return init
        pf = lambda t: not any(contains_term(t, q) for q in phis)
        nonempty = lt(lo, hi, True)
        if pf(new):
            if not contains_term(new, bv): return ite(nonempty, new, init)
            return ite(nonempty, subst(new, {bv: lo if rev else sub(hi, ONE)}), init)
        d = s.lin(new, p, phis)
        if d is not None: return add(init, tsum(bv, lo, hi, d))
        m = s.fac(new, p, phis)
        if m is not None: return mul(init, T('prod', (bv, lo, hi, m)))
        # boolean accumulators
        if new.op == 'or' and p in new.a:
            r = bor(*[x for x in new.a if x is not p])
            if pf(r): return bor(init, T('any', (bv, lo, hi, r)))
        if new.op == 'and' and p in new.a:
            r = band(*[x for x in new.a if x is not p])
            if pf(r): return band(init, T('all', (bv, lo, hi, r)))
        if new.op == 'ite':
            c, a, b = new.a
            if pf(c):
                if b is p and pf(a):
                    if not contains_term(a, bv): return ite(T('any', (bv, lo, hi, c)), a, init)
                    return T('last' if not rev else 'first', (bv, lo, hi, c, a, init))
                if a is p and pf(b):
                    if not contains_term(b, bv): return ite(T('any', (bv, lo, hi, bnot(c))), b, init)
                    return T('last' if not rev else 'first', (bv, lo, hi, bnot(c), b, init))
            # max/min through comparison
            for (x, y) in ((a, b), (b, a)):
                if y is p and pf(x):
                    cond = c if x is a else bnot(c)   # value becomes x when cond
                    # strip not
                    cc = cond; neg_ = False
                    if cc.op == 'not': cc = cc.a[0]; neg_ = True
                    if cc.op in ('flt', 'ilt') and set(cc.a) == {p, x}:
                        less = cc.a[0] is p      # p < x
                        if neg_: less = not less
                        kd = 'maxf' if less else 'minf'; return loopmax(kd, init, T(kd, (bv, lo, hi, x)))
        if new.op == 'fn' and new.a[0] in ('max', 'min', 'imax', 'imin') and p in new.a[1:]:
            r = [x for x in new.a[1:] if x is not p]
            if len(r) == 1 and pf(r[0]):
                kd = 'maxf' if new.a[0].endswith('max') else 'minf'
                return loopmax(kd, init, T(kd, (bv, lo, hi, r[0])))
        # containers
        c = s.pushes(new, p, pf)
        if c is not None:
            els, cond = c
            if cond is TRUE and len(els) == 1:
                m = T('map', (bv, lo, hi, els[0])) if not rev else T('map', (bv, lo, hi, subst(els[0], {bv: sub(add(lo, hi, num(-1)), bv)})))
                if init.op == 'list' and not init.a: return m
                return T('cat', (init, m))
            return T('cat', (init, T('filt', (bv, lo, hi, cond) + tuple(els)))) 
        if new.op == 'fn' and new.a[0] == 'concat' and new.a[1] is p and all(pf(x) for x in new.a[2:]):
            return fn('concat', init, T('sjoin', (bv, lo, hi) + tuple(new.a[2:])))
        if new.op == 'pstore' and new.a[0] is p:
            ix = new.a[2:]; val = new.a[1]
            v2 = s.unread(val, p, ix, init)
            if v2 is not None and all(pf(q) for q in ix) and pf(v2):
                return pupd(init, v2, [(bv, lo, hi)], tuple(ix))
        if new.op == 'pupd' and new.a[0] is p:
            nb = new.a[2]; ix = new.a[3 + 3 * nb:]; val = new.a[1]
            v2 = s.unread(val, p, ix, init)
            if v2 is not None and pf(v2) and all(pf(q) for q in new.a[3:]):
                return pupd(init, v2, [(bv, lo, hi)] + [tuple(new.a[3 + 3 * q:6 + 3 * q]) for q in range(nb)], tuple(ix))
        return None
    def unread(s, val, p, ix, init):
        """val may read p at the same index: replace by init at that index"""
        if not contains_term(val, p): return val
        r = p
        for q in ix: r = fn('at', r, q)
        v = subst(val, {r: s.at(init, *ix)})
        return v if not contains_term(v, p) else None
    def pushes(s, new, p, pf):
        if new.op == 'push' and new.a[0] is p and pf(new.a[1]): return [new.a[1]], TRUE
        if new.op == 'push' and new.a[0].op == 'push' and new.a[0].a[0] is p and pf(new.a[1]) and pf(new.a[0].a[1]): return [new.a[0].a[1], new.a[1]], TRUE
        if new.op == 'ite' and pf(new.a[0]):
            if new.a[2] is p:
                r = s.pushes(new.a[1], p, pf)
                if r: return r[0], band(new.a[0], r[1])
            elif new.a[1] is p:
                r = s.pushes(new.a[2], p, pf)
                if r: return r[0], band(bnot(new.a[0]), r[1])
            else:
                a = s.pushes(new.a[1], p, pf); b = s.pushes(new.a[2], p, pf)
                if a and b and a[1] is TRUE and b[1] is TRUE and len(a[0]) == len(b[0]) == 1:
                    return [ite(new.a[0], a[0][0], b[0][0])], TRUE
        return None
    def s_while(s, n, st, this): 
        # while (i < n) { ...; i++; } is recognised as a counted loop when the increment is the last statement
        w = s.while_as_for(n, st)
        if w is not None: return s.s_for(w, st, this)
        return s.gen_loop(n['c'], None, n['b'], st, this, n)
    def while_as_for(s, n, st):
        b = n['b']
        if b['k'] != 'blk' or not b['a']: return None
        last = b['a'][-1]
        if last['k'] not in ('un', 'asg'): return None
        if any(x['k'] == 'cont' for x in FX.walk(b)): return None
        return {'k': 'for', 'init': None, 'c': n['c'], 'inc': last, 'b': {'k': 'blk', 'a': b['a'][:-1], 'ln': b.get('ln')}, 'ln': n.get('ln')} \
            if s.counted({'c': n['c'], 'inc': last, 'b': {'k': 'blk', 'a': b['a'][:-1]}}, st, None) is not None else None
    def s_do(s, n, st, this):
        return s.gen_loop(n['c'], None, n['b'], st, this, n, post=True)
    def gen_loop(s, cond, inc, body, st, this, n, post=False, depth=0):
        """uncounted loop: iterations whose condition is a constant are unrolled; then carried values become alpha-canonical while-terms"""
        if not post and cond:
            acc = Flow(); cur = (TRUE, st); brk = None; k = 0
            while k <= 24:
                w = cur[1].copy(); nu = len(s.unk)
                c = s.tobool(s.ev(cond, w, this))
                if c is FALSE:
                    acc.fall = j2((cur[0], w), brk); return acc
                if c is not TRUE or k == 24: del s.unk[nu:]; break
                k += 1
                f = s.ex(body, w, this)
                acc.ret = j3(acc.ret, under(cur[0], f.ret))
                brk = j2(brk, under(cur[0], f.brk))
                nx = j2(f.fall, f.cont)
                if nx is None: acc.fall = brk; return acc
                cur = (band(cur[0], nx[0]), nx[1])
                if inc: s.ev(inc, cur[1], this)
            if k and k < 24:
                f = s.gen_loop1(cond, inc, body, cur[1], this, n)
                acc.ret = j3(acc.ret, under(cur[0], f.ret))
                acc.fall = j2(under(cur[0], f.fall), brk); return acc
        if post and cond:
            # a do-while runs its body once; peel it when the condition after it is a constant
            w = st.copy(); nu = len(s.unk)
            f = s.ex(body, w, this)
            nx = j2(f.fall, f.cont)
            if nx is None:
                out = Flow(); out.ret = f.ret; out.fall = f.brk; return out
            t = nx[1].copy(); c = s.tobool(s.ev(cond, t, this))
            if c is TRUE or c is FALSE:
                out = Flow(); out.ret = f.ret
                if c is FALSE: out.fall = j2((nx[0], t), f.brk); return out
                g = s.gen_loop(cond, inc, body, t, this, n, True, depth + 1) if depth < 12 else s.gen_loop1(cond, inc, body, t, this, n, True)
                out.ret = j3(out.ret, under(nx[0], g.ret)); out.fall = j2(under(nx[0], g.fall), f.brk)
                return out
            del s.unk[nu:]
        return s.gen_loop1(cond, inc, body, st, this, n, post)
    def gen_loop1(s, cond, inc, body, st, this, n, post=False):
        mod = []
        for _ in range(6):
            w = st.copy(); w.thr = FALSE; w.eff = ()
            phi = {}
            for k in mod: phi[k] = fresh_bv('w'); s.setk(w, k, phi[k])
            base = w.copy()
            c = s.tobool(s.ev(cond, w, this)) if cond else TRUE
            f = s.ex(body, w, this)
            nx = j2(f.fall, f.cont)
            if nx and inc: s.ev(inc, nx[1], this)
            ch = set()
            for x in ((nx[1] if nx else None), (f.brk[1] if f.brk else None), (f.ret[2] if f.ret else None)):
                if x is not None: ch |= set(s.changed(base, x, ()))
            ch = [k for k in ch if k not in mod and s.getk(base, k) is not None]
            if not ch: break
            mod = mod + ch
        keys = sorted(mod, key=str)
        def nxt(k):
            # the value an iteration leaves: that of a leaving iteration too
            v = (s.getk(nx[1], k) if nx else None) or phi[k]
            for x in (f.brk, f.ret):
                if x is not None:
                    o = s.getk(x[-1], k)
                    if o is not None and o is not v: v = gite(x[0], o, v) if nx or x is not (f.brk or f.ret) else o
            return v
        stop = bor(f.brk[0] if f.brk else FALSE, f.ret[0] if f.ret else FALSE)
        vals = {}
        for k in keys:
            need = [k]; i = 0
            while i < len(need):
                new = nxt(need[i])
                i += 1
                for k2, p in phi.items():
                    if k2 not in need and (contains_term(new, p) or contains_term(c, p) or contains_term(stop, p)): need.append(k2)
            vals[k] = T('fold', tuple([string('while')] + [s.getk(st, x) or NONE for x in need] + [phi[x] for x in need] +
                                   [c, stop] + [nxt(x) for x in need]))
        s.unk.append(('uncounted loop', n.get('ln')))
        pc = c if not post else TRUE
        st.eff = st.eff + tuple((band(bnot(st.thr), pc, e[0]),) + e[1:] for e in loop_eff(nx, f))
        for k in keys: s.setk(st, k, vals[k])
        if nx:
            for o, cf in nx[1].heap.items():
                if o not in st.heap: st.heap[o] = cf
            if nx[1].thr is not FALSE and not s.handlers: st.thr = bor(st.thr, fn('?thr'))
        out = Flow()
        if s.handlers:
            # what happens in some iteration: its condition in terms of the values that iteration starts with
            some = lambda t: t if t in (TRUE, FALSE) else T('anyi', (fresh_bv('w'), num(0), fn('iterations', num(n.get('ln') or 0)), t))
            thr = bor(*[band(pc, x[0], x[-1].thr) for x in (nx, f.brk, f.ret) if x is not None] or [FALSE])
            if thr is not FALSE: st.thr = bor(st.thr, some(thr))
            if f.ret and f.ret[1] is not UNDEF:
                q = some(band(pc, f.ret[0]))
                out.ret = (q, f.ret[1], st.copy()); out.fall = (bnot(q), st)
            else: out.fall = (TRUE, st)
            return out
        if f.ret:
            q = fn('?wret', T('fold', tuple([string('wret')] + [s.getk(st, k) for k in keys] + list(phi.values()) + [f.ret[0]])))
            rv = T('fold', tuple([string('wretv')] + list(phi.values()) + [f.ret[1]])) if f.ret[1] is not UNDEF else UNDEF
            if f.ret[1] is UNDEF:
                st.thr = bor(st.thr, q); out.fall = (TRUE, st)
            else:
                out.ret = (q, rv, st.copy()); out.fall = (bnot(q), st)
        else: out.fall = (TRUE, st)
        return out

import alg as _alg
_I = Interp.__new__(Interp)
_alg.REBUILD_AT = lambda c, i: Interp.at(_I, c, i)
_alg.REBUILD_SIZE = lambda c: Interp.size(_I, c)
