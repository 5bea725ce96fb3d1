"""Algebraic normal form for value-graph terms.

Terms are hash-consed.  Every scalar term has a normal form: an ordered
decision graph over canonical comparison literals whose leaves are Laurent
polynomials (with inverse atoms) over uninterpreted atoms.  Two terms are equal
iff at every jointly feasible leaf the difference clears to the zero polynomial.
Nothing is ever evaluated on a concrete input; there is no path enumeration of
the program and no solver -- loops have already become indexed sums/folds and
branches gated merges when a term reaches this module.
"""
from fractions import Fraction
from functools import reduce
import itertools, sys
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- raw terms
class T(object):
    __slots__ = ('op', 'a', 'id', 'ty')
    _tab = {}
    _n = 0
    def __new__(cls, op, a=()):
        k = (op,) + tuple((x.id if isinstance(x, T) else x, isinstance(x, T), type(x)) for x in a)
        r = T._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op = op; r.a = tuple(a); T._n += 1; r.id = T._n
            T._tab[k] = r
        return r
    def __repr__(s): return show(s)
    def __hash__(s): return s.id
    def __eq__(s, o): return s is o

def num(v):
    if isinstance(v, float): v = Fraction(repr(v)) if 'e' not in repr(v) and 'n' not in repr(v) else Fraction(v)
    return T('num', (Fraction(v),))
def fnum(txt):
    try: return T('num', (Fraction('%.7g' % float(txt)),))     # literals are compared at single precision
    except (ValueError, OverflowError): return sym('flt:' + str(txt))
def string(s): return T('str', (s,))
TRUE = T('bool', (True,)); FALSE = T('bool', (False,))
def boolean(b): return TRUE if b else FALSE
def sym(n): return T('sym', (n,))
def fn(name, *args):
    if name in ('imin', 'imax', 'min', 'max') and len(args) == 2 and args[0].op == 'num' and args[1].op == 'num':
        return (min if name.endswith('min') else max)(args, key=lambda x: x.a[0])
    return T('fn', (name,) + tuple(args))
ZERO = num(0); ONE = num(1)
NONE = T('none')

def is_num(t): return t.op == 'num'
def add(*xs):
    out = []; c = Fraction(0)
    for x in xs:
        if x.op == 'num': c += x.a[0]
        elif x.op == 'add':
            for y in x.a:
                if y.op == 'num': c += y.a[0]
                else: out.append(y)
        else: out.append(x)
    if c != 0 or not out: out.append(num(c))
    return out[0] if len(out) == 1 else T('add', out)
def mul(*xs):
    out = []; c = Fraction(1)
    for x in xs:
        if x.op == 'num': c *= x.a[0]
        elif x.op == 'mul':
            for y in x.a:
                if y.op == 'num': c *= y.a[0]
                else: out.append(y)
        else: out.append(x)
    if c == 0: return ZERO
    if c != 1 or not out: out.append(num(c))
    return out[0] if len(out) == 1 else T('mul', out)
def neg(x): return mul(num(-1), x)
def sub(a, b): return add(a, neg(b))
def div(a, b):
    if b.op == 'num' and b.a[0] != 0: return mul(a, num(1 / b.a[0]))
    return T('div', (a, b))
def idiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        q = a.a[0] / b.a[0]; return num(int(q))
    if b is ONE or a is ZERO: return a
    return T('idiv', (a, b))
def mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] > 0 and a.a[0] >= 0: return num(a.a[0] % b.a[0])
    if a is ZERO: return a
    return T('mod', (a, b))
def bnot(c):
    if c.op == 'bool': return boolean(not c.a[0])
    if c.op == 'not': return c.a[0]
    return T('not', (c,))
def band(*cs):
    out = []
    for c in cs:
        if c is FALSE: return FALSE
        if c is TRUE: continue
        for d in (c.a if c.op == 'and' else (c,)):
            if d not in out: out.append(d)
    for c in out:
        if bnot(c) in out: return FALSE
    if not out: return TRUE
    return out[0] if len(out) == 1 else T('and', out)
def bor(*cs):
    out = []
    for c in cs:
        if c is TRUE: return TRUE
        if c is FALSE: continue
        for d in (c.a if c.op == 'or' else (c,)):
            if d not in out: out.append(d)
    for c in out:
        if bnot(c) in out: return TRUE
    if not out: return FALSE
    return out[0] if len(out) == 1 else T('or', out)
def lt(a, b, integer):
    if a.op == 'num' and b.op == 'num': return boolean(a.a[0] < b.a[0])
    if a is b: return FALSE
    return T('ilt' if integer else 'flt', (a, b))
def le(a, b, integer):
    return bnot(lt(b, a, integer))
def eq(a, b, kind='f'):
    if a is b: return TRUE
    if a.op == 'num' and b.op == 'num': return boolean(a.a[0] == b.a[0])
    if a.op == 'str' and b.op == 'str': return boolean(a.a[0] == b.a[0])
    if a.op == 'bool' and b.op == 'bool': return boolean(a.a[0] == b.a[0])
    if a.op == 'bool': return b if a is TRUE else bnot(b)
    if b.op == 'bool': return a if b is TRUE else bnot(a)
    if a.id > b.id: a, b = b, a
    return T('ieq' if kind == 'i' else ('feq' if kind == 'f' else 'teq'), (a, b))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return bnot(c)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is c: a = TRUE
    elif a.op == 'not' and a.a[0] is c: a = FALSE
    if b is c: b = FALSE
    elif b.op == 'not' and b.a[0] is c: b = TRUE
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return bnot(c)
    return T('ite', (c, a, b))
_bv = [0]
def fresh_bv(tag='i'):
    _bv[0] += 1
    return T('bv', (_bv[0], tag))
def tsum(bv, lo, hi, body):
    if body is ZERO: return ZERO
    return T('sum', (bv, lo, hi, body))

def alike(a, b):
    """equal up to the names of bound variables (syntactically)"""
    fw, bw, seen = {}, {}, set()
    def go(a, b):
        if (a.id, b.id) in seen: return True
        if a.op == 'bv' or b.op == 'bv':
            if a.op != b.op: return False
            return fw.setdefault(a, b) is b and bw.setdefault(b, a) is a
        if a.op != b.op or len(a.a) != len(b.a): return False
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) != isinstance(y, T): return False
            if isinstance(x, T):
                if not go(x, y): return False
            elif x != y: return False
        seen.add((a.id, b.id))
        return True
    return a is b or go(a, b)
def subst(t, m, memo=None):
    """substitute terms (dict T->T)"""
    if memo is None: memo = {}
    if t in m: return m[t]
    if t.id in memo: return memo[t.id]
    if not t.a or t.op in ('num', 'str', 'bool', 'sym', 'bv'):
        r = t
    else:
        na = [subst(x, m, memo) if isinstance(x, T) else x for x in t.a]
        r = rebuild(t.op, na)
    memo[t.id] = r
    return r
def rebuild(op, a):
    if op == 'add': return add(*a)
    if op == 'mul': return mul(*a)
    if op == 'div': return div(*a)
    if op == 'idiv': return idiv(*a)
    if op == 'mod': return mod(*a)
    if op == 'not': return bnot(*a)
    if op == 'and': return band(*a)
    if op == 'or': return bor(*a)
    if op == 'ilt': return lt(a[0], a[1], True)
    if op == 'flt': return lt(a[0], a[1], False)
    if op == 'ieq': return eq(a[0], a[1], 'i')
    if op == 'feq': return eq(a[0], a[1], 'f')
    if op == 'teq': return eq(a[0], a[1], 't')
    if op == 'ite': return ite(*a)
    if op == 'fn' and a[0] == 'at' and len(a) == 3: return REBUILD_AT(a[1], a[2])
    if op == 'fn' and a[0] == 'resize' and a[1].op == 'list' and not a[1].a: return T('filln', (a[2], a[3]))
    if op == 'fn' and a[0] == 'size' and a[1].op != 'fn': return REBUILD_SIZE(a[1])
    return T(op, a)
REBUILD_AT = lambda c, i: map_at(c, i) if c.op == 'map' else T('fn', ('at', c, i))
REBUILD_SIZE = lambda c: T('fn', ('size', c))
def map_at(m, ix):
    """element ix of map(bv, lo, hi, body)"""
    bv, lo, hi, body = m.a
    return subst(body, {bv: add(ix, lo)})
def contains_term(t, x, memo=None):
    if memo is None: memo = {}
    if t is x: return True
    if t.id in memo: return memo[t.id]
    memo[t.id] = False
    r = any(isinstance(y, T) and contains_term(y, x, memo) for y in t.a)
    memo[t.id] = r
    return r
def walk(t, seen=None):
    if seen is None: seen = set()
    if t.id in seen: return
    seen.add(t.id)
    yield t
    for y in t.a:
        if isinstance(y, T):
            for z in walk(y, seen): yield z

def show(t, d=0):
    if not isinstance(t, T): return str(t)
    o, a = t.op, t.a
    if o == 'num':
        v = a[0]
        return str(v) if v.denominator == 1 else repr(float(v))
    if o == 'str': return repr(a[0])
    if o == 'bool': return 'true' if a[0] else 'false'
    if o == 'sym': return str(a[0])
    if o == 'bv': return '%s%d' % (a[1], a[0])
    if o == 'add': return '(' + ' + '.join(show(x) for x in a) + ')'
    if o == 'mul': return '*'.join(show(x) for x in a)
    if o == 'div': return '(%s / %s)' % (show(a[0]), show(a[1]))
    if o in ('ilt', 'flt'): return '(%s < %s)' % (show(a[0]), show(a[1]))
    if o in ('ieq', 'feq', 'teq'): return '(%s == %s)' % (show(a[0]), show(a[1]))
    if o == 'not': return '!' + show(a[0])
    if o == 'and': return '(' + ' && '.join(show(x) for x in a) + ')'
    if o == 'or': return '(' + ' || '.join(show(x) for x in a) + ')'
    if o == 'ite': return '[%s ? %s : %s]' % tuple(show(x) for x in a)
    if o == 'sum': return 'SUM{%s=%s..%s}(%s)' % tuple(show(x) for x in a)
    if o == 'fn': return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(show(x) for x in a))

# ---------------------------------------------------------------- polynomials
# atom: hashable tuple key (sortable by repr through AT registry)
class Atoms(object):
    """registry giving each atom key a stable text used for ordering"""
    def __init__(s):
        s.text = {}
def akey(a): return a  # atoms are strings (canonical text)

# Atom text -> info needed for substitution / bv dependence
ATOM = {}   # text -> dict(kind, parts)
def mk_atom(text, **info):
    if text not in ATOM: ATOM[text] = info
    return text

class Poly(object):
    __slots__ = ('t', '_k')
    def __init__(s, terms): s.t = terms; s._k = None     # dict: mono(tuple of (atom,exp)) -> Fraction
    @staticmethod
    def const(c): return Poly({(): Fraction(c)} if c != 0 else {})
    @staticmethod
    def atom(a, e=1): return Poly({((a, Fraction(e)),): Fraction(1)})
    def __add__(s, o):
        r = dict(s.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n == 0: r.pop(m, None)
            else: r[m] = n
        return Poly(r)
    def scale(s, c): return Poly({m: v * c for m, v in s.t.items()}) if c != 0 else Poly({})
    def __sub__(s, o): return s + o.scale(-1)
    def __mul__(s, o):
        r = {}
        extra = None
        for m, c in s.t.items():
            for n, d in o.t.items():
                k, ex = mono_mul(m, n)
                if ex is None:
                    v = r.get(k, 0) + c * d
                    if v == 0: r.pop(k, None)
                    else: r[k] = v
                else:
                    p = ex.scale(c * d) * Poly({k: Fraction(1)})
                    extra = p if extra is None else extra + p
        R = Poly(r)
        return R if extra is None else R + extra
    def is_zero(s): return not s.t
    def is_const(s): return not s.t or (len(s.t) == 1 and () in s.t)
    def cval(s): return s.t.get((), Fraction(0))
    def key(s):
        if s._k is None:
            s._k = '+'.join('%s%s' % (c if c != 1 or not m else '', ''.join('.' + a + ('' if e == 1 else '^%s' % e) for a, e in m))
                            for m, c in sorted(s.t.items(), key=lambda mc: mono_sort(mc[0]))) or '0'
        return s._k
    def atoms(s):
        r = set()
        for m in s.t:
            for a, e in m: r.add(a)
        return r
    def __repr__(s): return s.key()

def mono_sort(m): return (len(m), tuple((a, e) for a, e in m))
def mono_mul(m, n):
    if not m: return n, None
    if not n: return m, None
    d = dict(m)
    extra = None
    for a, e in n:
        v = d.get(a, 0) + e
        if v == 0: d.pop(a, None)
        else: d[a] = v
    # reduce sqrt atoms
    for a in list(d):
        if a.startswith('sqrt{') and (d[a] >= 2 or d[a] <= -2):
            base = ATOM[a]['poly']
            q = int(d[a] / 2) if d[a] > 0 else -int(-d[a] / 2)
            rest = d[a] - 2 * q
            if rest == 0: d.pop(a)
            else: d[a] = rest
            f = ppow(base, q) if q > 0 else pinv(ppow(base, -q))
            extra = f if extra is None else extra * f
    return tuple(sorted(d.items())), extra
def ppow(p, n):
    r = Poly.const(1)
    for _ in range(n): r = r * p
    return r
def pinv(p):
    if p.is_zero(): return Poly.atom(mk_atom('inf', kind='const'))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((a, -e) for a, e in m): 1 / c})
    # primitive/monic
    lm = min(p.t, key=mono_sort)
    c = p.t[lm]
    # factor common monomial
    com = None
    for m in p.t:
        dm = dict(m)
        if com is None: com = dm
        else: com = {a: min(com.get(a, 0), dm.get(a, 0)) for a in set(com) | set(dm)}
    com = {a: e for a, e in com.items() if e != 0}
    q = Poly({})
    for m, v in p.t.items():
        k, _ = mono_mul(m, tuple(sorted((a, -e) for a, e in com.items())))
        q = q + Poly({k: v})
    lm = min(q.t, key=mono_sort); c = q.t[lm]
    q = q.scale(1 / c)
    at = mk_atom('inv{' + q.key() + '}', kind='inv', poly=q)
    return Poly({tuple(sorted([(at, Fraction(1))] + [(a, -e) for a, e in com.items()])): 1 / c})
def pzero(p):
    """zero test after clearing inverse atoms"""
    for _ in range(12):
        if p.is_zero(): return True
        inv = [a for a in p.atoms() if a.startswith('inv{')]
        if not inv:
            # clear sqrt denominators etc: nothing more to do
            return False
        a = max(inv, key=len)
        k = max(dict(m).get(a, 0) for m in p.t)
        P = ATOM[a]['poly']
        r = Poly({})
        for m, c in p.t.items():
            d = dict(m); e = d.pop(a, 0)
            if (k - e) != int(k - e): return False
            r = r + Poly({tuple(sorted(d.items())): c}) * ppow(P, int(k - e))
        p = r
    return p.is_zero()

# ---------------------------------------------------------------- decision graphs
# Leaf: ('L', Poly) or ('S', text) ; Node: ('N', lit, hi, lo)
# lit: text; LIT[text] = info
LIT = {}
class DG(object):
    __slots__ = ('lit', 'hi', 'lo', 'leaf', 'key', 'id')
    _tab = {}
    _n = 0
def leaf(v):
    k = ('P', v.key()) if isinstance(v, Poly) else ('S', v)
    r = DG._tab.get(k)
    if r is None:
        r = DG(); r.lit = None; r.hi = r.lo = None; r.leaf = v
        r.key = v.key() if isinstance(v, Poly) else '"%s"' % (v,)
        DG._n += 1; r.id = DG._n; DG._tab[k] = r
    return r
def node(lit, hi, lo):
    if hi is lo: return hi
    k = ('N', lit, hi.id, lo.id)
    r = DG._tab.get(k)
    if r is None:
        r = DG(); r.lit = lit; r.hi = hi; r.lo = lo; r.leaf = None
        r.key = None
        DG._n += 1; r.id = DG._n; DG._tab[k] = r
    return r
def dkey(d):
    if d.key is None: d.key = '(%s?%s:%s)' % (d.lit, dkey(d.hi), dkey(d.lo))
    return d.key
LT = leaf('true'); LF = leaf('false')

class TooBig(Exception): pass
LIMIT = 200000
_ops = [0]
def top(ds):
    ls = [d.lit for d in ds if d.lit is not None]
    return min(ls) if ls else None
def cof(d, lit, v):
    if d.lit == lit: return d.hi if v else d.lo
    return d
def apply(f, *ds):
    memo = {}
    def go(xs):
        k = tuple(x.id for x in xs)
        if k in memo: return memo[k]
        _ops[0] += 1
        if _ops[0] > LIMIT: raise TooBig()
        l = top(xs)
        if l is None: r = f(*[x.leaf for x in xs])
        else:
            h = go([cof(x, l, True) for x in xs]); o = go([cof(x, l, False) for x in xs])
            r = mknode(l, h, o)
        memo[k] = r
        return r
    return go(list(ds))
def mknode(l, h, o):
    """node(l,h,o) keeping the variable order even if h/o have smaller tops"""
    if h is o: return h
    t = top([h, o])
    if t is None or l < t: return node(l, h, o)
    if t == l: return mknode(l, cof(h, l, True), cof(o, l, False))
    return node(t, mknode(l, cof(h, t, True), cof(o, t, True)), mknode(l, cof(h, t, False), cof(o, t, False)))
def dite(c, a, b):
    """c boolean DG"""
    memo = {}
    def go(c, a, b):
        if c is LT: return a
        if c is LF: return b
        if a is b: return a
        k = (c.id, a.id, b.id)
        if k in memo: return memo[k]
        _ops[0] += 1
        if _ops[0] > LIMIT: raise TooBig()
        l = top([c, a, b])
        if c.lit is None:  # non boolean leaf: uninterpreted
            l2 = mk_lit('b:' + c.key, kind='bool'); r = mknode(l2, a, b)
        else:
            r = mknode(l, go(cof(c, l, True), cof(a, l, True), cof(b, l, True)), go(cof(c, l, False), cof(a, l, False), cof(b, l, False)))
        memo[k] = r
        return r
    return go(c, a, b)
def dnot(c): return dite(c, LF, LT)
def mk_lit(text, **info):
    if text not in LIT: LIT[text] = info
    return text

# literals ------------------------------------------------------------------
def lit_gt0(p, integer):
    """DG for p > 0 (integer: p integer valued)"""
    if p.is_const(): return LT if p.cval() > 0 else LF
    c0 = p.cval()
    base = p - Poly.const(c0)
    ats = p.atoms()
    if not integer and any(a.startswith('inv{') for a in ats):
        pass
    lm = min(base.t, key=mono_sort); lc = base.t[lm]
    if integer:
        # base + c0 >= 1
        den = reduce(lambda x, y: x * y // _gcd(x, y), [v.denominator for v in base.t.values()], 1)
        base = base.scale(den); k = 1 - c0 * den if den == 1 else None
        if k is None:  # p>0 with scaled: base*den + c0*den > 0  -> >= floor(-c0*den)+1
            k = Fraction((-c0 * den).__floor__() + 1)
        g = reduce(_gcd, [abs(int(v)) for v in base.t.values()])
        base = base.scale(Fraction(1, g)); k = Fraction((k / g).__ceil__())
        lm = min(base.t, key=mono_sort); lc = base.t[lm]
        if lc > 0:
            l = mk_lit('i>=:%s:%s' % (base.key(), _nk(k)), kind='ige', base=base, k=k)
            return node(l, LT, LF)
        nb = base.scale(-1)   # base >= k  <=> nb <= -k <=> not (nb >= -k+1)
        l = mk_lit('i>=:%s:%s' % (nb.key(), _nk(-k + 1)), kind='ige', base=nb, k=-k + 1)
        return node(l, LF, LT)
    s = 1 / abs(lc)
    base = base.scale(s); k = -c0 * s     # base > k
    if lc > 0:
        l = mk_lit('f>:%s:%s' % (base.key(), _nk(k)), kind='fgt', base=base, k=k)
        return node(l, LT, LF)
    nb = base.scale(-1)    # base > k  <=> nb < -k
    l = mk_lit('f<:%s:%s' % (nb.key(), _nk(-k)), kind='flt', base=nb, k=-k)
    return node(l, LT, LF)
def _nk(k): return '%024.8f|%s' % (float(k), k)
def _gcd(a, b):
    a, b = int(a), int(b)
    while b: a, b = b, a % b
    return a or 1
def lit_eq0(p, integer):
    if p.is_const(): return LT if p.cval() == 0 else LF
    if pzero(p): return LT
    c0 = p.cval(); base = p - Poly.const(c0)
    lm = min(base.t, key=mono_sort); lc = base.t[lm]
    base = base.scale(1 / lc); k = -c0 / lc
    l = mk_lit('%s=:%s:%s' % ('i' if integer else 'f', base.key(), _nk(k)), kind='ieq' if integer else 'feq', base=base, k=k)
    return node(l, LT, LF)

# context: interval per base ---------------------------------------------------
class Ctx(object):
    """facts about base polynomials: (lo, lo_strict, hi, hi_strict, ne-set, eqval)"""
    __slots__ = ('b', 'lits', 'lin')
    def __init__(s, b=None, lits=None, lin=None): s.b = b or {}; s.lits = lits or {}; s.lin = lin or ()
    def get(s, base):
        k = base.key()
        if k in s.b: return s.b[k]
        lo = None
        if len(base.t) == 1:
            (m, c), = base.t.items()
            if c > 0 and all(ATOM.get(a, {}).get('nonneg') for a, e in m): lo = Fraction(0)
        elif all(c > 0 and all(ATOM.get(a, {}).get('nonneg') for a, e in m) for m, c in base.t.items()):
            lo = Fraction(0)
        return (lo, False, None, False, frozenset())
    def assume(s, lit, v):
        """returns new context or None if contradictory"""
        info = LIT[lit]
        kd = info['kind']
        if kd in ('ige', 'fgt', 'flt', 'ieq', 'feq'):
            d = s.decide(lit)
            if d is not None and d != v: return None
            nb = dict(s.b)
            base, k = info['base'], info['k']
            lo, ls, hi, hs, ne = s.get(base)
            integer = kd[0] == 'i'
            if kd in ('ieq', 'feq'):
                if v: lo, ls, hi, hs = k, False, k, False
                else: ne = ne | {k}
            elif kd == 'ige':
                if v: lo, ls = max2(lo, ls, k, False)
                else: hi, hs = min2(hi, hs, k - 1, False)
            elif kd == 'fgt':
                if v: lo, ls = max2(lo, ls, k, True)
                else: hi, hs = min2(hi, hs, k, False)
            elif kd == 'flt':
                if v: hi, hs = min2(hi, hs, k, True)
                else: lo, ls = max2(lo, ls, k, False)
            if integer:
                ch = True
                while ch:
                    ch = False
                    if lo is not None and lo in ne: lo += 1; ch = True
                    if hi is not None and hi in ne: hi -= 1; ch = True
            else:
                if lo is not None and lo in ne: ls = True
                if hi is not None and hi in ne: hs = True
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (ls or hs)): return None
            nb[base.key()] = (lo, ls, hi, hs, ne)
            nl = dict(s.lits); nl[lit] = v
            c = Ctx(nb, nl, s.lin + ((kd, base, k, v),))
            if not c.linear_ok(base): return None
            return c
        if lit in s.lits: return s if s.lits[lit] == v else None
        nl = dict(s.lits); nl[lit] = v
        return Ctx(s.b, nl, s.lin)
    def decide(s, lit):
        if lit in s.lits: return s.lits[lit]
        info = LIT[lit]; kd = info['kind']
        if kd not in ('ige', 'fgt', 'flt', 'ieq', 'feq'): return None
        lo, ls, hi, hs, ne = s.get(info['base']); k = info['k']
        if kd == 'ige':
            if lo is not None and lo >= k: return True
            if hi is not None and hi < k: return False
        elif kd == 'fgt':
            if lo is not None and (lo > k or (lo == k and ls)): return True
            if hi is not None and hi <= k: return False
        elif kd == 'flt':
            if hi is not None and (hi < k or (hi == k and hs)): return True
            if lo is not None and lo >= k: return False
        else:
            if lo is not None and hi is not None and lo == hi == k: return True
            if k in ne: return False
            if lo is not None and (lo > k or (lo == k and ls)): return False
            if hi is not None and (hi < k or (hi == k and hs)): return False
            if kd == 'ieq' and k.denominator != 1: return False
        return None
    def linear_ok(s, newbase):
        """Fourier-Motzkin feasibility over the recorded linear facts (monomials as variables)"""
        if len(s.lin) < 2: return True
        return fm_feasible(s.lin)
    def implied(s, lit):
        d = s.decide(lit)
        if d is not None: return d
        info = LIT[lit]
        if info['kind'] not in ('ige', 'fgt', 'flt', 'ieq', 'feq') or not s.lin: return None
        t = (info['kind'], info['base'], info['k'])
        vs = set(info['base'].t)
        if not any(vs & set(l[1].t) for l in s.lin): return None
        if not fm_feasible(s.lin + (t + (True,),)): return False
        if not fm_feasible(s.lin + (t + (False,),)): return True
        return None

def max2(a, s, b, t):
    if a is None or b > a: return b, t
    if a == b: return a, s or t
    return a, s
def min2(a, s, b, t):
    if a is None or b < a: return b, t
    if a == b: return a, s or t
    return a, s
def fm_feasible(lin):
    """lin: (kind, base Poly, k, truth).  True unless provably empty."""
    rows = []  # (coef dict, const, strict): sum coef*x + const >=(>) 0
    diseq = []
    for kd, base, k, v in lin:
        co = dict(base.t)
        ng = {m: -c for m, c in co.items()}
        if kd == 'ige':
            rows.append((co, -k, False) if v else (ng, k - 1, False))
        elif kd == 'fgt':
            rows.append((co, -k, True) if v else (ng, k, False))
        elif kd == 'flt':
            rows.append((ng, k, True) if v else (co, -k, False))
        else:
            if v: rows.append((co, -k, False)); rows.append((ng, k, False))
            else: diseq.append((kd, co, ng, k))
    vs = set()
    for co, _, _ in rows: vs |= set(co)
    for m in vs:
        if all(ATOM.get(a, {}).get('nonneg') for a, e in m): rows.append(({m: Fraction(1)}, Fraction(0), False))
    if not _fm(rows): return False
    for kd, co, ng, k in diseq[:4]:
        if not (set(co) <= vs): continue
        if kd == 'ieq':
            if not _fm(rows + [(co, -k - 1, False)]) and not _fm(rows + [(ng, k - 1, False)]): return False
        else:
            if not _fm(rows + [(co, -k, True)]) and not _fm(rows + [(ng, k, True)]): return False
    return True
_fmmemo = {}
def _fm(rows):
    kk = frozenset((tuple(sorted(co.items())), c, s) for co, c, s in rows)
    if kk in _fmmemo: return _fmmemo[kk]
    r = _fm0(list(rows))
    _fmmemo[kk] = r
    return r
def _fm0(rows):
    while True:
        nr = []; vs = {}
        for co, c, st in rows:
            co = {m: x for m, x in co.items() if x != 0}
            if not co:
                if c < 0 or (c == 0 and st): return False
                continue
            nr.append((co, c, st))
            for m, x in co.items():
                p, n = vs.get(m, (0, 0)); vs[m] = (p + (x > 0), n + (x < 0))
        if not nr: return True
        if len(nr) > 60: return True
        m = min(vs, key=lambda v: vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1])
        pos = [r for r in nr if r[0].get(m, 0) > 0]; ne = [r for r in nr if r[0].get(m, 0) < 0]
        rest = [r for r in nr if m not in r[0]]
        for a in pos:
            for b in ne:
                fa = 1 / a[0][m]; fb = -1 / b[0][m]
                co = {}
                for k in set(a[0]) | set(b[0]):
                    if k == m: continue
                    co[k] = a[0].get(k, 0) * fa + b[0].get(k, 0) * fb
                rest.append((co, a[1] * fa + b[1] * fb, a[2] or b[2]))
        # dedupe
        seen = {}
        for co, c, st in rest:
            k = tuple(sorted((kk, v) for kk, v in co.items() if v != 0))
            if k in seen and (seen[k][1], not seen[k][2]) <= (c, not st): continue
            seen[k] = (co, c, st)
        rows = list(seen.values())

def simplify(d, ctx=None):
    memo = {}
    def go(d, ctx):
        if d.lit is None: return d
        v = ctx.implied(d.lit)
        if v is not None: return go(d.hi if v else d.lo, ctx)
        c1 = ctx.assume(d.lit, True); c0 = ctx.assume(d.lit, False)
        if c1 is None and c0 is None: return d.lo
        if c1 is None: return go(d.lo, c0)
        if c0 is None: return go(d.hi, c1)
        h = go(d.hi, c1); o = go(d.lo, c0)
        if h is o: return h
        # generalised cofactor reductions
        r = node(d.lit, h, o)
        if r.lit is not None:
            if h.lit is not None and go2(h, c0) is o: return h
            if o.lit is not None and go2(o, c1) is h: return o
        return r
    def go2(d, ctx):
        if d.lit is None: return d
        v = ctx.implied(d.lit)
        if v is not None: return go2(d.hi if v else d.lo, ctx)
        c1 = ctx.assume(d.lit, True); c0 = ctx.assume(d.lit, False)
        if c1 is None: return go2(d.lo, c0 or ctx)
        if c0 is None: return go2(d.hi, c1)
        h = go2(d.hi, c1); o = go2(d.lo, c0)
        return node(d.lit, h, o)
    return go(d, ctx or Ctx())

# ---------------------------------------------------------------- normaliser
NONNEG_FN = {'rows', 'cols', 'chans', 'size', 'len'}
_means = {}
def close_mean(t):
    """running mean over a nest of counting loops, m' = m + (x - m) / (position + 1) from 0, in closed form: sum of x / number of positions"""
    if t.id in _means: return _means[t.id]
    _means[t.id] = None
    nest = []; x = t; init = None
    while x.op == 'fold' and len(x.a) == 8 and x.a[7] in ('fwd', string('fwd')) and x.a[6] is FALSE and x.a[1] is ZERO:
        bv, lo, hi, i0, phi, body = x.a[:6]
        if nest and i0 is not nest[-1][2]: return None
        if not nest and i0 is not ZERO: return None
        nest.append((bv, hi, phi)); x = body
    if not nest or contains_term(x, nest[0][2]) and len(nest) > 1: return None
    p = nest[-1][2]
    for i, (bv, hi, phi) in enumerate(nest):
        for b2, h2, p2 in nest[i + 1:]:
            if contains_term(h2, bv) or contains_term(h2, phi): return None
    cnt = ONE; per = ONE
    for bv, hi, phi in reversed(nest):
        cnt = add(cnt, mul(bv, per)); per = mul(per, hi)
    u = sym('1/n')
    same = {}
    def isc(d):
        if d not in same:
            try: same[d] = not compare(Norm(), d, cnt)
            except Exception: same[d] = False
        return same[d]
    memo = {}
    def go(y):
        if y in memo: return memo[y]
        r = y
        if y.op == 'div' and not contains_term(y.a[1], p) and isc(y.a[1]): r = mul(go(y.a[0]), u)
        elif y.op in ('add', 'mul', 'div', 'ite', 'fn', 'not', 'and', 'or', 'flt', 'ilt', 'feq', 'ieq') : r = rebuild(y.op, tuple(go(z) if isinstance(z, T) else z for z in y.a))
        memo[y] = r
        return r
    up = go(x)
    v = subst(up, {p: ZERO, u: ONE})
    if contains_term(v, p) or contains_term(v, u): return None
    try: ok = not compare(Norm(), up, add(p, mul(sub(v, p), u)))
    except Exception: ok = False
    if not ok: return None
    body = v
    for bv, hi, phi in reversed(nest): body = tsum(bv, ZERO, hi, body)
    _means[t.id] = div(body, per)
    return _means[t.id]

def close_m2(t):
    """Welford's running sum of squared deviations over one counting loop, in closed form: sum of squares less the squared sum over the count"""
    if t.id in _means: return _means[t.id]
    _means[t.id] = None
    if len(t.a) != 11 or t.a[9] is not FALSE or t.a[1] is not ZERO or t.a[3] is not ZERO or t.a[4] is not ZERO: return None
    bv, lo, hi, i1, i2, p, q, np_, nq, brk, d = t.a
    if contains_term(nq, p): return None
    m = close_mean(T('fold', (bv, lo, hi, i2, q, nq, brk, d)))
    if m is None: return None
    v = rename_bound(m, bv)
    if v is None: return None
    dev = mul(sub(v, q), sub(v, nq))
    try: ok = not compare(Norm(), np_, add(p, dev))
    except Exception: ok = False
    if not ok: return None
    s1 = tsum(bv, ZERO, hi, v)
    _means[t.id] = sub(tsum(bv, ZERO, hi, mul(v, v)), div(mul(s1, s1), hi))
    return _means[t.id]
def rename_bound(m, bv):
    """the element of a closed mean sum/count over bv"""
    if m.op == 'div' and m.a[0].op == 'sum' and m.a[0].a[0] is bv: return m.a[0].a[3]
    return None

class Norm(object):
    def __init__(s, nonneg=()):
        s.memo = {}; s.nonneg = set(nonneg); s.opaque = []
        s.bvs = {}    # bv term -> atom text
        s.atomterm = {}
    def atom(s, text, nonneg=False, **kw):
        return leaf(Poly.atom(mk_atom(text, nonneg=nonneg, **kw)))
    def __call__(s, t, ctx=None):
        return simplify(s.n(t), ctx)
    def n(s, t):
        r = s.memo.get(t.id)
        if r is None:
            r = s._n(t)
            s.memo[t.id] = r
            if t.op in ('sym', 'fn') and r.lit is None and isinstance(r.leaf, Poly) and not s.bvs:
                q = r.leaf.t
                if len(q) == 1:
                    (m, c), = q.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in ATOM: ATOM[m[0][0]].setdefault('raw', t)
        return r
    def poly2(s, f, *xs):
        def g(*ls):
            if all(isinstance(l, Poly) for l in ls): return f(*ls)
            ps = [l if isinstance(l, Poly) else Poly.atom(mk_atom('q{%s}' % (l,), kind='q')) for l in ls]
            return f(*ps)
        return apply(g, *xs)
    def _n(s, t):
        o, a = t.op, t.a
        if o == 'num': return leaf(Poly.const(a[0]))
        if o == 'bool': return LT if a[0] else LF
        if o == 'str': return leaf('str:' + a[0])
        if o == 'sym': return s.atom(str(a[0]), nonneg=(a[0] in s.nonneg), kind='sym')
        if o == 'bv':
            return s.atom(s.bvs.get(t, '?bv%d' % a[0]), nonneg=True, kind='bv')
        if o == 'add':
            r = s.num(a[0])
            for x in a[1:]: r = s.poly2(lambda p, q: leaf(p + q), r, s.num(x))
            return r
        if o == 'mul':
            r = s.num(a[0])
            for x in a[1:]: r = s.poly2(lambda p, q: leaf(p * q), r, s.num(x))
            return r
        if o == 'div':
            return s.poly2(lambda p, q: leaf(p * pinv(q)), s.num(a[0]), s.num(a[1]))
        if o == 'not': return dnot(s.cond(a[0]))
        if o == 'and':
            r = LT
            for x in a: r = dite(s.cond(x), r, LF)
            return r
        if o == 'or':
            r = LF
            for x in a: r = dite(s.cond(x), LT, r)
            return r
        if o in ('ilt', 'flt'):
            return s.poly2(lambda p, q: lit_gt0(q - p, o == 'ilt'), s.num(a[0]), s.num(a[1]))
        if o in ('ieq', 'feq'):
            return s.poly2(lambda p, q: lit_eq0(p - q, o == 'ieq'), s.num(a[0]), s.num(a[1]))
        if o == 'teq':
            def f(x, y):
                kx = x.key() if isinstance(x, Poly) else str(x); ky = y.key() if isinstance(y, Poly) else str(y)
                if kx == ky: return LT
                if not isinstance(x, Poly) and not isinstance(y, Poly) and x.startswith('str:') and y.startswith('str:'): return LF
                k = sorted([kx, ky])
                return node(mk_lit('t=:%s==%s' % tuple(k), kind='bool'), LT, LF)
            return apply(f, s.n(a[0]), s.n(a[1]))
        if o == 'ite': return dite(s.cond(a[0]), s.n(a[1]), s.n(a[2]))
        if o in ('idiv', 'mod'):
            def f(p, q):
                if q.is_const() and q.cval() == 1: return leaf(p if o == 'idiv' else Poly.const(0))
                if p.is_const() and q.is_const() and q.cval() > 0 and p.cval() >= 0:
                    v = p.cval() / q.cval()
                    return leaf(Poly.const(v.__floor__() if o == 'idiv' else p.cval() - q.cval() * v.__floor__()))
                if o == 'idiv':
                    # exact split of multiples: (k*q*m + rest)/q with everything nonneg is not assumed
                    return s.atom('idiv{%s|%s}' % (p.key(), q.key()), nonneg=True, kind='comp', bv=s.dep(p, q))
                # a mod q == a - q*(a idiv q)
                d = s.atom('idiv{%s|%s}' % (p.key(), q.key()), nonneg=True, kind='comp', bv=s.dep(p, q)).leaf
                return leaf(p - q * d)
            return s.poly2(f, s.num(a[0]), s.num(a[1]))
        if o == 'fn': return s.func(a[0], a[1:])
        if o in ('sum', 'prod'): return s.loop(o, t)
        if o in ('any', 'all'):
            return s.quant(o, t)
        if o in ('maxf', 'minf'): return s.extremum(o, t)
        if o in ('first', 'last', 'sjoin', 'anyi', 'fold', 'map', 'obj', 'argf', 'filt'):
            if o == 'fold':
                m = close_mean(t) if len(t.a) == 8 else close_m2(t)
                if m is not None: return s.n(m)
            return s.binder(o, t)
        if o == 'none': return leaf('none')
        # structural
        ks = [dkey(s.n(x)) if isinstance(x, T) else str(x) for x in a]
        return s.atom('%s<%s>' % (o, ','.join(ks)), kind='op', bv=s.depk(ks))
    def dep(s, *ps):
        return None
    def depk(s, ks): return None
    def num(s, t):
        d = s.n(t)
        # booleans used as numbers
        def f(l):
            if l == 'true': return leaf(Poly.const(1))
            if l == 'false': return leaf(Poly.const(0))
            return leaf(l)
        return apply(f, d)
    def cond(s, t):
        d = s.n(t)
        def f(l):
            if l in ('true', 'false'): return LT if l == 'true' else LF
            if isinstance(l, Poly):
                if l.is_const(): return LT if l.cval() != 0 else LF
                if len(l.t) == 1:
                    (m, c), = l.t.items()
                    if len(m) == 1 and c == 1 and m[0][1] == 1 and ATOM.get(m[0][0], {}).get('kind') != 'bv':
                        return node(mk_lit('b:' + m[0][0], kind='bool'), LT, LF)
                return dnot(lit_eq0(l, True))
            return node(mk_lit('b:' + str(l), kind='bool'), LT, LF)
        return apply(f, d)
    def func(s, name, args):
        if name == 'abs':
            x = s.num(args[0])
            return s.poly2(lambda p: dite(lit_gt0(p, False), leaf(p), leaf(p.scale(-1))), x)
        if name in ('max', 'min', 'imax', 'imin'):
            def f(p, q):
                g = lit_gt0(q - p, name[0] == 'i')
                return dite(g, leaf(q), leaf(p)) if name.endswith('max') else dite(g, leaf(p), leaf(q))
            r = s.num(args[0])
            for y in args[1:]: r = s.poly2(f, r, s.num(y))
            return r
        if name == 'exp': return s.poly2(pexp, s.num(args[0]))
        if name == 'log': return s.poly2(plog, s.num(args[0]))
        if name == 'log2': return s.poly2(lambda p: leaf(plog(p).leaf * pinv(plog(Poly.const(2)).leaf)), s.num(args[0]))
        if name == 'sqrt': return s.poly2(psqrt, s.num(args[0]))
        if name == 'tanh':
            def f(p):
                e = pexp(p.scale(2)).leaf
                return leaf((e - Poly.const(1)) * pinv(e + Poly.const(1)))
            return s.poly2(f, s.num(args[0]))
        if name == 'pow':
            def f(p, q):
                if q.is_const():
                    c = q.cval()
                    if c.denominator == 1 and 0 <= c <= 8: return leaf(ppow(p, int(c)))
                    if c.denominator == 1 and -8 <= c < 0: return leaf(pinv(ppow(p, int(-c))))
                    if c == Fraction(1, 2): return psqrt(p)
                if p.is_const() and p.cval() > 0:   # c^q
                    lc = plog(p).leaf
                    return pexp(q * lc)
                # atom^symbolic exponents: pow(a, q+c) = pow(a,q)*a^c
                c = q.cval()
                if c.denominator == 1 and c != 0 and abs(c) <= 8 and not q.is_const():
                    b = f(p, q - Poly.const(c)).leaf
                    return leaf(b * (ppow(p, int(c)) if c > 0 else pinv(ppow(p, int(-c)))))
                return s.atom('pow{%s|%s}' % (p.key(), q.key()), kind='comp')
            return s.poly2(f, s.num(args[0]), s.num(args[1]))
        nonneg = name in NONNEG_FN
        def f(*ls):
            ks = [l.key() if isinstance(l, Poly) else str(l) for l in ls]
            return s.atom('%s{%s}' % (name, '|'.join(ks)), nonneg=nonneg, kind='comp')
        return apply(f, *[s.n(x) if isinstance(x, T) else leaf(str(x)) for x in args])
    # ---- binders -----------------------------------------------------------
    def bind(s, bv, k):
        n = Norm(s.nonneg); n.bvs = dict(s.bvs); n.bvs[bv] = k
        return n
    def depth(s): return len(s.bvs)
    def loop(s, o, t):
        bv, lo, hi, body = t.a
        k = '@%d' % s.depth()
        lo_d = s.num(lo); hi_d = s.num(hi)
        inner = s.bind(bv, k)
        if lo is not ZERO:
            body = subst(body, {bv: add(bv, lo)})
            n_d = s.num(sub(hi, lo))
        else: n_d = hi_d
        b = inner.num(body)
        def withn(nl):
            at = Poly.atom(mk_atom(k, nonneg=True, kind='bv'))
            ctx = Ctx()
            g = lit_gt0(nl - at, True)     # k < n
            if g.lit is not None: ctx = ctx.assume(g.lit, g.hi is LT) or ctx
            bb = simplify(b, ctx)
            if nl.is_const() and nl.cval() <= 0: return leaf(Poly.const(0 if o == 'sum' else 1))
            if o == 'prod':
                if not depends(bb, k): return s.poly2(lambda p: pown(p, nl), bb)
                return hoist(bb, k, lambda d: s.atom('prod{%s|%s}' % (nl.key(), dkey(d)), kind='comp'))
            return hoist(bb, k, lambda d: sum_of(d, k, nl))
        return apply(withn, n_d)
    def quant(s, o, t):
        bv, lo, hi, body = t.a
        k = '@%d' % s.depth()
        inner = s.bind(bv, k)
        if lo is not ZERO: body = subst(body, {bv: add(bv, lo)})
        n_d = s.num(sub(hi, lo))
        b = inner.cond(body)
        if o == 'all': b = dnot(b)
        def withn(nl):
            at = Poly.atom(mk_atom(k, nonneg=True, kind='bv'))
            ctx = Ctx(); g = lit_gt0(nl - at, True)
            if g.lit is not None: ctx = ctx.assume(g.lit, g.hi is LT) or ctx
            bb = simplify(b, ctx)
            def f(d):
                if d is LF: return LF
                return node(mk_lit('any{%s|%s}' % (nl.key(), dkey(d)), kind='bool'), LT, LF)
            return hoist(bb, k, f) if bb.lit is not None else (LF if bb is LF else lit_gt0(nl, True))
        r = apply(withn, n_d)
        return dnot(r) if o == 'all' else r
    def extremum(s, o, t):
        """max/min over nested index domains: binder order is irrelevant"""
        bs = []; x = t
        while x.op == o:
            bs.append(x.a[:3]); x = x.a[3]
        d0 = s.depth(); best = None
        for pm in itertools.permutations(range(len(bs))):
            order = [bs[i] for i in pm]
            if any(contains_term(y, order[j][0]) for i in range(len(order)) for j in range(i + 1, len(order)) for y in order[i][1:]): continue
            n = s; ks = []
            for b, lo, hi in order:
                ks.append('%s..%s' % (dkey(simplify(n.num(lo))), dkey(simplify(n.num(hi)))))
                n = n.bind(b, '@%d' % len(n.bvs))
            txt = '%s{%s|%s}' % (o, ';'.join(ks), dkey(simplify(n.num(x))))
            if best is None or txt < best: best = txt
        return s.atom(best, kind='comp')
    def binder(s, o, t):
        # generic: every T that is a bv in the arg list is bound for the remaining args
        n = s; ks = []
        for x in t.a:
            if isinstance(x, T):
                if x.op == 'bv' and x not in n.bvs:
                    n = n.bind(x, '@%d' % len(n.bvs)); ks.append(n.bvs[x])
                else: ks.append(dkey(simplify(n.n(x))))
            else: ks.append(str(x))
        return s.atom('%s[%s]' % (o, ';'.join(ks)), kind='comp', nonneg=False)

def depends(d, k):
    return k in dkey(d) and _dep_text(dkey(d), k)
def _dep_text(txt, k):
    i = txt.find(k)
    while i >= 0:
        j = i + len(k)
        if j >= len(txt) or not txt[j].isdigit(): return True
        i = txt.find(k, j)
    return False
def hoist(d, k, f):
    """pull literals not depending on k out of the binder body"""
    lits = set()
    def coll(d, seen):
        if d.id in seen or d.lit is None: return
        seen.add(d.id)
        if not _dep_text(d.lit, k): lits.add(d.lit)
        coll(d.hi, seen); coll(d.lo, seen)
    coll(d, set())
    if not lits: return f(d)
    l = min(lits)
    def cf(d, v, memo):
        if d.lit is None: return d
        if d.id in memo: return memo[d.id]
        r = (cf(d.hi, v, memo) if v else cf(d.lo, v, memo)) if d.lit == l else mknode(d.lit, cf(d.hi, v, memo), cf(d.lo, v, memo))
        memo[d.id] = r
        return r
    return mknode(l, hoist(cf(d, True, {}), k, f), hoist(cf(d, False, {}), k, f))
def pown(p, n):
    if n.is_const() and n.cval().denominator == 1 and 0 <= n.cval() <= 8: return leaf(ppow(p, int(n.cval())))
    return leaf(Poly.atom(mk_atom('pow{%s|%s}' % (p.key(), n.key()), kind='comp')))
def sum_of(d, k, n):
    """sum over k in [0,n) of DG d (all its literals depend on k) -> DG leaf"""
    monos = {}
    def coll(d, path, seen):
        if d.lit is None:
            p = d.leaf if isinstance(d.leaf, Poly) else Poly.atom(mk_atom('q{%s}' % d.leaf, kind='q'))
            for m in p.t: monos.setdefault(m, None)
            return
        if d.id in seen: return
        seen.add(d.id)
        coll(d.hi, path, seen); coll(d.lo, path, seen)
    coll(d, (), set())
    tot = Poly({})
    for m in monos:
        def coef(p):
            if not isinstance(p, Poly): p = Poly.atom(mk_atom('q{%s}' % p, kind='q'))
            return leaf(Poly.const(p.t.get(m, 0)))
        g = apply(coef, d)
        out = tuple((a, e) for a, e in m if not _dep_text(a, k))
        inn = tuple((a, e) for a, e in m if _dep_text(a, k))
        if g.lit is None:
            c = g.leaf.cval(); gk = None
        else: c = Fraction(1); gk = g
        if not inn and gk is None:
            s = n                      # sum of constant
        elif gk is None and len(inn) == 1 and inn[0] == (k, Fraction(1)):
            s = n * (n - Poly.const(1)); s = s.scale(Fraction(1, 2))
        else:
            s = Poly.atom(sum_atom(k, n, inn, gk))
        tot = tot + (s * Poly({out: c}))
    return leaf(tot)
def sum_atom(k, n, inn, g):
    # flatten nested sums: inner sum atoms with exponent 1, unguarded
    binders = [(k, n)]
    fac = list(inn)
    nested = [a for a, e in inn if a.startswith('sum{') and e == 1]
    if len(nested) == 1 and ATOM[nested[0]].get('g') is None and g is None:
        info = ATOM[nested[0]]
        fac = [(a, e) for a, e in inn if a != nested[0]] + list(info['fac'])
        binders = [(k, n)] + list(info['binders'])
    best = None
    idx = [b[0] for b in binders]
    if len(binders) == 1:
        perms = [tuple(range(1))]
    else: perms = list(itertools.permutations(range(len(binders))))
    for pm in perms:
        # legality: domain of binder must not depend on later-bound ones
        order = [binders[i] for i in pm]
        ok = True
        for i, (b, dn) in enumerate(order):
            for (b2, _) in order[i + 1:]:
                if _dep_text(dn.key(), b2): ok = False
        if not ok: continue
        ren = {}
        base = int(k[1:])
        for i, (b, dn) in enumerate(order): ren[b] = '@%d' % (base + i)
        txt = 'sum{%s|%s|%s}' % (';'.join('%s<%s' % (ren[b], rename(dn.key(), ren)) for b, dn in order),
                                 '*'.join(sorted('%s^%s' % (rename(a, ren), e) for a, e in fac)),
                                 rename(dkey(g), ren) if g is not None else '')
        if best is None or txt < best[0]: best = (txt, order, ren)
    txt, order, ren = best
    def rp(p): return Poly({tuple(sorted((rename_atom(a, ren), e) for a, e in m)): c for m, c in p.t.items()})
    nb = [(ren[b], rp(dn)) for b, dn in order]
    nf = sorted((rename_atom(a, ren), e) for a, e in fac)
    return mk_atom(txt, kind='sum', binders=nb, fac=nf, g=g, nonneg=False)
import re
_renre = re.compile(r'@\d+')
def rename(txt, ren): return _renre.sub(lambda m: ren.get(m.group(0), m.group(0)), txt)
def rename_atom(a, ren):
    b = rename(a, ren)
    if b != a and b not in ATOM:
        info = dict(ATOM.get(a, {}))
        if 'poly' in info: info['poly'] = Poly({tuple(sorted((rename_atom(x, ren), e) for x, e in m)): c for m, c in info['poly'].t.items()})
        if 'binders' in info:
            info['binders'] = [(rename(x, ren), Poly({tuple(sorted((rename_atom(y, ren), e) for y, e in m)): c for m, c in p.t.items()})) for x, p in info['binders']]
            info['fac'] = [(rename_atom(x, ren), e) for x, e in info['fac']]
        ATOM[b] = info
    return b
def pexp(p):
    mono = {}
    extra = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].startswith('log{'):
            # exp(c*log x) = x^c for integer c
            if c.denominator == 1:
                b = ATOM[m[0][0]]['poly']; f = ppow(b, int(c)) if c > 0 else pinv(ppow(b, int(-c)))
                extra = f if extra is None else extra * f
                continue
        a = mk_atom('E{%s}' % Poly({m: Fraction(1)}).key(), kind='comp', nonneg=True)
        mono[a] = c
    r = Poly({tuple(sorted(mono.items())): Fraction(1)})
    return leaf(r if extra is None else r * extra)
def plog(p):
    if p.is_const() and p.cval() == 1: return leaf(Poly({}))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and m and all(a.startswith('E{') for a, e in m):
            r = Poly({})
            for a, e in m:
                pass
    return leaf(Poly.atom(mk_atom('log{%s}' % p.key(), kind='log', poly=p)))
def psqrt(p):
    if p.is_const():
        v = p.cval()
        if v >= 0:
            import math
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator: return leaf(Poly.const(Fraction(a, b)))
    # pull square constants
    return leaf(Poly.atom(mk_atom('sqrt{%s}' % p.key(), kind='sqrt', poly=p, nonneg=True)))

# ---------------------------------------------------------------- equality
def subst_poly(p, atom, by):
    """replace atom (exp>=1 integral) by Poly in p, also rebuild inv/sqrt/log atoms that contain it textually -> None if unsupported"""
    r = Poly({})
    for m, c in p.t.items():
        q = Poly.const(c)
        for a, e in m:
            if a == atom:
                if e == int(e) and e > 0: q = q * ppow(by, int(e))
                elif e == int(e): q = q * pinv(ppow(by, int(-e)))
                else: return None
            elif 'poly' in ATOM.get(a, {}) and atom in ATOM[a]['poly'].atoms():
                inner = subst_poly(ATOM[a]['poly'], atom, by)
                if inner is None: return None
                k = ATOM[a]['kind']
                f = {'inv': pinv, 'sqrt': lambda x: psqrt(x).leaf, 'log': lambda x: plog(x).leaf}[k](inner)
                if e == int(e) and e > 0: q = q * ppow(f, int(e))
                elif e == int(e): q = q * pinv(ppow(f, int(-e)))
                else: return None
            else: q = q * Poly.atom(a, e)
        r = r + q
    return r

class Mismatch(object):
    def __init__(s, path, left, right): s.path, s.left, s.right = path, left, right
    def __str__(s):
        return 'when {%s}: code gives %s, required %s' % (', '.join(pretty_lit(l, v) for l, v in s.path) or 'always', pk(s.left), pk(s.right))
def pk(v):
    k = v.key() if isinstance(v, Poly) else str(v)
    return pretty(k)
def pretty(k):
    k = k.replace('{', '(').replace('}', ')').replace('|', ',')
    return k if len(k) < 400 else k[:400] + '...'
def pretty_lit(l, v):
    i = LIT[l]
    if i['kind'] in ('ige', 'fgt', 'flt', 'ieq', 'feq'):
        op = {'ige': ('>=', '<'), 'fgt': ('>', '<='), 'flt': ('<', '>='), 'ieq': ('==', '!='), 'feq': ('==', '!=')}[i['kind']][0 if v else 1]
        return '%s %s %s' % (pretty(i['base'].key()), op, i['k'])
    return ('' if v else '!') + pretty(l)

def path_equalities(ctx):
    """raw-term substitutions implied by the equalities of a path"""
    out = []; done = set()
    for kd, base, k, v in ctx.lin:
        kk = base.key()
        if kk in done: continue
        done.add(kk)
        lo, ls, hi, hs, ne = ctx.get(base)
        if lo is None or lo != hi: continue
        ts = list(base.t.items())
        if any(len(m) != 1 or m[0][1] != 1 for m, c in ts) or len(ts) > 2: continue
        raws = [(ATOM.get(m[0][0], {}).get('raw'), c) for m, c in ts]
        if any(r is None for r, c in raws): continue
        if len(ts) == 1: out.append((raws[0][0], num(lo / raws[0][1])))
        else:
            (r1, c1), (r2, c2) = raws
            if c1 != -c2: continue
            if contains_term(r1, r2): (r1, c1), (r2, c2) = (r2, c2), (r1, c1)
            if contains_term(r1, r2): continue
            out.append((r2, add(r1, num(-lo / c1)) if lo else r1))
    return out
def subst_term(t, m):
    for k, v in m: t = subst(t, {k: v})
    return t
def compare(nrm, a, b, assume=TRUE, limit=4, depth=0):
    """list of Mismatch (empty: equal). Terms a,b under boolean term assume."""
    if depth == 0: _ops[0] = 0
    tried = {}
    def by_equalities(ctx):
        if depth >= 2: return False
        es = path_equalities(ctx)
        if not es: return False
        kk = tuple((k.id, v.id) for k, v in es)
        if kk not in tried:
            n2 = Norm(nrm.nonneg)
            a2, b2, c2 = [subst_term(x, es) for x in (a, b, assume)]
            tried[kk] = not (a2 is a and b2 is b) and not compare(n2, a2, b2, c2, 1, depth + 1)
        return tried[kk]
    da, db, dc = nrm.n(a), nrm.n(b), nrm.cond(assume)
    # booleans vs numbers
    out = []
    def eqleaf(x, y, ctx):
        if isinstance(x, Poly) or isinstance(y, Poly):
            def topoly(z):
                if isinstance(z, Poly): return z
                if z == 'true': return Poly.const(1)
                if z == 'false': return Poly.const(0)
                return None
            x2, y2 = topoly(x), topoly(y)
            if x2 is None or y2 is None: return False
            d = x2 - y2
            if pzero(d): return True
            # use equalities on the path
            eqs = []
            for kd, base, k, v in ctx.lin:
                lo, ls, hi, hs, ne = ctx.get(base)
                if lo is not None and lo == hi and not any(b.key() == base.key() for b, _ in eqs): eqs.append((base, lo))
            for base, k in eqs:
                    for m, c in sorted(base.t.items(), key=lambda mc: -len(str(mc[0]))):
                        if len(m) == 1 and m[0][1] == 1:
                            at = m[0][0]
                            by = (Poly.const(k) - (base - Poly({m: c}))).scale(1 / c)
                            nd = subst_poly(d, at, by)
                            if nd is not None:
                                if pzero(nd): return True
                                d = nd
                                break
            d0 = x2 - y2; rows_ = []
            for base, k in eqs:      # d0 in the linear span of the equalities (monomials as variables)?
                q = base - Poly.const(k)
                for lead, rp in rows_:
                    if lead in q.t: q = q - rp.scale(q.t[lead])
                nz = [m for m in q.t if m != ()]
                if not nz: continue
                q = q.scale(1 / q.t[nz[0]]); rows_.append((nz[0], q))
            for lead, rp in rows_:
                if lead in d0.t: d0 = d0 - rp.scale(d0.t[lead])
            if pzero(d0): return True
            # textual rewriting inside composite atoms for equalities between atoms
            rw = []
            for base, k in eqs:
                if len(base.t) == 2 and k == 0:
                    (m1, c1), (m2, c2) = sorted(base.t.items(), key=lambda mc: (len(str(mc[0])), str(mc[0])))
                    if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
                        rw.append((m2[0][0], m1[0][0]))
            if rw:
                kd_ = d.key()
                z = Poly({})
                for m, c in d.t.items():
                    nm = {}
                    for at, e in m:
                        na = at
                        for _ in range(3):
                            for x_, y_ in rw: na = na.replace(x_, y_)
                        if na not in ATOM: ATOM[na] = ATOM.get(at, {})
                        nm[na] = nm.get(na, 0) + e
                    z = z + Poly({tuple(sorted((q, e) for q, e in nm.items() if e)): c})
                if pzero(z): return True
            return False
        return x == y
    seen = set()
    cnt = [0]
    def go(c, x, y, ctx, path):
        if len(out) >= limit: return
        if c is LF: return
        if c is LT and x is y: return
        cnt[0] += 1
        if cnt[0] > 60000: raise TooBig()
        l = c.lit if c.lit is not None else top([x, y])
        if l is None:
            if c is LF: return
            if not eqleaf(x.leaf, y.leaf, ctx) and not by_equalities(ctx):
                out.append(Mismatch(path, x.leaf, y.leaf))
            return
        v = ctx.implied(l)
        for val in ((True, False) if v is None else (v,)):
            c2 = ctx if v is not None else ctx.assume(l, val)
            if c2 is None: continue
            go(cofd(c, l, val), cofd(x, l, val), cofd(y, l, val), c2, path + ((l, val),) if v is None else path)
    go(dc, da, db, Ctx(), ())
    return out
def cofd(d, lit, v, memo=None):
    """cofactor when lit may be anywhere (not only on top)"""
    if d.lit is None: return d
    if d.lit == lit: return d.hi if v else d.lo
    if d.lit > lit: return d
    if memo is None: memo = {}
    if d.id in memo: return memo[d.id]
    r = node(d.lit, cofd(d.hi, lit, v, memo), cofd(d.lo, lit, v, memo))
    memo[d.id] = r
    return r

# ---------------------------------------------------------------- differentiation (raw terms)
def diff(t, x, memo=None):
    """d t / d x for a raw term; x is an atom term"""
    if t is x: return ONE
    if not contains_term(t, x): return ZERO
    o, a = t.op, t.a
    if o == 'add': return add(*[diff(y, x) for y in a])
    if o == 'mul':
        r = []
        for i, y in enumerate(a):
            r.append(mul(*([diff(y, x)] + [z for j, z in enumerate(a) if j != i])))
        return add(*r)
    if o == 'div':
        u, v = a
        return div(sub(mul(diff(u, x), v), mul(u, diff(v, x))), mul(v, v))
    if o == 'ite': return ite(a[0], diff(a[1], x), diff(a[2], x))
    if o == 'fn':
        f = a[0]
        if f == 'exp': return mul(t, diff(a[1], x))
        if f == 'log': return div(diff(a[1], x), a[1])
        if f == 'log2': return div(diff(a[1], x), mul(a[1], fn('log', num(2))))
        if f == 'sqrt': return div(diff(a[1], x), mul(num(2), t))
        if f == 'tanh': return mul(sub(ONE, mul(t, t)), diff(a[1], x))
        if f == 'abs': return mul(ite(lt(ZERO, a[1], False), ONE, num(-1)), diff(a[1], x))
        if f == 'pow' and not contains_term(a[2], x):
            return mul(a[2], fn('pow', a[1], sub(a[2], ONE)), diff(a[1], x))
        if f in ('max', 'min'):
            p, q = a[1], a[2]
            c = lt(p, q, False)
            return ite(c, diff(q, x), diff(p, x)) if f == 'max' else ite(c, diff(p, x), diff(q, x))
    if o == 'sum':
        bv, lo, hi, body = a
        return tsum(bv, lo, hi, diff(body, x))
    raise ValueError('cannot differentiate ' + o + ' ' + str(a[0]))
