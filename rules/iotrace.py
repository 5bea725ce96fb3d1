"""Traces of stream operations as trees of items and counted loops, from the effects of the value-graph translation, and the
unification of a writer's trace with a reader's: what the reader's k-th item is in terms of what was written."""
from vg import *
class Item(object):
    def __init__(s, kind, width, val, cond, loc, cap=None): s.kind, s.width, s.val, s.cond, s.loc, s.cap = kind, width, val, cond, loc, cap
    def __repr__(s): return '%s%s %s' % (s.kind, show(s.width), show(s.val)[:60])
class Loop(object):
    def __init__(s, bv, lo, hi, cond): s.bv, s.lo, s.hi, s.cond, s.body = bv, lo, hi, cond, []
    def __repr__(s): return 'for %s..%s %r' % (show(s.lo), show(s.hi), s.body)
isstream_t = lambda t: 'stream' in t
def isstream(e):
    t = (e.get('bt') or '') + ' ' + (e.get('cls') or '')
    return 'stream' in t
def strip(n):
    while n.get('k') in ('cast', 'conv', 'rcast', 'paren', 'icast') and (n.get('e') or n.get('b')): n = n.get('e') or n.get('b')
    return n
class Tape(object):
    """hooks that record what is written and hand out names for what is read"""
    def __init__(s): s.k = 0
    def hooks(s):
        def write(I, e, a, st, this):
            if not isstream(e) or len(a) != 3: return NotImplemented
            I.emit(st, 'io', (string('w'), a[2], unptr(I.freeze(a[1], st))), e); return a[0]
        def read(I, e, a, st, this):
            if not isstream(e) or len(a) != 3: return NotImplemented
            s.k += 1; v = fn('in', num(s.k), *I.bvs); n = strip(e['a'][0]); cap = NONE
            if n.get('k') == 'un' and n.get('op') == '&': I.assign(strip(n['e']), v, st, this)
            elif n.get('k') == 'mcall' and n.get('mn') in ('data', 'c_str', 'begin'):
                cap = I.size(I.freeze(I.ev(strip(n['b']), st, this), st)); I.assign(strip(n['b']), v, st, this)
            elif n.get('k') in ('ref', 'mem'): I.assign(n, v, st, this)
            else: I.unknown('read into ' + str(n.get('k')), e)
            I.emit(st, 'io', (string('r'), a[2], num(s.k), cap), e); return TRUE
        def pb(I, e, a, st, this): return a[-1].a[1] if a[-1].op == 'fn' and a[-1].a[0] == 'portable' else fn('portable', a[-1])
        def pf(I, e, a, st, this): return a[-1].a[1] if a[-1].op == 'fn' and a[-1].a[0] == 'portable' else fn('portable', a[-1])
        return {'std.is_open': lambda I, e, a, st, this: TRUE if isstream(e) else NotImplemented, 'std.write': write, 'std.read': read, 'portableBytes': pb, 'portableFloat': pf}
def unptr(t):
    while t.op == 'fn' and t.a[0] in ('addr',): t = t.a[1]
    return t
def peel(g):
    """(condition, (bv, lo, hi), inner guard)"""
    if g.op == 'anyi': return TRUE, g.a[:3], g.a[3]
    if g.op == 'and':
        l = [x for x in g.a if x.op == 'anyi']
        if len(l) == 1: return band(*[x for x in g.a if x is not l[0]]), l[0].a[:3], l[0].a[3]
    return g, None, None
def tree(effs, kind='io'):
    out = []
    def put(seq, g, it):
        c, lp, inner = peel(g)
        if lp is None:
            it.cond = c; seq.append(it); return
        if seq and isinstance(seq[-1], Loop) and seq[-1].bv is lp[0]: l = seq[-1]
        else: l = Loop(lp[0], lp[1], lp[2], c); seq.append(l)
        put(l.body, inner, it)
    for e in effs:
        if e[1] != kind or e[0] is FALSE: continue
        put(out, e[0], Item(e[2][0].a[0], e[2][1], e[2][2], TRUE, e[3], e[2][3] if len(e[2]) > 3 and e[2][3] is not NONE else None))
    return out
class Mismatch(Exception): pass
class Unify(object):
    def __init__(s): s.val = {}; s.n = 0
    def resolve(s, t):
        memo = {}
        def go(t):
            if t in memo: return memo[t]
            if not t.a or not any(isinstance(x, T) for x in t.a): r = t
            elif t.op == 'fn' and t.a[0] == 'in' and int(t.a[1].a[0]) in s.val:
                bvs, v = s.val[int(t.a[1].a[0])]
                r = subst(v, dict(zip(bvs, [go(x) for x in t.a[2:]])))
            else:
                r = rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
                if r.op == 'fn' and r.a[0] == 'portable' and r.a[1].op == 'fn' and r.a[1].a[0] == 'portable': r = r.a[1].a[1]
            memo[t] = r
            return r
        return go(t)
    def run(s, W, Rd, ren=None, bvs=()):
        """walk both traces in step; the writer's loop variables are renamed to the reader's"""
        ren = dict(ren or {})
        for i in range(max(len(W), len(Rd))):
            if i >= len(W): raise Mismatch('the reader goes on with %s where the writer has ended' % Rd[i])
            if i >= len(Rd): raise Mismatch('the reader stops before %s' % W[i])
            w, r = W[i], Rd[i]
            if isinstance(w, Loop) != isinstance(r, Loop): raise Mismatch('the writer has %s where the reader has %s' % (w, r))
            if isinstance(w, Loop):
                for what, a, b in (('start', w.lo, r.lo), ('end', w.hi, r.hi)):
                    a, b = subst(a, ren), s.resolve(b)
                    if not same(a, b): raise Mismatch('a repeated part %ss at %s for the writer and %s for the reader' % (what, show(a)[:60], show(b)[:60]))
                s.run(w.body, r.body, {**ren, w.bv: r.bv}, bvs + (r.bv,))
            else:
                a, b = subst(w.width, ren), s.resolve(r.width)
                if not same(a, b): raise Mismatch('%s bytes are written (line %s) where %s are read (line %s)' % (show(a), w.loc[1], show(b), r.loc[1]))
                if r.cap is not None and judge_(s.resolve(r.cap), a).v == 'bad': raise Mismatch('%s bytes are read (line %s) into room for %s' % (show(a), r.loc[1], show(s.resolve(r.cap))))
                s.val[int(r.val.a[0])] = (bvs, subst(w.val, ren)); s.n += 1
def judge_(a, b):
    from judge import judge
    return judge(a, b)
def same(a, b):
    from judge import judge
    return a is b or judge(a, b).ok
