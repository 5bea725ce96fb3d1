"""T06: reductions, statistics and dependency queries take every element (operand) into account exactly once."""
from tensors import *
from judge import judge, settle
import t04
A = sym('A')
SHAPES = [(2, 3, 2), (1, 4, 1), (3, 1, 2), (4, 2, 1)]
INF = sym('INF')
def el(shape, B=A): return [fn('val', B, num(i), num(j), num(k)) for i, j, k in t04.elems(shape)]
def mean(x): return div(add(*x), num(len(x)))
def var(x, m=None):
    m = m or mean(x)
    return div(add(*[mul(sub(y, m), sub(y, m)) for y in x]), num(len(x)))
def base(F, m, n):
    fs = [x for x in F.by_mn.get(m, []) if x.get('cls') == BASE and len(x['params']) == n]
    return fs[0] if len(fs) == 1 else None
def free(F, m, n):
    fs = [x for x in F.by_mn.get(m, []) if not x.get('cls') and len(x['params']) == n]
    return fs[0] if len(fs) == 1 else None
def outs(I, f, args, st):
    """call f; final values of its reference parameters"""
    nodes = [{'k': 'ref', 'dk': 'var', 'id': -900 - i, 'n': 'arg%d' % i, 't': p['t']} for i, p in enumerate(f['params'])]
    for n, a in zip(nodes, args): st.env[n['id']] = a
    r = I.inline(f, None, args, st, None, nodes)
    if isinstance(r, tuple):
        for n, v in r[1]: I.assign_out(n, v, st, None)
        r = r[0]
    return r, [I.freeze(st.env[n['id']], st) for n in nodes]
def run(F, R):
    R.rule = ('Reductions and index queries are interpreted on tensors of representative shapes (and of symbolic shape for the extremes) with symbolic elements and compared with the definition over all '
              'elements of the range; contains() of every view class must be the disjunction over all of its operands.')
    R.notes += ['float arithmetic is compared over the reals; elements are finite', 'the inverse view stores its result and depends on nothing afterwards', 'index queries: elements pairwise distinct where the answer is one index', 'shapes: %s' % SHAPES]
    n = reductions(F, R) + indices(F, R) + utils(F, R)
    R.floor('reductions', n, 12)
    contains(F, R)
    stats(F, R)
def one(F, R, m, n, shape, args, want, what, asm=TRUE, nn=()):
    f = base(F, m, n)
    if f is None: return 0
    R.analysed(f)
    tag = '%s %s' % (m, 'x'.join(map(str, shape)) if shape else 'any shape')
    I = Interp(F, hooks=t04.hooks({A: shape}) if shape else {}); st = St()
    try: v = I.freeze(I.call(f, A, args, st), st)
    except Budget: R.undecided(tag, 'budget'); return 1
    settle(R, tag, F.loc(f), what, judge(v, want, asm, nn))
    return 1
def reductions(F, R):
    n = 0
    every = 'a reduction must take every element into account exactly once'
    for s in SHAPES:
        x = el(s)
        n += one(F, R, 'sum', 0, s, [], add(*x), every)
        n += one(F, R, 'product', 0, s, [], mul(*x), every)
        n += one(F, R, 'arithmeticMean', 0, s, [], mean(x), every)
        n += one(F, R, 'variance', 0, s, [], var(x), every)
        n += one(F, R, 'variance_point', 1, s, [sym('p')], var(x, sym('p')), every)
        n += one(F, R, 'standardDeviation', 0, s, [], fn('sqrt', var(x)), every)
        n += one(F, R, 'hasNaNOrInf', 0, s, [], bor(*[bor(fn('isnan', y), fn('isinf', y)) for y in x]), every)
        n += one(F, R, 'size', 0, s, [], num(len(x)), 'the size is the number of elements')
        n += one(F, R, 'elementsPerChannel', 0, s, [], num(s[0] * s[1]), 'elements per channel')
        n += one(F, R, 'getShape', 0, s, [], T('list', tuple(map(num, s))), 'the shape is rows, columns, channels')
        n += one(F, R, 'getRowValues', 2, s, [r, h], T('list', tuple(V(A, r, num(j), h) for j in range(s[1]))), 'a row is all of its columns in order')
        pos = band(*[lt(ZERO, y, False) for y in x])
        n += one(F, R, 'geometricMean', 0, s, [], fn('exp', div(add(*[fn('log', y) for y in x]), num(len(x)))), every, pos)
        for o, p in enumerate(t04.elems(s)):   # offsets: channel, row, column order
            n += one(F, R, 'getValue', 1, s, [num(o)], V(A, num(p[0]), num(p[1]), num(p[2])), 'offset %d is element %s' % (o, p))
    mx, mn = extreme('maxf', A), extreme('minf', A)
    n += one(F, R, 'max', 0, None, [], mx, every); n += one(F, R, 'min', 0, None, [], mn, every)
    n += one(F, R, 'range', 0, None, [], fn('pair', mn, mx), every)
    i, j, k = fresh_bv(), fresh_bv(), fresh_bv()
    ma = fn('max', ZERO, T('maxf', (i, ZERO, chans(A), T('maxf', (j, ZERO, rows(A), T('maxf', (k, ZERO, cols(A), fn('abs', V(A, j, k, i)))))))))
    n += one(F, R, 'max_abs', 0, None, [], ma, every)
    f = base(F, 'euclidean_norm', 0)
    if f:
        for s in SHAPES:
            H = t04.hooks({A: s}); M = sym('largest')
            H['max_abs'] = lambda I, e, a, st, this: M
            I = Interp(F, hooks=H); st = St()
            v = I.freeze(I.call(f, A, [], st), st); n += 1
            x = el(s)
            forms = [mul(M, fn('sqrt', add(*[mul(div(y, M), div(y, M)) for y in x]))), fn('sqrt', add(*[mul(y, y) for y in x]))]
            vs = [judge(v, w, lt(ZERO, M, False)) for w in forms]
            settle(R, 'euclidean_norm %s' % (s,), F.loc(f), every, next((q for q in vs if q.v == 'ok'), vs[0]))
    return n
def first(x, better):
    """index of the element better than all others"""
    out = ZERO
    for i in reversed(range(len(x))):
        out = ite(band(*[better(x[i], y) for j, y in enumerate(x) if j != i]), num(i), out)
    return out
def indices(F, R):
    n = 0
    gt = lambda a, b: lt(b, a, False)
    ls = lambda a, b: lt(a, b, False)
    for N in (1, 2, 3, 4):
        s = (2, N, 2); x = [V(A, r, num(j), h) for j in range(N)]
        fin = band(*[band(lt(neg(INF), y, False), lt(y, INF, False)) for y in x])
        dist = band(fin, *[bnot(eq(x[i], x[j], 'f')) for i in range(N) for j in range(i)])
        n += one(F, R, 'maxIndexByRow', 2, s, [h, r], first(x, gt), 'the index of the greatest element of the row', dist)
        n += one(F, R, 'minIndex', 2, s, [h, r], first(x, ls), 'the index of the least element of the row', dist)
        sc = (N, 2, 2); y = [V(A, num(j), c, h) for j in range(N)]
        fc = band(*[band(lt(neg(INF), z, False), lt(z, INF, False)) for z in y])
        n += one(F, R, 'maxIndexByCol', 2, sc, [h, c], first(y, gt), 'the index of the greatest element of the column', band(fc, *[bnot(eq(y[i], y[j], 'f')) for i in range(N) for j in range(i)]))
        if N <= 3:
            for m, b in (('maxIndices', gt), ('minIndices', ls)):
                le_ = lambda a, q: bnot(b(q, a))
                lists = [(k,) for k in range(N)] + [(i, j) for i in range(N) for j in range(i + 1, N)] + ([(0, 1, 2)] if N == 3 else [])
                for L in lists:
                    cond = band(fin, *[band(eq(x[i], x[L[0]], 'f')) if i in L else b(x[L[0]], x[i]) for i in range(N) if i != L[0]])
                    n += one(F, R, m, 2, s, [h, r], T('list', tuple(map(num, L))), 'all indices of the extreme %s' % (L,), cond)
            f = base(F, 'topIndices', 3)
            if f:
                R.analysed(f)
                for w in range(0, N + 1):
                    I = Interp(F, hooks=t04.hooks({A: s})); st = St()
                    v = I.call(f, A, [num(w), h, r], st); n += 1
                    tag = 'topIndices %d of %d' % (w, N)
                    cnt = I.size(v)
                    settle(R, tag + ' count', F.loc(f), 'as many results as asked for', judge(cnt, num(min(w, N))))
                    for p in range(min(w, N)):
                        e = I.at(v, num(p))
                        for g, what in (('getValue', 'value'), ('getIndex', 'index')):
                            got = I.freeze(lift(I, e, g, st), st)
                            # rank p: exactly p elements are greater
                            for q in range(N):
                                greater = [i for i in range(N) if i != q]
                                import itertools
                                cond = FALSE
                                for up in itertools.combinations(greater, p):
                                    cond = bor(cond, band(*[lt(x[q], x[i], False) if i in up else lt(x[i], x[q], False) for i in greater]))
                                settle(R, '%s: %s of result %d when column %d ranks there' % (tag, what, p, q), F.loc(f), 'the best results in order', judge(got, x[q] if g == 'getValue' else num(q), band(fin, cond)))
    return n
def lift(I, e, m, st):
    if e.op == 'ite': return ite(e.a[0], lift(I, e.a[1], m, st), lift(I, e.a[2], m, st))
    if e.op == 'obj': return dict(zip(e.a[1::2], e.a[2::2])).get('value' if m == 'getValue' else 'index', UNDEF)
    return I.method(e, m, [], st)
def utils(F, R):
    n = 0
    B = sym('B'); s, s2 = (1, 2, 2), (2, 1, 1)
    H = lambda: t04.hooks({A: s, B: s2})
    every = 'statistics must take every element of every tensor into account exactly once'
    x = el(s) + el(s2, B)
    f = free(F, 'calcStandardizationValuesForEntireSet', 3)
    if f:
        R.analysed(f); I = Interp(F, hooks=H()); st = St(); n += 1
        _, o = outs(I, f, [T('list', (A, B)), sym('m'), sym('d')], st)
        settle(R, 'mean of a set', F.loc(f), every, judge(o[1], mean(x)))
        settle(R, 'deviation of a set', F.loc(f), every, judge(o[2], fn('sqrt', var(x))))
    f = free(F, 'calcNormalizationValuesForEntireSet', 3)
    if f:
        R.analysed(f)
        h2 = H()
        for m in ('min', 'max'): h2[m] = lambda I, e, a, st, this, m=m: fn('t.' + m, a[0]) if len(a) == 1 else NotImplemented
        I = Interp(F, hooks=h2); st = St(); n += 1
        _, o = outs(I, f, [T('list', (A, B)), sym('lo'), sym('hi')], st)
        for k, (m, g) in enumerate((('min', 'min'), ('max', 'max'))):
            q = [fn('t.' + m, A), fn('t.' + m, B)]
            lim = next((y for y in walk(o[1 + k]) if y.op == 'fn' and y.a[0][:2] == 'c:' or y is INF), None)   # the starting value
            asm = TRUE
            if lim is not None: asm = band(*[lt(y, lim, False) if m == 'min' else lt(lim, y, False) for y in q])
            w = ite(lt(q[0], q[1], False), q[0], q[1]) if m == 'min' else ite(lt(q[1], q[0], False), q[0], q[1])
            settle(R, '%s of a set' % m, F.loc(f), every, judge(o[1 + k], w, asm))
    f = free(F, 'hasInvalidValues', 1)
    if f:
        R.analysed(f)
        for sh in SHAPES:
            I = Interp(F, hooks=t04.hooks({A: sh})); st = St(); n += 1
            v = I.freeze(I.call(f, None, [A], st), st)
            settle(R, 'hasInvalidValues %s' % (sh,), F.loc(f), every, judge(v, bor(*[bor(fn('isnan', y), fn('isinf', y)) for y in el(sh)])))
    f = free(F, 'assertEqual', 2)
    if f:
        R.analysed(f)
        for sh in SHAPES[:2]:
            h2 = t04.hooks({A: sh, B: sh}); h2['roughlyEqual'] = lambda I, e, a, st, this: fn('close', *a[:2])
            I = Interp(F, hooks=h2); st = St(); n += 1
            I.call(f, None, [A, B], st)
            settle(R, 'assertEqual %s' % (sh,), F.loc(f), 'every pair of elements must be compared', judge(st.thr, bor(*[bnot(fn('close', y, z)) for y, z in zip(el(sh), el(sh, B))])))
        for i in range(3):
            sh2 = list(SHAPES[0]); sh2[i] += 1
            I = Interp(F, hooks=t04.hooks({A: SHAPES[0], B: tuple(sh2)})); st = St()
            I.call(f, None, [A, B], st)
            settle(R, 'assertEqual different %s' % ('rows columns channels'.split()[i]), F.loc(f), 'different shapes are not equal', judge(st.thr, TRUE))
    return n
def contains(F, R):
    Q = sym('Q'); seen = 0
    hook = lambda I, e, a, st, this: fn('dependson', a[0].a[1] if a[0].op == 'fn' and a[0].a[0] == 'inv' else a[0], *a[1:]) if a[0].op in ('sym', 'fn') else NotImplemented
    for v, n, k, ks, args in instances(F):
        if '?' in ks or v == INV or ('T' in ks and F.is_a(v, 'happyml::BaseAssignableTensor')): continue
        tag = '%s(%s).contains' % (n, ks)
        I = Interp(F, hooks=dict({'contains': hook}, **({INV: inv_hook} if v != INV else {}))); st = St()
        try:
            o = I.construct(v, args, st, k['id'])
            got = I.freeze(I.method(o, 'contains', [Q], st), st)
            me = I.method(o, 'contains', [o], st)
        except Budget: R.undecided(tag, 'budget'); continue
        f = F.method(v, 'contains', 1); R.analysed(f); seen += 1
        ops = [a for a, q in zip(args, ks) if q == 'T']
        settle(R, tag, F.loc(f), 'a derived tensor depends on all of its operands', judge(got, bor(*[fn('dependson', a, Q) for a in ops])))
        settle(R, tag + ' itself', F.loc(f), 'a tensor contains itself', judge(I.freeze(me, st), TRUE))
    R.floor('view constructors', seen, 20)

STATS = 'happyml::TensorStats'
BIASES = (14, 8, 4, 1, -4)
NB = 6   # bins modelled, of 256 alike
class Caught(Exception): pass
def stats(F, R):
    if STATS not in F.rec: R.undecided('tensor statistics', 'class not found'); return
    bags = [c for c in F.rec if c.startswith(STATS + '::') and sum('array<' in (x['t'] or '') for x in F.rec[c]['fields']) == len(BIASES)]
    if len(bags) != 1: R.undecided('tensor statistics', 'bags not found'); return
    bag = bags[0]
    n = bins(F, R, bag) + pieces(F, R, bag) + quantiles(F, R)
    R.floor('tensor statistics', n, 4)
def table(home):
    """the bin of element number n under a bias"""
    def h(I, e, a, st, this):
        x, b = a[0], a[1] if len(a) > 1 else num(4)
        if x.op == 'fn' and x.a[0] == 'val' and all(q.op == 'num' for q in x.a[2:5]) and b.op == 'num' and b.a[0] in BIASES:
            return num((home[tuple(int(q.a[0]) for q in x.a[2:5])] + BIASES.index(b.a[0])) % NB)
        return NotImplemented
    return h
def bins(F, R, bag):
    """every finite element is counted in its bin of every granularity, and the bin keeps its furthest value"""
    n = 0; rule = 'every finite element is counted once in its bin of every granularity, other bins keep what they have'
    arrays = [x['n'] for x in F.rec[bag]['fields'] if 'array<' in x['t']]
    for m, shape, mk in (('populateBags', (1, 1, 1), lambda o: [A, ZERO, ZERO, ZERO, o]), ('populateBagsByCol', (2, 2, 2), lambda o: [A, num(1), num(2), num(1), o]), ('populateBagsByRow', (2, 2, 2), lambda o: [A, num(2), num(1), num(1), o])):
        fs = [f for f in F.by_mn.get(m, []) if f.get('cls') == STATS and len(f['params']) == 5]
        if len(fs) != 1: R.undecided(m, 'not found'); continue
        f = fs[0]; R.analysed(f); n += 1
        mine = [(0, 0, 0)] if m == 'populateBags' else [(1, 0, 1), (1, 1, 1)] if 'Col' in m else [(0, 1, 1), (1, 1, 1)]
        for same in ((True,) if len(mine) == 1 else (True, False)):
            home = {p: (1 if same or i == 0 else 3) for i, p in enumerate(mine)}
            for sign in (1, -1, 0):
                for bad in [None] + mine:
                    isbad = lambda I, e, a, st, this: TRUE if a[0] is V(A, *map(num, bad)) else FALSE
                    H = dict(t04.hooks({A: shape}), floatToQuarter=table(home))
                    H['isnan'] = isbad if bad else (lambda I, e, a, st, this: FALSE)
                    H['isinf'] = lambda I, e, a, st, this: FALSE
                    I = Interp(F, hooks=H); I.sizes = {256: NB}; I.max_unroll = 17; st = St()
                    try:
                        o = I.construct(bag, [], st)
                        for x in arrays: I.setf(o, x, T('list', tuple(T('list', (sym('%s.value%d' % (x, b)), sym('%s.count%d' % (x, b)))) for b in range(NB))), st)
                        I.call(f, None, mk(o), st)
                    except Budget: R.undecided(m, 'budget'); continue
                    if I.unk: R.undecided(m, str(I.unk[:2])); continue
                    x = {p: V(A, *map(num, p)) for p in mine if p != bad}
                    sg = [lt(ZERO, y, False) if sign > 0 else lt(y, ZERO, False) if sign < 0 else eq(y, ZERO, 'f') for y in x.values()]
                    for g, name in enumerate(arrays):
                        got = I.getf(o, name, st); bias = BIASES[g]
                        for b in range(NB):
                            hit = [y for p, y in x.items() if (home[p] + g) % NB == b]
                            v0, c0 = sym('%s.value%d' % (name, b)), sym('%s.count%d' % (name, b))
                            asm = band(*sg) if sg else TRUE
                            w = v0
                            if hit and sign: asm = band(asm, le0(v0, sign))
                            for y in hit: w = y if not sign else ite(lt(w, y, False), y, w) if sign > 0 else ite(lt(y, w, False), y, w)
                            tag = '%s %s elements%s%s: bin %d of bias %d' % (m, {1: 'positive', -1: 'negative', 0: 'zero'}[sign], ', one bin' if same else '', ', one not a number' if bad else '', b, bias)
                            settle(R, tag + ' count', F.loc(f), rule, judge(I.freeze(I.at(got, num(b), ONE), st), add(c0, num(len(hit))), asm))
                            settle(R, tag + ' value', F.loc(f), rule, judge(I.freeze(I.at(got, num(b), ZERO), st), w, asm))
    return n
def le0(v, sign): return bnot(lt(v, ZERO, False)) if sign > 0 else bnot(lt(ZERO, v, False))
def pieces(F, R, bag):
    """the work is split so that every element is in one piece"""
    ks = sorted((k for k in F.ctors(STATS) if k['params'] and k.get('body') and len(list(FX.walk(k['body']))) > 40), key=lambda k: -len(k['params']))
    if not ks: R.undecided('pieces of tensor statistics', 'constructor not found'); return 0
    k = ks[0]; R.analysed(k); rule = 'every element is looked at once'
    for shape, big in (((2, 3, 2), False), ((3, 2, 2), False), ((2, 3, 2), True), ((3, 2, 2), True), ((2, 2, 2), True)):
        seen = []
        def visit(I, e, a, st, this):
            seen.append(tuple(I.freeze(x, st) for x in a[1:4])); return UNDEF
        def start(I, e, a, st, this):
            for i, n in enumerate(e['a']):
                while n.get('k') in ('cast', 'conv', 'un', 'par', 'rcast') and n.get('e'): n = n['e']
                if n.get('k') == 'ref' and n.get('fn') in F.fns: I.call(F.fns[n['fn']], None, a[i + 1:], st); return sym('future')
                if n.get('k') == 'lambda': I.call_value(a[i], a[i + 1:], st, None, None); return sym('future')
            return I.unknown('async', e)
        def stop(I, e, a, st, this): raise Caught()
        H = dict(t04.hooks({A: shape}), populateBags=visit, wait=lambda I, e, a, st, this: UNDEF, countElementsAndFindMinMax=stop)
        H['async'] = start
        if big: H['elementsPerChannel'] = lambda I, e, a, st, this: num(10 ** 10)
        I = Interp(F, hooks=H); I.sizes = {256: NB}; I.max_unroll = 17; st = St()
        tag = 'pieces %s %s' % ('x'.join(map(str, shape)), 'in parallel' if big else 'in turn')
        try: I.construct(STATS, [A, sym('fit'), sym('need0')][:len(k['params'])], st, k['id'])
        except Caught: pass
        except Budget: R.undecided(tag, 'budget'); continue
        else: R.undecided(tag, 'not recognised'); continue
        if any(q.op != 'num' for p in seen for q in p) or not seen and I.unk: R.undecided(tag, 'positions unknown'); continue
        got = sorted(tuple(int(q.a[0]) for q in p) for p in seen); want = sorted(t04.elems(shape))
        R.count('pieces checked')
        if got == want: R.ok(tag)
        else:
            miss = [p for p in want if p not in got]; twice = sorted({p for p in got if got.count(p) > 1}); out = [p for p in got if p not in want]
            R.viol(tag, F.loc(k), rule, 'missed %s, twice %s, outside %s' % (miss[:3], twice[:3], out[:3]), 'pieces')
    return 1
def quantiles(F, R):
    n = 0
    meth = lambda m, k: next((f for f in F.by_mn.get(m, []) if f.get('cls') == STATS and len(f['params']) == k), None)
    fld = {x['n'] for x in F.rec[STATS]['fields']}
    f = meth('countElementsAndFindMinMax', 1)
    if f and {'minValue', 'maxValue', 'elementCount'} <= fld:
        R.analysed(f); n += 1
        for cnt in ((0, 2, 0, 1, 0, 4), (3, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 7), (1, 1, 1, 1, 1, 1)):
            I = Interp(F, hooks={'__builtin_huge_val': lambda I, e, a, st, this: INF}); I.sizes = {256: NB}; I.max_unroll = 17; st = St()
            o = I.new_obj(STATS, st); I.setf(o, 'elementCount', ZERO, st)
            v = [sym('b%d' % i) if c else ZERO for i, c in enumerate(cnt)]
            st.env[-950] = T('list', tuple(T('list', (x, num(c))) for x, c in zip(v, cnt)))
            arg = {'k': 'ref', 'dk': 'var', 'id': -950, 'n': 'bins', 't': f['params'][0]['t']}
            I.inline(f, o, [st.env[-950]], st, None, [arg])
            hit = [x for x, c in zip(v, cnt) if c]
            from functools import reduce
            lo = reduce(lambda p, q: ite(lt(q, p, False), q, p), hit); hi = reduce(lambda p, q: ite(lt(p, q, False), q, p), hit)
            g = lambda x: I.freeze(I.getf(o, x, st), st)
            big = [INF]
            asm = band(*[band(lt(neg(b), x, False), lt(x, b, False)) for b in set(big) for x in hit])
            settle(R, 'count of %s' % (cnt,), F.loc(f), 'every element is counted once', judge(g('elementCount'), num(sum(cnt))))
            settle(R, 'least of %s' % (cnt,), F.loc(f), 'the minimum and maximum are those of the elements there are', judge(g('minValue'), lo, asm))
            settle(R, 'greatest of %s' % (cnt,), F.loc(f), 'the minimum and maximum are those of the elements there are', judge(g('maxValue'), hi, asm))
    for m, field, parts in (('calculateQuarters', 'quarterValues', lambda t: [(t // 4 * k, '>=') for k in (1, 2, 3)]),
                            ('calculateEightyPercent', 'eightyValues', lambda t: [(t // 10, '>'), (min(t // 2, t // 10 * 5), '>='), (min(t * 9 // 10, t // 10 * 9), '>=')])):
        f = meth(m, 0)
        if not f or not {'bagElements', 'elementCount', field} <= fld: R.undecided(m, 'not found'); continue
        R.analysed(f); n += 1
        for cnt in ((1, 1, 1, 1), (10,), (5, 1, 1, 1, 2), (9, 1), (1, 9), (20, 1, 1, 18), (2, 2, 2, 2, 2), (1, 1, 1), (3, 30, 3), (12, 8), (8, 12), (4, 4), (2, 9, 9), (1, 8, 1), (20, 10, 10)):
            t = sum(cnt); v = [sym('b%d' % i) for i in range(len(cnt))]
            I = Interp(F); I.max_unroll = 17; st = St(); o = I.new_obj(STATS, st)
            I.setf(o, 'elementCount', num(t), st); I.setf(o, field, T('list', ()), st)
            I.setf(o, 'bagElements', T('list', tuple(T('list', (x, num(c))) for x, c in zip(v, cnt))), st)
            try: I.call(f, o, [], st)
            except Budget: R.undecided(m, 'budget'); continue
            want = [v[0]]
            for lim, op in parts(t):
                want.append(next((x for i, x in enumerate(v) if sum(cnt[:i + 1]) > lim or op == '>=' and sum(cnt[:i + 1]) >= lim), v[-1]))
            want.append(v[-1])
            got = I.freeze(I.getf(o, field, st), st)
            settle(R, '%s of %s' % (m, cnt), F.loc(f), 'a percentile is the value of the first bin reaching it', judge(got, T('list', tuple(want))))
    return n
