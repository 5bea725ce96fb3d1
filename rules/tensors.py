"""Definitions of the tensor operations (elements, shapes, rejected operands) used by T02 and T03."""
from vg import *
BASE = 'happyml::BaseTensor'
INV = 'happyml::InverseTensorView'
r, c, h = sym('r'), sym('c'), sym('h')
def V(A, i=r, j=c, k=h): return fn('val', A, i, j, k)
def rows(A): return fn('rows', A)
def cols(A): return fn('cols', A)
def chans(A): return fn('chans', A)
def like(A): return (rows(A), cols(A), chans(A))
def ne(a, b): return bnot(eq(a, b, 'i'))
def samediff(A, B): return bor(ne(rows(A), rows(B)), ne(cols(A), cols(B)), ne(chans(A), chans(B)))
def flat(A, off):
    per = mul(rows(A), cols(A)); o = mod(off, per)
    return V(A, idiv(o, cols(A)), mod(o, cols(A)), idiv(off, per))
def kpad(k): return sub(k, ONE)
def padded(A, i, j, t, l, k=h):
    inside = band(le(t, i, True), lt(sub(i, t), rows(A), True), le(l, j, True), lt(sub(j, l), cols(A), True))
    return ite(inside, V(A, sub(i, t), sub(j, l), k), ZERO)
def xcorr(get, K, kget):
    a, b = fresh_bv(), fresh_bv()
    return tsum(a, ZERO, rows(K), tsum(b, ZERO, cols(K), mul(kget(a, b), get(add(r, a), add(c, b)))))
def full(A, K, kget):
    pr, pc = kpad(rows(K)), kpad(cols(K))
    return xcorr(lambda i, j: padded(A, i, j, pr, pc), K, kget)
def sumk(A, f):
    k = fresh_bv(); return tsum(k, ZERO, chans(A), f(k))
def extreme(op, A):
    x, y, z = fresh_bv(), fresh_bv(), fresh_bv()
    return T(op, (x, ZERO, chans(A), T(op, (y, ZERO, rows(A), T(op, (z, ZERO, cols(A), V(A, y, z, x)))))))
def clampf(x, lo, hi): return ite(lt(x, lo, False), lo, ite(lt(hi, x, False), hi, x))
EPS = fnum('1e-8')
N_ = lambda A: mul(rows(A), cols(A), chans(A))
def stdder(d, x, mean, sd):
    n = N_(x); xm = sub(V(x), mean)
    # derivative formula of the standardisation with respect to its input, mean and deviation held as given
    return None

# kind letters of the constructor parameters: T tensor, s scalar/size, v vector, f function
# entry: (class, kinds) -> (value, shape, refused)
def table():
    S = {}
    def d(cls, kinds, f): S[(cls, kinds)] = f
    un = lambda f: (lambda A: (f(A), like(A), FALSE))
    d('TensorNoOpView', 'T', un(lambda A: V(A)))
    d('AbsoluteTensorView', 'T', un(lambda A: fn('abs', V(A))))
    d('ExponentialTensorView', 'T', un(lambda A: fn('exp', V(A))))
    d('Log2TensorView', 'T', un(lambda A: fn('log2', V(A))))
    d('LogTensorView', 'T', un(lambda A: fn('log', clampf(V(A), EPS, sub(ONE, EPS)))))
    d('SqrtTensorView', 'T', un(lambda A: fn('sqrt', V(A))))
    d('RoundTensorView', 'T', un(lambda A: fn('round', V(A))))
    d('PowerTensorView', 'Ts', lambda A, p: (fn('pow', V(A), p), like(A), FALSE))
    d('ElementWiseInverseTensorView', 'Ts', lambda A, e: (div(ONE, add(V(A), e)), like(A), FALSE))
    d('ClipTensorView', 'Tss', lambda A, lo, hi: (clampf(V(A), lo, hi), like(A), FALSE))
    d('LessThanScalarTensorView', 'Ts', lambda A, x: (ite(lt(V(A), x, False), ONE, ZERO), like(A), FALSE))
    d('ScalarAddTensorView', 'Ts', lambda A, x: (add(V(A), x), like(A), FALSE))
    d('ScalarSubtractTensorView', 'Ts', lambda A, x: (sub(V(A), x), like(A), FALSE))
    d('ScalarSubtractTensorView', 'sT', lambda x, A: (sub(x, V(A)), like(A), FALSE))
    d('ScalarMultiplyTensorView', 'Ts', lambda A, x: (mul(V(A), x), like(A), FALSE))
    d('ScalarMultiplyTensorView', 'sT', lambda x, A: (mul(V(A), x), like(A), FALSE))
    d('ScalarDivideTensorView', 'Ts', lambda A, x: (div(V(A), x), like(A), FALSE))
    d('ScalarDivideTensorView', 'sT', lambda x, A: (div(x, V(A)), like(A), FALSE))
    d('ValueTransformTensorView', 'Tf', lambda A, f: (fn('call', f, V(A)), like(A), FALSE))
    d('ValueTransformWithDoubleTensorView', 'Tfs', lambda A, f, x: (fn('call', f, V(A), x), like(A), FALSE))
    d('NormalizeTensorView', 'Tss', lambda A, mn, mx: (div(sub(V(A), mn), sub(mx, mn)), like(A), FALSE))
    d('NormalizeTensorView', 'T', lambda A: (div(sub(V(A), extreme('minf', A)), sub(extreme('maxf', A), extreme('minf', A))), like(A), FALSE))
    d('DenormalizeTensorView', 'Tss', lambda A, mn, mx: (add(mul(V(A), sub(mx, mn)), mn), like(A), FALSE))
    d('StandardizeTensorView', 'Tss', lambda A, m, s: (div(sub(V(A), m), s), like(A), FALSE))
    d('UnstandardizeTensorView', 'Tss', lambda A, m, s: (add(mul(V(A), s), m), like(A), FALSE))
    el = lambda f: (lambda A, B: (f(V(A), V(B)), like(A), samediff(A, B)))
    d('AddTensorView', 'TT', el(lambda a, b: add(a, b)))
    d('SubtractTensorView', 'TT', el(lambda a, b: sub(a, b)))
    d('ElementWiseMultiplyTensorView', 'TT', el(lambda a, b: mul(a, b)))
    d('ElementWiseDivideTensorView', 'TT', el(lambda a, b: div(a, ite(eq(b, ZERO, 'f'), EPS, b))))
    def matmul(A, B):
        k = fresh_bv()
        return tsum(k, ZERO, cols(A), mul(V(A, r, k), V(B, k, c)))
    d('MatrixMultiplyTensorView', 'TT', lambda A, B: (matmul(A, B), (rows(A), cols(B), chans(A)), bor(ne(cols(A), rows(B)), ne(chans(A), chans(B)))))
    def matdiv(A, B):
        I = fn('inv', B); k = fresh_bv()
        return (tsum(k, ZERO, cols(A), mul(V(A, r, k), V(I, k, c))), (rows(A), cols(I), chans(A)), samediff(A, I))
    d('MatrixDivideTensorView', 'TT', matdiv)
    d('OuterProductTensorView', 'TT', lambda A, B: (mul(V(A, r, ZERO), V(B, ZERO, c)), (rows(A), cols(B), chans(A)), bor(ne(cols(A), ONE), ne(rows(B), ONE), ne(chans(A), chans(B)))))
    def dot(A, B):
        k = fresh_bv()
        return (tsum(k, ZERO, cols(A), mul(V(A, ZERO, k, ZERO), V(B, ZERO, k, ZERO))), (ONE, ONE, ONE),
                bor(ne(rows(A), ONE), ne(rows(B), ONE), ne(chans(A), ONE), ne(chans(B), ONE), ne(cols(A), cols(B))))
    d('DotProductTensorView', 'TT', dot)
    d('TransposeTensorView', 'T', lambda A: (V(A, c, r), (cols(A), rows(A), chans(A)), FALSE))
    d('Rotate180TensorView', 'T', lambda A: (V(A, sub(sub(rows(A), ONE), r), sub(sub(cols(A), ONE), c)), like(A), FALSE))
    d('RowFlattenTensorView', 'T', lambda A: (flat(A, c), (ONE, N_(A), ONE), FALSE))
    d('ColumnFlattenTensorView', 'T', lambda A: (flat(A, r), (N_(A), ONE, ONE), FALSE))
    rs = lambda A, nr, nc: (flat(A, add(mul(h, nr, nc), mul(r, nc), c)), (nr, nc, chans(A)))
    d('ReshapeTensorView', 'Tss', lambda A, nr, nc: rs(A, nr, nc) + (ne(mul(rows(A), cols(A)), mul(nr, nc)),))
    d('ReshapeTensorView', 'Tsss', lambda A, nr, nc, nk: rs(A, nr, nc) + (bor(ne(chans(A), nk), ne(mul(rows(A), cols(A)), mul(nr, nc))),))
    d('ConcatWideTensorView', 'TT', lambda A, B: (ite(lt(c, cols(A), True), V(A), V(B, r, sub(c, cols(A)))), (rows(A), add(cols(A), cols(B)), chans(A)), bor(ne(rows(A), rows(B)), ne(chans(A), chans(B)))))
    d('ChannelToTensorView', 'Ts', lambda A, k: (V(A, r, c, k), (rows(A), cols(A), ONE), None))
    d('SumChannelsTensorView', 'T', lambda A: (sumk(A, lambda k: V(A, r, c, k)), (rows(A), cols(A), ONE), FALSE))
    d('SumToChannelTensorView', 'Tss', lambda A, k, n: (ite(eq(h, k, 'i'), sumk(A, lambda q: V(A, r, c, q)), ZERO), (rows(A), cols(A), n), FALSE))
    d('WindowTensorView', 'Tss', lambda A, a, b: (V(A, r, add(c, a)), (rows(A), sub(b, a), chans(A)), bor(le(b, a, True), lt(cols(A), b, True))))
    d('ZeroPadTensorView', 'Tssss', lambda A, t, b, l, q: (padded(A, r, c, t, l), (add(rows(A), t, b), add(cols(A), l, q), chans(A)), FALSE))
    d('DiagonalTensorView', 'T', lambda A: (ite(band(eq(r, c, 'i'), lt(r, rows(A), True), lt(c, cols(A), True)), V(A), ZERO), (mul(rows(A), cols(A)), mul(rows(A), cols(A)), chans(A)), FALSE))
    d('MaskedSelectTensorView', 'TTTs', lambda M, A, B, x: (ite(lt(x, V(M), False), V(A), V(B)), like(M), None))
    d('Valid2DCrossCorrelationTensorView', 'TT', lambda A, K: (xcorr(lambda i, j: V(A, i, j), K, lambda a, b: V(K, a, b)),
                                                             (add(sub(rows(A), rows(K)), ONE), add(sub(cols(A), cols(K)), ONE), chans(A)), None))
    fs = lambda A, K: (add(rows(A), kpad(rows(K))), add(cols(A), kpad(cols(K))), chans(A))
    d('Full2DCrossCorrelationTensorView', 'TT', lambda A, K: (full(A, K, lambda a, b: V(K, a, b)), fs(A, K), None))
    d('Full2DConvolveTensorView', 'TT', lambda A, K: (full(A, K, lambda a, b: V(K, sub(sub(rows(K), ONE), a), sub(sub(cols(K), ONE), b))), fs(A, K), None))
    def smd(P, Tt):
        k = fresh_bv()
        return (sub(V(P), ite(eq(c, fn('argmaxfirst', T('map', (k, ZERO, cols(Tt), V(Tt, r, k, h)))), 'i'), ONE, ZERO)), like(P), None)
    d('IdentityTensor', 'sss', lambda a, b, k: (ite(eq(r, c, 'i'), ONE, ZERO), (a, b, k), FALSE))
    d('UniformTensor', 'ssss', lambda a, b, k, v: (v, (a, b, k), FALSE))
    d('UniformTensor', 'vs', lambda s, v: (v, tuple(fn('at', s, num(i)) for i in range(3)), FALSE))
    d('TensorFromFunction', 'fsss', lambda f, a, b, k: (fn('call', f, r, c, h), (a, b, k), FALSE))
    return S
def kinds(f):
    out = ''
    for p in f['params']:
        t = p['t']
        out += 'T' if 'BaseTensor' in t else 'f' if 'function<' in t else 'v' if 'vector<' in t else 's' if (is_int(t) or is_flt(t)) else '?'
    return out
def instances(F):
    """(class, ctor, kinds, symbolic arguments)"""
    for v in sorted(F.concrete(BASE)):
        n = v.split('::')[-1]
        for k in F.ctors(v):
            if len(k['params']) == 1 and n in k['params'][0]['t']: continue
            ks = kinds(k)
            yield v, n, k, ks, [sym(('A%d' if q == 'T' else 's%d') % i) for i, q in enumerate(ks)]
def inv_hook(I, e, args, st, this): return fn('inv', args[0])
def build(F, v, k, args):
    I = Interp(F, hooks={INV: inv_hook} if v != INV else {})
    st = St()
    o = I.construct(v, args, st, k['id'])
    return I, st, o
def getter(F, v):
    return F.method(v, 'getValue', 3)
