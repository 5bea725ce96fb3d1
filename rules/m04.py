"""M04: losses and their derivatives."""
from tensors import *
from judge import judge, settle
Y, P, E = sym('Y'), sym('P'), sym('E')
y, p, e = V(Y), V(P), V(E)
d = sub(p, y); S = sym('smoothness'); HALF = div(ONE, num(2))
def total(f):
    i, j, k = fresh_bv(), fresh_bv(), fresh_bv()
    return tsum(i, ZERO, chans(E), tsum(j, ZERO, rows(E), tsum(k, ZERO, cols(E), f(V(E, j, k, i)))))
mean = lambda f: div(total(f), N_(E))
sign = ite(lt(ZERO, d, False), ONE, ite(lt(d, ZERO, False), num(-1), ZERO))
EPS1 = sub(ONE, EPS)
openp = band(le(EPS, p, False), le(p, EPS1, False))
ad = fn('abs', d)
# class -> (error, loss, derivative, precondition on the prediction)
TABLE = {
    'MeanSquaredErrorLossFunction': (d, mean(lambda x: mul(x, x)), mul(num(2), d), TRUE),
    'MeanAbsoluteErrorLossFunction': (ad, mean(lambda x: x), sign, bnot(eq(d, ZERO, 'f'))),
    'SmoothMeanAbsoluteErrorLossFunction': (ite(lt(ad, S, False), div(mul(d, d, HALF), S), sub(ad, mul(HALF, S))), mean(lambda x: x),
                                            ite(lt(ad, S, False), div(d, S), sign), TRUE),
    'BinaryCrossEntropyLossFunction': (neg(add(mul(y, fn('log', p)), mul(sub(ONE, y), fn('log', sub(ONE, p))))), total(lambda x: x),
                                       neg(sub(div(y, p), div(sub(ONE, y), sub(ONE, p)))), openp),
    'CategoricalCrossEntropyLossFunction': (neg(mul(y, fn('log', p))), total(lambda x: x), d, openp),
}
def run(F, R):
    R.rule = ('Every concrete LossFunction: the value graphs of compute_error and compute_loss_derivative at an arbitrary position, and of compute_loss, must equal '
              'the definition of that loss; the derivative must also equal the symbolic derivative of the reported error (squared for mean squared error).')
    R.notes += ['float arithmetic is compared over the reals', 'cross-entropy: predictions inside [1e-8, 1 - 1e-8]; categorical cross-entropy is judged as the pair with softmax',
                'the smoothness of the smooth loss is an arbitrary positive number']
    cs = sorted(F.concrete('happyml::LossFunction'))
    same = band(*[eq(a, b, 'i') for a, b in zip(like(Y), like(P))])
    pos = band(*[lt(ZERO, q, True) for q in like(E)])
    for cls in cs:
        n = cls.split('::')[-1]
        if n not in TABLE: R.undecided(n, 'a loss without a definition here'); continue
        es, ls, ds, pre = TABLE[n]
        fe, fl, fd = [F.method(cls, m) for m in ('compute_error', 'compute_loss', 'compute_loss_derivative')]
        R.analysed(fe, fl, fd)
        I = Interp(F); st = St()
        o = I.construct(cls, [], st)
        for f in F.rec[cls].get('fields', []):
            if f['n'] == 'smoothness':
                got = I.freeze(I.getf(o, f['n'], st), st)
                settle(R, n + ' default smoothness is positive', F.loc(fe), 'smoothness must be positive', judge(lt(ZERO, got, False), TRUE))
                I.setf(o, f['n'], S, st)
        inr = band(same, pre, lt(ZERO, S, False), *[band(le(ZERO, x, True), lt(x, z, True)) for x, z in zip((r, c, h), like(P))])
        err = I.method(o, 'compute_error', [Y, P], st)
        ev = I.freeze(I.method(err, 'getValue', [r, c, h], st), st)
        settle(R, n + '.compute_error', F.loc(fe), 'error differs from the definition of the loss', judge(ev, es, inr, ('r', 'c', 'h')))
        lo = I.freeze(I.method(o, 'compute_loss', [E], st), st)
        settle(R, n + '.compute_loss', F.loc(fl), 'loss differs from its definition', judge(lo, ls, pos))
        der = I.method(o, 'compute_loss_derivative', [err, Y, P], st)
        dv = I.freeze(I.method(der, 'getValue', [r, c, h], st), st)
        settle(R, n + '.compute_loss_derivative', F.loc(fd), 'derivative differs from the definition of the loss', judge(dv, ds, inr, ('r', 'c', 'h')))
        for m, t in (('compute_error', err), ('compute_loss_derivative', der)):
            for w, a, sh in zip(('rowCount', 'columnCount', 'channelCount'), like(P), ('rows', 'columns', 'channels')):
                settle(R, '%s.%s %s' % (n, m, sh), F.loc(F.method(cls, m)), 'shape differs from the prediction', judge(I.freeze(I.method(t, w, [], st), st), a, same))
        if n != 'CategoricalCrossEntropyLossFunction':
            base = mul(ev, ev) if n == 'MeanSquaredErrorLossFunction' else ev
            try: q = diff(base, p)
            except Exception as x: R.undecided(n + ' d/dprediction', 'symbolic differentiation: %s' % x); q = None
            if q is not None:
                ex = band(lt(EPS, p, False), lt(p, EPS1, False), bnot(eq(d, ZERO, 'f')), bnot(eq(ad, S, 'f')), bnot(eq(ad, neg(S), 'f')))
                settle(R, n + ' d/dprediction', F.loc(fd), 'derivative is not the derivative of the reported error', judge(dv, q, band(inr, ex), ('r', 'c', 'h')))
        R.funcs |= {F.fns[i]['n'] for i in I.inlined}
    R.floor('loss functions', len(cs), 3)
