"""M05: activations and their derivatives.  Value graphs of activate / derivative, compared with the formula and with the symbolic derivative of that formula."""
from tensors import *
from judge import judge, settle
X = V(sym('A'))
A = sym('A')
one = ONE
sg = lambda x: div(ONE, add(ONE, fn('exp', neg(x))))
def q(a, b): return div(num(a), num(b))
def asg(x): return mul(fnum('0.5'), add(div(x, add(ONE, fn('abs', x))), ONE))
def tha(x): return sub(mul(num(2), sg(mul(num(2), x))), ONE)
def soft(x):
    a = A; m = extreme('maxf', a)
    i, j, k = fresh_bv(), fresh_bv(), fresh_bv()
    return div(fn('exp', sub(x, m)), tsum(i, ZERO, chans(a), tsum(j, ZERO, rows(a), tsum(k, ZERO, cols(a), fn('exp', sub(V(a, j, k, i), m))))))
# class -> (value, derivative or None for d(value)/dx, points where the derivative is not defined)
TABLE = {
    'LinearActivationFunction': (X, ONE, FALSE),
    'ReLUActivationFunction': (ite(lt(ZERO, X, False), X, ZERO), ite(lt(ZERO, X, False), ONE, ZERO), eq(X, ZERO, 'f')),
    'LeakyReLUActivationFunction': (ite(lt(X, ZERO, False), mul(fnum('0.01'), X), X), ite(lt(X, ZERO, False), fnum('0.01'), ONE), eq(X, ZERO, 'f')),
    'SigmoidActivationFunction': (sg(X), mul(sg(X), sub(ONE, sg(X))), FALSE),
    'SigmoidApproximationActivationFunction': (asg(X), mul(asg(X), sub(ONE, asg(X))), FALSE),   # documented: the sigmoid identity on its own value
    'TanhActivationFunction': (fn('tanh', X), sub(ONE, mul(fn('tanh', X), fn('tanh', X))), FALSE),
    'TanhApproximationActivationFunction': (tha(X), sub(ONE, mul(tha(X), tha(X))), FALSE),
    'SoftmaxActivationFunction': (soft(X), ONE, FALSE),   # documented: always followed by the cross-entropy pair derivative
}
def run(F, R):
    R.rule = ('Every concrete ActivationFunction: the value graphs of activate(x).getValue and derivative(x).getValue at an arbitrary position must equal the formula '
              'of that activation and its derivative (also obtained by symbolic differentiation of the code\'s own value graph); shapes must be those of the input.')
    R.notes += ['float arithmetic is compared over the reals', 'kinks (x = 0 of the ReLU family) are excluded', 'softmax is judged as the pair with categorical cross-entropy']
    cs = sorted(F.concrete('happyml::ActivationFunction'))
    for cls in cs:
        n = cls.split('::')[-1]
        terms = {}
        for m in ('activate', 'derivative'):
            f = F.method(cls, m, 1)
            R.analysed(f)
            I = Interp(F); st = St()
            try:
                o = I.construct(cls, [], st)
                t = I.method(o, m, [A], st)
                val = I.freeze(I.method(t, 'getValue', [r, c, h], st), st)
                shp = [I.freeze(I.method(t, x, [], st), st) for x in ('rowCount', 'columnCount', 'channelCount')]
            except Budget: R.undecided('%s.%s' % (n, m), 'evaluation budget'); continue
            R.funcs |= {F.fns[i]['n'] for i in I.inlined}
            terms[m] = val
            inr = band(*[band(le(ZERO, x, True), lt(x, y, True)) for x, y in zip((r, c, h), like(A))])
            kink = FALSE
            if n in TABLE:
                v, d, kink = TABLE[n]
                want = v if m == 'activate' else d
                settle(R, '%s.%s' % (n, m), F.loc(f), 'differs from the formula of the activation', judge(val, want, band(inr, bnot(kink) if m == 'derivative' else TRUE), ('r', 'c', 'h')))
            for w, s, g in zip('rows columns channels'.split(), like(A), shp):
                if n == 'LinearActivationFunction' and m == 'derivative':
                    g = subst(g, {fn('at', fn('shape', A), num(i)): like(A)[i] for i in range(3)})
                settle(R, '%s.%s %s' % (n, m, w), F.loc(f), 'shape differs from the input', judge(g, s, TRUE, ()))
            if n not in TABLE and m == 'derivative' and 'activate' in terms:
                try: d = diff(terms['activate'], X)
                except Exception: R.undecided(n + '.derivative', 'not differentiable symbolically'); continue
                settle(R, n + '.derivative', F.loc(f), 'differs from the derivative of the activation', judge(val, d, inr, ('r', 'c', 'h')))
        if n in TABLE and n not in ('SoftmaxActivationFunction', 'SigmoidApproximationActivationFunction') and len(terms) == 2:
            f = F.method(cls, 'derivative', 1)
            try: d = diff(terms['activate'], X)
            except Exception as e: R.undecided(n + ' d/dx', 'symbolic differentiation: %s' % e); continue
            if d is None: R.undecided(n + ' d/dx', 'no symbolic derivative'); continue
            settle(R, n + ' d/dx', F.loc(f), 'derivative is not the derivative of activate', judge(terms['derivative'], d, band(inr, bnot(kink)), ('r', 'c', 'h')))
    R.floor('activation functions', len(cs), 4)
