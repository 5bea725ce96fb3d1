"""M02: every layer's backward pass is the derivative of its forward pass, and its parameter gradient is applied once."""
from layers import *
judge0 = judge
def flatv(A, i):   # element i in channel, row, column order
    return flat(A, i)
def run(F, R):
    R.rule = ('Every concrete layer is interpreted over symbolic inputs, parameters, errors and optimizer: the value graphs of forward (training and predicting), of backward, '
              'and of the gradient that apply hands to the optimizer must equal the layer definition and its adjoint; the new parameter is stored, at the configured precision, exactly once.')
    R.notes += ['float arithmetic is compared over the reals; materializeTensor is the identity here (decided by T04)', 'the convolution is unrolled for 2 filters over 2 input channels of arbitrary size',
                'random masks are arbitrary tensors with values between 0 and 1']
    cs = sorted(F.concrete('happyml::BaseLayer'))
    known = 0
    for cls in cs:
        n = cls.split('::')[-1]
        if n not in TABLE: R.undecided(n, 'a layer without a definition here'); continue
        known += 1
        fs = {m: F.method(cls, m) for m in ('forward', 'backward', 'apply')}
        R.analysed(*fs.values())
        L = lambda m: F.loc(fs[m])
        TABLE[n](F, R, cls, n, L)
    R.floor('layers with a definition', known, 5)
def track(R, F, y): R.funcs |= {F.fns[i]['n'] for i in y.I.inlined}
def one(b): return b.a[0] if b.op == 'list' and len(b.a) == 1 else None
def activation(F, R, cls, n, L):
    y = Layer(F, cls, [sym('act')])
    A = sym('act')
    for train in (True, False):
        t = y.forward([X], train)
        settle(R, '%s.forward%s' % (n, '' if train else ' predicting'), L('forward'), 'must be the activation of the input', judge(y.val(t), V(fn('m:activate', A, X)), inside(X)))
    y = Layer(F, cls, [A]); y.forward([X], True)
    b = one(y.backward(E))
    D = fn('m:derivative', A, X)
    if b is None: R.undecided(n + '.backward', 'result is not one tensor'); return
    settle(R, n + '.backward', L('backward'), 'must be the error times the derivative at the last input', judge(y.val(b), mul(V(D), V(E)), band(same(D, E), same(X, E), inside(E))))
    track(R, F, y)
def params(kind):
    def go(F, R, cls, n, L):
        dense = kind == 'weights'
        k = F.ctors(cls)[0]['params']
        def args(l2=FALSE):
            out = []
            for p in k:
                nm = p['n']; t = p['t']
                if 'string' in t: out.append(sym('label'))
                elif 'vector<vector' in t: out.append(T('list', (T('list', (HH, WW, num(2))),)))
                elif 'vector' in t: out.append(T('list', (HH, WW, num(2))))
                elif 'float' in t: out.append(REG)
                elif 'bool' in t: out.append(l2)
                elif 'bits' in nm: out.append(BITS)
                elif 'registration' in nm or t == 'int': out.append(ID)
                else: out.append(sym(nm))
            return out
        fld = 'weights' if dense else 'bias'
        fields = [f['n'] for f in F.rec[cls]['fields']]
        if fld not in fields:
            c2 = [f['n'] for f in F.rec[cls]['fields'] if 'shared_ptr<happyml::BaseTensor' in f['t'] and 'queue' not in f['t'] and 'vector' not in f['t']]
            if len(c2) != 1: R.undecided(n, 'the parameter field was not identified'); return
            fld = c2[0]
        P = W if dense else Wb
        new = lambda l2=FALSE: Layer(F, cls, args(l2), {fld: P})
        if dense:
            k1 = fresh_bv(); fw = tsum(k1, ZERO, cols(X), mul(V(X, r, k1), V(P, k1, c)))
            ok = band(eq(cols(X), rows(P), 'i'), eq(chans(X), chans(P), 'i'), eq(rows(X), ONE, 'i'), eq(chans(X), ONE, 'i'))
            oke = band(ok, eq(rows(E), ONE, 'i'), eq(cols(E), cols(P), 'i'), eq(chans(E), ONE, 'i'))
            k2 = fresh_bv(); bw = tsum(k2, ZERO, cols(E), mul(V(E, r, k2), V(P, c, k2)))
        else:
            fw = add(V(X), V(P)); ok = same(X, P); oke = band(ok, same(E, P)); bw = V(E)
        for train in (True, False):
            y = new(); t = y.forward([X], train)
            settle(R, '%s.forward%s' % (n, '' if train else ' predicting'), L('forward'), 'output differs from the definition', judge(y.val(t), fw, ok))
        for l2 in (FALSE, TRUE):
            if l2 is TRUE and not dense: continue
            tag = ' with l2' if l2 is TRUE else ''
            y = new(l2); y.forward([X], True); b = one(y.backward(E))
            if b is None: R.undecided(n + '.backward' + tag, 'result is not one tensor'); continue
            settle(R, n + '.backward' + tag, L('backward'), 'input error is not the adjoint of forward', judge(y.val(b), bw, oke))
            f0 = y.fields()[fld]
            settle(R, n + '.backward keeps the parameter' + tag, L('backward'), 'backward must not change the parameter', judge(boolean(f0 is P), TRUE))
            def grad(xv, ev): 
                g = mul(xv(fresh0, r), ev) if dense else None
                return g
            def wgrad(Xs, Err):
                if not dense: return V(Err)
                kk = fresh_bv()
                avg = lambda i, j: div(add(*[V(q, i, j) for q in Xs]), num(len(Xs)))
                g = tsum(kk, ZERO, rows(Err), mul(avg(kk, r), V(Err, kk, c)))
                return add(g, mul(REG, V(P))) if l2 is TRUE else g
            y.mat.clear(); y.apply()
            exp = [c_ for c_ in y.calls]
            if len(exp) != 1:
                settle(R, n + '.apply once' + tag, L('apply'), 'one queued gradient must reach the optimizer exactly once', judge(num(len(exp)), ONE)); continue
            kd, i_, w_, g_ = exp[0]
            settle(R, n + '.apply kind' + tag, L('apply'), 'the wrong kind of parameter change is requested', judge(boolean(kd == kind), TRUE))
            settle(R, n + '.apply id' + tag, L('apply'), 'the optimizer must be given the id of this layer', judge(i_, ID))
            settle(R, n + '.apply parameter' + tag, L('apply'), 'the optimizer must be given the current parameter', judge(boolean(w_ is P), TRUE))
            settle(R, n + '.apply gradient' + tag, L('apply'), 'the gradient is not the derivative with respect to the parameter', judge(y.val(g_), wgrad([X], E), oke))
            settle(R, n + '.apply stores' + tag, L('apply'), 'the changed parameter must become the parameter', judge(boolean(y.fields()[fld] is sym('new0')), TRUE))
            pm = [m for m in y.mat if m[0] is sym('new0')]
            settle(R, n + '.apply precision' + tag, L('apply'), 'the new parameter must be materialised at the layer precision', judge(y.I.freeze(pm[0][1], y.st) if pm and pm[0][1] is not None else sym('unmaterialised'), BITS))
            # several samples queued before one backward; several backward passes before one apply
            for plan in PLANS:
                y = new(l2); cnt = 0; gs = []
                xs_all = []
                for p_, m_ in enumerate(plan):
                    xs = [sym('X_%d' % (cnt + q)) for q in range(m_)]; cnt += m_; xs_all += xs
                    e_ = sym('E_%d' % p_)
                    for q in xs: y.forward([q], True)
                    y.backward(e_); gs.append((xs, e_))
                y.apply()
                okp = band(subst(oke, dict(zip(like(X) + like(E), like(xs_all[0]) + like(gs[0][1])))), *[same(xs_all[0], q) for q in xs_all[1:]], *[same(gs[0][1], e_) for _, e_ in gs[1:]])
                what = '%s inputs per pass' % '+'.join(map(str, plan))
                if len(y.calls) == 1: settle(R, '%s %s%s' % (n, what, tag), L('apply'), 'the gradient must use the mean input of each pass and the mean of the passes', judge(y.val(y.calls[0][3]), div(add(*[wgrad(xs, e_) for xs, e_ in gs]), num(len(gs))), okp))
                else: settle(R, '%s %s once%s' % (n, what, tag), L('apply'), 'the queued gradients must reach the optimizer exactly once', judge(num(len(y.calls)), ONE))
            # nothing of one batch leaks into the next
            y = new(l2); y.forward([X], True); y.backward(E); y.apply(); y.I.setf(y.o, fld, P, y.st); y.calls.clear()
            y.forward([X2], True); y.backward(E2); y.apply()
            if len(y.calls) == 1: settle(R, n + ' second batch' + tag, L('apply'), 'the second batch must not see inputs or errors of the first', judge(y.val(y.calls[0][3]), wgrad([X2], E2), band(oke, same(E, E2), same(X, X2))))
            else: R.undecided(n + ' second batch' + tag, '%d optimizer calls' % len(y.calls))
            track(R, F, y)
    return go
fresh0 = ZERO
PLANS = ((2,), (3,), (1, 1), (1, 1, 1), (2, 1), (1, 3))
def conv(F, R, cls, n, L):
    wf = [f['n'] for f in F.rec[cls]['fields'] if f['t'].replace('std::', '').startswith('vector<shared_ptr<') or ('vector<' in f['t'] and 'BaseTensor' in f['t'] and 'queue' not in f['t'])]
    if len(wf) != 1: R.undecided(n, 'the filter field was not identified'); return
    Ws = (W0, W1)
    new = lambda l2=FALSE: Layer(F, cls, conv_args(F, cls, 2, 2, l2), {wf[0]: T('list', Ws)})
    ok = band(shape(X, HH, WW, num(2)), *[shape(q, KK, KK, num(2)) for q in Ws], lt(ZERO, KK, True), le(KK, HH, True), le(KK, WW, True))
    oh, ow = add(sub(HH, KK), ONE), add(sub(WW, KK), ONE)
    oke = band(ok, shape(E, oh, ow, num(2)), shape(X2, HH, WW, num(2)), shape(E2, oh, ow, num(2)))
    rw = {}
    for q, d in ((X, (HH, WW, num(2))), (X2, (HH, WW, num(2))), (E, (oh, ow, num(2))), (E2, (oh, ow, num(2))), (W0, (KK, KK, num(2))), (W1, (KK, KK, num(2)))):
        rw.update(zip(like(q), d))
    def judge(a, b, assume=TRUE, nn=()): return judge0(subst(a, rw), subst(b, rw), subst(assume, rw), nn)
    for train in (True, False):
        y = new(); t = y.forward([X], train)
        for k in (0, 1):
            spec = add(*[xcorr(lambda i, j: V(X, i, j, num(ic)), Ws[k], lambda a, b: V(Ws[k], a, b, num(ic))) for ic in (0, 1)])
            settle(R, '%s.forward%s filter %d' % (n, '' if train else ' predicting', k), L('forward'), 'output differs from the valid cross-correlation', judge(y.val(t, r, c, num(k)), spec, ok, ('r', 'c')))
        for w_, a, q in zip(('rows', 'columns', 'channels'), y.dims(t), (oh, ow, num(2))):
            settle(R, '%s.forward%s %s' % (n, '' if train else ' predicting', w_), L('forward'), 'shape differs', judge(a, q, ok))
    for l2 in (FALSE, TRUE):
        tag = ' with l2' if l2 is TRUE else ''
        y = new(l2); y.forward([X], True); b = one(y.backward(E))
        if b is None: R.undecided(n + '.backward' + tag, 'result is not one tensor'); continue
        for ic in (0, 1):
            def part(oc):
                pr = sub(KK, ONE)
                Kc = lambda a, b_: V(Ws[oc], sub(pr, a), sub(pr, b_), num(ic))
                get = lambda i, j: ite(band(le(pr, i, True), lt(sub(i, pr), oh, True), le(pr, j, True), lt(sub(j, pr), ow, True)), V(E, sub(i, pr), sub(j, pr), num(oc)), ZERO)
                return xcorr(get, Ws[oc], Kc)
            settle(R, '%s.backward channel %d%s' % (n, ic, tag), L('backward'), 'input error is not the adjoint of forward', judge(y.val(b, r, c, num(ic)), add(part(0), part(1)), oke, ('r', 'c')))
        for w_, a, q in zip(('rows', 'columns', 'channels'), y.dims(b), (HH, WW, num(2))):
            settle(R, '%s.backward %s%s' % (n, w_, tag), L('backward'), 'shape differs from the input', judge(a, q, oke))
        def gcheck(y, calls, Xs, Err, what, passes=None):
            if len(calls) != 2: settle(R, '%s %s once%s' % (n, what, tag), L('apply'), 'every filter must be changed exactly once', judge(num(len(calls)), num(2))); return
            for k, (kd, i_, w_, g_) in enumerate(calls):
                settle(R, '%s %s parameter %d%s' % (n, what, k, tag), L('apply'), 'the optimizer must be given the filter', judge(boolean(w_ is Ws[k]), TRUE))
                for ic in (0, 1):
                    a, b_ = fresh_bv(), fresh_bv()
                    gsum = []
                    for Xs_, Err_ in passes or [(Xs, Err)]:
                        xv = lambda i, j: div(add(*[V(q, i, j, num(ic)) for q in Xs_]), num(len(Xs_)))
                        gsum.append(tsum(a, ZERO, oh, tsum(b_, ZERO, ow, mul(V(Err_, a, b_, num(k)), xv(add(r, a), add(c, b_))))))
                    g = div(add(*gsum), num(len(gsum)))
                    if l2 is TRUE: g = add(g, mul(REG, V(Ws[k], r, c, num(ic))))
                    settle(R, '%s %s gradient of filter %d channel %d%s' % (n, what, k, ic, tag), L('backward'), 'the gradient is not the derivative with respect to the filter',
                           judge(y.val(g_, r, c, num(ic)), g, oke, ('r', 'c')))
        y.mat.clear(); y.apply(); cs = list(y.calls)
        gcheck(y, cs, [X], E, 'apply')
        if len(cs) == 2:
            settle(R, n + '.apply ids differ' + tag, L('apply'), 'two filters must not share optimizer state', judge(eq(cs[0][1], cs[1][1], 'i') if cs[0][1] is cs[1][1] else FALSE, FALSE))
            for k in (0, 1):
                got = y.I.at(y.fields()[wf[0]], num(k))
                settle(R, '%s.apply stores filter %d%s' % (n, k, tag), L('apply'), 'the changed filter must become the filter', judge(boolean(got is sym('new%d' % k)), TRUE))
                pm = [m for m in y.mat if m[0] is sym('new%d' % k)]
                settle(R, '%s.apply precision %d%s' % (n, k, tag), L('apply'), 'the new filter must be materialised at the layer precision', judge(y.I.freeze(pm[0][1], y.st) if pm and pm[0][1] is not None else sym('unmaterialised'), BITS))
        y.I.setf(y.o, wf[0], T('list', Ws), y.st); y.calls.clear()
        y.forward([X2], True); y.backward(E2); y.apply()
        gcheck(y, list(y.calls), [X2], E2, 'second batch')
        for plan in PLANS[:2]:
            y = new(l2); cnt = 0; gs = []
            for p_, m_ in enumerate(plan):
                xs = [sym('X_%d' % (cnt + q)) for q in range(m_)]; cnt += m_; e_ = sym('E_%d' % p_)
                for q in xs + [e_]: rw.update(zip(like(q), (oh, ow, num(2)) if q is e_ else (HH, WW, num(2))))
                for q in xs: y.forward([q], True)
                y.backward(e_); gs.append((xs, e_))
            y.apply()
            gcheck(y, list(y.calls), None, None, '%s inputs per pass' % '+'.join(map(str, plan)), gs)
        track(R, F, y)
def dropout(F, R, cls, n, L):
    k = F.ctors(cls)[0]['params']
    args = [RATE if 'float' in p['t'] or 'double' in p['t'] else (sym('label') if 'string' in p['t'] else T('list', (HH, WW, num(2)))) for p in k]
    y = Layer(F, cls, args)
    ok = band(shape(X, HH, WW, num(2)), same(X, E), same(X, E2), same(X, X2), *[same(X, sym('U%d' % i)) for i in (1, 2)])
    t = y.forward([X], True); U1, U2 = sym('U1'), sym('U2')
    keep = lambda U: ite(lt(RATE, V(U), False), ONE, ZERO)
    settle(R, n + '.forward', L('forward'), 'training keeps an element exactly when its random value exceeds the rate', judge(y.val(t), mul(V(X), keep(U1)), ok))
    b = one(y.backward(E))
    if b is not None: settle(R, n + '.backward', L('backward'), 'the error must pass through the mask of the last forward pass', judge(y.val(b), mul(V(E), keep(U1)), ok))
    else: R.undecided(n + '.backward', 'result is not one tensor')
    t = y.forward([X2], True); b = one(y.backward(E2))
    settle(R, n + ' second pass', L('forward'), 'every training pass draws a mask of its own', judge(y.val(t), mul(V(X2), keep(U2)), ok))
    if b is not None: settle(R, n + ' second backward', L('backward'), 'the error must pass through the mask of the last forward pass', judge(y.val(b), mul(V(E2), keep(U2)), ok))
    if len(y.rnd) == 2:
        a, b_ = y.rnd
        settle(R, n + ' fresh mask', L('forward'), 'two training passes must not use the same seed', judge(boolean(a[-1] is not b_[-1]), TRUE))
        settle(R, n + ' mask range', L('forward'), 'random values must lie between 0 and 1', judge(boolean(ZERO in a and ONE in a and a.index(ZERO) < a.index(ONE)), TRUE))
    t = y.forward([X], False)
    settle(R, n + '.forward predicting', L('forward'), 'prediction scales by the share of elements kept in training', judge(y.val(t), mul(V(X), sub(ONE, RATE)), ok))
    track(R, F, y)
def flatten(F, R, cls, n, L):
    flatcase = bnot(band(eq(rows(X), ONE, 'i'), eq(chans(X), ONE, 'i')))
    pos = band(*[lt(ZERO, q, True) for q in like(X)])
    per = mul(rows(X), cols(X))
    for train in (True, False):
        y = Layer(F, cls, []); t = y.forward([X], train)
        tag = '' if train else ' predicting'
        settle(R, '%s.forward of a row%s' % (n, tag), L('forward'), 'a row is handed on unchanged', judge(y.val(t), V(X), band(eq(rows(X), ONE, 'i'), eq(chans(X), ONE, 'i'), pos)))
        settle(R, '%s.forward%s' % (n, tag), L('forward'), 'elements must be laid out by channel, row, column', judge(y.val(t, ZERO, c, ZERO), flat(X, c), band(flatcase, pos, le(ZERO, c, True), lt(c, mul(per, chans(X)), True)), ('c',)))
        for w_, a, q in zip(('rows', 'columns', 'channels'), y.dims(t), (ONE, mul(per, chans(X)), ONE)):
            settle(R, '%s.forward%s %s' % (n, tag, w_), L('forward'), 'shape differs', judge(a, q, band(pos, flatcase)))
    y = Layer(F, cls, []); y.forward([X], True); b = one(y.backward(E))
    if b is None: b = y.backward(E)
    if b.op == 'ite' and all(x.op == 'list' and len(x.a) == 1 for x in b.a[1:]): b = ite(b.a[0], b.a[1].a[0], b.a[2].a[0])
    val = y.I.freeze(y.I.method(b, 'getValue', [r, c, h], y.st), y.st)
    eok = shape(E, ONE, mul(per, chans(X)), ONE)
    settle(R, n + '.backward', L('backward'), 'the error must return to the place its input came from', judge(val, V(E, ZERO, add(mul(h, per), mul(r, cols(X)), c), ZERO), band(eok, flatcase, pos, inside(X)), ('r', 'c', 'h')))
    settle(R, n + '.backward of a row', L('backward'), 'the error of a row is handed on unchanged', judge(val, V(E), band(same(E, X), eq(rows(X), ONE, 'i'), eq(chans(X), ONE, 'i'), inside(X), pos), ('r', 'c', 'h')))
    for w_, m, q in zip(('rows', 'columns', 'channels'), ('rowCount', 'columnCount', 'channelCount'), like(X)):
        settle(R, '%s.backward %s' % (n, w_), L('backward'), 'shape differs from the input', judge(y.I.freeze(y.I.method(b, m, [], y.st), y.st), q, band(eok, flatcase, pos)))
    track(R, F, y)
def concat(F, R, cls, n, L):
    Z = sym('Z')
    for ins, decl in (((X, Y), (X, Y)), ((X, Y, Z), (X, Y, Z)), ((X, Y), (Y, X)), ((X, Y, Z), (Z, X, Y))):   # inputs as they arrive, shapes as declared
        y = Layer(F, cls, [sym('label'), T('list', tuple(T('list', like(q)) for q in decl))])
        ok = band(*[eq(rows(q), rows(X), 'i') for q in ins[1:]], *[eq(chans(q), chans(X), 'i') for q in ins[1:]], *[lt(ZERO, cols(q), True) for q in ins])
        t = y.forward(list(ins), True); cum = ZERO; spec = None; starts = []
        for q in ins: starts.append(cum); cum = add(cum, cols(q))
        spec = V(ins[-1], r, sub(c, starts[-1]))
        for q, s0 in list(zip(ins, starts))[-2::-1]: spec = ite(lt(c, add(s0, cols(q)), True), V(q, r, sub(c, s0)), spec)
        tag = ' of %d%s' % (len(ins), '' if ins == decl else ' (arriving in another order)')
        settle(R, n + '.forward' + tag, L('forward'), 'inputs must stand side by side in order', judge(y.val(t), spec, ok, ('c',)))
        settle(R, n + '.forward columns' + tag, L('forward'), 'width must be the sum of the widths', judge(y.dims(t)[1], cum, ok))
        b = y.backward(E)
        if b.op != 'list' or len(b.a) != len(ins): R.undecided(n + '.backward' + tag, 'result is not one tensor per input'); continue
        oke = band(ok, eq(cols(E), cum, 'i'), eq(rows(E), rows(X), 'i'), eq(chans(E), chans(X), 'i'))
        for i, q in enumerate(ins):
            settle(R, '%s.backward%s input %d' % (n, tag, i), L('backward'), 'each input must get the columns it contributed', judge(y.val(b.a[i]), V(E, r, add(c, starts[i])), oke))
            for w_, a, z in zip(('rows', 'columns', 'channels'), y.dims(b.a[i]), like(q)):
                settle(R, '%s.backward%s input %d %s' % (n, tag, i, w_), L('backward'), 'shape differs from the input', judge(a, z, oke))
        track(R, F, y)
def normal(F, R, cls, n, L):
    N = N_(X)
    i1, i2, i3, i4 = fresh_bv(), fresh_bv(), fresh_bv(), fresh_bv()
    sx = tsum(i1, ZERO, N, flat(X, i1)); sxx = tsum(i2, ZERO, N, mul(flat(X, i2), flat(X, i2)))
    mean = div(sx, N); var = div(sub(sxx, div(mul(sx, sx), N)), N)
    sd = ite(eq(var, ZERO, 'f'), ONE, fn('sqrt', var))
    pos = band(*[lt(ZERO, q, True) for q in like(X)])
    for train in (True, False):
        y = Layer(F, cls, []); t = y.forward([X], train)
        settle(R, '%s.forward%s' % (n, '' if train else ' predicting'), L('forward'), 'output is not standardised by the mean and deviation of the input', judge(y.val(t), div(sub(V(X), mean), sd), pos))
    y = Layer(F, cls, []); t = y.forward([X], True); b = one(y.backward(E))
    if b is None: R.undecided(n + '.backward', 'result is not one tensor'); return
    sdterm = y.I.freeze(y.I.method(t, 'get_std_dev', [], y.st), y.st); mterm = y.I.freeze(y.I.method(t, 'get_mean', [], y.st), y.st)
    S, M = sym('deviation'), sym('mean')
    z = lambda v: div(sub(v, M), S)
    j1, j2 = fresh_bv(), fresh_bv()
    me = div(tsum(j1, ZERO, N, flat(E, j1)), N); mz = div(tsum(j2, ZERO, N, mul(flat(E, j2), z(flat(X, j2)))), N)
    got = subst(y.val(b), {sdterm: S, mterm: M})
    settle(R, n + '.backward', L('backward'), 'input error is not the derivative of the standardisation', judge(got, div(sub(sub(V(E), me), mul(z(V(X)), mz)), S), band(same(X, E), pos, bnot(eq(S, ZERO, 'f')))))
    track(R, F, y)
TABLE = {'ActivationLayer': activation, 'FullyConnectedLayer': params('weights'), 'BiasLayer': params('bias'), 'Convolution2dValidFunction': conv, 'DropoutLayer': dropout,
         'FlattenLayer': flatten, 'ConcatenateWideLayer': concat, 'NormalizationLayer': normal}
