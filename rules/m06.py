"""M06: the exit strategy stops training exactly when one of its configured rules says so, and names a rule that holds."""
from training import *
ES = 'happyml::ExitStrategy'
INF = sym('INF')
def names(cls, F):
    return {x['n'] for x in F.rec[cls]['fields']}
def run(F, R):
    R.rule = ('Every concrete ExitStrategy is constructed with symbolic limits and asked about a history of four epochs with symbolic losses, epoch numbers and times; the value graph of every answer must be the '
              'disjunction of the configured stopping rules (after the minimum number of epochs), and every reason text must be guarded by the rule it names.')
    R.notes += ['losses are real numbers compared over the reals (the relative degradation is undefined after a loss of exactly 0 and excluded there)', 'epoch numbers grow']
    cs = sorted(F.concrete(ES)); R.floor('exit strategies', len(cs), 1)
    for cls in cs: strategy(F, R, cls)
def par(F, cls):
    # parameters of the fullest constructor, by name
    cands = [f for f in F.by_cls_ctor(cls)] if hasattr(F, 'by_cls_ctor') else [f for f in F.fns.values() if f.get('cls') == cls and f.get('ctor') and f.get('body')]
    return max(cands, key=lambda f: len(f['params'])) if cands else None
def strategy(F, R, cls):
    n = cls.split('::')[-1]
    ctor = par(F, cls)
    if ctor is None: R.undecided(n, 'no constructor'); return
    ps = [p['n'] for p in ctor['params']]
    need = {'patience', 'maxElapsedTime', 'maxEpochs', 'zeroPrecisionTolerance', 'improvementTolerance', 'minEpochs', 'maxDegradationTolerance'}
    if set(ps) != need: R.undecided(n, 'constructor parameters are not the known limits: %s' % ps); return
    P = {p: sym(p) for p in ps}
    isd, why = F.method(cls, 'isDone', 3), F.method(cls, 'whyDone', 3)
    R.analysed(isd, why, ctor)
    I = Interp(F); st = St()
    o = I.construct(cls, [P[p] for p in ps], st)
    low, lowe = INF, ZERO
    pos = []
    asm = [lt(ZERO, P[x], False) for x in ('improvementTolerance',)]
    for k in range(4):
        e, l, t = sym('epoch%d' % k), sym('loss%d' % k), sym('time%d' % k)
        asm.append(lt(l, INF, False))
        if k: asm.append(lt(sym('epoch%d' % (k - 1)), e, True))
        st.thr = FALSE
        got = I.freeze(I.call(isd, o, [e, l, t], st), st)
        better = le(add(l, P['improvementTolerance']), low, False)
        low, lowe = ite(better, l, low), ite(better, e, lowe)
        asm.append(bnot(eq(low, ZERO, 'f')))
        rules = {'epochs': le(P['maxEpochs'], e, True), 'degradation': le(P['maxDegradationTolerance'], div(sub(l, low), low), False), 'elapsed time': le(P['maxElapsedTime'], t, True),
                 'patience': le(P['patience'], sub(e, lowe), True), 'loss': le(l, P['zeroPrecisionTolerance'], False)}
        ready = le(P['minEpochs'], e, True)
        want = band(ready, bor(*rules.values()))
        A = band(*asm)
        nn = ('epoch0', 'epoch1', 'epoch2', 'epoch3', 'maxEpochs', 'minEpochs', 'patience')
        settle(R, '%s.isDone after %d epochs' % (n, k + 1), F.loc(isd), 'training must stop exactly when a configured stopping rule holds', judge(got, want, band(A, bnot(st.thr)), nn))
        s2 = st.copy(); s2.thr = FALSE
        h0 = I.freeze(o, s2)
        w = I.freeze(I.call(why, o, [e, l, t], s2), s2)
        settle(R, '%s.whyDone pure %d' % (n, k), F.loc(why), 'asking for the reason must not change the decision', judge(I.freeze(I.call(isd, o, [e, l, t], s2.copy()), s2), I.freeze(I.call(isd, o, [e, l, t], st.copy()), st), A, nn))
        reasons(R, n, k, F.loc(why), w, rules, ready, want, A, nn)
KEY = {'epochs': 'Maximum Epochs', 'degradation': 'Maximum Degradation Tolerance', 'elapsed time': 'Maximum Elapsed Time', 'patience': 'Patience', 'loss': 'Zero Precision Tolerance'}
def text(t):
    return ' '.join(x.a[0] for x in walk(t) if x.op == 'str')
def reasons(R, n, k, loc, w, rules, ready, want, A, nn):
    out = []
    def leaves(t, g):
        if t.op == 'ite': leaves(t.a[1], band(g, t.a[0])); leaves(t.a[2], band(g, bnot(t.a[0])))
        else: out.append((g, t))
    leaves(w, TRUE)
    for g, t in out:
        x = text(t)
        ks = [r for r, s in KEY.items() if s in x]
        if 'Should not be done' in x or 'Minimum' in x and not ks:
            settle(R, '%s reason "too early" %d' % (n, k), loc, 'the reason given must hold', judge(band(g, ready), FALSE, A, nn))
        elif len(ks) == 1:
            settle(R, '%s reason "%s" %d' % (n, ks[0], k), loc, 'the reason given must hold', judge(band(g, bnot(rules[ks[0]])), FALSE, A, nn))
        elif not ks and x in ('Unknown', ''):
            settle(R, '%s reason unknown %d' % (n, k), loc, 'a stopped training must have a reason', judge(band(g, want), FALSE, A, nn))
        else: R.undecided('%s reason %d: %s' % (n, k, x[:60]), 'unrecognised reason text')
