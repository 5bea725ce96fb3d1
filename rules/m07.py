"""M07: the training loop trains on every record once per epoch, applies per batch, and hands back the best parameters it saw."""
from training import *
CASES = [(3, 2, 1, 2, 3, 'best'), (4, 2, 2, 0, 2, 'best'), (3, 1, 2, 1, 2, 'last'), (5, 3, 1, 0, 3, 'best'), (2, 2, 1, 1, 1, 'best'), (3, 3, 2, 2, 2, 'best'), (5, 2, 1, 0, 2, 'last')]
INF = sym('INF')
def mean(xs): return div(add(*xs), num(len(xs)))
def run(F, R):
    R.rule = ('NeuralNetworkForTraining::train is interpreted over scripted datasets, batch sizes, output counts and epochs with symbolic losses; the trace of guarded effects (predict, backward, apply, '
              'save, load, remove, exit decision) must be that of mini-batch training that restores the best checkpoint. Guards are compared as formulas over the symbolic losses.')
    R.notes += ['float arithmetic is compared over the reals', 'losses are opaque and not NaN except in the NaN case', 'cases (records, batch size, outputs, test records, epochs, policy): ' + str(CASES)]
    fs = [x for x in F.by_mn.get('train', []) if x.get('cls') == TRAIN and len(x['params']) >= 4 and 'Dataset' in x['params'][1]['n'] and 'DataSet' in x['params'][1]['t']]
    en = F.enums.get('happyml::TrainingRetentionPolicy')
    if len(fs) != 1 or not en: raise FX.AnalysisError('NeuralNetworkForTraining::train not found')
    f = fs[0]; tf = F.method(TRAIN, 'test', 2); R.analysed(f, tf)
    pol = {v['n']: int(v['v']) for v in en['vals']}
    for case in CASES: one(F, R, f, pol, *case)
    testing(F, R, tf)
    refusals(F, R, f, pol)
    R.floor('training scenarios', len(CASES), 3)
def args(f, L, b, policy):
    a = [L.train_ds, L.test_ds, num(b), num(policy)]
    return a + [TRUE] * (len(f['params']) - len(a))
def one(F, R, f, pol, n, b, k, tests, E, policy):
    tag = '%d records, batches of %d, %d outputs, %d test records, %d epochs, %s' % (n, b, k, tests, E, policy)
    loc = F.loc(f)
    L = Loop(F, n, tests, k, E)
    try: res = L.I.call(f, L.net, args(f, L, b, pol[policy]), L.st)
    except Budget: R.undecided(tag, 'evaluation budget'); return
    R.funcs |= {F.fns[i]['n'] for i in L.I.inlined}
    ev = L.events()
    if L.I.unk: R.undecided(tag, 'constructs: %s' % (L.I.unk[:2],)); return
    nb = (n + b - 1) // b
    ver = lambda e, i: (e * nb + i // b) * k
    of = lambda *ns: [x for x in ev if x[1] in ns and x[0] is not FALSE]
    def req(inst, what, good, ln=None): settle(R, tag + ': ' + inst, loc, what, judge(boolean(bool(good)), TRUE))
    # training passes
    bw = of('backward'); want = []
    for e in range(E):
        for i in range(n):
            for j in range(k):
                want.append((sym('out:%d' % j), fn('t!derivative', err('train', i, j, ver(e, i)), truthof('train', i, j), predof('train', i, j, ver(e, i)))))
    got = [tuple(x[2]) for x in bw]
    req('backward passes', 'every record must be back-propagated once per epoch through every output, with predictions by the parameters of its batch', sorted(map(id, sum(got, ()))) == sorted(map(id, sum(want, ()))) and set(got) == set(want) and len(got) == len(want))
    req('backward guards', 'back-propagation must not depend on the losses', all(x[0] is TRUE for x in bw))
    req('predictions', 'training records must be predicted for training, test records for predicting only', all((x[2][1] is TRUE) == (x[2][0].a[1].a[0] == 'train') for x in of('predict')))
    ap = of('apply')
    req('updates', 'parameters must be updated once per batch through every output node', len(ap) == nb * E * k and all(sum(1 for x in ap if x[2][0] is sym('out:%d' % j)) == nb * E for j in range(k)) and all(x[2][1] is OPT for x in ap))
    seq = [x[1] for x in ev if x[1] in ('shuffle', 'predict', 'step') and not (x[1] == 'predict' and x[2][0].a[1].a[0] == 'test')]
    eps = ''.join({'shuffle': 's', 'step': 't', 'predict': 'p'}[x] for x in seq)
    ok = True; parts = []
    cur = ''
    for ch in eps:
        if ch in 'st' and 'p' in cur: parts.append(cur); cur = ''
        cur += ch
    parts.append(cur)
    req('epoch order', 'every epoch must shuffle the records once and advance the optimizer once before its first record', len(parts) == E and all(q.count('s') == 1 and q.count('t') == 1 and q.endswith('p' * n) for q in parts))
    req('shuffler', 'the training data must use the shuffler', len(of('setShuffler')) == 1)
    # losses
    tl = [mean([mean([mean([loss('train', i, j, ver(e, i)) for j in range(k)]) for i in range(q * b, min(n, q * b + b))]) for q in range(nb)]) for e in range(E)]
    vl = [mean([mean([loss('test', i, j, (e + 1) * nb * k) for j in range(k)]) for i in range(tests)]) if tests else tl[e] for e in range(E)]
    dn = of('isDone')
    req('exit decisions', 'the exit strategy must be asked once after every epoch', len(dn) == E and all(x[0] is TRUE for x in dn))
    if len(dn) == E:
        for e, x in enumerate(dn):
            settle(R, '%s: exit epoch %d' % (tag, e), loc, 'the exit strategy must see the number of finished epochs', judge(x[2][0], num(e + 1)))
            settle(R, '%s: exit loss %d' % (tag, e), loc, 'the exit strategy must see the mean loss of the epoch' + (' on the test data' if tests else ''), judge(x[2][1], vl[e]))
            req('exit time %d' % e, 'the exit strategy must see the time since training began', x[2][2] is fn('elapsed', sym('timer1')))
    # best parameters
    sv, ld, rm = of('save'), of('load'), of('remove')
    if policy != 'best':
        req('no checkpoint', 'keeping the last parameters must not save or load checkpoints', not sv and not ld)
        return
    labels = {x[2][0] for x in sv + ld}
    req('one checkpoint', 'the checkpoint restored must be the one saved', len(labels) == 1 and len(sv) == E)
    low = INF
    if len(sv) == E:
        for e in range(E):
            settle(R, '%s: checkpoint guard %d' % (tag, e), loc, 'a checkpoint must be saved exactly when the loss is the lowest so far', judge(sv[e][0], lt(vl[e], low, False)))
            req('checkpoint overwrites %d' % e, 'the checkpoint must replace the previous one', sv[e][2][-1] is TRUE)
            after = [i for i, x in enumerate(ev) if x is sv[e]][0]
            nap = sum(1 for x in ev[:after] if x[1] == 'apply')
            req('checkpoint time %d' % e, 'a checkpoint must hold the parameters that produced its loss', nap == (e + 1) * nb * k)
            low = ite(lt(vl[e], low, False), vl[e], low)
    req('restored once', 'the best checkpoint must be restored once', len(ld) == 1)
    if len(ld) == 1:
        settle(R, tag + ': restore guard', loc, 'the best parameters must be restored whenever a checkpoint was saved', judge(ld[0][0], bor(*[x[0] for x in sv]), band(*[lt(v, INF, False) for v in vl])))
        never = band(*[bnot(lt(v, INF, False)) for v in vl])
        settle(R, tag + ': no restore', loc, 'nothing must be restored when no checkpoint was saved', judge(ld[0][0], FALSE, never))
        at = [i for i, x in enumerate(ev) if x is ld[0]][0]
        req('restored last', 'nothing may train after the best parameters were restored', not any(x[1] in ('apply', 'backward', 'save') for x in ev[at:]))
        later = [x for x in rm if x[2] and x[2][0] in labels]
        req('checkpoint kept until restored', 'the checkpoint must not be removed before it is restored', not any(x[0] is not FALSE and [i for i, y in enumerate(ev) if y is x][0] < at for x in later))
def testing(F, R, tf):
    if not tf: return
    for tests, k in ((1, 1), (3, 2)):
        L = Loop(F, 0, tests, k, 1)
        v = L.I.call(tf, L.net, [L.test_ds, TRUE], L.st)
        want = mean([mean([loss('test', i, j, 0) for j in range(k)]) for i in range(tests)])
        settle(R, 'test of %d records and %d outputs' % (tests, k), F.loc(tf), 'the test loss must be the mean over records of the mean over outputs', judge(v, want))
        bad = [x for x in L.events() if x[1] in ('backward', 'apply', 'save', 'load') or x[1] == 'predict' and x[2][1] is not FALSE]
        settle(R, 'test of %d records and %d outputs: no training' % (tests, k), F.loc(tf), 'testing must not train', judge(num(len(bad)), ZERO))
def refusals(F, R, f, pol):
    L = Loop(F, 2, 0, 1, 1, nan=TRUE)
    L.I.call(f, L.net, args(f, L, 1, pol['best']), L.st)
    settle(R, 'loss that is not a number', F.loc(f), 'training must stop with an error when the loss is not a number', judge(L.st.thr, TRUE))
    L = Loop(F, 2, 0, 1, 1)
    L.I.call(f, L.net, args(f, L, 3, pol['best']), L.st)
    settle(R, 'batch larger than the data', F.loc(f), 'a batch larger than the data must be refused', judge(L.st.thr, TRUE))
