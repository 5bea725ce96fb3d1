"""M03: optimizers apply their update rule with the right learning rate and per-parameter state."""
from tensors import *
from judge import judge, settle
LR, BLR, ID, ID2, STEP = sym('lr'), sym('blr'), sym('id'), sym('other'), sym('step')
W, G = sym('W'), sym('G')
w, g = V(W), V(G)
B1, B2 = fnum('0.9'), fnum('0.999')
EPS2 = fnum('2e-08')   # the optimizer's epsilon plus the guard of the element-wise inverse
LO, HI = fnum('1e-05'), fnum('0.1')
def counts(t, v):
    """presence tests of the state maps answered as `v`"""
    m = {x: num(v) for x in walk(t) if x.op == 'fn' and x.a[0] in ('s:count', 's:contains')}
    return subst(t, m) if m else t
def mx(a, b): return fn('max', a, b)
def mn(a, b): return fn('min', a, b)
def demon(m, v):
    q = lambda b: fn('pow', b, STEP)
    a = mul(m, mn(HI, mx(LO, div(ONE, sub(ONE, q(B1))))))
    bb = div(v, sub(ONE, q(B2)))
    return mn(HI, mx(LO, div(a, add(fn('sqrt', bb), EPS))))
FAMILY = {'sgd': 'sgd', 'adam': 'adam', 'adam_with_decaying_momentum': 'adam', 'sgdm': 'sgdm', 'sgdm_with_decaying_momentum': 'sgdm'}
def maps_of(F, cls):
    return [f['n'] for c in F.bases(cls) for f in F.rec.get(c, {}).get('fields', []) if 'map<' in f['t']]
def run(F, R):
    R.rule = ('For every OptimizerType the optimizer is built by createOptimizer over symbolic learning rates; the value graphs of calculateWeightsChange and '
              'calculateBiasChange, of the state stored under the registration id, under any other id, and of every other field must equal the update rule.')
    R.notes += ['float arithmetic is compared over the reals', 'moments are not bias-corrected by this library (documented in DESIGN.md)', 'materializeTensor is the identity here (decided by T04)']
    cf = [f for f in F.by_mn.get('createOptimizer', []) if f.get('body')]
    en = F.enums.get('happyml::OptimizerType')
    if not cf or not en: raise FX.AnalysisError('createOptimizer or OptimizerType not found')
    hooks = {'materializeTensor': lambda I, e, args, st, this: args[0]}
    inr = band(*[eq(x, y, 'i') for x, y in zip(like(W), like(G))], *[band(le(ZERO, x, True), lt(x, y, True)) for x, y in zip((r, c, h), like(W))])
    for v in en['vals']:
        vn, vv = v['n'], int(v['v'])
        fam = FAMILY.get(vn); dec = 'decaying' in vn
        if fam is None: R.undecided(vn, 'an optimizer type without a rule here'); continue
        ids = {}
        for kind, m, rate in (('weights', 'calculateWeightsChange', LR), ('bias', 'calculateBiasChange', BLR)):
            for decays in ((False, True) if dec else (False,)):
                inst = '%s.%s%s' % (vn, m, ' at a new time step' if decays else '')
                hk = dict(hooks)
                if decays:
                    hk['average'] = lambda I, e, args, st, this: fn('avg', I.freeze(args[0], st))
                    hk['calculateDemonAdjustedLearnRate'] = lambda I, e, args, st, this: fn('demon')
                I = Interp(F, hooks=hk); st = St()
                try:
                    o = I.call(cf[0], None, [num(vv), LR, BLR], st)
                    cls = st.heap[o.a[0]][0] if o.op == 'ref' else None
                    if cls is None: R.undecided(inst, 'factory result is not one object'); continue
                    R.analysed(cf[0]); f = F.method(cls, m, 3); R.analysed(f)
                    mp = maps_of(F, cls)
                    for x in mp: I.setf(o, x, sym('map:' + x), st)
                    if not decays:
                        if dec: pass   # first time step: no schedule change
                        I.setf(o, 'time_step', ONE if dec else STEP, st)
                    else: I.setf(o, 'time_step', STEP, st)
                    before = {k: I.freeze(x, st) for k, x in st.heap[o.a[0]][1].items()}
                    t = I.method(o, m, [ID, W, G], st)
                    val = I.freeze(I.method(t, 'getValue', [r, c, h], st), st)
                    after = dict(st.heap[o.a[0]][1])
                    el = {}
                    for x in mp:
                        if after[x] is not before[x]:
                            for who, i in (('own', ID), ('other', ID2)):
                                q = I.at(after[x], i)
                                if q.op == 'fn' and q.a[0] == 'at' and q.a[1] is before[x]: el[x, who] = V(q)
                                else: el[x, who] = I.freeze(I.method(q, 'getValue', [r, c, h], st) if q.op == 'ref' else readt(I, q, st), st)
                    froz = {k: I.freeze(x, st) for k, x in after.items()}
                except Budget: R.undecided(inst, 'evaluation budget'); continue
                R.funcs |= {F.fns[i]['n'] for i in I.inlined}
                new_step = band(lt(ONE, STEP, True)) if decays else TRUE
                lr = fn('demon') if decays and fam == 'adam' else rate
                changed = [x for x in mp if after[x] is not before[x]]
                for fresh in (True, False):
                    tag = ' (first call)' if fresh else ''
                    old = lambda x: ZERO if fresh else V(fn('at', before[x], ID))
                    cz = lambda q: counts(q, 0 if fresh else 1)
                    asm = band(inr, new_step)
                    if fam == 'sgd':
                        settle(R, inst + tag, F.loc(f), 'update differs from the rule', judge(cz(val), sub(w, mul(rate, g)), asm, ('r', 'c', 'h')))
                    elif fam == 'sgdm':
                        if len(changed) != 1:
                            (R.viol if len(changed) == 0 and not I.unk else R.undecided)(*((inst + tag, F.loc(f), 'momentum is not kept', 'no state map changes') if len(changed) == 0 and not I.unk else (inst + tag, 'state maps changed: %s' % changed)))
                            continue
                        nm = add(mul(B1, old(changed[0])), mul(lr, g))
                        settle(R, inst + tag, F.loc(f), 'update differs from the rule', judge(cz(val), sub(w, nm), asm, ('r', 'c', 'h')))
                        settle(R, inst + ' stored momentum' + tag, F.loc(f), 'stored state differs from the rule', judge(cz(el[changed[0], 'own']), nm, asm, ('r', 'c', 'h')))
                    else:
                        if len(changed) != 2: R.undecided(inst + tag, 'state maps changed: %s' % changed); continue
                        best = None
                        for a, b in (changed, changed[::-1]):
                            m1 = add(mul(B1, old(a)), mul(sub(ONE, B1), g)); v1 = add(mul(B2, old(b)), mul(sub(ONE, B2), g, g))
                            upd = sub(w, div(mul(lr, m1), add(fn('sqrt', v1), EPS2)))
                            vs = [('', judge(cz(val), upd, asm, ('r', 'c', 'h'))), (' first moment', judge(cz(el[a, 'own']), m1, asm, ('r', 'c', 'h'))),
                                  (' second moment', judge(cz(el[b, 'own']), v1, asm, ('r', 'c', 'h')))]
                            score = sum(x[1].ok for x in vs)
                            if best is None or score > best[0]: best = (score, vs)
                        for nm, vd in best[1]: settle(R, inst + nm + tag, F.loc(f), 'update differs from the rule', vd)
                    for x in changed:
                        settle(R, '%s other ids in %s%s' % (inst, x, tag), F.loc(f), 'state of another parameter changes',
                               judge(cz(el[x, 'other']), V(fn('at', before[x], ID2)), band(inr, bnot(eq(ID, ID2, 'i'))), ('r', 'c', 'h')))
                ratef = 'learningRate' if kind == 'weights' else 'biasLearningRate'
                for k, x in froz.items():
                    if k in mp: continue
                    want = before[k]
                    if decays and k == ratef: want = fn('demon')
                    elif decays and x is not before[k] and k != ('biasLearningRate' if kind == 'weights' else 'learningRate') and k != 'time_step':
                        want = STEP
                    settle(R, '%s leaves %s' % (inst, k), F.loc(f), 'field changes against the rule', judge(x, want, band(new_step), ()))
                ids[kind, decays] = set(changed)
            # registration ids
        if (('weights', False) in ids) and (('bias', False) in ids):
            both = ids['weights', False] & ids['bias', False]
            I = Interp(F, hooks=hooks); st = St()
            o = I.call(cf[0], None, [num(vv), LR, BLR], st)
            cls = st.heap[o.a[0]][0]
            I.setf(o, 'next_id', sym('next'), st) if 'next_id' in st.heap[o.a[0]][1] else None
            got = [(k, I.method(o, k, [], st)) for k in ('registerForWeightChanges', 'registerForBiasChanges', 'registerForWeightChanges', 'registerForBiasChanges')]
            if ids['weights', False] or ids['bias', False]:
                for i in range(4):
                    for j in range(i + 1, 4):
                        if got[i][0] != got[j][0] and not both: continue
                        f = F.method(cls, got[j][0], 0)
                        R.analysed(f)
                        settle(R, '%s registration %d/%d' % (vn, i, j), F.loc(f), 'two registered parameters share their state',
                               judge(I.freeze(eq(got[i][1], got[j][1], 'i'), st), FALSE))
        # the two schedules do not disturb each other, and each is taken once per time step
        if dec and fam != 'sgd':
            hk = dict(hooks, calculateDemonAdjustedLearnRate=lambda I, e, args, st, this: fn('demon'))
            W_, B_ = ('calculateWeightsChange', 'learningRate'), ('calculateBiasChange', 'biasLearningRate')
            for (m1, r1), (m2, r2) in ((W_, B_), (B_, W_)):
                inst = '%s.%s after %s' % (vn, m2, m1)
                I = Interp(F, hooks=hk); st = St()
                o = I.call(cf[0], None, [num(vv), LR, BLR], st); cls = st.heap[o.a[0]][0]
                for x in maps_of(F, cls): I.setf(o, x, sym('map:' + x), st)
                I.setf(o, 'time_step', STEP, st)
                f = F.method(cls, m2, 3); asm = lt(ONE, STEP, True)
                I.method(o, m1, [ID, W, G], st); I.method(o, m2, [ID2, W, G], st)
                settle(R, inst + ': new time step', F.loc(f), 'the schedule of one kind of parameter must not be used up by the other', judge(I.freeze(I.getf(o, r2, st), st), fn('demon'), asm))
                I.setf(o, r1, sym('kept1'), st); I.setf(o, r2, sym('kept2'), st)
                I.method(o, m2, [ID, W, G], st); I.method(o, m1, [ID2, W, G], st)
                for q, k in ((r1, 'kept1'), (r2, 'kept2')):
                    settle(R, '%s: %s same time step' % (inst, q), F.loc(f), 'the schedule must be taken once per time step', judge(I.freeze(I.getf(o, q, st), st), sym(k), asm))
                I.method(o, 'update_time_step', [], st)
                I.method(o, m2, [ID, W, G], st); I.method(o, m1, [ID2, W, G], st)
                for q in (r1, r2):
                    settle(R, '%s: %s next time step' % (inst, q), F.loc(f), 'the schedule must be taken at every time step', judge(I.freeze(I.getf(o, q, st), st), fn('demon'), asm))
        # the schedule itself
        if dec and fam != 'sgd':
            for kind, m, ratef in (('weights', 'calculateWeightsChange', 'learningRate'), ('bias', 'calculateBiasChange', 'biasLearningRate')):
                inst = '%s.%s schedule' % (vn, m)
                I = Interp(F, hooks=dict(hooks, average=lambda I, e, args, st, this: fn('avg', I.freeze(args[0], st)))); st = St()
                o = I.call(cf[0], None, [num(vv), LR, BLR], st)
                cls = st.heap[o.a[0]][0]
                mp = maps_of(F, cls)
                for x in mp: I.setf(o, x, sym('map:' + x), st)
                I.setf(o, 'time_step', STEP, st)
                I.method(o, m, [ID, W, G], st)
                got = I.freeze(I.getf(o, ratef, st), st)
                av = sorted({x for x in walk(got) if x.op == 'fn' and x.a[0] == 'avg'}, key=show)
                nm = {x: sym('avg:' + sorted(y.a[0] for y in walk(x) if y.op == 'sym' and y.a[0].startswith('map:'))[-1] if len({y for y in walk(x) if y.op == 'sym' and y.a[0].startswith('map:')}) >= 1 else 'avg') for x in av}
                got = subst(got, nm); syms = sorted(set(nm.values()), key=show)
                f = F.method(cls, m, 3)
                if fam == 'sgdm' and len(syms) == 1: wants = [demon(syms[0], mul(syms[0], syms[0]))]
                elif fam == 'adam' and len(syms) == 2: wants = [demon(syms[0], syms[1]), demon(syms[1], syms[0])]
                else: R.undecided(inst, 'averages used: %s' % [show(x) for x in syms]); continue
                vs = [judge(got, q, lt(ONE, STEP, True)) for q in wants]
                settle(R, inst, F.loc(f), 'learning-rate schedule differs from its definition', next((x for x in vs if x.ok), vs[0]))
    R.floor('optimizer types', len(FAMILY), 3)
def readt(I, q, st):
    if q.op == 'ite': return gite(q.a[0], readt(I, q.a[1], st), readt(I, q.a[2], st))
    if q.op == 'ref': return I.method(q, 'getValue', [r, c, h], st)
    return V(q)
import facts as FX
