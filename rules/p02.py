"""P02: option names convert to distinct strings and back; every option value selects the component of that name."""
from builder import *
OPT = {'sgd': ('MBGDOptimizer', None), 'adam': ('AdamOptimizer', FALSE), 'sgdm': ('SGDMOptimizer', FALSE), 'adam_with_decaying_momentum': ('AdamOptimizer', TRUE), 'sgdm_with_decaying_momentum': ('SGDMOptimizer', TRUE)}
LOSS = {'mse': 'MeanSquaredErrorLossFunction', 'mae': 'MeanAbsoluteErrorLossFunction', 'smae': 'SmoothMeanAbsoluteErrorLossFunction', 'categoricalCrossEntropy': 'CategoricalCrossEntropyLossFunction', 'binaryCrossEntropy': 'BinaryCrossEntropyLossFunction'}
ACT = {'relu': 'ReLUActivationFunction', 'tanhDefault': 'TanhActivationFunction', 'sigmoid': 'SigmoidActivationFunction', 'leaky': 'LeakyReLUActivationFunction', 'softmax': 'SoftmaxActivationFunction',
       'sigmoidApprox': 'SigmoidApproximationActivationFunction', 'tanhApprox': 'TanhApproximationActivationFunction', 'linear': 'LinearActivationFunction'}
LAYER = {'full': 'FullyConnectedLayer', 'convolution2dValid': 'Convolution2dValidFunction', 'concatenate': 'ConcatenateWideLayer', 'flatten': 'FlattenLayer', 'normalize': 'NormalizationLayer', 'dropout': 'DropoutLayer'}
def run(F, R):
    R.rule = ('Every enumerator of every option type with a naming function is converted to its name and back by interpreting both functions: names are constant and pairwise distinct, the value read '
              'back is the same, and for an arbitrary string the parser refuses exactly the strings that are no name. For every enumerator a network is built through the building interface '
              'and the class (and settings) of the selected component is compared with the option.')
    n = 0
    for en in sorted(F.enums):
        to = [f for fs in F.by_mn.values() for f in fs if f.get('body') and len(f['params']) == 1 and f['params'][0]['t'].replace('const ', '').replace(' &', '') == en and 'basic_string' in (f.get('rt') or '') and not f.get('cls')]
        back = [f for fs in F.by_mn.values() for f in fs if f.get('body') and len(f['params']) == 1 and 'basic_string' in f['params'][0]['t'] and (f.get('rt') or '') == en and not f.get('cls')]
        if not to or not back: continue
        n += 1
        for f in to:
            names = {}
            R.analysed(f)
            for v in F.enums[en]['vals']:
                I = Interp(F); st = St()
                nm = I.call(f, None, [num(int(v['v']))], st)
                if nm.op != 'str':
                    if st.thr is TRUE: R.viol('%s(%s)' % (f['mn'], v['n']), F.loc(f), 'an option value has no name', 'the conversion throws')
                    else: R.undecided('%s(%s)' % (f['mn'], v['n']), 'name is not a constant: ' + show(nm)[:80])
                    continue
                if nm in names: R.viol('%s(%s)' % (f['mn'], v['n']), F.loc(f), 'two option values share a name', '%s and %s are both called "%s"' % (names[nm], v['n'], nm.a[0])); continue
                names[nm] = v['n']; R.ok('%s(%s) = %s' % (f['mn'], v['n'], nm.a[0]))
                for g in back:
                    R.analysed(g)
                    I = Interp(F); st = St(); x = I.call(g, None, [nm], st)
                    inst = '%s("%s")' % (g['mn'], nm.a[0])
                    if st.thr is TRUE: R.viol(inst, F.loc(g), 'reading a name back must give the value', 'the name is refused')
                    else: settle(R, inst, F.loc(g), 'reading a name back must give the value %s' % v['n'], judge(x, num(int(v['v']))))
            for g in back:
                s_ = sym('anyname'); I = Interp(F); st = St(); I.call(g, None, [s_], st)
                want = band(*[bnot(eq(s_, nm, 't')) for nm in names])
                settle(R, '%s: refused strings' % g['mn'], F.loc(g), 'exactly the strings that are no name are refused', judge(st.thr, want))
    R.floor('option types with names', n, 3)
    # components
    oe, le, ae, te = enum(F, 'OptimizerType'), enum(F, 'LossType'), enum(F, 'ActivationType'), enum(F, 'LayerType')
    def simple(opt='adam', loss=None, act='relu', conv=False, **kw):
        b = Build(F); b.start(oe[opt])
        b.set(b.dsl, 'setLearningRate', sym('lr')); b.set(b.dsl, 'setBiasLearningRate', sym('blr'))
        if loss: b.set(b.dsl, 'setLossFunction', le[loss])
        if conv: b.do(b.dsl, 'addInputOutputLayer', 'vnnee', [9, 8, 2], 4, 3, te['convolution2dValid'], ae[act])
        else: b.do(b.dsl, 'addInputOutputLayer', 'vvee', [1, 5, 1], [1, 3, 1], te['full'], ae[act])
        b.build(); return b, Graph(b.I, b.st, b.net)
    def comp(inst, loc, got, want):
        settle(R, inst, loc, 'the option selects another component', judge(string(got), string(want)))
    loc = F.loc(F.by_mn['createOptimizer'][0]) if F.by_mn.get('createOptimizer') else '/repo/src/ml/happyml_dsl.hpp'
    for o in oe:
        if o not in OPT: R.undecided('optimizer ' + o, 'no component known for this option'); continue
        b, g = simple(opt=o); t = g.training()
        comp('optimizer ' + o, loc, str(t['optimizer'].a[0]).split('::')[-1], OPT[o][0])
        settle(R, 'optimizer %s: stored option' % o, loc, 'the network remembers another option', judge(t['optimizerType'], oe[o]))
        for k, w in (('learningRate', sym('lr')), ('biasLearningRate', sym('blr'))):
            got = [v for kk, v in t.items() if kk.startswith('optimizer.') and kk.split('.')[-1].strip('_').replace('_', '').lower() in (k.lower(), 'initial' + k.lower())]
            for v in got[:1]: settle(R, 'optimizer %s: %s' % (o, k), loc, 'the optimizer gets another rate', judge(v, w))
        if OPT[o][1] is not None:
            flags = [v for kk, v in t.items() if kk.startswith('optimizer.') and v.op == 'bool']
            if len(flags) == 1: settle(R, 'optimizer %s: decay' % o, loc, 'decaying momentum is selected by the option of that name only', judge(flags[0], OPT[o][1]))
            else: R.undecided('optimizer %s: decay' % o, 'flag not identified')
    lc = F.ctors(TRAIN)[0]
    for l in le:
        if l not in LOSS: R.undecided('loss ' + l, 'no component known for this option'); continue
        b, g = simple(loss=l); t = g.training()
        comp('loss ' + l, F.loc(lc), str(t['lossFunction'].a[0]).split('::')[-1], LOSS[l])
    af = F.by_mn['createActivationFunction'][0]['path'] if 0 else F.method(VERTEX, 'buildLayer')
    for a in ae:
        if a not in ACT: R.undecided('activation ' + a, 'no component known for this option'); continue
        for conv in (False, True):
            b, g = simple(act=a, conv=conv)
            i = [i for i, k in enumerate(g.kind) if k == 'ActivationLayer']
            settle(R, 'activation %s: one activation after the %s layer' % (a, 'convolution' if conv else 'full'), F.loc(af), 'exactly one activation layer', judge(num(len(i)), ONE))
            if i:
                s = g.settings(i[0]); v = [x for k, x in s.items() if k.startswith('layer.') and x.op == 'str' and x.a[0].startswith('happyml::')]
                comp('activation %s (%s)' % (a, 'convolution' if conv else 'full'), F.loc(af), v[0].a[0].split('::')[-1] if v else '?', ACT[a])
    for t in te:
        if t not in LAYER: R.undecided('layer ' + t, 'no component known for this option'); continue
        b = Build(F); b.start(oe['adam'])
        if t == 'concatenate': v = b.do(b.dsl, 'add_concatenated_input_layer', 's', T('list', (lst(2, 3, 1), lst(1, 4, 1)))); 
        elif t == 'convolution2dValid': v = b.do(b.dsl, 'addInputLayer', 'vnnee', [9, 8, 2], 4, 3, te[t], ae['relu'])
        else: v = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 6, 1], [1, 6, 1], te[t], ae['relu'])
        b.do(v, 'addOutput', 'ne', 3, ae['linear'])
        b.build(); g = Graph(b.I, b.st, b.net)
        want = LAYER[t]
        first = g.kind[g.heads[0]] if g.heads and t != 'concatenate' else next((k for k in g.kind if k not in ('FlattenLayer',)), '?')
        comp('layer ' + t, F.loc(af), first, want)
        R.funcs |= {F.fns[i]['n'] for i in b.I.inlined}
