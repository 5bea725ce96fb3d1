"""M01: predicting changes nothing that training, saving or a later prediction can observe."""
from layers import *
from graphs import Net, SHAPES, NET, NODE, TRAIN, fwd, lname
import facts as FX
XP, XQ = sym('Xp'), sym('Xq')
SCRIPT = (('f', X), ('b', E), ('a', None), ('f', X2), ('b', E2), ('a', None), ('k', None))
# a layer sees inputs of one shape, and errors of one shape
PR = lambda q: [q, sym(q.a[0] + "'")]
ASM = band(*[same(a, b) for p in (X, X2, XP, XQ) for a, b in zip(PR(p), PR(X))], same(E, E2), *[lt(ZERO, q, True) for q in like(X) + like(E)])
def layer_args(F, cls):
    """arguments for a constructor: by the meaning of each parameter"""
    n = cls.split('::')[-1]; k = F.ctors(cls)
    if n.startswith('Convolution'): return conv_args(F, cls, 2, 2, TRUE)
    out = []
    for p in (k[0]['params'] if k else []):
        nm, t = p['n'], p['t']
        if 'ActivationFunction' in t: out.append(sym('act'))
        elif 'string' in t: out.append(sym('label'))
        elif 'vector<vector' in t or 'vector<std::vector' in t: out.append(T('list', (T('list', (HH, WW, num(2))), T('list', (HH, WW, num(2))))))
        elif 'vector' in t: out.append(T('list', (HH, WW, num(2))))
        elif 'bool' in t: out.append(TRUE)
        elif 'float' in t or 'double' in t: out.append(RATE if 'rate' in nm.lower() else REG)
        elif 'bits' in nm: out.append(BITS)
        elif t == 'int' or 'registration' in nm: out.append(ID)
        else: out.append(sym(nm))
    return out
def make(F, cls):
    y = Layer(F, cls, layer_args(F, cls))
    k = 0
    for f in F.rec[cls]['fields']:   # parameters: symbolic tensors
        t = f['t'].replace('std::', '')
        if 'BaseTensor' not in t or 'queue' in t: continue
        v = y.fields().get(f['n'])
        if v is None: continue
        if t.startswith('vector'):
            if v.op == 'list': y.I.setf(y.o, f['n'], T('list', tuple(sym('P%d_%d' % (k, i)) for i in range(len(v.a)))), y.st)
        elif v.op not in ('null', 'undef'): y.I.setf(y.o, f['n'], sym('P%d' % k), y.st)
        k += 1
    return y
def inputs(F, cls, q): return [q, sym(q.a[0] + "'")] if 'oncatenate' in cls else [q]
def value(y, t):
    """observable value of a result: element and shape"""
    if t.op == 'list': return [v for q in t.a for v in value(y, q)]
    try: return [y.val(t)] + y.dims(t)
    except AttributeError: return [y.I.freeze(t, y.st)]
def observe(F, cls, preds):
    """runs the training script with predictions after the steps in `preds`; returns what can be observed"""
    y = make(F, cls); out = []; pv = []
    def predict(q):
        n0 = len(y.rnd); t = y.forward(inputs(F, cls, q), False); pv.append((value(y, t), len(y.rnd) - n0))
    for i, (op, q) in enumerate(SCRIPT):
        if i in preds: predict(XP if i % 2 else XQ)
        if op == 'f': out.append(('training output', value(y, y.forward(inputs(F, cls, q), True))))
        elif op == 'b': out.append(('input error', value(y, y.backward(q))))
        elif op == 'a':
            n0 = len(y.calls); y.apply()
            for kd, i_, w_, g_ in y.calls[n0:]: out.append(('%s change' % kd, [i_, w_] + value(y, g_)))
        else: out.append(('final prediction', value(y, y.forward(inputs(F, cls, XP), False))))
    for f, v in sorted(y.fields().items()):
        if v.op in ('num', 'bool', 'sym', 'str') or (v.op == 'list' and all(x.op in ('sym', 'num') for x in v.a)): out.append(('field ' + f, [y.I.freeze(v, y.st)]))
    return y, out, pv
def fieldname(F, cls): return [f['n'] for f in F.rec[cls]['fields']]
def run(F, R):
    R.rule = ('Every layer is interpreted through two rounds of training steps with and without predictions between every two steps: errors, gradients handed to the optimizer, stored '
              'parameters and later outputs must be the same value graphs; predictions draw no random numbers. Networks of every graph shape keep their whole heap through a prediction, and '
              'every prediction entry point runs the layers in prediction mode.')
    R.notes += ['every layer is given inputs of one shape (the shape it was built for)', 'activations are compared as opaque functions of the input here (their own state is checked by the field rule below)', 'materializeTensor is the identity (decided by T04)']
    cs = sorted(F.concrete('happyml::BaseLayer'))
    for cls in cs:
        n = cls.split('::')[-1]; f = F.method(cls, 'forward')
        R.analysed(f, F.method(cls, 'backward'), F.method(cls, 'apply'))
        try: y0, base, _ = observe(F, cls, ())
        except Budget: R.undecided(n, 'evaluation budget'); continue
        alone = None
        for preds in [(i,) for i in range(len(SCRIPT))] + [tuple(range(len(SCRIPT)))]:
            tag = 'prediction before step %d' % preds[0] if len(preds) == 1 else 'predictions between all steps'
            try: y, out, pv = observe(F, cls, preds)
            except Budget: R.undecided('%s, %s' % (n, tag), 'evaluation budget'); continue
            R.funcs |= {F.fns[i]['n'] for i in y.I.inlined}
            settle(R, '%s, %s: steps' % (n, tag), F.loc(f), 'the number of observable training effects changes', judge(num(len([o for o in out if o[0][:5] != 'field'])), num(len([o for o in base if o[0][:5] != 'field']))))
            sb = {}
            for who, vs in base: sb.setdefault(who, []).append(vs)
            so = {}
            for who, vs in out: so.setdefault(who, []).append(vs)
            for who in so:
                if who.startswith('field') and who not in sb: continue
                for i, (a, b) in enumerate(zip(so[who], sb.get(who, []))):
                    if len(a) != len(b): settle(R, '%s, %s: %s %d' % (n, tag, who, i), F.loc(f), 'a prediction changes this', judge(num(len(a)), num(len(b)))); continue
                    for j, (p, q) in enumerate(zip(a, b)):
                        if who.startswith('field') and not used_by_training(F, cls, who[6:]): continue
                        settle(R, '%s, %s: %s %d.%d' % (n, tag, who, i, j), F.loc(f), 'a prediction changes this', judge(p, q, ASM, ('r', 'c', 'h')))
            for v, rnd in pv: settle(R, '%s, %s: random numbers' % (n, tag), F.loc(f), 'a prediction must not draw random numbers', judge(num(rnd), ZERO))
        # a prediction depends on the model and its own input only
        for before in ('nothing', 'a prediction', 'a training pass'):
            y = make(F, cls)
            if before == 'a prediction': y.forward(inputs(F, cls, XQ), False)
            if before == 'a training pass': y.forward(inputs(F, cls, X), True)
            v = value(y, y.forward(inputs(F, cls, XP), False))
            if before == 'nothing': alone = v
            else:
                for j, (p, q) in enumerate(zip(v, alone)): settle(R, '%s: prediction after %s %d' % (n, before, j), F.loc(f), 'a prediction depends on earlier calls', judge(p, q, ASM, ('r', 'c', 'h')))
    R.floor('layer classes', len(cs), 5)
    # activation functions hold no state that a call could change
    acts = sorted(F.concrete('happyml::ActivationFunction'))
    for cls in acts:
        for m in ('activate', 'derivative'):
            f = F.method(cls, m)
            if not f: continue
            R.analysed(f)
            I = Interp(F, hooks={'materializeTensor': lambda I, e, a, st, this: a[0]}); st = St()
            o = I.construct(cls, [], st) if not (F.ctors(cls) and F.ctors(cls)[0]['params']) else I.new_obj(cls, st)
            before = dict(st.heap[o.a[0]][1])
            try: I.method(o, m, [X], st)
            except Budget: R.undecided('%s.%s' % (cls, m), 'evaluation budget'); continue
            same_ = st.heap[o.a[0]][1] == before
            g = [x for x in st.eff if x[1].startswith('global')]
            settle(R, '%s.%s' % (cls.split('::')[-1], m), F.loc(f), 'activating changes the activation object', judge(boolean(same_ and not g), TRUE))
    # whole networks
    pf = [f for f in F.by_mn.get('predict', []) if f.get('body') and f['cls'] in (NET, TRAIN)]
    if not pf: raise FX.AnalysisError('predict not found')
    for name in SHAPES:
        g = Net(F, name)
        ins = T('list', tuple(fn('t!input', lname(x)) for x in g.heads))
        for rnd in (1, 2):
            before = g.heap(); g.log.clear()
            g.call(g.net, 'predict', ins, FALSE)
            after = g.heap()
            diff = sorted({'%s.%s' % (c.split('::')[-1], k) for o, (c, d) in before.items() for k, v in d.items() if after[o][1].get(k) is not v})
            settle(R, '%s: heap after prediction %d' % (name, rnd), F.loc(pf[0]), 'a prediction changes %s' % ', '.join(diff), judge(num(len(diff)), ZERO))
            g.call(g.net, 'predict', ins, TRUE)
            for x in g.outs: g.call(x, 'backward', fn('t!loss', lname(x)))
    # entry points
    ent = [f for m in ('predict', 'predictOne', 'predictScalar') for f in F.by_mn.get(m, []) if f.get('body') and f['cls'] in (NET, TRAIN)]
    for f in ent:
        if any('bool' in p['t'] for p in f['params']): continue
        vec = 'vector' in f['params'][0]['t']
        g = Net(F, 'chain')
        i0 = fn('t!input', lname('A'))
        t = g.I.inline(f, g.net, [T('list', (i0,)) if vec else i0], g.st, None, ['v'])
        R.analysed(f)
        took = g.took('forward')
        inst = '%s(%s)' % (f['mn'], 'inputs' if vec else 'input')
        settle(R, inst + ' mode', F.loc(f), 'layers must run in prediction mode', judge(num(len([1 for x, a, _ in took if a[1] is not FALSE])), ZERO))
        settle(R, inst + ' runs the network', F.loc(f), 'every layer must run once', judge(num(len(took)), num(3)))
        if took: settle(R, inst + ' input', F.loc(f), 'the given tensor must be the input', judge(boolean(took[0][1][0] is T('list', (i0,))), TRUE))
        want = fwd('C')
        if isinstance(t, tuple): t = t[0]
        if t.op == 'list': t = t.a[0]
        if f['mn'] == 'predictScalar': want = V(want, ZERO, ZERO, ZERO); t = t if t.op == 'fn' and t.a[0] == 'val' else t
        settle(R, inst + ' result', F.loc(f), 'the result must be the output of the network', judge(t, want, band(lt(ZERO, N_(fwd('C')), True), *[lt(ZERO, q, True) for q in like(fwd('C'))])))
    R.floor('prediction entry points', len(ent), 2)
def used_by_training(F, cls, fld):
    """a field read by anything but forward"""
    def reads(e):
        if isinstance(e, dict):
            if e.get('k') == 'mem' and e.get('n') == fld: return True
            return any(reads(x) for x in e.values())
        if isinstance(e, list): return any(reads(x) for x in e)
        return False
    return any(reads(f.get('body')) for f in F.fns.values() if f.get('cls') == cls and f['mn'] != 'forward')
