"""P01: a network rebuilt from the description it wrote is the network that wrote it."""
from builder import *
FIXED_DIGITS = 15
def setters(F):
    """setting methods of a layer description: name -> parameter type"""
    out = {}
    for f in F.fns.values():
        if f.get('cls') == VERTEX and f['mn'].startswith('set') and len(f['params']) == 1: out[f['mn']] = f['params'][0]['t'].replace('const ', '').replace(' &', '')
    return out
class Config(object):
    """the description as records, and a reader handing those records out"""
    def __init__(s, records): s.rec = records; s.k = 0; s.path = None; s.delim = None; s.labels = []
    def hooks(s):
        def unwrap(I, e, a, st, this):
            v = a[0]
            if v.op == 'fn' and v.a[0] == 'text': return v.a[1]
            if v.op == 'str':
                try: return fnum(v.a[0]) if '.' in v.a[0] else num(int(v.a[0]))
                except ValueError: st.thr = TRUE; return UNDEF
            return fn('parsed', v)
        def pos(I, a, st):
            v = st.heap[a[0].a[0]][1].get('#pos')
            return 0 if v is None else v.a[0]
        def nxt(I, e, a, st, this):
            if a[0].op != 'ref': return NotImplemented
            k = pos(I, a, st)
            if k >= len(s.rec): st.thr = TRUE; return UNDEF
            I.setf(a[0], '#pos', num(k + 1), st); s.k = k + 1
            return s.rec[int(k)]
        def has(I, e, a, st, this): return boolean(pos(I, a, st) < len(s.rec)) if a[0].op == 'ref' else NotImplemented
        def know(I, e, a, st, this): s.labels.append(a[1:]); return NONE
        return {'stof': unwrap, 'stod': unwrap, 'stoul': unwrap, 'stoull': unwrap, 'stoi': unwrap, 'stol': unwrap, 'nextRecord': nxt, 'hasNext': has, 'loadKnowledge': know}
# ---- networks
def dense(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['tanhDefault'])
    y = b.do(x, 'addLayer', 'nee', 6, e['L']['full'], e['A']['leaky'])
    z = b.do(y, 'addOutput', 'ne', 3, e['A']['softmax'])
    return [x, y, z]
def dense_image(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [4, 5, 2], [2, 7, 3], e['L']['full'], e['A']['relu'])
    z = b.do(x, 'addOutputLayer', 've', [2, 3, 2], e['A']['sigmoid'])
    return [x, z]
def conv(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vnnee', [12, 13, 2], 4, 3, e['L']['convolution2dValid'], e['A']['relu'])
    y = b.do(x, 'addLayer', 'nnee', 5, 2, e['L']['convolution2dValid'], e['A']['tanhApprox'])
    z = b.do(y, 'addLayer', 'vee', [1, 11, 1], e['L']['full'], e['A']['relu'])
    o = b.do(z, 'addOutput', 'ne', 3, e['A']['sigmoidApprox'])
    return [x, y, z, o]
def conv_out(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vnnee', [12, 13, 2], 4, 3, e['L']['convolution2dValid'], e['A']['relu'])
    y = b.do(x, 'addOutput', 'vnee', [9, 10, 5], 2, e['L']['convolution2dValid'], e['A']['linear'])
    return [x, y]
def single(b, e): return [b.do(b.dsl, 'addInputOutputLayer', 'vvee', [3, 5, 2], [1, 4, 1], e['L']['full'], e['A']['sigmoid'])]
def single_conv(b, e): return [b.do(b.dsl, 'addInputOutputLayer', 'vnnee', [8, 9, 2], 3, 4, e['L']['convolution2dValid'], e['A']['relu'])]
def shaping(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [2, 3, 2], [1, 12, 1], e['L']['flatten'], e['A']['linear'])
    n = b.do(x, 'addNormalizationLayer', '')
    d = b.do(n, 'addDropoutLayer', 'n', sym('rate'))
    f = b.do(d, 'addLayer', 'nee', 7, e['L']['full'], e['A']['relu'])
    d2 = b.do(f, 'addDropoutLayer', 'n', sym('rate2'))
    z = b.do(d2, 'addOutput', 'ne', 3, e['A']['linear'])
    return [x, n, d, f, d2, z]
def two_outputs(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['relu'])
    y = b.do(x, 'addLayer', 'nee', 6, e['L']['full'], e['A']['relu'])
    o1 = b.do(x, 'addOutput', 'ne', 3, e['A']['softmax'])
    o2 = b.do(y, 'addOutput', 'ne', 2, e['A']['sigmoid'])
    return [x, y, o1, o2]
def two_inputs(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['relu'])
    y = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 4, 1], [1, 6, 1], e['L']['full'], e['A']['leaky'])
    c = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(x, y))
    z = b.do(c, 'addOutput', 'ne', 3, e['A']['linear'])
    return [x, y, c, z]
def concat_inputs(b, e):
    c = b.do(b.dsl, 'add_concatenated_input_layer', 's', lst(lst(2, 3, 1), lst(1, 4, 2), lst(1, 5, 1)))
    z = b.do(c, 'addOutput', 'ne', 3, e['A']['linear'])
    return [c, z]
def branches(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['relu'])
    p = b.do(x, 'addLayer', 'nee', 6, e['L']['full'], e['A']['relu'])
    q = b.do(x, 'addLayer', 'nee', 4, e['L']['full'], e['A']['leaky'])
    p2 = b.do(p, 'addLayer', 'nee', 8, e['L']['full'], e['A']['sigmoid'])
    c = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(p2, q))
    z = b.do(c, 'addOutput', 'ne', 3, e['A']['linear'])
    return [x, p, q, p2, c, z]
def skip(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['relu'])
    p = b.do(x, 'addLayer', 'nee', 6, e['L']['full'], e['A']['relu'])
    c = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(p, x))
    z = b.do(c, 'addOutput', 'ne', 3, e['A']['linear'])
    return [x, p, c, z]
def reversed_concat(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['relu'])
    y = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 4, 1], [1, 6, 1], e['L']['full'], e['A']['leaky'])
    c = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(y, x))
    z = b.do(c, 'addOutput', 'ne', 3, e['A']['linear'])
    return [x, y, c, z]
def late_concat(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['relu'])
    y = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 4, 1], [1, 6, 1], e['L']['full'], e['A']['leaky'])
    c = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(x, y))
    o1 = b.do(c, 'addOutput', 'ne', 3, e['A']['linear'])
    o2 = b.do(x, 'addOutput', 'ne', 2, e['A']['sigmoid'])
    return [x, y, c, o1, o2]
def crossing(b, e):
    x = b.do(b.dsl, 'addInputLayer', 'vvee', [1, 5, 1], [1, 7, 1], e['L']['full'], e['A']['relu'])
    p = b.do(x, 'addLayer', 'nee', 6, e['L']['full'], e['A']['relu'])
    q = b.do(x, 'addLayer', 'nee', 4, e['L']['full'], e['A']['leaky'])
    c1 = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(p, q))
    c2 = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(p, q))
    z1 = b.do(c1, 'addLayer', 'nee', 8, e['L']['full'], e['A']['relu'])
    z2 = b.do(c2, 'addLayer', 'nee', 9, e['L']['full'], e['A']['relu'])
    c3 = b.do(b.dsl, 'add_concatenated_layer', 'p', lst(z1, z2))
    o = b.do(c3, 'addOutput', 'ne', 3, e['A']['linear'])
    return [x, p, q, c1, c2, z1, z2, c3, o]
NETS = {'dense chain': dense, 'dense layers of images': dense_image, 'convolution chain': conv, 'convolution output': conv_out, 'one dense layer': single, 'one convolution layer': single_conv,
        'flatten, normalize, dropout': shaping, 'two outputs': two_outputs, 'two inputs': two_inputs, 'concatenated inputs': concat_inputs, 'branches': branches, 'skip connection': skip,
        'concatenation listed in another order': reversed_concat, 'output beside a concatenation': late_concat, 'crossing branches': crossing}
def values(t, mn):
    if t == 'bool': return [True, False]
    if t in ('float', 'double'): return [sym('v:' + mn).a and sym('p_' + mn)]
    if 'char' in t or 'uint8' in t: return [8, 16, 32]
    return []
def roundtrip(F, R, name, make, tweak=None, opt='adam', loss=None, rates=True):
    """builds, writes, reads and compares; returns number of settings compared"""
    e = {'L': enum(F, 'LayerType'), 'A': enum(F, 'ActivationType')}
    b = Build(F); b.start(enum(F, 'OptimizerType')[opt])
    if rates: b.set(b.dsl, 'setLearningRate', sym('lr')); b.set(b.dsl, 'setBiasLearningRate', sym('blr'))
    if loss: b.set(b.dsl, 'setLossFunction', enum(F, 'LossType')[loss])
    vs = make(b, e)
    if tweak:
        thr = b.st.thr
        tweak(b, vs)
    if b.st.thr is TRUE: return None   # refused by the building interface
    net = b.build(); g = Graph(b.I, b.st, net)
    R.funcs |= {F.fns[i]['n'] for i in b.I.inlined}
    if b.st.thr is TRUE: return None
    loc = F.loc(F.by_mn['createVertexFromMetadata'][0]) if F.by_mn.get('createVertexFromMetadata') else F.loc(F.by_mn['loadNeuralNetworkForTraining'][0])
    bloc = F.loc(F.method(VERTEX, 'buildLayer'))
    meta = fields(b.I, b.st, net).get('networkMetadata')
    if meta is None or meta.op != 'list' or g.bad: R.undecided(name, g.bad or 'description is not a constant list of records'); return 0
    cfg = Config([b.I.freeze(m, b.st) for m in meta.a])
    c = Build(F, cfg.hooks())
    net2 = c.I.call(F.by_mn['loadNeuralNetworkForTraining'][0], None, [string('m'), string('repo')], c.st)
    R.funcs |= {F.fns[i]['n'] for i in c.I.inlined}
    if c.st.thr is TRUE: R.viol(name, loc, 'a written description must be readable', 'loading is refused (after %d of %d records)' % (cfg.k, len(cfg.rec))); return 0
    if net2.op != 'ref': R.undecided(name, 'loaded network not resolved: ' + show(net2)[:100]); return 0
    k = Graph(c.I, c.st, net2)
    if k.bad: R.undecided(name, k.bad); return 0
    what = 'the rebuilt network differs'
    settle(R, '%s: all records read' % name, loc, what, judge(num(cfg.k), num(len(cfg.rec))))
    settle(R, '%s: layers' % name, loc, 'the rebuilt network has other layers', judge(string(','.join(k.kind)), string(','.join(g.kind))))
    for lbl, x, y in (('inputs', k.heads, g.heads), ('outputs', k.outs, g.outs), ('forward connections', k.succ, g.succ), ('inputs of layers', k.pred, g.pred)):
        settle(R, '%s: %s' % (name, lbl), loc, 'the rebuilt network is connected in another way', judge(string(str(x)), string(str(y))))
    n = 0
    if k.kind == g.kind:
        for i in range(len(g.order)):
            a, z = k.settings(i), g.settings(i)
            for f in sorted(set(a) | set(z)):
                n += 1
                settle(R, '%s: layer %d (%s) %s' % (name, i, g.kind[i], f), loc, 'a setting of the layer is not the one that was saved', judge(a.get(f, sym('absent')), z.get(f, sym('absent'))))
    a, z = k.training(), g.training()
    for f in sorted(set(a) | set(z)):
        n += 1
        settle(R, '%s: network %s' % (name, f), loc, 'a setting of the network is not the one that was saved', judge(a.get(f, sym('absent')), z.get(f, sym('absent'))))
    m2 = fields(c.I, c.st, net2).get('networkMetadata')
    if m2 is not None and m2.op == 'list': settle(R, '%s: description written again' % name, loc, 'saving the rebuilt network writes another description', judge(c.I.freeze(m2, c.st), b.I.freeze(meta, b.st)))
    else: R.undecided('%s: description written again' % name, 'not resolved')
    # every concatenation receives its operands in the order of the shapes it was given
    for i, kd in enumerate(g.kind):
        sh = g.f(g.layer[i]).get('input_shapes_') if isref(g.layer[i]) else None
        if 'oncatenate' not in kd or sh is None or sh.op != 'list': continue
        settle(R, '%s: operands of concatenation %d' % (name, i), bloc, 'every layer listed in a concatenation is connected to it', judge(num(len(g.pred[i])), num(len(sh.a))))
    return n
def reaches(F, R):
    """every setting changes the network that is built and its description"""
    e = {'L': enum(F, 'LayerType'), 'A': enum(F, 'ActivationType')}
    def one(mn, v, i, name):
        b = Build(F); b.start(enum(F, 'OptimizerType')['adam']); vs = NETS[name](b, e)
        if mn: b.set(vs[i], mn, v)
        if b.st.thr is TRUE: return None
        g = Graph(b.I, b.st, b.build())
        d = b.I.freeze(fields(b.I, b.st, b.net)['networkMetadata'], b.st)
        return g, (g.kind, g.shape(), [tuple(sorted(g.settings(j).items())) for j in range(len(g.order))]), d
    for mn, t in sorted(setters(F).items()):
        vs = [True, False] if t == 'bool' else [sym('p1'), sym('p2')] if t in ('float', 'double') else [8, 16] if 'char' in t else []
        if not vs: continue
        f = F.method(VERTEX, mn)
        best = None
        for name, i in (('dense chain', 0), ('convolution chain', 0), ('flatten, normalize, dropout', 2)):
            rs = [one(mn, v, i, name) for v in vs]
            if None in rs: continue
            res = (rs[0][1] != rs[1][1], rs[0][2] is not rs[1][2])
            best = res if best is None else (best[0] or res[0], best[1] or res[1])
        if best is None: continue
        settle(R, '%s: network' % mn, F.loc(f), 'the setting has no effect on the network', judge(boolean(best[0]), TRUE))
        settle(R, '%s: description' % mn, F.loc(f), 'the setting is not written into the description', judge(boolean(best[1]), TRUE))
    b = Build(F); b.start(enum(F, 'OptimizerType')['adam']); vs = shaping(b, e); g = Graph(b.I, b.st, b.build())
    f = F.method(VERTEX, 'addDropoutLayer')
    i = g.kind.index('DropoutLayer') if 'DropoutLayer' in g.kind else None
    if i is not None and f: settle(R, 'addDropoutLayer: rate', F.loc(f), 'the layer is built with another rate', judge(boolean(any(v is sym('rate') for v in g.settings(i).values())), TRUE))
def text(F, R):
    """numbers survive being written as text"""
    for f in F.by_mn.get('asString', []):
        if not f.get('body') or f['params'][0]['t'] not in ('float', 'double'): continue
        def walk(x):
            if isinstance(x, dict):
                yield x
                for y in x.values(): yield from walk(y)
            elif isinstance(x, list):
                for y in x: yield from walk(y)
        ns = list(walk(f['body']))
        prec = [x['a'][0] for x in ns if x.get('k') == 'call' and (x.get('n') or '').endswith('setprecision')]
        fixed = any(x.get('k') == 'ref' and x.get('q') == 'std::fixed' for x in ns)
        R.analysed(f)
        if len(prec) == 1 and prec[0].get('k') == 'int':
            p = int(prec[0]['v'])
            settle(R, 'digits of a written number', F.loc(f), 'a float written as text must be read back as the same float', judge(boolean(p >= (15 if fixed else 9)), TRUE))
        elif not prec and any(x.get('k') == 'opc' and x.get('op') == '<<' for x in ns): R.viol('digits of a written number', F.loc(f), 'a float written as text must be read back as the same float', 'no precision is set: 6 digits are written')
        else: R.undecided('digits of a written number', 'formatting not recognised')
    for v in (TRUE, FALSE):
        I = Interp(F); st = St()
        fs = [f for f in F.by_mn['asString'] if f['params'][0]['t'] == 'bool']; gs = F.by_mn['asBool']
        if fs and gs:
            x = I.call(gs[0], None, [I.call(fs[0], None, [v], st)], st)
            settle(R, 'flag %s as text' % show(v), F.loc(gs[0]), 'a flag written as text must be read back as the same flag', judge(x, v))
def run(F, R):
    R.rule = ('Networks are described through the building interface and built by interpreting its code with every setting symbolic or in every value; the records build() writes are handed to the '
              'interpreted loader, and the two object graphs are compared: layers, every field of every node and layer, connections in order, inputs, outputs, optimizer, loss, rates, and '
              'the description the rebuilt network would write. The text form of numbers and flags is decided from the formatting code.')
    R.notes += ['numbers are written with 15 digits after the point: settings whose magnitude is below about 1e-8 lose digits (not decided here)', 'initial weights are compared by how they are generated']
    for fn_ in ('loadNeuralNetworkForTraining', 'neuralNetworkBuilder'):
        if not F.by_mn.get(fn_): raise FX.AnalysisError(fn_ + ' not found')
    n = 0
    for name, mk in NETS.items():
        k = roundtrip(F, R, name, mk); n += k or 0
        if k is None: raise FX.AnalysisError('building "%s" is refused' % name)
    ss = setters(F)
    R.floor('settings of a layer', len(ss), 6)
    for mn, t in sorted(ss.items()):
        for v in values(t, mn):
            for name in ('dense chain', 'convolution chain', 'flatten, normalize, dropout', 'one dense layer', 'one convolution layer', 'two inputs'):
                for i in range({'dense chain': 3, 'convolution chain': 4, 'flatten, normalize, dropout': 6, 'two inputs': 4}.get(name, 1)):
                    def tw(b, vs, i=i):
                        b.set(vs[i], mn, v)
                    roundtrip(F, R, '%s, %s(%s) on layer %d' % (name, mn, show(v) if isinstance(v, T) else v, i), NETS[name], tw)
    for flip in (True, False):
        def every(b, vs):
            for i, x in enumerate(vs):
                for mn, t in sorted(ss.items()):
                    for v in ([sym('p%d_%s' % (i, mn))] if t in ('float', 'double') else [(8, 16, 32)[i % 3]] if 'char' in t else [flip] if t == 'bool' else []):
                        keep = b.st.copy()
                        b.set(x, mn, v)
                        if b.st.thr is TRUE: b.st.set(keep)
        for name, mk in NETS.items(): roundtrip(F, R, '%s, all settings (flags %s)' % (name, flip), mk, every)
    for o in enum(F, 'OptimizerType'):
        roundtrip(F, R, 'optimizer %s' % o, dense, None, o)
        roundtrip(F, R, 'optimizer %s, default rates' % o, dense, None, o, None, False)
    for l in enum(F, 'LossType'): roundtrip(F, R, 'loss %s' % l, dense, None, 'adam', l)
    reaches(F, R)
    text(F, R)
    R.count('settings compared', n)
