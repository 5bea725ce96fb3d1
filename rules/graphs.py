"""Networks of nodes over symbolic layers: representative graph shapes, a log of what reaches every layer (used by M01, M07, M08)."""
from tensors import *
from judge import judge, settle
NODE, OUT, NET, TRAIN = 'happyml::NeuralNetworkNode', 'happyml::NeuralNetworkOutputNode', 'happyml::NeuralNetworkForPrediction', 'happyml::NeuralNetworkForTraining'
# shape: heads, edges in the order they are added, outputs
SHAPES = {
    'chain': ('A', ['AB', 'BC'], 'C'),
    'fan out and in': ('A', ['AB', 'AC', 'BD', 'CD'], 'D'),
    'three branches': ('A', ['AB', 'AC', 'AD', 'BE', 'CE', 'DE', 'EF'], 'F'),
    'skip first': ('A', ['AC', 'AB', 'BC', 'CD'], 'D'),
    'skip last': ('A', ['AB', 'BC', 'AC', 'CD'], 'D'),
    'two inputs': ('AB', ['AC', 'BC', 'CD'], 'D'),
    'two outputs': ('A', ['AB', 'BC', 'BD'], 'CD'),
    'two inputs and outputs': ('AB', ['AC', 'BC', 'CD', 'CE', 'DF', 'EG'], 'FG'),
    'nested fan': ('A', ['AB', 'AC', 'BD', 'BE', 'DF', 'EF', 'FG', 'CG', 'GH'], 'H'),
}
def lname(x): return sym('layer:' + x)
def fwd(x): return fn('t!forward', lname(x))
def bwd(x, i): return fn('t!backward', lname(x), num(i))
class Net(object):
    def __init__(s, F, shape, cls=NET, extra=None, clip=False):
        s.F = F; s.heads, s.edges, s.outs = SHAPES[shape]; s.log = []
        s.nodes = sorted(set(s.heads) | set(''.join(s.edges)) | set(s.outs))
        s.pred = {x: [e[0] for e in s.edges if e[1] == x] for x in s.nodes}
        s.succ = {x: [e[1] for e in s.edges if e[0] == x] for x in s.nodes}
        hooks = {'materializeTensor': lambda I, e, a, st, this: a[0]}
        for m in ('forward', 'backward', 'apply', 'saveKnowledge', 'loadKnowledge', 'get_parameter_count', 'is_trainable'): hooks[m] = s.layer(m)
        hooks.update(extra or {})
        s.I = Interp(F, hooks=hooks); s.st = St(); s.n = {}
        for x in s.nodes: s.n[x] = s.I.construct(OUT if x in s.outs else NODE, [lname(x)], s.st)
        for a, b in s.edges: s.I.method(s.n[a], 'add', [s.n[b]], s.st)
        s.net = s.I.new_obj(cls, s.st)
        s.I.setf(s.net, 'headNodes', T('list', tuple(s.n[x] for x in s.heads)), s.st)
        s.I.setf(s.net, 'outputNodes', T('list', tuple(s.n[x] for x in s.outs)), s.st)
    def layer(s, m):
        def f(I, e, a, st, this):
            if a[0].op == 'ite' : return NotImplemented
            if a[0].op != 'sym' or not a[0].a[0].startswith('layer:'): return NotImplemented
            x = a[0].a[0][6:]
            s.log.append((m, x, [y for y in a[1:]], st.copy()))
            if m == 'forward': return fwd(x)
            if m == 'backward': return T('list', tuple(bwd(x, i) for i in range(max(1, len(s.pred[x])))))
            if m in ('get_parameter_count', 'is_trainable'): return fn('m:' + m, a[0]) if m[0] == 'g' else (boolean(x in 'BCEG'))
            return UNDEF
        return f
    def heap(s):
        """observable state of every node and connection"""
        return {k: (c, dict(d)) for k, (c, d) in s.st.heap.items()}
    def call(s, x, m, *a): return s.I.method(s.n[x] if isinstance(x, str) else x, m, list(a), s.st)
    def took(s, m): return [(x, a, st) for mm, x, a, st in s.log if mm == m]
    def expected_error(s, x):
        if x in s.outs and not s.succ[x]: return V(fn('t!loss', lname(x)))
        parts = [V(bwd(y, s.pred[y].index(x))) for y in s.succ[x]]
        return div(add(*parts), num(len(parts))) if len(parts) > 1 else parts[0]
    def same_shapes(s):
        ts = [bwd(x, i) for x in s.nodes for i in range(max(1, len(s.pred[x])))] + [fn('t!loss', lname(x)) for x in s.outs]
        return band(*[eq(a, b, 'i') for t in ts[1:] for a, b in zip(like(ts[0]), like(t))])
