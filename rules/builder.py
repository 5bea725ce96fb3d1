"""Interpreting the network building interface and the model loader (used by P01, P02, P03)."""
from tensors import *
from judge import judge, settle
import facts as FX
DSL, VERTEX = 'happyml::HappymlDSL', 'happyml::HappymlDSL::NNVertex'
TRAIN, NODE, OUT = 'happyml::NeuralNetworkForTraining', 'happyml::NeuralNetworkNode', 'happyml::NeuralNetworkOutputNode'
def enum(F, name): return {v['n']: num(int(v['v'])) for v in F.enums['happyml::' + name]['vals']}
def lst(*a): return T('list', tuple(x if isinstance(x, T) else num(x) for x in a))
class Build(object):
    """drives the building interface of the code"""
    def __init__(s, F, hooks=None):
        s.F = F
        h = {'all_of': lambda I, e, a, st, this: TRUE, 'asString': s.as_string}
        h.update(hooks or {})
        s.I = Interp(F, hooks=h, budget=3000000, max_depth=120); s.I.max_rec = 24; s.st = St()
    def as_string(s, I, e, a, st, this):
        v = a[0]
        return NotImplemented if v.op == 'bool' else fn('text', v)
    def pick(s, mn, kinds, cls=None, n=None):
        """overload by the kinds of its parameters: n number, v vector, e enum, b bool, S string, s vector of vectors, p vector of vertices"""
        def kind(t):
            t = t.replace('const ', '')
            if t.startswith('std::vector<std::vector'): return 's'
            if t.startswith('std::vector<std::shared_ptr'): return 'p'
            if t.startswith('std::vector'): return 'v'
            if 'Type' in t: return 'e'
            if 'basic_string' in t: return 'S'
            if t == 'bool': return 'b'
            return 'n'
        for f in s.F.by_mn.get(mn, []):
            if f.get('body') and (cls is None or f['cls'] == cls) and ''.join(kind(p['t']) for p in f['params']) == kinds: return f
        raise FX.AnalysisError('%s(%s) not found' % (mn, kinds))
    def start(s, opt, name='m'):
        s.dsl = s.I.call(s.pick('neuralNetworkBuilder', 'eSS'), None, [opt, string(name), string('repo')], s.st); return s.dsl
    def do(s, obj, mn, kinds, *args):
        cls = s.st.heap[obj.a[0]][0]
        return s.I.call(s.pick(mn, kinds, cls), obj, [a if isinstance(a, T) else lst(*a) if isinstance(a, (list, tuple)) else boolean(a) if isinstance(a, bool) else num(a) for a in args], s.st)
    def set(s, obj, mn, v): return s.I.method(obj, mn, [v if isinstance(v, T) else boolean(v) if isinstance(v, bool) else num(v)], s.st)
    def build(s):
        s.net = s.I.method(s.dsl, 'build', [], s.st); return s.net
def fields(I, st, o): return st.heap[o.a[0]][1]
def isref(v): return v is not None and v.op == 'ref'
class Graph(object):
    """what a built network consists of, independent of object identity: nodes in the order data reaches them, their settings, connections, heads and outputs"""
    def __init__(s, I, st, net):
        s.I, s.st, s.net = I, st, net
        n = fields(I, st, net)
        s.order = []; s.bad = None
        def elems(v):
            if v is not None and v.op == 'list': return list(v.a)
            s.bad = s.bad or 'not a list of connections: %s' % show(v)[:80]; return []
        def visit(x):
            if not isref(x): s.bad = s.bad or 'not a node: %s' % show(x)[:80]; return
            if x in s.order: return
            s.order.append(x)
            for c in elems(s.f(x).get('connectionOutputs')): visit(s.f(c).get('to'))
        for x in elems(n.get('headNodes')): visit(x)
        ix = {x: i for i, x in enumerate(s.order)}
        s.heads = [ix.get(x) for x in elems(n.get('headNodes'))]
        s.outs = [ix.get(x) for x in elems(n.get('outputNodes'))]
        s.succ = [[ix.get(s.f(c).get('to')) for c in elems(s.f(x).get('connectionOutputs'))] for x in s.order]
        s.pred = [[ix.get(s.f(c).get('from')) for c in elems(s.f(x).get('connectionInputs'))] for x in s.order]
        s.cls = [st.heap[x.a[0]][0].split('::')[-1] for x in s.order]
        s.layer = [s.f(x).get('neuralNetworkFunction') for x in s.order]
        s.kind = [st.heap[y.a[0]][0].split('::')[-1] if isref(y) else show(y)[:40] for y in s.layer]
    def f(s, o): return fields(s.I, s.st, o)
    def settings(s, i):
        """name -> value of every setting of node i and its layer"""
        out = {}
        def put(pre, o, depth):
            for k, v in s.f(o).items():
                if k in ('connectionOutputs', 'connectionInputs', 'neuralNetworkFunction') or 'profile' in k.lower(): continue
                if v.op == 'ref':
                    out[pre + k] = string(s.st.heap[v.a[0]][0])
                    if depth < 3: put(pre + k + '.', v, depth + 1)
                else: out[pre + k] = s.I.freeze(v, s.st)
        put('', s.order[i], 0)
        if isref(s.layer[i]): put('layer.', s.layer[i], 0)
        return out
    def shape(s): return (tuple(s.heads), tuple(s.outs), tuple(map(tuple, s.succ)), tuple(map(tuple, s.pred)))
    def training(s):
        n = s.f(s.net); out = {}
        for k, v in n.items():
            if k in ('headNodes', 'outputNodes', 'networkMetadata'): continue
            if v.op == 'ref':
                out[k] = string(s.st.heap[v.a[0]][0])
                for k2, v2 in s.f(v).items(): out[k + '.' + k2] = s.I.freeze(v2, s.st)
            else: out[k] = s.I.freeze(v, s.st)
        return out
