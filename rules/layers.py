"""Symbolic layers: construction with given parameters, symbolic optimizer, recorded materialisation (used by M01 and M02)."""
from tensors import *
from judge import judge, settle
X, X2, Y, E, E2, W, Wb = sym('X'), sym('X2'), sym('Y'), sym('E'), sym('E2'), sym('W'), sym('B')
W0, W1 = sym('W0'), sym('W1')
OPT, ID, BITS = sym('opt'), sym('id'), sym('bits')
HH, WW, KK, RATE, REG = sym('height'), sym('width'), sym('kernel'), sym('rate'), sym('strength')
def same(A, B): return band(*[eq(a, b, 'i') for a, b in zip(like(A), like(B))])
def shape(A, *s): return band(*[eq(a, b, 'i') for a, b in zip(like(A), s)])
def inside(A): return band(*[band(le(ZERO, x, True), lt(x, y, True)) for x, y in zip((r, c, h), like(A))])
class Layer(object):
    """one layer object under interpretation"""
    def __init__(s, F, cls, args, fields=None, opt_ids=None):
        s.F, s.cls = F, cls
        s.mat = []; s.calls = []; s.rnd = []
        s.nid = 0
        def mat(I, e, a, st, this): s.mat.append((a[0], a[1] if len(a) > 1 else None)); return a[0]
        def chg(kind):
            def f(I, e, a, st, this):
                a = [x for x in a if x is not OPT]
                k = len(s.calls); s.calls.append((kind, I.freeze(a[0], st), a[1], a[2])); return sym('new%d' % k)
            return f
        def reg(I, e, a, st, this): s.nid += 1; return sym('registered%d' % s.nid)
        def rnd(I, e, a, st, this):
            s.rnd.append([I.freeze(x, st) for x in a]); return sym('U%d' % len(s.rnd))
        s.I = Interp(F, hooks={'materializeTensor': mat, 'calculateWeightsChange': chg('weights'), 'calculateBiasChange': chg('bias'),
                               'registerForWeightChanges': reg, 'registerForBiasChanges': reg, 'happyml::TensorFromRandom': rnd})
        s.st = St()
        k = F.ctors(cls)
        a = [args[p['n']] if isinstance(args, dict) else args[i] for i, p in enumerate(k[0]['params'])] if k else []
        s.o = s.I.construct(cls, a, s.st, k[0]['id'] if k else None)
        for f, v in (fields or {}).items(): s.I.setf(s.o, f, v, s.st)
    def fields(s): return s.st.heap[s.o.a[0]][1]
    def forward(s, ins, train): return s.I.method(s.o, 'forward', [T('list', tuple(ins)), boolean(train)], s.st)
    def backward(s, e):
        b = s.I.method(s.o, 'backward', [e], s.st)
        return b
    def apply(s): return s.I.method(s.o, 'apply', [OPT], s.st)
    def val(s, t, i=r, j=c, k=h): return s.I.freeze(s.I.method(t, 'getValue', [i, j, k], s.st), s.st)
    def dims(s, t): return [s.I.freeze(s.I.method(t, m, [], s.st), s.st) for m in ('rowCount', 'columnCount', 'channelCount')]
def conv_args(F, cls, filters=2, depth=2, l2=FALSE):
    k = F.ctors(cls)[0]['params']; out = []
    ints = 0
    for p in k:
        t = p['t']
        if 'vector' in t: out.append(T('list', (HH, WW, num(depth))))
        elif 'string' in t: out.append(sym('label'))
        elif 'float' in t: out.append(REG)
        elif 'bool' in t: out.append(l2)
        elif 'filter' in p['n']: out.append(num(filters))
        elif 'ernel' in p['n']: out.append(KK)
        elif 'bits' in p['n']: out.append(BITS)
        else: out.append(ID)
    return out
