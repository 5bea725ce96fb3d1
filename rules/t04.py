"""T04: storing a tensor keeps every element at its place (constructors of the storing tensor classes and the functions that materialise)."""
from tensors import *
from judge import judge, settle
SHAPES = [(1, 1, 1), (2, 3, 1), (3, 2, 2), (1, 4, 3), (4, 1, 2)]   # rows, columns, channels
ENC = {'floatToHalf': 'half', 'floatToQuarter': 'quarter'}
DEC = {'halfToFloat': 'half', 'quarterToFloat': 'quarter'}
def hooks(shapes):
    """tensors of known shape with symbolic elements; conversions are opaque pairs"""
    def dim(i):
        return lambda I, e, a, st, this: num(shapes[a[0]][i]) if a and a[0] in shapes else NotImplemented
    H = {'rowCount': dim(0), 'columnCount': dim(1), 'channelCount': dim(2)}
    for n in ENC: H[n] = lambda I, e, a, st, this, n=n: fn('enc', string(ENC[n]), *a[:2])
    for n in DEC: H[n] = lambda I, e, a, st, this, n=n: fn('dec', string(DEC[n]), *a[:2])
    return H
def pixel(x):
    """8 bit fixed point number between 0 and 1"""
    return None
def elems(shape):
    for k in range(shape[2]):
        for i in range(shape[0]):
            for j in range(shape[1]): yield i, j, k
def dims(I, o, st): return [I.freeze(I.method(o, m, [], st), st) for m in ('rowCount', 'columnCount', 'channelCount')]
def at(I, o, st, i, j, k): return I.freeze(I.method(o, 'getValue', [num(i), num(j), num(k)], st), st)
def conv(cls, x, bias):
    """what the precision of a class makes of x"""
    n = cls.split('::')[-1]
    if n == 'FullTensor': return x
    if n == 'HalfTensor': return fn('dec', string('half'), fn('enc', string('half'), x))
    if n == 'QuarterTensor': return fn('dec', string('quarter'), fn('enc', string('quarter'), x, bias), bias)
    return None
def run(F, R):
    R.rule = ('Every constructor of every storing tensor class is interpreted on sources of representative shapes with symbolic elements; the element read back at each position must be the conversion '
              '(opaque pair of encode and decode functions) of the source element at that position, and the shape that of the source. The materialising functions must return such a tensor.')
    R.notes += ['the numeric quality of the half and quarter conversions themselves is not judged', 'shapes: %s' % SHAPES]
    cs = sorted(F.concrete('happyml::BaseAssignableTensor')); R.floor('storing tensor classes', len(cs), 3)
    nctor = 0
    for cls in cs:
        for k in F.ctors(cls): nctor += ctor(F, R, cls, k)
    R.floor('storing constructors', nctor, 6)
    functions(F, R)
def source(kind, shape):
    R_, C, K = shape
    if kind == 'T': return sym('A'), lambda i, j, k: fn('val', sym('A'), num(i), num(j), num(k)), shape
    el = lambda i, j, k: sym('x%d_%d_%d' % (i, j, k))
    if kind == 'v1': return T('list', tuple(el(0, j, 0) for j in range(C))), el, (1, C, 1)
    if kind == 'v2': return T('list', tuple(T('list', tuple(el(i, j, 0) for j in range(C))) for i in range(R_))), el, (R_, C, 1)
    return T('list', tuple(T('list', tuple(T('list', tuple(el(i, j, k) for j in range(C))) for i in range(R_))) for k in range(K))), el, shape
def kindof(t):
    if 'BaseTensor' in t or 'Tensor>' in t: return 'T'
    b = t.replace('const ', '').replace('std::', '').replace(' ', '')
    n = 0
    while b.startswith('vector<'): n += 1; b = b[7:]
    if n and b.startswith('float'): return 'v%d' % min(n, 3)
    return None
def ctor(F, R, cls, k):
    if not k['params']: return 0
    n = cls.split('::')[-1]
    p0 = k['params'][0]['t']
    if n in p0 and 'shared_ptr' not in p0: return 0
    kd = kindof(p0)
    if kd is None or 'ifstream' in p0: return 0
    if kd == 'T' and any('function' in p['t'] for p in k['params']): return 0
    rest = [sym('p%d' % i) for i in range(1, len(k['params']))]
    for shape in SHAPES:
        src, el, sh = source(kd, shape)
        tag = '%s(%s) %s' % (n, kd, 'x'.join(map(str, sh)))
        I = Interp(F, hooks=hooks({sym('A'): shape})); st = St()
        try: o = I.construct(cls, [src] + rest, st, k['id'])
        except Budget: R.undecided(tag, 'budget'); continue
        R.funcs |= {F.fns[i]['n'] for i in I.inlined}; R.analysed(k)
        check(F, R, I, st, o, cls, tag, F.loc(k), sh, el, rest[0] if rest else None)
    return 1
def check(F, R, I, st, o, cls, tag, loc, sh, el, bias):
    if I.unk: R.undecided(tag, 'constructs: %s' % I.unk[:2]); return
    settle(R, tag + ' does not throw', loc, 'a tensor of any shape must be storable', judge(st.thr, FALSE))
    for w, g, s in zip('rows columns channels'.split(), dims(I, o, st), sh): settle(R, '%s %s' % (tag, w), loc, 'the stored tensor must have the shape of its source', judge(g, num(s)))
    for p in elems(sh):
        want = conv(cls, el(*p), bias)
        got = at(I, o, st, *p)
        if want is None:
            x = el(*p)   # unknown or fixed point precision: the value may only depend on the element at the position
            unit = band(le(ZERO, x, False), le(x, ONE, False))
            others = [y for y in walk(got) if (y.op == 'fn' and y.a[0] == 'val' or y.op == 'sym' and y.a[0][:1] == 'x') and y is not x]
            if others: R.viol('%s at %s' % (tag, p), loc, 'an element must be stored at its own place', 'reads %s' % [show(y) for y in others[:3]], show(got))
            elif x not in set(walk(got)): R.viol('%s at %s' % (tag, p), loc, 'an element must be stored at its own place', 'does not depend on the source element: ' + show(got)[:150], show(got))
            elif cls.endswith('PixelTensor'):
                px = lambda f: div(fn(f, mul(clamp01(x), num(255))), num(255))
                v = [judge(got, w) for w in (px('trunc'), px('round'), div(fn('floor', add(mul(clamp01(x), num(255)), fnum('0.5'))), num(255)), px('floor'), px('tou8'))]
                if any(y.v == 'ok' for y in v): R.ok('%s at %s' % (tag, p))
                else: settle(R, '%s at %s' % (tag, p), loc, 'a pixel must be the clamped value in 255ths', v[0])
            else: R.ok('%s at %s (placement only)' % (tag, p))
        else: settle(R, '%s at %s' % (tag, p), loc, 'an element must be stored unchanged (after the conversion of its precision) at its own place', judge(got, want))
def clamp01(x): return ite(lt(x, ZERO, False), ZERO, ite(lt(ONE, x, False), ONE, x))
def functions(F, R):
    """free functions that materialise a tensor"""
    for f in F.by_mn.get('materializeTensor', []):
        if f.get('cls'): continue
        R.analysed(f)
        two = len(f['params']) == 2
        for bits in ((32, 16, 8) if two else (32,)):
            for mat in (FALSE, TRUE):
                shape = (2, 3, 2); A = sym('A')
                H = hooks({A: shape})
                H.update({'isMaterialized': lambda I, e, a, st, this: mat if a and a[0] is A else NotImplemented, 'range': lambda I, e, a, st, this: T('obj', ('pair', ())) if False else fn('pair', sym('lo'), sym('hi')),
                          'estimateBias': lambda I, e, a, st, this: sym('bias')})
                I = Interp(F, hooks=H); st = St()
                o = I.call(f, None, [A] + ([num(bits)] if two else []), st)
                tag = 'materializeTensor(%s%s)' % ('materialised' if mat is TRUE else 'view', ', %d bits' % bits if two else '')
                if I.unk: R.undecided(tag, 'constructs: %s' % I.unk[:2]); continue
                if mat is TRUE and o is A: R.ok(tag + ' returns its argument'); continue
                if o is A:
                    R.viol(tag, F.loc(f), 'materialising must store a view', 'returns the view itself'); continue
                if o.op != 'ref': R.undecided(tag, 'result is %s' % show(o)[:80]); continue
                cls = st.heap[o.a[0]][0]
                want = {32: 'FullTensor', 16: 'HalfTensor', 8: 'QuarterTensor'}[bits]
                if cls.split('::')[-1] != want: R.viol(tag, F.loc(f), 'the precision asked for must be used', 'stores as ' + cls); continue
                check(F, R, I, st, o, cls, tag, F.loc(f), shape, lambda i, j, k: fn('val', A, num(i), num(j), num(k)), sym('bias'))
