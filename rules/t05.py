"""T05: what a tensor writes is what every storage type reads.  Writer and readers are translated for a tensor of unknown shape; the
writer's and the reader's stream operations form trees of items and counted loops which are walked in step (same number, width, order
and bounds); the reader's items are then replaced by what was written and the element read back is compared."""
from iotrace import *
from judge import judge, settle
import t04
DIM = ('rows', 'columns', 'channels')
S = sym('original tensor')
SHAPES = ((2, 3, 2), (3, 2, 5), (1, 7, 1), (4, 1, 3))
def hooks(shape=None):
    H = Tape().hooks()
    for n, d in zip(('rowCount', 'columnCount', 'channelCount'), DIM):
        H[n] = lambda I, e, a, st, this, d=d: (num(shape[DIM.index(d)]) if shape else sym(d)) if a and a[0] is S else NotImplemented
    H['getValue'] = lambda I, e, a, st, this: fn('val', *a) if a and a[0] is S else NotImplemented
    for n in t04.ENC: H[n] = lambda I, e, a, st, this, n=n: fn('enc', string(t04.ENC[n]), *a[:2])
    for n in t04.DEC: H[n] = lambda I, e, a, st, this, n=n: fn('dec', string(t04.DEC[n]), *a[:2])
    return H
def stream_arg(p): return 'stream<' in p['t'] or 'stream' in p['t'].split('<')[0]
def path_arg(p): return 'basic_string' in p['t'] and 'vector' not in p['t'] and not stream_arg(p)
def run(F, R):
    R.rule = 'Every way a tensor is written is compared, item by item over a symbolic shape, with every way a storing tensor class is read.'
    R.notes += ['the conversions to and from half and quarter precision are opaque pairs', 'byte order functions must be their own inverse (decided by byte lanes)']
    ws = writers(F, R); R.floor('ways to write a tensor', len(ws), 2)
    n = 0
    for cls in sorted(F.concrete('happyml::BaseAssignableTensor')):
        for k in F.ctors(cls):
            p = k['params']
            if not p or not (stream_arg(p[0]) or path_arg(p[0])): continue
            n += 1
            body = sum('unsigned long' in q['t'] or 'size_t' in q['t'] or 'uint64_t' in q['t'] for q in p) >= 3
            for (f, header, W) in ws:
                if header == body: continue
                pair(F, R, cls, k, f, W, body)
    R.floor('ways to read a tensor', n, 6)
    R.floor('byte order functions', order(F, R), 3)
def writers(F, R):
    """(function, with header, trace)"""
    out = []
    for f in F.by_mn.get('save', []):
        if not F.is_a('happyml::BaseTensor', f['cls']) and not F.is_a(f['cls'], 'happyml::BaseTensor'): continue
        p = f['params']
        if not p or not f.get('body'): continue
        R.analysed(f)
        if stream_arg(p[0]): todo = [(h, [sym('stream'), boolean(h)]) for h in (True, False)] if len(p) == 2 else [(True, [sym('stream')])]
        elif path_arg(p[0]): todo = [(True, [sym('path')] + [NONE] * (len(p) - 1))]
        else: continue
        for h, args in todo:
            I = Interp(F, hooks=hooks()); I.typed = True; st = St()
            I.inline(f, S, args, st)
            W = tree(st.eff); nm = '%s%s' % (f['n'].replace('happyml::', ''), '' if h else ' without header')
            if not W: R.viol(nm, F.loc(f), 'saving writes the tensor', 'nothing is written', nm); continue
            c = conditional(W)
            if c is not None: R.undecided(nm, 'an item is written only if %s' % show(c)[:100]); continue
            out.append((f, h, W)); R.ok(nm, repr(W)[:160])
    return out
def conditional(tr):
    for x in tr:
        if x.cond is not TRUE: return x.cond
        if isinstance(x, Loop):
            c = conditional(x.body)
            if c is not None: return c
    return None
def pair(F, R, cls, k, f, W, body):
    nm = '%s(%s%s) after %s' % (cls.split('::')[-1], 'stream' if stream_arg(k['params'][0]) else 'path', ', body' if body else '', f['n'].split('::')[-1])
    args = []
    for p in k['params']:
        d = [x for x in DIM if x[:3] in p['n'].lower()]
        args.append(sym('input') if stream_arg(p) or path_arg(p) else sym(d[0]) if body and d and 'int' != p['t'].split()[-1] else sym(p['n']))
    R.analysed(k); loc = F.loc(k)
    I = Interp(F, hooks=hooks()); I.typed = True; st = St()
    try: o = I.construct(cls, args, st, k['id'])
    except Budget: R.undecided(nm, 'budget'); return
    R.funcs |= {F.fns[i]['n'] for i in I.inlined if i in F.fns}
    Rd = tree(st.eff)
    if I.unk: R.undecided(nm, 'constructs: %s' % I.unk[:2]); return
    if conditional(Rd) is not None: R.undecided(nm, 'an item is read only if %s' % show(conditional(Rd))[:100]); return
    U = Unify()
    try: U.run(W, Rd)
    except Mismatch as m:
        R.viol(nm, loc, 'what is written is what is read', str(m), nm); return
    R.ok(nm + ': layout', '%d items' % U.n)
    nn = [sym(d) for d in DIM]
    some = band(*[lt(ZERO, sym(d), True) for d in DIM])
    for m, d in zip(('rowCount', 'columnCount', 'channelCount'), DIM):
        got = U.resolve(I.freeze(I.method(o, m, [], st), st))
        settle(R, '%s %s' % (nm, d), loc, 'the tensor read has the shape of the one written', judge(got, sym(d), assume=some, nonneg=nn))
    i, j, c = sym('i'), sym('j'), sym('c')
    inside = band(some, *[x for v, d in ((i, 'rows'), (j, 'columns'), (c, 'channels')) for x in (le(ZERO, v, True), lt(v, sym(d), True))])
    got = U.resolve(I.freeze(I.method(o, 'getValue', [i, j, c], st), st))
    got = inbounds(got, {i: 'rows', j: 'columns', c: 'channels'})
    bias = [a for a, p in zip(args, k['params']) if p['n'] == 'bias']
    want = t04.conv(cls, fn('val', S, i, j, c), bias[0] if bias else None)
    if want is None:   # the value stored when the same class is made from the tensor itself
        src = [q for q in F.ctors(cls) if q['params'] and 'BaseTensor' in q['params'][0]['t'] and len(q['params']) == 1]
        if not src: R.undecided(nm + ' elements', 'no constructor from a tensor'); return
        I2 = Interp(F, hooks=hooks()); I2.typed = True; st2 = St(); o2 = I2.construct(cls, [S], st2, src[0]['id'])
        want = inbounds(I2.freeze(I2.method(o2, 'getValue', [i, j, c], st2), st2), {i: 'rows', j: 'columns', c: 'channels'})
    v = judge(got, want, assume=inside, nonneg=nn + [i, j, c])
    if v.v == 'und' and instances(F, R, cls, k, f, args, body, nm, loc, bias): return
    settle(R, nm + ' elements', loc, 'every element is read back at its place', v)
def instances(F, R, cls, k, f, args, body, nm, loc, bias):
    """the same comparison over concrete shapes (elements symbolic), for element positions outside the general reasoning; only a difference counts"""
    for shape in SHAPES:
        I = Interp(F, hooks=hooks(shape)); I.typed = True; st = St()
        p = f['params']; I.inline(f, S, [sym('stream'), boolean(not body)][:len(p)] if stream_arg(p[0]) else [sym('path')] + [NONE] * (len(p) - 1), st)
        W = tree(st.eff)
        # the reader's dimensions are those written
        sub_ = {sym(d): num(x) for d, x in zip(DIM, shape)}; U = Unify(); H = hooks(shape); seen = [0]
        rd = H['std.read']
        flat_ = W
        def read(I, e, a, st, this):
            if not isstream(e) or len(a) != 3: return NotImplemented
            i = seen[0]; seen[0] += 1
            if i >= len(flat_) or isinstance(flat_[i], Loop): return NotImplemented
            n = strip(e['a'][0])
            if n.get('k') == 'un' and n.get('op') == '&': I.assign(strip(n['e']), flat_[i].val, st, this)
            return a[0]
        H['std.read'] = read
        I = Interp(F, hooks=H); I.typed = True; st = St()
        o = I.construct(cls, [sub_.get(a, a) for a in args], st, k['id'])
        for q in t04.elems(shape):
            want = t04.conv(cls, fn('val', S, *[num(x) for x in q]), bias[0] if bias else None)
            got = I.freeze(I.method(o, 'getValue', [num(x) for x in q], st), st)
            if want is None:
                others = [y for y in walk(got) if y.op == 'fn' and y.a[0] == 'val' and y is not fn('val', S, *[num(x) for x in q])]
                bad = others[0] if others else None
            else: bad = got if judge(got, want).v == 'bad' else None
            if bad is not None:
                R.viol(nm + ' elements', loc, 'every element is read back at its place', 'shape %s: at %s: %s' % ('x'.join(map(str, shape)), q, show(bad)[:120]), nm); return True
    return False
def inbounds(t, idx):
    """simplify the range tests of the indices"""
    m = {}
    for v, d in idx.items(): m[lt(v, ZERO, True)] = FALSE; m[lt(v, sym(d), True)] = TRUE; m[le(ZERO, v, True)] = TRUE
    return subst(t, m)
# ---------------------------------------------------------------- byte order
def order(F, R):
    n = 0
    for f in F.fns.values():
        if f['mn'] != 'portableBytes' or not f.get('body') or len(f['params']) != 1: continue
        n += 1; R.analysed(f); t = f['params'][0]['t']; w = {'unsigned long': 8, 'unsigned int': 4, 'unsigned short': 2, 'uint64_t': 8, 'uint32_t': 4, 'uint16_t': 2}.get(t.replace('std::', '')); nm = 'portableBytes(%s)' % t
        if not w: R.undecided(nm, 'width'); continue
        x = lanes(f, list(range(w)), w)
        if x is None: R.undecided(nm, 'not built from masks and shifts'); continue
        if sorted(map(str, x)) != sorted(map(str, range(w))): R.viol(nm, F.loc(f), 'no byte is lost', 'lowest byte first, the bytes are %s' % x, nm); continue
        if [x[y] for y in x] != list(range(w)): R.viol(nm, F.loc(f), 'changing the byte order twice changes nothing', 'lowest byte first: %s' % x, nm); continue
        R.ok(nm, 'bytes %s' % x)
    return n
def lanes(f, start, w):
    """which byte of the argument ends up in which byte of the result (None: zero)"""
    env = {f['params'][0]['id']: start + [None] * (8 - w)}
    class No(Exception): pass
    def ev(e):
        k = e['k']
        if k == 'ref' and e.get('id') in env: return env[e['id']]
        if k in ('cast', 'conv', 'icast', 'paren', 'rcast'):
            v = ev(e.get('e') or e.get('b')); t = (e.get('t') or '').replace('std::', '')
            n = {'unsigned short': 2, 'uint16_t': 2, 'unsigned char': 1, 'uint8_t': 1, 'unsigned int': 4, 'uint32_t': 4}.get(t)
            if isinstance(v, list) and n: v = v[:n] + [None] * (8 - n)
            return v
        if k == 'int': return int(e['v'])
        if k == 'bin':
            a, b = ev(e['l']), ev(e['r']); o = e['op']
            if o == '&':
                if isinstance(a, int): a, b = b, a
                if not isinstance(a, list) or not isinstance(b, int): raise No()
                out = []
                for i in range(8):
                    m = (b >> (8 * i)) & 255
                    if m not in (0, 255): raise No()
                    out.append(a[i] if m else None)
                return out
            if o in ('<<', '>>') and isinstance(a, list) and isinstance(b, int) and b % 8 == 0:
                s = b // 8; return ([None] * s + a)[:8] if o == '<<' else a[s:] + [None] * s
            if o in ('|', '^', '+') and isinstance(a, list) and isinstance(b, list): return [y if x is None else x if y is None or o == '|' and x == y else 'mixed' for x, y in zip(a, b)]
        raise No()
    def stm(n):
        if n['k'] == 'blk':
            for x in n['a']:
                r = stm(x)
                if r is not None: return r
            return None
        if n['k'] == 'decl':
            for d in n.get('a') or n.get('d') or []:
                if isinstance(d, dict) and d.get('i') is not None: env[d['id']] = ev(d['i'])
            return None
        if n['k'] == 'ret': return ev(n['e'])
        if n['k'] == 'asg' and n['l']['k'] == 'ref': env[n['l']['id']] = ev(n['r']); return None
        raise No()
    try: r = stm(f['body'])
    except (No, KeyError, TypeError): return None
    if not isinstance(r, list): return None
    t = (f.get('rt') or '').replace('std::', '')
    return r[:w]
