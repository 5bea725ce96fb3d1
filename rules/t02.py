"""T02: elements of derived tensors.  Value graph of getValue composed with the constructor, compared with the definition."""
from tensors import *
from judge import judge, settle
def run(F, R):
    R.rule = ('Each tensor class: the constructor and getValue (with every helper they reach) are turned into one gated value graph over a symbolic operand and '
              'position; its algebraic normal form must equal that of the operation\'s definition for every in-range position of non-refused operands.')
    R.notes += ['float arithmetic is compared over the reals', 'operand tensors are arbitrary pure functions of the position']
    S = table(); n = 0
    for v, name, k, ks, args in instances(F):
        sp = S.get((name, ks))
        if sp is None: R.count('constructors without definition'); continue
        val, shape, refused = sp(*args)
        inst = '%s(%s).getValue' % (name, ks)
        g = getter(F, v)
        R.analysed(g, k); n += 1
        try:
            I, st, o = build(F, v, k, args)
            code = I.method(o, 'getValue', [r, c, h], st)
            R.funcs |= {F.fns[i]['n'] for i in I.inlined}
        except Budget: R.undecided(inst, 'evaluation budget'); continue
        code = I.freeze(code, st)
        assume = band(*[band(le(ZERO, x, True), lt(x, m, True)) for x, m in zip((r, c, h), shape)])
        if refused is not None: assume = band(assume, bnot(refused))
        if name == 'ChannelToTensorView': assume = band(assume, lt(args[1], chans(args[0]), True))
        if name.startswith('Valid2D') or name.startswith('Full2D'):
            assume = band(assume, *[lt(ZERO, q, True) for q in (rows(args[1]), cols(args[1]))])
        settle(R, inst, F.loc(g), 'element differs from definition', judge(code, val, assume, ('r', 'c', 'h')))
    inverse(F, R)
    R.floor('tensor constructors with definition', n, 30)

def inverse(F, R):
    """the inverse times its operand is the identity (1x1 with two channels and 2x2, all pivot orders)"""
    import t04
    if INV not in F.rec or not F.ctors(INV): return
    k = F.ctors(INV)[0]; A = sym('A')
    for n, K in ((1, 2), (2, 1)):
        I = Interp(F, hooks=t04.hooks({A: (n, n, K)})); st = St()
        try: o = I.construct(INV, [A], st, k['id'])
        except Budget: R.undecided('InverseTensorView %d' % n, 'evaluation budget'); continue
        R.funcs |= {F.fns[i]['n'] for i in I.inlined}
        if I.unk or o is None: R.undecided('InverseTensorView %dx%d' % (n, n), 'constructs: %s' % I.unk[:2]); continue
        for q in range(K):
            v = {(i, j): I.freeze(I.method(o, 'getValue', [num(i), num(j), num(q)], st), st) for i in range(n) for j in range(n)}
            for i in range(n):
                for j in range(n):
                    p = add(*[mul(fn('val', A, num(i), num(x), num(q)), v[x, j]) for x in range(n)])
                    settle(R, 'InverseTensorView %dx%d channel %d: product at %d,%d' % (n, n, q, i, j), F.loc(k), 'a matrix times its inverse is the identity', judge(p, ONE if i == j else ZERO, bnot(st.thr)))
