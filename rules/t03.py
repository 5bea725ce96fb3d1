"""T03: reported shapes and refused operands."""
from tensors import *
from judge import judge, settle
def run(F, R):
    R.rule = ('Each tensor class: value graphs of rowCount, columnCount, channelCount after construction, and of the condition under which the constructor throws, '
              'must equal the operation\'s definition for every operand shape.')
    S = table(); n = 0
    for v, name, k, ks, args in instances(F):
        sp = S.get((name, ks))
        if sp is None: continue
        val, shape, refused = sp(*args)
        n += 1; R.analysed(k)
        try: I, st, o = build(F, v, k, args)
        except Budget: R.undecided(name, 'evaluation budget'); continue
        ok = TRUE if refused is None else bnot(refused)
        for m, want in zip(('rowCount', 'columnCount', 'channelCount'), shape):
            code = I.freeze(I.method(o, m, [], st), st)
            f = F.method(v, m, 0)
            R.analysed(f)
            settle(R, '%s(%s).%s' % (name, ks, m), F.loc(f or k), 'shape differs from definition', judge(code, want, ok, ()))
        if refused is not None:
            settle(R, '%s(%s) refuses' % (name, ks), F.loc(k), 'refused operands differ from definition', judge(I.freeze(st.thr, st), refused, TRUE, ()))
        R.funcs |= {F.fns[i]['n'] for i in I.inlined}
    R.floor('tensor constructors with definition', n, 30)
