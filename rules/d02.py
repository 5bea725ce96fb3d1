"""D02: scaling of columns.  Every number column of a dataset is scaled with the statistics measured over that column only, as its description
says; restoring is the algebraic inverse, applied in the opposite order with the same statistics."""
from iotrace import *
from judge import judge, settle
from d04 import obj, interp, fields, N
SV, MD = N + 'StandardizationAndNormalizationValues', N + 'BinaryColumnMetadata'
VIEWS = {'NormalizeTensorView': 2, 'StandardizeTensorView': 2, 'DenormalizeTensorView': 2, 'UnstandardizeTensorView': 2}
STAT = ('mean', 'standard_deviation', 'min_value', 'max_value')
def run(F, R):
    R.rule = 'The writing of a scaled dataset is interpreted for two columns on each side; what is measured, described and written is compared column by column. Views are composed algebraically.'
    fs = [f for f in F.by_mn.get('normalize_and_standardize_dataset', []) if f.get('body')]
    R.floor('functions scaling a dataset', len(fs), 1); R.floor('scaling views', sum(N + v in F.rec for v in VIEWS), 4)
    R.notes += ['a column of one value is outside the inverse; it has to be left unscaled', 'rounding of float arithmetic is outside: the inverse is algebraic', 'that a description is read back as written is D01']
    if len(fs) == 1:
        for p in ((('N', 'L'), ('L', 'N')), (('L', 'N'), ('N', 'I')), (('N', 'N'), ('N', 'N')), (('I', 'L'), ('L', 'L'))): written(F, R, fs[0], {'given': p[0], 'expected': p[1]})
    views(F, R); helpers(F, R); measured(F, R); printed(F, R)
def emit(name, ret=None):
    def h(I, e, a, st, this):
        v = [I.freeze(x, st) for x in a]; I.emit(st, name, v, e)
        return fn(name, *v) if ret is None else ret
    return h
def written(F, R, f, P):
    R.analysed(f); loc = F.loc(f)
    H = {N + 'BinaryDatasetReader': emit('reader'), N + 'BinaryDatasetWriter': emit('writer'), 'close': lambda I, e, a, st, this: NONE,
         'is_open': lambda I, e, a, st, this: TRUE, 'rowCount': lambda I, e, a, st, this: sym('records'), 'writeRow': emit('writeRow', TRUE)}
    for s in P:
        c = s.capitalize()
        H['get_%s_column_count' % s] = lambda I, e, a, st, this, s=s: num(2)
        for k, m in (('dims', 'get%sTensorDims' % c), ('ordered_labels', 'get%sTensorOrderedLabels' % c), ('name', 'get_%s_name' % s)):
            H[m] = lambda I, e, a, st, this, s=s, k=k: fn('%s %s' % (s, k), a[1])
        H['get%sTensorPurpose' % c] = lambda I, e, a, st, this, s=s: num(ord(P[s][int(a[1].a[0])])) if is_num(a[1]) else sym('purpose')
        def md(I, e, a, st, this, s=s):
            if len(a) != 2 or not is_num(a[1]): return NotImplemented
            k = int(a[1].a[0])
            o = obj(F, I, st, MD); 
            for x in F.rec[MD]['fields']: I.setf(o, x['n'], fn('%s %s' % (s, x['n']), a[1]), st)
            I.setf(o, 'purpose', num(ord(P[s][k])), st)
            for i, d in enumerate(('rows', 'columns', 'channels')): I.setf(o, d, fn('at', fn('%s dims' % s, a[1]), num(i)), st)
            return o
        H['get_%s_metadata' % s] = md
    H['readRow'] = lambda I, e, a, st, this: fn('pair', *[T('list', tuple(fn('cell', string(s), num(i), a[1]) for i in range(2))) for s in ('given', 'expected')])
    records = []
    def measure(I, e, a, st, this):
        v = I.freeze(a[1], st); records.append((v, e)); I.emit(st, 'measure', [v], e)
        if a[0].op == 'ref' and v.op == 'fn' and v.a[0] == 'cell':
            for x in F.rec[SV]['fields']: I.setf(a[0], x['n'], fn(x['n'], *v.a[1:3]), st)
        else: I.unknown('measured ' + show(v)[:60], e)
        return NONE
    H['update_standardization_normalization_values_calculation'] = measure
    I, st = interp(F, H); strs = [string('raw'), string('path')]
    I.call(f, None, [strs[i] if i < 2 else sym(p['n']) for i, p in enumerate(f['params'])], st)
    tag0 = 'columns %s / %s: ' % (''.join(P['given']), ''.join(P['expected']))
    W = [e for e in st.eff if e[1] == 'writer']; RW = [e for e in st.eff if e[1] == 'writeRow']
    if I.unk or len(W) != 1 or len(RW) != 1: R.undecided(tag0[:-2], '%s, %d writers, %d rows' % (I.unk[:2], len(W), len(RW))); return
    some = lt(ZERO, sym('records'), True)
    args = W[0][2]; lists = {'given': args[1], 'expected': args[2]}; row = dict(zip(('given', 'expected'), RW[0][2][-2:]))
    for e in st.eff:
        if e[1] == 'measure' and e[0].op in ('any', 'anyi') and is_num(e[0].a[1]) and e[0].a[1] is not ZERO:
            R.viol(tag0 + 'every record is measured', loc, 'the statistics of a column are over every record', 'measuring starts at record %s' % show(e[0].a[1]), 'measured'); return
    R.ok(tag0 + 'every record is measured')
    # a loop over every record
    g = RW[0][0]
    if g is not TRUE and g.op in ('any', 'anyi') and g.a[1] is ZERO and g.a[2] is sym('records') and g.a[3] is TRUE: R.ok(tag0 + 'every record is written'); rec = g.a[0]
    elif g.op in ('any', 'anyi') and is_num(g.a[1]): R.viol(tag0 + 'every record is written', loc, 'every record is written', 'starts at ' + show(g.a[1]), 'every'); return
    else: R.undecided(tag0 + 'every record is written', show(g)[:100]); return
    for s in ('given', 'expected'):
        if lists[s].op != 'list' or len(lists[s].a) != 2 or row[s].op != 'list' or len(row[s].a) != 2:
            if lists[s].op == 'list' and row[s].op == 'list': R.viol(tag0 + s, loc, 'every column is described and written', '%d described, %d written' % (len(lists[s].a), len(row[s].a)), s)
            else: R.undecided(tag0 + s, show(row[s])[:100])
            continue
        for k in range(2):
            tag = tag0 + '%s %d ' % (s, k); m = lists[s].a[k]; t = row[s].a[k]
            if m.op != 'obj': R.undecided(tag, show(m)[:80]); continue
            fl = {a: subst(b, {some: TRUE}) for a, b in fields(m).items()}; t = subst(t, {some: TRUE})
            own = (string(s), num(k)); cell = fn('cell', own[0], own[1], rec)
            # kept as in the raw file
            for n_, w in [('purpose', num(ord(P[s][k])))] + [(d, fn('at', fn('%s dims' % s, num(k)), num(i))) for i, d in enumerate(('rows', 'columns', 'channels'))] + [('name', fn('%s name' % s, num(k))), ('ordered_labels', fn('%s ordered_labels' % s, num(k))), ('source_column_count', fn('%s source_column_count' % s, num(k)))]:
                x = fl.get(n_)
                if x is w: R.ok(tag + n_)
                elif x is None or x.op in ('num', 'str', 'sym', 'list') or x.op == 'fn' and (x.a[0].startswith(('given ', 'expected ')) or x.a[0] == 'at'): R.viol(tag + n_, loc, "a column's description is kept", '%s is %s' % (n_, show(x)[:60] if x is not None else 'not set'), n_)
                else: R.undecided(tag + n_, show(x)[:80])
            iss, isn = fl.get('is_standardized', FALSE), fl.get('is_normalized', FALSE)
            if P[s][k] != 'N':
                if iss is FALSE and isn is FALSE: R.ok(tag + 'not scaled')
                elif iss is TRUE or isn is TRUE: R.viol(tag + 'not scaled', loc, 'only numbers are scaled', 'described as scaled', 'scaled')
                else: R.undecided(tag + 'not scaled', show(bor(iss, isn))[:80])
                if t is cell: R.ok(tag + 'value')
                elif t.op == 'fn' and t.a[0] == 'cell': R.viol(tag + 'value', loc, 'a value is written in its own column', show(t), 'cell')
                elif t.op == 'obj': R.viol(tag + 'value', loc, 'only numbers are scaled', 'goes through ' + t.a[0][9:], 'cell')
                else: R.undecided(tag + 'value', show(t)[:80])
                continue
            stat = {q: fn({'mean': 'mean_result'}.get(q, q), *own) for q in STAT}
            for q in STAT:
                if fl.get(q) is stat[q]: R.ok(tag + q)
                elif fl.get(q) is not None and (fl[q].op == 'num' or fl[q].op == 'fn' and (fl[q].a[0] in ('mean_result', 'standard_deviation', 'min_value', 'max_value') or fl[q].a[0].startswith('c:'))): R.viol(tag + q, loc, 'a column is described by the statistics measured over it', '%s is %s' % (q, show(fl[q])), q)
                else: R.undecided(tag + q, show(fl.get(q))[:80] if fl.get(q) is not None else 'not set')
            # a range or deviation of zero is not divided by
            for c, z, what in ((isn, {stat['max_value']: stat['min_value']}, 'range'), (iss, {stat['standard_deviation']: ZERO}, 'deviation')):
                y = subst(c, z)
                if y is FALSE: R.ok(tag + 'no %s of zero' % what)
                elif y is TRUE: R.viol(tag + 'no %s of zero' % what, loc, 'a column of one value is not divided by its %s of zero' % what, 'is scaled whatever the values', what)
                else: R.undecided(tag + 'no %s of zero' % what, show(y)[:80])
            for a_ in (False, True):
                for b_ in (False, True):
                    if (iss is FALSE and a_) or (isn is FALSE and b_) or (iss is TRUE and not a_) or (isn is TRUE and not b_): continue
                    x = subst(t, {k_: v_ for k_, v_ in ((iss, boolean(a_)), (isn, boolean(b_))) if k_.op != 'bool'}); names = []; good = True
                    while x.op == 'obj':
                        fx = fields(x); names.append(x.a[0][9:])
                        for p_, q in (('mean_', 'mean'), ('std_dev_', 'standard_deviation'), ('min_val_', 'min_value'), ('max_val_', 'max_value')):
                            if p_ in fx and fx[p_] is not stat[q]:
                                good = False
                                R.viol(tag + 'value ' + p_, loc, 'a value is scaled with the statistics of its own column', '%s is %s' % (p_, show(fx[p_])[:60]), p_) if fx[p_].op != 'ite' else R.undecided(tag + 'value ' + p_, show(fx[p_])[:80])
                        if 'child_' not in fx: break
                        x = fx['child_']
                    names = names[::-1]; want = ['StandardizeTensorView'] * a_ + ['NormalizeTensorView'] * b_
                    inst = tag + 'value, %s' % (' and '.join(['standardized'] * a_ + ['normalized'] * b_) or 'as it is')
                    if x is not cell:
                        if x.op == 'fn' and x.a[0] == 'cell': R.viol(inst, loc, 'a value is written in its own column', show(x), 'cell')
                        else: R.undecided(inst, show(x)[:100])
                    elif names != want: R.viol(inst, loc, 'a value is standardized, then normalized, exactly as described', 'goes through ' + (', '.join(names) or 'nothing'), inst)
                    elif good: R.ok(inst)
    # measuring covers every record of the file: the guard of the loop is seen in the statistics being those of `some`
    R.count('columns measured', len(records))
def views(F, R):
    """(un)scaling composed with its inverse is the identity"""
    x = sym('x'); a, b = sym('a'), sym('b')
    def value(cls, inner):
        H = {'getValue': lambda I, e, args, st, this: inner if args and args[0] is sym('child') else NotImplemented, 'range': lambda I, e, args, st, this: NotImplemented}
        I, st = interp(F, H)
        ks = [k for k in F.ctors(cls) if len(k['params']) == 3]
        if len(ks) != 1: return None, None
        o = I.construct(cls, [sym('child'), a, b], st, ks[0]['id'])
        f = F.method(cls, 'getValue', 3)
        R.analysed(f, ks[0])
        v = I.freeze(I.call(f, o, [sym('row'), sym('column'), sym('channel')], st), st)
        return f, v
    for p, q, ok in (('NormalizeTensorView', 'DenormalizeTensorView', bnot(eq(a, b, 'f'))), ('StandardizeTensorView', 'UnstandardizeTensorView', bnot(eq(b, ZERO, 'f')))):
        f, v = value(N + p, x)
        if f is None: R.undecided(p, 'not found'); continue
        g, w = value(N + q, v)
        if g is None: R.undecided(q, 'not found'); continue
        inst = q + ' undoes ' + p
        if w is x: R.ok(inst)
        else: settle(R, inst, F.loc(g), 'restoring gives back the value', judge(w, x, assume=ok))
        g, w = value(N + q, x); f, v = value(N + p, w); inst = p + ' undoes ' + q
        if v is x: R.ok(inst)
        else: settle(R, inst, F.loc(f), 'restoring gives back the value', judge(v, x, assume=ok))
def chain(x, flags, stat, core):
    """names of the views x goes through under given flags, and views whose parameters are not the column's"""
    names, wrong = [], []
    x = subst(x, flags)
    while x.op == 'obj' and x is not core:
        fx = fields(x); names.append(x.a[0][9:])
        for p_ in ('mean_', 'std_dev_', 'min_val_', 'max_val_'):
            if p_ in fx and fx[p_] is not stat[p_]: wrong.append((p_, fx[p_]))
        if 'child_' not in fx: break
        x = fx['child_']
    return names[::-1], wrong, x
def helpers(F, R):
    S, Nn, U, D = 'StandardizeTensorView', 'NormalizeTensorView', 'UnstandardizeTensorView', 'DenormalizeTensorView'
    t = sym('t'); stat = {'mean_': sym('m.mean'), 'std_dev_': sym('m.standard_deviation'), 'min_val_': sym('m.min_value'), 'max_val_': sym('m.max_value')}
    iss, isn = sym('m.is_standardized'), sym('m.is_normalized')
    for n, order in (('standardize_and_normalize', (S, Nn)), ('unstandardize_and_denormalize', (D, U))):
        fs = [f for f in F.by_mn.get(n, []) if f.get('body')]
        if len(fs) != 1: continue
        f = fs[0]; R.analysed(f)
        I, st = interp(F, {}); m = obj(F, I, st, MD, 'm.')
        v = I.freeze(I.call(f, None, [t, m], st), st)
        if I.unk: R.undecided(n, '%s' % I.unk[:2]); continue
        for a in (False, True):
            for b in (False, True):
                names, wrong, x = chain(v, {iss: boolean(a), isn: boolean(b)}, stat, t)
                want = [w for w in order if (a if 'tandard' in w else b)]; inst = '%s, %s %s' % (n, 'standardized' * a, 'normalized' * b)
                if x is not t: R.undecided(inst, show(x)[:80])
                elif names != want: R.viol(inst, F.loc(f), 'scaled in one order, restored in the opposite one', 'goes through ' + (', '.join(names) or 'nothing'), inst)
                elif wrong: R.viol(inst, F.loc(f), 'with the statistics of the column', '%s is %s' % (wrong[0][0], show(wrong[0][1])[:60]), inst)
                else: R.ok(inst)
    fs = [f for f in F.by_mn.get('renormalizeAndStandardize', []) if f.get('body')]
    if len(fs) == 1:
        f = fs[0]; R.analysed(f)
        names_ = [p['n'] for p in f['params']]
        if len(names_) != 13: R.undecided('scaling anew', 'parameters'); return
        H = {'materializeTensor': lambda I, e, a, st, this: a[0]}
        order = ['t', 'n', 's', 'min', 'max', 'mean', 'sd', 'rn', 'rs', 'rmin', 'rmax', 'rmean', 'rsd']
        I, st = interp(F, H); v = I.freeze(I.call(f, None, [sym(x) for x in order], st), st)
        if I.unk: R.undecided('scaling anew', '%s' % I.unk[:2]); return
        for bits in range(16):
            fl = {sym(k): boolean(bool(bits >> i & 1)) for i, k in enumerate(('n', 's', 'rs', 'rn'))}
            x = subst(v, fl); names, wrong = [], []
            while x.op == 'obj':
                fx = fields(x); nm = x.a[0][9:]; names.append(nm); pre = 'r' if nm in (S, Nn) else ''
                for p_, q in (('mean_', 'mean'), ('std_dev_', 'sd'), ('min_val_', 'min'), ('max_val_', 'max')):
                    if p_ in fx and fx[p_] is not sym(pre + q): wrong.append((p_, fx[p_]))
                if 'child_' not in fx: break
                x = fx['child_']
            want = [w for i, w in enumerate((D, U, S, Nn)) if bits >> i & 1]; inst = 'scaling anew: ' + (', '.join(want) or 'as it is')
            if x is not sym('t'): R.undecided(inst, show(x)[:80])
            elif names[::-1] != want: R.viol(inst, F.loc(f), 'restored with the old, then scaled with the new statistics', 'goes through ' + (', '.join(names[::-1]) or 'nothing'), inst)
            elif wrong: R.viol(inst, F.loc(f), 'restored with the old, then scaled with the new statistics', '%s is %s' % (wrong[0][0], show(wrong[0][1])[:60]), inst)
            else: R.ok(inst)
def measured(F, R):
    """one value more: the running statistics"""
    fs = [f for f in F.by_mn.get('update_standardization_normalization_values_calculation', []) if f.get('body')]
    if len(fs) != 1: R.undecided('measuring', 'not found'); return
    f = fs[0]; R.analysed(f); loc = F.loc(f)
    dims = {'rowCount': sym('rows'), 'columnCount': sym('cols'), 'channelCount': sym('chs')}
    H = {k: (lambda I, e, a, st, this, v=v: v) for k, v in dims.items()}
    H['getValue'] = lambda I, e, a, st, this: fn('val', *a[1:])
    I, st = interp(F, H); o = obj(F, I, st, SV)
    I.call(f, None, [o, sym('t')], st)
    if I.unk: R.undecided('measuring', '%s' % I.unk[:2]); return
    vals = {x['n']: I.freeze(I.getf(o, x['n'], st), st) for x in F.rec[SV]['fields']}
    want = {'min_value': ('minf', 'imin', 'min'), 'max_value': ('maxf', 'imax', 'max')}
    lv = lambda t: [x for x in walk(t) if x.op == 'fn' and x.a[0] == 'val']
    for q in ('min_value', 'max_value'):
        v = vals[q]; cover(R, 'measuring ' + q, loc, v, dims)
        r = lv(v); p = q[:3]
        if not r: R.viol('measuring ' + q, loc, 'the %s is over every value' % q, show(v)[:80], q) if v is sym(q) else R.undecided('measuring ' + q, show(v)[:80]); continue
        # one more value
        y = one_more(v, q)
        if y is None: R.undecided('measuring ' + q, show(v)[:160]); continue
        cur, val, new = y
        mn, mx = fn(p, cur, val), fn(p, val, cur)
        vd = [judge(new, z) for z in (mn, mx, ite(lt(val, cur, False) if p == 'min' else lt(cur, val, False), val, cur))]
        ok = [z for z in vd if z.ok]
        if ok: R.ok('measuring ' + q)
        else: settle(R, 'measuring ' + q, loc, 'one value more keeps the %s' % q, vd[2])
    m = vals['mean_result']; s = vals.get('M2'); n = vals.get('total_elements')
    joint(R, loc, m, s, n, vals)
def cover(R, inst, loc, v, dims):
    """the loops are over every channel, row and column"""
    his = set()
    for x in walk(v):
        if x.op == 'fold' and x.a[0].op != 'str': his.add((x.a[1], x.a[2]))
        elif x.op in ('minf', 'maxf', 'sum'): his.add((x.a[1], x.a[2]))
    need = set(dims.values())
    got = {h for l, h in his if l is ZERO}
    bad = [l for l, h in his if h in need and is_num(l) and l is not ZERO]
    if bad: R.viol(inst + ' everywhere', loc, 'every value of a column is measured', 'a loop starts at %s' % show(bad[0]), inst)
    elif need <= got: R.ok(inst + ' everywhere')
    else: R.undecided(inst + ' everywhere', '%s' % [(show(l), show(h)) for l, h in his][:4])
def innermost(v):
    fs = [x for x in walk(v) if x.op == 'fold' and x.a[0].op != 'str']
    fs = [x for x in fs if not any(y is not x and contains_term(x, y) for y in fs)]
    return fs[0] if fs else None
def one_more(v, q):
    x = innermost(v)
    if x is not None:
        k = (len(x.a) - 5) // 3
        for i in range(k):
            nx = x.a[3 + 2 * k + i]
            vs = [y for y in walk(nx) if y.op == 'fn' and y.a[0] == 'val']
            if vs and contains_term(nx, x.a[3 + k + i]): return x.a[3 + k + i], vs[0], nx
        return None
    # recognised as a minimum over the loops: the same with one value more
    ms = [y for y in walk(v) if y.op in ('minf', 'maxf')]
    if ms:
        vs = [y for y in walk(v) if y.op == 'fn' and y.a[0] == 'val']
        cur, val = sym('so far'), vs[0]
        want = 'minf' if q[:3] == 'min' else 'maxf'
        inner = [y for y in ms if not any(z is not y and contains_term(y, z) for z in ms)]
        if any(y.a[3] is not val for y in inner): return cur, val, fn('max' if want == 'maxf' else 'min', cur, inner[0].a[3])
        if all(y.op == want for y in ms): return cur, val, ite(lt(val, cur, False) if want == 'minf' else lt(cur, val, False), val, cur)
        if all(y.op != want for y in ms): return cur, val, ite(lt(val, cur, False) if want != 'minf' else lt(cur, val, False), val, cur)
    return None
def joint(R, loc, m, s, n, vals):
    fm = innermost(s) if s is not None else None
    if fm is None: R.undecided('measuring deviation', show(s)[:160] if s is not None else 'no sum of squares'); return
    k = (len(fm.a) - 5) // 3; phi, nxt = fm.a[3 + k:3 + 2 * k], fm.a[3 + 2 * k:3 + 3 * k]; bv, lo, hi = fm.a[:3]
    vs = list({y: 1 for x in nxt for y in walk(x) if y.op == 'fn' and y.a[0] == 'val'})
    if len(vs) != 1: R.undecided('measuring deviation', '%d values' % len(vs)); return
    val = vs[0]
    # which carried value is what: the count grows by one, the mean is the one M2 depends on
    cnt = [i for i in range(k) if nxt[i] is add(phi[i], ONE)]
    some = [i for i in range(k) if nxt[i].op == 'ite' and {show(x) for x in nxt[i].a[1:]} == {show(phi[i]), show(add(phi[i], ONE))}]
    if not cnt and len(some) == 1: R.viol('measuring count', loc, 'every value is counted', 'counted only if ' + show(nxt[some[0]].a[0])[:80], 'count'); return
    other = [i for i in range(k) if i not in cnt]
    if len(cnt) == 1: c = phi[cnt[0]]; c1 = nxt[cnt[0]]
    elif not cnt and n is not None:
        # the count is recognised as a sum of ones: its value before this element is free
        cs = [x for x in walk(T('list', tuple(nxt))) if x.op in ('add',) and contains_term(x, bv) and not contains_term(x, val) and not any(contains_term(x, p) for p in phi)]
        if not cs: R.undecided('measuring deviation', 'no count: ' + show(T('list', tuple(nxt)))[:160]); return
        big = max(cs, key=lambda x: len(show(x))); c1 = sym('count with it'); nxt = tuple(subst(x, {big: c1}) for x in nxt); c = sub(c1, ONE)
    else: R.undecided('measuring deviation', 'roles'); return
    mean = [i for i in other if not any(contains_term(nxt[i], phi[j]) for j in other if j != i)]
    if len(mean) != 1 or len(other) != 2: R.undecided('measuring deviation', 'roles %d of %d' % (len(mean), len(other))); return
    mi = mean[0]; si = [i for i in other if i != mi][0]
    mu, M2 = phi[mi], phi[si]
    wm = div(add(mul(mu, c), val), c1)
    settle(R, 'measuring mean', loc, 'the mean of one value more', judge(nxt[mi], wm, assume=bnot(eq(c1, ZERO, 'f'))))
    ws = add(M2, mul(sub(val, mu), sub(val, wm)))
    settle(R, 'measuring deviation', loc, 'the sum of squares of one value more', judge(nxt[si], ws, assume=bnot(eq(c1, ZERO, 'f'))))
    sd = vals.get('standard_deviation')
    if sd is not None and sd.op == 'fn' and sd.a[0] == 'sqrt' and s is not None and n is not None:
        w = div(s, n)
        if sd.a[1] is w: R.ok('deviation')
        else: settle(R, 'deviation', loc, 'the deviation is the root of the mean square', judge(subst(sd.a[1], {s: sym('squares'), n: sym('count')}), div(sym('squares'), sym('count')), assume=bnot(eq(sym('count'), ZERO, 'f'))))
    elif sd is not None and s is not None and n is not None and sd is div(s, n): R.viol('deviation', loc, 'the deviation is the root of the mean square', 'it is the mean square', 'deviation')
    else: R.undecided('deviation', show(sd)[:100] if sd is not None else '')
def printed(F, R):
    """records are shown through the decoder of their own column, below their own name"""
    H = {'record_to_strings': lambda I, e, a, st, this: fn('shown', *[I.freeze(x, st) for x in a])}
    fs = [f for f in F.by_mn.get('record_group_to_strings', []) if f.get('body')]
    if len(fs) == 1:
        f = fs[0]; R.analysed(f); I, st = interp(F, H); D, G = sym('decoders'), sym('values')
        v = I.freeze(I.call(f, None, [D, G], st), st)
        if v.op == 'map' and not I.unk:
            want = fn('shown', fn('at', D, v.a[0]), fn('at', G, v.a[0]))
            if v.a[1] is ZERO and v.a[2] is fn('size', G) and v.a[3] is want: R.ok('shown through its own decoder')
            elif v.a[3].op == 'fn' and v.a[3].a[0] == 'shown' and v.a[3] is not want: R.viol('shown through its own decoder', F.loc(f), 'a value is shown through the decoder of its column', show(v.a[3])[:100], 'decoder')
            elif is_num(v.a[1]) and v.a[1] is not ZERO: R.viol('shown through its own decoder', F.loc(f), 'every value is shown', 'starts at ' + show(v.a[1]), 'every')
            else: R.undecided('shown through its own decoder', show(v)[:100])
        else: R.undecided('shown through its own decoder', '%s %s' % (I.unk[:1], show(v)[:100]))
    fs = [f for f in F.by_mn.get('record_to_strings', []) if f.get('body')]
    if len(fs) == 1:
        f = fs[0]; R.analysed(f); t = sym('t'); d = sym('decoder')
        H = {k: (lambda I, e, a, st, this, k=k: fn(k, *[I.freeze(x, st) for x in a])) for k in ('decode', 'decodeBest', 'decodeImage', 'isText', 'isImage', 'prettyPrintRow')}
        def pp(I, e, a, st, this): I.emit(st, 'shown', [I.freeze(x, st) for x in a if x.op != 'ref'], e); return NONE
        H['prettyPrintRow'] = pp
        I, st = interp(F, H); v = I.freeze(I.call(f, None, [d, t], st), st)
        sh = [e for e in st.eff if e[1] == 'shown']; dec = fn('decode', d, t)
        if len(sh) != 1: R.undecided('shown as it was', '%d rows shown' % len(sh)); return
        if sh[0][2] and sh[0][2][0] is dec: R.ok('shown as it was')
        elif sh[0][2] and sh[0][2][0] is t: R.viol('shown as it was', F.loc(f), 'a number is shown as it was before scaling', 'shown as it is stored', 'shown')
        else: R.undecided('shown as it was', show(T('list', tuple(sh[0][2])))[:100])
