"""D04: encoders and decoders.  A value is encoded at the place its position in the source names, a label as the one-hot vector of its place among
the labels, a prediction is decoded with the labels and the scaling of the column it belongs to, and the values given to a prediction are encoded as
the dataset's were."""
from iotrace import *
from judge import judge, settle
N = 'happyml::'
ch, row, col = sym('channel'), sym('row'), sym('column')
def opaque(*names):
    H = {}
    for n in names: H[n] = (lambda I, e, a, st, this, n=n: fn(n, *[I.freeze(x, st) for x in a]))
    return H
BASE = opaque('tensor', 'pixelTensor', 'stringToFloat', 'strip', 'as_float', 'maxIndex', 'topIndices')
BASE['to_string'] = lambda I, e, a, st, this: fn('text', I.freeze(a[0], st))
def obj(F, I, st, cls, pre='', **kw):
    o = I.new_obj(cls, st)
    for x in F.rec[cls]['fields']: I.setf(o, x['n'], sym(pre + x['n']), st)
    for k, v in kw.items(): I.setf(o, k, v, st)
    return o
def interp(F, hooks=BASE):
    I = Interp(F, hooks=hooks); I.handlers = True
    return I, St()
def ones(t):
    """a count of ones is the number of times it is counted"""
    if not any(x.op == 'sum' for x in walk(t)): return t
    m = {}
    for x in walk(t):
        if x.op == 'sum' and len(x.a) == 4 and x.a[1] is ZERO: 
            b = ones(x.a[3])
            if not contains_term(b, x.a[0]): m[x] = mul(ones(x.a[2]), b)
    return subst(t, m)
def element(t, ix):
    """the element of a list of lists at the given place, with the sizes of the lists; None if it is not built element by element"""
    if not ix: return t, ()
    if t.op == 'filln':
        r = element(t.a[1], ix[1:])
        return (r[0], (t.a[0],) + r[1]) if r else None
    if t.op == 'list' and not t.a: return UNSET, (ZERO,)
    if t.op == 'pupd':
        base, v, k = t.a[0], t.a[1], t.a[2]; path = t.a[3 + 3 * k:] if len(t.a) > 3 + 3 * k else None
        loops = [t.a[3 + 3 * i:6 + 3 * i] for i in range(k)]
        if path is None or k != len(path) or len(path) > len(ix): return None
        if any(l[0] is not p for l, p in zip(loops, path)) or any(l[1] is not ZERO for l in loops): return None
        b = element(base, ix)
        if not b: return None
        if any(len(b[1]) > i and b[1][i] is not l[2] for i, l in enumerate(loops)):
            return None
        x = element(subst(v, dict(zip(path, ix))), ix[len(path):])
        return (x[0], tuple(l[2] for l in loops) + x[1]) if x else None
    return None
UNSET = sym('nothing')
def laid(R, inst, loc, v, want, dims, ctor):
    """v is a tensor of ctor built from a list of channels of rows of columns whose elements are `want`"""
    if v.op != 'fn' or v.a[0] not in ('tensor', 'pixelTensor'):
        R.undecided(inst, 'not built from a list: ' + show(v)[:120]); return
    if v.a[0] != ctor: R.viol(inst + ' storage', loc, 'pixels are kept as pixels, numbers as numbers', 'kept by %s' % v.a[0], 'ctor')
    r = element(ones(v.a[1]), (ch, row, col))
    if r is None: R.undecided(inst, 'not built element by element: ' + show(v.a[1])[:160]); return
    settle(R, inst + ' shape', loc, 'the tensor has the channels, rows and columns asked for', judge(T('list', tuple(r[1])), T('list', tuple(dims))))
    for w in want if isinstance(want, (list, tuple)) else [want]:
        vd = judge(r[0], w)
        if vd.v == 'ok': R.ok(inst); return
    if vd.v == 'und' and not {x for x in walk(r[0]) if x.op == 'fn' and x.a[0][:1] == '?'}:
        vd = judge(blind(r[0]), blind(want if isinstance(want, T) else want[0]))
    settle(R, inst, loc, 'each value is found at the place its position names', vd)
NAMED = {}
def blind(t):
    """calls the rule knows by name, as unknowns of their own"""
    m = {}
    for x in walk(t):
        if x.op == 'fn' and x.a[0] in ('stringToFloat', 'as_float', 'strip', 'text'):
            m[x] = NAMED.setdefault(show(x), fn('at', sym(x.a[0]), blindarg(x.a[1])))
    out = t
    for _ in range(3):
        m = {x: fn('at', sym(x.a[0]), x.a[1]) for x in walk(out) if x.op == 'fn' and x.a[0] in ('stringToFloat', 'as_float', 'strip', 'text')}
        if not m: break
        out = subst(out, m)
    return out
def blindarg(t): return t
def dataset(F, R):
    words, rows, cols, chs, trim = [sym(x) for x in ('words', 'rows', 'columns', 'channels', 'trim')]
    w = fn('at', words, add(mul(ch, rows, cols), mul(row, cols), col)); w = ite(trim, fn('strip', w), w)
    for cls, ctor, scale in ((N + 'TextToPixelEncoder', 'pixelTensor', 255), (N + 'TextToScalarEncoder', 'tensor', 1)):
        f = F.method(cls, 'encode', 5); g = F.method(cls, 'calculate_output_shape', 3)
        if not f or not g: R.undecided(cls[9:], 'no encoder'); continue
        R.analysed(f, g); loc = F.loc(f)
        I, st = interp(F); o = obj(F, I, st, cls)
        r = I.freeze(I.call(f, o, [words, rows, cols, chs, trim], st), st)
        if I.unk: R.undecided(cls[9:], 'constructs %s' % I.unk[:2]); continue
        x = fn('stringToFloat', w)
        laid(R, cls[9:], loc, r, divide(x, num(scale)) if scale != 1 else x, (chs, rows, cols), ctor)
        I, st = interp(F); o = obj(F, I, st, cls)
        shape(R, cls[9:], F.loc(g), I.freeze(I.call(g, o, [rows, cols, chs], st), st), T('list', (rows, cols, chs)))
def shape(R, inst, loc, v, want):
    if v.op != 'list' or len(v.a) != 3: R.undecided(inst + ' output shape', show(v)[:100]); return
    settle(R, inst + ' output shape', loc, 'the shape announced is rows, columns, channels of what is encoded', judge(v, want))
def divide(x, n):
    import alg
    return alg.div(x, n)
def category(F, R):
    cls = N + 'TextToUniqueCategoryEncoder'
    f = F.method(cls, 'encode', 5); g = F.method(cls, 'calculate_output_shape', 3)
    if not f or not g: R.undecided('label encoder', 'not found'); return
    R.analysed(f, g); loc = F.loc(f)
    words, rows, cols, chs, trim = [sym(x) for x in ('words', 'rows', 'columns', 'channels', 'trim')]
    mp = [x['n'] for x in F.rec[cls]['fields'] if 'map' in x['t']]
    if len(mp) != 1: R.undecided('label encoder', 'fields'); return
    M = sym(mp[0]); sizeM = fn('size', M)
    I, st = interp(F); o = obj(F, I, st, cls)
    v = I.freeze(I.call(f, o, [words, rows, cols, chs, trim], st), st)
    thr = st.thr
    bad = [u for u in I.unk if u[0] not in ('exit', 'uncounted loop')]
    if bad or v.op != 'fn' or v.a[0] != 'tensor': R.undecided('label encoder', '%s %s' % (bad[:2], show(v)[:100])); return
    t = v.a[1]
    if t.op == 'ite': R.undecided('label encoder', 'depends on ' + show(t.a[0])[:80]); return
    # the marks: a loop over the words which sets one element of each word's row
    if t.op == 'fold' and not (t.a[0].op == 'str'):
        a = t.a; k = (len(a) - 5) // 3; bv, lo, hi = a[:3]; init, phi, nxt, stop = a[3:3 + k], a[3 + k:3 + 2 * k], a[3 + 2 * k:3 + 3 * k], a[-2]
        m = {}
        for q in range(k):
            if nxt[q] is add(phi[q], ONE): m[phi[q]] = sub(add(bv, init[q]), lo)
        lists = [q for q in range(k) if phi[q] not in m]
        if len(lists) != 1: R.undecided('label encoder', 'loop over %d values' % k); return
        q = lists[0]; step = subst(nxt[q], m); base = init[q]; p = phi[q]; stop = subst(stop, m)
        if step.op == 'ite' and step.a[2] is p: R.undecided('label encoder', 'marks some: ' + show(step.a[0])[:100]); return
        if step.op != 'pstore' or step.a[0] is not p: R.undecided('label encoder', show(step)[:120]); return
        val, path = step.a[1], step.a[2:]; loops = (bv, lo, hi)
    elif t.op == 'pupd' and t.a[2] == 1:
        base, val = t.a[0], t.a[1]; loops = t.a[3:6]; path = t.a[6:]; bv, lo, hi = loops; stop = FALSE
    else: R.undecided('label encoder', show(t)[:120]); return
    if len(path) != 3: R.undecided('label encoder', 'sets %d indices' % len(path)); return
    okall = lo is ZERO and hi in (fn('size', words), rows)
    if not okall and is_num(lo): R.viol('label encoder: every word', loc, 'every word is encoded', 'starts at %s' % show(lo), 'every')
    elif not okall: R.undecided('label encoder: every word', '%s..%s' % (show(lo), show(hi)))
    else: R.ok('label encoder: every word')
    settle(R, 'label encoder: value', loc, 'the element of a label is one', judge(val, ONE))
    e = element(base, (ch, row, col))
    if e is None: R.undecided('label encoder: base', show(base)[:100])
    else:
        settle(R, 'label encoder: zeros', loc, 'the other elements are zero', judge(e[0], ZERO))
        settle(R, 'label encoder shape', loc, 'the tensor has the channels, rows and columns asked for', judge(T('list', e[1]), T('list', (chs, rows, cols))))
    word = fn('at', words, bv)
    ix = [fn('at', M, ite(trim, fn('strip', word), word)), ite(trim, fn('at', M, fn('strip', word)), fn('at', M, word))]
    settle(R, 'label encoder: channel', loc, 'a label is encoded in the only channel', judge(path[0], ZERO))
    settle(R, 'label encoder: row', loc, 'a label is encoded in the row of its word', judge(path[1], bv))
    if any(path[2] is x or show(path[2]) == show(x) for x in ix): R.ok('label encoder: column')
    else: settle(R, 'label encoder: column', loc, 'a label is encoded at its place among the labels', judge(blind(path[2]), blind(ix[1])))
    # in bounds: what is left after the throws are the right sizes, or the place is checked
    for inst, cond in (('words', eq(rows, fn('size', words), 'i')), ('channels', eq(ONE, chs, 'i'))):
        got = [x for x in walk(thr) if x is cond]
        if got and subst(thr, {cond: FALSE}) is TRUE: R.ok('label encoder checks its ' + inst)
        elif inst == 'words' and subst(thr, {lt(rows, fn('size', words), True): TRUE}) is TRUE and subst(thr, {lt(fn('size', words), rows, True): TRUE}) is TRUE: R.ok('label encoder checks its ' + inst)
        elif not got: R.viol('label encoder checks its ' + inst, loc, 'a request the labels do not fit is refused', 'accepted with other ' + inst, inst)
        else: R.undecided('label encoder checks its ' + inst, show(thr)[:120])
    c1 = eq(cols, sizeM, 'i'); c2 = lt(path[2], cols, True)
    if subst(thr, {c1: FALSE}) is TRUE or subst(stop, {c2: FALSE}) is TRUE: R.ok('label encoder checks its columns')
    elif not any(x is c1 for x in walk(thr)) and not any(x is c2 for x in walk(stop)): R.viol('label encoder checks its columns', loc, 'a request the labels do not fit is refused', 'accepted with other columns', 'columns')
    else: R.undecided('label encoder checks its columns', show(thr)[:120])
    I, st = interp(F); o = obj(F, I, st, cls)
    s = I.freeze(I.call(g, o, [rows, cols, chs], st), st)
    shape(R, 'label encoder', F.loc(g), s, T('list', (rows, sizeM, ONE)))
    for k in F.ctors(cls):
        if len(k['params']) != 1 or 'TextToUniqueCategoryEncoder' in k['params'][0].get('t', ''): continue
        I, st = interp(F); labels = sym('labels')
        o = I.construct(cls, [labels], st, k['id'])
        m = I.freeze(I.getf(o, mp[0], st), st); R.analysed(k)
        inst = 'label encoder from ' + ('a mapping' if 'map' in k['params'][0]['t'] else 'labels')
        if 'map' in k['params'][0]['t']:
            if m is labels: R.ok(inst)
            elif m.op == 'list' or m.op == 'sym': R.viol(inst, F.loc(k), 'the given places are kept', 'keeps ' + show(m)[:80], 'map')
            else: R.undecided(inst, show(m)[:100])
        else: positions(R, inst, F.loc(k), m, labels)
def positions(R, inst, loc, m, labels):
    if m.op == 'pupd' and m.a[2] == 1 and len(m.a) == 7:
        base, v, _, bv, lo, hi, key = m.a
        if lo is ZERO and hi is fn('size', labels): R.ok(inst + ': every label')
        elif is_num(lo) and hi is fn('size', labels): R.viol(inst + ': every label', loc, 'every label has a place', 'starts at %s' % show(lo), 'every')
        else: R.undecided(inst + ': every label', '%s..%s' % (show(lo), show(hi)))
        settle(R, inst + ': key', loc, 'the key is the label', judge(key, fn('at', labels, bv)))
        settle(R, inst + ': place', loc, 'the place of a label is its position among the labels', judge(v, bv))
    elif m.op == 'list' and not m.a: R.viol(inst, loc, 'every label has a place', 'no label is kept', 'none')
    else: R.undecided(inst, show(m)[:120])
VE, MD = N + 'HappyMLVariantEncoder', N + 'BinaryColumnMetadata'
PURPOSE = {'image': ('I', 'TextToPixelEncoder'), 'number': ('N', 'TextToScalarEncoder'), 'label': ('L', 'TextToUniqueCategoryEncoder')}
def metadata_of(F, I, st, purpose):
    return obj(F, I, st, MD, 'm.', purpose=num(ord(purpose)))
def variant(F, R):
    f = F.method(VE, 'encode', 1)
    fld = [x['n'] for x in F.rec[VE]['fields'] if 'BinaryColumnMetadata' in x['t']]
    if not f or len(fld) != 1: R.undecided('values to predict from', 'no encoder'); return
    R.analysed(f); loc = F.loc(f)
    text = sym('values'); rows, cols, chs = sym('m.rows'), sym('m.columns'), sym('m.channels')
    w = fn('as_float', fn('at', text, add(mul(ch, rows, cols), mul(row, cols), col)))
    def go(p):
        I, st = interp(F); o = obj(F, I, st, VE); I.setf(o, fld[0], metadata_of(F, I, st, p), st)
        return I, st, I.freeze(I.call(f, o, [text], st), st)
    I, st, v = go('I')
    if I.unk: R.undecided('pixels to predict from', '%s' % I.unk[:2])
    else: laid(R, 'pixels to predict from', loc, v, divide(w, num(255)), (chs, rows, cols), 'pixelTensor')
    I, st, v = go('N')
    if I.unk: R.undecided('numbers to predict from', '%s' % I.unk[:2])
    else:
        iss, isn = sym('m.is_standardized'), sym('m.is_normalized')
        core = subst(v, {iss: FALSE, isn: FALSE})
        laid(R, 'numbers to predict from', loc, core, w, (chs, rows, cols), 'tensor')
        scaled(R, 'numbers to predict from', loc, v, core, iss, isn)
    I, st, v = go('L')
    if I.unk: R.undecided('labels to predict from', '%s' % I.unk[:2])
    else:
        if v.op == 'first' and v.a[3] is TRUE: b, thr = subst(v.a[4], {v.a[0]: v.a[1]}), v.a[1]
        else: b, thr = v, ZERO
        L = sym('m.ordered_labels'); t = fn('text', fn('at', text, thr))
        at0 = [x for x in walk(b) if x.op == 'first']
        places = []
        for x in at0:
            i, lo, hi, c, r = x.a
            good = lo is ZERO and hi is fn('size', L) and r is i and c in (eq(fn('at', L, i), t, 't'), eq(t, fn('at', L, i), 't'), eq(fn('at', L, i), t, 'i'))
            places.append((x, good))
        if not places:
            R.undecided('labels to predict from', 'no search: ' + show(b)[:160])
        else:
            bad = [x for x, g in places if not g]
            if bad and len(bad) == len(places): R.undecided('labels to predict from: search', show(bad[0])[:160])
            else: R.ok('labels to predict from: search')
            place = sym('its place')
            m = {x: place for x, g in places if g}
            m2 = {x: TRUE for x in walk(b) if x.op == 'any' and x.a[2] is fn('size', L)}
            bb = subst(subst(b, m2), m) if False else subst(subst(b, m), {subst(k, m): v_ for k, v_ in m2.items()})
            laid(R, 'labels to predict from', loc, bb, [ite(eq(place, col, 'i'), ONE, ZERO), ite(eq(col, place, 'i'), ONE, ZERO)], (chs, rows, cols), 'tensor')
            # unknown labels are refused
            anys = [x for x in walk(st.thr) if x.op == 'any' and x.a[2] is fn('size', L)]
            if anys and all(refuses(st.thr, x) for x in anys): R.ok('unknown label is refused')
            elif not anys: R.viol('unknown label is refused', loc, 'a label the column does not have is refused', 'taken for the first label', 'unknown')
            else: R.undecided('unknown label is refused', show(st.thr)[:120])
    for p, what in (('T', 'text'), ('X', 'a column of unknown purpose')):
        I, st, v = go(p)
        if st.thr is TRUE: R.ok(what + ' is refused')
        else: R.undecided(what + ' is refused', show(st.thr)[:80])
def refuses(thr, x):
    y = subst(thr, {x: FALSE})
    if y is TRUE: return True
    # an empty list of values has nothing to encode and is refused as well
    for q in walk(y):
        if q.op == 'any' and q.a[3] is TRUE:
            if subst(y, {q: TRUE}) is TRUE: return True
    return False
def scaled(R, inst, loc, v, core, iss, isn):
    """standardized first, then normalized, each with the column's own parameters"""
    P = {'mean_': sym('m.mean'), 'std_dev_': sym('m.standard_deviation'), 'min_val_': sym('m.min_value'), 'max_val_': sym('m.max_value')}
    for s_, n_ in ((True, False), (False, True), (True, True)):
        x = subst(v, {iss: boolean(s_), isn: boolean(n_)}); names = []
        y = x; okp = True; und = False
        while y.op == 'obj' and y is not core:
            f = fields(y); names.append(y.a[0][9:])
            for k, w in P.items():
                if k in f and f[k] is not w:
                    okp = False
                    R.viol('%s %s %s %s' % (inst, k, s_, n_), loc, 'scaled with the parameters of the column', '%s is %s' % (k, show(f[k])), k)
            if 'child_' not in f: und = True; break
            y = f['child_']
        want = ['NormalizeTensorView'] * n_ + ['StandardizeTensorView'] * s_
        tag = '%s: scaling %s%s' % (inst, 'standardized ' * s_, 'normalized' * n_)
        if und or y is not core: R.undecided(tag, show(x)[:120])
        elif names != want: R.viol(tag, loc, 'a number is standardized, then normalized, as the column is', 'goes through ' + ', '.join(reversed(names)), tag)
        elif okp: R.ok(tag)
def fields(o): return {o.a[i] if isinstance(o.a[i], str) else o.a[i].a[0]: o.a[i + 1] for i in range(1, len(o.a) - 1, 2)}
def decoders(F, R):
    cls = N + 'BestTextCategoryDecoder'
    best, top = F.method(cls, 'decodeBest', 1), F.method(cls, 'decodeTop', 2)
    lab = [x['n'] for x in F.rec[cls]['fields'] if 'vector' in x['t']]
    if not best or not top or len(lab) != 1: R.undecided('label decoder', 'not found'); return
    R.analysed(best, top); L = sym(lab[0])
    t, n = sym('t'), sym('n')
    def go(f, args):
        I, st = interp(F); o = obj(F, I, st, cls)
        return I, st, I.freeze(I.call(f, o, args, st), st)
    I, st, v = go(best, [t])
    ix = fn('maxIndex', t); want = fn('at', L, ix)
    byrow = [x for x in walk(v) if x.op == 'fn' and x.a[0] in ('maxIndexByRow', 'c:maxIndexByRow')]
    if v is want or show(v) == show(want): R.ok('best label')
    elif v.op == 'fn' and v.a[0] == 'at' and v.a[1] is L: settle(R, 'best label', F.loc(best), 'the best label is that of the greatest value', judge(rename(v), rename(want)))
    else: R.undecided('best label', show(v)[:120])
    bounds(R, 'best label', F.loc(best), st.thr, ix, L)
    I, st, v = go(top, [t, n]); tops = fn('topIndices', t, n, ZERO, ZERO)
    if v.op == 'map' and v.a[1] is ZERO and v.a[2] is fn('size', tops):
        b = v.a[3]; ix = b.a[2] if b.op == 'fn' and b.a[0] == 'at' and b.a[1] is L else None
        item = fn('at', tops, v.a[0])
        if ix is None: R.undecided('best labels', show(b)[:120])
        elif show(ix) == show(fn('.index', item)) or ix.op == 'fn' and ix.a[0].lower().lstrip('.c:') in ('getindex', 'index', 'index_') and ix.a[1] is item: R.ok('best labels')
        elif show(ix).find(show(item)) < 0: R.viol('best labels', F.loc(top), 'the best labels are those of the greatest values', 'label ' + show(ix)[:80], 'top')
        else: R.undecided('best labels', show(ix)[:100])
        if ix is not None:
            thr = st.thr
            if thr.op in ('any', 'anyi') and thr.a[1] is ZERO and thr.a[2] is fn('size', tops): bounds(R, 'best labels', F.loc(top), subst(thr.a[3], {thr.a[0]: v.a[0]}), ix, L)
            else: bounds(R, 'best labels', F.loc(top), thr, ix, L)
    else:
        tp = [x for x in walk(v) if x.op == 'fn' and x.a[0] == 'topIndices']
        if tp and tp[0] is not tops: settle(R, 'best labels', F.loc(top), 'the best labels are those of the first row', judge(T('list', tp[0].a[1:]), T('list', tops.a[1:])))
        else: R.undecided('best labels', show(v)[:120])
    # numbers: the scaling is undone in the opposite order
    cls = N + 'RawDecoder'; f = F.method(cls, 'decode', 1)
    ks = [k for k in F.ctors(cls) if len(k['params']) == 6]
    if not f or len(ks) != 1: R.undecided('number decoder', 'not found'); return
    R.analysed(f, ks[0]); loc = F.loc(f)
    build_dec(F, R)
def rename(t):
    return subst(t, {x: fn('at', sym(x.a[0]), *x.a[1:2]) for x in walk(t) if x.op == 'fn' and x.a[0] in ('maxIndex',)})
def bounds(R, inst, loc, thr, ix, L):
    c = lt(ix, fn('size', L), True)
    if subst(thr, {c: FALSE}) is TRUE: R.ok(inst + ' in bounds')
    elif not contains_term(thr, fn('size', L)): R.viol(inst + ' in bounds', loc, 'a prediction with more values than labels is refused', 'reads past the labels', 'bounds')
    else:
        cs = [x for x in walk(thr) if x.op in ('ilt', 'flt') and contains_term(x, fn('size', L))]
        if len(cs) == 1 and thr is cs[0] or len(cs) == 1 and thr is bnot(cs[0]):
            settle(R, inst + ' in bounds', loc, 'a prediction with more values than labels is refused', judge(rename(thr), rename(bnot(c))))
        else: R.undecided(inst + ' in bounds', show(thr)[:100])
def build_dec(F, R):
    fs = [f for f in F.by_mn['build_decoder'] if f.get('body')]
    if len(fs) != 1: R.undecided('decoder of a column', 'not found'); return
    f = fs[0]; R.analysed(f); loc = F.loc(f); t = sym('t')
    for p, cls in (('L', 'BestTextCategoryDecoder'), ('N', 'RawDecoder'), ('I', 'ImageDecoder'), ('T', 'RawDecoder')):
        for raw in (False, True):
            I, st = interp(F); md = metadata_of(F, I, st, p)
            d = I.call(f, None, [boolean(raw), md], st)
            inst = 'decoder of %s column%s' % (p, ' (raw)' if raw else '')
            if d.op != 'ref' or I.unk: R.undecided(inst, '%s %s' % (I.unk[:2], show(d)[:80])); continue
            got = st.heap[d.a[0]][0][9:]
            want = 'RawDecoder' if raw else cls
            if got == want: R.ok(inst)
            else: R.viol(inst, loc, 'a column is decoded as what it holds', 'decoded by ' + got, inst); continue
            if p == 'L' and not raw:
                lab = [v for v in st.heap[d.a[0]][1].values() if v is sym('m.ordered_labels')]
                if lab: R.ok(inst + ' labels')
                else: R.viol(inst + ' labels', loc, "a label column is decoded with the column's labels", str([show(x)[:60] for x in st.heap[d.a[0]][1].values()])[:120], inst)
            if p == 'N':
                dec = F.method(N + 'RawDecoder', 'decode', 1)
                v = I.freeze(I.call(dec, d, [t], st), st)
                iss, isn = sym('m.is_standardized'), sym('m.is_normalized')
                P = {'mean_': sym('m.mean'), 'std_dev_': sym('m.standard_deviation'), 'min_val_': sym('m.min_value'), 'max_val_': sym('m.max_value')}
                for s_, n_ in ((False, False), (True, False), (False, True), (True, True)):
                    x = subst(v, {iss: boolean(s_), isn: boolean(n_)}); names = []; ok = True
                    while x.op == 'obj':
                        fl = fields(x); names.append(x.a[0][9:])
                        for k, w in P.items():
                            if k in fl and fl[k] is not w: ok = False; R.viol('%s %s' % (inst, k), F.loc(dec), 'scaling is undone with the parameters of the column', '%s is %s' % (k, show(fl[k])), k)
                        if 'child_' not in fl: break
                        x = fl['child_']
                    want = ([] if raw else ['UnstandardizeTensorView'] * s_ + ['DenormalizeTensorView'] * n_)
                    tag = inst + ': undoing %s%s' % ('standardization ' * s_, 'normalization' * n_)
                    if x is not t: R.undecided(tag, show(x)[:100])
                    elif names != want: R.viol(tag, F.loc(dec), 'a normalized, then unstandardized number is what it was', 'goes through %s' % (', '.join(reversed(names)) or 'nothing'), tag)
                    elif ok: R.ok(tag)
    # the decoders of a dataset are those of its columns in order
    for n in ('build_given_decoders', 'build_given_encoders', 'build_expected_decoders'):
        for f in [f for f in F.by_mn[n] if f.get('body')]:
            R.analysed(f); kind = 'given' if 'given' in n else 'expected'; isds = any('BinaryDataSet>' in p['t'] or p['t'].endswith('BinaryDataSet') for p in f['params'])
            H = dict(BASE)
            for k in ('given', 'expected'):
                H['get_%s_column_count' % k] = lambda I, e, a, st, this, k=k: fn('size', sym(k))
                H['get_%s_metadata' % k] = lambda I, e, a, st, this, k=k: fn('at', sym(k), a[1])
                H['get%sMetadata' % k.capitalize()] = lambda I, e, a, st, this, k=k: sym(k)
            H['build_decoder'] = lambda I, e, a, st, this: fn('decoder', *[I.freeze(x, st) for x in a])
            H[VE] = lambda I, e, a, st, this: fn('encoder', *[I.freeze(x, st) for x in a])
            I, st = interp(F, H); args = [sym('raw') if p['t'].startswith('bool') or p['t'] == 'bool' else sym('ds') for p in f['params']]
            v = I.freeze(I.call(f, None, args, st), st); inst = n + (' of a dataset' if isds else '')
            src = sym(kind)
            if v.op == 'map' and not I.unk:
                item = fn('at', src, v.a[0]); want = fn('encoder', item) if 'encoders' in n else fn('decoder', sym('raw'), item)
                if v.a[1] is ZERO and v.a[2] is fn('size', src) and show(v.a[3]) == show(want): R.ok(inst)
                elif is_num(v.a[1]) and v.a[1] is not ZERO: R.viol(inst, F.loc(f), 'every column has its own', 'starts at %s' % show(v.a[1]), inst)
                elif v.a[2].op == 'fn' and v.a[2].a[0] == 'size' and v.a[2].a[1].op == 'sym' and v.a[2] is not fn('size', src): R.viol(inst, F.loc(f), 'one for each %s column' % kind, 'one for each of ' + show(v.a[2].a[1]), inst)
                elif v.a[3].op == 'fn' and v.a[3].a[0] in ('encoder', 'decoder') and v.a[3].a[-1].op == 'fn' and v.a[3].a[-1].a[0] == 'at' and v.a[3].a[-1] is not item: R.viol(inst, F.loc(f), 'that of the column itself', 'built from ' + show(v.a[3].a[-1])[:80], inst)
                else: R.undecided(inst, show(v)[:120])
            else: R.undecided(inst, '%s %s' % (I.unk[:1], show(v)[:100]))
def onehot(F, R):
    for n, params in (('one_hot_encode_bpe_tokens', 2), ('one_hot_encode_characters', 1), ('one_hot_encode_words', 2)):
        fs = [f for f in F.by_mn[n] if f.get('body') and len(f['params']) == params]
        if len(fs) != 1: R.undecided(n, 'not found'); continue
        f = fs[0]; R.analysed(f); loc = F.loc(f)
        I, st = interp(F); tokens, aux = sym('tokens'), sym('aux')
        v = I.freeze(I.call(f, None, [tokens, aux][:params], st), st)
        if I.unk: R.undecided(n, '%s' % I.unk[:2]); continue
        if n.endswith('words'): m, item = v, None
        else:
            m = v.a[-3] if v.op == 'fold' and len(v.a) == 8 and v.a[1] is ZERO and v.a[2] is fn('size', tokens) and v.a[3].op == 'list' and not v.a[3].a else None
            if m is None:
                if v.op == 'fold' and is_num(v.a[1]) and v.a[1] is not ZERO: R.viol(n + ': every token', loc, 'every token is encoded', 'starts at ' + show(v.a[1]), n)
                else: R.undecided(n, show(v)[:120])
                continue
            tok = fn('at', tokens, v.a[0])
            m = m.a[1] if m.op == 'cat' and m.a[0] is v.a[4] else None
        if m is None or m.op != 'map': R.undecided(n, show(v)[:120]); continue
        src = tokens if n.endswith('words') else tok
        if m.a[1] is ZERO and m.a[2] is fn('size', src): R.ok(n + ': every token')
        elif is_num(m.a[1]) and m.a[1] is not ZERO: R.viol(n + ': every token', loc, 'every token is encoded', 'starts at ' + show(m.a[1]), n); continue
        else: R.undecided(n + ': every token', show(m)[:100]); continue
        c = fn('at', src, m.a[0]); b = m.a[3]
        ch_ = fn('tou8', c)
        if n.endswith('words'): n_, key = fn('size', aux), fn('at', aux, c); size = n_
        elif n.endswith('characters'): key, size = ch_, None
        else: key, size = c, aux
        # under the condition the element is set it is inside the vector
        sets = [x for x in walk(b) if x.op == 'pstore']
        if len(sets) != 1 or sets[0].a[0].op != 'filln' or len(sets[0].a) != 3:
            if not sets and b.op == 'filln': R.viol(n + ': one', loc, 'the element of a token is one', 'nothing is set', n)
            else: R.undecided(n, show(b)[:120])
            continue
        s = sets[0]; base, val, ix = s.a
        settle(R, n + ': one', loc, 'the element of a token is one', judge(val, ONE))
        settle(R, n + ': zeros', loc, 'the others are zero', judge(base.a[1], ZERO))
        if size is not None: settle(R, n + ': size', loc, 'a vector has an element for each code', judge(base.a[0], size))
        if ix is key: R.ok(n + ': place')
        elif n.endswith('characters') and ix is c: R.viol(n + ': place', loc, 'a character is encoded at its place', 'characters above 127 index before the vector', n)
        else: settle(R, n + ': place', loc, 'a token is encoded at its place', judge(ix, key))
        if n.endswith('words'):
            cnt = [x for x in walk(b) if x.op == 'fn' and x.a[0] in ('s:count', 'count', 's:contains') and x.a[1] is aux and x.a[2] is c]
            if cnt and subst(b, {cnt[0]: ZERO}).op == 'filln' and subst(b, {cnt[0]: ONE}).op == 'pstore': R.ok(n + ': unknown token')
            elif any(y.op == 'fn' and y.a[0] in ('in', 'has') for y in walk(b)) or cnt: R.undecided(n + ': unknown token', show(b)[:120])
            else: R.viol(n + ': unknown token', loc, 'a token without a code has no element', show(b)[:100], n)
            continue
        if b.op == 'pstore': 
            if n.endswith('characters') and is_num(base.a[0]) and base.a[0].a[0] >= 256: R.ok(n + ': in bounds')
            else: R.viol(n + ': in bounds', loc, 'a code the encoding does not have sets nothing', 'sets the element whatever the code', n)
        elif b.op == 'ite' and (b.a[1] is s and b.a[2] is base or b.a[2] is s and b.a[1] is base):
            cond = b.a[0] if b.a[1] is s else bnot(b.a[0])
            settle(R, n + ': in bounds', loc, 'an element is set exactly if the vector has it', judge(cond, lt(ix, base.a[0], True)))
        else: R.undecided(n + ': in bounds', show(b)[:120])
def columns(F, R):
    """a dataset made from a text file: which encoder, purpose, labels, shape and part of the record each column gets"""
    fs = [f for f in F.by_mn['create_binary_dataset_from_delimited_values'] if f.get('body')]
    if len(fs) != 1: R.undecided('creating a dataset', 'not found'); return
    f = fs[0]; R.analysed(f); loc = F.loc(f)
    if len(f['params']) != 7: R.undecided('creating a dataset', 'parameters'); return
    CG = N + 'ColumnGroup'
    cgf = {x['n'] for x in F.rec[CG]['fields']}
    if not {'data_type_', 'use_', 'rows_', 'columns_', 'channels_', 'start_index_', 'source_column_count_', 'label_'} <= cgf: R.undecided('creating a dataset', 'fields of a column group'); return
    def emit(name, ret=None):
        def h(I, e, a, st, this):
            v = [I.freeze(x, st) for x in a]; I.emit(st, name, v, e)
            return fn(name, *v) if ret is None else ret
        return h
    for use in (('given', 'given', 'expected'), ('expected', 'expected', 'given')):
        H = {'exists': lambda I, e, a, st, this: TRUE, 'create_directories': lambda I, e, a, st, this: NONE, 'get_distinct_values': lambda I, e, a, st, this: fn('distinct', *[I.freeze(x, st) for x in a]),
             'hasNext': lambda I, e, a, st, this: sym('more'), 'nextRecord': lambda I, e, a, st, this: sym('record'), 'encode': emit('encode'), 'writeRow': emit('writeRow', TRUE),
             'is_open': lambda I, e, a, st, this: TRUE, 'close': lambda I, e, a, st, this: NONE, 'rowCount': lambda I, e, a, st, this: sym('count'),
             N + 'BinaryDatasetWriter': emit('writer'), N + 'DelimitedTextFileReader': emit('reader'), N + 'BinaryDatasetReader': emit('check')}
        I, st = interp(F, H); G = []
        kinds = ('image', 'number', 'label')
        for k, (d, u) in enumerate(zip(kinds, use)):
            o = I.new_obj(CG, st)
            for x in F.rec[CG]['fields']: I.setf(o, x['n'], sym('%s %s' % (d, x['n'])), st)
            I.setf(o, 'data_type_', string(d), st); I.setf(o, 'use_', string(u), st); G.append(o)
        groups = T('list', tuple(G)); path = string('file')
        vs = {'char': sym('delimiter'), 'bool': sym('header')}; args = []; strs = [string('new'), path]
        for p in f['params']:
            t = p['t']
            args.append(groups if 'ColumnGroup' in t else vs['char'] if t == 'char' else vs['bool'] if t in ('bool', '_Bool') else sym('bpe') if 'BytePair' in t else strs.pop(0))
        I.call(f, None, args, st)
        W = [e for e in st.eff if e[1] == 'writer']; E = [e for e in st.eff if e[1] == 'encode']; RW = [e for e in st.eff if e[1] == 'writeRow']
        tag = 'creating a dataset (%s label): ' % use[2]
        if not W or len(W[0][2]) < 3 or any(x.op != 'list' for x in W[0][2][1:3]): R.undecided(tag + 'columns', show(W[0][2][1])[:100] if W else 'no writer'); continue
        given, expected = W[0][2][1], W[0][2][2]; sides = {'given': list(given.a), 'expected': list(expected.a)}
        order = {'given': [k for k, u in zip(kinds, use) if u == 'given'], 'expected': [k for k, u in zip(kinds, use) if u == 'expected']}
        labels = fn('distinct', path, sym('delimiter'), sym('label start_index_'), sym('header'), TRUE)
        code = {k: num(ord(PURPOSE[k][0])) for k in kinds}
        byk = {}
        for side in ('given', 'expected'):
            if len(sides[side]) != len(order[side]): R.viol(tag + side + ' columns', loc, 'every column is on the side its use names', '%d %s columns of %d' % (len(sides[side]), side, len(order[side])), side); continue
            R.ok(tag + side + ' columns')
            for m, k in zip(sides[side], order[side]):
                if m.op != 'obj': R.undecided(tag + k, show(m)[:80]); continue
                fl = fields(m); byk[k] = fl
                if fl.get('purpose') is code[k]: R.ok(tag + k + ' purpose')
                else: R.viol(tag + k + ' purpose', loc, 'a column is recorded as what it holds', 'purpose %s' % show(fl.get('purpose', UNSET)), k + ' purpose') if is_num(fl.get('purpose', UNSET)) else R.undecided(tag + k + ' purpose', show(fl.get('purpose', UNSET))[:80])
        if any(l.op != 'bool' and False for l in ()): pass
        # the first pass over a record
        seen = {}
        for e in E:
            o = e[2][0]
            if o.op == 'obj':
                for k in kinds:
                    src = [x for x in walk(e[2][1]) if x.op == 'sym' and x.a[0].endswith(' start_index_')]
                    if src and src[0].a[0].startswith(k): seen.setdefault(k, e)
        for k in kinds:
            if k not in seen:
                R.undecided(tag + k + ' encoder', 'not encoded'); continue
            e = seen[k]; o, data, rows, cols, chs, trim = e[2][:6]
            got = o.a[0][9:]
            if got == PURPOSE[k][1]: R.ok(tag + k + ' encoder')
            else: R.viol(tag + k + ' encoder', loc, 'a column is encoded as what it holds', '%s encoded by %s' % (k, got), k); continue
            start, cnt = sym(k + ' start_index_'), sym(k + ' source_column_count_')
            if data.op == 'map':
                settle(R, tag + k + ' words', loc, "a column's words are those from its start", judge(data.a[3], fn('at', sym('record'), add(start, data.a[0]))))
                settle(R, tag + k + ' word count', loc, 'a column has as many words as its source columns', judge(data.a[2], cnt) if data.a[1] is ZERO else judge(data.a[1], ZERO))
            else: R.undecided(tag + k + ' words', show(data)[:100])
            if trim is TRUE: R.ok(tag + k + ' trimmed')
            else: R.viol(tag + k + ' trimmed', loc, 'words are trimmed, as the labels are', show(trim), k) if k == 'label' and trim is FALSE else R.ok(tag + k + ' trimmed')
            fl = byk.get(k)
            if not fl: continue
            # what the encoder is asked for is what the metadata says
            pr = [(n_, fl.get(n_), w) for n_, w in (('rows', rows), ('columns', cols), ('channels', chs))]
            for n_, x, w in pr:
                if x is not None and show(x) == show(w): R.ok(tag + '%s %s' % (k, n_))
                elif x is not None and (x.op in ('sym', 'num')) and w.op in ('sym', 'num', 'fn'): R.viol(tag + '%s %s' % (k, n_), loc, 'the recorded shape is that of what is written', 'recorded %s, written %s' % (show(x), show(w)[:60]), k + n_)
                else: R.undecided(tag + '%s %s' % (k, n_), '%s / %s' % (show(x)[:60] if x else None, show(w)[:60]))
            if k == 'label':
                sz = [x for x in walk(cols) if x.op == 'fn' and x.a[0] == 'size']
                if sz and cols is sz[0]: R.ok(tag + 'label width')
                elif cols.op in ('sym', 'num'): R.viol(tag + 'label width', loc, 'a label column is as wide as it has labels', 'asks for ' + show(cols), 'label width')
                else: R.undecided(tag + 'label width', show(cols)[:80])
                settle(R, tag + 'label channels', loc, 'a label column has one channel', judge(chs, ONE))
                mp = fields(o).get('categoryMapping')
                if mp is None: mp = list(fields(o).values())[0]
                src = mp.a[5].a[1] if mp.op == 'pupd' and mp.a[2] == 1 and mp.a[5].op == 'fn' and mp.a[5].a[0] == 'size' else None
                rec = fl.get('ordered_labels')
                if src is None: R.undecided(tag + 'labels', show(mp)[:100])
                elif rec is src: R.ok(tag + 'labels')
                elif rec.op in ('list', 'sym') or rec.op == 'fn' and rec.a[0] == 'distinct': R.viol(tag + 'labels', loc, 'the labels recorded are those encoded, in their order', 'recorded %s' % show(rec)[:80], 'labels')
                else: R.undecided(tag + 'labels', show(rec)[:100])
                if src is not None and src.op == 'fn' and src.a[0] == 'distinct':
                    if src is labels: R.ok(tag + 'distinct values')
                    else: settle(R, tag + 'distinct values', loc, 'the labels are the distinct trimmed values of the column itself', judge(T('list', src.a[1:]), T('list', labels.a[1:])))
                else: R.undecided(tag + 'distinct values', show(src)[:80] if src else '')
            s = fl.get('source_column_count')
            if s is cnt: R.ok(tag + k + ' source columns')
            else: R.viol(tag + k + ' source columns', loc, 'the number of source columns is recorded', show(s)[:60] if s else 'not recorded', k + ' source') if s is None or s.op in ('num', 'sym') else R.undecided(tag + k + ' source columns', show(s)[:60])
        if RW:
            g, x = RW[0][2][-2:]
            for side, l in (('given', g), ('expected', x)):
                got = []
                for t in l.a if l.op == 'list' else ():
                    ks = [k for k in kinds if k in seen and t.op == 'fn' and t.a[0] == 'encode' and same_words(t, seen[k])]
                    got.append(ks[0] if ks else '?')
                if l.op != 'list' or '?' in got: R.undecided(tag + side + ' row', show(l)[:80])
                elif got == order[side]: R.ok(tag + side + ' row')
                else: R.viol(tag + side + ' row', loc, 'a row has the values of its columns in the order of the columns', '%s instead of %s' % (got, order[side]), side)
        else: R.undecided(tag + 'row', 'no row is written')
def same_words(t, e): return show(t.a[2]) == show(e[2][1])
def run(F, R):
    R.rule = 'Each encoder, decoder and the building of a dataset is reduced to the value of every element it produces; element, shape, parameters and bounds are compared with their definitions.'
    R.floor('functions building decoders', len([f for f in F.by_mn.get('build_decoder', []) if f.get('body')]), 1)
    R.notes += ['text columns are not implemented by the repository and are refused', 'the storage of pixels (8 bit) and of numbers is that of T05', 'which element is greatest is T06']
    dataset(F, R); category(F, R); variant(F, R); decoders(F, R); onehot(F, R); columns(F, R)
