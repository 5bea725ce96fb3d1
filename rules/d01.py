"""D01: a dataset file is read back exactly as written.  The traces of stream operations of the dataset writer and reader (header, column
descriptions, records) are walked in step over symbolic column lists; what every field of every column description and every record
tensor is afterwards is expressed in what was written, and the record position is compared with the size of what precedes the record."""
from iotrace import *
from judge import judge, settle
import t04
NULLP = T('null', ())
WR, RD, COL = 'happyml::BinaryDatasetWriter', 'happyml::BinaryDatasetReader', 'happyml::BinaryColumnMetadata'
FAIL = fn('op!', TRUE)
LISTS = ('given', 'expected')
PURPOSES = 'ILTN'
def clean(t): return subst(t, {FAIL: FALSE})
def text(t):
    """string(data, size of data) is the data"""
    def go(t):
        if not t.a or not any(isinstance(x, T) for x in t.a): return t
        r = rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        if r.op == 'fn' and r.a[0] == 'strctor' and len(r.a) == 3 and same(r.a[2], fn('size', r.a[1])): r = r.a[1]
        return r
    return go(t)
def hooks(pos=None):
    H = Tape().hooks()
    for n in t04.ENC: H[n] = lambda I, e, a, st, this, n=n: fn('enc', string(t04.ENC[n]), *a[:2])
    for n in t04.DEC: H[n] = lambda I, e, a, st, this, n=n: fn('dec', string(t04.DEC[n]), *a[:2])
    def tell(I, e, a, st, this):
        if not isstream(e): return NotImplemented
        I.emit(st, 'tell', (), e); v = sym('position %d' % len(st.eff)); return v
    def seek(I, e, a, st, this):
        if not isstream(e): return NotImplemented
        I.emit(st, 'seek', tuple(a[1:]), e); return a[0]
    for n in ('std.tellg', 'std.tellp'): H[n] = tell
    for n in ('std.seekg', 'std.seekp'): H[n] = seek
    return H
def param(ps, what):
    return [i for i, p in enumerate(ps) if what in p['n'].lower()]
def run(F, R):
    R.rule = 'What the dataset writer puts in a file is walked in step with what the dataset reader takes from it, over column lists and tensors of unknown size.'
    R.notes += ['a read that fails (file cut short) is outside the property', 'the precision a column is kept in is decided by T04/T05; here only position, number and width']
    for c in (WR, RD): R.floor('class ' + c, int(c in F.rec), 1)
    header(F, R); rows(F, R); getters(F, R)
def started(F, cls, nlists, R):
    """object after its constructor"""
    for k in sorted(F.ctors(cls), key=lambda k: -len(k['params'])):
        args, ok = [], True; seen = 0
        for p in k['params']:
            if 'vector' in p['t']:
                which = [l for l in LISTS if l in p['n'].lower()]
                if len(which) != 1: ok = False; break
                args.append(sym(which[0]) if nlists else T('list', ())); seen += 1
            elif 'basic_string' in p['t'] or 'string' in p['t']: args.append(sym('path'))
            else: args.append(ZERO)
        if not ok or (nlists and seen != nlists): continue
        I = Interp(F, hooks=hooks()); I.typed = True; st = St()
        o = I.construct(cls, args, st, k['id'])
        R.analysed(k); R.funcs |= {F.fns[i]['n'] for i in I.inlined if i in F.fns}
        return I, st, o, k
    return None
def header(F, R):
    w, r = started(F, WR, 2, R), started(F, RD, 0, R)
    R.floor('dataset writer and reader constructors', int(w is not None) + int(r is not None), 2)
    if not w or not r: return
    wloc, rloc = F.loc(w[3]), F.loc(r[3])
    W = unthrown(ctree(w[1].eff), clean(w[1].thr)); Rd = unthrown(ctree(r[1].eff), clean(r[1].thr))
    if w[0].unk or r[0].unk: R.undecided('header', 'constructs: %s' % (w[0].unk + r[0].unk)[:2]); return
    c = some_cond(W) or some_cond(Rd)
    if c is not None: R.undecided('header', 'an item is present only if %s' % show(c)[:120]); return
    U = Unify()
    try: U.run(W, Rd)
    except Mismatch as m:
        R.viol('header', rloc, 'the header is read as it is written', str(m), 'header'); return
    R.ok('header layout', '%d fields' % U.n)
    R.floor('header fields', U.n, 20)
    I, st, o, k = r
    fields = [x['n'] for x in F.rec[COL]['fields']]
    for l in LISTS:
        fs = [x['n'] for x in F.rec[RD]['fields'] if l in x['n'] and 'renorm' not in x['n'] and 'vector' in x['t']]
        for fl in fs:
            got = text(U.resolve(clean(I.freeze(I.getf(o, fl, st), st))))
            nm = '%s columns' % l
            if got.op != 'map' or got.a[3].op != 'obj': R.undecided(nm, show(got)[:160]); continue
            bv, lo, hi, ob = got.a
            if not same(lo, ZERO) or not same(hi, fn('size', sym(l))): R.viol(nm, rloc, 'as many columns are read as were written', 'columns %s..%s' % (show(lo), show(hi)), nm); continue
            vals = dict(zip([x if isinstance(x, str) else x.a[0] for x in ob.a[1::2]], ob.a[2::2])); src = fn('at', sym(l), bv)
            for f in fields:
                want, g = fn('.' + f, src), vals.get(f)
                inst = '%s column field %s' % (l, f)
                if g is None: R.viol(inst, rloc, 'every field of a column description is read back', 'the field is not set from the file', inst); continue
                if g is want: R.ok(inst); continue
                if g.op == 'map':
                    v = g.a[3]
                    if same(g.a[1], ZERO) and same(g.a[2], fn('size', want)) and same(v, fn('at', want, g.a[0])): R.ok(inst); continue
                cut = [x for x in walk(g) if x.op == 'fn' and x.a[0] == 'strctor' and len(x.a) == 3]
                if cut and judge(cut[0].a[2], fn('size', cut[0].a[1])).v == 'bad': R.viol(inst, rloc, 'every field of a column description is read back', 'a text of %s characters is made of %s' % (show(cut[0].a[2])[:80], show(cut[0].a[1])[:80]), inst); continue
                opq = {x.a[0] for x in walk(g) if x.op == 'fn' and x.a[0][0] not in '.' and x.a[0] not in ('at', 'size', 'portable')}
                if opq: R.undecided(inst, show(g)[:160]); continue
                R.viol(inst, rloc, 'every field of a column description is read back', 'reads %s' % show(g)[:160], inst)
    # position of the first record, record size and number of records
    io = [e for e in st.eff if e[1] in ('io', 'tell', 'seek')]
    tells = [i for i, e in enumerate(io) if e[1] == 'tell']
    hs = [x['n'] for x in F.rec[RD]['fields'] if 'pos' in x['t'] or 'header' in x['n']]
    good = len(tells) == 1 and tells[0] == len(io) - 1
    got = clean(I.freeze(I.getf(o, hs[0], st), st)) if hs else NONE
    if got.op == 'sym' and got.a[0].startswith('position') and good: R.ok('first record position', 'taken after the last header field')
    elif not tells and got.op != 'none' and 'new:' in show(got)[:4]: R.viol('first record position', rloc, 'records start where the header ends', 'the position is never taken', 'first')
    elif tells and not good and got.op == 'sym': R.viol('first record position', rloc, 'records start where the header ends', 'the position is taken before the header has been read', 'first')
    else: R.undecided('first record position', show(got)[:120])
    rs = [x['n'] for x in F.rec[RD]['fields'] if 'row_size' in x['n'] or 'rowsize' in x['n'].lower()]
    nr = [x['n'] for x in F.rec[RD]['fields'] if 'number_of_rows' in x['n']]
    if rs:
        got = U.resolve(clean(I.freeze(I.getf(o, rs[0], st), st)))
        want = ZERO
        for n, l in enumerate(LISTS):
            b = fresh_bv()
            at = fn('at', sym(l), b); want = add(want, T('sum', (b, ZERO, fn('size', sym(l)), mul(fn('.rows', at), fn('.columns', at), fn('.channels', at), num(4)))))
        settle(R, 'record size', rloc, 'a record is as long as its tensors', judge(got, want))
    if nr and rs and hs:
        got = clean(I.freeze(I.getf(o, nr[0], st), st)); h = clean(I.freeze(I.getf(o, hs[0], st), st)); s = clean(I.freeze(I.getf(o, rs[0], st), st))
        sizes = [x for x in walk(got) if x.op == 'fn' and 'file_size' in x.a[0]]
        if len(sizes) != 1: R.undecided('number of records', show(got)[:160])
        else: settle(R, 'number of records', rloc, 'the number of records is what follows the header divided by the record size', judge(subst(got, {sizes[0]: sym('file'), h: sym('head'), s: sym('record')}), subst(T('idiv', (add(sizes[0], mul(num(-1), h)), s)), {sizes[0]: sym('file'), h: sym('head'), s: sym('record')})))
def unthrown(tr, thr):
    for x in tr: x.cond = subst_thr(x.cond, thr)
    return tr
def ctree(eff):
    return prune([(clean(e[0]),) + tuple(e[1:]) for e in eff])
def prune(eff): return tree([e for e in eff if e[0] is not FALSE])
def some_cond(tr):
    for x in tr:
        if x.cond is not TRUE: return x.cond
        if isinstance(x, Loop):
            c = some_cond(x.body)
            if c is not None: return c
    return None
def purposed(tr, p, extra=None):
    """the trace for columns of one purpose"""
    out = []
    def fix(t):
        m = {x: num(ord(p)) for x in walk(t) if x.op == 'fn' and x.a[0] == '.purpose'}
        if extra: m.update(extra(t))
        return subst(t, m) if m else t
    for x in tr:
        c = fix(x.cond)
        if c is FALSE: continue
        if isinstance(x, Loop):
            y = Loop(x.bv, fix(x.lo), fix(x.hi), c); y.body = purposed(x.body, p, extra)
            if y.body: out.append(y)
        else: out.append(Item(x.kind, fix(x.width), fix(x.val), c, x.loc))
    return out
def total(tr):
    t = ZERO
    for x in tr:
        if isinstance(x, Loop): t = add(t, T('sum', (x.bv, x.lo, x.hi, total(x.body))))
        else: t = add(t, x.width)
    return t
def preset(F, cls, H):
    I = Interp(F, hooks=H); I.typed = True; st = St(); o = I.new_obj(cls, st)
    for x in F.rec[cls]['fields']: I.setf(o, x['n'], sym(x['n']), st)
    return I, st, o
def rows(F, R):
    wf = [f for f in F.by_mn.get('writeRow', []) if f['cls'] == WR and len(f['params']) == 2]
    rf = [f for f in F.by_mn.get('readRow', []) if f['cls'] == RD and len(f['params']) == 1]
    R.floor('record writer and reader', len(wf) + len(rf), 2)
    if not wf or not rf: return
    wf, rf = wf[0], rf[0]; R.analysed(wf); R.analysed(rf); wloc, rloc = F.loc(wf), F.loc(rf)
    # writer
    I, st, o = preset(F, WR, hooks()); caches(F, I, o, st, NULLP); I.inline(wf, o, [sym('given'), sym('expected')], st)
    W = unthrown(ctree(st.eff), clean(st.thr)); unk = list(I.unk)
    R.funcs |= {F.fns[i]['n'] for i in I.inlined if i in F.fns}
    conds = {x.cond for x in W}
    if conds == {TRUE}: R.ok('without duplicate detection every record is written')
    elif not unk:
        for c in conds: settle(R, 'without duplicate detection every record is written', wloc, 'a record is written unless a duplicate was', judge(c, TRUE))
    for x in W: x.cond = TRUE
    caching(F, R, wf, wloc)
    if unk: R.undecided('record', 'constructs: %s' % unk[:2]); return
    for renorm in (False, True):
        I, st, o = preset(F, RD, {**hooks(), 'renormalizeAndStandardize': lambda I, e, a, st, this: fn('renormalized', *[I.freeze(x, st) for x in a])})
        tag = ' renormalized' if renorm else ''
        lists = {l: 'renormalize_%s_metadata_' % l for l in LISTS}
        if not renorm:
            for l in LISTS: I.setf(o, lists[l], T('list', ()), st)
        r = I.inline(rf, o, [sym('index')], st); ret = r[0] if isinstance(r, tuple) else r
        R.funcs |= {F.fns[i]['n'] for i in I.inlined if i in F.fns}
        if I.unk: R.undecided('record read' + tag, 'constructs: %s' % I.unk[:2]); continue
        got = clean(I.freeze(ret, st)); thr = clean(st.thr)
        settle(R, 'reading a record past the end fails' + tag, rloc, 'exactly the records that exist can be read', judge(thr, bnot(lt(sym('index'), sym('number_of_rows_'), True)), nonneg=[sym('index')]))
        seeks = [e for e in st.eff if e[1] == 'seek']; first = [i for i, e in enumerate(st.eff) if e[1] == 'io']
        if len(seeks) != 1 or (first and st.eff.index(seeks[0]) > first[0]): R.undecided('record position' + tag, '%d seeks' % len(seeks))
        else:
            a = seeks[0][2]
            if len(a) > 1 and not (show(a[1]).endswith('beg')): R.viol('record position' + tag, rloc, 'records are found from the start of the file', 'seeks relative to %s' % show(a[1]), 'beg')
            else: settle(R, 'record position' + tag, rloc, 'record n is n records after the header', judge(plus(a[0]), add(sym('header_size_'), mul(sym('index'), sym('row_size_')))))
        Rd0 = [x for x in ctree(st.eff)]
        unthrown(Rd0, thr)
        for p in PURPOSES:
            Rd = purposed(Rd0, p)
            same_shape = lambda t: {x: y for x in walk(t) for y in [column(x)] if y is not None}
            Wp = purposed(W, p, same_shape)
            cc = some_cond(Rd) or some_cond(Wp)
            inst = 'record of columns of purpose %s%s' % (p, tag)
            if cc is not None: R.undecided(inst, 'a part is read only if %s' % show(cc)[:120]); continue
            U = Unify()
            try: U.run(Wp, Rd)
            except Mismatch as m:
                R.viol(inst, rloc, 'a record is read as it is written', str(m), inst); continue
            R.ok(inst, '%d parts' % U.n)
            settle(R, inst + ': size', rloc, 'a record is as long as its tensors', judge(total(Rd), size_of()))
            g = U.resolve(subst(got, {x: num(ord(p)) for x in walk(got) if x.op == 'fn' and x.a[0] == '.purpose'}))
            delivered(R, F, g, inst, rloc, renorm)
def plus(t):
    """stream positions add like numbers"""
    if not t.a or not any(isinstance(x, T) for x in t.a): return t
    r = rebuild(t.op, [plus(x) if isinstance(x, T) else x for x in t.a])
    return add(*r.a[1:]) if r.op == 'fn' and r.a[0] == 'op+' and len(r.a) == 3 else r
def subst_thr(c, thr):
    """conditions under which nothing was thrown"""
    if c.op == 'and':
        return band(*[x for x in c.a if x is not bnot(thr)])
    return TRUE if c is bnot(thr) else c
def column(x):
    if x.op == 'fn' and x.a[0] in ('rows', 'cols', 'chans') and x.a[1].op == 'fn' and x.a[1].a[0] == 'at' and x.a[1].a[1].op == 'sym' and x.a[1].a[1].a[0] in LISTS:
        return fn({'rows': '.rows', 'cols': '.columns', 'chans': '.channels'}[x.a[0]], fn('at', sym(x.a[1].a[1].a[0] + '_metadata_'), x.a[1].a[2]))
    if x.op == 'fn' and x.a[0] == 'size' and x.a[1].op == 'sym' and x.a[1].a[0] in LISTS: return fn('size', sym(x.a[1].a[0] + '_metadata_'))
    return None
def size_of():
    t = ZERO
    for l in LISTS:
        b = fresh_bv(); at = fn('at', sym(l + '_metadata_'), b)
        t = add(t, T('sum', (b, ZERO, fn('size', sym(l + '_metadata_')), mul(fn('.rows', at), fn('.columns', at), fn('.channels', at), num(4)))))
    return t
def delivered(R, F, got, inst, rloc, renorm):
    if got.op != 'fn' or got.a[0] != 'pair': 
        if got.op == 'ite' or got.op != 'fn': R.undecided(inst + ': delivered', show(got)[:120]); return
    for l, part in zip(LISTS, got.a[1:]):
        nm = '%s: %s tensors' % (inst, l)
        if part.op != 'map': R.undecided(nm, show(part)[:120]); continue
        bv, lo, hi, body = part.a
        if not same(lo, ZERO) or not same(hi, fn('size', sym(l + '_metadata_'))): R.viol(nm, rloc, 'one tensor per column is delivered', '%s..%s' % (show(lo), show(hi)), nm); continue
        used = {x for x in walk(body) if x.op == 'fn' and x.a[0] == 'val'}
        src = {(x.a[1].a[1].a[0], x.a[1].a[2] is bv) for x in used if x.a[1].op == 'fn' and x.a[1].a[0] == 'at'}
        if not used: R.undecided(nm, show(body)[:120]); continue
        if src == {(l, True)}: R.ok(nm)
        else: R.viol(nm, rloc, 'the tensor of a column is the one written for it', 'takes %s' % ', '.join(sorted('%s%s' % (a, '' if b else ' of another column') for a, b in src)), nm)
        if not renorm: continue
        calls = [x for x in walk(body) if x.op == 'fn' and x.a[0] == 'renormalized']
        for x in calls:
            for i, y in enumerate(x.a[2:]):
                # first half from the column itself, second half from the column it is matched with
                pass
            meta = [z for y in x.a[2:] for z in walk(y) if z.op == 'fn' and z.a[0] == 'at' and z.a[1].op == 'sym' and z.a[1].a[0].endswith('_metadata_')]
            wrong = [z for z in meta if z.a[2] is not bv or l not in z.a[1].a[0]]
            if wrong: R.viol(nm + ' statistics', rloc, 'a column is renormalized with its own description', 'uses %s for column %s' % (show(wrong[0]), show(bv)), nm)
            else:
                h = len(x.a[2:]) // 2; fs = lambda ys: [y.a[0] if y.op == 'fn' else '?' for y in ys]
                lists = [[z.a[1].a[0] for z in walk(y) if z.op == 'fn' and z.a[0] == 'at' and z.a[1].op == 'sym'] for y in x.a[2:]]
                if fs(x.a[2:2 + h]) != fs(x.a[2 + h:]): R.viol(nm + ' statistics', rloc, 'both descriptions are passed alike', '%s against %s' % (fs(x.a[2:2 + h]), fs(x.a[2 + h:])), nm)
                elif any('renorm' in n for n in sum(lists[:h], [])) or any('renorm' not in n for n in sum(lists[h:], [])): R.viol(nm + ' statistics', rloc, 'the file\'s description comes first', str(lists)[:160], nm)
                else: R.ok(nm + ' statistics')
        if not calls: R.undecided(nm + ' statistics', show(body)[:100])
def caches(F, I, o, st, v):
    for x in F.rec[WR]['fields']:
        if 'ache' in x['t'] or 'ache' in x['n']: I.setf(o, x['n'], v, st)
def caching(F, R, wf, loc):
    """with duplicate detection: the same condition for every part, which is that the cache does not know the record, and the result tells"""
    seen = []
    def contains(I, e, a, st, this):
        if 'ache' not in show(a[0]): return NotImplemented
        seen.append(a[1]); return T('fn', ('known', I.freeze(a[1], st)))
    def insert(I, e, a, st, this):
        if 'ache' not in show(a[0]): return NotImplemented
        I.emit(st, 'remember', (I.freeze(a[1], st),), e); return NONE
    I, st, o = preset(F, WR, {**hooks(), 'contains': contains, 'insert': insert}); caches(F, I, o, st, sym('cache'))
    r = I.inline(wf, o, [sym('given'), sym('expected')], st); ret = r[0] if isinstance(r, tuple) else r
    W = unthrown(ctree(st.eff), clean(st.thr)); conds = {x.cond for x in W}
    if I.unk: R.undecided('duplicate detection', str(I.unk[:2])); return
    if len(conds) > 1: R.viol('record written whole', loc, 'all tensors of a record are written together', '; '.join(show(c)[:60] for c in conds), 'whole'); return
    R.ok('record written whole')
    c = conds.pop() if conds else FALSE
    known = [x for x in walk(c) if x.op == 'fn' and x.a[0] == 'known']
    if not known: R.ok('duplicate detection', 'not used') if c is TRUE else R.undecided('duplicate detection', show(c)[:120]); return
    null = [x for x in walk(c) if x.op in ('teq', 'ieq') and any(y is NULLP for y in x.a)]
    c2 = subst(c, {x: FALSE for x in null})
    settle(R, 'duplicate detection', loc, 'a record is left out exactly when it is known', judge(subst(c2, {known[0]: sym('known')}), bnot(sym('known'))))
    settle(R, 'writing reports whether it wrote', loc, 'the result is whether the record was written', judge(subst(I.freeze(ret, st), {known[0]: sym('known'), **{x: FALSE for x in null}}), bnot(sym('known'))))
    rem = [e for e in st.eff if e[1] == 'remember']
    if not rem: R.undecided('a written record becomes known', 'no record of it'); return
    if all(e[2][0] is known[0].a[1] for e in rem): R.ok('a written record becomes known')
    else: R.viol('a written record becomes known', F.loc(wf), 'the record that was written is remembered', '%s against %s' % (show(rem[0][2][0])[:80], show(known[0].a[1])[:80]), 'remember')
    if 'given' in {x.a[0] for x in walk(known[0].a[1]) if x.op == 'sym'}: R.ok('duplicates are told by the record')
    else: R.viol('duplicates are told by the record', loc, 'what is remembered depends on the record', show(known[0].a[1])[:120], 'hash')
def getters(F, R):
    """accessors of the reader named after a list give the description of that list at that index"""
    fields = [x['n'] for x in F.rec[COL]['fields']]; n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.get('ln') or 0):
        if f.get('cls') != RD or f.get('acc') != 'public' or f.get('ctor') or not f.get('body'): continue
        which = [l for l in LISTS if l in f['mn'].lower()]
        if f['mn'] in ('readRow',) or f['rt'] == 'void': continue
        idx = len(f['params']) == 1
        I, st, o = preset(F, RD, hooks())
        r = I.inline(f, o, [sym('index')] * len(f['params']), st); ret = clean(I.freeze(r[0] if isinstance(r, tuple) else r, st))
        nm, loc = f['n'].replace('happyml::', ''), F.loc(f)
        used = {x.a[1].a[0] for x in walk(ret) if x.op == 'fn' and x.a[0] == 'at' and x.a[1].op == 'sym'} | {x.a[0] for x in walk(ret) if x.op == 'sym' and x.a[0].endswith('metadata_')}
        if not used: continue
        R.analysed(f); n += 1
        if len(which) != 1: 
            if len(which) == 0: which = ['expected']   # is_standardized / is_normalized describe what is predicted
            else: continue
        l = which[0] + '_metadata_'
        if used != {l}: R.viol(nm, loc, 'an accessor describes the list it is named after', 'reads %s' % ', '.join(sorted(used)), nm); continue
        if I.unk: R.undecided(nm, str(I.unk[:2])); continue
        if idx:
            at = fn('at', sym(l), sym('index'))
            settle(R, nm + ': index', loc, 'exactly the columns that exist can be asked for', judge(clean(st.thr), bnot(lt(sym('index'), fn('size', sym(l)), True)), nonneg=[sym('index')]))
            best = ret is at or any(ret is fn('.' + fl, at) for fl in fields) or ret is T('list', tuple(fn('.' + d, at) for d in ('rows', 'columns', 'channels')))
            match = [fl for fl in fields if fl.replace('_', '') in f['mn'].replace('_', '').lower()]
            want = None
            if 'dims' in f['mn'].lower(): want = T('list', tuple(fn('.' + d, at) for d in ('rows', 'columns', 'channels')))
            elif 'metadata' in f['mn']: want = at
            elif len(match) == 1: want = fn('.' + match[0], at)
            if want is None: R.undecided(nm, show(ret)[:100])
            else: settle(R, nm, loc, 'an accessor gives the described field of the column asked for', judge(ret, want))
        else:
            want = fn('size', sym(l)) if 'count' in f['mn'] else sym(l) if 'metadata' in f['mn'] else None
            if want is None and 'name' in f['mn'] and ret.op == 'map':
                ok_ = same(ret.a[1], ZERO) and same(ret.a[2], fn('size', sym(l))) and ret.a[3] is fn('.name', fn('at', sym(l), ret.a[0]))
                R.ok(nm) if ok_ else R.viol(nm, loc, 'an accessor gives the described field of every column', show(ret)[:160], nm)
            elif want is not None: settle(R, nm, loc, 'an accessor gives the list it is named after', judge(ret, want))
            else: R.undecided(nm, show(ret)[:100])
    R.floor('accessors', n, 10)
