"""D03: a pass over a dataset visits each record once.  Every dataset is a transition system over its cursor: nextRecord, restart and recordCount
are interpreted with every field unknown, and the transition they make is compared with the one that visits positions 0..n-1 once each; a shuffler
is a permutation of those positions; the ends of a split are compared with the ones that neither overlap nor leave a gap; the line reader behind
the text datasets hands out every line it takes from a file."""
from d04 import *
import judge as J_
def judge(a, b):
    v = J_.judge(a, b)
    return v if v.v != 'und' else J_.judge(seen(a), seen(b))
def seen(t):
    """positions in a shuffled order, as elements of it"""
    for _ in range(4):
        m = {x: fn('at', x.a[1], x.a[2]) for x in walk(t) if x.op == 'fn' and x.a[0] == 'getShuffledIndex'}
        if not m: break
        t = subst(t, m)
    return t
NULL = T('null', ())
def note(n):
    def h(I, e, a, st, this):
        I.emit(st, n, [I.freeze(x, st) for x in a], e); return fn('none')
    return h
H = dict(BASE); H.update(opaque('getShuffledIndex', 'readRow', 'is_open', 'rowCount', 'getSize'))
H['shuffle_predictably'] = note('fixed shuffle'); H['shuffle'] = note('random shuffle')
H[N + 'BinaryDatasetReader'] = lambda I, e, a, st, this: fn('reader', *[I.freeze(x, st) for x in a])
DS = N + 'TrainingDataSet'
def fields(I, o, st): return {k: I.freeze(v, st) for k, v in st.heap[o.a[0]][1].items()}
def known(t, facts):
    """t where the conditions in `facts` (term -> TRUE/FALSE) are known"""
    for _ in range(4):
        m = {x: v for x in walk(t) for k, v in facts.items() if x is k}
        n = subst(t, m)
        if n is t: break
        t = n
    return t
def run1(F, f, cls, args, shuffler, hooks=H):
    I, st = interp(F, hooks); o = obj(F, I, st, cls)
    I.setf(o, 'shuffler_', shuffler, st)
    before = fields(I, o, st)
    v = I.freeze(I.call(f, o, args, st), st)
    return I, st, o, v, before, fields(I, o, st)
def rowread(t): return {x for x in walk(t) if x.op == 'fn' and x.a[0] == 'readRow'}
def cursor(F, R, cls):
    short = cls[9:]; nx, rs, rc = [F.method(cls, m, 0) for m in ('nextRecord', 'restart', 'recordCount')]
    if not (nx and rs and rc): R.undecided(short, 'no nextRecord, restart or recordCount'); return
    R.analysed(nx, rs, rc); loc = F.loc(nx); S = sym('shuffler')
    I, st, o, n, _, after = run1(F, rc, cls, [], S)
    changed = [k for k in after if after[k] is not _.get(k)]
    if I.unk: R.undecided(short + ' count', '%s' % I.unk[:2]); return
    if changed: R.viol(short + ' count', F.loc(rc), 'asking for the count changes nothing', 'changes %s' % changed, 'pure')
    sizes = {}
    for shuffled in (False, True):
        inst = short + (' shuffled' if shuffled else '')
        I, st, o, v, before, after = run1(F, nx, cls, [], S if shuffled else NULL)
        bad = [u for u in I.unk if u[0] != 'exit']
        if bad: R.undecided(inst, '%s' % bad[:2]); continue
        nn = {x: boolean(not shuffled) for x in list(walk(v)) + [y for t in after.values() for y in walk(t)] + list(walk(st.thr)) if x.op in ('teq', 'ieq', 'feq') and NULL in x.a and (S in x.a or x.a[0] is NULL and x.a[1] is NULL)}
        fix = lambda t: known(t, nn)
        v = fix(v); after = {k: fix(t) for k, t in after.items()}; thr = fix(st.thr)
        moved = [k for k in after if k in before and after[k] is not before[k] and k != 'shuffler_']
        if v.op == 'null':
            if n is ZERO and not moved: R.ok(inst); continue
            R.viol(inst, loc, 'a record is delivered while any is left', 'always reports the end with a count of %s' % show(n)[:60], 'none'); continue
        cs = [k for k in moved if any(x['n'] == k and ('size_t' in x['t'] or 'long' in x['t'] or 'int' in x['t']) for x in F.rec[cls]['fields'])]
        if not cs:
            R.viol(inst, loc, 'the position moves on with each record', 'no position changes' , 'moves') if not moved else R.undecided(inst, 'moves %s' % moved)
            continue
        if len(cs) != 1: R.undecided(inst, 'moves %s' % cs); continue
        cur = cs[0]; c = sym(cur)
        for k in moved:
            if k != cur: R.viol(inst + ' ' + k, loc, 'delivering a record moves the position and nothing else', '%s becomes %s' % (k, show(after[k])[:100]), 'else')
        left = lt(c, n, True)
        # the pairs of a dataset kept in memory are never null (they are made by the functions which add them)
        at = {x for x in walk(v) if x.op == 'fn' and x.a[0] == 'at'}
        solid = {x: TRUE for t in after.values() for y in walk(t) if y.op == 'ite' for x in [y.a[0]] if x in at}
        solid.update({y: FALSE for t in list(after.values()) + [v] for y in walk(t) if y.op in ('teq', 'ieq', 'feq') and NULL in y.a and [z for z in y.a if z in at]})
        # is the end reported exactly when nothing is left
        def ends(t):
            if t is NULL: return TRUE
            if t.op == 'ite': return alg_ite(t.a[0], ends(t.a[1]), ends(t.a[2]))
            return FALSE
        e = known(ends(v), solid)
        settle(R, inst + ' end', loc, 'the end is reported exactly when no record is left', judge(e, neg(left)))
        settle(R, inst + ' next', loc, 'the position moves on by one with each record delivered', judge(known(after[cur], solid), ite(left, add(c, ONE), c)))
        if thr is not FALSE:
            t = judge(thr, FALSE)
            settle(R, inst + ' throws', loc, 'delivering a record does not fail', t)
        pos = fn('getShuffledIndex', S, c) if shuffled else c
        rows = rowread(v)
        if rows:
            ix = {x.a[2] for x in rows if len(x.a) > 2}
            first = [k['n'] for k in F.rec[cls]['fields'] if 'first' in k['n']]
            if len(ix) != 1 or len(first) != 1: R.undecided(inst + ' record', '%d rows, fields %s' % (len(ix), first)); continue
            ix = fix(next(iter(ix))); want = add(pos, sym(first[0]))
            # the order of the rows as a whole may be permuted first
            split = [k['n'] for k in F.rec[cls]['fields'] if 'Shuffler' in k['t']]
            alts = [want] + [fn('getShuffledIndex', sym(s), want) for s in split]
            vs = [judge(ix, w) for w in alts]
            if any(x.v == 'ok' for x in vs): R.ok(inst + ' record'); permuted = vs[0].v != 'ok'
            else: settle(R, inst + ' record', loc, 'the record delivered is the one at its (shuffled) position of the split', vs[0])
        else:
            arr = {x.a[1] for x in at}
            got = v
            while got is not None and got.op == 'ite': got = got.a[2] if got.a[1] is NULL else got.a[1] if got.a[2] is NULL else None
            if got is None or len(arr) != 1 or got not in at: R.undecided(inst + ' record', show(v)[:120]); continue
            settle(R, inst + ' record', loc, 'the record delivered is the one at its (shuffled) position', judge(got.a[2], pos))
            sizes[next(iter(arr))] = n
    for arr, k in sizes.items(): length(F, R, cls, short, arr, k)
    I, st, o, v, before, after = run1(F, rs, cls, [], S)
    if I.unk: R.undecided(short + ' restart', '%s' % I.unk[:2]); return
    loc = F.loc(rs)
    cs = [k for k in after if after[k] is not before.get(k)]
    if n is not ZERO:
        I2, st2, o2, v2, b2, a2 = run1(F, nx, cls, [], NULL)
        curs = [k for k in a2 if k in b2 and a2[k] is not b2[k] and k != 'shuffler_']
        for k in curs: settle(R, short + ' restart', loc, 'restarting goes back to the first record', judge(after[k], ZERO))
        for k in cs:
            if k not in curs: R.viol(short + ' restart', loc, 'restarting changes only the position', 'changes %s' % k, 'only')
        for c in F.ctors(cls):
            if copyish(c, cls): continue
            I, st = interp(F, H); o = I.construct(cls, [sym(p['n']) for p in c['params']], st, c['id']); fs = fields(I, o, st)
            for k in curs:
                if k in fs: settle(R, short + ' starts(%d)' % len(c['params']), F.loc(c), 'a dataset starts at its first record', judge(fs[k], ZERO))
def copyish(c, cls): return len(c['params']) == 1 and cls.split('::')[-1] in c['params'][0]['t'] or c.get('implicit')
def alg_ite(c, a, b): return ite(c, a, b)
def neg(t):
    from alg import bnot
    return bnot(t)
def length(F, R, cls, short, arr, n):
    """the count is the number of records kept: it is the size of the list, or a field which the constructor sets to it"""
    if n is fn('size', arr): R.ok(short + ' count'); return
    if n.op != 'sym' or arr.op != 'sym': R.undecided(short + ' count', '%s records of %s' % (show(n)[:60], show(arr)[:60])); return
    for c in F.ctors(cls):
        if copyish(c, cls): continue
        R.analysed(c)
        I, st = interp(F, H); o = I.construct(cls, [sym(p['n']) for p in c['params']], st, c['id']); fs = fields(I, o, st)
        if n.a[0] not in fs or arr.a[0] not in fs: R.undecided(short + ' count', 'fields'); continue
        settle(R, short + ' count', F.loc(c), 'as many records are kept as are counted', judge(I.size(fs[arr.a[0]]) if hasattr(I, 'size') else fn('size', fs[arr.a[0]]), fs[n.a[0]]))
def adding(F, R):
    """records added to a dataset in memory are put at its end, each once, and not once it is shuffled"""
    fs = [f for f in F.fns.values() if f['n'].endswith('addTrainingData') and f.get('body') and F.is_a(f.get('cls') or '', DS)]
    R.floor('functions adding records', len(fs), 1)
    for f in fs:
        R.analysed(f); cls = f['cls']; inst = 'adding(%s)' % ', '.join(p['n'] for p in f['params']); loc = F.loc(f); S = sym('shuffler')
        I, st = interp(F, H); o = obj(F, I, st, cls); I.setf(o, 'shuffler_', S, st); args = [sym(p['n']) for p in f['params']]
        b = fields(I, o, st); I.call(f, o, args, st); a = fields(I, o, st)
        if I.unk: R.undecided(inst, '%s' % I.unk[:2]); continue
        ch_ = [k for k in a if a[k] is not b.get(k)]
        none = eq(NULL, S, 't')
        settle(R, inst + ' refused', loc, 'no record is added once a shuffler is set', judge(st.thr, neg(none)))
        if len(ch_) != 1: R.viol(inst, loc, 'the record is kept', 'changes %s' % (ch_ or 'nothing'), 'kept'); continue
        v = known(a[ch_[0]], {none: TRUE})
        if v.op not in ('fn', 'push') and not (v.op == 'push'): R.undecided(inst, show(v)[:120]); continue
        x = [y for y in v.a if isinstance(y, T)]
        if not (v.op == 'push' or v.a[0] == 'push') or x[0] is not b[ch_[0]]: R.undecided(inst, show(v)[:120]); continue
        rec = x[1]; miss = [s.a[0] for s in args if not contains_term(rec, s)]
        if miss: R.viol(inst, loc, 'the record added is made of what is given', 'without %s' % miss, 'made')
        else: R.ok(inst)
        # which half is which
        ob = {rec.a[i].a[0] if isinstance(rec.a[i], T) and rec.a[i].op == 'str' else rec.a[i]: rec.a[i + 1] for i in range(1, len(rec.a) - 1, 2)} if rec.op == 'fn' and rec.a[0] == 'obj' else {}
def shuffler(F, R):
    cls = N + 'Shuffler'
    cs = [c for c in F.ctors(cls) if len(c['params']) == 1 and not copyish(c, cls)]
    R.floor('shuffler', len(cs), 1)
    vec = [x['n'] for x in F.rec[cls]['fields'] if 'vector' in x['t']]
    if len(vec) != 1: R.undecided('shuffler', 'fields'); return
    arr = sym(vec[0])
    for c in cs:
        R.analysed(c); n = sym(c['params'][0]['n'])
        I, st = interp(F); o = I.construct(cls, [n], st, c['id']); v = fields(I, o, st)[vec[0]]
        if I.unk: R.undecided('shuffler starts', '%s' % I.unk[:2]); continue
        if v.op == 'fn' and v.a[0].startswith('out:iota') or v.op == 'fn' and v.a[0].startswith('out:'): R.undecided('shuffler starts', show(v)[:100]); continue
        settle(R, 'shuffler: size', F.loc(c), 'a shuffler has a place for every record', judge(I.size(v), n))
        i = sym('place')
        e = element(v, (i,))
        r = e[0] if e else I.at(v, i) if hasattr(I, 'at') else None
        if v.op == 'map': r = subst(v.a[-1], {v.a[0]: i})
        if r is None: R.undecided('shuffler starts', show(v)[:100]); continue
        settle(R, 'shuffler starts', F.loc(c), 'a shuffler starts with every position once', judge(r, i))
    for mn, np, want in (('getShuffledIndex', 1, lambda a: fn('at', arr, a[0])), ('getSize', 0, lambda a: fn('size', arr))):
        f = F.method(cls, mn, np)
        if not f: R.undecided('shuffler ' + mn, 'not found'); continue
        R.analysed(f); I, st = interp(F); o = obj(F, I, st, cls); a = [sym('place')][:np]
        v = I.freeze(I.call(f, o, a, st), st)
        if I.unk: R.undecided('shuffler ' + mn, '%s' % I.unk[:2]); continue
        settle(R, 'shuffler ' + mn, F.loc(f), 'the shuffler answers from its permutation', judge(v, want(a)))
        if fields(I, o, st)[vec[0]] is not arr: R.viol('shuffler ' + mn, F.loc(f), 'asking changes nothing', show(fields(I, o, st)[vec[0]])[:100], 'pure')
    KEEP = {'shuffle', 'swap', 'reverse', 'rotate', 'iter_swap', 'sort', 'stable_sort', 'next_permutation', 'random_shuffle', 'swap_ranges', 'partition', 'begin', 'end', 'size', 'at', 'operator[]', 'data', 'empty', 'front', 'back', 'cbegin', 'cend', 'rbegin', 'rend'}
    LOSE = {'push_back', 'emplace_back', 'pop_back', 'erase', 'clear', 'resize', 'insert', 'assign', 'fill', 'remove', 'unique', 'generate', 'sample'}
    for f in F.fns.values():
        if f.get('cls') != cls or not f.get('body') or f.get('kind') == 'ctor' or f['n'].split('::')[-1] in ('Shuffler', '~Shuffler'): continue
        R.analysed(f); mn = f['n'].split('::')[-1]; bad = None; asg = None; called = set()
        def uses(x): return any(y.get('k') == 'mem' and y.get('n') == vec[0] for y in FX.walk(x))
        for x in FX.walk(f['body']):
            if x.get('k') == 'mcall' and x.get('b') is not None and uses(x['b']):
                called.add(x['mn'])
                if x['mn'] in LOSE: bad = x
            elif x.get('k') == 'call' and any(uses(y) for y in x.get('a', [])):
                nm = (x.get('n') or '').split('::')[-1]; called.add(nm)
                if nm in LOSE: bad = x
            elif x.get('k') == 'asg' and uses(x.get('l') or x.get('a', [{}])[0]): asg = x
            elif x.get('k') == 'opc' and x.get('op') in ('=', 'operator=') and x.get('a') and uses(x['a'][0]): asg = x
        if bad is not None: R.viol('shuffler.' + mn, F.loc(f), 'shuffling only reorders the positions', 'calls %s' % (bad.get('mn') or bad.get('n')), 'reorder')
        elif asg is not None or called - KEEP: R.undecided('shuffler.' + mn, 'assigns or calls %s' % sorted(called - KEEP))
        else: R.ok('shuffler.' + mn)
    f = F.method(cls, 'shuffle_predictably', 0)
    if f:
        seeds = random_sources(F, f)
        if seeds: R.viol('predictable shuffle', F.loc(f), 'the order of a split does not differ between the datasets made of one file', 'seeded by %s' % seeds[:2], 'seed')
        else: R.ok('predictable shuffle')
    f = next((f for f in F.by_mn.get('setShuffler', []) if f.get('cls') == DS and f.get('body')), None)
    if f:
        R.analysed(f); I, st = interp(F, dict(H, recordCount=lambda I, e, a, st, this: sym('n')))
        cl = next(iter(sorted(F.concrete(DS)))); o = obj(F, I, st, cl); s = sym('shuffler'); I.setf(o, 'shuffler_', sym('set_before'), st); I.call(f, o, [s], st)
        if I.unk: R.undecided('setting a shuffler', '%s' % I.unk[:2])
        else:
            none = eq(NULL, s, 't')
            same = eq(sym('n'), fn('getSize', s), 'i')
            settle(R, 'setting a shuffler: size', F.loc(f), 'a shuffler of another size is refused', judge(st.thr, land(neg(none), neg(same))))
            v = known(fields(I, o, st).get('shuffler_', NULL), {none: FALSE, same: TRUE})
            settle(R, 'setting a shuffler', F.loc(f), 'the shuffler set is used', judge(v, s))
def land(a, b):
    from alg import band as L
    return L(a, b)
def random_sources(F, f):
    out, seen, todo = [], set(), [f]
    while todo:
        g = todo.pop()
        if g['id'] in seen: continue
        seen.add(g['id'])
        for x in FX.walk(g['body']):
            t = str(x.get('t') or x.get('cls') or '')
            if 'random_device' in t: out.append('random_device')
            if x.get('k') in ('call', 'mcall'):
                nm = (x.get('n') or x.get('mn') or '').split('::')[-1]
                if nm in ('time', 'rand', 'now', 'clock'): out.append(nm)
                h = F.fns.get(x.get('fn'))
                if h and h.get('body') and '/repo/src/' in h['path']: todo.append(h)
    return sorted(set(out))
def splits(F, R):
    """a split of a positive fraction s is the first trunc(n s) rows, one of a negative fraction the rows from trunc(n (1+s)) on"""
    cls = N + 'BinaryDataSet'
    cs = [c for c in F.ctors(cls) if not copyish(c, cls) and any('float' in p['t'] or 'double' in p['t'] for p in c['params'])]
    R.floor('split datasets', len(cs), 1)
    nums = [x['n'] for x in F.rec[cls]['fields'] if 'size_t' in x['t'] or 'long' in x['t']]
    for c in cs:
        R.analysed(c); loc = F.loc(c); tag = 'split(%d)' % len(c['params'])
        I, st = interp(F, H); o = I.construct(cls, [sym(p['n']) for p in c['params']], st, c['id']); fs = fields(I, o, st)
        if I.unk: R.undecided(tag, '%s' % I.unk[:2]); continue
        s = sym([p['n'] for p in c['params'] if 'float' in p['t'] or 'double' in p['t']][0])
        rd = [v for k, v in fs.items() if v.op == 'fn' and v.a[0] == 'reader']
        if len(rd) != 1: R.undecided(tag, 'reader'); continue
        n = fn('rowCount', rd[0]); opened = fn('is_open', rd[0]); pos = lt(ZERO, s, False)
        settle(R, tag + ' opened', loc, 'a file which cannot be opened is refused', judge(known(st.thr, {}), neg(opened)))
        first = [k for k in nums if 'first' in k]; count = [k for k in nums if 'count' in k]
        if len(first) != 1 or len(count) != 1: R.undecided(tag, 'fields %s' % nums); continue
        a, b = [known(fs[k], {opened: TRUE}) for k in (first[0], count[0])]
        tr = fn('trunc', mul(n, add(s, ONE)))
        for k, got, want in (('first', a, ite(pos, ZERO, trunc(mul(n, add(s, ONE))))), ('count', b, ite(pos, trunc(mul(n, s)), sub(n, trunc(mul(n, add(s, ONE))))))):
            settle(R, '%s %s' % (tag, k), loc, 'a split starts where the complementary one ends, and ends at the end', judge(got, want))
        path = sym(c['params'][0]['n'])
        if rd[0].a[1] is not path: R.viol(tag + ' file', loc, 'the dataset reads the file it is given', show(rd[0])[:100], 'file')
        else: R.ok(tag + ' file')
        for g, k, x, l in st.eff:
            if k == 'random shuffle': R.viol(tag + ' order', '%s:%d' % l, 'the order of a split does not differ between the datasets made of one file', 'shuffled at random', 'order')
def trunc(t):
    return fn('trunc', t)
def lines(F, R):
    cls = N + 'TextLinePathReader'
    f = F.method(cls, 'nextLine', 0)
    if not f: R.undecided('line reader', 'not found'); return
    fl = {x['n']: x['t'] for x in F.rec[cls]['fields']}
    strm = [k for k, t in fl.items() if 'stream' in t]; names = [k for k, t in fl.items() if 'vector' in t]
    curs = [k for k, t in fl.items() if 'size_t' in t or 'long' in t]
    if len(strm) != 1 or len(names) != 1 or len(curs) != 1 or not {'has_next', 'next_line'} <= set(fl): R.undecided('line reader', 'fields %s' % sorted(fl)); return
    R.analysed(f); loc = F.loc(f); strm, names, curs = strm[0], names[0], curs[0]
    def opening(I, e, a, st, this):
        I.setf(a[0], strm, fn('opened', I.freeze(I.getf(a[0], curs, st), st)), st); return fn('none')
    isopen = fn('streaming')
    hk = dict(BASE, openCurrentFile=opening)
    I, st = interp(F, hk); o = obj(F, I, st, cls)
    v = I.freeze(I.call(f, o, [], st), st); a = fields(I, o, st)
    bad = [u for u in I.unk if u[0] not in ('exit', 'uncounted loop')]
    if bad: R.undecided('line reader', '%s' % bad[:2]); return
    settle(R, 'line reader: result', loc, 'the line handed out is the one kept back', judge(v, sym('next_line')))
    facts = {sym('has_next'): TRUE}; facts.update({x: TRUE for t in a.values() for x in walk(t) if x.op == 'fn' and x.a[0] == 's:is_open' and x.a[1] is sym(strm)})
    a = {k: known(t, facts) for k, t in a.items()}
    folds = {x for t in (a['has_next'], a['next_line']) for x in walk(t) if x.op == 'fold' and x.a[0].op == 'str'}
    S0 = sym(strm); found0 = lambda t: t.op == 'fn' and t.a[0].startswith('c:getline') and t.a[1] is S0
    line0 = lambda t: t.op == 'fn' and t.a[0] == 'out:getline:1' and t.a[1] is S0
    from b01 import whilefold
    F_, L_, C_, W_ = sym('found'), sym('line'), sym('file'), sym('stream')
    roles = {}
    for t in folds:
        init, phi, cond, stop, nxt = whilefold(t); m = {}
        for i, p in zip(init, phi):
            if found0(i): m[p] = F_
            elif line0(i): m[p] = L_
            elif i is sym(curs): m[p] = C_
            elif i.op == 'fn' and i.a[0] == 'out:getline:0': m[p] = W_
        if len(m) != len(phi) or len(set(m.values())) != len(m): R.undecided('line reader', 'loop over %s' % [show(i)[:40] for i in init]); return
        roles[t] = m[phi[0]]
        if roles[t] is F_:
            more = lt(add(C_, ONE), fn('size', sym(names)), True)
            settle(R, 'line reader: goes on', loc, 'the next file is opened exactly when this one has no more lines and there is another', judge(subst(cond, m), land(neg(F_), more)))
            step = {m[p]: subst(x, m) for p, x in zip(phi, nxt)}
            settle(R, 'line reader: next file', loc, 'files are read one after the other', judge(step.get(C_, C_), add(C_, ONE)))
            opn = {x for x in walk(step[F_]) if x.op == 'fn' and x.a[0] == 'opened'}
            if not opn: R.undecided('line reader: next line', show(step[F_])[:100])
            for x in opn: settle(R, 'line reader: opens', loc, 'the file opened is the next one', judge(x.a[1], add(C_, ONE)))
            if not (step[F_].op == 'fn' and step[F_].a[0].startswith('c:getline')): R.undecided('line reader: next line', show(step[F_])[:100])
            elif L_ in step:
                g = step[L_]
                if g.op == 'fn' and g.a[0] == 'out:getline:1' and g.a[1] is step[F_].a[1]: R.ok('line reader: next line')
                else: R.viol('line reader: next line', loc, 'the line kept is the one last read', show(g)[:120], 'kept')
    if not folds:
        g = F.method(cls, 'openCurrentFile', 0)
        loops = lambda b: any(x.get('k') in ('for', 'while', 'do', 'rfor') for x in FX.walk(b))
        again = any(x.get('fn') == f['id'] for h in (f, g) if h for x in FX.walk(h['body']) if x.get('k') in ('call', 'mcall'))
        if g and not again and not loops(f['body']) and not loops(g['body']) and not I.unk:
            R.viol('line reader: goes on', loc, 'the files after an empty one are read', 'a fixed number of files is tried for the next line', 'finite')
        else: R.undecided('line reader', 'no loop over the files')
        return
    m = roles
    e, k = subst(a['has_next'], m), subst(a['next_line'], m)
    settle(R, 'line reader: more', loc, 'there is a line to hand out exactly when one was read', judge(e, F_))
    settle(R, 'line reader: kept', loc, 'a line read is kept to be handed out', judge(known(k, {F_: TRUE}), L_))
    f = F.method(cls, 'hasNext', 0)
    if f:
        R.analysed(f); I, st = interp(F); o = obj(F, I, st, cls); v = I.freeze(I.call(f, o, [], st), st)
        settle(R, 'line reader: hasNext', F.loc(f), 'more is reported while a line is kept', judge(v, sym('has_next')))
    f = F.method(cls, 'openCurrentFile', 0)
    if f:
        R.analysed(f); I, st = interp(F); o = obj(F, I, st, cls); I.call(f, o, [], st); a = fields(I, o, st)[strm]
        op = [x for x in walk(a) if x.op == 'fn' and x.a[0] == 'out:open']
        if not op: R.undecided('line reader: open', show(a)[:100])
        else:
            w = fn('at', sym(names), sym(curs))
            settle(R, 'line reader: open', F.loc(f), 'the file opened is the current one', judge(op[0].a[2], w))
            m = {x: TRUE for x in walk(a) if x.op == 'fn' and x.a[0] == 's:is_open'}; a = known(a, m)
            sk = sym('skip_header')
            n1, n0 = [len([x for x in walk(known(a, {sk: b})) if x.op == 'fn' and x.a[0] == 'out:getline:0']) for b in (TRUE, FALSE)]
            cs = [x.a[0] for x in walk(a) if x.op == 'ite' and [y for y in walk(x.a[1]) if y.op == 'fn' and y.a[0] == 'out:getline:0'] and not [y for y in walk(x.a[2]) if y.op == 'fn' and y.a[0] == 'out:getline:0']]
            if (n1, n0) == (1, 0) and len(cs) == 1: settle(R, 'line reader: header', F.loc(f), 'one line of each file is skipped exactly when it has a header', judge(cs[0], sk))
            elif (n1, n0) == (1, 0): R.undecided('line reader: header', '%d conditions' % len(cs))
            else: R.viol('line reader: header', F.loc(f), 'one line of each file is skipped exactly when it has a header', 'skips %d lines with a header and %d without' % (n1, n0), 'header')
    for c in F.ctors(cls):
        if len(c['params']) != 2: continue
        R.analysed(c); path, skip = [sym(p['n']) for p in c['params']]
        I, st = interp(F, dict(BASE, openCurrentFile=note('open'), nextLine=note('next'))); o = I.construct(cls, [path, skip], st, c['id']); a = fields(I, o, st); loc = F.loc(c)
        if I.unk: R.undecided('line reader: made', '%s' % I.unk[:2]); continue
        settle(R, 'line reader: header kept', loc, 'whether the files have a header is remembered', judge(a.get('skip_header', NULL), skip))
        settle(R, 'line reader: first file', loc, 'reading starts with the first file', judge(a[curs], ZERO))
        dirs = {x for t in a.values() for x in walk(t) if x.op == 'fn' and x.a[0] == 'c:is_directory'}
        v = known(a[names], {x: FALSE for x in dirs})
        if v.op == 'list' and len(v.a) == 1 and v.a[0] is path: R.ok('line reader: one file')
        elif v.op == 'list': R.viol('line reader: one file', loc, 'a file is read itself', show(v)[:100], 'file')
        else: R.undecided('line reader: one file', show(v)[:100])
        v = known(a[names], {x: TRUE for x in dirs}); fl_ = [x for x in walk(v) if x.op == 'filt']
        if len(fl_) != 1: R.undecided('line reader: folder', show(v)[:120])
        else:
            g, cnd = fl_[0], fl_[0].a[3]
            if g.a[1] is not ZERO: R.viol('line reader: folder', loc, 'every file of a folder is read', 'starts at %s' % show(g.a[1]), 'every')
            elif cnd.op == 'fn' and cnd.a[0] == 's:is_regular_file': R.ok('line reader: folder')
            elif cnd.op == 'not' or cnd.op == 'and' and any(x.op == 'fn' and x.a[0] == 's:is_regular_file' for x in cnd.a): R.viol('line reader: folder', loc, 'every file of a folder is read', 'when %s' % show(cnd)[:80], 'every')
            else: R.undecided('line reader: folder', show(cnd)[:100])
        seq = [k for g, k, x, l in st.eff if k in ('open', 'next')]
        if seq == ['open', 'next']: R.ok('line reader: buffered')
        else: R.viol('line reader: buffered', loc, 'the first line is kept back when the reader is made', 'does %s' % seq, 'buffer')
def run(F, R):
    R.rule = 'nextRecord, restart and recordCount of each dataset are interpreted with every field unknown and compared with the transitions that visit each position once; shufflers, splits and line readers likewise.'
    cs = sorted(F.concrete(DS)); R.floor('datasets', len(cs), 3)
    for c in cs: cursor(F, R, c)
    adding(F, R); shuffler(F, R); splits(F, R); lines(F, R)
    R.count('dataset classes', len(cs))
