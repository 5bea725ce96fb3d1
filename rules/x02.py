"""X02: sorting a text file keeps every line.  Splitting into chunks is interpreted as a loop over the lines whose state is the lines kept back, the
chunks written and their number; each line must be either kept back or written by the iteration that reads it, chunks must have names of their own,
and what is kept back at the end must be written too.  The merge is a loop over a heap: what leaves it is written, and its file's next line enters."""
from d04 import *
from b01 import whilefold
CLS = N + 'FileSorter'
def note(n):
    def h(I, e, a, st, this):
        v = [I.freeze(x, st) for x in a]; I.emit(st, n, v, e); return fn(n, *v)
    return h
def pq(e): return 'priority_queue' in (e.get('cls') or '') + (e.get('bt') or '')
def push(I, e, a, st, this):
    if not pq(e): return NotImplemented
    x = a[1] if len(a) == 2 else fn('pair', *a[1:])
    I.emit(st, 'enter', [a[0], I.freeze(x, st)], e)
    I.assign(strip(e['b']), fn('heap+', a[0], I.freeze(x, st)), st, this); return NONE
def pop(I, e, a, st, this):
    if not pq(e): return NotImplemented
    I.assign(strip(e['b']), fn('heap-', a[0]), st, this); return NONE
def top(I, e, a, st, this): return fn('heaptop', a[0]) if pq(e) else NotImplemented
def written(I, e, a, st, this):
    n = e
    while n.get('k') == 'opc' and n['op'] == '<<': n = strip(n['a'][0])
    if 'stream' not in (n.get('t') or '') or n.get('n', '').split('::')[-1] in ('cout', 'cerr', 'clog') or 'stringstream' in (n.get('t') or ''): return NotImplemented
    I.emit(st, 'w', [a[0], I.freeze(a[1], st)], e); return a[0]
H = dict(BASE); H.update({'op<<': written, 'std.emplace': push, 'std.push': push, 'std.pop': pop, 'std.top': top})
def snapshot(I, e, a, st, this):
    I.emit(st, 'state', [v for v in [I.freeze(x, st) for x in st.env.values() if isinstance(x, T)] if v.op == 'fold'], e); return NotImplemented
H['std.close'] = snapshot
H['std.is_open'] = lambda I, e, a, st, this: TRUE      # a file that does not open is F02's business
getl = lambda t, k: t.op == 'fn' and t.a[0] == k
def newline(t): return t.op == 'num' and t.a[0] == 10 or t.op == 'str' and t.a[0] == '\n' or t.op == 'fn' and t.a[0].endswith('endl') or t.op == 'sym' and t.a[0].endswith('endl')
def groups(effs):
    """the lines written: (guard, file, text, ended by a line end, place)"""
    out = []
    for g, k, a, l in effs:
        if k != 'w' or g is FALSE: continue
        if newline(a[1]):
            if out and out[-1][0] is g and out[-1][1] is a[0]: out[-1][3] = True
            else: out.append([g, a[0], string(''), True, l])
        elif out and out[-1][0] is g and out[-1][1] is a[0] and not out[-1][3]: out[-1][2] = fn('concat', out[-1][2], a[1])
        else: out.append([g, a[0], a[1], False, l])
    return out
def unloop(g):
    """(condition, loop variable, from, to) of a guard with one counted loop; None if there is none"""
    for x in ([g] + list(g.a) if g.op == 'and' else [g]):
        if isinstance(x, T) and x.op == 'anyi':
            rest = band(*[y for y in (g.a if g.op == 'and' else []) if y is not x])
            return band(rest, x.a[3]), x.a[0], x.a[1], x.a[2]
    return g, None, None, None
def known(t, facts):
    for _ in range(4):
        m = {x: v for x in walk(t) for k, v in facts.items() if x is k}; n = subst(t, m)
        if n is t: break
        t = n
    return t
def blindl(t, names):
    """the outcome of reading a line, as unknowns"""
    m = {}
    for x in walk(t):
        if x.op == 'fn' and x.a[0] in ('c:getline', 'out:getline:1', 'out:getline:0'): m[x] = names.setdefault(x, sym({'c:getline': 'got', 'out:getline:1': 'read', 'out:getline:0': 'rest'}[x.a[0]]))
    return subst(t, m)
def both(R, I, inst, loc, rule, got, want, assume=TRUE):
    """two lists are the same: same size, and same elements below it"""
    v = judge(I.size(got), I.size(want), assume)
    settle(R, inst + ': how many', loc, rule, v)
    i = sym('place')
    settle(R, inst + ': which', loc, rule, judge(I.at(got, i), I.at(want, i), band(assume, lt(i, I.size(want), True), le(ZERO, i, True))))
def sorting(F, R):
    f = next((f for f in F.fns.values() if f.get('cls') == CLS and f['n'].endswith('::sort') and f.get('body')), None)
    if not f: R.undecided('sort', 'not found'); return
    R.analysed(f); loc = F.loc(f)
    hk = dict(H)
    for n in ('merge_chunks', 'remove_chunks', 'sort_chunk'): hk[n] = note(n)
    I, st = interp(F, hk); P = {p['n']: sym(p['n']) for p in f['params']}
    r = I.freeze(I.call(f, None, [sym(p['n']) for p in f['params']], st), st)
    bad = [u for u in I.unk if u[0] not in ('exit', 'uncounted loop')]
    if bad: R.undecided('sort', '%s' % bad[:2]); return
    mg = [x for x in st.eff if x[1] == 'merge_chunks']; rm = [x for x in st.eff if x[1] == 'remove_chunks']
    if len(mg) != 1: R.undecided('sort', '%d merges' % len(mg)); return
    if mg[0][0] is not TRUE: R.undecided('merge', 'only when ' + show(mg[0][0])[:100])
    else: R.ok('merge')
    lists = [a for a in mg[0][2] if any(x.op == 'fold' and x.a[0].op == 'str' for x in walk(a))]
    if len(lists) != 1: R.undecided('sort', 'chunks'); return
    paths = lists[0]
    fold = max((x for x in walk(paths) if x.op == 'fold' and x.a[0].op == 'str'), key=lambda x: len(x.a))
    init, phi, cond, stop, nxt = whilefold(fold)
    strm = [q for q in range(len(phi)) if getl(nxt[q], 'out:getline:0')]
    line = [q for q in range(len(phi)) if getl(nxt[q], 'out:getline:1')]
    if len(strm) != 1 or not [x for x in ands(cond) if getl(x, 'c:getline')] or [x for x in ands(cond) if getl(x, 'c:getline')][0].a[1] is not phi[strm[0]]: R.undecided('sort', 'not a loop over lines: ' + show(cond)[:100]); return
    L = [x for x in walk(fold) if getl(x, 'out:getline:1') and x.a[1] is phi[strm[0]]]
    if len({x.id for x in L}) != 1: R.undecided('sort', '%d reads per step' % len(L)); return
    L = L[0]
    if len(ands(cond)) > 1: R.viol('every line read', loc, 'the lines are read until there are no more', 'reads while %s' % show(cond)[:100], 'stop')
    elif stop is not FALSE: R.viol('every line read', loc, 'the lines are read until there are no more', 'stops when %s' % show(stop)[:100], 'stop')
    else: R.ok('every line read')
    def is_list(q): return init[q].op == 'list' or any(x.op == 'push' for x in walk(nxt[q]))
    keep = [q for q in range(len(phi)) if is_list(q) and any(x.op == 'push' and x.a[1] is L for x in walk(nxt[q]))]
    names = [q for q in range(len(phi)) if is_list(q) and q not in keep]
    if not keep and len([q for q in range(len(phi)) if is_list(q)]) >= 2: R.undecided('sort', 'where a line is kept'); return
    if len(keep) != 1 or len(names) != 1: R.undecided('sort', 'state of %d lists' % (len(keep) + len(names))); return
    lines, chunks = phi[keep[0]], phi[names[0]]
    nl, nc = nxt[keep[0]], nxt[names[0]]
    for q, w in ((keep[0], 'lines'), (names[0], 'chunks')):
        if init[q].op == 'list' and not init[q].a: R.ok('no %s at first' % w)
        elif init[q].op == 'list': R.viol('no %s at first' % w, loc, 'nothing is written that was not read', show(init[q])[:80], 'first')
        else: R.undecided('no %s at first' % w, show(init[q])[:80])
    # the header: read once if there is one, handed on to the merge
    hh = P.get('has_header')
    sin = init[strm[0]]
    if hh is None: R.undecided('header', 'parameters')
    else:
        n1, n0 = [len({x.id for x in walk(known(sin, {hh: b})) if getl(x, 'out:getline:0')}) for b in (TRUE, FALSE)]
        if (n1, n0) != (1, 0): R.viol('header', loc, 'one line is the header exactly when the file has one', '%d lines with a header, %d without' % (n1, n0), 'header')
        else:
            cs = {x.a[0] for x in walk(sin) if x.op == 'ite'}
            if len(cs) == 1: settle(R, 'header', loc, 'one line is the header exactly when the file has one', judge(next(iter(cs)), hh))
            else: R.undecided('header', show(sin)[:100])
        hd = [a for a in mg[0][2] if any(getl(x, 'out:getline:1') for x in walk(a)) and a is not paths]
        if len(hd) == 1 and getl(known(hd[0], {hh: TRUE}), 'out:getline:1'): R.ok('header handed on')
        elif not hd: R.viol('header handed on', loc, 'the header is written to the result', 'the merge is not given it', 'header')
        else: R.undecided('header handed on', show(hd[0])[:80])
        m0 = next((g for g in F.fns.values() if g.get('cls') == CLS and g['n'].endswith('::merge_chunks') and g.get('body')), None)
        want = {'has_header': hh, 'delete_duplicates': P.get('delete_duplicates')}
        for k, w in want.items():
            j = [j for j, p in enumerate(m0['params']) if p['n'] == k] if m0 else []
            if not j or w is None or j[0] >= len(mg[0][2]): R.undecided('merge is told ' + k, 'not passed')
            else: settle(R, 'merge is told ' + k, loc, 'the merge does what the sort was asked', judge(mg[0][2][j[0]], w))
    # one step: the line read joins the lines kept; they are either kept or written as a chunk
    A = ite(eq(I.size(L), ZERO, 'i'), lines, T('push', (lines, L)))
    inloop, after = [], []
    for g in groups(st.eff):
        (inloop if any(p in set(walk(g[0])) for p in phi) and not any(x.op == 'fold' for x in walk(g[0])) else after).append(g)
    nm = {}
    B = lambda t: blindl(t, nm)
    flush = FALSE; path = None
    if len(inloop) > 1: R.undecided('chunks', '%d writes per line' % len(inloop)); return
    if inloop:
        g, path, text, ended, wl = inloop[0]
        c, bv, lo, hi = unloop(g); wl = '%s:%d' % (F.rel(wl[0]) if hasattr(F, 'rel') else wl[0], wl[1]) if isinstance(wl, tuple) else loc
        flush = band(*[x for x in (c.a if c.op == 'and' else [c]) if x not in ands(cond)])
        if not ended: R.viol('chunk: line ends', loc, 'each line of a chunk ends', 'no line end is written', 'ends')
        else: R.ok('chunk: line ends')
        if bv is None: R.undecided('chunk', 'not written line by line')
        else:
            settle(R, 'chunk: first', loc, 'a chunk has all the lines kept', judge(lo, ZERO))
            settle(R, 'chunk: last', loc, 'a chunk has all the lines kept', judge(B(hi), B(I.size(A)), B(flush)))
            settle(R, 'chunk: lines', loc, 'a chunk has the lines kept', judge(B(text), B(I.at(A, bv)), B(band(flush, lt(bv, I.size(A), True), le(ZERO, bv, True)))))
        want = ite(flush, T('list', ()), A)
    else: want = A
    settle(R, 'step: kept', loc, 'a line read is kept until it is written', judge(B(I.size(nl)), B(ite(flush, ZERO, I.size(A)))))
    i = sym('place')
    settle(R, 'step: lines', loc, 'a line read is kept until it is written', judge(B(I.at(nl, i)), B(I.at(A, i)), B(band(bnot(flush), lt(i, I.size(A), True), le(ZERO, i, True)))))
    def joins(inst, got, old, cnd, p):
        settle(R, inst + ': number', loc, 'each chunk written is merged', judge(B(I.size(got)), B(ite(cnd, add(I.size(old), ONE), I.size(old)))))
        settle(R, inst + ': others', loc, 'the chunks written before are merged', judge(B(I.at(got, i)), B(I.at(old, i)), B(band(lt(i, I.size(old), True), le(ZERO, i, True)))))
        if p is not None:
            k = I.at(known(got, {}), I.size(old))
            ps = {x.a[1] for x in walk(got) if x.op == 'push' and x.a[0] is old}
            if p in ps and len(ps) == 1: R.ok(inst + ': name')
            elif len(ps) == 1: R.viol(inst + ': name', loc, 'the chunk merged is the one written', 'writes %s but merges %s' % (show(p)[:60], show(next(iter(ps)))[:60]), 'name')
            else: R.undecided(inst + ': name', show(got)[:100])
    joins('chunks', nc, chunks, flush, path)
    num_ = [q for q in range(len(phi)) if q not in keep + names + strm + line]
    if path is not None:
        dep = [q for q in num_ if any(x is phi[q] for x in walk(path))]
        bysize = any(x is fn('size', chunks) or x.op == 'fn' and x.a[0] == 'size' and x.a[1] is chunks for x in walk(path))
        if bysize: R.ok('chunk names')
        elif not dep: R.viol('chunk names', loc, 'each chunk has a file of its own', 'every chunk is named %s' % show(path)[:80], 'own')
        else:
            q = dep[0]; settle(R, 'chunk names', loc, 'each chunk has a file of its own', judge(B(nxt[q]), B(add(phi[q], ONE)), B(flush)))
    # what is left when the lines end
    def folded(p): return [x for x in {y for e in [paths] + [g[0] for g in after] + [g[1] for g in after] + [g[2] for g in after] for y in walk(e)} if x.op == 'fold' and x.a[0].op == 'str']
    m = {}
    LF, PF = sym('left'), sym('chunks')
    for x in folded(None):
        i0, p0, c0, s0, n0 = whilefold(x); q = None
        # which variable this is: by its step, with the variables matched to the full loop's
        key = skeleton(n0[0], p0)
        for j in range(len(phi)):
            if skeleton(nxt[j], phi) == key and i0[0] is init[j]: q = j
        if q is None: continue
        m[x] = LF if q == keep[0] else PF if q == names[0] else sym('last%d' % q)
    fin = subst(paths, m); after = [(subst(g, m), subst(p, m), subst(t, m), e, l) for g, p, t, e, l in after]
    if len(after) > 1: R.undecided('last chunk', '%d writes after the last line' % len(after)); return
    some = lt(ZERO, I.size(LF), True)
    if not after: R.viol('last chunk', loc, 'the lines left at the end are written', 'nothing is written after the last line', 'last'); return
    g, p, t, ended, wl = after[0]
    c, bv, lo, hi = unloop(g)
    if bv is None: R.undecided('last chunk', 'not written line by line'); return
    if not ended: R.viol('last chunk: line ends', loc, 'each line of a chunk ends', 'no line end is written', 'ends')
    else: R.ok('last chunk: line ends')
    settle(R, 'last chunk: when', loc, 'the lines left at the end are written', judge(c, TRUE, some))
    settle(R, 'last chunk: first', loc, 'all the lines left are written', judge(lo, ZERO, some))
    settle(R, 'last chunk: last', loc, 'all the lines left are written', judge(hi, I.size(LF), some))
    settle(R, 'last chunk: lines', loc, 'the lines left are written', judge(t, I.at(LF, bv), band(some, lt(bv, I.size(LF), True))))
    cnd = c
    settle(R, 'all chunks: number', loc, 'each chunk written is merged', judge(I.size(fin), ite(cnd, add(I.size(PF), ONE), I.size(PF))))
    ps = {x.a[1] for x in walk(fin) if x.op == 'push' and x.a[0] is PF}
    if ps == {p}: R.ok('all chunks: name')
    elif len(ps) == 1: R.viol('all chunks: name', loc, 'the chunk merged is the one written', 'writes %s but merges %s' % (show(p)[:60], show(next(iter(ps)))[:60]), 'name')
    else: R.undecided('all chunks: name', show(fin)[:100])
    if path is not None:
        q = [q for q in num_ if any(x is phi[q] for x in walk(path))]
        if q:
            w = subst(path, {phi[q[0]]: sym('last%d' % q[0])})
            if p is w: R.ok('last chunk: own name')
            elif not contains_term(p, sym('last%d' % q[0])): R.viol('last chunk: own name', loc, 'each chunk has a file of its own', 'named %s' % show(p)[:80], 'own')
            else: R.undecided('last chunk: own name', show(p)[:80])
    # temporary files
    if not rm: R.viol('temporary files', loc, 'the chunks are removed', 'never removed', 'temp')
    else:
        k = [x for x in rm if x[0] is TRUE and paths in x[2]]
        if k and st.eff.index(k[-1]) > st.eff.index(mg[0]): R.ok('temporary files')
        elif k: R.viol('temporary files', loc, 'the chunks are removed once they are merged', 'removed before', 'temp')
        elif any(paths in x[2] for x in rm):
            u = bor(*[x[0] for x in rm if paths in x[2]]); u = subst(u, {fn('merge_chunks', *mg[0][2]): sym('merged')})
            settle(R, 'temporary files', loc, 'the chunks are removed', judge(u, TRUE))
        else: R.viol('temporary files', loc, 'all chunks are removed', show(rm[-1][2][0])[:80], 'temp')
    if r is fn('merge_chunks', *mg[0][2]): R.ok('result')
    elif r.op == 'bool': R.viol('result', loc, 'sorting tells whether the merge worked', 'always ' + show(r), 'result')
    else: R.undecided('result', show(r)[:60])
def ands(t): return list(t.a) if t.op == 'and' else [t]
def skeleton(t, phi):
    s = set(phi); memo = {}
    def go(t):
        if not isinstance(t, T): return t
        if t in memo: return memo[t]
        memo[t] = ('phi',) if t in s else (t.op,) + tuple(go(x) for x in t.a)
        return memo[t]
    return hash(str(go(t)))
def merging(F, R):
    f = next((f for f in F.fns.values() if f.get('cls') == CLS and f['n'].endswith('::merge_chunks') and f.get('body')), None)
    if not f: R.undecided('merge loop', 'not found'); return
    R.analysed(f); loc = F.loc(f)
    I, st = interp(F, H); P = {p['n']: sym(p['n']) for p in f['params']}
    r = I.freeze(I.call(f, None, [sym(p['n']) for p in f['params']], st), st)
    bad = [u for u in I.unk if u[0] not in ('exit', 'uncounted loop')]
    if bad: R.undecided('merge loop', '%s' % bad[:2]); return
    paths = [sym(p['n']) for p in f['params'] if 'vector' in p['t']]; head = P.get('header'); hh = P.get('has_header'); dd = P.get('delete_duplicates')
    if len(paths) != 1 or None in (head, hh, dd): R.undecided('merge loop', 'parameters'); return
    paths = paths[0]
    gs = groups(st.eff); heads = [g for g in gs if contains_term(g[2], head)]; rest = [g for g in gs if g not in heads]
    if not heads: R.viol('header', loc, 'the header stays first', 'it is not written', 'header')
    else:
        h = heads[0]
        settle(R, 'header: when', loc, 'the header is written exactly when there is one', judge(h[0], hh))
        if h[2] is head and h[3]: R.ok('header: text')
        else: R.viol('header: text', loc, 'the header is written as it was read', 'writes %s%s' % (show(h[2])[:60], '' if h[3] else ' without a line end'), 'text')
        if gs[0] is h: R.ok('header: first')
        else: R.viol('header: first', loc, 'the header stays first', 'lines are written before it', 'first')
    # opening: the first line of every chunk enters
    ent = [x for x in st.eff if x[1] == 'enter']
    opens = [x for x in st.eff if x[1] == 'open' and len(x[2]) > 1 and contains_term(x[2][1], paths)]
    ok = False
    for g, k, a, l in opens:
        c, bv, lo, hi = unloop(g)
        if bv is None: continue
        ok = True
        settle(R, 'opens: from', loc, 'every chunk is merged', judge(lo, ZERO)); settle(R, 'opens: to', loc, 'every chunk is merged', judge(hi, fn('size', paths)))
        settle(R, 'opens: which', loc, 'every chunk is merged', judge(a[1], fn('at', paths, bv)))
    if not ok: R.undecided('opens', 'no loop over the chunks')
    first = [x for x in ent if not contains_term(x[2][0], TOPS(x)) and unloop(x[0])[1] is not None]
    later = [x for x in ent if x not in first]
    for g, k, a, l in first:
        c, bv, lo, hi = unloop(g); e = a[1]
        if e.op == 'fn' and e.a[0] == 'pair' and getl(e.a[1], 'out:getline:1'):
            odd = [x for x in atoms_of(c) if not getl(x, 'c:getline') and x is not TRUE and not (x.op == 'fn' and x.a[0].startswith('new:')) and x is not e.a[2]]
            if odd: R.undecided('first line of a chunk', 'when ' + show(odd[0])[:80])
            else: R.ok('first line of a chunk')
        else: R.undecided('first line of a chunk', show(e)[:100])
        for k2, w in ((lo, ZERO), (hi, fn('size', paths))): settle(R, 'first lines', loc, 'the first line of every chunk enters the merge', judge(k2, w))
    if not first: R.undecided('first lines', 'none enter')
    # the loop
    ws = [g for g in rest if any(getl(x, 'heaptop') for x in walk(g[2]))]
    if not ws and len(rest) == 1 and plainvar(rest[0][2]): R.viol('merge: line', loc, 'the line written is the one that left the heap', 'writes one kept from before', 'line'); return
    if len(ws) != 1 or len(rest) != 1 or len(later) != 1: R.undecided('merge loop', '%d writes, %d entries' % (len(rest), len(later))); return
    g, file, text, ended, wl = ws[0]
    heap = {x.a[1] for x in walk(text) if getl(x, 'heaptop')}
    if len(heap) != 1: R.undecided('merge loop', 'heap'); return
    hp = next(iter(heap)); top_ = fn('heaptop', hp)
    line = [x for x in walk(text) if x.op == 'fn' and len(x.a) == 2 and x.a[1] is top_]
    if text not in line: R.viol('merge: line', loc, 'the line written is the one that left the heap', show(text)[:80], 'line')
    else: R.ok('merge: line')
    if not ended: R.viol('merge: line end', loc, 'each line ends', 'no line end is written', 'ends')
    else: R.ok('merge: line end')
    some = bnot(eq(ZERO, I.size(hp), 'i'))
    HB = lambda t: subst(t, {fn('.first', top_): sym('leaving'), fn('.second', top_): sym('its_file')})
    lead = [x for x in (g.a if g.op == 'and' else [g])]
    conds = band(*[x for x in lead if judge(x, some).v != 'ok'])
    x = text; nonempty = bnot(eq(ZERO, I.size(x), 'i'))
    prev = [y for z in walk(conds) if z.op in ('teq', 'feq', 'ieq') and x in z.a for y in z.a if y is not x and plainvar(y)]
    flags = [y for y in atoms_of(conds) if plainvar(y) and y is not dd]
    same = [z for z in walk(conds) if z.op in ('teq', 'feq', 'ieq') and x in z.a and any(y in prev for y in z.a)]
    dup = band(dd, same[0]) if same else FALSE
    if len(flags) > 1 or len(same) > 1: R.undecided('merge: written', show(conds)[:100])
    else:
        fl = flags[0] if flags else None
        sub = lambda t, b: known(t, {fl: b}) if fl is not None else t
        settle(R, 'merge: written', loc, 'a line is left out only if it repeats the one before and repeats are to go', judge(HB(sub(conds, FALSE)), HB(bnot(dup)), HB(nonempty)))
        if fl is not None: settle(R, 'merge: first written', loc, 'the first line is written', judge(HB(sub(conds, TRUE)), TRUE, HB(nonempty)))
    # what is remembered of the line before
    fs = {y for q in st.eff if q[1] == 'state' for z in q[2] for y in walk(z) if y.op == 'fold' and y.a[0].op == 'str'}
    pv = prev[0] if prev else None
    def step(v):
        for y in fs:
            i0, p0, c0, s0, n0 = whilefold(y)
            for j in range(len(p0)):
                if p0[j] is v: return i0[j], n0[j]
        return None
    if pv is not None:
        z = step(pv)
        if z is None: R.undecided('merge: the line before', 'its step')
        else:
            W = conds
            full = lambda t, b: HB(known(t, {fl: b}) if fl is not None else t)
            nx = full(z[1], FALSE); here = band(HB(nonempty), HB(some))
            settle(R, 'merge: the line before', loc, 'a line is compared with the last one written', judge(nx, HB(text), band(here, HB(sub(conds, FALSE)))))
            alt = [judge(nx, w, band(here, bnot(HB(sub(conds, FALSE))))) for w in (HB(pv), HB(text))]
            if any(x.v == 'ok' for x in alt): R.ok('merge: the line before, kept')
            else: settle(R, 'merge: the line before, kept', loc, 'a line is compared with the last one written', alt[0])
        if fl is not None:
            z = step(fl)
            if z is None: R.undecided('merge: first', 'its step')
            else:
                settle(R, 'merge: first at the start', loc, 'the first line is the first', judge(z[0], TRUE))
                settle(R, 'merge: first after', loc, 'only the first line is the first', judge(HB(known(z[1], {fl: FALSE})), FALSE))
                nx = HB(known(z[1], {fl: TRUE}))
                settle(R, 'merge: first once', loc, 'only the first line is the first', judge(nx, FALSE, band(HB(nonempty), HB(some))))
    # the entry after a line has left
    g2, k2, a2, l2 = later[0]; e = a2[1]
    okp = e.op == 'fn' and e.a[0] == 'pair' and getl(e.a[1], 'out:getline:1') and getl(strip1(e.a[1].a[1]), '.second') and strip1(e.a[1].a[1]).a[1] is top_
    c2 = [y for y in atoms_of(g2) if getl(y, 'c:getline') or 'getline' in show(y)]
    if okp: R.ok('merge: next line')
    elif e.op == 'fn' and e.a[0] == 'pair' and e.a[1] is text: R.viol('merge: next line', loc, 'the next line of the file enters', 'the same line enters again', 'next')
    else: R.undecided('merge: next line', show(e)[:120])
    if e.op == 'fn' and e.a[0] == 'pair' and len(e.a) == 3:
        s2 = e.a[2]
        if contains_term(s2, fn('.second', top_)): R.ok('merge: same file')
        else: R.undecided('merge: same file', show(s2)[:100])
    if a2[0] is fn('heap-', hp): R.ok('merge: leaves once')
    elif a2[0] is hp: R.viol('merge: leaves once', loc, 'a line leaves the heap when it is written', 'it stays', 'leaves')
    else: R.undecided('merge: leaves once', show(a2[0])[:80])
    other = band(*[y for y in (g2.a if g2.op == 'and' else [g2]) if 'getline' not in show(y) and y is not fn('.second', top_)])
    settle(R, 'merge: goes on', loc, 'the next line of the file enters whatever became of this one', judge(HB(other), TRUE, HB(some)))
    lams = [y for y in FX.walk(f['body']) if y.get('k') == 'lambda']
    if len(lams) == 1:
        I2, s2 = interp(F, H); clo = I2.ev(lams[0], s2, None)
        u, v = fn('pair', sym('a'), sym('p')), fn('pair', sym('b'), sym('q'))
        try: o = I2.freeze(I2.call_value(clo, [u, v], s2, None, None), s2)
        except Exception as ex: o = None
        if o is None: R.undecided('merge: order', 'comparison')
        elif 'sym' in o.op: R.undecided('merge: order', show(o)[:80])
        else:
            w = lt(sym('b'), sym('a'), False)
            s = show(o).replace('op>(a, b)', '(b < a)').replace('op<(a, b)', '(a < b)').replace('op<(b, a)', '(b < a)').replace('op>(b, a)', '(a < b)')
            if o is w or o is lt(sym('b'), sym('a'), True) or s == show(w) or s == '(b < a)': R.ok('merge: order')
            elif s == '(a < b)': R.viol('merge: order', loc, 'the least line leaves first', 'the greatest does', 'order')
            else: R.undecided('merge: order', s[:80])
    else: R.undecided('merge: order', '%d comparisons' % len(lams))
    if r is TRUE: R.ok('merge: result')
    else: R.undecided('merge: result', show(r)[:80])
def plainvar(y): return y.op not in ('num', 'str', 'bool', 'null', 'fn') and not any(isinstance(z, T) for z in y.a)
def TOPS(x): return fn('none')
def strip1(t):
    while t.op == 'fn' and t.a[0] in ('deref', 'addr') and len(t.a) == 2: t = t.a[1]
    return t
def atoms_of(t):
    if t.op in ('and', 'or', 'not'): return [y for x in t.a for y in atoms_of(x)]
    return [t]
def helpers(F, R):
    f = next((f for f in F.fns.values() if f.get('cls') == CLS and f['n'].endswith('::sort_chunk') and f.get('body')), None)
    if f:
        R.analysed(f); p = sym(f['params'][0]['n']); I, st = interp(F); I.call(f, None, [p], st)
        ss = [x for x in st.eff if x[1] in ('sort', 'stable_sort')]
        w = [fn('iter', p, ZERO), fn('iter', p, fn('size', p))]
        if I.unk or len(ss) != 1: R.undecided('sorting a chunk', '%s, %d sorts' % (I.unk[:1], len(ss)))
        elif list(ss[0][2][:2]) == w: R.ok('sorting a chunk') if len(ss[0][2]) == 2 else R.undecided('sorting a chunk', 'own order')
        elif all(x.op == 'fn' and x.a[0] == 'iter' for x in ss[0][2][:2]): R.viol('sorting a chunk', F.loc(f), 'all the lines of a chunk are sorted', 'sorts %s' % [show(x)[:50] for x in ss[0][2]], 'all')
        else: R.undecided('sorting a chunk', show(ss[0][2][0])[:60])
    f = next((f for f in F.fns.values() if f.get('cls') == CLS and f['n'].endswith('::remove_chunks') and f.get('body')), None)
    if f:
        R.analysed(f); p = sym(f['params'][0]['n']); I, st = interp(F); I.call(f, None, [p], st)
        rs = [x for x in st.eff if x[1] in ('remove', 'remove_all')]
        if len(rs) != 1 or I.unk: R.undecided('removing chunks', '%d removals' % len(rs)); return
        c, bv, lo, hi = unloop(rs[0][0])
        if bv is None: R.viol('removing chunks', F.loc(f), 'every chunk is removed', 'not for each', 'each'); return
        settle(R, 'removing chunks: from', F.loc(f), 'every chunk is removed', judge(lo, ZERO)); settle(R, 'removing chunks: to', F.loc(f), 'every chunk is removed', judge(hi, fn('size', p)))
        settle(R, 'removing chunks: when', F.loc(f), 'every chunk is removed', judge(c, TRUE)); settle(R, 'removing chunks: which', F.loc(f), 'every chunk is removed', judge(rs[0][2][0], fn('at', p, bv)))
def run(F, R):
    R.rule = 'The loops that split a file into chunks and merge them are reduced to one step of their state; every line read must be kept or written by that step, and what is kept at the end must be written.'
    R.floor('sorters', len([f for f in F.fns.values() if f.get('cls') == CLS and f.get('body')]), 2)
    R.notes += ['empty lines are left out', 'lines equal to the one before are left out when duplicates are to be deleted', 'files that do not open are F02']
    sorting(F, R); merging(F, R); helpers(F, R)
