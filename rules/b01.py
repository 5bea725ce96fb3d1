"""B01: byte pair encodings.  Encoding and decoding are the same series of substitutions in opposite directions with roles exchanged, every
learned code is a new one, codes are kept in the order learned, and a saved encoding is read back as saved."""
from iotrace import *
from judge import judge, settle
import f01
C = 'happyml::BytePairEncoderModel'
REPLACE = 'u16string_replace_all_to_buffer'
def fresh(F, hooks, typed=False):
    I = Interp(F, hooks=hooks); I.handlers = True; I.typed = typed; st = St(); o = I.new_obj(C, st)
    for x in F.rec[C]['fields']: I.setf(o, x['n'], sym(x['n']), st)
    return I, st, o
def fields(F, R):
    fs = {x['n']: x['t'] for x in F.rec[C]['fields']}
    tab = [n for n, t in fs.items() if 'vector' in t and 'pair' in t]
    return tab[0] if len(tab) == 1 else None
def replaced(I, e, a, st, this):
    """the substitution, applied to the text in its first operand, lands in its second"""
    v = fn('replaced', I.freeze(a[0], st), I.freeze(a[2], st), I.freeze(a[3], st))
    I.assign(strip(e['a'][1]), v, st, this); return NONE
def replaced_in_place(I, e, a, st, this):
    I.assign(strip(e['a'][0]), fn('replaced', I.freeze(a[0], st), I.freeze(a[1], st), I.freeze(a[2], st)), st, this); return NONE
SUBST = {REPLACE: replaced, 'u16string_replace_all': replaced_in_place, 'string_replace_all': replaced_in_place}
E_ = sym('the entry')
class Traversal:
    """a value carried over every entry of a table: direction, table, value before the first, value after an entry"""
    def __init__(s, t):
        s.ok = False
        if t.op != 'fold': return
        a = t.a
        if isinstance(a[0], T) and a[0].op == 'str' and a[0].a[0] == 'while':
            n = (len(a) - 3) // 3
            if len(a) != 3 * n + 3 or a[3 * n + 3 - n - 1] is not FALSE: return
            init, phi, cond, nxt = a[1:1 + n], a[1 + n:1 + 2 * n], a[1 + 2 * n], a[3 + 2 * n:]
            if n != 2: return
            for k in (0, 1):
                i = init[k]
                if not (i.op == 'fn' and i.a[0] in ('iter', 'riter') and i.a[2] is ZERO): continue
                end = fn(i.a[0], i.a[1], fn('size', i.a[1]))
                if not any(same(cond, bnot(c)) for c in (eq(phi[k], end, 't'), eq(end, phi[k], 't'))): continue
                if not same(nxt[k], fn('inc', phi[k])): continue
                s.table = i.a[1]; s.dir = 1 if i.a[0] == 'iter' else -1
                s.init, s.phi = init[1 - k], phi[1 - k]
                s.step = entry(subst(nxt[1 - k], {phi[k]: E_}), lambda x: x is E_)
                s.ok = True
            return
        if len(a) == 8:
            bv, lo, hi, init, phi, step, stop, d = a
            if stop is not FALSE or lo is not ZERO or hi.op != 'fn' or hi.a[0] != 'size': return
            s.table, s.init, s.phi = hi.a[1], init, phi
            for ix, sgn in ((bv, 1), (sub(sub(hi, ONE), bv), -1)):
                x = T('at', (s.table, ix)); m = [q for q in walk(step) if q.op in ('at', 'fn') and show(q) == show(x)]
                if m:
                    st = subst(step, {q: E_ for q in m})
                    s.dir = sgn * (1 if d.a[0] == 'fwd' else -1)
                    s.step = entry(st, lambda q: q is E_); s.ok = not contains_term(s.step, bv)
                    return
def partial(t):
    """what a loop over the table leaves out, if it certainly leaves something out"""
    a = t.a
    if isinstance(a[0], T) and a[0].op == 'str':
        for i in a[1:1 + (len(a) - 3) // 3]:
            if i.op == 'fn' and i.a[0] in ('iter', 'riter') and is_num(i.a[2]) and i.a[2].a[0] > 0: return 'it starts behind %d of them' % i.a[2].a[0]
        return None
    if len(a) == 8:
        lo, hi = a[1], a[2]
        if is_num(lo) and lo.a[0] > 0: return 'it starts behind %d of them' % lo.a[0]
        ss = [x for x in walk(hi) if x.op == 'fn' and x.a[0] == 'size']
        if len(ss) == 1 and is_num(sub(hi, ss[0])) and sub(hi, ss[0]).a[0] < 0: return 'it ends %d before the last' % -sub(hi, ss[0]).a[0]
    return None
def entry(t, isentry):
    def go(t):
        if t.op == 'fn' and t.a[0] in ('.first', '.second') and isentry(t.a[1]): return sym('the ' + t.a[0][1:])
        if not t.a or not any(isinstance(x, T) for x in t.a): return t
        return rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
    return go(t)
def run(F, R):
    R.rule = 'Encoding and decoding are reduced to traversals of the table of codes and compared; each place that fills the table or takes a code is checked; writer and reader are walked in step.'
    R.floor('class ' + C, int(C in F.rec), 1)
    if C not in F.rec: return
    tab = fields(F, R)
    R.floor('table of codes', int(tab is not None), 1)
    if tab is None: return
    R.notes += ['texts are bytes: a code is never equal to a byte because the least code is above 127 and every code is below 0x7FFF',
                'training stops at 0x7FFE codes; training again beyond that is outside the property', 'a read that fails (file cut short) is outside the property']
    inverse(F, R, tab); substitution(F, R); learned(F, R, tab); order(F, R, tab); above(F, R, tab); files(F, R, tab); limits(F, R)
def inverse(F, R, tab):
    fs = {}
    for mn in ('encode', 'decode'):
        c = [f for f in F.by_mn.get(mn, []) if f.get('cls') == C and f.get('body') and 'vector' not in f['rt'] and len(f['params']) == 1]
        R.floor(mn, len(c), 1)
        if len(c) != 1: return
        f = c[0]; R.analysed(f)
        I, st, o = fresh(F, SUBST)
        v = I.freeze(I.call(f, o, [sym('x')], st), st)
        fs[mn] = (f, v, [u for u in I.unk if u[0] != 'uncounted loop'], st)
    for mn, (f, v, unk, st) in fs.items():
        if unk: R.undecided(mn, 'constructs %s' % unk[:2]); return
    T_, strip_ = {}, {}
    for mn, (f, v, unk, st) in fs.items():
        loc = F.loc(f)
        if st.thr is not FALSE: R.undecided(mn, 'may throw: ' + show(st.thr)[:100]); return
        n = fn('size', sym('x'))
        w, e = when(v, n, 1), when(v, n, 0)
        if w is not when(v, n, 7): R.viol(mn, loc, 'texts of every length are treated alike', 'a text of one character gives %s' % show(w)[:100], 'length') if not [x for x in walk(w) if x.op == 'fold'] else R.undecided(mn, 'depends on the length of the text'); return
        if e.op == 'str': (R.ok(mn + ' of nothing') if e.a[0] == '' else R.viol(mn + ' of nothing', loc, 'nothing is encoded as nothing and decoded as nothing', 'gives ' + show(e), 'empty'))
        else: R.undecided(mn + ' of nothing', show(e)[:120])
        cand = [w] if w.op == 'fold' else [x for x in walk(w) if x.op == 'fold']
        ts = [t for t in map(Traversal, cand) if t.ok]
        if not ts:
            part = [x for x in map(partial, cand) if x]
            if part: R.viol(mn, loc, mn[:-1] + 'ing goes over every code', part[0], 'every code')
            elif not [c for c in cand if any(y.op == 'fn' and y.a[0] == 'replaced' for y in walk(T('list', tuple(z for z in c.a if isinstance(z, T)))))] and any(y.op == 'fn' and y.a[0] == 'replaced' and y.a[1] is sym('x') for y in walk(w)):
                R.viol(mn, loc, 'each substitution continues from the text the previous one left', show(w)[:160], 'chain')
            else: R.undecided(mn, 'not a traversal of the table: ' + show(w)[:200])
            return
        T_[mn] = ts[0]; T_[mn].term = cand[[Traversal(c).ok for c in cand].index(True)]; T_[mn].whole = w
    a, b = T_['encode'], T_['decode']; le, ld = F.loc(fs['encode'][0]), F.loc(fs['decode'][0])
    for mn, t in T_.items():
        ok = t.table is sym(tab)
        (R.ok(mn + ' goes over every code') if ok else R.undecided(mn + ' table', show(t.table)))
    roles = {}
    for mn, t in T_.items():
        s = t.step
        if s.op == 'fn' and s.a[0] == 'replaced' and s.a[1] is t.phi and all(x in (sym('the first'), sym('the second')) for x in s.a[2:4]): roles[mn] = (s.a[2].a[0][4:], s.a[3].a[0][4:])
        elif s.op == 'fn' and s.a[0] == 'replaced' and not contains_term(s.a[1], t.phi):
            R.viol(mn + ' step', F.loc(fs[mn][0]), 'each substitution continues from the text the previous one left', show(s)[:160], 'chain'); return
        else: R.undecided(mn + ' step', show(s)[:160]); return
    if roles['encode'] == ('first', 'second'): R.ok('encoding replaces a pair by its code')
    else: R.viol('encoding', le, 'encoding replaces a pair by its code', 'replaces %s by %s' % roles['encode'], 'roles')
    if roles['decode'] == ('second', 'first'): R.ok('decoding replaces a code by its pair')
    else: R.viol('decoding', ld, 'decoding replaces a code by its pair', 'replaces %s by %s' % roles['decode'], 'roles')
    if a.dir == -b.dir: R.ok('decoding undoes the substitutions last first')
    else: R.viol('direction', ld, 'decoding undoes the substitutions of encoding in the opposite order', 'both go %s through the codes' % ('forwards' if a.dir == 1 else 'backwards'), 'direction')
    R.encdir = a.dir
    # what is put around the text before is taken off after
    i = a.init
    if i is sym('x'): pre = post = None
    elif i.op == 'fn' and i.a[0] == 'concat' and sum(y is sym('x') for y in i.a[1:]) == 1:
        k = [y is sym('x') for y in i.a].index(True)
        one = lambda ys: None if not ys else ys[0] if len(ys) == 1 else fn('concat', *ys)
        pre, post = one(i.a[1:k]), one(i.a[k + 1:])
    else: R.undecided('text encoded', show(i)[:160]); return
    if b.init is not sym('x'): R.undecided('text decoded', show(b.init)[:160]); return
    if a.whole is not a.term: R.undecided('result of encoding', show(a.whole)[:160]); return
    D, w = b.term, b.whole
    lp, ls = (fn('size', pre) if pre is not None else ZERO), (fn('size', post) if post is not None else ZERO)
    if w.op == 'map' and [x for x in w.a[3].a if isinstance(x, T)][:1] == [D]:
        bv, lo, hi, el = w.a[:4]
        n = sub(hi, lo)
        off = subst([x for x in el.a if isinstance(x, T)][1], {bv: lo})
        settle(R, 'decoding takes off what encoding put in front', ld, 'decoding takes off what encoding put in front of the text', judge(off, lp))
        settle(R, 'decoding takes off what encoding put behind', ld, 'decoding takes off what encoding put behind the text', judge(n, sub(sub(fn('size', D), lp), ls)))
    elif w is D:
        (R.ok('nothing is put around the text') if pre is None else R.viol('ends', ld, 'decoding takes off what encoding put around the text', 'the text is returned whole', 'ends'))
    elif w.op == 'fn' and w.a[0] == 'substr' and w.a[1] is D:
        settle(R, 'decoding takes off what encoding put in front', ld, 'decoding takes off what encoding put in front of the text', judge(w.a[2], lp))
        if len(w.a) > 3: settle(R, 'decoding takes off what encoding put behind', ld, 'decoding takes off what encoding put behind the text', judge(w.a[3], sub(sub(fn('size', D), lp), ls)))
    else: R.undecided('result of decoding', show(w)[:160])
def when(t, n, v):
    """t with the comparisons of n (and numbers) decided as they come out for n = v"""
    m = {}
    for x in walk(t):
        if x.op in ('ieq', 'feq', 'teq', 'ilt', 'flt') and contains_term(x, n):
            r = subst(x, {n: num(v)})
            if r in (TRUE, FALSE): m[x] = r
    return subst(t, m)
def substitution(F, R):
    """the loop that replaces every occurrence: a step takes the text up to the occurrence and the replacement and goes on behind the occurrence"""
    fs = [f for f in F.by_mn.get(REPLACE, []) if f.get('body') and len(f['params']) == 4]
    R.floor('substitution', len(fs), 1)
    for f in fs:
        R.analysed(f); loc = F.loc(f)
        nodes = [{'k': 'ref', 'dk': 'var', 'id': 'b01-%d' % i, 'n': 'b%d' % i} for i in range(4)]
        I = Interp(F); I.handlers = True; st = St()
        s, find, repl = sym('s'), sym('find'), sym('repl')
        r = I.inline(f, None, [s, sym('before'), find, repl], st, argnodes=nodes)
        outs = [v for n, v in r[1] if n['id'] == 'b01-1']
        if len(outs) != 1 or [u for u in I.unk if u[0] != 'uncounted loop']: R.undecided('substitution', 'no result or %s' % I.unk[:2]); continue
        v = outs[0]; nf = fn('size', find)
        e = when(v, nf, 0)
        settle(R, 'replacing nothing changes nothing', loc, 'replacing an empty text leaves the text as it is', judge(e, s))
        w = when(v, nf, 1); rest = None
        if w.op == 'fn' and w.a[0] == 'concat' and len(w.a) == 3 and w.a[1].op == 'fold': w, rest = w.a[1], w.a[2]
        if not (w.op == 'fold' and w.a[0].op == 'str' and len(w.a) == 9): R.undecided('substitution', 'shape of the loop: ' + show(w)[:200]); continue
        init, phi, cond, stop, nxt = w.a[1:3], w.a[3:5], w.a[5], w.a[6], w.a[7:9]
        if init[0] is not string('') or init[1] is not ZERO: R.undecided('substitution', 'start of the loop: %s' % [show(x) for x in init]); continue
        res, start = phi
        nxt = [plain(x) for x in nxt]; cond, stop = plain(cond), plain(stop)
        found = [x for x in walk(T('list', tuple(nxt) + (cond, stop))) if x.op == 'fn' and x.a[0] == 'find' and same(x.a[1], s)]
        found = list({show(x): x for x in found}.values())
        if len(found) != 1: R.undecided('substitution', '%d searches in a step' % len(found)); continue
        P = found[0]
        settle(R, 'search', loc, 'the search is for what is to be replaced, from where the last one ended', judge(T('list', tuple(P.a[2:])), T('list', (find, start))))
        npos = [x for x in walk(T('list', tuple(nxt) + (cond, stop))) if x.op in ('ieq', 'feq', 'teq') and contains_term(x, P) and 'npos' in show(x)]
        tests = {x: x for x in npos if any(q is P for q in x.a)}
        if not tests: R.undecided('substitution', 'no test of an unsuccessful search'); continue
        case = lambda t, b: subst(t, {k: boolean(b) for k in tests})
        step = case(nxt[0], True), case(nxt[0], False)
        stp = case(stop, True), case(stop, False)
        pos = case(nxt[1], False)
        tail = concat_norm(fn('concat', res, fn('substr', s, start, sub(fn('size', s), start))))
        if rest is None:
            if stp[0] is TRUE: R.ok('an unsuccessful search ends the loop')
            else: R.viol('end', loc, 'an unsuccessful search ends the loop', 'goes on if %s' % show(bnot(stp[0]))[:100], 'end') if stp[0] is FALSE and case(cond, True) is cond else R.undecided('end', show(stp[0])[:100])
            settle(R, 'what is left is kept', loc, 'the text after the last occurrence is kept', judge(concat_norm(step[0]), tail))
        else: R.undecided('what is left is kept', show(rest)[:100])
        if stp[1] is not FALSE: R.viol('goes on', loc, 'the loop goes on after an occurrence', 'ends if ' + show(stp[1])[:100], 'goes on') if stp[1] is TRUE else R.undecided('goes on', show(stp[1])[:100])
        head = fn('substr', s, start, sub(P, start))
        for b, want in ((True, fn('concat', res, head, repl)), (False, fn('concat', res, head))):
            got = when(step[1], fn('size', repl), 1 if b else 0)
            if not b: got = subst(got, {repl: string('')})
            settle(R, 'a replaced occurrence%s' % ('' if b else ', by nothing'), loc, 'the text before an occurrence is kept and the replacement put after it', judge(concat_norm(got), concat_norm(want)))
        settle(R, 'next search', loc, 'the search goes on right behind the occurrence', judge(pos, add(P, nf)))
        settle(R, 'length of the search', loc, 'the whole text is searched', judge(case(cond, False), lt(start, fn('size', s), True)))
def concat_norm(t):
    if t.op != 'fn' or t.a[0] != 'concat': return t
    out = []
    for p in t.a[1:]:
        p = concat_norm(p)
        if p.op == 'fn' and p.a[0] == 'concat': out += p.a[1:]
        elif p is string(''): continue
        else: out.append(p)
    return out[0] if len(out) == 1 else fn('concat', *out)
TRAIN = 'train_on_vocab'
OPAQUE = {n: (lambda I, e, a, st, this, n=n: fn(n, *[I.freeze(x, st) for x in a])) for n in ('findMostFrequentPair', 'validate_compression_rate', 'getMilliseconds', 'buildVocab')}
OPAQUE['updateCodeForMostFrequentPair'] = OPAQUE['mergePairs'] = lambda I, e, a, st, this: NONE
OPAQUE['find_max_16bit_value'] = lambda I, e, a, st, this: fn('greatest code', a[0])
def whilefold(t):
    n = (len(t.a) - 3) // 3
    return t.a[1:1 + n], t.a[1 + n:1 + 2 * n], t.a[1 + 2 * n], t.a[2 + 2 * n], t.a[3 + 2 * n:]
def counter(F):
    """the field holding the next code: what the learning loop puts in a new one-character text"""
    return 'next_code_' if any(x['n'] == 'next_code_' for x in F.rec[C]['fields']) else None
def learned(F, R, tab):
    fs = [f for f in F.by_mn.get(TRAIN, []) if f.get('body') and f.get('cls') == C]
    R.floor('learning loop', len(fs), 1)
    nc = [x['n'] for x in F.rec[C]['fields'] if 'short' in x['t'] or 'uint16' in x['t']]
    for f in fs:
        R.analysed(f); loc = F.loc(f)
        I, st, o = fresh(F, OPAQUE)
        I.inline(f, o, [sym(p['n']) for p in f['params']], st)
        t = I.freeze(I.getf(o, tab, st), st)
        w = [x for x in walk(t) if x.op == 'fold' and x.a[0].op == 'str' and any(i.op == 'sym' and 'codes' in i.a[0] for i in x.a[1:1 + (len(x.a) - 3) // 3])]
        if not w: R.undecided('learning', 'no loop'); continue
        init, phi, cond, stop, nxt = whilefold(w[0])
        st_ = [x for x in walk(nxt[0]) if x.op == 'fn' and x.a[0] == 'pstore' or x.op == 'pstore']
        st_ = [x for x in st_ if contains_term(x, phi[0])]
        if len(st_) != 1: R.undecided('learning', '%d entries per step: %s' % (len(st_), show(nxt[0])[:150])); continue
        a = [x for x in st_[0].a if isinstance(x, T)]
        base, val, key = a[0], a[1], a[2]
        if not (val.op == 'fn' and val.a[0] == 'strctor' and len(val.a) == 3 and val.a[1] is ONE and val.a[2] in phi):
            if val.op == 'fn' and val.a[0] == 'strctor' and val.a[1] is not ONE and is_num(val.a[1]): R.viol('code', loc, 'a learned code is one character', show(val), 'code')
            else:
                q = [p for p in phi if contains_term(val, p)]
                first = subst(val, dict(zip(phi, init)))
                if val.op == 'fn' and val.a[0] == 'strctor' and not contains_term(first, sym('next_code_')) and all(x.op != 'sym' or x.a[0] in nc for x in walk(first)): R.viol('code', loc, 'codes learned count on from the next code of the model', 'the first is ' + show(first)[:80], 'first'); continue
                (R.undecided if q else lambda i, y: R.viol(i, loc, 'each learned code is new', y, 'code'))('code', show(val)[:120])
            continue
        k = phi.index(val.a[2])
        R.ok('a learned code is one character')
        (R.ok('codes learned count from the next code of the model') if init[k].op == 'sym' and init[k].a[0] in nc else R.viol('first code', loc, 'codes learned count on from the next code of the model', 'from ' + show(init[k])[:80], 'first') if is_num(init[k]) else R.undecided('first code', show(init[k])[:80]))
        # whenever the entry is made, the counter goes up
        go = bnot(stop)
        settle(R, 'each learned code is new', loc, 'the next code goes up by one with every code given', judge(sub(nxt[k], phi[k]), ONE, band(go, cond)))
        fieldv = I.freeze(I.getf(o, init[k].a[0], st), st) if init[k].op == 'sym' else None
        if fieldv is not None:
            if fieldv.op == 'fold' and fieldv.a[0].op == 'str':
                i2, p2, c2, s2, n2 = whilefold(fieldv)
                ok = i2[0] is init[k]; settle(R, 'the model remembers the next code', loc, 'the next code goes up by one with every code given', judge(sub(n2[0], p2[0]), ONE, band(bnot(s2), c2)))
            elif fieldv is init[k]: R.viol('next code kept', loc, 'the model remembers the next code', 'it is as before learning', 'kept')
            else: R.undecided('next code kept', show(fieldv)[:100])
        fm = [x for x in walk(key) if x.op == 'fn' and x.a[0] == 'findMostFrequentPair']
        if key.op == 'fn' and key.a[0] == '.first' and key.a[1].op == 'fn' and key.a[1].a[0] == 'findMostFrequentPair': R.ok('the pair learned is the most frequent one')
        else: R.undecided('pair learned', show(key)[:100])
        # given codes are kept
        (R.ok('codes known before are kept') if init[0].op == 'sym' else R.undecided('codes known before', show(init[0])[:80]))
def sorted_by(I, t, st):
    """(table of entries, comparator applied to (a, b)) of a sorted copy"""
    if t.op == 'fn' and t.a[0] == 'out:sort' and len(t.a) == 4 and t.a[1].op == 'fn' and t.a[1].a[0] == 'iter' and t.a[3].op == 'clo':
        return t.a[1].a[1], I.call_value(t.a[3], [fn('pair', sym('a1'), sym('a2')), fn('pair', sym('b1'), sym('b2'))], st, None, None)
    return None
def order(F, R, tab):
    """every place that fills the table sorts it so that encoding applies codes in the order they were learned (ascending)"""
    n = 0
    for f in [f for fs in F.by_mn.values() for f in fs if f.get('cls') == C and f.get('body') and not f.get('ctor')]:
        if f['mn'] in ('load', 'configure', 'encode', 'decode', 'save', 'train', 'train_on_file', 'train_on_folder'): continue
        if not any(x['k'] in ('mem', 'ref') and x.get('n') == tab for x in FX.walk(f['body'])): continue
        I, st, o = fresh(F, OPAQUE | SUBST)
        I.inline(f, o, [sym(p['n']) for p in f['params']], st)
        t = I.freeze(I.getf(o, tab, st), st)
        if t is sym(tab): continue
        n += 1; R.analysed(f); loc = F.loc(f)
        s = sorted_by(I, t, st)
        inst = 'order of codes after ' + f['mn']
        if s is None:
            if t.op in ('sym', 'list') or (t.op == 'fold') or (t.op == 'map'): R.undecided(inst, 'not sorted: ' + show(t)[:80])
            else: R.undecided(inst, show(t)[:100])
            continue
        src, c = s
        up = getattr(R, 'encdir', None)
        if up is None: R.undecided(inst, 'direction of encoding unknown'); continue
        A, B = sym('a2'), sym('b2')
        asc = [lt(A, B, False), lt(A, B, True), fn('op<', A, B), fn('op>', B, A)]; desc = [lt(B, A, False), lt(B, A, True), fn('op<', B, A), fn('op>', A, B)]
        good, bad = (asc, desc) if up == 1 else (desc, asc)
        if any(c is g for g in good): R.ok(inst, 'encoding goes through codes from the first learned')
        elif any(c is g for g in bad): R.viol(inst, loc, 'encoding goes through codes in the order they were learned', 'entries are sorted the other way round', 'order')
        elif not any(contains_term(c, sym(x)) for x in ('a2', 'b2')): R.viol(inst, loc, 'encoding goes through codes in the order they were learned', 'entries are not sorted by code but by ' + show(c)[:80], 'order')
        else: R.undecided(inst, show(c)[:120])
    R.floor('places that fill the table', n, 2)
def raised(v, tabs):
    """the value of the next code after going over the entries of a table: (body for one entry, table)"""
    for x in walk(v):
        if x.op == 'fn' and x.a[0] == 'maxf' or x.op == 'maxf':
            a = [y for y in x.a if isinstance(y, T)]
            bv, lo, hi, body = a[:4]
            if lo is ZERO and hi.op == 'fn' and hi.a[0] == 'size': 
                at = T('at', (hi.a[1], bv))
                return entry(subst(body, {q: E_ for q in walk(body) if q.op in ('at', 'fn') and show(q) == show(at)}), lambda q: q is E_), hi.a[1]
        if x.op == 'fold':
            t = Traversal(x)
            if t.ok: return ite(le(t.phi, t.step, True), t.step, t.phi), t.table
    return None
def above(F, R, tab):
    W = fn('greatest code', sym('the first')), fn('greatest code', sym('the second'))
    want = add(fn('imax', *W), ONE); alt = add(fn('imax', W[1], W[0]), ONE)
    cap = []
    def grab(I, e, a, st, this):
        fld = {x['n']: I.freeze(I.getf(this, x['n'], st), st) for x in F.rec[C]['fields']}
        cap.append((fld, [I.freeze(x, st) for x in a[1:]])); return NONE
    H = dict(OPAQUE); H[TRAIN] = grab
    jobs = []
    for mn in ('train', 'setBpeCodes'):
        for f in [f for f in F.by_mn.get(mn, []) if f.get('cls') == C and f.get('body')]:
            I, st, o = fresh(F, H); cap.clear()
            I.inline(f, o, [sym(p['n']) for p in f['params']], st)
            if mn == 'train':
                if not cap: R.undecided('next code in train', 'learning loop not called'); continue
                jobs.append((f, cap[0][0]['next_code_'] if 'next_code_' in cap[0][0] else None))
            else: jobs.append((f, I.freeze(I.getf(o, 'next_code_', st), st)))
    R.floor('places that take over codes', len(jobs), 2)
    for f, v in jobs:
        R.analysed(f); inst = 'next code after taking over codes in ' + f['mn']
        if v is None: R.undecided(inst, 'no next code'); continue
        if not any(x.op == 'fn' and x.a[0] == 'greatest code' for x in walk(v)):
            R.viol(inst, F.loc(f), 'the next code is above every code taken over', 'it does not depend on them: ' + show(v)[:80], 'above') if v is sym('next_code_') or is_num(v) else R.undecided(inst, show(v)[:100]); continue
        r = raised(v, tab)
        if r is None: R.undecided(inst, show(v)[:150]); continue
        b = plain(r[0])
        vs = [judge(b, x) for x in (want, alt)]
        ok = [x for x in vs if x.v == 'ok']
        if ok: R.ok(inst)
        else: settle(R, inst, F.loc(f), 'the next code is above every code taken over', vs[0])
def plain(t):
    def go(t):
        if t.op == 'fn' and t.a[0] in ('narrow16u', 'narrow32u', 'narrow32s'): return go(t.a[1])
        if t.op == 'fn' and t.a[0] == 's:find': return rebuild('fn', ['find'] + [go(x) for x in t.a[1:]])
        if not t.a or not any(isinstance(x, T) for x in t.a): return t
        return rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
    return go(t)
def limits(F, R):
    """the greatest code in a text: every character below the reserved one counts"""
    fs = [f for f in F.by_mn.get('find_max_16bit_value', []) if f.get('body')]
    for f in fs:
        R.analysed(f); I = Interp(F); st = St()
        v = I.freeze(I.call(f, None, [sym('text')], st), st)
        t = [x for x in walk(v) if x.op == 'fold' and len(x.a) == 8]
        if not t: R.undecided('greatest code', show(v)[:120]); continue
        bv, lo, hi, init, phi, step, stop, d = t[0].a
        c = sym('character'); s = plain(step); s = subst(s, {x: c for x in walk(s) if x.op in ('at', 'fn') and show(x) == show(T('at', (sym('text'), bv)))})
        lim = [x.a[1] for x in walk(s) if x.op in ('lt', 'le') and x.a[0] is c and is_num(x.a[1])]
        lim = [x for x in lim]
        L = num(32767)
        settle(R, 'greatest code', F.loc(f), 'the greatest character below 0x7FFF', judge(s, ite(band(lt(phi, c, True), lt(c, L, True)), c, phi)))
    ct = F.ctors(C)
    for k in ct:
        for p in k['params']:
            if p.get('d') is not None and any(q in p['t'] for q in ('short', 'uint16')):
                v = Interp(F).ev(p['d'], St(), None)
                R.analysed(k)
                if not is_num(v): R.undecided('separator code', show(v)[:80]); continue
                x = int(v.a[0])
                (R.ok('separator code') if 127 < x < 0x7FFE else R.viol('separator code', F.loc(k), 'the separator code is above every byte and below the limit of codes', str(x), 'separator'))
        I = Interp(F, hooks=OPAQUE); st = St()
        o = I.construct(C, [sym(p['n']) for p in k['params']], st, k['id'])
        d = [p['n'] for p in k['params'] if any(q in p['t'] for q in ('short', 'uint16'))]
        if len(d) != 1: continue
        d = sym(d[0])
        settle(R, 'first code', F.loc(k), 'the first code follows the separator', judge(plain(I.freeze(I.getf(o, 'next_code_', st), st)), add(d, ONE)))
        sep = [x['n'] for x in F.rec[C]['fields'] if 'basic_string<char16_t' in x['t'] and 'vector' not in x['t']]
        for s in sep: settle(R, 'separator', F.loc(k), 'the separator is one character, the separator code', judge(plain(I.freeze(I.getf(o, s, st), st)), fn('strctor', ONE, d)))
def files(F, R, tab):
    sv = [f for f in F.by_mn.get('save', []) if f.get('cls') == C and f.get('body')]; ld = [f for f in F.by_mn.get('load', []) if f.get('cls') == C and f.get('body')]
    R.floor('save and load', len(sv) + len(ld), 2)
    if len(sv) != 1 or len(ld) != 1: return
    H = dict(Tape().hooks()); H['find_max_16bit_value'] = OPAQUE['find_max_16bit_value']
    out = []
    for f, args in ((sv[0], [sym('path'), sym('label'), TRUE]), (ld[0], [sym('path'), sym('label')])):
        R.analysed(f)
        I, st, o = fresh(F, H, True)
        I.inline(f, o, args[:len(f['params'])], st)
        bad = [u for u in I.unk if u[0] != 'uncounted loop']
        if bad: R.undecided(f['mn'], 'constructs %s' % bad[:2]); return
        out.append((I, st, o, tree(st.eff)))
    (Iw, sw, ow, W), (Ir, sr, orr, Rd) = out
    lw, lr = F.loc(sv[0]), F.loc(ld[0])
    # separator, then entries
    if not W or isinstance(W[0], Loop) or len(W) != 2 or not isinstance(W[1], Loop): R.undecided('save', 'layout: %s' % W); return
    hd, lp = W[0], W[1]
    dl = hd.val
    fld = dl.a[0] if dl.op == 'sym' else None
    if fld is None: R.undecided('save', 'separator is ' + show(dl)[:80]); return
    settle(R, 'every code is written', lw, 'every code is written', judge(lp.hi, fn('size', sym(tab)))) if lp.lo is ZERO else R.undecided('every code is written', show(lp.lo))
    wd = []; body = lp.body
    def whole(t): return entry(t, lambda x: show(x) == show(T('at', (sym(tab), lp.bv))))
    for x in body:
        if not isinstance(x, Loop): x.val, x.width = whole(x.val), whole(x.width)
    ends = [sym('the first'), sym('the second')]
    if len(body) != 4: R.undecided('save', '%d items for a code' % len(body)); return
    for k in (0, 2):
        ln_, tx = body[k], body[k + 1]
        which = [e for e in ends if same(tx.val, e)]
        if len(which) != 1: R.undecided('save', 'text written: ' + show(tx.val)[:80]); return
        settle(R, 'length of %s' % which[0].a[0], lw, 'the length written is that of the text after it', judge(plain(ln_.val), fn('size', which[0])))
        settle(R, 'size of %s' % which[0].a[0], lw, 'the whole text is written', judge(plain(tx.width), mul(num(2), fn('size', which[0]))))
        wd.append(('.' + which[0].a[0][4:], ln_.width))
    if {x for x, _ in wd} != {'.first', '.second'}: R.viol('save', lw, 'both texts of a code are written', 'writes %s' % [x for x, _ in wd], 'both'); return
    # reader
    items = [x for x in Rd]
    if any(isinstance(x, Loop) for x in items):
        flat = []
        for x in items: flat += list(x.body) if isinstance(x, Loop) else [x]
        items = flat
    if len(items) != 5: R.undecided('load', '%d items' % len(items)); return
    rs = items
    IN = lambda x: fn('in', x.val)
    settle(R, 'separator width', lr, 'the separator is read as wide as it was written', judge(rs[0].width, hd.width))
    got = Ir.freeze(Ir.getf(orr, fld, sr), sr)
    settle(R, 'separator read', lr, 'the separator read is the one written', judge(plain(got), IN(rs[0])))
    for k in (0, 1):
        a, b = rs[1 + 2 * k], rs[2 + 2 * k]
        settle(R, 'width of length %d' % (k + 1), lr, 'a length is read as wide as it was written', judge(a.width, wd[k][1]))
        settle(R, 'size of text %d' % (k + 1), lr, 'as much text is read as its length says', judge(plain(b.width), mul(num(2), IN(a))))
    tv = Ir.freeze(Ir.getf(orr, tab, sr), sr)
    eof = [x for x in walk(tv) if x.op == 'fn' and str(x.a[0]).endswith('eof')]
    tv = subst(tv, {x: FALSE for x in eof})
    if not (tv.op == 'fold' and tv.a[0].op == 'str'): R.undecided('codes read', show(tv)[:150]); return
    init, phi, cond, stop, nxt = whilefold(tv)
    order_ = {wd[0][0]: IN(rs[2]), wd[1][0]: IN(rs[4])}
    want = fn('push', phi[0], fn('pair', order_['.first'], order_['.second']))
    if init[0].op == 'list' and not init[0].a: R.ok('codes known before are forgotten')
    else: R.viol('codes known before', lr, 'a loaded encoding has the codes of the file only', 'added to ' + show(init[0])[:60], 'before') if init[0] is sym(tab) else R.undecided('codes known before', show(init[0])[:80])
    if stop is not FALSE: R.undecided('codes read', 'ends if ' + show(stop)[:80])
    n = nxt[0]
    if n.op == 'push' and n.a[0] is phi[0]: settle(R, 'codes read', lr, 'a code is read as it was written, in order', judge(n.a[1], fn('pair', order_['.first'], order_['.second'])))
    else: R.undecided('codes read', show(n)[:120])
    nc = Ir.freeze(Ir.getf(orr, 'next_code_', sr), sr); nc = subst(nc, {x: FALSE for x in eof})
    if nc.op == 'fold' and nc.a[0].op == 'str':
        i2, p2, c2, s2, n2 = whilefold(nc)
        g = [fn('greatest code', order_['.first']), fn('greatest code', order_['.second'])]
        vs = [judge(plain(n2[0]), fn('imax', add(fn('imax', *x), ONE), p2[0])) for x in (g, g[::-1])]
        ok = [x for x in vs if x.v == 'ok']
        (R.ok('next code after loading') if ok else settle(R, 'next code after loading', lr, 'the next code is above every code read', vs[0]))
        settle(R, 'next code before the first', lr, 'codes given after loading start above the separator', judge(plain(i2[0]), add(IN(rs[0]), ONE)))
    elif not any(x.op == 'fn' and x.a[0] == 'greatest code' for x in walk(nc)): R.viol('next code after loading', lr, 'the next code is above every code read', 'it does not depend on them', 'next')
    else: R.undecided('next code after loading', show(nc)[:120])
