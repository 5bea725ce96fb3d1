"""X01: text fields of delimited files.  Encoder, decoder, writer and reader are loops over characters; their steps are extracted as decision
graphs and evaluated per class of character (escape, separator, line end, quote, any other) with what follows left open.  The reading steps
must undo the writing steps class by class, which gives the property for every text by induction over its characters."""
from iotrace import *
from judge import judge, settle
W, RD, LW = 'happyml::DelimitedTextFileWriter', 'happyml::DelimitedTextFileReader', 'happyml::TextLineFileWriter'
D, OTHER, REST = sym('the delimiter'), sym('another character'), sym('length of what follows')
NL, QUOTE, LT = 10, 34, 60
def opaque(n):
    def h(I, e, a, st, this): return fn(n, *[I.freeze(x, st) for x in a])
    return h
def replaced(I, e, a, st, this):
    I.assign(strip(e['a'][0]), fn('replaced', I.freeze(a[0], st), I.freeze(a[1], st), I.freeze(a[2], st)), st, this); return NONE
def writeline(I, e, a, st, this):
    I.emit(st, 'line', (I.freeze(a[1], st),), e); return NONE
HOOKS = {'string_replace_all': replaced, 'encodeString': opaque('enc'), 'decodeString': opaque('dec'), 'strip': opaque('strip'), 'isFloat': opaque('isfloat'), 'writeLine': writeline}
def fresh(F, cls, hooks):
    I = Interp(F, hooks=hooks); I.handlers = True; st = St()
    if cls is None: return I, st, None
    o = I.new_obj(cls, st)
    for x in F.rec[cls]['fields']: I.setf(o, x['n'], sym(x['n']), st)
    return I, st, o
def parts(t):
    """characters of a text built by appending to a prefix: (prefix, [character])"""
    if t.op == 'fn' and t.a[0] == 'concat':
        out = []; p0 = t.a[1]; q = list(t.a[2:])
        if p0.op == 'bv' or p0.op in ('fold',) or p0.op == 'sym' and False: pass
        for x in q: out += chars(x)
        return p0, out
    return t, []
def chars(x):
    if x.op == 'str': return [num(ord(c)) for c in x.a[0]]
    if x.op == 'fn' and x.a[0] == 'chr': return [x.a[1]]
    return [x]
def distinct(t):
    """comparisons between the classes of character decided: they differ from each other and from every written-out character"""
    def go(t):
        if not t.a or not any(isinstance(x, T) for x in t.a): return t
        a = [go(x) if isinstance(x, T) else x for x in t.a]
        if t.op in ('ieq', 'feq', 'teq'):
            x, y = a[-2], a[-1]; cs = (D, OTHER)
            if x in cs and y in cs: return boolean(x is y)
            if (x in cs and is_num(y)) or (y in cs and is_num(x)): return FALSE
        return rebuild(t.op, a)
    return go(t)
def isat(t, text): return t.op == 'fn' and t.a[0] == 'at' and show(t.a[1]) == show(text)
def place(t, i, text, known, open_=True):
    """t at position i of a text whose next characters are known; what follows has any length (or is nothing)"""
    res = []
    for r in ((0, 1, 1000003) if open_ else (0,)):
        n = len(known) + r
        def go(t):
            if t is i: return ZERO
            if t.op == 'fn' and t.a[0] == 'size' and show(t.a[1]) == show(text): return num(n)
            if isat(t, text):
                k = go(t.a[2])
                if is_num(k) and 0 <= k.a[0] < len(known): return known[int(k.a[0])]
                if is_num(k) and k.a[0] >= n: return sym('beyond the text')
                return sym('a character that follows')
            if not t.a or not any(isinstance(x, T) for x in t.a): return t
            return rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        res.append(distinct(go(t)))
    return res[0] if all(x is res[0] for x in res) else None
def whilefold(t):
    n = (len(t.a) - 3) // 3
    return t.a[1:1 + n], t.a[1 + n:1 + 2 * n], t.a[1 + 2 * n], t.a[2 + 2 * n], t.a[3 + 2 * n:]
def name(c): return {NL: 'a line end', QUOTE: 'a quote', LT: "'<'"}.get(int(c.a[0]), chr(int(c.a[0]))) if is_num(c) else 'the delimiter' if c is D else 'another character'
def txt(cs): return ''.join(chr(int(c.a[0])) if is_num(c) else '{%s}' % c.a[0] for c in cs)
CLASSES = [num(LT), D, num(NL), num(QUOTE), OTHER]
def run(F, R):
    R.rule = 'Per class of character, the step of the reader undoes the step of the writer, whatever follows.'
    R.notes += ['the delimiter is not a quote, a line end, a character of a number or of the escapes (<, >, _, ~, D, N)', 'a field is written without white space around it and without one pair of quotes around it',
                'std::isspace, std::from_chars and std::getline are as the standard defines them']
    for c in (W, RD): R.floor('class ' + c, int(c in F.rec), 1)
    E = encoder(F, R)
    if E: decoder(F, R, E); fields(F, R, E)
    number(F, R); stripped(F, R); delimiters(F, R); lines(F, R)
def one(F, mn, cls=None, n=None):
    c = [f for f in F.by_mn.get(mn, []) if f.get('body') and (cls is None or f.get('cls') == cls) and (n is None or len(f['params']) == n)]
    return c[0] if len(c) == 1 else None
def encoder(F, R):
    f = one(F, 'encodeString', n=2); R.floor('encodeString', int(f is not None), 1)
    if f is None: return None
    R.analysed(f); loc = F.loc(f)
    I, st, _ = fresh(F, None, {})
    t = I.freeze(I.call(f, None, [sym('s'), D], st), st)
    if I.unk or t.op != 'fold' or len(t.a) != 8: R.undecided('encodeString', 'not one loop over the characters: %s' % show(t)[:160]); return None
    bv, lo, hi, init, phi, step, stop, d = t.a
    if lo is not ZERO or show(hi) != 'size(s)' or stop is not FALSE or d.a[0] != 'fwd':
        if is_num(lo) and lo.a[0] > 0: R.viol('encodeString', loc, 'every character is encoded', 'starts at %d' % lo.a[0], 'all')
        else: R.undecided('encodeString', 'bounds %s..%s' % (show(lo), show(hi)))
        return None
    E = {}
    for c in CLASSES:
        v = place(step, bv, sym('s'), [c])
        if v is None: R.undecided('encoding of ' + name(c), 'depends on what follows'); return None
        p, cs = parts(v)
        if p is not phi or any(not is_num(x) and x not in (D, OTHER) for x in cs): R.undecided('encoding of ' + name(c), show(v)[:120]); return None
        E[c] = cs
        bad = [x for x in cs if x is D and True or is_num(x) and x.a[0] == NL]
        if bad: R.viol('encoding of ' + name(c), loc, 'an encoded field has no raw delimiter or line end', '%s is written as %s' % (name(c), txt(cs)), 'raw %s' % name(c))
        elif not cs: R.viol('encoding of ' + name(c), loc, 'every character is encoded', name(c) + ' is dropped', 'dropped %s' % name(c))
        else: R.ok('encoding of ' + name(c), txt(cs))
    seen = {}
    for c, cs in E.items():
        k = txt(cs)
        if k in seen: R.viol('distinct encodings', loc, 'different characters have different encodings', '%s and %s are both written as %s' % (name(seen[k]), name(c), k), 'same %s' % k)
        seen[k] = c
    return E
def decoder(F, R, E):
    f = one(F, 'decodeString', n=2); R.floor('decodeString', int(f is not None), 1)
    if f is None: return
    R.analysed(f); loc = F.loc(f)
    I, st, _ = fresh(F, None, {})
    t = I.freeze(I.call(f, None, [sym('s'), D], st), st)
    if [u for u in I.unk if u[0] != 'uncounted loop']: R.undecided('decodeString', 'constructs %s' % I.unk[:2]); return
    if t.op == 'fold' and len(t.a) == 8 and not (t.a[0].op == 'str'):
        bv, lo, hi, init, phi, step, stop, d = t.a
        res, i, nres, ni, cond = phi, bv, step, add(bv, ONE), lt(bv, hi, True)
    elif t.op == 'fold' and t.a[0].op == 'str' and len(t.a) == 9:
        init, phi, cond, stop, nxt = whilefold(t)
        k = 0 if init[1] is ZERO else 1
        if init[1 - k] is not ZERO and init[1] is not ZERO: R.undecided('decodeString', 'start %s' % [show(x) for x in init]); return
        res, i, nres, ni = phi[k], phi[1 - k], nxt[k], nxt[1 - k]
    else: R.undecided('decodeString', 'not one loop over the characters: ' + show(t)[:160]); return
    if stop is not FALSE: R.undecided('decodeString', 'may stop if ' + show(stop)[:80]); return
    for c in CLASSES:
        inst = 'decoding of %s' % name(c)
        known, pos, got = list(E[c]), 0, []
        why = None
        while pos < len(known) and why is None:
            rest = known[pos:]
            g = place(cond, i, sym('s'), rest)
            v, n = place(nres, i, sym('s'), rest), place(ni, i, sym('s'), rest)
            if g is not TRUE: why = 'the loop may end before'; break
            if v is None or n is None: why = ('dep', 'what is read for %s depends on what follows it' % txt(known)); break
            if not is_num(n): why = 'position ' + show(n)[:60]; break
            p, cs = parts(v)
            if p is not res or any(not is_num(x) and x not in (D, OTHER) for x in cs):
                why = ('dep', 'reading %s takes characters that follow it' % txt(known)) if 'follows' in show(v) else 'result ' + show(v)[:80]; break
            got += cs; pos += int(n.a[0])
            if n.a[0] < 1: why = ('dep', 'the position does not advance'); break
        if isinstance(why, str): R.undecided(inst, why)
        elif why: R.viol(inst, loc, 'decoding gives back the character encoded', why[1], inst)
        elif pos != len(known): R.viol(inst, loc, 'decoding gives back the character encoded', 'reading %s takes %d characters instead of %d' % (txt(known), pos, len(known)), inst)
        elif len(got) != 1 or got[0] is not c: R.viol(inst, loc, 'decoding gives back the character encoded', '%s is written as %s and read as %s' % (name(c), txt(known), txt(got) or 'nothing'), inst)
        else: R.ok(inst, 'whatever follows')
def homo(t, E, s):
    """what becomes of a character of s in text t: enc(x), replaced(x, a, b), s itself; None if something else is done"""
    if t is s: return lambda c: [c]
    if t.op == 'fn' and t.a[0] == 'enc':
        g = homo(t.a[1], E, s)
        return g and (lambda c: [y for x in g(c) for y in E.get(x, [x])])
    if t.op == 'fn' and t.a[0] == 'replaced' and t.a[2].op == 'str' and len(t.a[2].a[0]) == 1 and t.a[3].op == 'str':
        g = homo(t.a[1], E, s); k = num(ord(t.a[2].a[0])); by = [num(ord(c)) for c in t.a[3].a[0]]
        return g and (lambda c: [y for x in g(c) for y in (by if x is k else [x])])
    return None
def fields(F, R, E):
    f = one(F, 'writeRecord', W); R.floor('writeRecord', int(f is not None), 1)
    g = one(F, 'nextRecord', RD)
    R.floor('nextRecord', int(g is not None), 1)
    if f is None or g is None: return
    R.analysed(f); R.analysed(g)
    loc = F.loc(f)
    I, st, o = fresh(F, W, HOOKS)
    I.inline(f, o, [sym('record')], st)
    ls = [e for e in st.eff if e[1] == 'line']
    dl = [x['n'] for x in F.rec[W]['fields'] if x['t'] == 'char']; rdl = [x['n'] for x in F.rec[RD]['fields'] if x['t'] == 'char']
    if len(ls) != 1 or I.unk or len(dl) != 1 or len(rdl) != 1: R.undecided('record', '%d lines written, %s' % (len(ls), I.unk[:2])); return
    v = subst(ls[0][2][0], {sym(dl[0]): D})
    quoted = None
    rec = [x for x in walk(v) if isat(x, sym('record'))]
    sj = [x for x in walk(v) if x.op == 'sjoin' or x.op == 'fn' and x.a[0] == 'sjoin']
    bare = lambda t: t is D or not (t.op == 'fn' and t.a and t.a[0] == 'enc') and any(isinstance(x, T) and bare(x) for x in t.a)
    if v.op != 'fold' and len(sj) == 1 and not bare(v): R.viol('separator', loc, 'fields are separated by the delimiter', 'nothing is written between fields', 'separator'); return
    if v.op != 'fold' or not rec: R.undecided('record', 'not a loop over the fields: ' + show(v)[:160]); return
    a = v.a; k = (len(a) - 5) // 3
    if len(a) != 3 * k + 5 or k not in (1, 2): R.undecided('record', 'loop with %d values' % k); return
    lo, hi = a[1], a[2]; init, phi, nxt, stop, dr = a[3:3 + k], a[3 + k:3 + 2 * k], a[3 + 2 * k:3 + 3 * k], a[-2], a[-1]
    if lo is not ZERO or show(hi) != 'size(record)' or stop is not FALSE or dr.a[0] != 'fwd':
        if is_num(lo) and lo.a[0] > 0: R.viol('record', loc, 'every field is written', 'starts at %d' % lo.a[0], 'all')
        else: R.undecided('record', 'fields %s..%s' % (show(lo), show(hi)))
        return
    R.ok('every field is written')
    col = rec[0]; s = fn('strip', col)
    body = nxt[0]
    if k == 2:
        if not (body.op == 'fn' and body.a[0] == 'concat' and body.a[1] is phi[0] and body.a[2] is phi[1]):
            if body.op == 'fn' and body.a[0] == 'concat' and body.a[1] is phi[0] and not contains_term(body, phi[1]): R.viol('separator', loc, 'fields are separated by the delimiter', 'nothing between fields', 'separator')
            else: R.undecided('separator', show(body)[:100])
            return
        sep = nxt[1]
        if init[1] is not string(''): R.viol('separator', loc, 'nothing comes before the first field', show(init[1]), 'first') if init[1].op == 'str' or init[1] is D else R.undecided('separator', show(init[1]))
        elif sep is D or sep.op == 'fn' and sep.a[0] in ('strctor', 'chr') and sep.a[-1] is D: R.ok('fields are separated by the delimiter')
        elif sep.op in ('str', 'num'): R.viol('separator', loc, 'fields are separated by the delimiter', 'separated by ' + show(sep), 'separator')
        else: R.undecided('separator', show(sep)[:80])
        text = body.a[3:]
    else:
        if not (body.op == 'fn' and body.a[0] == 'concat' and body.a[1] is phi[0]): R.undecided('separator', show(body)[:100]); return
        sepn = body.a[2] if len(body.a) > 3 else None
        want = [show(ite(c, x, y)) for c, x, y in ((lt(ZERO, a[0], True), D, string('')), (eq(a[0], ZERO, 'i'), string(''), D))]
        if sepn is not None and show(sepn) in want: R.ok('fields are separated by the delimiter')
        elif sepn is None: R.undecided('separator', show(body)[:100]); return
        else: R.undecided('separator', show(sepn)[:80])
        text = body.a[3:]
    if len(text) != 1: text = (fn('concat', *text),)
    cases = []
    def split(t, conds):
        if t.op == 'ite': split(t.a[1], conds + [t.a[0]]); split(t.a[2], conds + [bnot(t.a[0])])
        else: cases.append((t, conds))
    split(text[0], [])
    H = None; isf = fn('isfloat', s); raws = []
    n = fn('size', s); first = [x for x in walk(v) if isat(x, s) and x.a[2] is ZERO]
    for t, cs in cases:
        c = band(*cs)
        if c is FALSE: continue
        if t is s or t is col:
            # written as it is: only numbers and nothing
            num_ = contains_term(c, isf) and subst(c, {isf: FALSE}) is FALSE
            empty = subst(c, {n: num(1)}) is FALSE and subst(c, {n: num(9)}) is FALSE
            if t is col and t is not s: R.undecided('field as it is', 'without its white space?'); continue
            if num_ or empty: R.ok('a field written as it is is %s' % ('a number' if num_ else 'empty')); raws.append(c)
            elif not contains_term(c, isf): R.viol('field as it is', loc, 'only numbers are written without quotes', 'written as it is if ' + show(c)[:120], 'unquoted')
            else: R.undecided('field as it is', show(c)[:120])
            continue
        if not (t.op == 'fn' and t.a[0] == 'concat' and len(t.a) == 4 and t.a[1] is string('"') and t.a[3] is string('"')):
            if t.op == 'fn' and t.a[0] in ('enc', 'replaced'): R.viol('quotes', loc, 'text is written in quotes', show(t)[:100], 'quotes')
            elif t.op == 'str': R.viol('field', loc, 'every field is written', 'written as ' + show(t), 'field')
            else: R.undecided('field', show(t)[:120])
            continue
        inner = t.a[2]
        src = [x for x in walk(inner) if x is s]
        sb = [x for x in walk(inner) if x.op == 'fn' and x.a[0] in ('s:substr', 'substr')]
        if any(x.op == 'fn' and x.a[0] == 'enc' and x.a[2] is not D for x in walk(inner)):
            R.viol('delimiter', loc, 'a field is encoded for the delimiter of the file', show(inner)[:100], 'delimiter'); continue
        base = sb[0] if sb else s
        if sb:
            b = sb[0]
            settle(R, 'quotes taken off', loc, 'exactly one quote is taken off at either end', judge(T('list', tuple(b.a[2:])), T('list', (ONE, add(n, num(-2))))))
            lo_ = [c2 for c2 in cs if c2 is not TRUE]
            short = distinct(subst(c, {n: ONE}))
            q0 = {x: num(QUOTE) for x in walk(short) if isat(x, s)}
            nolen = subst(short, q0)
            if nolen is FALSE: R.ok('a single quote is not taken for a quoted text')
            elif nolen is TRUE or True and not contains_term(nolen, n): R.viol('single quote', loc, 'a text of a single quote is a text', 'it is taken for a pair of quotes around nothing', 'single quote') if nolen is TRUE else R.undecided('single quote', show(nolen)[:100])
            ats = {show(x): x for x in walk(c) if isat(x, s)}
            for x in ats.values():
                z = subst(c, {x: num(97)})
                if z is not FALSE: R.viol('quotes taken off', loc, 'only quotes are taken off', 'also if a character there is another: ' + show(z)[:80], 'taken off')
            if len(ats) < 2: R.viol('quotes taken off', loc, 'only a pair of quotes is taken off', 'looks at %s only' % list(ats), 'pair')
        g_ = homo(inner, E, base)
        if g_ is None: R.undecided('field', show(inner)[:120]); continue
        tab = {c_: g_(c_) for c_ in CLASSES}
        if H is None or H != tab: reading(F, R, g, E, tab, loc, 'quoted' if sb else 'text', rdl[0])
        H = tab
    R.floor('ways a field is written', len(cases), 2)
def reading(F, R, g, E, H, wloc, which, rdl):
    """the reader's automaton on a field in quotes"""
    loc = F.loc(g)
    hk = dict(HOOKS); hk['decode'] = opaque('field'); hk['hasNext'] = opaque('more'); hk['nextLine'] = opaque('line')
    hk['decode'] = lambda I, e, a, st, this: fn('field', I.freeze(a[1] if len(a) > 1 else a[0], st))
    I, st, o = fresh(F, RD, hk)
    v = I.freeze(I.call(g, o, [], st), st)
    v = subst(v, {sym(rdl): D})
    if [u for u in I.unk if u[0] != 'uncounted loop']: R.undecided('reading a record', 'constructs %s' % I.unk[:2]); return
    line = [x for x in walk(v) if x.op == 'fn' and x.a[0] == 'line']
    if not line: R.undecided('reading a record', 'no line is read'); return
    line = line[0]
    # the inner loop with every value it carries: fields, in quotes, position, word
    inner = [x for x in walk(v) if x.op == 'fold' and x.a[0].op == 'str' and any(isat(y, line) for y in walk(T('list', tuple(x.a[-((len(x.a) - 3) // 3):])))) and any(y.op == 'push' for y in walk(T('list', tuple(x.a[-((len(x.a) - 3) // 3):]))))]
    outer = [x for x in inner if any(x2 is not x and contains_term(x, x2) for x2 in inner)]
    inner = [x for x in inner if x not in outer]
    counted = lambda t: any(x.op == 'fold' and x.a[0].op != 'str' and contains_term(x.a[2], line) for x in walk(t))
    if not inner or counted(inner[0]):
        ct = [x for x in walk(v) if x.op == 'fold' and x.a[0].op != 'str' and contains_term(x.a[2], line) and any(y.op == 'push' for y in walk(T('list', x.a[3:])))]
        ct = [x for x in ct if not any(y is not x and contains_term(x, y) for y in ct)]
        if not ct: R.undecided('reading a record', 'no loop over the characters'); return
        a = ct[0].a; k = (len(a) - 5) // 3
        init, phi, nxt, stop = list(a[3:3 + k]) + [a[1]], list(a[3 + k:3 + 2 * k]) + [a[0]], list(a[3 + 2 * k:3 + 3 * k]) + [add(a[0], ONE)], a[-2]
        cond = lt(a[0], a[2], True)
    else: init, phi, cond, stop, nxt = whilefold(inner[0])
    if len(phi) != 4 or stop is not FALSE: R.undecided('reading a record', 'loop over %d values' % len(phi)); return
    role = {}
    for k in range(4):
        if nxt[k].op != 'bool' and any(x.op == 'push' and x.a[0] is phi[k] for x in walk(nxt[k])): role['out'] = k
        elif init[k] is ZERO: role['i'] = k
        elif any(x.op == 'fn' and x.a[0] == 'concat' and x.a[1] is phi[k] for x in walk(nxt[k])): role['word'] = k
        else: role['q'] = k
    if len(role) != 4: R.undecided('reading a record', 'roles %s' % role); return
    i = phi[role['i']]
    def run_(known, q, open_=True, stop_at=None):
        """state after the known characters: (in quotes, word appended or None if ended, fields pushed)"""
        pos, word, pre, out = 0, [], phi[role['word']], []
        stop_at = len(known) if stop_at is None else stop_at
        while pos < stop_at:
            rest = known[pos:]; m = {phi[role['q']]: boolean(q)}
            vs = []
            for k in ('q', 'i', 'word', 'out'):
                x = place(subst(nxt[role[k]], m), i, line, rest, open_)
                if x is None: return None, 'what is read depends on what follows'
                vs.append(x)
            cg = place(cond, i, line, rest, open_)
            if cg is not TRUE: return None, 'the loop may end before the end of the line'
            nq, ni, nw, no = vs
            if nq not in (TRUE, FALSE): return None, 'quotes: ' + show(nq)[:80]
            if not is_num(ni) or ni.a[0] < 1: return None, 'position: ' + show(ni)[:80]
            if no is not phi[role['out']]:
                if not (no.op == 'push' and no.a[0] is phi[role['out']]): return None, 'fields: ' + show(no)[:80]
                x = no.a[1]; out.append((x, list(word), pre is not None))
            if nw is phi[role['word']]: pass
            elif nw is string(''): word, pre = [], None
            else:
                p, cs = parts(nw)
                if p is not phi[role['word']] or any(not is_num(c) and c not in (D, OTHER) for c in cs): return None, 'word: ' + show(nw)[:80]
                word += cs
            q = nq is TRUE; pos += int(ni.a[0])
        return (q, word, pre, out, pos), None
    def expect(inst, rule, known, q, wq, wword, nout=0, open_=True, stop_at=None):
        r, why = run_(known, q, open_, stop_at)
        if r is None: (R.viol(inst, loc, rule, why, inst) if 'depends' in why or 'may end' in why else R.undecided(inst, why)); return
        q2, word, pre, out, pos = r
        bad = []
        if q2 is not wq: bad.append('is then %s quotes' % ('in' if q2 else 'not in'))
        if [show(x) for x in word] != [show(x) for x in wword]: bad.append('reads %s instead of %s' % (txt(word) or 'nothing', txt(wword) or 'nothing'))
        if len(out) != nout: bad.append('ends %d fields' % len(out))
        if pos != (len(known) if stop_at is None else stop_at): bad.append('takes %d characters' % pos)
        if bad: R.viol(inst, loc, rule, '%s: %s' % (txt(known), ', '.join(bad)), inst)
        else: R.ok(inst, txt(known))
        return out
    Q = num(QUOTE)
    expect('opening quote (%s)' % which, 'a quote begins a text in quotes', [Q], False, True, [])
    for c in CLASSES:
        expect('reading %s (%s)' % (name(c), which), 'reading gives back what was encoded', H[c], True, True, E[c])
    expect('closing quote before the delimiter (%s)' % which, 'a quote ends a text in quotes', [Q, D], True, False, [], stop_at=1)
    expect('closing quote at the end (%s)' % which, 'a quote ends a text in quotes', [Q], True, False, [], open_=False)
    expect('character outside quotes (%s)' % which, 'a number is read as it was written', [OTHER], False, False, [OTHER])
    expect('delimiter in quotes (%s)' % which, 'a delimiter in quotes belongs to the text', [D], True, True, [D])
    out = expect('delimiter (%s)' % which, 'the delimiter ends a field', [D], False, False, [], 1)
    fieldv = fn('field', phi[role['word']])
    if out:
        x = out[0][0]
        (R.ok('the field is the word read') if show(x) == show(fieldv) else R.undecided('field', show(x)[:100]))
    # start and end of a record
    if v.op == 'push': last = v.a[1]; (R.ok('the last field is the word read') if last.op == 'fn' and last.a[0] == 'field' else R.undecided('last field', show(last)[:100]))
    elif v.op == 'ite' and any(x.op == 'fold' for x in v.a[1:]) and any(x.op == 'push' for x in v.a[1:]): R.viol('last field', loc, 'the last field of a record is read', 'only depending on ' + show(v.a[0])[:60], 'last')
    elif v.op == 'fold': R.viol('last field', loc, 'the last field of a record is read', 'the fields are those before a delimiter', 'last')
    else: R.undecided('last field', show(v)[:100])
    fd = one(F, 'decode', RD)
    if fd is None: R.undecided('field', 'no decode'); return
    R.analysed(fd); I, st, o = fresh(F, RD, HOOKS)
    w = sym('the word'); t = subst(I.freeze(I.call(fd, o, [w], st), st), {sym(rdl): D})
    s = fn('strip', w)
    while [x for x in walk(t) if x.op == 'fn' and x.a[0] == 'strip' and x.a[1].op == 'fn' and x.a[1].a[0] == 'strip']: t = subst(t, {x: x.a[1] for x in walk(t) if x.op == 'fn' and x.a[0] == 'strip' and x.a[1].op == 'fn' and x.a[1].a[0] == 'strip'})
    if t.op == 'fn' and t.a[0] == 'dec' and t.a[1] in (s, w): 
        (R.ok('a field is the decoded word') if t.a[2] is D else R.viol('field', F.loc(fd), 'a field is decoded for the delimiter of the file', show(t.a[2]), 'delimiter'))
    elif t in (s, w): R.viol('field', F.loc(fd), 'a field is the decoded word', 'it is not decoded', 'decoded')
    elif any(x.op == 'fn' and x.a[0] == 'replaced' for x in walk(t)) or any(x.op == 'fn' and x.a[0] in ('s:substr', 'substr') for x in walk(t)):
        R.viol('field', F.loc(fd), 'a field is the decoded word', 'quotes that belong to the text are changed: ' + show(t)[:160], 'field')
    else: R.undecided('field', show(t)[:160])
    # no encoded character begins or ends with white space it did not have
    ws = {32, 9, 10, 11, 12, 13}
    bad = [c for c in CLASSES if E[c] and not (c is OTHER) and any(is_num(x) and int(x.a[0]) in ws for x in (E[c][0], E[c][-1]))]
    (R.viol('white space', wloc, 'encoding puts no white space at the ends of a text', name(bad[0]), 'space') if bad else R.ok('encoding puts no white space at the ends of a text'))
def number(F, R):
    fs = [f for f in F.by_mn.get('isFloat', []) if f.get('body')]
    for f in fs:
        R.analysed(f); I = Interp(F); st = St()
        t = I.freeze(I.call(f, None, [sym('t')], st), st)
        fc = [x for x in walk(t) if x.op == 'fn' and x.a[0] == 'c:from_chars']
        if not fc: R.undecided('isFloat', show(t)[:120]); continue
        end = [x for x in walk(t) if x.op in ('ieq', 'feq', 'teq') and any(y.op == 'fn' and y.a[0] == '.first' and y.a[1] is fc[0] for y in x.a if isinstance(y, T))]
        if not end: R.viol('isFloat', F.loc(f), 'only a text that is a number as a whole is written without quotes', 'how much of the text was read is not looked at', 'whole'); continue
        z = subst(t, {x: FALSE for x in end})
        e = [y for y in end[0].a if isinstance(y, T) and not (y.op == 'fn' and y.a[0] == '.first')]
        if z is FALSE and e and show(e[0]) in ('(t + size(t))', '(size(t) + t)'): R.ok('a number is the whole text')
        elif z is TRUE or z is not FALSE: R.viol('isFloat', F.loc(f), 'only a text that is a number as a whole is written without quotes', 'also if ' + show(z)[:80], 'whole')
        else: R.undecided('isFloat', show(t)[:120])
def stripped(F, R):
    f = one(F, 'strip', n=1)
    R.floor('strip', int(f is not None), 1)
    if f is None: return
    R.analysed(f); I = Interp(F); st = St(); s = sym('t')
    t = I.freeze(I.call(f, None, [s], st), st)
    def notspace(c):
        x = sym('c'); v = I.call_value(c, [x], st, None, None)
        m = [y for y in walk(v) if y.op == 'fn' and str(y.a[0]).endswith('isspace')]
        if not m: return None
        on = subst(v, {m[0]: ONE}); off = subst(v, {m[0]: ZERO})
        on2 = subst(v, {m[0]: TRUE}); off2 = subst(v, {m[0]: FALSE})
        return (on is FALSE and off is TRUE) or (on2 is FALSE and off2 is TRUE)
    ok = None
    def front(t):
        if t.op == 'fn' and t.a[0] == 'out:erase' and len(t.a) == 4 and show(t.a[2]) == show(fn('iter', t.a[1], ZERO)) and t.a[3].op == 'fn' and t.a[3].a[0] == 'c:find_if' and t.a[3].a[3].op == 'clo': return t.a[1], t.a[3].a[3]
    def back(t):
        if t.op == 'fn' and t.a[0] == 'out:erase' and len(t.a) == 4 and t.a[2].op == 'fn' and t.a[2].a[0] == 's:base' and t.a[3].op == 'fn' and t.a[3].a[0] == 'iter' and t.a[2].a[1].op == 'fn' and t.a[2].a[1].a[0] == 'c:find_if' and show(t.a[2].a[1].a[1]).startswith('riter('): return t.a[1], t.a[2].a[1].a[3]
    x = t; seen = []
    for _ in range(2):
        for nm, g in (('front', front), ('back', back)):
            r = g(x)
            if r: seen.append((nm, notspace(r[1]))); x = r[0]; break
    if x is s and len(seen) == 2 and {n for n, _ in seen} == {'front', 'back'}:
        for nm, k in seen: (R.ok('white space is taken off at the ' + nm) if k else R.undecided('strip', nm) if k is None else R.viol('strip', F.loc(f), 'white space is taken off and nothing else', nm, nm))
    else: R.undecided('strip', show(t)[:120])
def delimiters(F, R):
    for c in (W, RD):
        dl = [x['n'] for x in F.rec[c]['fields'] if x['t'] == 'char']
        for k in F.ctors(c):
            ps = [p['n'] for p in k['params'] if p['t'] in ('char', 'const char')]
            if len(ps) != 1 or len(dl) != 1: continue
            R.analysed(k); I = Interp(F); I.handlers = True; st = St()
            o = I.construct(c, [sym(p['n']) for p in k['params']], st, k['id'])
            settle(R, 'delimiter of ' + c.split('::')[-1], F.loc(k), 'the delimiter given is the one used', judge(I.getf(o, dl[0], st), sym(ps[0])))
def lines(F, R):
    f = one(F, 'writeLine', LW)
    R.floor('writeLine', int(f is not None), 1)
    if f is None: return
    R.analysed(f)
    chains = []
    def ops(n):
        n = strip(n)
        if n.get('k') == 'opc' and n.get('op') == '<<': return ops(n['a'][0]) + [strip(n['a'][1])]
        return [n]
    inner = set()
    for n in FX.walk(f['body']):
        if n.get('k') == 'opc' and n.get('op') == '<<' and id(n) not in inner:
            c = ops(n)
            x = strip(n['a'][0])
            while x.get('k') == 'opc' and x.get('op') == '<<': inner.add(id(x)); x = strip(x['a'][0])
            chains.append(c)
    out = [x for c in chains for x in c[1:]]
    nl = lambda x: x.get('n', '').endswith('endl') or x.get('k') == 'chr' and str(x.get('v')) in ('10', '\n') or x.get('k') == 'str' and x.get('v') in ('\n', '\\n')
    p = f['params'][0]['id']
    if len(out) == 2 and out[0].get('id') == p and nl(out[1]): R.ok('a line is written with its end')
    elif len(out) == 1 and out[0].get('id') == p: R.viol('line', F.loc(f), 'every record is written on a line of its own', 'no line end is written', 'line end')
    else: R.undecided('line', '%d things written' % len(out))
