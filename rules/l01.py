"""L01: every statement the language documents is recognised and executed.

(a) Each matcher class is translated to a value graph (when it matches, how many characters) over symbolic text and symbolic
parts, and compared with the regular-expression operator it stands for.  (b) The pattern table built by the initialiser is read as
a list of (label, skipped, expression) and compared with the documented tokens; keywords come before the word pattern.  (c) The
lexer loop is an induction over the text: longest match, first on ties, always moving on.  (d) The parser is translated over token
sequences of the documented grammar with symbolic token texts: the parse succeeds and yields exactly the statements with exactly
these values; with a structural token replaced or the end cut off it is refused.  (e) Every loop over tokens consumes one."""
import itertools
from f02 import *
from judge import *
from l02 import lang
KEYWORDS = 'copy create delete describe execute exit help list move print refine set accuracy dataset datasets future image input label memory number speed task tasks text at expected given goal header limit pretty raw starting test to using with'.split()
PUNCT = {'_open_parenthesis': '(', '_close_parenthesis': ')', '_open_bracket': '[', '_close_bracket': ']', '_equal': '=', '_colon': ':', '_slash': '/', '_dot': '.', '_percent': '%',
         '_backslash': '\\', '_comma': ',', '_underscore': '_'}
BLANK = {'\n', '\t', '\r', ' '}
def inst(f): return f['n'].replace('happyml::', '')
def interp(F, op, hooks, handlers=True, budget=400000):
    W = World(); H = dict(W.hooks()); H.update(hooks)
    I = Interp(F, opaque=op, hooks=H, budget=budget); I.world = W; I.handlers = handlers
    return I
def ret(r): return r[0] if isinstance(r, tuple) else r
def lower_hook(low=None):
    def h(I, e, a, st, this):
        x = a[-1]
        if low and x in low: return low[x]
        return string(x.a[0].lower()) if x.op == 'str' else fn('lower', x)
    return h
# ---------------------------------------------------------------- (a)
M = 'happyml::PatternMatcher'; RES = 'happyml::PatternMatchResult'
def sub_hook(I, e, a, st, this):
    """a symbolic part matches at an offset iff hit(part, offset), consuming len(part, offset) characters"""
    if len(a) < 4 or a[0].op != 'sym': return NotImplemented
    r = I.construct(RES, [fn('len', a[0], a[2])], st)
    return ite(fn('hit', a[0], a[2]), r, T('null'))
def reading(I, st, r):
    """(it matches, number of characters) of a result"""
    if r.op == 'null': return FALSE, ZERO
    if r.op == 'ite':
        (a, x), (b, y) = reading(I, st, r.a[1]), reading(I, st, r.a[2])
        return bor(band(r.a[0], a), band(bnot(r.a[0]), b)), x if b is FALSE else y if a is FALSE else ite(r.a[0], x, y)
    return TRUE, I.method(r, 'getMatchLength', [], st)
def run_matcher(F, c, fields):
    f = F.method(c, 'match', 3)
    op = [g['id'] for g in F.fns.values() if g.get('body') and '/lang/' not in g['path']]
    I = interp(F, op, {'asLower': lower_hook(), 'match': sub_hook})
    st = St(); o = I.new_obj(c, st)
    for k, v in fields.items(): I.setf(o, k, v, st)
    r = ret(I.inline(f, o, [sym('text'), sym('offset'), sym('limit')], st))
    return f, I, st, reading(I, st, r)
def hit(p, o): return fn('hit', p, o)
def ln(p, o): return fn('len', p, o)
def kind_of(F, c):
    """the operator a matcher class stands for, by the shape of its data and its name"""
    fl = F.rec[c]['fields']; n = c.split('::')[-1].lower()
    if any('vector' in x['t'] for x in fl): return 'all' if n.startswith('all') else 'any' if n.startswith('any') else None
    if any('PatternMatcher' in x['t'] for x in fl): return 'freq' if 'frequency' in n else None
    if any('string' in x['t'] for x in fl): return 'not' if 'not' in n else 'text'
    return {'alphapatternmatcher': 'isalpha', 'digitpatternmatcher': 'isdigit', 'alphanumericpatternmatcher': 'isalnum', 'wordbodypatternmatcher': 'wordbody'}.get(n)
def spec_leaf(I, kind, fl):
    o, end = sym('offset'), fn('imin', fn('size', sym('text')), sym('limit'))
    inside = lt(o, end, True); ch = fn('at', sym('text'), o)
    if kind in ('isalpha', 'isdigit', 'isalnum'): return band(inside, bnot(eq(fn('c:' + kind, I.at(sym('text'), o)), ZERO, 'i'))), num(1)
    if kind == 'wordbody': return band(inside, bor(bnot(eq(fn('c:isalnum', I.at(sym('text'), o)), ZERO, 'i')), eq(I.at(sym('text'), o), num(95), 'i'))), num(1)
    s = [sym(x['n']) for x in fl if 'string' in x['t']][0]; ci = [sym(x['n']) for x in fl if x['t'] == 'bool']
    sub = fn('s:substr', sym('text'), o, fn('size', s))
    same = eq(s, sub, 't')
    if ci: same = ite(ci[0], eq(s, fn('lower', sub), 't'), same)
    if kind == 'text': return band(le(add(o, fn('size', s)), end, True), same), fn('size', s)
    if kind == 'not': return band(inside, bnot(same)), fn('size', s)
def report(R, F, f, name, what, got, want, nonneg=()):
    v = judge(got, want, nonneg=nonneg)
    if v.ok: return True
    if v.v == 'bad': R.viol(name, F.loc(f), what, 'found %s; expected %s' % (show(got)[:140], show(want)[:140]), what)
    else: R.undecided(name, v.detail)
    return False
NN = [sym('offset'), sym('limit'), fn('size', sym('text')), fn('size', sym('textSequence'))]
def bools(R, F, f, name, what, got, want):
    """propositionally equal, or equal in normal form"""
    x, y = satisfiable(band(got, bnot(want))), satisfiable(band(want, bnot(got)))
    if x is False and y is False: return True
    return report(R, F, f, name, what, got, want, NN)
def matchers(F, R):
    n = 0; known = {}
    for c in F.concrete(M):
        k = kind_of(F, c); fl = F.rec[c]['fields']
        f = F.method(c, 'match', 3)
        if k is None or f is None: R.undecided(c, 'an operator this rule has no definition for'); continue
        known[c] = k; R.analysed(f); n += 1; name = inst(f)
        if k in ('any', 'all'):
            good = True; lf = [x['n'] for x in fl if 'vector' in x['t']][0]
            for m in range(7 if R.thorough else 5):
                ps = [sym('p%d' % i) for i in range(m)]
                f, I, st, (g, w) = run_matcher(F, c, {lf: T('list', tuple(ps))})
                o = sym('offset')
                if k == 'any':
                    sg, sw = FALSE, ZERO
                    for p in reversed(ps): sg, sw = bor(hit(p, o), sg), ite(hit(p, o), ln(p, o), sw)
                else:
                    sg, sw = TRUE, ZERO
                    for p in ps: sg = band(sg, hit(p, add(o, sw))); sw = add(sw, ln(p, add(o, sw)))
                nm = '%s of %d parts' % (name, m)
                if not bools(R, F, f, nm, 'matches iff its parts do', g, sg): good = False; continue
                if not report(R, F, f, nm, 'length', ite(sg, w, ZERO), ite(sg, sw, ZERO), NN): good = False; continue
                R.ok(nm, 'matches and consumes what its parts do')
            continue
        if k == 'freq':
            pf = [x['n'] for x in fl if 'PatternMatcher' in x['t']][0]; qf = [x for x in fl if x['n'] != pf][0]
            en = F.enums.get(base_t(qf['t'])) or F.enums.get('happyml::' + base_t(qf['t'])) or {}
            vals = {v['n'] if isinstance(v, dict) else v[0]: v['v'] if isinstance(v, dict) else v[1] for v in en.get('vals', [])} if not isinstance(en.get('vals'), dict) else en['vals']
            for q, qv in sorted(vals.items()):
                short = q.split('::')[-1]
                if short not in ('zeroOrOne', 'zeroOrMore'): R.undecided('%s %s' % (name, q), 'no definition'); continue
                for m in range(11 if R.thorough else 6):
                    calls = []
                    def sub(I, e, a, st, this):
                        if len(a) < 4 or a[0].op != 'sym': return NotImplemented
                        calls.append(a[2]); i = len(calls) - 1
                        return I.construct(RES, [sym('w%d' % i)], st) if i < m else T('null')
                    op = [g['id'] for g in F.fns.values() if g.get('body') and '/lang/' not in g['path']]
                    I = interp(F, op, {'match': sub}); st = St(); o = I.new_obj(c, st)
                    I.setf(o, pf, sym('part'), st); I.setf(o, qf['n'], num(qv), st)
                    r = ret(I.inline(f, o, [sym('text'), sym('offset'), sym('limit')], st))
                    g, w = reading(I, st, r); used = min(m, 1) if short == 'zeroOrOne' else m
                    nm = '%s %s with %d repetitions' % (name, short, m)
                    want = add(ZERO, *[sym('w%d' % i) for i in range(used)]); ok_ = True
                    for i, x in enumerate(calls[:used]):
                        ok_ = ok_ and report(R, F, f, nm, 'repetitions follow each other', x, add(sym('offset'), *[sym('w%d' % j) for j in range(i)]), NN)
                    if ok_ and bools(R, F, f, nm, 'repetition always matches', g, TRUE) and report(R, F, f, nm, 'length', w, want, NN): R.ok(nm, 'consumes %d' % used)
            continue
        f, I, st, (g, w) = run_matcher(F, c, {x['n']: sym(x['n']) for x in fl})
        sg, sw = spec_leaf(I, k, fl)
        if not bools(R, F, f, name, 'matches exactly its text', g, sg): continue
        if report(R, F, f, name, 'length', ite(sg, w, ZERO), ite(sg, sw, ZERO), NN): R.ok(name, 'matches %s' % k)
    return n, known
# ---------------------------------------------------------------- (b)
def expr(I, st, r, known):
    """regular expression of a matcher object"""
    cls, fl = st.heap[r.a[0]]; k = known.get(cls)
    if k in ('isalpha', 'isdigit', 'isalnum', 'wordbody'): return (k,)
    if k in ('text', 'not'):
        s = [v for v in fl.values() if v.op == 'str']; ci = [v for v in fl.values() if v.op == 'bool']
        t = s[0].a[0]; c = bool(ci and ci[0] is TRUE) and any(x.isalpha() for x in t)
        if c and t != t.lower(): return None
        if k == 'not': return ('not', t) if len(t) == 1 else None
        return ('text', t, c)
    if k in ('any', 'all'):
        l = [v for v in fl.values() if v.op == 'list'][0]; xs = []
        for x in l.a:
            y = expr(I, st, x, known)
            if y is None: return None
            xs += list(y[1:]) if y[0] == k else [y]
        return xs[0] if len(xs) == 1 else (k,) + tuple(xs)
    if k == 'freq':
        p = [v for v in fl.values() if v.op == 'ref'][0]; q = [v for v in fl.values() if v.op == 'num'][0]
        x = expr(I, st, p, known)
        return None if x is None else ('opt' if q.a[0] == 0 else 'star', x)
    return None
def q(c): return ('all', ('text', c, False), ('star', ('any', ('text', '\\' + c, False), ('not', c))), ('text', c, False))
D, DS, P = ('isdigit',), ('star', ('isdigit',)), ('text', '.', False)
TABLE = {'_comment': [('all', ('text', '#', False), ('star', ('not', '\n')))],
         '_string': [('any', q('"'), q("'")), ('any', q("'"), q('"'))],
         '_number': [('any', ('all', D, DS, ('opt', P), DS), ('all', P, D, DS)), ('any', ('all', P, D, DS), ('all', D, DS, ('opt', P), DS))],
         '_word': [('all', ('isalpha',), ('star', ('wordbody',)))]}
def rx(e):
    """Python regular expression with the same matches (possessive where the matcher does not give back)"""
    k = e[0]
    if k == 'text': return ('(?i:%s)' if e[2] else '(?:%s)') % re.escape(e[1])
    if k == 'not': return '[^%s]' % re.escape(e[1])
    if k == 'all': return ''.join(rx(x) for x in e[1:])
    if k == 'any': return '(?>%s)' % '|'.join(rx(x) for x in e[1:])
    if k == 'star': return '(?>(?:%s)*)' % rx(e[1])
    if k == 'opt': return '(?>(?:%s)?)' % rx(e[1])
    return {'isalpha': '[A-Za-z]', 'isdigit': '[0-9]', 'isalnum': '[A-Za-z0-9]', 'wordbody': '[A-Za-z0-9_]'}[k]
def classes(e):
    """no two words of an expression built from these atoms can be told apart by other characters than these"""
    out = set()
    def go(e):
        if e[0] in ('text', 'not'): out.update(e[1])
        elif e[0] in ('all', 'any', 'star', 'opt'):
            for x in e[1:]: go(x)
    go(e)
    return out
def table(F, R, known):
    f = [g for g in lang(F) if 'shared_ptr<Lexer>' in (g.get('rt') or '').replace('happyml::', '').replace('std::', '') and not g['params']]
    if not f: R.undecided('pattern table', 'no function without arguments makes a lexer'); return None
    f = f[0]; R.analysed(f)
    I = interp(F, [], {'asLower': lower_hook()}); st = St()
    r = ret(I.inline(f, None, [], st))
    try:
        ps = [v for v in st.heap[r.a[0]][1].values() if v.op == 'list'][0]
        rows = []
        for p in ps.a:
            fl = st.heap[p.a[0]][1]
            rows.append(([v for v in fl.values() if v.op == 'str'][0].a[0], [v for v in fl.values() if v.op == 'bool'][0] is TRUE, expr(I, st, [v for v in fl.values() if v.op == 'ref'][0], known)))
    except (IndexError, KeyError, TypeError): R.undecided('pattern table', 'the list of patterns was not found'); return None
    n = 0; name = 'pattern table'
    comp = {}
    def first(text):
        """label of the longest match at the start of the text, first on ties"""
        best = None
        for i, (l, s, e) in enumerate(rows):
            if e is None: return None
            if i not in comp: comp[i] = re.compile(rx(e), re.S)
            m = comp[i].match(text)
            if m and (best is None or m.end() > best[1]): best = (l, m.end(), s)
        return best
    if any(e is None for l, s, e in rows): R.undecided(name, 'a pattern outside the known operators: %s' % [l for l, s, e in rows if e is None][:3]); return rows
    # every documented keyword and symbol is a token of its own, in any letter case and also before other text
    for k in KEYWORDS:
        n += 1; nm = 'keyword %s' % k; bad = None
        for text in (k, k.upper(), k.capitalize(), k + ' x', k + '(', k + '\n'):
            b = first(text)
            if not b or b[0] != '_' + k or b[1] != len(k) or b[2]: bad = (text, b); break
        for text in (k + '_x', k + '1', 'x' + k):
            b = first(text)
            if not bad and (not b or b[0] != '_word' or b[1] != len(text)): bad = (text, b)
        if bad: R.viol(nm, F.loc(f), 'a documented word is its own token', '%r is read as %s' % (bad[0], bad[1] and '%s of %d characters' % bad[1][:2]), nm)
        else: R.ok(nm, 'token _%s' % k)
    for l, t in sorted(PUNCT.items()):
        n += 1; b = first(t + ' '); nm = 'symbol %s' % t
        if not b or b[0] != l or b[1] != 1 or b[2]: R.viol(nm, F.loc(f), 'a documented symbol is its own token', '%r is read as %s' % (t, b and b[0]), nm)
        else: R.ok(nm, 'token %s' % l)
    for t in sorted(BLANK):
        n += 1; b = first(t + 'x'); nm = 'white space %r' % t
        if not b or not b[2] or b[1] != 1: R.viol(nm, F.loc(f), 'white space is skipped', '%r is read as %s' % (t, b and b[0]), nm)
        else: R.ok(nm, 'skipped')
    for l, want in sorted(TABLE.items()):
        n += 1; nm = 'pattern %s' % l; es = [(e, s) for a, s, e in rows if a == l]
        if not es: R.viol(nm, F.loc(f), 'a documented token has a pattern', 'no pattern is labelled %s' % l, nm); continue
        es = [x for x in es if x[0] != ('text', l[1:], True)] or es   # a keyword may share the label
        e, s = es[0]
        if s != (l == '_comment'): R.viol(nm, F.loc(f), 'comments are skipped, values are not', '%s is %sskipped' % (l, '' if s else 'not '), nm); continue
        if e in want: R.ok(nm, rx(e)); continue
        x = distinguish(e, want[0])
        if x is not None: R.viol(nm, F.loc(f), 'a token pattern matches what is documented', 'on %r it consumes %s characters instead of %s' % x, nm)
        else: R.undecided(nm, 'written differently; no difference on short texts: %s' % rx(e)[:80])
    return rows
def distinguish(a, b, size=5):
    """a shortest text on which two expressions consume differently (texts over one representative per character class)"""
    al = sorted(classes(a) | classes(b))[:4] + ['a', '1', '_', '%']
    al = list(dict.fromkeys(al))
    ra, rb = re.compile(rx(a), re.S), re.compile(rx(b), re.S)
    for n in range(1, size + 1):
        for t in itertools.product(al, repeat=n):
            t = ''.join(t); x, y = ra.match(t), rb.match(t)
            x, y = x and x.end(), y and y.end()
            if x != y: return t, x, y
    return None
# ---------------------------------------------------------------- (c)
def loop(F, R):
    n = 0
    for f in lang(F):
        if f.get('cls') != 'happyml::Lexer' or f.get('ctor'): continue
        ps = f['params']; LF = [x['n'] for x in F.rec[f['cls']]['fields'] if 'vector' in x['t']]
        if not LF: continue
        if (f.get('rt') or '').replace('happyml::', '').replace('std::', '').startswith('shared_ptr<Token>'):
            R.analysed(f)
            for m in range(7 if R.thorough else 5):
                n += 1; pats = [sym('p%d' % i) for i in range(m)]
                def match(I, e, a, st, this):
                    if not a or a[0].op != 'sym': return NotImplemented
                    tok = I.construct('happyml::Token', [ln(a[0], a[2]), fn('labelof', a[0]), fn('textof', a[0]), FALSE, a[2], sym('source')], st)
                    return ite(hit(a[0], a[2]), tok, T('null'))
                op = [g['id'] for g in F.fns.values() if g.get('body') and '/lang/' not in g['path']]
                I = interp(F, op, {'match': match}); st = St(); o = I.new_obj(f['cls'], st)
                I.setf(o, LF[0], T('list', tuple(pats)), st)
                r = ret(I.inline(f, o, [sym('text'), sym('offset'), sym('source')][:len(ps)], st))
                nm = '%s of %d patterns' % (inst(f), m)
                def rd(r):
                    if r.op == 'null': return FALSE, ZERO, sym('-')
                    if r.op == 'ite':
                        (a, x, l), (b, y, k) = rd(r.a[1]), rd(r.a[2])
                        return bor(band(r.a[0], a), band(bnot(r.a[0]), b)), x if b is FALSE else y if a is FALSE else ite(r.a[0], x, y), l if b is FALSE else k if a is FALSE else ite(r.a[0], l, k)
                    return TRUE, I.method(r, 'getLength', [], st), I.method(r, 'getLabel', [], st)
                g, w, l = rd(r)
                sg, sw, sl = FALSE, ZERO, sym('-')
                for p in pats:
                    better = band(hit(p, sym('offset')), bor(bnot(sg), lt(sw, ln(p, sym('offset')), True)))
                    sg, sw, sl = bor(sg, hit(p, sym('offset'))), ite(better, ln(p, sym('offset')), sw), ite(better, fn('labelof', p), sl)
                # exact comparison for every order of the lengths
                bad = und = None
                for hs in itertools.product((0, 1), repeat=m):
                    for ls in set(itertools.product(range(1, m + 1), repeat=m)):
                        env = {hit(p, sym('offset')): boolean(bool(h)) for p, h in zip(pats, hs)}
                        env.update({ln(p, sym('offset')): num(x) for p, x in zip(pats, ls)})
                        a = [ground(x, env) for x in (g, ite(g, w, ZERO), ite(g, l, sym('-')))]; b = [ground(x, env) for x in (sg, ite(sg, sw, ZERO), ite(sg, sl, sym('-')))]
                        if a != b:
                            if any(x.op in ('num', 'bool', 'fn', 'sym') for x in a): bad = bad or (hs, ls, show(a[2]), show(b[2]))
                            else: und = show(a[2])
                if bad: R.viol(nm, F.loc(f), 'the longest match wins, the first pattern on ties', 'patterns %s matching %s characters: %s is chosen instead of %s' % bad, nm)
                elif und: R.undecided(nm, und[:100])
                else: R.ok(nm, 'longest match, first on ties')
        elif 'LexerResult' in (f.get('rt') or ''):
            n += 1; R.analysed(f); nm = inst(f)
            op = [g['id'] for g in F.fns.values() if g.get('body') and g['id'] != f['id'] and g.get('cls') not in ('happyml::LexerResult', 'happyml::TokenStream')]
            I = interp(F, op, {}); st = St(); o = I.new_obj(f['cls'], st)
            for x in F.rec[f['cls']]['fields']: I.setf(o, x['n'], sym(x['n']), st)
            r = ret(I.inline(f, o, [sym('text'), sym('source')][:len(ps)], st))
            folds = [x for x in alltext(I, st, r) if x.op == 'fold' and x.a[0] is string('while')]
            pos = None
            for x in folds:
                k = (len(x.a) - 3) // 3; inits, vs, cond, left, nxt = x.a[1:1 + k], x.a[1 + k:1 + 2 * k], x.a[1 + 2 * k], x.a[2 + 2 * k], x.a[3 + 2 * k:]
                ip = [i for i in range(k) if inits[i] is ZERO]; im = [i for i in range(k) if inits[i].op == 'list']
                if ip and im: pos = (vs[ip[0]], vs[im[0]], cond, left, nxt[ip[0]], nxt[im[0]]); break
            if pos is None: R.undecided(nm, 'the loop over the text was not recognised'); continue
            p, ms, cond, left, np_, nm_ = pos
            toks = {x for t in (np_, nm_, left) for x in walk(t) if x.op == 'fn' and x.a[0].split(':')[-1].startswith('findLongest')}
            if len(toks) != 1: R.undecided(nm, 'the token of the position was not recognised'); continue
            t = toks.pop(); L = fn('m:getLength', t); S = fn('m:isSkip', t)
            def as_(x): return x
            found = t; step = band(cond, bnot(left)); ok_ = True
            Ls = [x for x in walk(np_) if x.op == 'fn' and x.a[0].endswith('getLength')] + [x for x in walk(left) if x.op == 'fn' and x.a[0].endswith('getLength')]
            L = Ls[0] if Ls else L
            Ss = [x for x in walk(nm_) if x.op == 'fn' and x.a[0].endswith('isSkip')]; S = Ss[0] if Ss else S
            ren = {L: sym('length of the token'), S: sym('the token is skipped')}
            p, ms, cond, left, np_, nm_ = (subst(x, ren) for x in (p, ms, cond, left, np_, nm_)); t = subst(t, ren); L, S = ren[L], ren[S]; step = band(cond, bnot(left))
            ok_ = report(R, F, f, nm, 'the lexer reads the whole text', cond, lt(p, fn('size', sym('text')), True), [p, fn('size', sym('text'))])
            ok_ = ok_ and report(R, F, f, nm, 'the next token starts where this one ends', np_, add(p, L), [p, L])
            if ok_:
                e = implies(band(step), bnot(eq(L, ZERO, 'i')))
                e2 = e if e else judge(band(step, eq(L, ZERO, 'i')), FALSE, nonneg=[p, L]).ok
                if not e2: R.viol(nm, F.loc(f), 'every step moves on', 'an empty token does not stop the loop: it goes on when %s' % show(step)[-140:], nm); ok_ = False
            if ok_:
                want = ite(S, ms, pushed(ms, t))
                v = judge(nm_, want)
                if not v.ok and nm_ is not want:
                    if nm_.op == 'ite' and {nm_.a[1], nm_.a[2]} == {want.a[1], want.a[2]} or nm_ in (ms, pushed(ms, t)): R.viol(nm, F.loc(f), 'tokens are kept unless skipped', 'kept: %s' % show(nm_)[:140], nm)
                    else: R.undecided(nm, 'tokens kept: %s' % show(nm_)[:100])
                    ok_ = False
            if ok_: R.ok(nm, 'one token after the other, none empty, skipped ones dropped')
    return n
def ground(t, env):
    memo = {}
    def go(t):
        if t in env: return env[t]
        if t in memo: return memo[t]
        if not t.a or not any(isinstance(x, T) for x in t.a): r = t
        elif t.op == 'ite':
            c = go(t.a[0]); r = go(t.a[1]) if c is TRUE else go(t.a[2]) if c is FALSE else ite(c, go(t.a[1]), go(t.a[2]))
        elif t.op == 'and': r = band(*[go(x) for x in t.a])
        elif t.op == 'or': r = bor(*[go(x) for x in t.a])
        elif t.op == 'not': r = bnot(go(t.a[0]))
        elif t.op in ('ilt', 'ile', 'lt', 'le') and len(t.a) == 2: 
            a, b = go(t.a[0]), go(t.a[1])
            if a.op == b.op == 'num': r = boolean(a.a[0] < b.a[0] if t.op.endswith('lt') else a.a[0] <= b.a[0])
            else: r = rebuild(t.op, [a, b])
        else: r = rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        memo[t] = r
        return r
    return go(t)
def alltext(I, st, r):
    """every term reachable from an object"""
    seen = set(); todo = [r]; out = []
    while todo:
        t = todo.pop()
        for x in walk(t):
            if x in seen: continue
            seen.add(x); out.append(x)
            if x.op == 'ref' and x.a[0] in st.heap: todo += list(st.heap[x.a[0]][1].values())
    return out
# ---------------------------------------------------------------- (d)
class Tok(object):
    def __init__(s, label, text=None, fixed=True): s.label, s.text, s.fixed = label, text, fixed
def K(k): return Tok('_' + k, k)
def Y(l): return Tok(l, PUNCT[l])
def W_(): return Tok('_word', None)
def N_(): return Tok('_number', None)
def parse(F, toks):
    """translate Parser::parse over these tokens; texts are symbolic, of keywords only the lower-case form is known"""
    op = [g['id'] for g in F.fns.values() if g.get('body') and '/lang/' not in g['path']]
    low = {}
    def lexed(I, e, a, st, this):
        ts = []
        for i, t in enumerate(toks): ts.append(I.construct('happyml::Token', [fn('size', vals[i]), string(t.label), vals[i], FALSE, sym('at%d' % i), sym('source')], st))
        o = I.new_obj('happyml::TokenStream', st)
        I.run_ctor(o, 'happyml::TokenStream', F.ctors('happyml::TokenStream')[0]['id'], [T('list', tuple(ts))], st)
        return I.construct('happyml::LexerResult', [o, string('success')], st)
    vals = [sym('v%d' % i) for i in range(len(toks))]
    for v, t in zip(vals, toks):
        if t.text is not None: low[v] = string(t.text)
    def unesc(I, e, a, st, this): return fn('unescaped', a[-1])
    def parsed(I, e, a, st, this):
        x = low.get(a[0], a[0])
        if x.op == 'str' and not re.match(r'\s*[-+]?[0-9]', x.a[0]):
            st.thr = TRUE; return UNDEF
        return NotImplemented
    H = {'asLower': lower_hook(low), 'lex': lexed, 'unescapeString': unesc}
    H.update({k: parsed for k in ('stoi', 'stol', 'stoul', 'stoll', 'stoull')})
    I = interp(F, op, H, budget=600000)
    st = St(); f = F.method('happyml::Parser', 'parse', 2)
    o = I.new_obj('happyml::Parser', st)
    for x in F.rec['happyml::Parser']['fields']: I.setf(o, x['n'], sym(x['n']), st)
    r = ret(I.inline(f, o, [sym('text'), sym('source')], st))
    return f, I, st, r, vals
def field(st, r, n): return st.heap[r.a[0]][1].get(n)
def children(F, I, st, r):
    """(success, [(class, {field: value})] or None)"""
    s = I.method(r, 'isSuccessful', [], st)
    if s is not TRUE: return s, None
    e = I.method(r, 'getExecutable', [], st)
    if e.op != 'ref': return s, None
    l = [v for v in st.heap[e.a[0]][1].values() if v.op == 'list']
    if not l: return s, None
    out = []
    for x in l[0].a:
        if x.op != 'ref': return s, None
        c, fl = st.heap[x.a[0]]
        out.append((c, {k: (tuple(st.heap[y.a[0]][1] for y in v.a if y.op == 'ref') if v.op == 'list' else v) for k, v in fl.items()}))
    return s, out
def stoi(v): return ('int', v)
def same_value(got, want, low):
    if isinstance(want, tuple) and want[0] == 'int': return got is not None and got.op == 'fn' and got.a[0].split(':')[-1] in ('stoi', 'stol', 'stoul') and got.a[1] is want[1]
    if isinstance(want, tuple) and want[0] == 'mul': return judge(got, mulall([fn('c:stoi', x, ZERO, num(10)) if isinstance(x, T) and x.op == 'sym' else x for x in want[1]])).ok
    if isinstance(want, tuple) and want[0] == 'url':
        xs = [x for x in (got.a[1:] if got is not None and got.op == 'fn' and got.a[0] == 'concat' else [got]) if x is not None and not (x.op == 'fn' and x.a[0].startswith('new:'))]
        ys = []
        for x in xs:
            if ys and x.op == 'str' and ys[-1].op == 'str': ys[-1] = string(ys[-1].a[0] + x.a[0])
            else: ys.append(x)
        return ys == list(want[1])
    return got is want
def mulall(xs):
    r = num(1)
    for x in xs: r = mul(r, x)
    return r
class G(object):
    """a sequence of tokens with the statements it stands for"""
    def __init__(s, name): s.name, s.toks, s.want = name, [], []
    def t(s, *ts):
        i = len(s.toks); s.toks += list(ts); return [sym('v%d' % (i + j)) for j in range(len(ts))]
def url(g):
    a = g.t(Tok('_word', None), Y('_colon'), Y('_slash'), Y('_slash'), Y('_dot'), Y('_dot'), Y('_slash'), Tok('_word', None), Y('_slash'), K('raw'), Y('_slash'), Tok('_word', None), Y('_underscore'), N_(), Y('_dot'), Tok('_word', None))
    for x in g.toks[-16:]: x.fixed = False
    return ('url', [a[0], string('://')] + a[4:])
def grammar(deep=False):
    out = []
    def new(name): g = G(name); out.append(g); return g
    g = new('exit'); g.t(K('exit')); g.want = [('ExitStatement', {})]
    g = new('help'); g.t(K('help')); g.want = [('HelpStatement', {'help_menu_item_': string('default')})]
    for k in ('dataset', 'datasets', 'task', 'tasks', 'future'):
        g = new('help ' + k); g.t(K('help'), Tok('_' + k, k, False)); g.want = [('HelpStatement', {'help_menu_item_': string(k)})]
    for k in ('raw', 'pretty'):
        for lim in (0, 1):
            g = new('print ' + k + (' limit' if lim else '')); v = g.t(K('print'), K(k), W_()); w = g.t(K('limit'), N_()) if lim else None
            g.want = [('PrintStatement', {'dataset_name_': v[2], 'raw_': boolean(k == 'raw'), 'limit_': stoi(w[1]) if lim else num(-1)})]
    goals = ('speed', 'accuracy', 'memory')
    for opts in [()] + [(('goal', x),) for x in goals] + [(('test', None),)] + [(('goal', x), ('test', None)) for x in goals] + [(('test', None), ('goal', x)) for x in goals]:
        g = new('create task' + ''.join(' with ' + o[0] for o in opts)); v = g.t(K('create'), K('task'), Tok('_label', 'label', False), W_())
        w = {'task_type_': string('label'), 'task_name_': v[3], 'goal_': string('accuracy'), 'test_dataset_name_': string('')}
        for o, x in opts:
            if o == 'goal': g.t(K('with'), K('goal'), Tok('_' + x, x, False)); w['goal_'] = string(x)
            else: w['test_dataset_name_'] = g.t(K('with'), K('test'), W_())[2]
        w['dataset_name_'] = g.t(K('using'), W_())[1]; g.want = [('CreateTaskStatement', w)]
    def clause(g, use, typ, dims, n):
        g.t(K('with'), K(use), Tok('_' + typ, typ, False)); name = g.t(Tok('_word', None, False))[0]
        r, c, ch = num(1), num(1), num(1)
        if dims == 1: a = g.t(Y('_open_parenthesis'), N_(), Y('_close_parenthesis')); c = a[1]
        if dims == 2: a = g.t(Y('_open_parenthesis'), N_(), Y('_comma'), N_(), Y('_close_parenthesis')); r, c = a[1], a[3]
        if dims == 3: a = g.t(Y('_open_parenthesis'), N_(), Y('_comma'), N_(), Y('_comma'), N_(), Y('_close_parenthesis')); r, c, ch = a[1], a[3], a[5]
        at = g.t(K('at'), N_())[1]
        i = lambda x: stoi(x) if x.op == 'sym' else x
        return {'id_': num(n), 'start_index_': stoi(at), 'source_column_count_': ('mul', [r, c, ch]), 'use_': string(use), 'data_type_': string(typ), 'label_': name, 'rows_': i(r), 'columns_': i(c), 'channels_': i(ch)}
    sets = [[(u, t, d)] for u in ('given', 'expected') for t in ('label', 'number', 'text', 'image') for d in range(4)]
    sets += [[('expected', 'label', 0), ('given', 'image', 2)], [('given', 'number', 1), ('given', 'text', 0), ('expected', 'number', 3)]] + ([[('given', 'number', d), ('expected', 'label', e), ('given', 'text', 0), ('given', 'image', 3)] for d in range(4) for e in range(4)] if deep else [])
    for hd in (None, 'first', 'last'):
        for cs in (sets if hd is None else sets[-2:] + sets[:1]):
            g = new('create dataset' + (' with header' if hd else '') + ''.join(' with %s %s(%d)' % c for c in cs)); v = g.t(K('create'), K('dataset'), W_())
            if hd == 'first': g.t(K('with'), K('header'))
            cg = tuple(clause(g, u, t, d, i + 1) for i, (u, t, d) in enumerate(cs))
            if hd == 'last': g.t(K('with'), K('header'))
            g.t(K('using')); loc = url(g)
            g.want = [('CreateDatasetStatement', {'name_': v[2], 'location_': loc, 'has_header_': boolean(bool(hd)), 'column_groups_': cg})]
    for lab in (0, 1):
        g = new('execute task' + (' with label' if lab else '') + ' using dataset'); v = g.t(K('execute'), K('task'), W_())
        l = g.t(K('with'), K('label'), W_())[2] if lab else string('')
        d = g.t(K('using'), K('dataset'), W_())[2]
        g.want = [('ExecuteTaskStatement', {'task_name_': v[2], 'task_label_': l, 'dataset_name_': d})]
        for vs in ('n', 'ns', 'wLn', 'S', 'Esn', 'sM'):
            g = new('execute task' + (' with label' if lab else '') + ' using input %s' % vs); v = g.t(K('execute'), K('task'), W_())
            l = g.t(K('with'), K('label'), W_())[2] if lab else string('')
            g.t(K('using'), K('input'), Y('_open_parenthesis')); want = []
            def one(c):
                x = g.t(Tok({'n': '_number', 's': '_string', 'w': '_word'}[c], None, c == 'n' and vs == 'n'))[0]
                return ('number', x) if c == 'n' else ('string', fn('unescaped', x)) if c == 's' else ('word', x)
            for j, c in enumerate(vs):
                if j: g.t(Tok('_comma', ',', False))
                k = g.t(Tok('_string' if c in 'SE' else '_word', None), Y('_colon'))[0]
                if c in 'SE': k = fn('unescaped', k)
                val = []
                if c in 'LME':
                    g.t(Y('_open_bracket'))
                    for i, d in enumerate({'L': 'nn', 'M': 'swn', 'E': ''}[c]):
                        if i: g.t(Tok('_comma', ',', False))
                        val.append(one(d))
                    g.t(Y('_close_bracket'))
                else: val.append(one('n' if c == 'S' else c))
                want.append((fn('lower', k), tuple(val)))
            g.t(Y('_close_parenthesis'))
            g.want = [('ExecuteTaskStatement', {'task_name_': v[2], 'task_label_': l, 'dataset_name_': string(''), 'input_map_': ('map', tuple(want))})]
    return out
def same_map(got, want, heap):
    """a chain of stores equal to a map of keys to lists of values"""
    out = []
    while got.op == 'pstore' and len(got.a) == 3: out.insert(0, (got.a[2], got.a[1])); got = got.a[0]
    if got.op != 'list' or got.a: return 'und'
    if len(out) != len(want): return 'has %d entries instead of %d' % (len(out), len(want))
    for (gk, gv), (wk, wv) in zip(out, want):
        if gk is not wk: return 'has the key %s instead of %s' % (show(gk)[:60], show(wk)[:60])
        if gv.op != 'list': return 'und'
        if len(gv.a) != len(wv): return 'has %d values for a key instead of %d' % (len(gv.a), len(wv))
        for x, (kind, y) in zip(gv.a, wv):
            if x.op != 'ref' or x.a[0] not in heap: return 'und'
            vals = list(heap[x.a[0]][1].values())
            if kind == 'number': good = any(v.op == 'fn' and v.a[0].split(':')[-1] in ('stof', 'stod') and v.a[1] is y for v in vals)
            else: good = any(v is y for v in vals)
            if not good: return 'has %s for the %s %s' % ([show(v)[:60] for v in vals if v.op not in ('num', 'list', 'str')], kind, show(y)[:60])
    return None
def compare_stmt(got, want, heap=None):
    """None, 'und' or a text saying what differs"""
    c, fl = got; wc, wf = want
    if c.split('::')[-1] != wc: return 'the statement is a %s' % c.split('::')[-1]
    for k, w in wf.items():
        if k not in fl: return 'und'
        g = fl[k]
        if isinstance(w, tuple) and w and w[0] == 'map':
            d = same_map(g, w[1], heap)
            if d: return '%s %s' % (k, d) if d != 'und' else d
        elif isinstance(w, tuple) and w and isinstance(w[0], dict) or w == ():
            if not isinstance(g, tuple) or len(g) != len(w): return '%s has %s entries instead of %d' % (k, len(g) if isinstance(g, tuple) else '?', len(w))
            for i, (a, b) in enumerate(zip(g, w)):
                for kk, x in b.items():
                    if kk not in a: return 'und'
                    if not same_value(a[kk], x, None): return '%s of column group %d is %s' % (kk, i + 1, show(a[kk])[:80])
        elif not same_value(g, w, None): return '%s is %s instead of %s' % (k, show(g)[:80] if isinstance(g, T) else g, show(w)[:60] if isinstance(w, T) else w[0])
    return None
def productions(F, R):
    n = 0; gs = grammar(R.thorough)
    P = [f for f in lang(F) if f.get('cls') == 'happyml::Parser']
    for f in P: R.analysed(f)
    pf = F.method('happyml::Parser', 'parse', 2)
    for g in gs:
        n += 1
        # the statement on its own, and before another one: it consumes exactly its tokens
        for tail in ((), (K('exit'),)) if g.name != 'help' else ((),):
            f, I, st, r, vals = parse(F, g.toks + list(tail)); name = g.name + (' followed by exit' if tail else '')
            s, ch = children(F, I, st, r)
            want = g.want + ([('ExitStatement', {})] if tail else [])
            if s is FALSE: R.viol(name, F.loc(pf), 'a documented statement is accepted', 'it is refused: %s' % show(I.method(r, 'getMessage', [], st))[:140], g.name); break
            if st.thr is TRUE: R.viol(name, F.loc(pf), 'a documented statement is accepted', 'parsing throws', g.name); break
            if ch is None:
                cond = [a for a in atoms(s, []) if any(y in vals for y in walk(a))] if s not in (TRUE, FALSE) else []
                if cond: R.viol(name, F.loc(pf), 'a documented statement is accepted', 'whether it is accepted depends on %s' % show(cond[0])[:120], g.name); break
                R.undecided(name, 'result: %s' % show(s)[:100]); break
            if len(ch) != len(want): R.viol(name, F.loc(pf), 'a statement consumes exactly its tokens', '%d statements instead of %d' % (len(ch), len(want)), g.name); break
            ds = [compare_stmt(a, b, st.heap) for a, b in zip(ch, want)]
            bad = [d for d in ds if d and d != 'und']
            if bad: R.viol(name, F.loc(pf), 'a statement has the values given in the script', bad[0], g.name); break
            if 'und' in ds: R.undecided(name, 'fields of the statement are not those known'); break
            R.ok(name, '%d tokens' % len(g.toks))
    return n
def unescaping(F, R):
    """a quoted text loses its quotes and the backslashes before its own kind of quote, and nothing else"""
    n = 0
    for f in lang(F):
        if f.get('cls') != 'happyml::Parser' or len(f['params']) != 1 or 'string' not in f['params'][0]['t'] or 'string' not in (f.get('rt') or ''): continue
        n += 1; nm = inst(f); R.analysed(f)
        I = interp(F, [g['id'] for g in F.fns.values() if g.get('body') and '/lang/' not in g['path']], {}); st = St()
        r = ret(I.inline(f, None, [sym('text')], st))
        x = sym('text')
        if r.op != 'fold' or len(r.a) != 9 or r.a[0] is not string('while'): R.undecided(nm, 'not a loop over the text: %s' % show(r)[:80]); continue
        ix = 0 if r.a[1].op == 'fn' else 1; s0, i0, s, i, c, left, s1, i1 = r.a[1 + ix], r.a[2 - ix], r.a[3 + ix], r.a[4 - ix], r.a[5], r.a[6], r.a[7 + ix], r.a[8 - ix]
        q = sym('its quote'); ren = {fn('at', fn('s:substr', x, ZERO, ONE), ZERO): q, I.at(fn('s:substr', x, ZERO, ONE), ZERO): q, I.at(x, ZERO): q}
        s1, i1, c, left = (subst(y, ren) for y in (s1, i1, c, left)); sz = fn('size', s)
        hit = band(eq(I.at(s, i), num(92), 'i'), lt(add(i, ONE), sz, True), eq(I.at(s, add(i, ONE)), q, 'i')); nn = [i, sz]
        good = report(R, F, f, nm, 'without its quotes', s0, fn('s:substr', x, ONE, add(fn('size', x), num(-2)))) and report(R, F, f, nm, 'from the start', i0, ZERO)
        good = good and report(R, F, f, nm, 'to the end', band(c, bnot(left)), lt(i, sz, True), nn) and report(R, F, f, nm, 'next character', i1, add(i, ONE), nn)
        er = [y for y in walk(s1) if y.op == 'fn' and y.a[0] == 'out:erase']
        if not good: continue
        if not er: R.viol(nm, F.loc(f), 'escaped quotes lose their backslash', 'nothing is removed', 'unescape'); continue
        if any(y is not fn('out:erase', s, i, ONE) for y in er): R.viol(nm, F.loc(f), 'only the backslash is removed', show(er[0])[:100], 'unescape'); continue
        cut = sym('cut'); got = flat(subst(s1, {er[0]: cut}), cut)
        if bools(R, F, f, nm, 'a backslash is removed iff its own kind of quote follows', got, hit): R.ok(nm, 'removes the backslash of every escaped quote')
    return n
def flat(t, cut):
    if t is cut: return TRUE
    if t.op == 'ite': return bor(band(t.a[0], flat(t.a[1], cut)), band(bnot(t.a[0]), flat(t.a[2], cut)))
    return FALSE
def refusals(F, R):
    n = 0; pf = F.method('happyml::Parser', 'parse', 2); seen = set()
    full = {tuple(t.label for t in g.toks) for g in grammar(False)}
    for g in grammar(False):
        if g.name.startswith('create dataset') and g.name.count(' with ') == 1 and '(3)' not in g.name and 'given label(0)' not in g.name: continue
        for i in range(1, len(g.toks) + 1):
            cut = g.toks[:i]; key = tuple(t.label for t in cut)
            todo = []
            u = next((j for j, t in enumerate(g.toks) if t.label == '_using'), None)
            loc = g.name.startswith('create dataset') and u is not None
            if i < len(g.toks) and key not in full and key not in seen and not (loc and i > u + 5): todo.append(('cut after %d tokens' % i, cut)); seen.add(key)
            if g.toks[i - 1].fixed:
                alt = g.toks[:i - 1] + [Tok('_percent', '%')] + g.toks[i:]; k2 = tuple(t.label for t in alt)
                if k2 not in seen and not (g.name.startswith('help') and i > 1): seen.add(k2); todo.append(('token %d (%s) replaced' % (i, g.toks[i - 1].label), alt))
            for what, ts in todo:
                n += 1; f, I, st, r, vals = parse(F, ts); name = '%s, %s' % (g.name, what)
                if st.thr is TRUE: continue
                s, ch = children(F, I, st, r)
                if s is FALSE: R.ok(name, 'refused'); continue
                if s is TRUE: R.viol(name, F.loc(pf), 'a malformed statement is refused', 'it is accepted as %s' % ', '.join(c.split('::')[-1] for c, x in ch or []), what.split(' (')[0] + g.name)
                else: R.undecided(name, 'result: %s' % show(s)[:100])
    return n
def labels_tested(F, R, rows):
    """labels the parser compares with are labels of the table"""
    n = 0
    if not rows: return n
    have = {l for l, s, e in rows}
    for f in lang(F):
        if f.get('cls') != 'happyml::Parser': continue
        for x in nodes(f):
            if x['k'] == 'str' and re.fullmatch(r'_[a-z_]+', x.get('v') or ''):
                n += 1; nm = '%s: label %s' % (inst(f), x['v'])
                if x['v'] in have: R.ok(nm, 'in the table')
                else: R.viol(nm, F.loc(f), 'every label the parser looks for is produced by the lexer', 'no pattern is labelled %s' % x['v'], x['v'])
    return n
# ---------------------------------------------------------------- (e)
def progress(F, R):
    """on every way around a loop over tokens at least one is consumed (must-analysis; calls count when every return consumed)"""
    fs = [f for f in lang(F) if any('TokenStream' in p['t'] for p in f['params'])]
    summ = {f['id']: False for f in fs}
    def stream(n): return 'TokenStream' in (n.get('bt') or n.get('cls') or '')
    def ev(n, s):
        if not isinstance(n, dict): return s
        k = n.get('k')
        if k == 'lambda': return s
        if k == 'bin' and n.get('op') in ('&&', '||'):
            kids = [v for v in (n.get('l'), n.get('r')) if v] or n.get('a') or []
            s = ev(kids[0], s)
            return s
        if k == 'cond': return ev(n.get('c'), s)
        for v in n.values():
            if isinstance(v, dict): s = ev(v, s)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict): s = ev(y, s)
        if k == 'mcall' and stream(n) and n['mn'] in ('next', 'consume'): return True
        if k in ('call', 'mcall') and summ.get(n.get('fn')): return True
        return s
    def stm(n, s, back, rets):
        """state after; None when not reached"""
        if n is None or s is None: return s
        k = n.get('k')
        if k == 'blk':
            for x in n['a']: s = stm(x, s, back, rets)
            return s
        if k == 'if':
            s = ev(n.get('c'), s); a = stm(n.get('t'), s, back, rets); b = stm(n.get('e'), s, back, rets) if n.get('e') else s
            return b if a is None else a if b is None else a and b
        if k in ('while', 'for', 'rfor', 'do'):
            inner = []; s0 = ev(n.get('c'), s) if k != 'do' else s
            stm(n.get('b'), s, inner, rets)
            return s0
        if k == 'ret':
            rets.append(ev(n.get('e'), s)); return None
        if k == 'throw': return None
        if k == 'cont': back.append(s); return None
        if k == 'brk': return None
        if k == 'try': return stm(n.get('b'), s, back, rets)
        return ev(n, s)
    ch = True
    while ch:
        ch = False
        for f in fs:
            rets = []; e = stm(f['body'], False, [], rets)
            if e is not None: rets.append(e)
            v = bool(rets) and all(rets)
            if v and not summ[f['id']]: summ[f['id']] = True; ch = True
    n = 0
    for f in fs:
        for x in nodes(f):
            if x['k'] not in ('while', 'for', 'do') or not any(y['k'] == 'mcall' and stream(y) and y['mn'] in ('hasNext', 'peek') for y in FX.walk(x.get('c') or {'k': ''})): continue
            n += 1; R.analysed(f); back = []; e = stm(x.get('b'), False, back, [])
            if e is not None: back.append(e)
            nm = '%s: loop at line %s' % (inst(f), x.get('ln'))
            if all(back): R.ok(nm, 'consumes a token on every way around')
            else: R.viol(nm, '%s:%s' % (F.loc(f).rsplit(':', 1)[0], x.get('ln')), 'a loop over tokens consumes one each time', 'a way around the loop consumes nothing', 'loop')
    return n
def run(F, R):
    R.rule = 'Documented tokens and statements are recognised with their values; malformed ones are refused; the lexer and every parser loop move on.'
    R.thorough = R.tier == "thorough"
    n, known = matchers(F, R)
    R.floor('matcher classes', n, 5)
    rows = table(F, R, known)
    R.floor('lexer functions', loop(F, R), 1)
    R.floor('labels the parser tests', labels_tested(F, R, rows), 10)
    R.floor('productions', productions(F, R), 30)
    R.count('texts unescaped', unescaping(F, R))
    R.floor('malformed statements', refusals(F, R), 30)
    R.floor('loops over tokens', progress(F, R), 3)
