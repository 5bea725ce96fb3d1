"""L04: statements validate their arguments before touching anything.

execute() of every statement that changes the file system is translated to guarded effects (rules/f01.py).  For each kind of
invalid argument (unknown dataset, wrong location, no columns, a column group of unknown type or use at any position, only expected
columns, overlapping columns, unknown file or task type) the deciding atoms are fixed and no effect may remain possible, while the
result must be a failure.  The parser is translated over a symbolic token stream: every name that reaches a statement is the text
of a token whose label was tested to be a word (that words are letters, digits and underscores is part of L01)."""
from f01 import *
from judge import *
SCHEME = 'file://'
TYPES = ('label', 'number', 'text', 'image'); USES = ('expected', 'given'); EXT = ('csv', 'tsv', 'txt')
def lits(t): return {x.a[0] for x in walk(t) if x.op == 'str'}
def about(t, v): return any(x is v for x in walk(t))
def falsify(pred):
    """the boolean atoms selected by pred are false"""
    def m(effs, ret):
        out = {}
        for t in [e[0] for e in effs] + [x for e in effs for x in e[2]] + ([ret] if ret is not None else []):
            for x in walk(t):
                if x in out or x.op in ('and', 'or', 'not', 'ite') or not isbool(x): continue
                v = pred(x)
                if v is not None: out[x] = v
        return out
    return m
def remaining(effs, ret, pred):
    """effects still possible under the case"""
    for _ in range(3):
        m = falsify(pred)(effs, ret); new = []
        for e in effs:
            g = simp(resolve(e[0], m), m)
            if g is FALSE: continue
            new.append((g, e[1], tuple(resolve(x, m) for x in e[2]), e[3]))
        ret = resolve(ret, m) if ret is not None else None
        if len(new) == len(effs) and not m: break
        effs = new
    out = []; und = False
    for e in effs:
        r = satisfiable(e[0])
        if r is None: und = True
        elif r: out.append(e)
    return out, und, ret
def succeeds(I, st, ret, pred):
    """can the result be a success under the case?"""
    try: s = I.method(ret, 'isSuccessful', [], st)
    except Exception:
        try: s = I.getf(ret, 'success', st)
        except Exception: return None
    m = falsify(pred)([], s)
    s = simp(resolve(s, m), m)
    return False if s is FALSE else True if s is TRUE else None
def decide_case(R, F, f, what, I, st, ret, pred, refuse=True, none=False):
    inst = '%s (%s)' % (inst_of(f), what)
    effs = dedupe([e for e in effects(st) if e[1] in CHANGES])
    if not effs and not none: R.undecided(inst, 'no change of the file system seen'); return
    left, und, r = remaining(effs, ret, pred)
    if left:
        e = left[0]
        R.viol(inst, 'src/' + lineof(e), 'arguments are checked before anything is changed', '%s of %s is reached with %s, when %s' % (e[1], show(e[2][0])[:100] if e[2] else '', what, show(e[0])[:140]), what); return
    if und: R.undecided(inst, 'guard too large'); return
    if refuse:
        s = succeeds(I, st, ret, pred)
        if s is True: R.viol(inst, F.loc(f), 'invalid arguments are refused', 'the statement succeeds with %s' % what, what + '-success'); return
    R.ok(inst, '%d effects unreachable' % len(effs))
def extra(F, summ):
    H = {}
    for g in src(F):
        if g.get('cls') or g['id'] in summ or not reaches_write(F, g): continue
        def h(I, e, a, st, this, g=g):
            if e.get('fn') != g['id']: return NotImplemented
            I.emit(st, 'writes', tuple(a[:1]), e)
            return fn('f:' + g['mn'], *a)
        H.setdefault(g['mn'], h)
    return H
def run_fields(F, f, summ, vals):
    H = writer_hooks(F, summ); X = extra(F, summ); X.update(H)
    fl = fields_of(F, f['cls']); fl.update(vals({}) if callable(vals) else vals)
    return translate(F, f, [], X, fl)
def groups(F, f, k):
    """a list of k column groups with symbolic fields"""
    names = [x['n'] for x in F.rec['happyml::ColumnGroup']['fields']]
    return names
def translate_groups(F, f, summ, field, k, uses=None):
    """execute() over k column groups with symbolic type, use, place and size"""
    op = []
    for g in F.fns.values():
        if g['id'] == f['id'] or not g.get('body'): continue
        if any(isfs(p['t']) or isios(p['t']) for p in g['params']) or g.get('cls') in holders(F): continue
        op.append(g['id'])
    W = World(); H = dict(W.hooks()); H.update(extra(F, summ)); H.update(writer_hooks(F, summ))
    I = Interp(F, opaque=op, hooks=H, budget=900000); I.world = W; I.handlers = True
    st = St(); this = I.new_obj(f['cls'], st)
    for n, v in fields_of(F, f['cls']).items(): I.setf(this, n, v, st)
    gs = []
    for i in range(k):
        g = I.new_obj('happyml::ColumnGroup', st)
        for x in F.rec['happyml::ColumnGroup']['fields']: I.setf(g, x['n'], sym('g%d.%s' % (i, x['n'])), st)
        if uses: I.setf(g, 'use_', string(uses[i]), st)
        gs.append(g)
    I.setf(this, field, T('list', tuple(gs)), st)
    r = I.inline(f, this, [sym(p['n']) for p in f['params']], st)
    return I, st, r[0] if isinstance(r, tuple) else r
def iseq(x, v, texts=None):
    """an equality of v with one of the texts (None: any text)"""
    if x.op not in ('eq', 'teq') and not (x.op == 'fn' and x.a[0] in ('eq', 'teq')):
        if x.op != 'eqt' and 'eq' not in x.op: return False
    ts = [y for y in x.a if isinstance(y, T)]
    return any(y is v for y in ts) and any(y.op == 'str' and (texts is None or y.a[0] in texts) for y in ts)
def run_dataset(F, R, summ, n=0, deep=False):
    for f in src(F):
        if f['mn'] != 'execute' or not F.is_a(f.get('cls') or '', 'happyml::ExecutableStatement'): continue
        fl = F.rec[f['cls']]['fields']
        gf = [x['n'] for x in fl if 'ColumnGroup' in x['t'] and 'vector' in x['t']]
        lf = [x['n'] for x in fl if 'location' in x['n'] and 'string' in x['t']]
        if not gf: continue
        n += 1; R.analysed(f); G = gf[0]
        I, st, ret = run_fields(F, f, summ, {})
        loc = sym(lf[0]) if lf else None
        if loc is not None:
            decide_case(R, F, f, 'a location that is not file://', I, st, ret, lambda x: False if about(x, loc) and SCHEME in lits(x) else None)
            decide_case(R, F, f, 'a file type other than csv, tsv and txt', I, st, ret, lambda x: False if about(x, loc) and any(l.lstrip('.') in EXT for l in lits(x)) and SCHEME not in lits(x) else None)
        over = lambda x: True if x.op == 'fn' and 'overlap' in x.a[0] and x.a[0].startswith('f:') else None
        effs = effects(st)
        if any(over(x) for e in effs for x in walk(e[0])): decide_case(R, F, f, 'columns that overlap', I, st, ret, over)
        else: R.undecided('%s (columns that overlap)' % inst_of(f), 'no test for overlapping columns was recognised')
        # no columns at all
        for k in range(0, 5 if deep else 4):
            I, st, ret = translate_groups(F, f, summ, G, k)
            if not k: decide_case(R, F, f, 'no columns', I, st, ret, lambda x: None, none=True); continue
            for i in range(k):
                t, u = sym('g%d.data_type_' % i), sym('g%d.use_' % i)
                at = 'of column group %d of %d' % (i + 1, k)
                decide_case(R, F, f, 'an unknown type ' + at, I, st, ret, lambda x: False if iseq(x, t) else None)
                decide_case(R, F, f, 'an unknown use ' + at, I, st, ret, lambda x: False if iseq(x, u) else None)
            us = [sym('g%d.use_' % i) for i in range(k)]
            decide_case(R, F, f, 'only expected columns (%d)' % k, I, st, ret, lambda x: next((('expected' in lits(x)) for u in us if iseq(x, u)), None))
    return n
def run_task(F, R, summ):
    n = 0
    for f in src(F):
        if f['mn'] != 'execute' or not F.is_a(f.get('cls') or '', 'happyml::ExecutableStatement'): continue
        fl = [x['n'] for x in F.rec[f['cls']]['fields'] if 'string' in base_t(x['t'])]
        ds = [x for x in fl if 'dataset' in x]; ty = [x for x in fl if 'type' in x]
        I, st, ret = run_fields(F, f, summ, {})
        effs = dedupe([e for e in effects(st) if e[1] in CHANGES])
        if not effs or not ds or any('ColumnGroup' in x['t'] for x in F.rec[f['cls']]['fields']): continue
        n += 1; R.analysed(f)
        for d in ds:
            v = sym(d)
            # an optional dataset is one whose emptiness is asked for
            decide_case(R, F, f, 'a %s that does not exist' % d.strip('_').replace('_', ' '), I, st, ret,
                        lambda x: False if x.op == 'fn' and 'exists' in x.a[0] and about(x, v) else False if x.op != 'fn' and about(x, v) and (any(y.op == 'fn' and y.a[0] in ('size', 's:size') for y in walk(x)) or '' in lits(x)) else None)
        for t in ty:
            v = sym(t)
            decide_case(R, F, f, 'an unknown %s' % t.strip('_').replace('_', ' '), I, st, ret, lambda x: False if iseq(x, v) else None)
    return n
def run_overlap(F, R):
    """neighbouring groups [start, start + count) of a list sorted by start overlap iff one ends after the next starts"""
    n = 0
    for f in src(F):
        if f.get('cls') or 'overlap' not in f['mn'] or len(f['params']) != 1 or 'ColumnGroup' not in f['params'][0]['t'] or not f['params'][0]['t'].startswith('const'): continue
        n += 1; R.analysed(f)
        for k in range(5):
            W = World(); I = Interp(F, hooks=W.hooks(), budget=100000); I.world = W; st = St(); gs = []; c = FALSE; pos = TRUE
            for i in range(k):
                g = I.new_obj('happyml::ColumnGroup', st)
                for x in F.rec['happyml::ColumnGroup']['fields']: I.setf(g, x['n'], sym('g%d.%s' % (i, x['n'])), st)
                gs.append(g); s, w = sym('g%d.start_index_' % i), sym('g%d.source_column_count_' % i)
                pos = band(pos, le(ZERO, s, True), le(ONE, w, True))
                if i: c = bor(c, lt(s, add(sym('g%d.start_index_' % (i - 1)), sym('g%d.source_column_count_' % (i - 1))), True))
            r = I.inline(f, None, [T('list', tuple(gs))], st)
            r = r[0] if isinstance(r, tuple) else r
            v = judge(I.tobool(r), c, assume=pos)
            inst = '%s of %d column groups' % (inst_of(f), k)
            if v.ok: R.ok(inst, 'overlap iff one group ends after the next one starts')
            elif v.v == 'bad': R.viol(inst, F.loc(f), 'columns overlap iff one group ends after the next one starts', '%s; expected %s' % (show(r)[:160], show(c)[:160]), 'overlap')
            else: R.undecided(inst, v.detail)
    return n
# ---------------------------------------------------------------- names
STREAM = 'happyml::TokenStream'
def path_params(F, cls):
    """constructor parameters of a statement whose value becomes part of a path: {parameter index}"""
    f = F.method(cls, 'execute', 1)
    if f is None: return {}
    op = [g['id'] for g in F.fns.values() if g.get('body') and g['id'] != f['id']]
    used = set(); names = {x['n'] for x in F.rec[cls]['fields']}
    W = World(); I = Interp(F, opaque=op, hooks=W.hooks(), budget=300000); I.world = W; I.handlers = True
    def watch(kind, a, st, e, t):
        g = F.fns.get(t) if kind == 'call' else F.fns.get(e.get('fn'))
        if g is None: return
        a = a[1:] if g.get('cls') and not g.get('static') and len(a) > len(g['params']) else a
        for v, p in zip(a, g['params']):
            if g['mn'] in ('get_dataset_path', 'get_task_folder_path', 'dataset_exists') or p['n'] == 'task_name':
                used.update(x.a[0] for x in walk(v) if x.op == 'sym')
    I.watch = watch
    st = St(); this = I.new_obj(cls, st)
    for n in names: I.setf(this, n, sym('field:' + n), st)
    I.inline(f, this, [sym('context')], st)
    seen = [(kind, args) for g, kind, args, at in effects(st) if kind in ('get_dataset_path', 'get_task_folder_path', 'dataset_exists')]
    for k, a in seen: used.update(x.a[0] for v in a for x in walk(v) if x.op == 'sym')
    used = {u[6:] for u in used if u.startswith('field:')}
    out = {}
    for ct in F.ctors(cls):
        st = St(); this = I.new_obj(cls, st); I.watch = None
        args = [sym('arg:%d' % i) for i in range(len(ct['params']))]
        I.run_ctor(this, cls, ct['id'], args, st)
        for u in used:
            v = I.getf(this, u, st)
            for x in walk(v):
                if x.op == 'sym' and x.a[0].startswith('arg:'): out.setdefault(len(ct['params']), set()).add(int(x.a[0][4:]))
    return out
def run_names(F, R):
    n = 0
    P = [f for f in src(F) if f.get('cls') == 'happyml::Parser' and not f.get('ctor')]
    sts = {c: path_params(F, c) for c in F.concrete('happyml::ExecutableStatement')}
    sts = {c: p for c, p in sts.items() if p}
    for f in P:
        made = [x for x in nodes(f) if x['k'] == 'call' and 'make_shared' in (x.get('n') or '') and any(c.split('::')[-1] in (x.get('t') or '') for c in sts)]
        if not made: continue
        R.analysed(f)
        op = [g['id'] for g in F.fns.values() if g.get('body') and g['id'] != f['id'] and g.get('cls') not in (STREAM,) and not (g.get('cls') == f.get('cls') and 'Token' in (g.get('rt') or '') + '')]
        W = World(); H = dict(W.hooks())
        for c in sts:
            def h(I, e, a, st, this, c=c):
                I.emit(st, 'made', (string(c),) + tuple(I.freeze(x, st) for x in a), e)
                return fn('new:' + c, *a)
            H[c] = h
        I = Interp(F, opaque=op, hooks=H, budget=600000); I.world = W; I.handlers = True
        st = St(); args = []
        for p in f['params']:
            if 'TokenStream' in p['t']:
                o = I.new_obj(STREAM, st)
                for x in F.rec[STREAM]['fields']: I.setf(o, x['n'], sym(x['n']), st)
                args.append(o)
            else: args.append(sym(p['n'] or 'p'))
        I.inline(f, None, args, st)
        k = 0
        for e in dedupe([e for e in effects(st) if e[1] == 'made']):
            c = e[2][0].a[0]; a = e[2][1:]
            for i in sorted(sts[c].get(len(a), sts[c].get(max(sts[c])))):
                if i >= len(a): continue
                k += 1; v = a[i]; ct = [x for x in F.ctors(c) if len(x['params']) >= len(a)][0]
                inst = '%s: %s of %s at line %s' % (inst_of(f), ct['params'][i]['n'], c.split('::')[-1], e[3][1])
                r = wordy(v, e[0])
                bad = 'a text that need not be a word: %s' % show(v)[:100] if r is False else None
                und = show(v)[:100] if r is None else None
                if bad: R.viol(inst, 'src/' + lineof(e), 'names are words', bad, ct['params'][i]['n'])
                elif und: R.undecided(inst, und)
                else: R.ok(inst, 'text of a word token')
        n += k
    return n
def wordy(v, g, phis=()):
    """under g the value v is empty, a literal word or the text of a token tested to be a word; True / False / None"""
    out = True
    for cond, x in cases(v):
        h = band(g, cond)
        if satisfiable(h) is False or x in phis or x.op == 'str' and re.fullmatch(r'[A-Za-z0-9_]*', x.a[0]): continue
        if x.op == 'fn' and x.a[0].endswith('getValue'):
            lab = fn(x.a[0].replace('getValue', 'getLabel'), *x.a[1:])
            tests = [y for y in atoms(h, []) if iseq(y, lab, ('_word',))]
            r = implies(h, tests[0]) if tests else False
        elif x.op == 'fold' and x.a[0] is string('while'):
            k = (len(x.a) - 3) // 3; vs = x.a[1 + k:1 + 2 * k]
            me = [i for i in range(k) if True]
            step = band(x.a[1 + 2 * k], bnot(x.a[2 + 2 * k]))
            # which of the carried values this is: the one whose start is a text
            me = [i for i in range(k) if istext(x.a[1 + i])]
            rs = [wordy(x.a[1 + i], h) for i in me] + [wordy(x.a[3 + 2 * k + i], step, phis + tuple(vs[i] for i in me)) for i in me]
            r = False if False in rs else None if None in rs or not me else True
        else: r = False if x.op == 'str' else None
        if r is False: return False
        if r is None: out = None
    return out
def istext(x): return x.op == 'str' or x.op == 'fn' and x.a[0] in ('concat',) or x.op == 'fn' and x.a[0].endswith('getValue')
def run(F, R):
    R.rule = 'For each kind of invalid argument no change of the file system is reachable and the statement does not succeed; names of tasks and datasets are word tokens.'
    class Q(object):
        def __getattr__(s, n): return lambda *a, **k: None
    n, summ = run_helpers(F, Q())
    R.floor('statements creating datasets', run_dataset(F, R, summ, deep=R.tier == 'thorough'), 1)
    R.floor('statements creating tasks', run_task(F, R, summ), 1)
    R.floor('names given to statements', run_names(F, R), 4)
    R.floor('overlap test', run_overlap(F, R), 1)
