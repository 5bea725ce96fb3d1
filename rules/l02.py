"""L02: the parser never reads past the end of its tokens.

(a) every subscript, front/back/pop_back and dereference of a possibly missing object in src/lang carries the obligation that its
guard entails the index is inside the container / the object is there; (b) which exceptions can leave Parser::parse is computed
from the calls it can reach: none may; (c) the token before the current one is only asked for after a token was consumed."""
import os
from f02 import *
from judge import *
def lang(F): return [f for f in src(F) if os.path.normpath(f['path']).startswith('/repo/src/lang/')]
def locof(f, ln): return '%s:%s' % (os.path.normpath(f['path']).replace('/repo/', ''), ln)
def isstr(t): return 'basic_string' in (t or '').split('<')[0] or (t or '').replace('const ', '').startswith(('std::string', 'std::basic_string'))
def assoc(t): return bool(re.match(r'(const )?(std::)?(unordered_)?(map|set|multiset|multimap)\b', (t or '')))
# ---------------------------------------------------------------- (a)
def nullable(F):
    """functions that can return no object"""
    n = set()
    def nul(e):
        while e is not None and e['k'] in ('cast', 'conv', 'rcast', 'full') or e is not None and e['k'] == 'ctor' and len(e['a']) == 1 and 'shared_ptr' in (e.get('t') or ''):
            e = e['e'] if e['k'] != 'ctor' else e['a'][0]
        return e is not None and (e['k'] == 'null' or e['k'] == 'ctor' and 'shared_ptr' in (e.get('t') or '') and not [a for a in e['a'] if a['k'] != 'defarg'])
    for f in lang(F):
        if 'shared_ptr' not in (f.get('rt') or ''): continue
        maybe = set()
        for x in FX.walk(f['body']):
            if x['k'] == 'decl':
                for v in x['a']:
                    if 'shared_ptr' in (v.get('t') or '') and v.get('i') is not None and nul(v['i']): maybe.add(v['id'])
        for x in FX.walk(f['body']):
            if x['k'] != 'ret' or x.get('e') is None: continue
            e = x['e']
            while e['k'] in ('cast', 'conv', 'rcast', 'full') or e['k'] == 'ctor' and len(e['a']) == 1: e = e['e'] if e['k'] != 'ctor' else e['a'][0]
            if nul(x['e']) or e['k'] == 'ref' and e.get('id') in maybe: n.add(f['id'])
            if e['k'] == 'mem' and nullfield(F, f, e): n.add(f['id'])
    # a virtual function is as nullable as its overriders
    for f in lang(F):
        if f['id'] not in n and f.get('virt') and any(F.fns[g]['mn'] == f['mn'] and F.is_a(F.fns[g].get('cls') or '', f.get('cls') or '') for g in n): n.add(f['id'])
    return n
def nullfield(F, f, e):
    """a field some constructor leaves or sets to nothing"""
    c = f.get('cls'); fl = e.get('n')
    for g in lang(F):
        for x in nodes(g):
            if x['k'] == 'call' and 'make_shared' in (x.get('n') or '') and (c or '').split('::')[-1] in (x.get('t') or '') + (x.get('fn') or ''):
                if any(a['k'] == 'null' or a['k'] in ('cast', 'conv') and a['e']['k'] == 'null' for a in x['a']): return True
    return False
class Obl(object):
    def __init__(s): s.list = []
def inst(f): return f['n'].replace('happyml::', '')
def obligations(F, f, nul):
    """index and dereference obligations of one function with their guards"""
    small = {g['id'] for g in lang(F) if g['id'] not in nul and len(list(nodes(g))) < 120 and not g['mn'] in ('parse', 'lex', 'match', 'execute') and g.get('cls') != 'happyml::TokenStream'}
    mem = {g['id'] for g in lang(F) if g.get('cls') == 'happyml::TokenStream' and g.get('cls') == f.get('cls')}
    op = [g['id'] for g in F.fns.values() if g.get('body') and g['id'] != f['id'] and g['id'] not in small and g['id'] not in mem]
    W = World(); I = Interp(F, opaque=op, hooks=W.hooks(), budget=300000); I.world = W; I.handlers = True
    def watch(kind, a, st, e, t):
        if kind == '[]' and not assoc(t): I.emit(st, 'index', (I.freeze(a[0], st), a[1], TRUE if isstr(t) else FALSE, I.size(a[0])), e)
        elif kind in ('front', 'back', 'pop_back') and not assoc(t): I.emit(st, 'index', (I.freeze(a[0], st), num(0), FALSE, I.size(a[0])), e)
        elif kind in ('substr', 'erase') and isstr(t) and len(a) > 1: I.emit(st, 'pos', (I.freeze(a[0], st), a[1], TRUE, I.size(a[0])), e)
        elif kind == 'call' and t in F.fns and '/lang/' in F.fns[t]['path']:
            for v, p in zip(a, F.fns[t]['params']):
                if 'shared_ptr' in p['t'] and v.op == 'fn' and not any(x['k'] in ('un', 'bin', 'if') and any(y.get('id') == p['id'] for y in FX.walk(x.get('c') or x)) for x in FX.walk(F.fns[t].get('body') or {'k': ''})): I.emit(st, 'deref', (v,), e)
        elif kind == '->': I.emit(st, 'deref', (a[0],), e)
    I.watch = watch
    st = St(); this = None
    args = [sym(p['n'] or 'p%d' % i) for i, p in enumerate(f['params'])]
    I.bounds = invariants(F, f['cls']) if f.get('cls') and not f.get('ctor') else []
    if f.get('cls') and not f.get('static'):
        this = I.new_obj(f['cls'], st)
        for x in F.rec[f['cls']]['fields']: I.setf(this, x['n'], sym(x['n']), st)
    if f.get('ctor'): I.run_ctor(this, f['cls'], f['id'], args, st)
    else: I.inline(f, this, args, st)
    return I, st
def unwrap(g, keys):
    """conditions of the iteration the obligation belongs to"""
    if g.op == 'anyi':
        bv, lo, hi, c = g.a
        return band(le(lo, bv, True), lt(bv, hi, True), unwrap(c, keys)) if bv in keys else unwrap(c, keys)
    if g.op in ('and',): return band(*[unwrap(x, keys) for x in g.a])
    if g.op in ('or',): return bor(*[unwrap(x, keys) for x in g.a])
    return g
def nonneg(ts):
    out = set()
    for t in ts:
        for x in walk(t):
            if x.op in ('sym', 'bv') or x.op == 'fn' and x.a[0] in ('size', 's:size', 's:length'): out.add(x)
    return out
INV = {}
def invariants(F, cls):
    """(position field, container field) pairs with position <= size(container), established by the constructors and kept by every method"""
    if (id(F), cls) in INV: return INV[(id(F), cls)]
    INV[(id(F), cls)] = []
    fl = F.rec[cls]['fields']
    pos = [x['n'] for x in fl if is_int(x['t'], F)]; con = [x['n'] for x in fl if 'vector' in base_t(x['t']).split('<')[0]]
    ms = [f for f in lang(F) if f.get('cls') == cls]
    out = []
    for p in pos:
        for c in con:
            good = True
            for f in ms:
                op = [g['id'] for g in F.fns.values() if g.get('body') and g.get('cls') != cls]
                W = World(); I = Interp(F, opaque=op, hooks=W.hooks(), budget=100000); I.world = W; I.handlers = True
                st = St(); this = I.new_obj(cls, st); args = [sym(q['n'] or 'p') for q in f['params']]
                for x in fl: I.setf(this, x['n'], sym(x['n']), st)
                pre = le(sym(p), fn('size', sym(c)), True)
                if f.get('ctor'): I.run_ctor(this, cls, f['id'], args, st); pre = TRUE
                else: I.inline(f, this, args, st)
                a, b = I.getf(this, p, st), I.size(I.getf(this, c, st))
                if a is sym(p) and b is fn('size', sym(c)): continue
                v = judge(le(a, b, True), TRUE, assume=band(pre, bnot(st.thr)), nonneg=nonneg([a, b]))
                if not v.ok: good = False; break
            if good: out.append((p, c))
    INV[(id(F), cls)] = out
    return out
PROVEN = set()
def check(F, R, f, nul):
    I, st = obligations(F, f, nul)
    hyp = band(*[le(sym(p), fn('size', sym(c)), True) for p, c in I.bounds])
    n = 0; done = set()
    for e in effects(st):
        if e[1] in ('index', 'pos'):
            c, i, s, sz = e[2]
            g = unwrap(e[0], set(walk(i)) | set(walk(sz)))
            goal = lt(i, add(sz, ONE), True) if s is TRUE else lt(i, sz, True)
            g0 = g
            if i.op != 'num' and not any(x.op == 'ilt' and x.a[0] is i for x in walk(g)): goal = band(le(ZERO, i, True), goal)      # an unsigned index compared itself cannot be negative
            what = 'index %s of %s' % (show(i)[:60], show(c)[:60])
            g = band(g, hyp, *[le(ZERO, x, True) for x in nonneg([i, sz])]); rule = 'an index is inside its container'
        elif e[1] == 'deref':
            v = e[2][0]
            nm = [x for x in walk(v) if x.op == 'fn' and x.a[0][:2] in ('f:', 'm:') and any(F.fns[q]['mn'] == x.a[0][2:].split('::')[-1] for q in nul)]
            if v.op not in ('null', 'ite') and not (v.op == 'fn' and v in nm): continue
            g = e[0]; goal = bnot(I.isnull(v))
            if goal is TRUE: continue
            if nm and all(x.a[0].endswith('previous') for x in nm): continue          # decided by (c)
            if not nm and v.op != 'null' and not any(x.op == 'null' for x in walk(v)): continue
            what = 'use of the object %s' % show(v)[:80]; rule = 'a missing object is not used'
        else: continue
        key = (e[1], e[3], what)
        if key in done: continue
        done.add(key); n += 1
        loc = locof({'path': e[3][0]}, e[3][1]); name = '%s: %s' % (inst(f), what)
        if e[1] == 'deref':
            r = implies(g, bor(v, goal) if v.op == 'fn' else goal)      # the object itself as a condition: it is there
            if r: R.ok(name, loc)
            elif r is None: R.undecided(name, 'condition too large')
            else: R.viol(name, loc, rule, '%s, which can be missing, is reached when %s' % (what, show(g)[:160]), what)
            continue
        v = judge(goal, TRUE, assume=g, nonneg=nonneg([i, sz]))
        if v.ok:
            R.ok(name, loc)
            if e[1] == 'pos': PROVEN.add((f['id'], e[3][1]))
        elif e[1] == 'pos': n -= 1            # may throw: counted among the exceptions
        elif v.v == 'und' and (any(x is sz for x in walk(g0)) or i.op != 'num'): R.undecided(name, v.detail)
        else: R.viol(name, loc, rule, '%s is reached when %s, which does not keep it below the size %s' % (what, show(g)[:160], show(sz)[:60]), what)
    return n
# ---------------------------------------------------------------- (b)
STD = {'stoi': {'std::invalid_argument', 'std::out_of_range'}, 'stol': {'std::invalid_argument', 'std::out_of_range'}, 'stof': {'std::invalid_argument', 'std::out_of_range'},
       'stod': {'std::invalid_argument', 'std::out_of_range'}, 'stoul': {'std::invalid_argument', 'std::out_of_range'}, 'stoull': {'std::invalid_argument', 'std::out_of_range'},
       'at': {'std::out_of_range'}, 'substr': {'std::out_of_range'}, 'erase': {'std::out_of_range'}, 'insert': {'std::out_of_range'}, 'replace': {'std::out_of_range'}, 'get': {'std::bad_variant_access'}}
BASES = {'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'], 'std::logic_error': ['std::exception'], 'std::domain_error': ['std::logic_error'],
         'std::runtime_error': ['std::exception'], 'std::overflow_error': ['std::runtime_error'], 'std::range_error': ['std::runtime_error'], 'std::bad_variant_access': ['std::exception'],
         'std::ios_base::failure': ['std::runtime_error'], 'std::filesystem::filesystem_error': ['std::runtime_error'], 'std::exception': []}
def norm_t(t):
    t = base_t(t or '').replace('class ', '').strip()
    t = re.sub(r'__cxx11::', '', t)
    return t if t.startswith('std::') or '::' in t else 'std::' + t
def covers(F, h, t):
    if h in (None, '', '...'): return True
    h = norm_t(h)
    todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        if x == h: return True
        if x in seen: continue
        seen.add(x)
        todo += BASES.get(x, []) + ([norm_t(b) for b in F.rec[x].get('bases', [])] if x in F.rec else [])
    return False
class Escapes(object):
    """which exception types can leave a function; least fixed point over the call graph"""
    def __init__(s, F):
        s.F = F; s.out = {}; s.src = {}; s.calls = {}
    def targets(s, x):
        F = s.F; fid = x.get('fn')
        if fid not in F.fns: return None
        f = F.fns[fid]
        ts = []
        if x.get('virt') or f.get('virt'):
            for c in F.concrete(f['cls']):
                m = F.resolve(fid, c)
                if m is not None and m.get('body'): ts.append(m)
        elif f.get('body'): ts.append(f)
        return ts
    def of(s, f):
        todo = [f]; seen = {f['id']: f}
        while todo:
            g = todo.pop()
            for x in nodes(g):
                for h in s.callees(x):
                    if h['id'] not in seen: seen[h['id']] = h; todo.append(h)
        out = {i: set() for i in seen}
        ch = True
        while ch:
            ch = False
            for i, g in seen.items():
                new = s.stmt(g, g['body'], out)
                for it in g.get('inits') or []:
                    if it.get('i'): new |= s.stmt(g, it['i'], out)
                if not {t for t, _ in new} <= {t for t, _ in out[i]}: out[i] |= new; ch = True
        s.reached = len(seen); s.all = seen
        return out[f['id']]
    def callees(s, x):
        if x['k'] in ('call', 'mcall', 'ctor', 'opc'):
            ts = s.targets(x)
            if ts: return ts
            if x['k'] == 'call' and 'make_shared' in (x.get('n') or ''):
                m = re.search(r'shared_ptr<(.*)>$', base_t(x.get('t') or ''))
                if m: return [h for h in s.F.ctors(m.group(1)) if h.get('body') and sum(1 for p in h['params'] if p.get('d') is None) <= len(x['a']) <= len(h['params'])]
        return []
    def stmt(s, g, n, out):
        """(type, place) pairs thrown by a node"""
        if n is None or not isinstance(n, dict): return set()
        n = dict(n, k=n.get('k'))
        if n['k'] == 'try':
            r = s.stmt(g, n['b'], out)
            left = {p for p in r if not any(covers(s.F, h.get('t'), p[0]) for h in n.get('h') or [])}
            for h in n.get('h') or []:
                inner = s.stmt(g, h['b'], out)
                caught = {p for p in r if covers(s.F, h.get('t'), p[0])}
                for p in inner: left |= caught if p[0] == 'rethrow' else {p}
            return left
        if n['k'] == 'lambda': return set()
        r = set(); loc = locof(g, n.get('ln'))
        if n['k'] == 'throw':
            e = n.get('e')
            if e is None: return {('rethrow', loc)}
            while e['k'] in ('cast', 'conv', 'rcast', 'full'): e = e['e']
            r.add((norm_t(e.get('t')), loc))
        if n['k'] in ('call', 'mcall', 'opc', 'ctor'):
            hs = s.callees(n)
            for h in hs: r |= {(t, loc if h['id'] not in out else w) for t, w in out.get(h['id'], ())}
            if not hs and n['k'] in ('call', 'mcall'):
                nm = (n.get('mn') or n.get('n') or '').split('::')[-1].split('<')[0]
                if nm in STD and (nm != 'get' or 'variant' in (n.get('fn') or '')) and not (n['k'] == 'mcall' and nm in ('erase', 'insert') and 'basic_string' not in (n.get('fn') or '')):
                    if not (nm in ('substr', 'erase') and (g['id'], n.get('ln')) in PROVEN): r |= {(t, loc) for t in STD[nm]}
        for k, v in n.items():
            if isinstance(v, dict): r |= s.stmt(g, v, out)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict): r |= s.stmt(g, y, out)
        return r
# ---------------------------------------------------------------- (c)
def consumed(F, R):
    """previous() is only called after a token was consumed: forward must-analysis over the structured code, meeting at calls"""
    P = [f for f in lang(F) if 'TokenStream' in ' '.join(p['t'] for p in f['params']) or any(x['k'] == 'mcall' and x['mn'] == 'previous' for x in nodes(f))]
    entry = {f['id']: None for f in P}; sites = {}
    ids = set(entry)
    called = {x['fn'] for f in P for x in nodes(f) if x['k'] in ('call', 'mcall') and x.get('fn') in ids}
    for f in P:
        if f['id'] not in called: entry[f['id']] = False
    def join(a, b): return b if a is None else a if b is None else a and b
    def walk_e(f, n, s):
        if n is None or not isinstance(n, dict): return s
        k = n['k']
        if k == 'un' and n.get('op') == '!' : return walk_e(f, n.get('e'), s)
        if k == 'bin' and n.get('op') in ('&&', '||'):
            s = walk_e(f, n.get('l') or n['a'][0], s); walk_e(f, n.get('r') or n['a'][1], s); return s
        if k == 'cond':
            s = walk_e(f, n.get('c'), s); a = walk_e(f, n.get('t'), s); b = walk_e(f, n.get('e'), s); return join(a, b)
        if k == 'lambda': return s
        for key, v in n.items():
            if isinstance(v, dict): s = walk_e(f, v, s)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict) and 'k' in y: s = walk_e(f, y, s)
                    elif isinstance(y, dict):
                        for z in y.values():
                            if isinstance(z, dict) and 'k' in z: s = walk_e(f, z, s)
        if k in ('call', 'mcall'):
            if k == 'mcall' and n['mn'] in ('next', 'consume') and 'TokenStream' in (n.get('bt') or n.get('cls') or ''): return True
            if k == 'mcall' and n['mn'] == 'previous' and 'TokenStream' in (n.get('bt') or n.get('cls') or ''): sites[(f['id'], n.get('ln'))] = join(sites.get((f['id'], n.get('ln'))), s)
            g = n.get('fn')
            if g in entry: entry[g] = join(entry[g], s)
        return s
    def walk_s(f, n, s):
        """state after n; None: control does not reach the end"""
        if n is None: return s
        k = n['k']
        if s is None: return None
        if k == 'blk':
            for x in n['a']: s = walk_s(f, x, s)
            return s
        if k == 'if':
            s = walk_e(f, n.get('c'), s); a = walk_s(f, n.get('t'), s); b = walk_s(f, n.get('e'), s) if n.get('e') else s
            return join(a, b) if a is not None and b is not None else a if b is None else b
        if k in ('while', 'for', 'rfor', 'do'):
            if k == 'for': s = walk_s(f, n.get('i'), s)
            if k == 'rfor': s = walk_e(f, n.get('r'), s)
            s1 = walk_e(f, n.get('c'), s) if k in ('while', 'for') else s
            walk_s(f, n.get('b'), s1)            # consumption never goes back, so one pass from the entry state is the meet
            return s1
        if k in ('ret', 'throw'):
            if n.get('e'): walk_e(f, n['e'], s)
            return None
        if k in ('brk', 'cont', 'break', 'continue'): return None
        if k == 'try':
            a = walk_s(f, n['b'], s)
            for h in n.get('h') or []:
                b = walk_s(f, h['b'], s)
                a = join(a, b) if a is not None and b is not None else a if b is None else b
            return a
        return walk_e(f, n, s)
    for _ in range(len(P) + 2):
        before = dict(entry)
        sites.clear()
        for f in P:
            if entry[f['id']] is not None: walk_s(f, f['body'], entry[f['id']])
        if before == entry: break
    n = 0
    for (fid, ln), s in sorted(sites.items(), key=lambda x: str(x)):
        f = F.fns[fid]; n += 1
        guarded = checked(f, ln)
        if s or guarded: R.ok('%s:%s previous()' % (inst(f), ln), 'a token was consumed before' if s else 'result is tested')
        else: R.viol('%s: previous()' % inst(f), locof(f, ln), 'the previous token is there', 'previous() can be called before any token was consumed; its result is used without a test', '%s-previous' % f['mn'])
    return n
def checked(f, ln):
    """the result goes to a variable that is tested wherever it is used (the dereference obligations decide that)"""
    for x in FX.walk(f['body']):
        if x['k'] == 'decl':
            for v in x['a']:
                if v.get('i') and any(y['k'] == 'mcall' and y['mn'] == 'previous' and y.get('ln') == ln for y in FX.walk(v['i'])): return True
    return False
def run(F, R):
    R.rule = ('Index and dereference obligations of src/lang as value graphs with the guard under which each is evaluated (an index guard must entail index < size, by linear arithmetic; a possibly missing object must be tested); exceptions that '
              'can leave Parser::parse by a least fixed point over its call graph (own throws, standard conversions and checked accesses, minus catch clauses); a forward must-analysis of token consumption before every previous().')
    R.notes += ['allocation failure is not considered', 'a std::string may be read at its size() (the terminator)', 'objects handed in as parameters are taken to be there, except token lookups that can return nothing']
    nul = nullable(F)
    R.notes.append('can return nothing: ' + ', '.join(sorted(inst(F.fns[x]) for x in nul)))
    n = 0
    for f in lang(F):
        if f.get('cls') and f['cls'] not in F.rec: continue
        if not any(x['k'] == 'opc' and x['op'] in ('[]', '->') or x['k'] == 'mcall' and x['mn'] in ('front', 'back', 'pop_back', 'substr', 'erase') for x in nodes(f)): continue
        R.analysed(f)
        n += check(F, R, f, nul)
    R.floor('index and dereference obligations', n, 6)
    k = 0
    for f in lang(F):
        if f.get('cls') != 'happyml::Parser' or f.get('acc') != 'public' or f.get('ctor'): continue
        k += 1
        E = Escapes(F); esc = E.of(f)
        if not esc: R.ok('%s lets no exception out' % inst(f), '%d functions reachable' % E.reached)
        for t, w in sorted(esc): R.viol('%s: %s' % (inst(f), t), w, 'malformed input is a parse error', '%s raised here leaves %s' % (t, inst(f)), '%s@%s' % (t, w.split(':')[0]))
    R.floor('parser entry points', k, 1)
    consumed(F, R)
