"""C01: work run in parallel does not race.  Every place that starts parallel work is found; the accesses of one piece of work to what the pieces share
(captured variables, the object, globals, shared arguments) are summarised over the call graph with the mutexes held; what is written must be accessed
under one common mutex, decided and changed in one critical section, or be the piece's own position."""
from effects import *
SAFE_T = ('atomic', 'mutex', 'condition_variable', 'promise', 'future')
def lamof(a):
    a = strip(a)
    while a.get('k') in ('ctor', 'conv', 'cast') and (a.get('a') or a.get('e')): a = strip(a['a'][0] if a.get('a') else a['e'])
    return a
def sites(F):
    """(function, call, kind): places that start parallel work"""
    for f in F.fns.values():
        if not f.get('body'): continue
        for x in FX.walk(f['body']):
            if x.get('k') == 'call':
                sh = short(x.get('n'))
                if sh == 'async' and (x.get('n') or '').startswith('std'): yield f, x, 'async'
                elif x.get('a') and ('parallel_policy' in (strip(x['a'][0]).get('t') or '') or 'parallel_unsequenced' in (strip(x['a'][0]).get('t') or '') or strip(x['a'][0]).get('n') in ('par', 'par_unseq') and 'execution' in str(strip(x['a'][0]).get('q'))): yield f, x, 'each'
            elif x.get('k') == 'ctor' and (x.get('cls') or x.get('t') or '') in ('std::thread', 'std::jthread') and x.get('a') and 'thread' not in (strip(x['a'][0]).get('t') or ''): yield f, x, 'thread'
            elif x.get('k') == 'mcall' and x.get('mn') in ('emplace_back', 'push_back') and 'std::thread' in (x.get('bt') or '') and x.get('a') and lamof(x['a'][0]).get('k') in ('lambda',): yield f, x, 'thread'
def show_loc(l):
    r, f = l
    n = 'this' if r == 'this' else {'p': 'parameter', 'P': 'parameter', 'g': '', 'v': ''}.get(r[0], '') + ' ' + str(r[2] if r[0] == 'v' else r[1])
    return (n + ('.' + f if f else '')).strip()
def owns(n, ids):
    """the expression depends on the piece's own parameter"""
    return any(x.get('k') == 'ref' and x.get('id') in ids for x in FX.walk(n))
def run(F, R):
    R.rule = 'Every access by parallel work to shared state that is written is made under one mutex common to all of them; decisions and the writes they lead to are in one critical section'
    R.notes += ['elements of a range worked on in parallel are distinct objects', 'standard streams are synchronised', 'summaries follow pointers through local variables, parameters, returned values and containers']
    ss = list(sites(F)); R.floor('parallel sites', len(ss), 1)
    E = Effects(F, deep=True).closure(reads=True)
    for f, x, kind in ss:
        R.analysed(f); loc = F.loc(f, x); name = f['n'].replace('happyml::', '')
        args = x.get('a') or []
        lam = next((lamof(a) for a in args if lamof(a).get('k') == 'lambda'), None)
        fnref = next((strip(a) for a in args if strip(a).get('k') == 'ref' and strip(a).get('dk') == 'fn'), None) or next((strip(strip(a)['e']) for a in args if strip(a).get('k') == 'un' and strip(strip(a).get('e') or {}).get('dk') == 'fn'), None)
        if lam is None:
            # a lambda kept in a variable
            c = E.ctx(f)
            for a in args:
                a = strip(a)
                if a.get('k') == 'ref' and a.get('id') in c.defs:
                    l = [lamof(d) for d in c.defs[a['id']] if lamof(d).get('k') == 'lambda']
                    if l: lam = l[0]
        inst = '%s %s' % (name, kind)
        if lam is not None: acc, sec = of_lambda(F, E, f, x, lam, kind); where = lam['body']; g = f
        elif fnref is not None and fnref.get('fn') in F.fns and F.fns[fnref['fn']].get('body'):
            g = F.fns[fnref['fn']]; R.analysed(g); acc = of_function(F, E, f, x, g, args, fnref); where = g['body']
            inst += ' ' + g['mn']
        else: R.undecided(inst, 'what is run is not visible'); continue
        judge_accesses(F, R, inst, loc, acc, own_positions(lam, kind, g, where))
        decisions(F, R, E, inst, g, where, lam)
        if kind != 'each': joined(F, R, E, f, x, inst, args)
    for f in F.fns.values():
        if f.get('body') and any('future<' in (p['t'] or '') for p in f['params']): waits(F, R, E, f)
def of_lambda(F, E, f, x, lam, kind):
    inner = {'id': f['id'] + '#lambda', 'n': f['n'] + ' (parallel)', 'params': lam['params'], 'body': lam['body'], 'cls': f.get('cls'), 'path': f.get('path'), 'ln': lam.get('ln'), 'rt': 'void', 'mn': 'lambda'}
    own = {p['id'] for p in lam['params']} if kind == 'each' else set()
    c = Ctx(inner, E, free=True, own=own)
    acc = E.effects(inner, c, reads=True)
    return acc, c
def of_function(F, E, f, x, g, args, fnref):
    """accesses of the function through what the caller hands to every piece"""
    c = E.ctx(f); rest = args[[i for i, a in enumerate(args) if strip(a) is fnref or strip(strip(a).get('e') or {}) is fnref][0] + 1:] if any(strip(a) is fnref or strip(strip(a).get('e') or {}) is fnref for a in args) else args[1:]
    recv = None
    if g.get('cls') and not g.get('static') and len(rest) == len(g['params']) + 1: recv, rest = rest[0], rest[1:]
    out = {}
    fresh = made_here(F, c, f, x)
    for (l, kd, lk), w in E.sum.get(g['id'], {}).items():
        r = l[0]
        if r == 'this':
            if recv is None: continue
        elif r[0] in ('p', 'P'):
            if r[1] >= len(rest): continue
            a = strip(rest[r[1]])
            if r[0] == 'p' and not (a.get('k') == 'call' and short(a.get('n')) in ('ref', 'cref')) : 
                # arguments are copied for every piece: only what they point to is shared
                if not (a.get('k') == 'un' and a.get('op') == '&' or pointerish(a.get('t'))): continue
            root = strip(a)
            while root.get('k') in ('un', 'call', 'mem') and (root.get('e') or root.get('a') or root.get('b')): root = strip(root.get('e') or (root.get('a') or [None])[0] or root.get('b'))
            if root.get('id') in fresh: continue
        out[(l, kd, frozenset(lk))] = w
    return out
def made_here(F, c, f, x):
    """variables made anew for each piece: declared in the innermost loop around the start, from something new"""
    best = None
    def rec(n, loops):
        nonlocal best
        if n is x: best = loops[-1] if loops else None; return True
        lp = loops + [n] if isinstance(n, dict) and n.get('k') in ('for', 'while', 'rfor', 'do') else loops
        for ch in FX.children(n):
            if rec(ch, lp): return True
        return False
    rec(f['body'], [])
    out = set()
    if best is None: return out
    for y in FX.walk(best.get('b') or {}):
        if y.get('k') == 'decl':
            for d in y['a']:
                i = strip(d['i']) if isinstance(d.get('i'), dict) else {}
                while i.get('k') == 'ctor' and len(i.get('a') or []) == 1: i = strip(i['a'][0])
                if i.get('k') == 'call' and short(i.get('n')) in ('make_shared', 'make_unique') or i.get('k') == 'new': out.add(d['id'])
    return out
def own_positions(lam, kind, g, where):
    """lines whose writes go to a place chosen by the piece's own parameter"""
    ids = {p['id'] for p in (lam['params'] if lam is not None else g['params']) if not (lam is None and pointerish(p['t']))}
    grow = True
    while grow:
        grow = False
        for y in FX.walk(where):
            if y.get('k') == 'decl':
                for d in y['a']:
                    if d.get('id') not in ids and isinstance(d.get('i'), dict) and owns(d['i'], ids) and (scalar(d.get('t')) or isref(d.get('t'))): ids.add(d['id']); grow = True
    lines = set()
    for y in FX.walk(where):
        t = y['l'] if y.get('k') == 'asg' else y['e'] if y.get('k') == 'un' and y.get('op') in ('++', '--') else (y['a'][0] if y.get('k') == 'opc' and y['op'] in ('=', '+=', '-=', '*=', '++', '--') and y.get('a') else y.get('b') if y.get('k') == 'mcall' else None)
        if not isinstance(t, dict): continue
        n = strip(t)
        while True:
            if n.get('k') == 'opc' and n['op'] == '[]' and len(n['a']) > 1:
                if owns(n['a'][1], ids) and 'map<' not in (strip(n['a'][0]).get('t') or '') and 'vector<bool' not in (strip(n['a'][0]).get('t') or ''): lines.add(id(y)); break
                n = strip(n['a'][0])
            elif n.get('k') == 'mcall' and n.get('mn') == 'at' and n.get('a'):
                if owns(n['a'][0], ids) and 'map<' not in (n.get('cls') or ''): lines.add(id(y)); break
                n = strip(n['b'])
            elif n.get('k') == 'mem' and n.get('b'): n = strip(n['b'])
            elif n.get('k') == 'sub':
                if owns(n.get('i') or n['a'][1], ids): lines.add(id(y)); break
                n = strip(n.get('b') or n['a'][0])
            else: break
    return {y.get('ln') for y in FX.walk(where) if id(y) in lines}
def judge_accesses(F, R, inst, loc, acc, own):
    by = {}
    for (l, kd, lk), w in acc.items():
        if l[0] != 'this' and l[0][0] == 'g' and (l[0][1] in ('std::cout', 'std::cerr', 'std::clog', 'std::cin') or l[0][2]): continue
        by.setdefault(l, []).append((kd, lk, w))
    R.count('shared locations accessed', len(by))
    for l, xs in sorted(by.items(), key=lambda q: str(q[0])):
        ws = [q for q in xs if q[0] == 'w' and not (len(q[2]) == 1 and q[2][0][1] in own)]
        nm = '%s: %s' % (inst, show_loc(l))
        if not ws: R.ok(nm); continue
        R.count('shared locations written')
        # a field is also accessed through accesses to the whole
        alls = [q for q in xs if q in ws or q[0] == 'r']
        lockset = None
        for kd, lk, w in alls:
            s_ = {q for q in lk}
            lockset = s_ if lockset is None else lockset & s_
        if lockset: R.ok(nm, 'guarded by ' + ', '.join(sorted(show_loc(q) for q in lockset)))
        else:
            bare = next((q for q in ws if not q[1]), None) or next((q for q in alls if not q[1]), None) or ws[0]
            fn_, ln = bare[2][-1]
            R.viol(nm, F.loc(fn_, {'ln': ln}), 'what parallel work changes is guarded by one common lock', '%s %s without the lock: %s' % (
                'written' if bare[0] == 'w' else 'read while others write it,', show_loc(l), ' -> '.join('%s:%s' % (g['n'].replace('happyml::', ''), k) for g, k in bare[2][:5])), show_loc(l))
def critical(F, E, f, c, where):
    """critical sections of a body: lists of the statements in each"""
    out = []
    for b in FX.walk(where):
        if b.get('k') != 'blk': continue
        cur = None
        for st in b['a']:
            if st.get('k') == 'decl' and any(any(g in (d.get('t') or '') for g in GUARDS) for d in st['a']): cur = []; out.append(cur); continue
            if st.get('k') == 'mcall' and 'mutex' in (st.get('cls') or ''):
                if st.get('mn') == 'lock': cur = []; out.append(cur); continue
                if st.get('mn') == 'unlock': cur = None; continue
            if cur is not None: cur.append(st)
    return out
def decisions(F, R, E, inst, g, where, lam):
    """what is decided in one critical section is not acted on in another"""
    todo = [(g, where)]; seen = set()
    for n in FX.walk(where):
        if n.get('k') in ('call', 'mcall') and n.get('fn') in F.fns:
            for h in F.targets(n):
                if h.get('body') and h['id'] not in seen: seen.add(h['id']); todo.append((h, h['body']))
    for h, body in todo:
        c = E.ctx(h); secs = critical(F, E, h, c, body)
        if len(secs) < 2: continue
        for i, s1 in enumerate(secs):
            ids1 = {id(y) for st in s1 for y in FX.walk(st)}
            decl1 = {d['id'] for st in s1 for y in FX.walk(st) if y.get('k') == 'decl' for d in y['a'] if d.get('id') is not None}
            set1 = {}
            for st in s1:
                for y in FX.walk(st):
                    if y.get('k') == 'asg' and strip(y['l']).get('k') == 'ref' and strip(y['l']).get('dk') in ('var',) and strip(y['l']).get('id') not in decl1 and strip(y['l']).get('id') in c.defs:
                        if any(z.get('k') == 'mem' or z.get('k') in ('call', 'mcall') for z in FX.walk(y['r'])): set1[strip(y['l'])['id']] = strip(y['l']).get('n')
            if not set1: continue
            for j, s2 in enumerate(secs):
                if j <= i or any(id(st) in ids1 for st in s2): continue
                # writes in the second section to what the first one read, controlled by the variable
                reads1 = {z['n'] for st in s1 for z in FX.walk(st) if z.get('k') == 'mem'}
                for st in s2:
                    for y in FX.walk(st):
                        t = y['l'] if y.get('k') == 'asg' else y['a'][0] if y.get('k') == 'opc' and y['op'] == '=' and y.get('a') else None
                        if t is None or strip(t).get('k') != 'mem' or strip(t)['n'] not in reads1: continue
                        guard = [n for n in FX.walk(body) if n.get('k') == 'if' and any(z is y for z in FX.walk(n)) and any(z.get('k') == 'ref' and z.get('id') in set1 for z in FX.walk(n['c']))]
                        again = any(z.get('k') == 'if' and any(q is y for q in FX.walk(z)) and any(q.get('k') == 'mem' and q['n'] == strip(t)['n'] for q in FX.walk(z['c'])) for s_ in s2 for z in FX.walk(s_))
                        used = any(z.get('k') == 'ref' and z.get('id') in set1 for z in FX.walk(y.get('r') or (y['a'][1] if y.get('k') == 'opc' and len(y['a']) > 1 else {'k': 'null'})))
                        if (guard or used) and not again:
                            R.viol('%s: %s' % (inst, strip(t)['n']), F.loc(h, y), 'a decision and the change it leads to are one critical section', '%s decided in an earlier critical section' % ', '.join(set1.values()), strip(t)['n'])
    R.ok(inst + ' decisions')
WAIT = {'wait', 'get', 'join', 'wait_for'}
def joined(F, R, E, f, x, inst, args):
    """the starter looks at what its pieces share only after they ended"""
    c = E.ctx(f)
    order = []
    def rec(n):
        order.append(n)
        for ch in FX.children(n): rec(ch)
    rec(f['body'])
    pos = next((i for i, n in enumerate(order) if n is x), None)
    if pos is None: return
    # the innermost branch that starts work: everything after it in text order
    shared = set()
    lam = next((lamof(a) for a in args if lamof(a).get('k') == 'lambda'), None)
    if lam is not None:
        shared = {q['id'] for q in lam.get('caps') or [] if 'id' in q}
        shared &= {strip(y['l']).get('id') for y in FX.walk(lam['body']) if y.get('k') == 'asg'} | {i for i in shared if pointerish(c.types.get(i)) or not scalar(c.types.get(i))}
    else:
        for a in args[1:]:
            a = strip(a)
            if a.get('k') == 'call' and short(a.get('n')) in ('ref',): a = strip(a['a'][0])
            if a.get('k') == 'ref' and a.get('dk') in ('var', 'param') and (pointerish(a.get('t')) or not scalar(a.get('t'))): shared.add(a.get('id'))
    inside = {id(y) for y in FX.walk(x)}
    starts = [i for i, n in enumerate(order) if n.get('k') in ('call', 'ctor') and (short(n.get('n')) == 'async' or n is x)]
    others = {id(y) for i in starts for y in FX.walk(order[i])}
    handles = {i for i, t in c.types.items() if any(w in (t or '') for w in ('future<', 'thread'))}
    waited = False
    for n in order[max(starts) + 1:]:
        if id(n) in others: continue
        if n.get('k') == 'mcall' and n.get('mn') in WAIT and any(w in (n.get('cls') or '') for w in ('future', 'thread')): waited = True
        if n.get('k') in ('call', 'mcall') and n.get('fn') in F.fns and any(strip(a).get('k') == 'ref' and strip(a).get('id') in handles for a in n.get('a') or []):
            h = F.fns[n['fn']]
            if any(y.get('k') == 'mcall' and y.get('mn') in WAIT for y in FX.walk(h.get('body') or {})) : 
                waited = in_loop_only_when(order, f, n) or waited
        if n.get('k') == 'ref' and n.get('id') in shared:
            if waited: R.ok(inst + ' waits')
            else: R.viol(inst + ' waits', F.loc(f, n), 'results of parallel work are read after it ended', '%s is used before the work is waited for' % n.get('n'), 'wait')
            return
    if waited or not shared: R.ok(inst + ' waits')
    else:
        # futures of async wait when they go
        R.ok(inst + ' waits') if any('future<' in (t or '') for t in c.types.values()) else R.undecided(inst + ' waits', 'no wait found')
def in_loop_only_when(order, f, n):
    """a wait made only under a condition of the starting loop does not count for what follows"""
    chain = []
    def rec(m, up):
        if m is n: chain.extend(up); return True
        return any(rec(ch, up + [m]) for ch in FX.children(m))
    rec(f['body'], [])
    return not any(m.get('k') in ('for', 'while', 'rfor', 'do') for m in chain) 
def waits(F, R, E, f):
    """a function given the running work waits for all of it"""
    p = next(p for p in f['params'] if 'future<' in (p['t'] or ''))
    loops = [n for n in FX.walk(f['body']) if n.get('k') in ('while', 'for', 'rfor', 'do')]
    inst = f['n'].replace('happyml::', ''); R.analysed(f)
    ws = [y for y in FX.walk(f['body']) if y.get('k') == 'mcall' and y.get('mn') in WAIT]
    if not ws: 
        if 'queue' in p['t'] or 'vector' in p['t']: R.viol(inst, F.loc(f), 'all parallel work is waited for', 'nothing is waited for', 'wait') if any(y.get('k') == 'mcall' and y.get('mn') in ('pop', 'clear') for y in FX.walk(f['body'])) else R.undecided(inst, 'no wait')
        return
    if not loops: R.undecided(inst, 'no loop'); return
    l = loops[0]
    if l['k'] == 'while' or l['k'] == 'for' and l.get('c'):
        cond = strip(l['c'])
        empties = [y for y in FX.walk(cond) if y.get('k') == 'mcall' and y.get('mn') in ('empty', 'size')]
        body = l.get('b') or {}
        seq = [y for y in FX.walk(body) if y.get('k') == 'mcall' and y.get('mn') in WAIT | {'pop', 'erase', 'pop_back'}]
        if not any(y in ws for y in seq) : R.viol(inst, F.loc(f, l), 'all parallel work is waited for', 'the loop does not wait', 'loop'); return
        pops = [i for i, y in enumerate(seq) if y['mn'] not in WAIT]; wt = [i for i, y in enumerate(seq) if y['mn'] in WAIT]
        held = strip(seq[wt[0]].get('b') or {}) if wt else {}
        if pops and wt and pops[0] < wt[0] and not (held.get('k') == 'ref' and not isref(E.ctx(f).types.get(held.get('id')))): R.viol(inst, F.loc(f, seq[pops[0]]), 'all parallel work is waited for', 'work is dropped before it is waited for', 'order'); return
        guarded = [n for n in FX.walk(body) if n.get('k') == 'if' and any(y is seq[wt[0]] for y in FX.walk(n))]
        if guarded: R.undecided(inst, 'waits under a condition'); return
        lim = [y for y in FX.walk(cond) if y.get('k') == 'bin' and y.get('op') in ('>', '>=', '<', '<=', '!=')]
        if empties and empties[0]['mn'] == 'size':
            k = [strip(y[s_]) for y in lim for s_ in ('l', 'r') if strip(y[s_]).get('k') == 'int']
            ops = [y['op'] for y in lim]
            if k and str(k[0].get('v')) not in ('0', '1') or k and ops and (ops[0], str(k[0].get('v'))) == ('>', '1'): R.viol(inst, F.loc(f, l), 'all parallel work is waited for', 'stops while some is left', 'left'); return
    R.ok(inst)
