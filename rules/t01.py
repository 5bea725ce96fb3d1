"""T01: tensors never change.  Write effects of every function of the program are summarised over the call graph; nothing but a constructor (and what
only constructors call) may write a field of a tensor, no function may write through a tensor it is given, what an element is computed from must not
depend on chance, time or changing state, and what a derived tensor keeps must be its own or kept alive by it."""
from effects import *
TB = 'happyml::BaseTensor'
CHANCE = {'rand', 'random', 'random_device', 'mt19937', 'mt19937_64', 'default_random_engine', 'now', 'time', 'clock', 'random_r', 'this_thread', 'get_id', 'uniform_real_distribution', 'normal_distribution', 'uniform_int_distribution'}
def tensor_t(F, t, cs):
    b = base(t)
    for w in ('std::shared_ptr<', 'std::unique_ptr<', 'const '):
        while b.startswith(w): b = b[len(w):]
    return b.rstrip('>* ').strip() in cs
def where(F, chain):
    return ' -> '.join('%s:%s' % (f['n'].replace('happyml::', ''), ln) for f, ln in chain[:5])
def constructing(F, E, cs):
    """methods that only run while their object is being constructed"""
    ms = {m['id']: m for c in cs for m in F.methods_of(c) if not m.get('ctor') and (m.get('body'))}
    cand = {i for i, m in ms.items() if m.get('acc') != 'public'}
    while True:
        drop = set()
        for i in cand:
            callers = [F.fns[q] for q in E.callers.get(i, ())]
            if any(not (q.get('ctor') and q.get('cls') in cs or q['id'] in cand) for q in callers): drop.add(i)
            for q in callers:
                # on the object itself, not on another one
                for b in E.ctx(q).bodies:
                    for x in FX.walk(b):
                        if x.get('k') == 'mcall' and x.get('fn') == i and strip(x.get('b') or {'k': 'this'}).get('k') != 'this': drop.add(i)
        if not drop: return cand
        cand -= drop
def writes(c):
    """expressions a function writes directly: (target, node)"""
    for b in c.bodies:
        for x in FX.walk(b):
            k = x.get('k')
            if k == 'asg': yield x['l'], x
            elif k == 'un' and x.get('op') in ('++', '--'): yield x['e'], x
            elif k == 'opc' and x['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--') and x.get('a'): yield x['a'][0], x
            elif k == 'mcall' and (x.get('cls') or '').startswith('std') and not (x.get('fn') or '').endswith('const') and not x.get('const') and x.get('mn') not in STD_READ and x.get('b'): yield x['b'], x
def path(n):
    """fields on the way from the root of an lvalue"""
    n = strip(n)
    while True:
        k = n.get('k')
        if k == 'mem': yield n; n = strip(n.get('b') or {})
        elif k == 'opc' and n.get('a') and n['op'] == '[]': n = strip(n['a'][0])
        elif k == 'sub': n = strip(n.get('b') or n['a'][0])
        elif k == 'mcall' and n.get('mn') in ('at', 'front', 'back', 'begin', 'end', 'data'): n = strip(n.get('b') or {})
        else: return
def run(F, R):
    R.rule = ('No function outside construction writes a field of a tensor: write effects of all functions, summarised over the call graph with virtual calls resolved to '
              'every override; element reads are free of chance, time and changing state; what a derived tensor refers to is kept alive by it')
    R.notes += ['operator() of a function given to a tensor by a user of the library is the user\'s', 'aliases are followed through local variables, parameters, returned pointers and containers']
    cs = set(F.derived(TB)); R.floor('tensor classes', len(cs), 20)
    E = Effects(F).closure()
    build = constructing(F, E, cs)
    n = 0
    for c in sorted(cs):
        for m in F.methods_of(c):
            if m.get('ctor') or not m.get('body') or m['mn'].startswith('~'): continue
            R.analysed(m); inst = '%s (%d)' % (m['n'].replace('happyml::', ''), len(m['params'])); n += 1
            w = sorted([(l, x) for (l, k, lk), x in E.sum.get(m['id'], {}).items() if k == 'w' and l[0] == 'this'], key=lambda q: str(q[0]))
            if not w or m['id'] in build: R.ok(inst)
            else:
                # what another operation of a tensor changes is reported there
                w = [q for q in w if len(q[1]) == 1 or all(f.get('cls') not in cs or f['id'] in build for f, ln in q[1][1:])]
                if not w: R.ok(inst); continue
                l, x = w[0]
                R.viol(inst, F.loc(m, {'ln': x[0][1]}), 'operations on a tensor do not change it', 'changes %s: %s' % (l[1] or 'the tensor', where(F, x)), l[1])
            # handing out what it holds
            if isref(m.get('rt')) and not (m['rt'] or '').startswith('const ') or (m.get('rt') or '').rstrip().endswith('*') and not (m['rt'] or '').startswith('const '):
                h = [l for l in E.ret.get(m['id'], ()) if l[0] == 'this' and l[1]]
                if h and m.get('acc') == 'public': R.viol(inst + ' result', F.loc(m), 'a tensor hands out no changeable part of itself', 'hands out ' + h[0][1], h[0][1])
    R.floor('tensor methods', n, 100)
    # every function: the tensors it is given stay as they are
    k = 0
    for f in F.fns.values():
        if not f.get('body') and not f.get('inits'): continue
        for i, p in enumerate(f['params']):
            if not tensor_t(F, p['t'], cs): continue
            k += 1
            roots = [('P', i)] + ([('p', i)] if not pointerish(p['t']) else [])
            w = [(l, x) for (l, kd, lk), x in E.sum.get(f['id'], {}).items() if kd == 'w' and l[0] in roots]
            w = [q for q in w if not any(g.get('cls') in cs and g['id'] not in build and not g.get('ctor') for g, ln in q[1][1:])]
            inst = '%s given %s' % (f['n'].replace('happyml::', ''), p['n'])
            if not w: R.ok(inst)
            else: R.analysed(f); R.viol(inst, F.loc(f, {'ln': w[0][1][0][1]}), 'an operation leaves its operands as they are', where(F, w[0][1]), w[0][0][1])
    R.floor('tensor operands', k, 100)
    # direct writes to fields of tensors
    for f in F.fns.values():
        if f.get('ctor') and f.get('cls') in cs or f['id'] in build: continue
        for t, x in writes(E.ctx(f)) if f.get('body') else ():
            for m in path(t):
                if m.get('cls') in cs and not (f.get('ctor') and f.get('cls') == m['cls']):
                    R.viol('%s writes %s' % (f['n'].replace('happyml::', ''), m['n']), F.loc(f, x), 'fields of tensors are written by their constructors only', '%s::%s' % (m['cls'], m['n']), m['n'])
    # constructors write only their own
    for c in cs:
        for m in F.ctors(c):
            for b in E.ctx(m).bodies:
                for t, x in writes(E.ctx(m)):
                    for q in path(t):
                        if q.get('cls') in cs and strip(q.get('b') or {'k': 'this'}).get('k') != 'this':
                            R.viol('%s writes %s' % (m['n'], q['n']), F.loc(m, x), 'a constructor writes the tensor it makes', q['n'], q['n'])
    chance(F, R, E, cs); functions(F, R, E, cs); kept(F, R, cs)
READS = ('getValue', 'rowCount', 'columnCount', 'channelCount')
def chance(F, R, E, cs):
    """what an element or a shape is computed from does not change by itself"""
    changing = {l[0][1] for g in E.sum.values() for (l, kd, lk) in g if kd == 'w' and l[0] != 'this' and l[0][0] == 'g'}
    direct, calls = {}, {}
    def look(f):
        if f['id'] in calls: return
        direct[f['id']] = None; calls[f['id']] = []
        for b in E.ctx(f).bodies:
            for x in FX.walk(b):
                k = x.get('k')
                sh = short(x.get('n')) if k in ('call', 'ctor') else ''
                cl = short(x.get('cls') or x.get('t') or '') if k in ('ctor', 'mcall') else ''
                t = next((q for q in (sh, cl) if q in CHANCE and x.get('fn') not in F.fns), None)
                if k == 'ref' and x.get('dk') in ('static', 'global') and not (x.get('t') or '').startswith('const') and x.get('n') not in ('cout', 'cerr') and (x.get('q') or x.get('n')) in changing: t = 'the changing ' + x['n']
                if t and not direct[f['id']]: direct[f['id']] = (f, x.get('ln'), t)
                if k in ('call', 'mcall', 'opc') and x.get('fn') in F.fns:
                    calls[f['id']] += [g for g in (F.targets(x) if k == 'mcall' else [F.fns[x['fn']]]) if g.get('body')]
    def reach(f, seen):
        todo = [f]; seen.add(f['id'])
        while todo:
            g = todo.pop(); look(g)
            if direct[g['id']]: return direct[g['id']]
            for h in calls[g['id']]:
                # what another tensor reads is that tensor's own obligation
                if h['id'] not in seen and not (h.get('cls') in cs and h['mn'] in READS): seen.add(h['id']); todo.append(h)
        return None
    for c in sorted(cs):
        for m in F.methods_of(c):
            if m['mn'] not in READS or not m.get('body'): continue
            h = reach(m, set()); inst = m['n'].replace('happyml::', '') + ' again'
            if h: R.viol(inst, F.loc(h[0], {'ln': h[1]}), 'reading an element twice gives the same number', 'depends on ' + h[2], h[2])
            else: R.ok(inst)
            # no engine of chance or changing state among the fields it reads
            for b in E.ctx(m).bodies:
                for x in FX.walk(b):
                    if x.get('k') == 'opc' and x.get('op') == '()' and any(w in (strip(x['a'][0]).get('t') or '') for w in ('mt19937', 'engine', 'distribution')):
                        R.viol(inst, F.loc(m, x), 'reading an element twice gives the same number', 'draws from ' + base(strip(x['a'][0]).get('t'))[:40], 'engine')
def functions(F, R, E, cs):
    """functions kept by tensors: they keep what they need by value and change nothing"""
    kinds = {base(x['t']) for c in cs for x in F.rec[c]['fields'] if 'std::function' in x['t']}
    n = 0
    for f in F.fns.values():
        if not f.get('body'): continue
        for b in E.ctx(f).bodies:
            for x in FX.walk(b):
                if x.get('k') != 'lambda': continue
                par = [p['t'] for p in x['params']]
                if not any(fits(x, t) for t in kinds): continue
                if not goes_to_tensor(F, E, f, x, cs, kinds): continue
                n += 1; inst = 'function of %s:%s' % (f['n'].replace('happyml::', ''), sum(1 for y in FX.walk(b) if y.get('k') == 'lambda' and (y.get('ln') or 0) < (x.get('ln') or 0)))
                refs = [q for q in x.get('caps') or [] if q.get('ref') and not q.get('this')]
                own = {d['id'] for y in FX.walk(x['body']) if y.get('k') == 'decl' for d in y['a'] if d.get('id') is not None} | {p['id'] for p in x['params']}
                caps = {q['id'] for q in x.get('caps') or [] if 'id' in q}
                w = []
                for y in FX.walk(x['body']):
                    t = y['l'] if y.get('k') == 'asg' else y['e'] if y.get('k') == 'un' and y.get('op') in ('++', '--') else None
                    if t is not None:
                        r = strip(t)
                        while r.get('k') in ('mem', 'opc', 'sub'): r = strip(r.get('b') or r.get('a', [{}])[0])
                        if r.get('id') in caps or r.get('k') == 'ref' and r.get('dk') in ('static', 'global'): w.append((y, r))
                st = [d for y in FX.walk(x['body']) if y.get('k') == 'decl' for d in y['a'] if d.get('static') and not (d.get('t') or '').startswith('const')]
                if w: R.viol(inst, F.loc(f, w[0][0]), 'reading an element twice gives the same number', 'reading changes ' + str(w[0][1].get('n')), 'state')
                elif any(q.get('this') for q in x.get('caps') or []) and [y for y in FX.walk(x['body']) if y.get('k') == 'mem' and strip(y.get('b') or {'k': 'this'}).get('k') == 'this' and any(
                        l == ('this', y['n']) and kd == 'w' and not F.fns[i].get('ctor') and F.fns[i].get('cls') == y.get('cls') for i, g in E.sum.items() for (l, kd, lk) in g)]:
                    R.viol(inst, F.loc(f, x), 'a derived tensor depends on nothing that can change or end after it is made', 'refers to a changing field', 'this')
                elif refs: R.viol(inst, F.loc(f, x), 'a derived tensor depends on nothing that can change or end after it is made', 'refers to the local variable %s' % refs[0].get('n'), 'ref')
                else: R.ok(inst)
    R.count('functions kept by tensors', n)
def fits(x, t):
    sig = t[t.index('<') + 1:t.rindex('>')]
    ps = sig[sig.index('(') + 1:sig.rindex(')')]
    k = [base(p) for p in ps.split(',') if p.strip()]
    return k == [base(p['t']) for p in x['params']]
def goes_to_tensor(F, E, f, lam, cs, kinds):
    """the lambda is handed, directly or through a variable, to something that takes such a function"""
    c = E.ctx(f)
    vars_ = {i for i, ds in c.defs.items() if any(y is lam for d in ds for y in FX.walk(d))}
    for b in c.bodies:
        for x in FX.walk(b):
            if x.get('k') in ('call', 'mcall', 'ctor') and (x.get('fn') in F.fns or short(x.get('n')) in ('make_shared', 'make_unique')):
                if x['k'] == 'call' and short(x.get('n')) in ('make_shared', 'make_unique') and not tensor_t(F, x.get('t'), cs): continue
                for a in x.get('a') or []:
                    for y in FX.walk(a):
                        if y is lam or y.get('k') == 'ref' and y.get('id') in vars_: return True
    return False
def kept(F, R, cs):
    """what a derived tensor refers to lives as long as it"""
    for c in sorted(cs):
        for x in F.rec[c]['fields']:
            t = (x.get('t') or '').strip(); inst = '%s keeps %s' % (c.replace('happyml::', ''), x['n'])
            if t.endswith('&') or t.endswith('*') or 'weak_ptr' in t or 'reference_wrapper' in t or 'string_view' in t:
                R.viol(inst, '%s:%s' % (F.rel(F.files[F.rec[c]['file']]), x.get('ln')), 'what a tensor refers to lives as long as it', 'kept as ' + t, t)
            else: R.ok(inst)
