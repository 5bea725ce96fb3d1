"""Interprocedural write effects: which locations a function may write or read, named by where they are reached from (the object, a parameter, a global,
a variable of an enclosing function), with the mutexes held.  A flow-insensitive points-to over the typed AST: a pointer or reference variable stands for
whatever its defining expressions reach; objects made in the function are its own.  Summaries are joined over the call graph to a fixpoint."""
import facts as FX
STD_READ = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'data', 'at', 'front', 'back', 'find', 'get', 'lower_bound', 'upper_bound', 'equal_range', 'top', 'c_str',
            'operator->', 'operator*', 'shared_from_this', 'weak_from_this', 'use_count', 'lock_shared', 'value', 'first', 'second', 'what', 'wait', 'size', 'empty', 'count', 'str_', 'is_open', 'good', 'fail', 'eof'}
STD_WRITE_ALGO = {'sort', 'stable_sort', 'partial_sort', 'nth_element', 'shuffle', 'fill', 'fill_n', 'iota', 'reverse', 'rotate', 'unique', 'remove', 'remove_if', 'swap', 'getline',
                  'generate', 'replace', 'iter_swap', 'push_heap', 'pop_heap', 'make_heap'}
STD_WRITE_LAST = {'transform', 'copy', 'copy_n', 'copy_if', 'move_backward', 'copy_backward', 'partial_sum'}
GUARDS = ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock')
def base(t): return (t or '').replace('const ', '').replace('&', '').strip()
def pointerish(t):
    t = base(t); return t.endswith('*') or '_ptr' in t or 'iterator' in t or t.startswith('std::function') or t.startswith('std::reference_wrapper')
SCALAR = {'int', 'unsigned int', 'long', 'unsigned long', 'float', 'double', 'bool', 'char', 'unsigned char', 'short', 'unsigned short', 'long long', 'unsigned long long', 'void', 'signed char'}
def scalar(t): return base(t) in SCALAR
def isref(t): return (t or '').rstrip().endswith('&')
def strip(n):
    while n.get('k') in ('cast', 'conv', 'rcast', 'par') and n.get('e'): n = n['e']
    return n
def short(n): return (n or '').split('<')[0].split('::')[-1] if not (n or '').split('::')[-1].startswith('operator') else (n or '').split('::')[-1]
def is_cout(n):
    n = strip(n)
    while n.get('k') == 'opc' and n['op'] == '<<' and n.get('a'): n = strip(n['a'][0])
    return n.get('k') == 'ref' and n.get('n') in ('cout', 'cerr', 'clog', 'cin')

class Ctx(object):
    """what the variables of one function are defined from"""
    def __init__(s, f, owner, free=None, own=()):
        s.f = f; s.defs = {}; s.types = {}; s.params = {}; s.byref = set(); s.free = free; s.own = set(own); s.static = {}
        for i, p in enumerate(f['params']): s.params[p['id']] = i; s.types[p['id']] = p['t']
        bodies = [f.get('body')] + [x.get('i') for x in f.get('inits') or [] if isinstance(x.get('i'), dict)]
        s.bodies = [b for b in bodies if b]
        for b in s.bodies:
            for x in FX.walk(b):
                k = x.get('k')
                if k == 'decl':
                    for d in x['a']:
                        if d.get('id') is None: continue
                        s.types[d['id']] = d.get('t')
                        if d.get('static'): s.static[d['id']] = d; continue
                        s.defs.setdefault(d['id'], [])
                        if isinstance(d.get('i'), dict): s.defs[d['id']].append(d['i'])
                        for bd in d.get('binds') or []:
                            bid = bd['id'] if isinstance(bd, dict) else bd
                            s.defs.setdefault(bid, []).append(d.get('i') or {'k': 'null'}); s.types[bid] = d.get('t')
                elif k == 'rfor' and isinstance(x.get('v'), dict):
                    v = x['v']; s.types[v['id']] = v.get('t'); s.defs.setdefault(v['id'], []).append(x['r'])
                    for bd in v.get('binds') or []:
                        bid = bd['id'] if isinstance(bd, dict) else bd
                        s.defs.setdefault(bid, []).append(x['r']); s.types[bid] = v.get('t')
                elif k == 'asg' and strip(x['l']).get('k') == 'ref' and x.get('r') is not None: s.defs.setdefault(strip(x['l']).get('id'), []).append(x['r'])
                elif k == 'opc' and x['op'] == '=' and strip(x['a'][0]).get('k') == 'ref' and len(x['a']) > 1: s.defs.setdefault(strip(x['a'][0]).get('id'), []).append(x['a'][1])
                elif k == 'mcall' and x.get('mn') in ('push_back', 'emplace_back', 'insert', 'emplace', 'push', 'reset', 'assign') and strip(x.get('b') or {}).get('k') == 'ref':
                    s.defs.setdefault(strip(x['b']).get('id'), []).extend(x['a'])
                elif k in ('call', 'mcall'):
                    lam = [a for a in x.get('a') or [] if strip(a).get('k') == 'lambda' or strip(a).get('k') == 'ctor' and len(strip(a).get('a') or []) == 1 and strip(strip(a)['a'][0]).get('k') == 'lambda']
                    for a in lam:
                        l = strip(a); l = strip(l['a'][0]) if l['k'] == 'ctor' else l
                        for p in l['params']:
                            s.types[p['id']] = p['t']
                            s.defs.setdefault(p['id'], []).extend([y for y in x['a'] if y is not a])
                elif k == 'lambda':
                    for p in x['params']: s.types.setdefault(p['id'], p['t']); s.defs.setdefault(p['id'], [])
                elif k == 'try':
                    for c in x.get('c') or x.get('handlers') or []:
                        if isinstance(c, dict) and isinstance(c.get('v'), dict): s.types[c['v']['id']] = c['v'].get('t'); s.defs.setdefault(c['v']['id'], [])

class Effects(object):
    def __init__(s, F, deep=False):
        s.F = F; s.sum = {}; s.ret = {}; s.ctxs = {}; s.deep = set()
        if deep:
            # members that are objects with locking of their own
            own = {c for c, r in F.rec.items() if any('mutex' in (x['t'] or '') for x in r['fields'])}
            own |= {f['cls'] for f in F.fns.values() if f.get('cls') and f.get('body') and any(x.get('k') == 'decl' and any(any(g in (d.get('t') or '') for g in GUARDS) for d in x['a']) for x in FX.walk(f['body']))}
            s.deep = {x['n'] for r in F.rec.values() for x in r['fields'] if any(c.split('::')[-1] in (x['t'] or '') for c in own)}
    def under(s, o, n):
        """the member named n of what is at o; deeper members are told apart only in deep analyses"""
        if o is None or n is None: return n if o is None else o
        return o + '.' + n if o in s.deep else o
    def ctx(s, f):
        if f['id'] not in s.ctxs: s.ctxs[f['id']] = Ctx(f, s)
        return s.ctxs[f['id']]
    # ---- where a pointer-like value leads
    def org(s, n, c, seen=frozenset()):
        n = strip(n); k = n.get('k')
        if k == 'this': return {('this', None)}
        if k == 'ref':
            if n.get('dk') in ('global', 'static') or n.get('id') in c.static: return {(('g', n.get('q') or n.get('n'), bool(n.get('tls'))), None)} if not (n.get('t') or '').startswith('const ') else set()
            i = n.get('id')
            if i in c.own: return set()
            if i in c.params: return {(('P', c.params[i]), None)}
            if i in c.defs:
                if i in seen: return set()
                out = set()
                if scalar(c.types.get(i)): return out
                for d in c.defs[i]: out |= s.org(d, c, seen | {i})
                return out
            if c.free is not None and i is not None and n.get('dk') in ('var', 'param', 'binding'): return {(('v', i, n.get('n')), None)}
            return set()
        if k == 'mem':
            b = n.get('b') or {'k': 'this'}
            o = s.org(b, c, seen) | (set() if n.get('ar') else s.lv(b, c, seen))
            return {(r, s.under(f, n['n'])) for r, f in o}
        if k == 'opc':
            f = s.F.fns.get(n.get('fn'))
            if f is not None and f.get('body') and n['op'] not in ('->', '*', '[]'): return s.returned(f, n, n['a'][0], n['a'][1:], c, seen) if f.get('cls') else s.returned(f, n, None, n['a'], c, seen)
            return s.org(n['a'][0], c, seen) if n['op'] in ('[]', '*', '->', '+', '-', '++', '--', '=', '+=', '()') else set()
        if k in ('un', 'sub'): return s.org(n.get('e') or n.get('b') or n['a'][0], c, seen) | (s.lv(n['e'], c, seen) if k == 'un' and n.get('op') == '&' else set())
        if k == 'bin': return s.org(n['l'], c, seen) | s.org(n['r'], c, seen) if not scalar(n.get('t')) else set()
        if k == 'asg': return s.org(n['l'], c, seen)
        if k == 'cond':
            return s.org(n.get('t') if isinstance(n.get('t'), dict) else n.get('a'), c, seen) | s.org(n.get('e') if isinstance(n.get('e'), dict) else n.get('b'), c, seen) if all(isinstance(x, dict) for x in (n.get('t') if isinstance(n.get('t'), dict) else n.get('a'), n.get('e') if isinstance(n.get('e'), dict) else n.get('b'))) else set()
        if k == 'ctor':
            if (n.get('cls') or '') in s.F.rec and not pointerish(n.get('t')): 
                a = n.get('a') or []
                if len(a) == 1 and base(a[0].get('t')) == base(n.get('t')): return s.org(a[0], c, seen)
                return set()
            out = set()
            for a in n.get('a') or []: out |= s.org(a, c, seen)
            return out
        if k == 'init':
            out = set()
            for a in n.get('a') or []: out |= s.org(a, c, seen)
            return out
        if k == 'call':
            f = s.F.fns.get(n.get('fn'))
            if f is not None and f.get('body'): return s.returned(f, n, None, n['a'], c, seen)
            if short(n.get('n')) in ('make_shared', 'make_unique') or scalar(n.get('t')): return set()
            out = set()
            for a in n.get('a') or []: out |= s.org(a, c, seen) | (s.lv(a, c, seen) if short(n.get('n')) in ('move', 'ref', 'cref', 'forward', 'addressof', 'get', 'as_const') else set())
            return out
        if k == 'mcall':
            out = set()
            for f in s.F.targets(n) or ([s.F.fns[n['fn']]] if n.get('fn') in s.F.fns else []):
                if f.get('body'): out |= s.returned(f, n, n.get('b') or {'k': 'this'}, n['a'], c, seen)
            if n.get('fn') in s.F.fns: return out
            if scalar(n.get('t')): return out
            b = n.get('b') or {'k': 'this'}
            return s.org(b, c, seen) | (s.lv(b, c, seen) if pointerish(n.get('t')) or n.get('mn') in ('at', 'front', 'back', 'begin', 'end', 'data', 'top') else set())
        return set()
    def returned(s, f, n, recv, args, c, seen):
        out = set()
        if scalar(f.get('rt')): return out
        for r, fl in s.ret.get(f['id'], ()):
            out |= s.mapped((r, fl), recv, args, n, c, seen, f)
        return out
    def receiver(s, b, n, c, seen=frozenset()):
        b2 = strip(b)
        if b2.get('k') == 'this': return {('this', None)}
        if b2.get('k') == 'opc' and b2['op'] == '->': return s.org(b2['a'][0], c, seen)
        if (n.get('bt') or '').rstrip().endswith('*') or base(b2.get('t')).endswith('*'): return s.org(b2, c, seen)
        return s.lv(b2, c, seen)
    def mapped(s, loc, recv, args, n, c, seen, f):
        r, fl = loc
        if r == 'this':
            o = s.receiver(recv, n, c, seen) if recv is not None else set()
        elif r[0] == 'P': o = s.org(args[r[1]], c, seen) | (s.lv(args[r[1]], c, seen) if isref(f['params'][r[1]]['t']) and not pointerish(f['params'][r[1]]['t']) else set()) if r[1] < len(args) else set()
        elif r[0] == 'p': o = s.lv(args[r[1]], c, seen) if r[1] < len(args) else set()
        elif r[0] == 'g': return {loc}
        else: return set()
        return {(a, s.under(b, fl)) for a, b in o}
    # ---- where an assignment to an expression lands, outside the function's own variables
    def lv(s, n, c, seen=frozenset()):
        n = strip(n); k = n.get('k')
        if k == 'this': return {('this', None)}
        if k == 'ref':
            if n.get('dk') in ('global', 'static') or n.get('id') in c.static: return {(('g', n.get('q') or n.get('n'), bool(n.get('tls'))), None)}
            i = n.get('id'); t = c.types.get(i)
            if i in c.own: return set()
            if i in c.params: return {(('p', c.params[i]), None)} if isref(t) else set()
            if i in c.defs:
                if not isref(t) or i in seen: return set()
                out = set()
                for d in c.defs[i][:1]: out |= s.lv(d, c, seen | {i}) | (s.org(d, c, seen | {i}) if strip(d).get('k') in ('opc', 'call', 'mcall', 'un') else set())
                return out
            if c.free is not None and i is not None and n.get('dk') in ('var', 'param', 'binding'): return {(('v', i, n.get('n')), None)}
            return set()
        if k == 'mem':
            b = n.get('b') or {'k': 'this'}
            o = s.org(b, c, seen) if n.get('ar') else s.lv(b, c, seen)
            return {(r, s.under(f, n['n'])) for r, f in o}
        if k == 'opc':
            a = n['a'][0] if n.get('a') else {}
            f = s.F.fns.get(n.get('fn'))
            if f is not None and f.get('body') and f.get('cls'): return s.returned(f, n, a, n['a'][1:], c, seen)
            if n['op'] == '[]': return s.org(a, c, seen) if pointerish(strip(a).get('t')) else s.lv(a, c, seen)
            if n['op'] in ('*', '->'): return s.org(a, c, seen)
            return s.lv(a, c, seen)
        if k == 'sub':
            b = n.get('b') or n['a'][0]
            return s.org(b, c, seen) if base(strip(b).get('t')).endswith('*') else s.lv(b, c, seen)
        if k == 'un': return s.org(n['e'], c, seen) if n['op'] == '*' else s.lv(n['e'], c, seen)
        if k == 'cond':
            out = set()
            for x in ('t', 'e', 'a', 'b'):
                if isinstance(n.get(x), dict): out |= s.lv(n[x], c, seen)
            return out
        if k == 'asg': return s.lv(n['l'], c, seen)
        if k == 'mcall':
            if n.get('fn') in s.F.fns: return s.org(n, c, seen) if '&' in (s.F.fns[n['fn']].get('rt') or '') else set()
            b = n.get('b') or {'k': 'this'}
            if n.get('mn') in ('at', 'front', 'back', 'top', 'value', 'emplace_back', 'begin', 'end', 'data', 'find', 'rbegin'): return s.lv(b, c, seen) if not pointerish(strip(b).get('t')) else s.org(b, c, seen)
            if n.get('mn') in ('get',): return s.org(b, c, seen)
            return set()
        if k == 'call':
            if n.get('fn') in s.F.fns: return s.org(n, c, seen) if '&' in (s.F.fns[n['fn']].get('rt') or '') else set()
            out = set()
            if short(n.get('n')) in ('get', 'move', 'forward', 'ref', 'tie', 'as_const'):
                for a in n['a']: out |= s.lv(a, c, seen)
            return out
        return set()
    # ---- effects of a body
    def effects(s, f, c=None, body=None, reads=False, locks=frozenset()):
        """{(location, kind, locks): (function, line, via)}"""
        c = c or s.ctx(f); out = {}
        def put(locs, kind, n, lk, via=None):
            for l in locs:
                if l[0] == 'this' or isinstance(l[0], tuple):
                    out.setdefault((l, kind, lk), via or ((f, n.get('ln')),))
        def callee(g, n, recv, args, lk):
            for (l, kind, lk2), w in list(s.sum.get(g['id'], {}).items()):
                if kind == 'r' and not reads: continue
                ml = s.mapped(l, recv, args, n, c, frozenset(), g)
                lk3 = set(lk)
                for (m, mf) in lk2:
                    for q in s.mapped((m, mf), recv, args, n, c, frozenset(), g): lk3.add(q)
                put(ml, kind, n, frozenset(lk3), ((f, n.get('ln')),) + w[:6])
        def visit(n, lk):
            """expressions and statements, with the locks held; returns the locks held after"""
            if isinstance(n, list):
                for x in n: lk = visit(x, lk)
                return lk
            if not isinstance(n, dict): return lk
            k = n.get('k')
            if k == 'blk':
                inner = lk
                for x in n['a']: inner = visit(x, inner)
                gone = inner - lk
                return lk if True else gone
            if k == 'decl':
                for d in n['a']:
                    i = d.get('i')
                    if isinstance(i, dict):
                        visit(i, lk)
                        if any(g in (d.get('t') or '') for g in GUARDS) and i.get('k') == 'ctor' and i.get('a'):
                            if not any(w in (x.get('t') or '') + str(x.get('n') or '') for x in i['a'][1:] for w in ('defer_lock', 'try_to_lock')):
                                for a in i['a']:
                                    if 'mutex' in (strip(a).get('t') or ''): lk = lk | frozenset(s.lv(a, c) or s.org(a, c))
                return lk
            if k in ('if', 'while', 'do', 'for', 'rfor', 'switch', 'try'):
                for key in ('i', 'init', 'c', 'r', 'v', 'inc', 't', 'b', 'e', 'a', 'body', 'h', 'handlers'):
                    if key in n: visit(n[key], lk)
                for key, x in n.items():
                    if key not in ('i', 'init', 'c', 'r', 'v', 'inc', 't', 'b', 'e', 'a', 'body', 'h', 'handlers') and isinstance(x, (dict, list)): visit(x, lk)
                return lk
            if k == 'asg':
                put(s.lv(n['l'], c), 'w', n, lk)
            elif k == 'un' and n.get('op') in ('++', '--'): put(s.lv(n['e'], c), 'w', n, lk) if 'atomic' not in (strip(n['e']).get('t') or '') else None
            elif k == 'opc':
                g = s.F.fns.get(n.get('fn')); a = n.get('a') or []
                if g is not None and g.get('body'):
                    if g.get('cls'): callee(g, n, a[0], a[1:], lk)
                    else: callee(g, n, None, a, lk)
                elif n['op'] in ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '++', '--', '<<=', '>>='):
                    if 'atomic' not in (strip(a[0]).get('t') or ''): put(s.lv(a[0], c), 'w', n, lk)
                elif n['op'] in ('<<', '>>') and 'stream' in (strip(a[0]).get('t') or '') and not is_cout(a[0]): put(s.lv(a[0], c), 'w', n, lk)
                elif n['op'] == '>>' and len(a) > 1: put(s.lv(a[1], c), 'w', n, lk)
                elif n['op'] == '[]' and 'map<' in (strip(a[0]).get('t') or '') and not (n.get('fn') or '').endswith('const'): put(s.lv(a[0], c), 'w', n, lk)
                elif n['op'] == '()' and ('mt19937' in (strip(a[0]).get('t') or '') or 'engine' in (strip(a[0]).get('t') or '') or 'distribution' in (strip(a[0]).get('t') or '')):
                    put(s.lv(a[0], c), 'w', n, lk)
                    for x in a[1:]: put(s.lv(x, c), 'w', n, lk)
            elif k == 'call':
                g = s.F.fns.get(n.get('fn')); sh = short(n.get('n'))
                if g is not None and g.get('body'): callee(g, n, None, n['a'], lk)
                elif sh in STD_WRITE_ALGO:
                    for a in n['a'][:2] if sh != 'getline' else n['a'][:2]: put(s.lv(a, c) | (s.org(a, c) if pointerish(strip(a).get('t')) else set()), 'w', n, lk)
                elif sh in STD_WRITE_LAST and len(n['a']) > 2:
                    for a in n['a'][2:]:
                        if 'iterator' in (strip(a).get('t') or ''): put(s.lv(a, c) | s.org(a, c), 'w', n, lk)
            elif k == 'mcall':
                if n.get('fn') in s.F.fns:
                    for g in s.F.targets(n):
                        if g.get('body'): callee(g, n, n.get('b') or {'k': 'this'}, n['a'], lk)
                elif 'mutex' in (n.get('cls') or '') or 'unique_lock' in (n.get('cls') or ''):
                    t = frozenset(s.lv(n['b'], c))
                    if n.get('mn') == 'lock': lk = lk | t
                    elif n.get('mn') == 'unlock': lk = lk - t if t and 'mutex' in (n.get('cls') or '') else frozenset()
                elif not (n.get('fn') or '').endswith('const') and not n.get('const') and n.get('mn') not in STD_READ and 'atomic' not in (n.get('cls') or '') and n.get('b') is not None and not is_cout(n['b']):
                    put(s.receiver(n['b'], n, c), 'w', n, lk)
                elif n.get('mn') in ('read', 'getline') and n.get('a'):
                    put(s.org(n['a'][0], c), 'w', n, lk)
            elif k == 'ctor' and n.get('fn') in s.F.fns:
                g = s.F.fns[n['fn']]
                if g.get('body') or g.get('inits'): callee(g, n, None, n.get('a') or [], lk)
            elif k in ('new',) and isinstance(n.get('i'), dict): pass
            elif k == 'mem' and reads: put(s.lv(n, c), 'r', n, lk)
            elif k == 'ref' and reads and n.get('dk') in ('var', 'param', 'binding', 'global', 'static'):
                l = s.lv(n, c)
                put({x for x in l if x[0][0] in ('v', 'g')} if l else (), 'r', n, lk)
            if k == 'call' and short(n.get('n')) in ('make_shared', 'make_unique'):
                cls = base((n.get('t') or '').split('<', 1)[-1].rsplit('>', 1)[0])
                for g in s.F.ctors(cls) if cls in s.F.rec else []:
                    if len(g['params']) == len(n['a']): callee(g, n, None, n['a'], lk)
            for key, x in n.items():
                if key in ('k', 't', 'n', 'ln', 'fn') or not isinstance(x, (dict, list)): continue
                lk2 = visit(x, lk) if k not in ('lambda',) else visit(x, lk)
            return lk
        if body is not None: visit(body, locks)
        else:
            for x in f.get('inits') or []:
                if isinstance(x.get('i'), dict): visit(x['i'], locks)
                if x.get('f') : put({('this', x['f'])}, 'w', x['i'] if isinstance(x.get('i'), dict) else {}, locks)
            if f.get('body'): visit(f['body'], locks)
        return out
    def returns(s, f):
        c = s.ctx(f); out = set()
        if scalar(f.get('rt')) or not f.get('body'): return out
        inlam = set()
        for x in FX.walk(f['body']):
            if x.get('k') == 'lambda':
                for y in FX.walk(x['body']):
                    if y.get('k') == 'ret': inlam.add(id(y))
        for x in FX.walk(f['body']):
            if x.get('k') == 'ret' and id(x) not in inlam and isinstance(x.get('e'), dict):
                out |= s.org(x['e'], c)
                if isref(f.get('rt')) or pointerish(f.get('rt')): out |= s.lv(x['e'], c)
        return {l for l in out if l[0] == 'this' or l[0][0] in ('p', 'P', 'g')}
    def closure(s, roots=None, reads=False):
        """summaries of every function (or those reachable from roots), to a fixpoint"""
        fs = {f['id']: f for f in s.F.fns.values() if f.get('body') or f.get('inits')}
        callers = {}
        for f in fs.values():
            ctx = s.ctx(f)
            for b in ctx.bodies:
                for x in FX.walk(b):
                    if x.get('k') in ('call', 'mcall', 'opc', 'ctor'):
                        if x.get('fn') in s.F.fns:
                            for g in (s.F.targets(x) if x['k'] == 'mcall' else [s.F.fns[x['fn']]]): callers.setdefault(g['id'], set()).add(f['id'])
                        elif x['k'] == 'call' and short(x.get('n')) in ('make_shared', 'make_unique'):
                            cls = base((x.get('t') or '').split('<', 1)[-1].rsplit('>', 1)[0])
                            for g in s.F.ctors(cls) if cls in s.F.rec else []: callers.setdefault(g['id'], set()).add(f['id'])
        s.callers = callers
        todo = list(fs); inq = set(todo); n = 0
        while todo:
            i = todo.pop(0); inq.discard(i); f = fs[i]; n += 1
            if n > 40 * len(fs): raise FX.AnalysisError('effects do not settle')
            r = s.returns(f); e = s.effects(f, reads=reads)
            if r != s.ret.get(i, set()) or set(e) != set(s.sum.get(i, {})):
                s.ret[i] = r | s.ret.get(i, set()); old = s.sum.get(i, {}); m = dict(e); 
                for k, v in old.items(): m[k] = v
                changed = set(m) != set(old) or s.ret[i] != r or r
                s.sum[i] = m
                for q in callers.get(i, ()):
                    if q not in inq: inq.add(q); todo.append(q)
        s.passes = n
        return s
