"""L03: a failing statement stops the script and is reported.

CodeBlock::execute is translated over lists of 0..4 statements whose results are symbolic (success, exit, message); the guard under
which each statement runs and the result returned are compared with the definition.  InterpreterSession is translated likewise:
nothing is executed unless parsing succeeded, the message of a failure is written to the error stream, an exit request is handed on."""
from f02 import *
def ok(r): return fn('ok', r)
def ex(r): return fn('exit', r)
def msg(r): return fn('msg', r)
def same(a, b):
    """propositionally equal"""
    x = satisfiable(band(a, bnot(b))); y = satisfiable(band(b, bnot(a)))
    return None if x is None or y is None else not x and not y
def hooks(run):
    def execute(I, e, a, st, this):
        if not a or 'xecut' not in (e.get('cls') or e.get('bt') or ''): return NotImplemented
        o = a[0]
        if o.op == 'obj' or o.op == 'ref' and False: return NotImplemented
        I.emit(st, 'execute', (o,), e)
        return fn('result', o)
    def q(n):
        def f(I, e, a, st, this):
            if a and a[0].op == 'fn' and a[0].a[0] in ('result', 'parsed'): return fn(n, a[0])
            return NotImplemented
        return f
    def parse(I, e, a, st, this):
        if 'Parser' not in (e.get('cls') or e.get('bt') or ''): return NotImplemented
        return fn('parsed', *a[1:])
    def exe(I, e, a, st, this):
        if a and a[0].op == 'fn' and a[0].a[0] == 'parsed': return fn('block', a[0])
        return NotImplemented
    return {'execute': execute, 'isSuccessful': q('ok'), 'exitRequested': q('exit'), 'getMessage': q('msg'), 'parse': parse, 'getExecutable': exe}
def translate(F, f, fields, args, extra=None, handlers=True):
    op = [g['id'] for g in F.fns.values() if g.get('body') and g['id'] != f['id'] and g.get('cls') != f.get('cls') and 'ExecutionResult' not in (g.get('cls') or '') and not any(isfs(p['t']) or isios(p['t']) for p in g['params'])]
    W = World(); W.report = True; H = dict(W.hooks()); H.update(hooks(None)); H.update(extra or {})
    I = Interp(F, opaque=op, hooks=H, budget=400000); I.world = W; I.handlers = handlers
    st = St(); this = I.new_obj(f['cls'], st)
    for k, v in fields.items(): I.setf(this, k, v, st)
    r = I.inline(f, this, args, st)
    return I, st, r[0] if isinstance(r, tuple) else r
def blocks(F, R):
    n = 0
    for c in F.concrete('happyml::ExecutableStatement'):
        lists = [x for x in F.rec[c]['fields'] if 'vector' in x['t'] and 'ExecutableStatement' in x['t']]
        if not lists: continue
        f = F.method(c, 'execute', 1); R.analysed(f); n += 1; inst = f['n'].replace('happyml::', '')
        for k in range(5):
            ch = [sym('statement%d' % i) for i in range(k)]
            I, st, ret = translate(F, f, {lists[0]['n']: T('list', tuple(ch))}, [sym('context')])
            runs = {}
            order = []
            for e in effects(st):
                if e[1] == 'execute':
                    runs[e[2][0]] = bor(runs.get(e[2][0], FALSE), e[0]); order.append((e[2][0], e[0]))
            want = TRUE; bad = 0      # a guard that looks at the result of the statement before can only be evaluated after it ran: equal guards give the order
            name = '%s of %d statements' % (inst, k)
            if any(x not in ch for x in runs): R.undecided(name, 'executes something else'); continue
            for i, s in enumerate(ch):
                g = runs.get(s, FALSE); w = same(g, want)
                if w is None: R.undecided(name, 'condition too large'); bad = 1; break
                if not w:
                    R.viol(name, F.loc(f), 'a statement runs iff all before it succeeded and none asked to exit', 'statement %d runs when %s; it should run when %s' % (i + 1, show(g)[:160], show(want)[:160]), 'runs'); bad = 1; break
                if sum(1 for x, c in order if x is s) > 1 and any(satisfiable(band(c, d)) is not False for j, (x, c) in enumerate(order) for y, d in order[j + 1:] if x is s and y is s):
                    R.viol(name, F.loc(f), 'a statement runs once', 'statement %d can run twice' % (i + 1), 'twice'); bad = 1; break
                want = band(want, ok(fn('result', s)), bnot(ex(fn('result', s))))
            if bad: continue
            # the result is that of the last statement that ran
            g = TRUE
            for i, s in enumerate(ch):
                r = fn('result', s); stop = band(g, TRUE if i == k - 1 else bor(bnot(ok(r)), ex(r)))
                v = ret; m = {}
                for j, t in enumerate(ch[:i]): m[ok(fn('result', t))] = True; m[ex(fn('result', t))] = False
                alts = [m] if i == k - 1 else [{**m, ok(r): False}, {**m, ok(r): True, ex(r): True}]
                for a in alts:
                    x = resolve(ret, a)
                    if x is not r:
                        R.viol(name, F.loc(f), 'the result is that of the last statement that ran', 'after statement %d the result is %s' % (i + 1, show(x)[:120]), 'result'); bad = 1; break
                if bad: break
                g = band(g, ok(r), bnot(ex(r)))
            if not k:
                s0, e0 = fields_of(I, st, ret)
                if s0 is not TRUE or e0 is not FALSE: R.undecided(name, 'result of an empty script: %s' % show(ret)[:80]); bad = 1
            if not bad: R.ok(name, 'order, guards and result')
    return n
def fields_of(I, st, r):
    try: return I.getf(r, 'success', st), I.getf(r, 'exit', st)
    except Exception: return None, None
def resolve(t, m):
    if t.op == 'ite':
        c = simp(t.a[0], m)
        if c is TRUE: return resolve(t.a[1], m)
        if c is FALSE: return resolve(t.a[2], m)
        a, b = resolve(t.a[1], m), resolve(t.a[2], m)
        return a if a is b else ite(c, a, b)
    return t
def mentions(v, x): return any(y is x for y in walk(v))
def sessions(F, R):
    n = 0
    for f in src(F):
        if not (f.get('cls') or '').startswith('happyml::Interpreter'): continue
        if f['mn'] == 'interpretCommands':
            n += 1; R.analysed(f); inst = f['n'].replace('happyml::', '')
            fl = {x['n']: sym(x['n']) for x in F.rec[f['cls']]['fields']}
            I, st, ret = translate(F, f, fl, [sym(p['n']) for p in f['params']])
            es = effects(st)
            runs = [e for e in es if e[1] == 'execute']; rep = [e for e in es if e[1] == 'report' and e[2][0] is sym('g:std::cerr')]
            parsed = [x for e in es for y in (e[0],) + tuple(e[2]) for x in walk(y) if x.op == 'fn' and x.a[0] == 'parsed']
            if not runs or not parsed: R.undecided(inst, 'execution was not seen'); continue
            p = parsed[0]; blk = fn('block', p); res = fn('result', blk); bad = 0
            for e in runs:
                loc = '%s:%s' % (e[3][0].replace('/repo/', ''), e[3][1])
                if e[2][0] is not blk: R.undecided(inst, 'executes %s' % show(e[2][0])[:80]); bad = 1; continue
                r = implies(e[0], ok(p))
                if r is False: R.viol(inst, loc, 'a script that does not parse is not executed', 'execution is reached when %s' % show(e[0])[:160], 'parse'); bad = 1
                elif r is None: R.undecided(inst, 'condition too large'); bad = 1
            g = FALSE
            for e in runs: g = bor(g, e[0])
            if same(simp(g, {ok(p): True}), TRUE) is False: R.viol(inst, F.loc(f), 'a script that parses is executed', 'execution is skipped when %s' % show(bnot(simp(g, {ok(p): True})))[:160], 'skip'); bad = 1
            for what, cond, m in (('parse', {ok(p): False}, fn('msg', p)), ('execution', {ok(p): True, ok(res): False}, fn('msg', res))):
                c = FALSE
                for e in rep:
                    if mentions(e[2][1], m): c = bor(c, simp(e[0], cond))
                if satisfiable(bnot(c)) is not False:
                    R.viol(inst, F.loc(f), 'a failure is reported with its message', 'a failed %s writes its message to the error stream only when %s' % (what, show(c)[:120]), 'message-' + what); bad = 1
            x = resolve(ret, {ok(p): True}); 
            for o in (True, False):
                y = simp(tob(resolve(x, {ok(res): o})), {ok(p): True, ok(res): o})
                if same(y, ex(res)) is False: R.viol(inst, F.loc(f), 'an exit request is handed on', 'the result is %s when the statement %s' % (show(y)[:120], 'succeeds' if o else 'fails'), 'exit'); bad = 1
            if not bad: R.ok(inst, 'executes only what parsed; failures reported; exit handed on')
        elif f['mn'] == 'interpretFile':
            n += 1; R.analysed(f); inst = f['n'].replace('happyml::', '')
            def ic(I, e, a, st, this):
                I.emit(st, 'interpret', tuple(a[1:]), e); return fn('done', *a[1:])
            fl = {x['n']: sym(x['n']) for x in F.rec[f['cls']]['fields']}
            I, st, ret = translate(F, f, fl, [sym(p['n']) for p in f['params']], {'interpretCommands': ic})
            runs = [e for e in effects(st) if e[1] == 'interpret']
            if not runs: R.undecided(inst, 'interpretation was not seen')
            else:
                d = fn('done', *runs[0][2])
                y = ret
                while y.op == 'ite': y = y.a[1] if y.a[1] is d else y.a[2]
                if y is not d: R.viol(inst, F.loc(f), 'an exit request is handed on', 'the result is %s' % show(ret)[:120], 'exit')
                else: R.ok(inst, 'hands on the result of interpreting')
    return n
def catches(F, R):
    """a catch clause between a statement and the caller of the interpreter passes the failure on as it is"""
    n = 0
    for f in src(F):
        if '/lang/' not in f['path'] or not (f.get('cls') or '').startswith('happyml::Interpreter'): continue
        for x in FX.walk(f['body']):
            if x['k'] != 'try': continue
            for h in x.get('h') or []:
                n += 1; inst = '%s:%s' % (f['n'].replace('happyml::', ''), h.get('ln') or x.get('ln')); loc = '%s:%s' % (f['path'].replace('/repo/', ''), h.get('ln') or x.get('ln'))
                th = [y for y in FX.walk(h['b']) if y['k'] == 'throw']
                if not th: R.viol(inst, loc, 'a caught failure is passed on', 'the catch clause ends normally, so the caller does not learn of the failure', f['mn']); continue
                v = (h.get('v') or {}).get('id') if isinstance(h.get('v'), dict) else h.get('v')
                bad = [y for y in th if y.get('e') and any(z['k'] == 'ref' and z.get('id') == v for z in FX.walk(y['e'])) and not any(z['k'] in ('mcall', 'call') for z in FX.walk(y['e']))]
                if bad: R.viol(inst, '%s:%s' % (f['path'].replace('/repo/', ''), bad[0].get('ln')), 'a caught failure is passed on', 'throwing the caught object makes a copy of its base class, which loses the message; rethrow it', f['mn'] + '-slice')
                else: R.ok(inst, 'passes the failure on')
    return n
def loops(F, R):
    """the interactive loop ends when interpretation asks for it"""
    n = 0
    for f in src(F):
        if f['mn'] != 'interactiveInterpret': continue
        n += 1; R.analysed(f); inst = f['n'].replace('happyml::', '')
        def ic(I, e, a, st, this):
            I.emit(st, 'interpret', tuple(I.freeze(x, st) for x in a[1:]), e); return sym('done')
        fl = {x['n']: sym(x['n']) for x in F.rec[f['cls']]['fields']}
        body = [x for x in FX.walk(f['body']) if x['k'] == 'while' and any(y.get('mn') == 'interpretCommands' for y in FX.walk(x['b']))]
        if not body: R.undecided(inst, 'no loop seen'); continue
        # one iteration, entered with unknown contents of the variables
        op = [g['id'] for g in F.fns.values() if g.get('body') and g.get('cls') != f['cls']]
        W = World(); H = dict(W.hooks()); H.update({'interpretCommands': ic})
        I = Interp(F, opaque=op, hooks=H, budget=400000); I.world = W; I.handlers = True
        st = St(); this = I.new_obj(f['cls'], st)
        for x in FX.walk(f['body']):
            if x['k'] == 'decl':
                for v in x['vs'] if 'vs' in x else [x]:
                    if v.get('id') and 'string' in (v.get('t') or ''): st.env[v['id']] = sym(v.get('n') or 'v')
        fl = I.ex(body[0]['b'], st, this)
        on = FALSE; end = FALSE; eff = []
        for nm, x in (('fall', fl.fall), ('cont', fl.cont), ('brk', fl.brk), ('ret', fl.ret)):
            if x is None: continue
            called = FALSE
            for e in x[-1].eff:
                if e[1] == 'interpret': called = bor(called, band(x[0], e[0])); eff.append(e)
            if nm in ('brk', 'ret'): end = bor(end, x[0])
            else: on = bor(on, called)
        r = satisfiable(band(on, sym('done')))
        if not eff: R.undecided(inst, 'interpretation was not seen')
        elif r is None: R.undecided(inst, 'condition too large')
        elif r: R.viol(inst, F.loc(f), 'an exit request ends the session', 'the loop goes on although interpretation asked for the end', 'loop')
        elif satisfiable(band(end, bnot(sym('done')))): R.viol(inst, F.loc(f), 'only an exit request ends the session', 'the loop ends when %s' % show(end)[:120], 'loop-early')
        else: R.ok(inst, 'ends exactly when asked to')
    return n
def run(F, R):
    R.rule = ('Value graphs with effects of the code block over 0..4 statements with symbolic outcomes: the guard of each execution equals "all earlier statements succeeded and none asked to exit", the result is that of the last one '
              'run; of the interpreter session: execution only after a successful parse, failure messages reach the error stream, exit requests are returned, catch clauses pass failures on without slicing, the interactive loop ends when asked.')
    R.notes.append('the number of statements in a block is instantiated at 0..4; the loop body is the same for every statement')
    R.floor('code blocks', blocks(F, R), 1)
    R.floor('interpreter sessions', sessions(F, R), 2)
    loops(F, R)
    catches(F, R)
