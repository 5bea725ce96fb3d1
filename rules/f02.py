"""F02: a file that cannot be opened is reported.

Every function that opens a file is translated to guarded effects (rules/world.py).  For each place that opens a file the rule is:
no use of the stream happens under a condition that admits it not being open, and when it is not open the function throws or
returns its failure value (false).  A constructor that keeps the stream throws, or leaves an object all of whose methods test it.
Callers of the functions that report with a return value must not drop it."""
from world import *
import report
SKIP = ('/test/', '/example/')
def src(F): return [f for f in F.fns.values() if f.get('body') and '/repo/src/' in f['path'] and not any(x in f['path'] for x in SKIP)]
def nodes(f):
    for x in FX.walk(f['body']): yield x
    for i in f.get('inits') or []:
        if i.get('i'):
            for x in FX.walk(i['i']): yield x
def opens(f):
    n = 0
    for x in nodes(f):
        if x['k'] == 'ctor' and isfs(x.get('t')) and [a for a in x['a'] if a['k'] != 'defarg'] and not isfs(x['a'][0].get('t')): n += 1
        elif x['k'] == 'mcall' and x['mn'] == 'open' and (isfs(x.get('bt')) or isfs(x.get('cls'))): n += 1
    return n
def streamclasses(F):
    return sorted(c for c, r in F.rec.items() if any(isfs(x['t']) for x in r['fields']) and c.startswith('happyml'))
HOLD = {}
def holders(F):
    """classes that hold a stream, directly or in a field held by value"""
    if id(F) not in HOLD:
        h = set(streamclasses(F))
        h |= {c for c, r in F.rec.items() if any(base_t(x['t']) in h for x in r['fields'])}
        HOLD[id(F)] = h
    return HOLD[id(F)]
def setup(F, f):
    op = []
    for g in F.fns.values():
        if g['id'] == f['id'] or not g.get('body'): continue
        if any(isfs(p['t']) or isios(p['t']) for p in g['params']): continue
        if g.get('path') == f['path'] and not (g.get('cls') and g.get('cls') != f.get('cls')): continue
        if g.get('cls') in holders(F): continue
        op.append(g['id'])
    W = World(); I = Interp(F, opaque=op, hooks=W.hooks(), budget=400000); I.world = W
    return W, I
def effects(st):
    return [e for e in st.eff if len(e) > 3 and isinstance(e[3], tuple)]
def opened_atoms(t): return [x for x in atoms(t, []) if x.op == 'fn' and x.a[0] == 'opened']
def site_name(F, f, e): return '%s:%s' % (f['n'].replace('happyml::', ''), e[3][1])
def uses(F, R, f, st, inst):
    """no use of a stream under a condition that admits it being closed"""
    bad = 0; n = 0
    for e in effects(st):
        if e[1] != 'use': continue
        n += 1
        r = implies(e[0], e[2][1])
        loc = '%s:%s' % (e[3][0].replace('/repo/', ''), e[3][1])
        if r is None: R.undecided(inst, 'condition too large'); bad += 1
        elif not r:
            bad += 1
            R.viol(inst, loc, 'use only when open', '%s of the stream on %s when that file may not be open (reached when %s)' % (e[2][2].a[0], show(e[2][0])[:80], show(e[0])[:160]),
                   '%s:%s' % (f['mn'], e[2][2].a[0]))
    if not bad: R.ok(inst, 'use only when open: %d uses' % n)
    return n
def reported(F, R, f, st, ret, inst, ctor=False):
    """when the file cannot be opened: throw, or return the failure value.  -> set of ways"""
    ways = set()
    isb = f.get('rt') == 'bool'
    for e in effects(st):
        if not e[1].startswith('open-'): continue
        o = fn('opened', e[2][0])
        loc = '%s:%s' % (e[3][0].replace('/repo/', ''), e[3][1])
        g = band(simp(e[0], {o: False}), bnot(simp(st.thr, {o: False})))
        s = satisfiable(g)
        if s is None: R.undecided(inst, 'condition too large'); continue
        if not s: ways.add('throw'); R.ok(inst, 'failure to open at %s throws' % loc); continue
        if isb:
            q = simp(tob(ret), {o: False})
            r = satisfiable(band(g, q))
            if r is None: R.undecided(inst, 'condition too large'); continue
            if not r: ways.add('false'); R.ok(inst, 'failure to open at %s returns false' % loc); continue
        if ctor: ways.add('silent'); continue
        ways.add('silent')
        R.viol(inst, loc, 'failure to open is reported', 'when %s cannot be opened, %s neither throws nor returns a failure%s' % (show(e[2][0])[:100], f['n'].replace('happyml::', ''),
               ' (it returns %s)' % show(ret)[:60] if ret is not NONE else ''), f['mn'])
    return ways
def tob(v):
    if v.op == 'ite': return ite(v.a[0], tob(v.a[1]), tob(v.a[2]))
    return v if isbool(v) else TRUE if v.op == 'num' and v is not num(0) else FALSE if v.op == 'num' else fn('val', v)
def streams_of(F, cls): return [x['n'] for x in F.rec[cls]['fields'] if isfs(x['t'])]
def interp(F, f, preset=None):
    W, I = setup(F, f); I.handlers = True; st = St(); this = None
    args = [sym(p['n'] or 'p%d' % i) for i, p in enumerate(f['params'])]
    if f.get('cls') and not f.get('static'):
        this = I.new_obj(f['cls'], st)
        for k, v in (preset or {}).items(): I.setf(this, k, v, st)
    if f.get('ctor'):
        I.run_ctor(this, f['cls'], f['id'], args, st); ret = NONE
    else:
        r = I.inline(f, this, args, st); ret = r[0] if isinstance(r, tuple) else r
    return I, st, this, ret
def run(F, R):
    R.rule = ('Every function that opens a file is translated to effects with guards (open, use of the stream, throw, return value; try/catch, helpers taking the stream and classes holding one are followed). '
              'Per opening: a use whose guard does not entail that the file is open, or an exit that neither throws nor returns false when it is not, is a violation; a class whose constructor does not throw must report in every '
              'operation. Calls that drop the false result of a reporting function are violations.')
    R.notes += ['opening is the only failure considered; a failing read or write of an open file is not', 'path conditions are compared propositionally, atoms being independent']
    sc = streamclasses(F)
    fs = src(F)
    nopen = 0; byfalse = set()
    for f in fs:
        n = opens(f)
        if not n or f.get('cls') in sc: continue
        R.analysed(f); nopen += n
        I, st, this, ret = interp(F, f)
        inst = f['n'].replace('happyml::', '')
        uses(F, R, f, st, inst)
        w = reported(F, R, f, st, ret, inst)
        if 'false' in w: byfalse.add(f['id'])
        if not any(e[1].startswith('open-') for e in effects(st)): R.undecided(inst, 'opening was not seen')
    for c in sc:
        ms = [f for f in fs if f.get('cls') == c]
        always = bool(ms)
        for f in ms:
            if not f.get('ctor'): continue
            n = opens(f)
            R.analysed(f); nopen += n
            inst = f['n'].replace('happyml::', '')
            I, st, this, ret = interp(F, f)
            if not any(e[1].startswith('open-') for e in effects(st)): always = False; continue
            uses(F, R, f, st, inst)
            w = reported(F, R, f, st, ret, inst, ctor=True)
            if w - {'throw'}: always = False
        R.count('stream classes')
        for f in ms:
            if f.get('ctor') or f['mn'].startswith('~') or f['mn'] in ('close', 'is_open'): continue
            inst = f['n'].replace('happyml::', '')
            if f.get('acc') != 'public' and not opens(f): continue      # private helpers are judged where public methods call them
            R.analysed(f)
            o = fn('opened', sym('file'))
            if always: preset = {k: stream(sym('file'), TRUE, string('rw')) for k in streams_of(F, c)}
            else: preset = {k: stream(sym('file'), o, string('rw')) for k in streams_of(F, c)}
            I, st, this, ret = interp(F, f, preset)
            nopen += opens(f)
            touched = [e for e in effects(st) if e[1] in ('use', 'use?')]
            uses(F, R, f, st, inst)
            reported(F, R, f, st, ret, inst)
            if always: continue
            # the object may hold a file that was never opened: every operation has to say so
            mode = sorted({x for x in [show(st.thr)]})
            thr = simp(st.thr, {o: False})
            if not [x for x in FX.walk(f['body']) if x['k'] in ('mcall', 'opc') and any(y.get('k') == 'mem' and y.get('n') in streams_of(F, c) for y in FX.walk(x))] and not touched: continue
            r = satisfiable(bnot(thr))
            if r is None: R.undecided(inst, 'condition too large')
            elif not r: R.ok(inst, 'an unopened file is reported')
            elif f.get('rt') == 'bool' and satisfiable(band(bnot(thr), simp(tob(ret), {o: False}))) is False: R.ok(inst, 'an unopened file is reported')
            else: R.viol(inst, F.loc(f), 'an unopened file is reported', '%s continues when the file of the object could not be opened; the constructor does not report it either' % inst, f['mn'])
    dropped(F, R, fs, byfalse)
    R.floor('places that open a file', nopen, 15)
def callee(x): return x.get('fn')
def dropped(F, R, fs, byfalse):
    """the failure value of a function that reports by returning it is not thrown away"""
    grown = True
    while grown:
        grown = False
        for f in fs:
            if f['id'] in byfalse or f.get('rt') != 'bool': continue
            for x in FX.walk(f['body']):
                if x['k'] in ('ret', 'if') and any(y.get('fn') in byfalse for y in FX.walk(x.get('e') if x['k'] == 'ret' else x['c']) if y['k'] in ('call', 'mcall')):
                    byfalse.add(f['id']); grown = True; break
    virt = set(byfalse)
    for f in fs:
        for x in FX.walk(f['body']):
            stm = x['a'] if x['k'] == 'blk' else [x.get('t'), x.get('e')] if x['k'] == 'if' else [x.get('b')] if x['k'] in ('for', 'while', 'do', 'rfor') else []
            for s in stm:
                s0 = s
                while isinstance(s, dict) and s.get('k') in ('cast', 'conv', 'rcast', 'full'): s = s['e']
                if isinstance(s, dict) and s.get('k') in ('call', 'mcall') and s.get('fn') in virt:
                    g = F.fns[s['fn']]; inst = '%s -> %s' % (f['n'].replace('happyml::', ''), g['n'].replace('happyml::', ''))
                    R.viol(inst, '%s:%s' % (f['path'].replace('/repo/', ''), s.get('ln')), 'failure result is looked at', 'the result of %s, which is false when its file cannot be opened, is ignored' % g['n'].replace('happyml::', ''), '%s>%s' % (f['n'].replace('happyml::', ''), g['mn']))
    for g in sorted(byfalse):
        n = 0
        for f in fs:
            n += sum(1 for x in FX.walk(f['body']) if x['k'] in ('call', 'mcall') and x.get('fn') == g)
        R.ok(F.fns[g]['n'].replace('happyml::', ''), 'failure result is looked at: %d calls' % n)
