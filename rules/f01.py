"""F01: saving without overwrite never destroys existing data.

The functions that change the file system are translated to guarded effects (rules/world.py); each effect carries the path it
works on as a value.  For every saving entry point the cases {overwrite asked or not} x {target exists or not} are decided by
fixing those atoms in guards and paths: where the target exists and overwriting was not asked, every surviving effect must be on
one common new location, never inside or on the target, and nothing is removed; otherwise everything stays under the target."""
import os
from f02 import *
DESTROY = {'remove', 'remove_all', 'rename', 'copy', 'copy_file', 'resize_file'}
WRITE = {'open-w', 'open-a', 'create_directories', 'create_directory', 'save-under'} | DESTROY
FRESH = ('now',)
def fresh(p): return any(x.op == 'fn' and x.a[0].split(':')[-1] in FRESH for x in walk(p))
def parts(p):
    """path as a tuple of pieces, literal text split so that prefixes compare"""
    if p.op == 'fn' and p.a[0] == 'concat':
        out = []
        for x in p.a[1:]: out += parts(x)
        return out
    if p.op == 'str': return list(re.findall(r'/|[^/]+', p.a[0]))
    return [p]
def under(p, t, strict=True):
    """p is t or something below it (strict: a real sub-path, not another name that starts the same)"""
    a, b = parts(p), parts(t)
    if a[:len(b)] != b: return False
    return len(a) == len(b) or not strict or a[len(b)] == '/' or b[-1] == '/'
def climbs(p): return any(x == '..' for x in parts(p)[1:])
def resolve(t, m):
    """t with the conditions of m decided inside values"""
    memo = {}
    def go(t):
        if not isinstance(t, T): return t
        if t in memo: return memo[t]
        if t.op == 'ite':
            c = simp(t.a[0], m)
            r = go(t.a[1]) if c is TRUE else go(t.a[2]) if c is FALSE else ite(c, go(t.a[1]), go(t.a[2]))
        elif t.op == 'fn' and t.a[0] == 'concat': r = concat(*[go(x) for x in t.a[1:]])
        elif any(isinstance(x, T) for x in t.a): r = rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        else: r = t
        memo[t] = r
        return r
    return go(t)
def concat(*xs):
    out = []
    for x in xs:
        for y in (x.a[1:] if x.op == 'fn' and x.a[0] == 'concat' else (x,)):
            if y.op == 'str' and out and out[-1].op == 'str': out[-1] = string(out[-1].a[0] + y.a[0])
            elif not (y.op == 'str' and y.a[0] == ''): out.append(y)
    return out[0] if len(out) == 1 else fn('concat', *out)
def fsatoms(effs):
    out = []
    for e in effs:
        for t in (e[0],) + tuple(e[2]):
            for x in walk(t):
                if x.op == 'fn' and x.a[0] in ('exists', 'isdir', 'isfile') and x not in out: out.append(x)
    return out
def decide(effs, m0, rule):
    """fix the existence atoms by rule(path) -> bool or None, repeatedly (paths depend on earlier decisions)"""
    m = dict(m0)
    for _ in range(4):
        new = []
        for e in effs:
            g = simp(resolve(e[0], m), m)
            if g is FALSE: continue
            new.append((g, e[1], tuple(resolve(x, m) for x in e[2]), e[3]))
        ch = False
        for x in fsatoms(new):
            v = rule(x.a[1])
            if v is not None and x not in m: m[x] = v; ch = True
        effs = new
        if not ch: break
    return effs

# ---------------------------------------------------------------- which functions matter
def ofs(t): return 'ofstream' in (t or '')
def reach(F):
    """(calls, functions that change the file system themselves)"""
    calls = {}; hit = set()
    hold = {c for c in holders(F) if any(ofs(x['t']) for x in F.rec[c]['fields']) or any(ofs(y['t']) for x in F.rec[c]['fields'] for y in (F.rec.get(base_t(x['t'])) or {'fields': []})['fields'])}
    for f in src(F):
        c = set()
        for x in nodes(f):
            if x['k'] in ('call', 'mcall', 'ctor') and x.get('fn'): c.add(x['fn'])
            n = x.get('n') or ''
            if x['k'] == 'call' and ('filesystem' in n or 'filesystem' in (x.get('fn') or '')) and n.split('::')[-1].split('(')[0] in FS and n.split('::')[-1].split('(')[0] not in ('exists', 'is_directory', 'is_regular_file', 'canonical', 'absolute', 'file_size'): hit.add(f['id'])
            if x['k'] == 'ctor' and (ofs(x.get('t')) or base_t(x.get('t') or '') in hold): hit.add(f['id'])
            if x['k'] == 'mcall' and x['mn'] == 'open' and (ofs(x.get('bt')) or ofs(x.get('cls'))): hit.add(f['id'])
            if x['k'] == 'call' and 'make_' in n and any(h in (x.get('fn') or '') + (x.get('t') or '') for h in hold): hit.add(f['id'])
        calls[f['id']] = c
    return calls, hit
def inst_of(f): return f['n'].replace('happyml::', '')
def lineof(e): return '%s:%s' % (os.path.normpath(e[3][0] or '').split('/src/')[-1], e[3][1])

def translate(F, f, keep=(), hooks=None, fields=None, args=None):
    """effects of f; only the functions named in keep, stream holders and same-class methods are entered"""
    op = []
    for g in F.fns.values():
        if g['id'] == f['id'] or not g.get('body'): continue
        if any(isfs(p['t']) or isios(p['t']) for p in g['params']): continue
        if g.get('cls') in holders(F): continue
        if g['id'] in keep: continue
        op.append(g['id'])
    W = World(); H = dict(W.hooks()); H.update(hooks or {})
    I = Interp(F, opaque=op, hooks=H, budget=400000); I.world = W; I.handlers = True
    st = St(); this = None
    if f.get('cls') and not f.get('static'):
        this = I.new_obj(f['cls'], st)
        for k, v in (fields or {}).items(): I.setf(this, k, v, st)
    a = args if args is not None else [sym(p['n'] or 'p%d' % i) for i, p in enumerate(f['params'])]
    r = I.inline(f, this, a, st)
    return I, st, r[0] if isinstance(r, tuple) else r

def savers(F):
    """(function, target, value of overwrite or None when it is a parameter, keep-set)"""
    net = 'happyml::NeuralNetworkForTraining'; out = []
    own = [f['id'] for f in src(F) if f.get('cls') == net and f['mn'] not in ('train',) and ('save' in f['mn'].lower() or 'path' in f['mn'].lower())]
    util = [f['id'] for f in src(F) if f['path'].split('/')[-1] in ('data_util.hpp', 'file_writer.hpp')]
    home = concat(sym('repoRootPath'), string('/'), sym('name'))
    for f in src(F):
        if f.get('cls') not in (net, 'happyml::BytePairEncoderModel') and f.get('cls'): continue
        ps = f['params']
        over = [p for p in ps if p['t'].replace('const ', '') == 'bool' and 'overwrite' in p['n'].lower()]
        s = [p['n'] for p in ps if 'string' in p['t']]
        if f['mn'] in ('logTraining', 'printDone', 'train') or not over and not (f['mn'].startswith('save') and 'verwrite' in f['mn']): continue
        if over and not s: continue
        if not over:
            v = TRUE if 'Without' not in f['mn'] else FALSE
            t = concat(home, string('/'), sym(s[0])) if s else home
            out.append((f, t, v, own + util))
        elif len(s) >= 2: out.append((f, concat(sym(s[0]), string('/'), sym(s[1])), None, own + util))
        elif len(s) == 1 and f['mn'] == 'saveKnowledge': out.append((f, concat(home, string('/'), sym(s[0])), None, own + util))
        elif len(s) == 1: out.append((f, sym(s[0]), None, own + util))
    return out

def node_save(I, e, a, st, this):
    if 'NeuralNetworkForTraining::' in (e.get('fn') or ''): return NotImplemented
    I.emit(st, 'save-under', (a[-1],), e)
    return NONE

def run_savers(F, R):
    n = 0
    for f, target, over, keep in savers(F):
        n += 1
        R.analysed(f); inst = inst_of(f)
        fields = {'repoRootPath': sym('repoRootPath'), 'name': sym('name')} if f.get('cls') == 'happyml::NeuralNetworkForTraining' else {}
        args = [sym(p['n']) for p in f['params']]
        I, st, ret = translate(F, f, keep, {'saveKnowledge': node_save}, fields, args)
        effs = [e for e in effects(st) if e[1] in WRITE]
        if not effs: R.undecided(inst, 'no change of the file system seen'); continue
        ov = [sym(p['n']) for p in f['params'] if p['t'].replace('const ', '') == 'bool'] if over is None else []
        for o in ((False, True) if over is None else (over is TRUE,)):
            for exists in (False, True):
                m0 = {x: o for x in ov}
                def rule(p):
                    p = strip_canon(p)
                    if fresh(p): return False
                    if p == target: return exists
                    if under(p, target): return False if not exists else (False if o else None)
                    if under(target, p): return None
                    return None
                es = decide(effs, m0, rule)
                case = 'overwrite=%s, target %s' % (o, 'exists' if exists else 'does not exist')
                judge_case(R, inst, case, es, target, o, exists)
    return n
def strip_canon(p):
    if p.op == 'ite': return ite(p.a[0], strip_canon(p.a[1]), strip_canon(p.a[2]))
    if p.op == 'fn' and p.a[0] in ('canonical', 'absolute'): return strip_canon(p.a[1])
    if p.op == 'fn' and p.a[0] == 'concat': return concat(*[strip_canon(x) for x in p.a[1:]])
    return p
def judge_case(R, inst, case, es, target, o, exists):
    base = None; bad = 0; k = 0
    for e in es:
        for c, p in cases(strip_canon(e[2][0]) if e[2] else string('')):
            if satisfiable(band(e[0], c)) is False: continue
            k += 1; p = strip_canon(p)
            loc = lineof(e); name = '%s (%s)' % (inst, case)
            def bark(why):
                R.viol(name, 'src/' + loc, 'saves stay at their location', '%s of %s %s' % (e[1], show(p)[:140], why), e[1])
            if exists and not o:
                if e[1] in DESTROY: bark('although overwriting was not asked for'); bad += 1; continue
                if not fresh(p) or under(p, target): bark('touches what is already at %s although overwriting was not asked for' % show(target)[:80]); bad += 1; continue
                if base is None: base = p
                elif not under(p, base): bark('is not part of the new location %s of this save' % show(base)[:140]); bad += 1; continue
            else:
                if e[1] in DESTROY and not (o and exists): bark('although there is nothing to replace'); bad += 1; continue
                if not under(p, target): bark('is outside the target %s' % show(target)[:80]); bad += 1; continue
            if climbs(p): bark('climbs out of the target'); bad += 1
    if not bad: R.ok('%s (%s)' % (inst, case), '%d effects' % k)

def elements(t, defs, seen=()):
    """terms that can be elements of the list value t; None when unknown"""
    if t in seen: return set()
    seen = seen + (t,)
    if t.op == 'list': return set(t.a)
    if t.op == 'ite':
        a, b = elements(t.a[1], defs, seen), elements(t.a[2], defs, seen)
        return None if a is None or b is None else a | b
    if t.op == 'fn' and t.a[0] == 'push':
        a = elements(t.a[1], defs, seen)
        return None if a is None else a | {t.a[2]}
    if t.op == 'push':
        a = elements(t.a[0], defs, seen)
        return None if a is None else a | {t.a[1]}
    if t in defs:
        out = set()
        for x in defs[t]:
            a = elements(x, defs, seen)
            if a is None: return None
            out |= a
        return out
    if t.op == 'fold' and t.a and t.a[0] == string('while'):
        k = (len(t.a) - 3) // 3
        return elements(t.a[1 + k], dict(defs, **{}), seen) if t.a[1 + k] in defs else None
    return None
def loopdefs(effs, extra=()):
    """values a loop-carried variable can have: its start and what an iteration makes of it"""
    defs = {}; seen = set()
    for t in [x for e in effs for x in (e[0],) + tuple(e[2])] + list(extra):
        for x in walk(t, seen):
            if x.op == 'fold' and x.a[0] == string('while'):
                k = (len(x.a) - 3) // 3
                for i in range(k): defs.setdefault(x.a[1 + k + i], set()).update((x.a[1 + i], x.a[3 + 2 * k + i]))
    return defs
def paths_of(p, defs):
    """the possible values of a path that is read back from a list or chosen by a condition"""
    if p.op == 'ite':
        a, b = paths_of(p.a[1], defs), paths_of(p.a[2], defs)
        return None if a is None or b is None else a | b
    if p.op == 'fn' and p.a[0] == 'at': return elements(p.a[1], defs)
    if p.op == 'at': return elements(p.a[0], defs)
    return {p}
def run_helpers(F, R):
    """functions given a destination write only there; what they remove they have written themselves"""
    n = 0; out = {}
    for f in src(F):
        if f.get('cls') in holders(F) or f.get('ctor') or not any('string' in p['t'] for p in f['params']) or f.get('cls') and not f.get('static'): continue
        if not reaches_write(F, f) or any('verwrite' in p['n'] for p in f['params']): continue
        if f['mn'] in ('create_label_task', 'create_happyml_task', 'main', 'create_tokenizer_main') or len(list(nodes(f))) > 6000: continue
        R.analysed(f); inst = inst_of(f)
        keep = [g['id'] for g in src(F) if g['path'] == f['path'] and not any(isfs(p['t']) for p in g['params'])]
        I, st, ret = translate(F, f, keep)
        effs = [e for e in effects(st) if e[1] in WRITE]
        if not effs: continue
        n += 1
        defs = loopdefs(effs); written = set(); bad = 0; dest = set(); summ = []
        for e in effs:
            ps = paths_of(e[2][0], defs)
            if ps is None and all(x.op != 'fold' for x in walk(e[2][0])): continue       # an element of the caller's list: judged where the list is made
            if ps is None: R.undecided(inst, 'path of %s at %s' % (e[1], lineof(e))); bad += 1; continue
            for p in ps:
                h = parts(p)[0]
                if not (isinstance(h, T) and h.op == 'sym'):
                    R.viol(inst, 'src/' + lineof(e), 'writes only where the caller said', '%s of %s, which is not named by the caller' % (e[1], show(p)[:140]), e[1]); bad += 1; continue
                if climbs(p): R.viol(inst, 'src/' + lineof(e), 'writes only where the caller said', '%s of %s climbs out of what the caller named' % (e[1], show(p)[:140]), e[1]); bad += 1; continue
                summ.append((e[1], p, e[3]))
                if e[1] == 'open-w': written.add(p)
                dest.add(h)
        for k, p, at in summ:
            if k in DESTROY and p not in written and inst.split('::')[-1] not in ('removeKnowledge',):
                R.viol(inst, 'src/' + lineof((0, 0, 0, at)), 'removes only its own files', '%s of %s, which this function did not write' % (k, show(p)[:140]), k); bad += 1
        if len(dest) > 1: R.viol(inst, F.loc(f), 'writes only where the caller said', 'files are written under several parameters: %s' % ', '.join(sorted(show(x) for x in dest)), 'many'); bad += 1
        if not bad: R.ok(inst, 'writes only under %s' % ', '.join(sorted(show(x) for x in dest)))
        if 'string' in (f.get('rt') or '') and not all(q in written for c, q in cases(ret)): dest = set()      # its result is not known to be a file of its own
        out[f['id']] = (f, dest)
    return n, out
_RW = {}
def reaches_write(F, f):
    if id(F) not in _RW:
        calls, hit = reach(F)
        wr = set(hit)
        while True:
            new = {i for i, c in calls.items() if i not in wr and c & wr and F.fns[i].get('mn') not in ('train', 'run')}
            if not new: break
            wr |= new
        _RW[id(F)] = wr
    return f['id'] in _RW[id(F)]

# ---------------------------------------------------------------- statements and tasks
def cases(p):
    """(condition, path without choices)"""
    if p.op == 'ite':
        return [(band(p.a[0], c), q) for c, q in cases(p.a[1])] + [(band(bnot(p.a[0]), c), q) for c, q in cases(p.a[2])]
    if p.op == 'fn' and p.a[0] == 'concat':
        out = [(TRUE, [])]
        for x in p.a[1:]: out = [(band(c, d), l + [q]) for c, l in out for d, q in cases(x)]
        return [(c, concat(*l)) for c, l in out]
    return [(TRUE, p)]
def dedupe(effs):
    out = []; seen = set()
    for e in effs:
        k = (e[0], e[1], tuple(e[2][:1]), e[3])
        if k not in seen: seen.add(k); out.append(e)
    return out
def writer_hooks(F, summ):
    """a call of a judged helper stands for a write below the parameter it writes under"""
    H = {}
    for f, dests in summ.values():
        idx = [i for i, p in enumerate(f['params']) if sym(p['n']) in dests]
        if not idx: continue
        def h(I, e, a, st, this, f=f, idx=idx):
            if e.get('fn') != f['id']: return NotImplemented
            a = a[1:] if f.get('cls') and not f.get('static') else a
            for i in idx: I.emit(st, 'writes', (a[i],), e)
            v = fn('f:' + f['n'].split('::')[-1], *a)
            return v if 'string' not in (f.get('rt') or '') else fn('concat', a[idx[0]], string('/'), v)
        H.setdefault(f['n'].split('::')[-1], h)
    return H
def fields_of(F, cls): return {x['n']: sym(x['n']) for x in F.rec[cls]['fields']}
def statement(F, f, summ, extra=None):
    H = writer_hooks(F, summ); H.update(extra or {})
    I, st, ret = translate(F, f, [], H, fields_of(F, f['cls']) if f.get('cls') and not f.get('static') else {})
    return I, st, ret
CHANGES = WRITE | {'writes'}
def run_statements(F, R, summ):
    n = 0; results = {'f:' + f['n'].split('::')[-1] for f, d in summ.values() if d and 'string' in (f.get('rt') or '')}
    for f in src(F):
        if f['mn'] != 'execute' or not F.is_a(f.get('cls') or '', 'happyml::ExecutableStatement'): continue
        I, st, ret = statement(F, f, summ)
        effs = dedupe([e for e in effects(st) if e[1] in CHANGES])
        if not effs: continue
        R.analysed(f); n += 1; inst = inst_of(f); bad = 0
        homes = [x for e in effs for x in walk(e[2][0]) if x.op == 'fn' and x.a[0].endswith(('get_dataset_path', 'get_task_folder_path'))]
        home = homes[0] if homes else fn('f:get_dataset_path', sym('name_'))
        there = [x for e in effs for x in atoms(e[0], []) if x.op == 'fn' and x.a[0].endswith('dataset_exists') and x.a[1] is home.a[1]]
        written = set()
        for e in effs:
            if not any(satisfiable(band(e[0], c)) is not False for c, p in cases(e[2][0])): continue
            if there:
                r = implies(e[0], bnot(there[0]))
                if r is None: R.undecided(inst, 'guard of %s at %s too large' % (e[1], lineof(e))); bad += 1
                elif not r: R.viol(inst, 'src/' + lineof(e), 'what exists is not touched', '%s of %s when %s already exists' % (e[1], show(e[2][0])[:120], show(home)), e[1] + '-exists'); bad += 1
            else: R.viol(inst, 'src/' + lineof(e), 'what exists is not touched', '%s of %s without asking whether it exists' % (e[1], show(e[2][0])[:120]), e[1] + '-exists'); bad += 1
            for c, p in cases(e[2][0]):
                if satisfiable(band(e[0], c)) is False: continue
                if not under(p, home) or climbs(p):
                    R.viol(inst, 'src/' + lineof(e), 'saves stay at their location', '%s of %s is outside %s' % (e[1], show(p)[:140], show(home)), e[1]); bad += 1
                if e[1] in ('writes', 'open-w'): written.add(p)
                elif e[1] in DESTROY and p not in written and not any(isinstance(x, T) and x.op == 'fn' and x.a[0] in results for x in parts(p)):
                    R.viol(inst, 'src/' + lineof(e), 'removes only its own files', '%s of %s, which this run did not write' % (e[1], show(p)[:140]), e[1]); bad += 1
        if not bad: R.ok(inst, '%d effects, all under %s and only when it does not exist' % (len(effs), show(home)))
    return n
def run_tasks(F, R, summ):
    n = 0
    for f in src(F):
        if f.get('cls') or not {'task_name', 'task_folder_path'} <= {p['n'] for p in f['params']} or not reaches_write(F, f): continue
        I, st, ret = statement(F, f, summ)
        effs = dedupe([e for e in effects(st) if e[1] in CHANGES])
        if not effs or not any(e[1] in DESTROY or e[1] == 'open-w' for e in effs): continue
        R.analysed(f); n += 1; inst = inst_of(f); bad = 0
        home = concat(sym('task_folder_path'), sym('task_name')); conf = [x for x in fsatoms(effs) if under(x.a[1], home) and x.a[1] is not home and x.a[0] == 'exists']
        for e in effs:
            for c, p in cases(e[2][0]):
                g = band(e[0], c)
                if satisfiable(g) is False: continue
                loc = 'src/' + lineof(e)
                if parts(p)[0] is sym('task_folder_path') and parts(p)[1:4] == ['/', '..', '/'] and 'logs' in parts(p)[4:5]:
                    if e[1] not in ('create_directories', 'create_directory', 'open-a'): R.viol(inst, loc, 'saves stay at their location', '%s of the log %s' % (e[1], show(p)[:100]), e[1]); bad += 1
                    continue
                if not under(p, home) or climbs(p): R.viol(inst, loc, 'saves stay at their location', '%s of %s is outside %s' % (e[1], show(p)[:140], show(home)), e[1]); bad += 1; continue
                if not conf: R.viol(inst, loc, 'what exists is not touched', '%s of %s without asking whether a complete task is there' % (e[1], show(p)[:120]), e[1]); bad += 1; continue
                m = {fn('exists', home): True}
                m.update({x: True for x in conf})
                r = satisfiable(simp(g, m))
                if r is None: R.undecided(inst, 'guard of %s at %s too large' % (e[1], lineof(e))); bad += 1
                elif r: R.viol(inst, loc, 'what exists is not touched', '%s of %s although a complete task is there' % (e[1], show(p)[:120]), e[1]); bad += 1
        if not bad: R.ok(inst, '%d effects; a complete task is left alone' % len(effs))
    return n
def run(F, R):
    R.rule = ('Functions that change the file system are translated to effects (open for writing, create, remove, rename, copy) whose path and guard are values over the parameters and the existence of paths. Saving entry points are '
              'decided for overwrite x target-exists; helper functions must write only below one parameter and remove only files they wrote.')
    R.notes += ['a new location is one whose name contains the clock; two saves within a millisecond are not distinguished', 'paths are compared as text built from the same pieces; symbolic links and case-insensitive file systems are not modelled']
    n = run_savers(F, R)
    R.floor('saving entry points', n, 4)
    m, summ = run_helpers(F, R)
    R.floor('helpers that write', m, 4)
    k = run_statements(F, R, summ)
    R.floor('statements that write', k, 1)
    k = run_tasks(F, R, summ)
    R.floor('tasks that write', k, 1)
