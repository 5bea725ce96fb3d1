"""P03: every parameter training changes is saved under a name of its own and loaded into the same parameter.  Networks are built by
interpreting the building interface; the tensors handed to `save` and the paths they go to are compared with the paths every parameter is
loaded from; the network's saving and loading are interpreted over graph shapes and histories."""
from builder import *
from world import World
import m01, p01, graphs
from layers import Layer, E, E2, OPT
from graphs import Net, SHAPES, NET
FULL = 'happyml::FullTensor'
FOLDER = sym('folder')
def loaded(t): return t.op == 'fn' and t.a[0] == 't!loaded'
def io_hooks(log):
    def save(I, e, a, st, this):
        if len(a) < 2 or a[0].op == 'str': return NotImplemented
        if a[0].op == 'ite': return NotImplemented
        log.append((a[0], I.freeze(a[1], st))); return sym('saving %d' % len(log))
    def full(I, e, a, st, this):
        if len(a) == 1 and a[0].op in ('str', 'fn', 'sym') and 'BaseTensor' not in str((e or {}).get('t')) and textual(a[0]): return fn('t!loaded', I.freeze(a[0], st))
        return fn('t!full', *[I.freeze(x, st) for x in a])
    return {'save': save, FULL: full}
def textual(t): return t.op == 'str' or t.op == 'fn' and t.a[0] in ('concat', 'text', 'to_string') or any(x is FOLDER for x in walk(t))
def plain(t):
    """texts of numbers become texts"""
    def go(t):
        if not t.a or not any(isinstance(x, T) for x in t.a): return t
        r = rebuild(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        if r.op == 'fn' and r.a[0] in ('text', 'to_string') and r.a[1].op == 'num': return string(str(r.a[1].a[0]))
        if r.op == 'fn' and r.a[0] == 'concat':
            out = []
            for x in flat(r):
                if out and out[-1].op == 'str' and x.op == 'str': out[-1] = string(out[-1].a[0] + x.a[0])
                else: out.append(x)
            return out[0] if len(out) == 1 else T('fn', ('concat',) + tuple(out))
        return r
    return go(t)
def flat(t):
    if t.op == 'fn' and t.a[0] == 'concat':
        for x in t.a[1:]:
            for y in flat(x): yield y
    else: yield t
def params(F, cls, v):
    """(name, index, tensor) of every tensor held by a layer object, given its fields"""
    for f in F.rec[cls]['fields']:
        t = f['t'].replace('std::', '')
        if 'BaseTensor' not in t or 'queue' in t or f['n'] not in v: continue
        x = v[f['n']]
        if x.op == 'list':
            for i, y in enumerate(x.a): yield f['n'], i, y
        elif x.op not in ('null', 'undef', 'none'): yield f['n'], None, x
def trained(F, cls):
    """names of fields in which a training step leaves an optimizer's result"""
    y = m01.make(F, cls)
    for op, q in m01.SCRIPT[:3]:
        if op == 'f': y.forward(m01.inputs(F, cls, q), True)
        elif op == 'b': y.backward(q)
        elif op == 'a': y.apply()
    return {n for n, i, v in params(F, cls, y.fields()) if any(x.op == 'sym' and x.a[0].startswith('new') for x in walk(v))}, len(y.calls), y
def run(F, R):
    R.rule = 'What is handed to save, and where, is compared with where every parameter is loaded from, for every layer of networks built by the building interface; saving and loading of whole networks over graph shapes and histories.'
    R.notes += ['what a tensor file holds is decided by T05', 'failures to write are decided by F02']
    for m in ('saveKnowledge', 'loadKnowledge'):
        if not F.by_mn.get(m): raise FX.AnalysisError(m + ' not found')
    learn = {}
    for cls in sorted(F.concrete('happyml::BaseLayer')):
        try: names, n, y = trained(F, cls)
        except Budget: R.undecided(cls, 'budget'); continue
        if n and not names: R.undecided(cls.split('::')[-1], 'training results are not found in a field')
        if names: learn[cls] = names
    R.floor('layers that learn', len(learn), 3)
    seen = set()
    for name, mk in p01.NETS.items():
        for flag in (False, True): network(F, R, '%s, flags %s' % (name, flag), mk, learn, seen, flag)
    R.floor('learning layers met in networks', len(seen), len(learn))
    histories(F, R)
def network(F, R, name, mk, learn, seen, flag):
    log = []; e = {'L': enum(F, 'LayerType'), 'A': enum(F, 'ActivationType')}
    b = Build(F, io_hooks(log)); b.start(enum(F, 'OptimizerType')['adam']); vs = mk(b, e)
    for x in vs:
        for mn, t in sorted(p01.setters(F).items()):
            if t != 'bool': continue
            keep = b.st.copy(); b.set(x, mn, flag)
            if b.st.thr is TRUE: b.st.set(keep)
    if b.st.thr is TRUE: R.undecided(name, 'not built'); return
    g = Graph(b.I, b.st, b.build())
    if g.bad: R.undecided(name, g.bad); return
    I, st = b.I, b.st; paths = {}
    for i, ly in enumerate(g.layer):
        if not isref(ly): continue
        cls = st.heap[ly.a[0]][0]
        if cls not in learn: continue
        seen.add(cls); f, l = F.method(cls, 'saveKnowledge', 1), F.method(cls, 'loadKnowledge', 1)
        R.analysed(f, l); nm = '%s: layer %d (%s)' % (name, i, g.kind[i]); loc = F.loc(f)
        before = {k: I.freeze(v, st) for k, v in fields(I, st, ly).items()}
        # the parameters stand for themselves
        k = 0
        for fl in learn[cls]:
            v = fields(I, st, ly)[fl]
            if v.op == 'list': I.setf(ly, fl, T('list', tuple(sym('P%d_%d_%s' % (i, j, fl)) for j in range(len(v.a)))), st)
            else: I.setf(ly, fl, sym('P%d_%s' % (i, fl)), st)
        ps = [p for p in params(F, cls, fields(I, st, ly)) if p[0] in learn[cls]]
        held = dict(fields(I, st, ly)); del log[:]; unk = len(I.unk)
        I.method(ly, 'saveKnowledge', [FOLDER], st)
        if len(I.unk) > unk: R.undecided(nm, 'saving: %s' % I.unk[unk:][:2]); continue
        wrote = [(t, plain(p)) for t, p in log]
        changed = [k for k, v in fields(I, st, ly).items() if held.get(k) is not v]
        settle(R, nm + ': saving changes nothing', loc, 'saving must not change a layer', judge(string(','.join(changed)), string('')))
        fs = {}
        for t, p in wrote:
            own = [q for q in ps if q[2] is t]
            if not own: 
                if t.op == 'sym': R.viol(nm + ': saved', loc, 'a layer saves its own parameters', 'saves %s' % show(t)[:80], nm)
                else: R.undecided(nm, 'saves %s' % show(t)[:80])
                continue
            fs.setdefault(own[0][:2], []).append(p)
            if not any(x is FOLDER for x in walk(p)): R.viol(nm + ': folder', loc, 'knowledge goes to the folder that was asked for', show(p)[:100], nm); continue
            if p in paths and paths[p] != (i,) + own[0][:2]: R.viol(nm + ': name', loc, 'no two parameters share a file', '%s is also layer %s' % (show(p), paths[p]), nm + show(p))
            paths[p] = (i,) + own[0][:2]
        for n, j, t in ps:
            inst = '%s: %s%s saved' % (nm, n, '' if j is None else '[%d]' % j)
            if (n, j) in fs: R.ok(inst, show(fs[n, j][0]))
            else: R.viol(inst, loc, 'every parameter that training changes is saved', 'it is not written', inst)
        # loading
        held = dict(fields(I, st, ly)); unk = len(I.unk)
        I.method(ly, 'loadKnowledge', [FOLDER], st)
        if len(I.unk) > unk: R.undecided(nm, 'loading: %s' % I.unk[unk:][:2]); continue
        now = fields(I, st, ly); loc = F.loc(l)
        after = {(n, j): t for n, j, t in params(F, cls, now) if n in learn[cls]}
        for n, j, t in ps:
            inst = '%s: %s%s loaded' % (nm, n, '' if j is None else '[%d]' % j); v = after.get((n, j)); rule = 'every parameter is loaded from the file it was saved to'
            if v is None: R.viol(inst, loc, rule, 'it does not exist after loading', inst); continue
            if not loaded(v):
                if v is t: R.viol(inst, loc, rule, 'it is not loaded', inst)
                else: R.undecided(inst, show(v)[:120])
                continue
            p = plain(v.a[1])
            if (n, j) not in fs: continue
            if p in fs[n, j]: R.ok(inst)
            else: R.viol(inst, loc, rule, 'saved to %s, loaded from %s' % (show(fs[n, j][0])[:100], show(p)[:100]), inst)
        extra = [k for k in after if k not in {q[:2] for q in ps}]
        settle(R, nm + ': number of parameters', loc, 'loading gives the parameters that were saved', judge(num(len(extra)), ZERO))
        other = [k for k, v in now.items() if held.get(k) is not v and k not in learn[cls]]
        settle(R, nm + ': loading changes nothing else', loc, 'loading changes only parameters', judge(string(','.join(other)), string('')))
    R.count('files', len(paths))
HISTORIES = (('save',), ('load',), ('save', 'load'), ('load', 'save'), ('save', 'save'), ('load', 'load'), ('save', 'load', 'load', 'save'), ('load', 'save', 'load'), ('train', 'save', 'train', 'load'), ('unsaved', 'save', 'load'))
def histories(F, R):
    """every layer takes part in every saving and loading of a network, with the same folder"""
    nf = [f for m in ('saveKnowledge', 'loadKnowledge') for f in F.by_mn[m] if f['cls'] == 'happyml::NeuralNetworkForPrediction' or f['cls'] == 'happyml::NeuralNetworkForTraining']
    R.analysed(*nf)
    R.floor('entry points for knowledge', len(nf), 4)
    two = [f for f in nf if len(f['params']) == (3 if f['mn'][0] == 's' else 2)]
    for cls in sorted({f['cls'] for f in nf}):
        for shape in SHAPES:
            for h in HISTORIES:
                if any(x in ('save', 'load') and not [f for f in nf if f['mn'] == x + 'Knowledge' and F.is_a(cls, f['cls'])] for x in h): continue
                w = World(); hk = dict(w.hooks()); g = Net(F, shape, cls, {**hk, 'initialize_knowledge_path_directory': lambda I, e, a, st, this: fn('concat', a[0], string('/'), a[1])})
                g.I.world = w
                for x in F.rec[cls]['fields']: pass
                for n, v in (('repoRootPath', sym('repo')), ('name', sym('name'))): g.I.setf(g.net, n, v, g.st)
                paths = {}
                for k, step in enumerate(h):
                    del g.log[:]; inst = '%s, %s: %s %d' % (shape, '-'.join(h), step, k)
                    if step == 'train':
                        g.I.method(g.net, 'predict', [T('list', tuple(fn('t!input', graphs.lname(x)) for x in g.heads)), TRUE], g.st)
                        for x in g.outs: g.call(x, 'backward', fn('t!loss', graphs.lname(x)))
                        continue
                    if step == 'unsaved':
                        for x in g.heads: g.call(x, 'markUnsaved')
                        continue
                    mn = step + 'Knowledge'
                    ov = [f for f in nf if f['mn'] == mn and (f['cls'] == cls or F.is_a(cls, f['cls']))]
                    ov = min(ov, key=lambda f: len(f['params']))
                    a = [sym('label') if 'string' in p['t'] else sym('overwrite') for p in ov['params']]
                    r = g.I.inline(ov, g.net, a, g.st)
                    loc = F.loc(ov); took = [(x, q[0]) for m, x, q, _ in g.log if m == mn]
                    miss = [x for x in g.nodes if x not in {y for y, _ in took}]
                    if miss: R.viol(inst, loc, 'every layer takes part in %sing knowledge' % step.rstrip('e'), 'layers %s of %s do not' % (','.join(miss), shape), inst); continue
                    wrong = [m for m, x, q, _ in g.log if m in ('saveKnowledge', 'loadKnowledge') and m != mn]
                    if wrong: R.viol(inst, loc, 'saving does not load and loading does not save', wrong[0], inst); continue
                    R.ok(inst)
                    for x, p in took: paths.setdefault(plain(g.I.freeze(p, g.st)), set()).add(mn)
                if len(h) > 1 and paths:
                    settle(R, '%s, %s: folder' % (shape, '-'.join(h)), F.loc(nf[0]), 'knowledge is loaded from the folder it is saved to', judge(num(len(paths)), ONE))
    # the folder made for knowledge is the one of that name when it may be overwritten or does not exist
    for f in F.by_mn.get('initialize_knowledge_path_directory', []):
        w = World(); I = Interp(F, hooks=w.hooks()); I.world = w; st = St()
        r = I.inline(f, None, [sym('model'), sym('label'), TRUE], st); r = r[0] if isinstance(r, tuple) else r
        v = plain(I.freeze(r, st)); want = plain(fn('concat', sym('model'), string('/'), sym('label')))
        if v is want: R.ok('folder made for knowledge')
        else: settle(R, 'folder made for knowledge', F.loc(f), 'knowledge goes to the folder it is loaded from', judge(v, want))
