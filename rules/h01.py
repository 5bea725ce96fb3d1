"""H01: hyper-parameter search.  What an evaluation stores, what a drawn configuration consists of, how configurations are ordered and cut, and the
order of a round (evaluate all, cut, and finally read the best model back before its folder goes) are interpreted symbolically and compared with
the definition of keeping the best."""
from d04 import *
from b01 import whilefold
HB, CE, RS, HP, SP = N + 'Hyperband', N + 'ConfigurationEvaluator', N + 'HyperBandRandomSearch', N + 'Hyperparameters', N + 'HyperparameterSpace'
ACC = ('compute_categorical_accuracy', 'compute_binary_accuracy')
isfn = lambda t, *k: isinstance(t, T) and t.op == 'fn' and t.a[0] in k
def find(F, cls, n): return next((f for f in F.by_mn.get(n, []) if f.get('cls') == cls and f.get('body')), None)
def note(n, ret=True):
    def h(I, e, a, st, this):
        v = [I.freeze(x, st) for x in a]; I.emit(st, n, a, e); return fn(n, *v) if ret else NONE
    return h
def got(R, f, inst):
    if not f: R.undecided(inst, 'not found'); return False
    R.analysed(f); return True
def better(mn, a, b): return bor(band(mn, lt(a, b, False)), band(bnot(mn), lt(b, a, False)))
def unknown(I): return [u for u in I.unk if u[0] not in ('exit', 'uncounted loop')][:2]

def transition(F, R):
    """an evaluation is recorded in its configuration, and the best one changes exactly when the new score is better"""
    f = find(F, CE, 'evaluateConfiguration')
    if not got(R, f, 'evaluation'): return
    loc = F.loc(f); H = dict(BASE)
    for n in ('buildModel', 'trainModel', 'evaluateModel', 'get_name'): H[n] = note(n)
    def scored(I, e, a, st, this): I.emit(st, 'evaluateModel', a, e); return sym('score')
    H['evaluateModel'] = scored
    I, st = interp(F, H); o = obj(F, I, st, CE); c = obj(F, I, st, HP, 'c.')
    I.call(f, o, [c] + [sym(p['n']) for p in f['params'][1:]], st)
    if unknown(I): R.undecided('evaluation', str(unknown(I))); return
    m, mn, old, obest = sym('score'), sym('minimize_metric_'), sym('best_evaluation_metric_'), sym('best_configuration_')
    bs = I.freeze(I.getf(o, 'best_evaluation_metric_', st), st)
    bc = I.getf(o, 'best_configuration_', st); bn = I.freeze(I.getf(o, 'best_model_name_', st), st)
    bc = subst(bc, {c: sym('this configuration')}) if isinstance(bc, T) else bc
    bn = subst(bn, {x: sym('this model') for x in walk(bn) if isfn(x, 'get_name')})
    tries = []
    for a, b in ((lt, lt), (lt, le), (le, lt), (le, le)):
        is_better = bor(eq(obest, T('null', ()), 't'), band(mn, a(m, old, False)), band(bnot(mn), b(old, m, False)))
        tries.append([('best score', 'the best score is the better of the old and the new one', judge(bs, ite(is_better, m, old))),
                      ('best configuration', 'the best configuration is the one with the best score', judge(bc, ite(is_better, sym('this configuration'), obest))),
                      ('best model', 'the model kept is the one with the best score', judge(bn, ite(is_better, sym('this model'), sym('best_model_name_'))))])
    good = next((t for t in tries if all(x[2].v == 'ok' for x in t)), tries[0])      # of equal scores either may be kept
    for inst, rule, v in good: settle(R, inst, loc, rule, v)
    for fld, want in (('evaluation_metric', m), ('minimize_metric', mn)):
        settle(R, 'recorded ' + fld, loc, 'an evaluated configuration carries its score', judge(I.freeze(I.getf(c, fld, st), st), want))
    order = [x for x in st.eff if x[1] in ('buildModel', 'trainModel', 'evaluateModel')]
    kinds = [x[1] for x in order]
    if kinds != ['buildModel', 'trainModel', 'evaluateModel']:
        if set(kinds) == {'buildModel', 'trainModel', 'evaluateModel'} and len(kinds) == 3: R.viol('evaluation order', loc, 'a model is built, trained, then scored', ' then '.join(kinds), 'order')
        else: R.undecided('evaluation order', str(kinds))
    else:
        if any(x[0] is not TRUE for x in order): R.undecided('evaluation order', 'conditional')
        else: R.ok('evaluation order')
        if c not in order[0][2]: R.undecided('evaluation', 'model built of something else')
        else: R.ok('model of the configuration')

def saved(F, R):
    """what is trained is saved, into the place the best model is read from"""
    f = find(F, CE, 'trainModel')
    if got(R, f, 'training'):
        loc = F.loc(f); H = dict(BASE); mdl = sym('model')
        for n in ('train', 'saveWithOverwrite', 'save', 'saveWithoutOverwrite', 'setSilentMode'): H[n] = note(n)
        H[N + 'BinaryDataSet'] = lambda I, e, a, st, this: fn('dataset', *[I.freeze(x, st) for x in a])
        I, st = interp(F, H); o = obj(F, I, st, CE)
        cfg = obj(F, I, st, HP, 'c.')
        r = I.freeze(I.call(f, o, [mdl, cfg] + [sym(p['n']) for p in f['params'][2:]], st), st)
        if unknown(I): R.undecided('training', str(unknown(I)))
        else:
            tr = [i for i, x in enumerate(st.eff) if x[1] == 'train']; sv = [i for i, x in enumerate(st.eff) if x[1].startswith('save')]
            if not tr: R.viol('training', loc, 'a configuration is trained before it is scored', 'nothing is trained', 'train')
            elif not sv: R.viol('saving', loc, 'the model of an evaluated configuration is saved', 'it is not saved', 'save')
            elif sv[-1] < tr[-1]: R.viol('saving', loc, 'what was trained is what is saved', 'saved before it is trained', 'order')
            elif any(st.eff[i][0] is not TRUE for i in (tr[-1], sv[-1])) or len(tr) != 1: R.undecided('saving', 'conditional: %s' % show(st.eff[sv[-1]][0])[:80])
            else:
                R.ok('trained then saved')
                bs = [x for x in st.eff[tr[0]][2] if isinstance(x, T) and x.op == 'sym' and x.a[0].startswith('c.')]
                if bs: (R.ok if bs[0] is sym('c.batch_size') else lambda i: R.viol(i, loc, 'a configuration is trained with its own batch size', show(bs[0]), 'batch'))('batch size')
                w = [x for x in r.a[1:] if isinstance(x, T)] if isfn(r, 'train') else None
                if w is None: R.undecided('training result', show(r)[:80])
                else: R.ok('training result')
    b, g = find(F, CE, 'buildModel'), find(F, CE, 'getBestModel')
    if got(R, b, 'build') and got(R, g, 'best model'):
        H = dict(BASE); H['loadNeuralNetworkForTraining'] = note('load')
        I, st = interp(F, H); o = obj(F, I, st, CE); r = I.freeze(I.call(g, o, [], st), st)
        repos = {n['n'] for x in walk_calls(b, 'setModelRepo') for n in FX.walk(x['a'][0]) if n.get('k') == 'mem'}
        lds = [x for x in st.eff if x[1] == 'load']
        if not isfn(r, 'load') or len(lds) != 1 or len(repos) != 1: R.undecided('best model', '%s from %s' % (show(r)[:80], repos))
        else:
            settle(R, 'best model name', F.loc(g), 'the model reported is the best one', judge(r.a[1], sym('best_model_name_')))
            settle(R, 'best model place', F.loc(g), 'the best model is read from where the models are saved', judge(r.a[2], sym(repos.pop())))
        names = [x for x in walk_calls(b, 'setModelName')]
        if len(names) == 1: R.ok('models are named once')
        # each setting of the configuration goes to the setter of its own
        for setter, fld in (('setLearningRate', 'learning_rate'), ('setBiasLearningRate', 'bias_learning_rate'), ('setLossFunction', 'loss_type_')):
            cs = walk_calls(b, setter)
            ms = {n['n'] for c in cs for a in c['a'] for n in FX.walk(a) if n.get('k') == 'mem'}
            if len(cs) != 1 or len(ms) != 1: R.undecided(setter, str(ms)); continue
            x = ms.pop()
            if x == fld: R.ok(setter)
            else: R.viol(setter, F.loc(b, cs[0].get('ln')), "a model is built with its configuration's settings", 'from ' + x, setter)
def walk_calls(f, n):
    r = [x for x in FX.walk(f['body']) if x.get('k') in ('mcall', 'call') and (x.get('mn') or (x.get('n') or '').split('::')[-1]) == n]
    return r

def direction(F, R):
    """scores that are accuracies are maximised, scores that are losses are minimised"""
    f = find(F, CE, 'evaluateModel')
    ctor = [x for x in F.ctors(CE) if x.get('body') or x.get('inits')]
    if not got(R, f, 'score'): return
    if not ctor: R.undecided('direction', 'no constructor'); return
    R.analysed(ctor[0])
    en = F.enums.get(N + 'LossType') or {}
    vals = [(x['n'], x['v']) for x in (en.get('vals') or [])]
    R.floor('loss types', len(vals), 3)
    for nm, v in vals:
        H = dict(BASE)
        for n in ACC: H[n] = note(n)
        H['build_expected_decoders'] = note('decoders')
        H['now'] = note('now'); H['duration_cast'] = note('duration')
        I, st = interp(F, H); o = obj(F, I, st, CE, loss_type_=num(v))
        tr = sym('result')
        s = I.freeze(I.call(f, o, [sym('model'), tr], st), st)
        acc = any(isfn(x, *ACC) for x in walk(s)); loss = not acc and contains_term(s, tr)
        I2, st2 = interp(F, H)
        try: o2 = I2.construct(CE, [num(v) if 'LossType' in p['t'] else sym(p['n']) for p in ctor[0]['params']], st2)
        except Exception as ex: R.undecided('direction ' + nm, str(ex)[:80]); continue
        mn = I2.freeze(I2.getf(o2, 'minimize_metric_', st2), st2)
        if acc == loss: R.undecided('score ' + nm, show(s)[:80]); continue
        want = FALSE if acc else TRUE
        if mn is want: R.ok('direction ' + nm)
        elif mn in (TRUE, FALSE): R.viol('direction ' + nm, F.loc(ctor[0]), 'accuracies are maximised and losses minimised', '%s is %s' % ('an accuracy' if acc else 'a loss', 'minimised' if mn is TRUE else 'maximised'), nm)
        else: R.undecided('direction ' + nm, show(mn)[:80])

def drawn(F, R):
    """every setting is drawn from the list of the same name, at a place that exists"""
    f = find(F, RS, 'internal_random_config')
    if got(R, f, 'draw'):
        loc = F.loc(f); I, st = interp(F); o = obj(F, I, st, RS); s = obj(F, I, st, SP, 'space.'); I.setf(o, 'hyperparameterSpace', s, st)
        r = I.call(f, o, [sym(p['n']) for p in f['params']], st)
        spaces = {x['n'] for x in F.rec[SP]['fields']}
        R.floor('ranges', len(spaces), 5)
        for x in F.rec[HP]['fields']:
            n = x['n']
            if n + '_space' not in spaces: continue
            v = I.freeze(I.getf(r, n, st), st); inst = 'draw ' + n
            if v.op == 'fn' and v.a[0].startswith('uninit'): R.viol(inst, loc, 'every setting is drawn', 'not drawn', n); continue
            if not isfn(v, 'at') or not isinstance(v.a[1], T): R.undecided(inst, show(v)[:100]); continue
            src, ix = v.a[1], v.a[2]
            if src is not sym('space.%s_space' % n):
                if src.op == 'sym' and src.a[0].startswith('space.'): R.viol(inst, loc, 'a setting is drawn from its own range', 'drawn from ' + src.a[0][6:], n)
                else: R.undecided(inst, show(src)[:80])
                continue
            top = bound(I, ix); size = fn('size', src)
            if top is None: R.undecided(inst, 'place ' + show(ix)[:100]); continue
            R.count('draws')
            settle(R, inst, loc, 'the place drawn exists in the range', judge(lt(top, I.size(src), True), TRUE, lt(ZERO, I.size(src), True), nonneg=(I.size(src),)))
    f = find(F, RS, 'generateRandomConfiguration')
    if got(R, f, 'configuration'):
        H = dict(BASE); H['internal_random_config'] = lambda I, e, a, st, this: fn('drawn')
        I, st = interp(F, H); o = obj(F, I, st, RS)
        r = I.freeze(I.call(f, o, [sym(p['n']) for p in f['params']], st), st)
        leaf = [x for x in leaves(r)]
        if all(x is fn('drawn') for x in leaf): R.ok('configuration is drawn')
        elif any(x.op == 'null' for x in leaf): R.viol('configuration is drawn', F.loc(f), 'only drawn configurations are evaluated', show(r)[:100], 'drawn')
        else: R.undecided('configuration is drawn', show(r)[:100])
    f = find(F, HB, 'generateInitialConfigurations')
    if got(R, f, 'first configurations'):
        H = dict(BASE); H['generateRandomConfiguration'] = lambda I, e, a, st, this: fn('drawn')
        I, st = interp(F, H); o = obj(F, I, st, HB); num_ = sym('num')
        r = I.freeze(I.call(f, o, [num_] + [sym(p['n']) for p in f['params'][1:]], st), st)
        i = sym('place'); loc = F.loc(f)
        if unknown(I): R.undecided('first configurations', str(unknown(I)))
        else:
            settle(R, 'how many configurations', loc, 'as many configurations as asked for are drawn', judge(I.size(r), num_, le(ZERO, num_, True)))
            settle(R, 'each configuration', loc, 'every configuration is drawn', judge(I.at(r, i), fn('drawn'), band(le(ZERO, i, True), lt(i, num_, True))))
def leaves(t):
    if t.op == 'ite':
        for x in t.a[1:]: yield from leaves(x)
    elif t.op == 'fold' and t.a[0].op == 'str':
        init, phi, cond, stop, nxt = whilefold(t)
        for x in (init[0], nxt[0]):
            for y in leaves(x):
                if y not in phi: yield y
    else: yield t
def bound(I, ix):
    """the largest value of a drawn place, from the distribution it is drawn from"""
    if not isfn(ix, 'call'): return None
    d = ix.a[1]
    if isfn(d, 'new:std::discrete_distribution') and len(d.a) >= 3 and isfn(d.a[1], 'iter') and isfn(d.a[2], 'iter') and I.size(d.a[1].a[1]) is I.size(d.a[2].a[1]):
        return sub(sub(d.a[2].a[2], d.a[1].a[2]), ONE)
    if isfn(d, 'new:std::uniform_int_distribution') and len(d.a) >= 3: return d.a[2]
    return None

def cuthooks(comps):
    H = dict(BASE)
    def order(kind):
        def h(I, e, a, st, this):
            a = a if len(a) == 4 or kind != 'sort' else [a[0], a[1], a[1]] + list(a[2:])
            comps.append((kind, a, e)); I.emit(st, 'order', [I.freeze(x, st) for x in a[:3]], e)
            I.assign(target(e), fn('ordered', a[0].a[1] if isfn(a[0], 'iter') else a[0]), st, this) if target(e) else None
            return NONE
        return h
    def target(e):
        for x in FX.walk(e['a'][0]):
            if x.get('k') == 'mcall' and x.get('mn') in ('begin', 'cbegin'): return strip(x['b'])
        return None
    for k in ('partial_sort', 'sort', 'stable_sort', 'nth_element'): H[k] = order('sort' if k in ('sort', 'stable_sort') else k)
    def erase(I, e, a, st, this):
        I.emit(st, 'cut', [I.freeze(x, st) for x in a[1:]], e)
        if len(a) == 3 and isfn(a[1], 'iter') and isfn(a[2], 'iter'): I.assign(strip(e['b']), fn('taken', a[0], a[1].a[2]), st, this)
        return NONE
    def resize(I, e, a, st, this):
        I.emit(st, 'resized', a[:2], e); I.assign(strip(e['b']), fn('taken', a[0], a[1]), st, this); return NONE
    H['std.erase'] = erase; H['std.resize'] = resize
    return H
def cutting(F, R):
    """a round cuts the configurations to the better ones, and never to none"""
    f = find(F, HB, 'eliminateConfigurations')
    if not got(R, f, 'elimination'): return
    loc = F.loc(f); comps = []; H = cuthooks(comps)
    I, st = interp(F, H); o = obj(F, I, st, HB); cs, nm, rf = sym('configurations'), sym('num'), sym('reduction_factor')
    ps = [cs if 'vector' in p['t'] else nm for p in f['params']]
    I.call(f, o, ps, st)
    if unknown(I): R.undecided('elimination', str(unknown(I))); return
    if len(comps) != 1 or comps[0][1][3:] == []: R.undecided('elimination', '%d orderings' % len(comps)); return
    kind, a, e = comps[0]
    x, y = obj(F, I, st, HP, 'x.'), obj(F, I, st, HP, 'y.')
    mn = sym('minimize'); I.setf(x, 'minimize_metric', mn, st); I.setf(y, 'minimize_metric', mn, st)
    r = I.freeze(I.call_value(a[3], [x, y], st, None, None), st)
    comes = judge(r, better(mn, sym('x.evaluation_metric'), sym('y.evaluation_metric')))
    if comes.v == 'und':
        c2 = judge(r, bor(band(mn, le(sym('x.evaluation_metric'), sym('y.evaluation_metric'), False)), band(bnot(mn), le(sym('y.evaluation_metric'), sym('x.evaluation_metric'), False))))
        if c2.v == 'ok': comes = c2
    cuts = [q for q in st.eff if q[1] == 'cut']
    if not cuts: R.undecided('elimination', 'nothing is cut'); return
    first, last = cuts[0][2][:2] if len(cuts[0][2]) >= 2 else (None, None)
    if not isfn(first, 'iter') or not isfn(last, 'iter'): R.undecided('elimination', 'cut %s' % [show(q)[:60] for q in cuts[0][2]]); return
    size = I.size(cs); pre = band(lt(ONE, nm, True), lt(ONE, rf, True), eq(size, nm, 'i'))
    lo = subst(first.a[2], {size: nm}); hi = subst(last.a[2], {size: nm, fn('size', fn('ordered', cs)): nm})
    settle(R, 'elimination order', loc, 'the configurations kept are the better ones', comes)
    settle(R, 'elimination range', loc, 'the configurations behind the kept ones are dropped', judge(hi, nm, pre))
    settle(R, 'kept', loc, 'elimination leaves at least one configuration', judge(lt(ZERO, lo, True), TRUE, pre))
    mid = subst(a[1].a[2], {size: nm}) if isfn(a[1], 'iter') else None
    if kind == 'sort': mid = nm
    if mid is None: R.undecided('ordered part', show(a[1])[:80])
    else: settle(R, 'ordered part', loc, 'the kept configurations are among the ordered ones', judge(le(lo, mid, True), TRUE, pre))
    return cuts, lo

def rounds(F, R):
    f = find(F, HB, 'run')
    if not got(R, f, 'search'): return
    loc = F.loc(f); H = cuthooks([])
    for n in ('getBestModel', 'remove_temp_folder', 'evaluateConfiguration', 'getBestEvaluationMetric', 'getMinimizeMetric', 'getNumConfigurations'): H[n] = note(n)
    H['generateInitialConfigurations'] = lambda I, e, a, st, this: fn('initial', *[I.freeze(x, st) for x in a])
    def each(I, e, a, st, this):
        it = [x for x in a if isfn(x, 'iter')]; fns = [x for x in a if x not in it]
        if len(it) != 2: return NotImplemented
        I.emit(st, 'each', it, e)
        I.call_value(a[-1], [fn('configuration', it[0].a[1])], st, None, None); return NONE
    H['for_each'] = each
    I, st = interp(F, H); o = obj(F, I, st, HB)
    r = I.freeze(I.call(f, o, [sym(p['n']) for p in f['params']], st), st)
    if unknown(I): R.undecided('search', str(unknown(I))); return
    eff = st.eff; at = lambda k: [i for i, x in enumerate(eff) if x[1] == k]
    best = at('getBestModel'); rm = at('remove_temp_folder')
    if not best: R.viol('result', loc, 'the search reports the best model', 'it is never read back', 'best')
    elif any(i < best[0] and eff[i][0] is TRUE for i in rm): R.viol('result', loc, 'the best model is read back before its folder is removed', 'folder removed first', 'removed')
    else: R.ok('best model read before its folder goes')
    rl = [x for x in leaves(r)]
    if any(isfn(x, 'getBestModel') for x in rl): R.ok('best model returned')
    elif all(x.op == 'null' for x in rl): R.viol('result', loc, 'the search reports the best model', 'returns ' + show(r)[:60], 'returned')
    else: R.undecided('result', show(r)[:100])
    ev, el, ea = at('evaluateConfiguration'), at('cut'), at('each')
    if len(ev) != 1: R.undecided('round', '%d evaluations' % len(ev)); return
    if el and el[0] < ev[0]: R.viol('round', loc, 'configurations are scored before they are eliminated', 'eliminated first', 'order')
    elif el: R.ok('scored before eliminated')
    else: R.undecided('round', 'no elimination')
    for x in [x for x in eff if x[1] == 'resized']:
        if isfn(x[2][0], 'taken'): settle(R, 'resized', loc, 'what elimination keeps is what the next round scores', judge(x[2][1], x[2][0].a[2]))
        else: R.undecided('resized', show(x[2][0])[:60])
    if ea:
        b, e_ = eff[ea[0]][2]
        settle(R, 'round covers', loc, 'every configuration of a round is scored', judge(b.a[2], ZERO), ) if b.a[2] is not ZERO else R.ok('round from the first')
        settle(R, 'round covers', loc, 'every configuration of a round is scored', judge(e_.a[2], I.size(e_.a[1])))
    cfg = [x for x in eff[ev[0]][2] if isfn(x, 'configuration')]
    if cfg: R.ok('its own configuration')
    else: R.undecided('round', 'scored: ' + str([show(x)[:40] for x in eff[ev[0]][2] if isinstance(x, T)]))
def run(F, R):
    R.rule = ('The effect of one evaluation on the best configuration, the ordering and the cut of a round, the draw of every setting and the order of '
              'steps of the search are computed symbolically from the source and compared with keeping the best')
    R.notes += ['scores are numbers (not NaN)', 'reduction factor at least 2', 'the models of two configurations have names of their own']
    for g in (transition, saved, direction, drawn, cutting, rounds): g(F, R)
