"""The training and testing loops over scripted datasets and epochs with symbolic losses (used by M07)."""
from graphs import *
OPT = sym('optimizer')
def rec(ds, i): return fn('t!record', string(ds), num(i))
def truthof(ds, i, j): return fn('t!truth', rec(ds, i), num(j))
def predof(ds, i, j, ver): return fn('t!prediction', rec(ds, i), num(j), num(ver))
def err(ds, i, j, ver): return fn('t!error', truthof(ds, i, j), predof(ds, i, j, ver))
def loss(ds, i, j, ver): return fn('loss', err(ds, i, j, ver))
class Loop(object):
    """NeuralNetworkForTraining whose nodes, loss, optimizer, datasets and exit strategy are stand-ins that leave a trace of guarded effects"""
    def __init__(s, F, records, tests, outputs, epochs, nan=FALSE):
        s.F = F; s.k = outputs
        def note(name, keep=lambda a: a[1:], ret=UNDEF):
            def f(I, e, a, st, this):
                st.eff = st.eff + ((TRUE, 'ev:' + name, tuple(I.freeze(x, st) if x.op == 'ref' and st.heap[x.a[0]][0] != 'DS' else x for x in keep(a)), e.get('ln')),)
                return ret(a) if callable(ret) else ret
            return f
        def ds(I, a, st): return I.getf(a[0], 'name', st).a[0], int(I.getf(a[0], 'n', st).a[0])
        isds = lambda a, st: a and a[0].op == 'ref' and st.heap.get(a[0].a[0], ('',))[0] == 'DS'
        def cnt(I, e, a, st, this): return I.getf(a[0], 'n', st) if isds(a, st) else NotImplemented
        def nxt(I, e, a, st, this):
            if not isds(a, st): return NotImplemented
            nm, n = ds(I, a, st); p = I.getf(a[0], 'pos', st)
            if p.op != 'num': return fn('record?', p)
            p = int(p.a[0])
            if p >= n: return T('null')
            I.setf(a[0], 'pos', num(p + 1), st)
            return rec(nm, p)
        def rst(I, e, a, st, this):
            if not isds(a, st): return NotImplemented
            I.setf(a[0], 'pos', ZERO, st)
            st.eff = st.eff + ((TRUE, 'ev:restart', (I.getf(a[0], 'name', st),), e.get('ln')),)
            return UNDEF
        def shp(I, e, a, st, this): return T('list', tuple(T('list', (ONE, ONE, ONE)) for _ in range(outputs)))
        def given(I, e, a, st, this): return T('list', (fn('t!given', a[0]),))
        def truth(I, e, a, st, this): return T('list', tuple(fn('t!truth', a[0], num(j)) for j in range(outputs)))
        def pred(I, e, a, st, this):
            x = a[1]
            flag = a[2] if len(a) > 2 else FALSE
            g = x.a[0] if x.op == 'list' and x.a else x
            rc = g.a[1] if g.op == 'fn' and g.a[0] == 't!given' else g
            st.eff = st.eff + ((TRUE, 'ev:predict', (rc, flag), e.get('ln')),)
            v = I.getf(s.ver, 'v', st)   # parameter updates so far
            return T('list', tuple(fn('t!prediction', rc, num(j), v) for j in range(outputs)))
        out = lambda a: a and a[0].op == 'sym' and a[0].a[0].startswith('out:')
        def node(m):
            def f(I, e, a, st, this):
                if not out(a): return NotImplemented
                st.eff = st.eff + ((TRUE, 'ev:' + m, (a[0], a[1]), e.get('ln')),)
                if m == 'apply': I.setf(s.ver, 'v', add(I.getf(s.ver, 'v', st), ONE), st)
                return UNDEF
            return f
        def done(I, e, a, st, this):
            st.eff = st.eff + ((TRUE, 'ev:isDone', tuple(a[1:]), e.get('ln')),)
            return boolean(a[1].a[0] >= epochs) if a[1].op == 'num' else fn('done?', a[1])
        s.timers = 0
        def mkt(I, e, a, st, this): s.timers += 1; return sym('timer%d' % s.timers)
        H = {'happyml::ElapsedTimer': mkt, 'isnan': lambda I, e, a, st, this: nan, 'materializeTensor': lambda I, e, a, st, this: a[0], 'happyml::FullTensor': lambda I, e, a, st, this: a[0], 'recordCount': cnt, 'nextRecord': nxt, 'restart': rst,
             'getExpectedShapes': shp, 'getGivenShapes': shp, 'getGiven': given, 'getExpected': truth, 'predict': pred, 'backward': node('backward'), 'apply': node('apply'),
             'compute_error': lambda I, e, a, st, this: fn('t!error', *a[1:3]), 'compute_loss': lambda I, e, a, st, this: fn('loss', a[1]),
             'compute_loss_derivative': lambda I, e, a, st, this: fn('t!derivative', *a[1:]),
             'update_time_step': note('step', lambda a: []), 'getLearningRate': lambda I, e, a, st, this: fn('rate'),
             'saveKnowledge': note('save'), 'loadKnowledge': note('load'), 'removeKnowledge': note('remove', lambda a: a if len(a) < 3 and a and a[0].op != 'ref' else a[1:]),
             'isDone': done, 'happyml::Shuffler': lambda I, e, a, st, this: sym('shuffler'), 'shuffle': note('shuffle', lambda a: []), 'setShuffler': note('setShuffler', lambda a: []),
             'peekMilliseconds': lambda I, e, a, st, this: fn('elapsed', s.timer(I, a, st)), 'getMilliseconds': lambda I, e, a, st, this: fn('elapsed', s.timer(I, a, st)),
             'print_model_facts': lambda I, e, a, st, this: UNDEF, 'logTraining': lambda I, e, a, st, this: UNDEF, 'logTesting': lambda I, e, a, st, this: UNDEF}
        s.I = Interp(F, hooks=H, budget=4000000); s.st = St()
        s.net = s.I.new_obj(TRAIN, s.st)
        for f, v in (('silentMode', TRUE), ('optimizer', OPT), ('lossFunction', sym('lossfn')), ('exitStrategy', sym('exit')), ('name', string('model')), ('repoRootPath', string('/repo')),
                     ('headNodes', T('list', ())), ('outputNodes', T('list', tuple(sym('out:%d' % j) for j in range(outputs))))): s.I.setf(s.net, f, v, s.st)
        s.ver = s.I.new_obj('VERSION', s.st); s.I.setf(s.ver, 'v', ZERO, s.st)
        s.train_ds, s.test_ds = s.dataset('train', records), s.dataset('test', tests)
    def timer(s, I, a, st):
        return a[0] if a[0].op == 'sym' else sym('timer')
    def dataset(s, name, n):
        o = s.I.new_obj('DS', s.st)
        for f, v in (('name', string(name)), ('n', num(n)), ('pos', ZERO)): s.I.setf(o, f, v, s.st)
        return o
    def events(s):
        return [(g, n[3:], a, ln) for g, n, a, ln in s.st.eff if n.startswith('ev:')]
