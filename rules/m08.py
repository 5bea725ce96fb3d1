"""M08: forward, backward and parameter updates reach every layer of the network graph exactly once with the right tensors."""
from graphs import *
def run(F, R):
    R.rule = ('For representative graph shapes (chain, fan out/in, skips, nested, several inputs and outputs) the node procedures are interpreted over symbolic layers: every layer must be run '
              'forward once with the outputs of its predecessors in connection order, backward once with the mean of the errors of its successors, and applied once; nothing may be left behind for the next sample.')
    R.notes += ['layers are opaque here (decided by M02)', 'materializeTensor is the identity here (decided by T04)', 'graph shapes: ' + ', '.join(SHAPES)]
    fs = {m: F.method(NODE, m) for m in ('doForward', 'forwardFromConnection', 'backward', 'apply', 'markUnsaved', 'saveKnowledge', 'loadKnowledge', 'get_parameter_count', 'get_trainable_count', 'clip')}
    if not fs['backward'] or not fs['apply']: raise FX.AnalysisError('NeuralNetworkNode procedures not found')
    R.analysed(*fs.values())
    fw, bw, ap = (F.loc(fs.get('doForward') or fs['backward']), F.loc(fs['backward']), F.loc(fs['apply']))
    for name in SHAPES:
        g = Net(F, name)
        for rnd, train in ((1, TRUE), (2, TRUE), (3, FALSE)):
            tag = '%s, pass %d' % (name, rnd)
            g.log.clear()
            ins = [fn('t!input', lname(x)) for x in g.heads]
            res = g.call(g.net, 'predict', T('list', tuple(ins)), train)
            took = g.took('forward')
            for x in g.nodes:
                mine = [a for y, a, _ in took if y == x]
                settle(R, '%s: %s forward once' % (tag, x), fw, 'every layer must run forward exactly once per sample', judge(num(len(mine)), ONE))
                if len(mine) != 1: continue
                want = [fn('t!input', lname(x))] if x in g.heads else [fwd(y) for y in g.pred[x]]
                settle(R, '%s: %s forward input' % (tag, x), fw, 'a layer must receive the outputs of its predecessors in connection order', judge(boolean(mine[0][0] is T('list', tuple(want))), TRUE))
                settle(R, '%s: %s forward mode' % (tag, x), fw, 'the training flag must reach the layer unchanged', judge(mine[0][1], train))
            settle(R, '%s: result' % tag, fw, 'predict must return the output of every output node in order', judge(boolean(res is T('list', tuple(fwd(x) for x in g.outs))), TRUE))
            left = [k for o, (c_, d) in g.st.heap.items() for k, v in d.items() if k == 'next_input' and v.op != 'null']
            settle(R, '%s: inputs consumed' % tag, fw, 'inputs of one sample must not be left on the connections', judge(num(len(left)), ZERO))
            if train is not TRUE: continue
            g.log.clear()
            for x in g.outs: g.call(x, 'backward', fn('t!loss', lname(x)))
            took = g.took('backward'); asm = g.same_shapes()
            for x in g.nodes:
                mine = [(a, st) for y, a, st in took if y == x]
                settle(R, '%s: %s backward once' % (tag, x), bw, 'every layer must run backward exactly once per sample', judge(num(len(mine)), ONE))
                if len(mine) != 1: continue
                e, st = mine[0][0][0], mine[0][1]
                got = g.I.freeze(g.I.method(e, 'getValue', [r, c, h], st), st) if e.op in ('ref', 'ite') else V(e)
                settle(R, '%s: %s backward error' % (tag, x), bw, 'a layer must receive the mean of the errors of its successors', judge(got, g.expected_error(x), asm))
            left = [k for o, (c_, d) in g.st.heap.items() for k, v in d.items() if k == 'prior_error' and v.op != 'null']
            settle(R, '%s: errors consumed' % tag, bw, 'errors of one sample must not be left on the connections', judge(num(len(left)), ZERO))
            g.log.clear()
            opt = sym('optimizer'); vis = None
            f = fs['apply']
            if len(f['params']) == 2:   # the set of visited nodes is shared between output nodes, as train does
                vis = T('list', ())
                for x in g.outs:
                    q = g.I.inline(g.F.method(OUT, 'apply') or f, g.n[x], [opt, vis], g.st, None, ['', 'v'])
                    if isinstance(q, tuple):
                        for nn, v in q[1]:
                            if nn == 'v': vis = v
            else:
                for x in g.outs: g.call(x, 'apply', opt)
            took = g.took('apply')
            for x in g.nodes:
                mine = [a for y, a, _ in took if y == x]
                settle(R, '%s: %s apply once' % (tag, x), ap, 'every layer must be applied exactly once per batch', judge(num(len(mine)), ONE))
                if mine: settle(R, '%s: %s apply optimizer' % (tag, x), ap, 'the optimizer must reach the layer', judge(boolean(mine[0][0] is opt), TRUE))
        counts(F, R, g, name, fs)
        knowledge(F, R, name, fs)
        R.funcs |= {F.fns[i]['n'] for i in g.I.inlined}
        if g.I.unk: R.undecided(name + ': constructs', str(g.I.unk[:2]))
    clip(F, R, fs)
    R.floor('graph shapes', len(SHAPES), 5)
def counts(F, R, g, name, fs):
    for m, want in (('get_parameter_count', add(*[fn('m:get_parameter_count', lname(x)) for x in g.nodes])), ('get_trainable_count', num(len([x for x in g.nodes if x in 'BCEG'])))):
        f = fs.get(m)
        if not f: continue
        vis = T('list', ()); tot = ZERO
        for x in g.heads:
            q = g.I.inline(f, g.n[x], [vis], g.st, None, ['v'])
            if not isinstance(q, tuple): tot = q; break
            tot = add(tot, q[0])
            for nn, v in q[1]: vis = v
        v = judge(tot, want)
        if v.v == 'und' and 'm:get' in v.detail: v.v = 'bad'
        settle(R, '%s: %s' % (name, m), F.loc(f), 'every layer must be counted exactly once', v)
def knowledge(F, R, name, fs):
    P = sym('path')
    for start in ('trained', 'loaded'):
        g = Net(F, name)
        for x in g.nodes: g.I.setf(g.n[x], 'saved', boolean(start == 'loaded'), g.st)
        for m in ('saveKnowledge', 'loadKnowledge', 'saveKnowledge'):
            if not fs.get(m): continue
            g.log.clear()
            for x in g.heads:
                g.call(x, 'markUnsaved'); g.call(x, m, P)
            took = g.took(m); lost = [x for x in g.nodes if not any(y == x for y, a, _ in took)]
            settle(R, '%s (%s): %s reaches every layer' % (name, start, m), F.loc(fs[m]), 'knowledge of a layer is left out: %s' % ', '.join(lost), judge(num(len(lost)), ZERO))
            bad = [x for x, a, _ in took if a[0] is not P]
            settle(R, '%s (%s): %s path' % (name, start, m), F.loc(fs[m]), 'the path must reach the layer unchanged', judge(num(len(bad)), ZERO))
def clip(F, R, fs):
    """norm clipping: each error a layer hands back is scaled by its own length, and only by layers that clip"""
    if not fs.get('clip'): return
    th = sym('threshold')
    norm = lambda p: fn('t!norm', p)
    for name in SHAPES:
        nodes = Net(F, name).nodes
        for who, on in (('all layers', set(nodes)), ('every other layer', set(nodes[1::2]))):
            g = Net(F, name, extra={'euclidean_norm': lambda I, e, a, st, this: norm(I.freeze(a[0], st))})
            for x in g.nodes: g.call(x, 'set_use_norm_clipping', boolean(x in on)); g.call(x, 'set_norm_clipping_threshold', th)
            for x in g.outs: g.call(x, 'backward', fn('t!loss', lname(x)))
            asm = band(g.same_shapes(), lt(ZERO, th, False), *[lt(ZERO, norm(bwd(x, i)), False) for x in g.nodes for i in range(max(1, len(g.pred[x])))])
            def part(y, x):
                p = bwd(y, g.pred[y].index(x)); v = V(p)
                return ite(lt(th, norm(p), False), mul(v, div(th, norm(p))), v) if y in on else v
            for x, a, st in g.took('backward'):
                if x in g.outs: continue
                parts = [part(y, x) for y in g.succ[x]]
                got = g.I.freeze(g.I.method(a[0], 'getValue', [r, c, h], st), st) if a[0].op in ('ref', 'ite') else V(a[0])
                settle(R, 'clipping in %s, %s: error of %s' % (name, who, x), F.loc(fs['clip']), 'an error longer than the threshold must be scaled to it, any other handed on unchanged',
                       judge(got, div(add(*parts), num(len(parts))), asm))
