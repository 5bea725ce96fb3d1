"""Comparison of a code value graph with a specification term: holds / differs / undecided."""
from alg import *
import alg

GOOD = {'val', 'rows', 'cols', 'chans', 'size', 'at', 'exp', 'log', 'log2', 'log10', 'sqrt', 'tanh', 'abs', 'round', 'floor', 'ceil', 'trunc', 'max', 'min',
        'imax', 'imin', 'pow', 'fmod', 'sin', 'cos', 'bit&', 'bit|', 'bit^', 'bit<<', 'bit>>', 'bitnot', 'isnan', 'isinf', 'isfinite', 'to_string', 'concat', 'chr', 'pair',
        'ceildiv', 'narrow8u', 'narrow8s', 'narrow16u', 'narrow16s', 'narrow32u', 'narrow32s', 'tou8', 'substr', 'find', 'argmaxfirst', 'argmaxlast', 'argminfirst', 'argminlast', 'enc', 'dec', 'loss', 'itof', 'portable', 'in'}
GOODOPS = {'num', 'str', 'bool', 'sym', 'bv', 'add', 'mul', 'div', 'idiv', 'mod', 'ilt', 'flt', 'ieq', 'feq', 'teq', 'not', 'and', 'or', 'ite', 'fn', 'sum', 'prod', 'any', 'all',
           'maxf', 'minf', 'null', 'filln', 'first', 'last', 'list', 'map', 'anyi', 'none', 'obj', 'ref'}
def opaque(t):
    """constructs of t outside the interpreted vocabulary"""
    out = set()
    for x in walk(t):
        if x.op == 'fn':
            if x.a[0] not in GOOD and x.a[0][:2] != 't!': out.add(x.a[0])
        elif x.op == 'sym':
            if x.a[0][:2] in ('v:',): out.add(x.a[0])
        elif x.op not in GOODOPS: out.add(x.op)
    return out

class Verdict(object):
    def __init__(s, v, detail='', sig=None): s.v, s.detail, s.sig = v, detail, sig
    ok = property(lambda s: s.v == 'ok')

def judge(code, spec, assume=TRUE, nonneg=(), nrm=None):
    if alg.alike(code, spec): return Verdict('ok')
    nrm = nrm or Norm(nonneg=set(nonneg))
    try:
        mm = compare(nrm, code, spec, assume)
    except alg.TooBig:
        return Verdict('und', 'value graph too large to normalise')
    except RecursionError:
        return Verdict('und', 'value graph too deep')
    if not mm: return Verdict('ok')
    oc, os_ = opaque(code), opaque(spec)
    extra = {x for x in oc if x not in os_}
    if extra: return Verdict('und', 'constructs outside the interpreted vocabulary: ' + ', '.join(sorted(map(str, extra))[:5]))
    return Verdict('bad', 'computes %s but the definition gives %s; e.g. %s' % (show(code)[:220], show(spec)[:220], str(mm[0])[:260]), sig=show(code))

def settle(R, inst, loc, rule, v):
    if v.v == 'ok': R.ok(inst)
    elif v.v == 'und': R.undecided(inst, v.detail)
    else: R.viol(inst, loc, rule, v.detail, v.sig)
