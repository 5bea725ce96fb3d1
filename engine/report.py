"""Obligation bookkeeping, known findings, evidence and exit status of one check."""
import json, os, sys, time, hashlib
import facts as FX
from alg import show

class Report(object):
    def __init__(s, pid, F, tier):
        s.pid, s.F, s.tier = pid, F, tier
        s.t0 = time.time()
        s.ok_, s.und_, s.viol_ = [], [], []
        s.funcs = set(); s.notes = []; s.rule = ''; s.samples = []; s.counts = {}
    # an instance is a short stable name of the construct judged (class/function + clause)
    def ok(s, inst, detail=''): s.ok_.append((inst, detail))
    def undecided(s, inst, why): s.und_.append((inst, why))
    def viol(s, inst, loc, rule, detail, sig=None):
        """sig: canonical description of the offending value/construct, part of the identity of a finding"""
        key = inst if sig is None else inst + ' #' + hashlib.sha256(str(sig).encode()).hexdigest()[:12]
        s.viol_.append((key, inst, loc, rule, detail))
    def analysed(s, *fns):
        for f in fns:
            if f is None: continue
            s.funcs.add(f['n'] if isinstance(f, dict) else str(f))
    def count(s, k, n=1): s.counts[k] = s.counts.get(k, 0) + n
    def floor(s, what, n, least):
        if n < least: raise FX.AnalysisError('analysis broken: only %d %s found (expected at least %d)' % (n, what, least))
        s.counts[what] = n
    def finish(s):
        V = FX.VERIF
        known = {}
        kf = os.path.join(V, 'known_findings.json')
        if os.path.exists(kf):
            for k in json.load(open(kf)).get('known', []):
                if k['property'] == s.pid: known[k['key']] = k
        new = []
        seen = set()
        for key, inst, loc, rule, detail in s.viol_:
            if key in seen: continue
            seen.add(key)
            if key in known: print('KNOWN-FINDING: property=%s %s (%s)' % (s.pid, known[key]['what'], loc))
            else: new.append((key, inst, loc, rule, detail))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        n = len(s.ok_) + len(s.und_) + len(seen)
        ev = {'property': s.pid, 'tier': s.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': {'explanation': s.rule, 'functions_analysed': len(s.funcs), 'obligations': n, 'discharged': len(s.ok_),
                           'undecided': len(s.und_), 'violating': len(seen), 'counts': s.counts,
                           'undecided_list': ['%s: %s' % (a, b) for a, b in s.und_][:60],
                           'samples': [a + (': ' + b if b else '') for a, b in s.ok_[:400]][:60],
                           'functions': sorted(s.funcs)[:400]},
              'assumptions': s.notes, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new)}
        with open(os.path.join(V, 'evidence', s.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d obligations over %d functions: %d hold, %d undecided, %d violated (%d known)  [%.1fs]' %
              (s.pid, n, len(s.funcs), len(s.ok_), len(s.und_), len(seen), len(seen) - len(new), time.time() - s.t0))
        for a, b in s.und_[:40]: print('  undecided: %s: %s' % (a, str(b)[:200]))
        if not new: return 0
        rp = os.path.join(V, 'evidence', s.pid + '.violations.txt')
        with open(rp, 'w') as f:
            for key, inst, loc, rule, detail in new:
                f.write('%s\n  instance: %s\n  rule: %s\n  %s\n  key: %s\n\n' % (loc, inst, rule, detail, key))
        for key, inst, loc, rule, detail in new[:30]:
            print('%s: %s: %s: %s' % (loc, rule, inst, detail[:600]))
            print('   key: ' + key)
        print('VIOLATION property=%s replay=%s' % (s.pid, rp))
        return 1
