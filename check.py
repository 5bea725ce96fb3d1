#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo's current source; see DESIGN.md"""
import sys, os, importlib, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)
def main():
    import facts, report
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    try:
        F = facts.load()
        R = report.Report(pid, F, tier)
        importlib.import_module(pid.lower()).run(F, R)
        return R.finish()
    except facts.AnalysisError as e:
        print('ANALYSIS-ERROR %s: %s' % (pid, e)); return 3
    except Exception:
        traceback.print_exc(); return 4
rc = [5]
t = threading.Thread(target=lambda: rc.__setitem__(0, main()))
t.start(); t.join()
sys.stdout.flush()
os._exit(rc[0] if rc[0] is not None else 5)
