import sys, time, json, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
from irparse import Module, Unsupported
from engine import Undecided
from execu import Exec


def run_one(mod, name, opts):
    e = Exec(mod, opts)
    t0 = time.time()
    res = {'harness': name}
    try:
        e.run_harness(name)
        res['status'] = 'done'
    except (Undecided, Unsupported) as x:
        res['status'] = 'undecided'; res['reason'] = str(x)
    except z3.Z3Exception as x:
        res['status'] = 'undecided'; res['reason'] = 'z3: ' + str(x)
    except RecursionError:
        res['status'] = 'undecided'; res['reason'] = 'recursion'
    except Exception as x:
        if opts.get('debug'): raise
        res['status'] = 'undecided'; res['reason'] = 'internal: %s: %s @ %s' % (type(x).__name__, x, traceback.format_exc().strip().split('\n')[-3].strip())
    res['time'] = time.time() - t0
    res['solver_time'] = e.solver_time
    res['paths'] = e.paths
    res['steps'] = e.steps
    res['obligations'] = len(e.obs)
    res['proved'] = sum(o.status == 'proved' for o in e.obs)
    res['by'] = {}
    for o in e.obs: res['by'][o.solver] = res['by'].get(o.solver, 0) + 1
    res['kinds'] = {}
    for o in e.obs: res['kinds'][o.kind] = res['kinds'].get(o.kind, 0) + 1
    res['failed'] = [dict(kind=o.kind, label=o.label, status=o.status, where=o.where, model=o.model, solver=o.solver) for o in e.obs if o.status != 'proved']
    res['covers'] = sorted(e.covers)
    res['loops'] = sorted(set(e.loopinfo))
    res['trusted'] = sorted(e.trusted)
    res['functions'] = sorted(e.demangle(f) for f in e.execfuncs)
    return res


def load(path):
    return Module().parse(open(path).read())


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('ll'); ap.add_argument('rx', nargs='?', default='.'); ap.add_argument('-v', action='store_true'); ap.add_argument('-d', action='store_true')
    ap.add_argument('-t', type=int, default=20000)
    a = ap.parse_args()
    import re
    m = load(a.ll)
    for n in list(m.funcs):
        if re.match(r'C\d\d_', n) and re.search(a.rx, n):
            r = run_one(m, n, dict(verbose=a.v, debug=a.d, timeout=a.t))
            print('%-34s %-10s %s obs=%d proved=%d paths=%d steps=%d %.1fs (solver %.1f) covers=%s loops=%d' % (n, r['status'], r.get('reason', ''), r['obligations'], r['proved'], r['paths'], r['steps'], r['time'], r['solver_time'], len(r['covers']), len(r['loops'])))
            for f in r['failed'][:5]: print('    FAILED', {k: v for k, v in f.items()})
