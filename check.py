#!/usr/bin/env python3-vt
"""Decides one property:  check.py <PID> [--strict] [--only REGEX] [--no-native]

Every run re-extracts the code from /repo (clang on the harness translation unit that includes the
real sources), generates the obligations of each contract harness and discharges them; exit 0 / 1 as
in the task interface.  See DESIGN.md for the decision rule."""
import sys, os, re, json, time, subprocess, multiprocessing, shutil, signal, tempfile, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'irvc'))
sys.setrecursionlimit(20000)
from props import PROPS, TRUST
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **kw)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return -99, (out or '') + '\n[timeout after %ds]' % timeout
    except OSError as x:
        return -98, str(x)


# ---------------------------------------------------------------- workers
def w_ir(job):
    rc, out = sh(['bash', os.path.join(V, 'build_ir.sh'), os.path.join(V, job['src']), job['ll']] + job['flags'], 120)
    return dict(kind='ir', job=job, rc=rc, out=out)


def w_native(job):
    rc, out = sh(job['cmd'], 240)
    return dict(kind='native', job=job, rc=rc, out=out)


def w_prove(job):
    import run as R
    return R.run_one(R.load(job['ll']), job['harness'], dict(timeout=job['timeout'], debug=False, shard=job.get('shard')))


def prove_child(job, path):
    signal.alarm(0)
    try:
        r = w_prove(job)
    except BaseException as x:
        r = dict(harness=job['harness'], status='undecided', reason='internal: %s' % x, obligations=0, proved=0, failed=[], covers=[], loops=[], trusted=[], functions=[], solver_time=0, time=0, by={}, kinds={}, paths=0, steps=0)
    with open(path + '.t', 'w') as f: json.dump(r, f)
    os.rename(path + '.t', path)
    os._exit(0)


def run_pool(jobs, fn_start, maxpar, deadline):
    """jobs: list; fn_start(job)->(Process, resultpath, job_deadline_s). returns list of (job, result or None, why)."""
    pend = list(jobs); live = []; res = []
    while pend or live:
        while pend and len(live) < maxpar and time.time() < deadline:
            j = pend.pop(0)
            p, path, dl = fn_start(j)
            live.append((j, p, path, min(time.time() + dl, deadline)))
        if pend and time.time() >= deadline:
            for j in pend: res.append((j, None, 'time budget of the check used up'))
            pend = []
        nl = []
        for j, p, path, dl in live:
            if not p.is_alive():
                p.join()
                if os.path.exists(path): res.append((j, json.load(open(path)), None))
                else: res.append((j, None, 'verifier process ended (exit %s)' % p.exitcode))
            elif time.time() > dl:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: p.kill()
                p.join(); res.append((j, None, 'time limit'))
            else: nl.append((j, p, path, dl))
        live = nl
        if live: time.sleep(0.02)
    return res


def harness_names(src, pid):
    t = open(os.path.join(V, src)).read()
    return [n for n in sorted(set(re.findall(r'VC_HARNESS\((%s_\w+)\)' % pid, t))) if THOROUGH or not n.startswith(pid + '_T_')]   # _T_: thorough tier only


def known_findings(pid):
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    strict = '--strict' in args
    only = args[args.index('--only') + 1] if '--only' in args else None
    nonat = '--no-native' in args
    verbose = '-v' in args
    P = PROPS[pid]
    t0 = time.time()
    budget = P.get('budget', 420) * (1.4 if THOROUGH else 1)
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid, dir=os.environ.get('VERIF_WORK', '/tmp'))
    rdir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rdir, f))
    try:
        return decide(pid, P, work, rdir, t0, budget, strict, only, nonat, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, work, rdir, t0, budget, strict, only, nonat, verbose):
    known = known_findings(pid)
    # ---- build everything (in parallel)
    bj = []
    for ui, u in enumerate(P['units']):
        for vi, var in enumerate(u.get('variants', [[]])):
            ll = os.path.join(work, 'u%d_%d.ll' % (ui, vi))
            fl = [x.replace('$V', V).replace('$R', REPO) for x in list(var) + u.get('flags', [])]
            bj.append((w_ir, dict(src=u['src'], ll=ll, flags=fl, unit=ui, var=vi)))
            if u.get('native', True) and not nonat:
                exe = os.path.join(work, 'n%d_%d' % (ui, vi))
                cmd = ['bash', os.path.join(V, 'native', 'build.sh'), os.path.join(V, u['src']), exe, '-DVC_NATIVE', '-I' + os.path.join(V, 'harness')] + list(var) + [x.replace('$V', V).replace('$R', REPO) for x in u.get('nflags', [])]
                bj.append((w_native, dict(cmd=cmd, exe=exe, unit=ui, var=vi)))
    drivers = [] if nonat else P.get('drivers', [])
    dexe = {}; dj = []
    for di, d in enumerate(drivers):
        key = (d['src'], tuple(d.get('flags', [])))
        if key in dexe: continue
        exe = os.path.join(work, 'd%d' % di)
        dexe[key] = exe
        cmd = ['bash', os.path.join(V, 'native', 'build.sh'), os.path.join(V, d['src']), exe] + d.get('flags', [])
        dj.append((w_native, dict(cmd=cmd, exe=exe, driver=key)))
    dpool = multiprocessing.pool.ThreadPool(max(1, len(dj)))
    dbuilt = dpool.map_async(lambda x: x[0](x[1]), dj)          # drivers compile while the proofs run
    with multiprocessing.pool.ThreadPool(8) as tp:
        built = tp.map(lambda x: x[0](x[1]), bj)
    irs = {(b['job']['unit'], b['job']['var']): b for b in built if b['kind'] == 'ir'}
    nats = {(b['job']['unit'], b['job']['var']): b for b in built if b['kind'] == 'native' and 'unit' in b['job']}
    notes = []; bounded = []
    violations = []; knownhits = []
    tb = time.time() - t0

    def write_replay(name, text):
        path = os.path.join(rdir, '%s-%s.txt' % (pid, re.sub(r'\W+', '_', name)))
        with open(path, 'w') as f: f.write(text)
        return os.path.relpath(path, V)

    def report(kind, name, label, text, noinput):
        full = '%s: %s' % (name, label)
        for rx, what in known:
            if re.search(rx, full):
                knownhits.append('KNOWN-FINDING: property=%s %s' % (pid, what)); return
        rp = write_replay(name, text)
        violations.append('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if noinput else ''))

    for u in P['units']:
        if not u.get('native', True): continue
        for n in re.findall(r'VC_BOUNDED\((%s_\w+)\)' % u.get('pid', pid), open(os.path.join(V, u['src'])).read()): bounded.append(dict(harness=n, reason='bounded by design: random inputs on the compiled code, no obligations'))
    # ---- proofs
    pj = []
    for ui, u in enumerate(P['units']):
        names = [n for n in harness_names(u['src'], u.get('pid', pid)) if (not u.get('only') or re.search(u['only'] + (u.get('thorough_only', '') if THOROUGH else ''), n)) and (not only or re.search(only, n))]
        for vi, var in enumerate(u.get('variants', [[]])):
            b = irs[(ui, vi)]
            if b['rc'] != 0:
                notes.append('could not compile %s %s for the verifier: %s' % (u['src'], ' '.join(var), b['out'][-1500:]))
                for n in names: bounded.append(dict(harness=n, variant=' '.join(var), reason='translation unit does not compile against the current sources'))
                continue
            for n in names:
                sk = u.get('skip', {}).get(n)
                if sk and vi in sk: continue
                ns = u.get('shards', {}).get(n, 1)
                for si in range(ns):
                    pj.append(dict(ll=b['job']['ll'], harness=n, unit=ui, var=vi, timeout=u.get('timeout', 20000), limit=u.get('limit', 240), variant=' '.join(var), shard=(si, ns) if ns > 1 else None))
    pj.sort(key=lambda j: -P.get('weights', {}).get(j['harness'], 1))
    cnt = [0]

    def start(j):
        cnt[0] += 1
        path = os.path.join(work, 'r%d.json' % cnt[0])
        p = multiprocessing.get_context('fork').Process(target=lambda: (os.setsid(), prove_child(j, path)))
        p.start()
        return p, path, j['limit'] * (2 if THOROUGH else 1)
    res = run_pool(pj, start, 8, t0 + budget)
    results = []
    for j, r, why in res:
        if r is None:
            r = dict(harness=j['harness'], status='undecided', reason=why, obligations=0, proved=0, failed=[], covers=[], loops=[], trusted=[], functions=[], solver_time=0, time=0, by={}, kinds={}, paths=0, steps=0)
        r['shard'] = j.get('shard'); r['variant'] = j['variant']; r['unit'] = j['unit']; r['var'] = j['var']
        results.append(r)
    results.sort(key=lambda r: (r['unit'], r['harness'], r['var']))
    tp_ = time.time() - t0 - tb

    dbl = {b['job']['driver']: b for b in dbuilt.get()}
    # ---- native cross-check / replay
    nat_exec = 0; nat_runs = []
    natfail = {}                              # (unit,var,harness) -> output

    def nrun(ui, vi, what, arg, seed, tmo):
        b = nats.get((ui, vi))
        if not b or b['rc'] != 0: return None
        sd = tempfile.mkdtemp(prefix='run_', dir=work)
        rc, out = sh([b['job']['exe'], what, str(arg), str(seed)], tmo, cwd=sd)
        shutil.rmtree(sd, ignore_errors=True)
        return rc, out
    for (ui, vi), b in nats.items():
        if b['rc'] != 0: notes.append('native build failed for %s: %s' % (P['units'][ui]['src'], b['out'][-800:]))
    jobs = []
    secs = P.get('native_secs', 6) * (8 if THOROUGH else 1)
    for (ui, vi), b in nats.items():
        if b['rc'] == 0: jobs.append(('h', ui, vi, None))
    for di, d in enumerate(drivers): jobs.append(('d', di, None, d))

    def do(job):
        if job[0] == 'h':
            r = nrun(job[1], job[2], 'all', secs, SEED, secs * 4 + 60)
            return job, r
        d = job[3]; b = dbl[(d['src'], tuple(d.get('flags', [])))]
        if b['rc'] != 0: return job, (-97, b['out'])
        sd = tempfile.mkdtemp(prefix='drv_', dir=work)
        r = sh([b['job']['exe']] + [a.replace('$SEED', str(SEED)).replace('$V', V) for a in d['args'] + (d.get('thorough_args', []) if THOROUGH else [])], d.get('limit', 200) * (3 if THOROUGH else 1), cwd=sd)
        shutil.rmtree(sd, ignore_errors=True)
        return job, r
    with multiprocessing.pool.ThreadPool(4) as tp:
        nres = tp.map(do, jobs)
    bnd = [[n + ')' for n in re.findall(r'VC_BOUNDED\((\w+)\)', open(os.path.join(V, u['src'])).read())] for u in P['units']]
    for job, r in nres:
        if r is None: continue
        rc, out = r
        if job[0] == 'h':
            ui, vi = job[1], job[2]; upid = P['units'][ui].get('pid', pid); uonly = P['units'][ui].get('only')
            mine = lambda n: n.startswith(upid) and (not uonly or re.search(uonly, n) or n + ')' in bnd[ui])
            for m in re.finditer(r'^RUN (\S+) executions=(\d+) meeting_precondition=(\d+)', out, re.M):
                if mine(m.group(1)):
                    nat_exec += int(m.group(3)); nat_runs.append(dict(harness=m.group(1), variant=' '.join(P['units'][ui].get('variants', [[]])[vi]), executions=int(m.group(2)), meeting_precondition=int(m.group(3))))
            for m in re.finditer(r'^FAIL (\S+): (.*)$', out, re.M):
                if mine(m.group(1)): natfail[(ui, vi, m.group(1))] = (m.group(2), out)
            if rc in (-4, -6, -7, -8, -11): report('native', os.path.basename(P['units'][ui]['src']), 'crash (signal %d)' % -rc, 'The contract harnesses of %s, run natively on the real code, ended with signal %d:\n%s' % (P['units'][ui]['src'], -rc, out[-4000:]), False)
            elif rc not in (0, 1): notes.append('native run of %s ended with %d: %s' % (P['units'][ui]['src'], rc, out[-300:]))
        else:
            d = job[3]
            if rc == 1:
                labs = re.findall(r'^FAIL (.*)$', out, re.M) or ['?']
                for l in labs:                    # listed findings are announced; anything else is a violation
                    if any(re.search(rx, d['name'] + ': ' + l) for rx, _ in known): report('driver', d['name'], l, '', False)
                labs = [l for l in labs if not any(re.search(rx, d['name'] + ': ' + l) for rx, _ in known)]
                m = re.findall(r'^RUN (\S+) executions=(\d+)', out, re.M)
                nat_runs += [dict(harness='driver ' + d['name'] + ':' + a, executions=int(c)) for a, c in m]; nat_exec += sum(int(c) for a, c in m)
                if not labs: continue
                lab = labs[0]
                report('driver', d['name'], lab, 'Driver %s %s found a failing input in the real code.\nBuild: bash native/build.sh %s OUT; run: OUT %s\n\n%s' % (d['src'], d.get('flags', ''), d['src'], ' '.join(d['args']), out[-8000:]), False)
            elif rc == 0:
                m = re.findall(r'^RUN (\S+) executions=(\d+)', out, re.M)
                nat_runs += [dict(harness='driver ' + d['name'] + ':' + a, executions=int(c)) for a, c in m]
                nat_exec += sum(int(c) for a, c in m)
                ex = re.findall(r'^KNOWN (\S+) (.*)$', out, re.M)
            elif rc in (-4, -6, -7, -8, -11): report('driver', d['name'], 'crash (signal %d)' % -rc, 'Driver %s %s: the real code crashed (signal %d) on a valid input.\nBuild: bash native/build.sh %s OUT; run: OUT %s\n\n%s' % (d['src'], d.get('flags', ''), -rc, d['src'], ' '.join(d['args']), out[-8000:]), False)
            else: notes.append('driver %s gave no answer (%d): %s' % (d['name'], rc, out[-600:]))

    # ---- decision
    obl = disc = 0; stime = 0.0; by = {}; funcs = set(); trusted = set(); loops = set(); nproved = 0
    covered = {(r['unit'], r['var'], r['harness']) for r in results if r['covers']}
    for r in results:
        obl += r['obligations']; disc += r['proved']; stime += r['solver_time']
        for k, n in r['by'].items(): by[k or '?'] = by.get(k or '?', 0) + n
        funcs |= set(r['functions']); trusted |= set(r['trusted']); loops |= set(map(str, r['loops']))
        name = r['harness'] + (('[' + r['variant'] + ']') if r['variant'] else '')
        refuted = [f for f in r['failed'] if f['status'] == 'refuted' or f['status'] == 'failed']
        key = (r['unit'], r['var'], r['harness'])
        if r['status'] == 'done' and not r['failed']:
            if key not in covered or not r['obligations'] and not r.get('shard'):
                bounded.append(dict(harness=name, reason='vacuous: no obligation or no cover point reached'))
            else: nproved += 1
            if key in natfail:
                lab, out = natfail.pop(key)
                report('native', name, lab, 'Contract harness %s fails on the real code with this input:\n%s' % (name, out[-6000:]), False)
            continue
        if refuted:
            done = False; tried = ''
            for f in refuted[:6]:
                if not f.get('model'): continue
                mp = os.path.join(work, 'model.txt')
                with open(mp, 'w') as g: g.write(model_text(f['model']))
                rr = nrun(r['unit'], r['var'], r['harness'], mp, 0, 60)
                if rr and (rr[0] == 1 or rr[0] < -1 and rr[0] > -90) :
                    lab = (re.findall(r'^FAIL \S+: (.*)$', rr[1], re.M) or ['crash (signal %d)' % -rr[0]])[0]
                    natfail.pop(key, None)
                    report('model', name, f['label'], 'Obligation refuted: [%s] %s at %s\nCounterexample model:\n%s\nReplayed natively against the real code (%s): %s\n%s' % (f['kind'], f['label'], f['where'], model_text(f['model']), name, lab, rr[1][-3000:]), False)
                    done = True; break
            if done: continue
            if key in natfail:
                lab, out = natfail.pop(key)
                report('native', name, lab, 'Failed obligation(s): %s\nFailing input found on the real code:\n%s' % (json.dumps(refuted[:3], default=str)[:3000], out[-6000:]), False)
                continue
            rr = nrun(r['unit'], r['var'], r['harness'], P.get('search_secs', 15), SEED + 7, 120)
            if rr and rr[0] == 1:
                lab = (re.findall(r'^FAIL \S+: (.*)$', rr[1], re.M) or ['?'])[0]
                report('native', name, lab, 'Failed obligation(s): %s\nFailing input found on the real code:\n%s' % (json.dumps(refuted[:3], default=str)[:3000], rr[1][-6000:]), False)
                continue
            f = refuted[0]
            drv = [v for v in violations]
            text = 'Failed obligation: [%s] %s at %s (%s)\nVerifier model (no failing run of the real code was found from it):\n%s\nAll failed: %s\n' % (f['kind'], f['label'], f['where'], f['solver'], model_text(f.get('model') or {}), json.dumps(refuted[:10], default=str)[:6000])
            report('obligation', name, f['label'], text, True)
            continue
        why = r.get('reason') or '; '.join('%s: %s (%s)' % (f['kind'], f['label'], f['status']) for f in r['failed'][:3])
        bounded.append(dict(harness=name, reason='not decided by the verifier: ' + str(why)[:400]))
        if key in natfail:
            lab, out = natfail.pop(key)
            report('native', name, lab, 'The verifier gave no answer (%s); failing input found on the real code:\n%s' % (why, out[-6000:]), False)
    for (ui, vi, h), (lab, out) in natfail.items():
        if only and not re.search(only, h): continue
        report('native', h, lab, 'Failing input found on the real code:\n%s' % out[-6000:], False)
    # an obligation failure without input is the same violation as a found input: prefer the latter
    if any(not v.endswith('no-failing-input-found') for v in violations):
        violations[:] = [v for v in violations if not v.endswith('no-failing-input-found')] + [v for v in violations if v.endswith('no-failing-input-found')]
    wall = time.time() - t0
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P.get('level', 'proof'), wall_s=round(wall, 2), violations=len(violations),
              coverage=dict(obligations=obl, discharged=disc, checker_cmd='python3-vt check.py %s  (build_ir.sh: clang-18 -> LLVM IR of the harness + /repo sources; irvc/run.py: VC generation; z3, cvc5)' % pid,
                            trusted_base=TRUST + P.get('trust', []), harnesses=len(results), harnesses_fully_proved=nproved,
                            functions_under_contract=sorted(f for f in funcs if not f.startswith(('vc_', 'C0', 'C1'))), discharged_by=by, obligation_kinds={k: sum(r['kinds'].get(k, 0) for r in results) for k in set(k for r in results for k in r['kinds'])},
                            solver_time_s=round(stime, 2), prove_wall_s=round(tp_, 2), build_wall_s=round(tb, 2), loop_invariants=sorted(loops)[:60],
                            per_harness=[dict(harness=r['harness'], variant=r['variant'], status=r['status'], obligations=r['obligations'], proved=r['proved'], paths=r['paths'], covers=r['covers'], solver_s=round(r['solver_time'], 2)) for r in results],
                            bounded_stand_ins=bounded, native_cross_check=dict(executions=nat_exec, runs=nat_runs, note='bounded: the same contracts executed on the real compiled code with random inputs; never counted as proved'),
                            notes=notes),
              assumptions=sorted(trusted) + P.get('assume', []))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d harnesses, %d proved, %d obligations, %d discharged, %d bounded stand-ins, %d native executions, %.1f s (build %.1f, prove %.1f)' % (pid, len(results), nproved, obl, disc, len(bounded), nat_exec, wall, tb, tp_))
    for b in bounded: print('  BOUNDED', b['harness'], '-', b['reason'][:300])
    for n in notes: print('  NOTE', n[:1200 if verbose else 400])
    if verbose:
        for r in results: print('   %-40s %-10s obs=%d proved=%d paths=%d %.1fs solver %.1fs' % (r['harness'] + ' ' + r['variant'], r['status'], r['obligations'], r['proved'], r['paths'], r['time'], r['solver_time']))
    for k in sorted(set(knownhits)): print(k)
    for v in violations: print(v)
    if violations: return 1
    if strict and ([b for b in bounded if 'by design' not in b['reason']] or notes): return 3
    return 0


def model_text(m):
    if not m: return ''
    out = []
    for k, v in sorted(m.items(), key=lambda kv: str(kv[0])): 
        if k == '__arrays':
            for a, d in v.items():
                for kk, vv in d.items(): out.append('@%s %s %s' % (a, kk, vv))
        else: out.append('%s %s' % (k, v))
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    import multiprocessing.pool
    try:
        rc = main()
    except SystemExit: raise
    sys.stdout.flush()
    sys.exit(rc)
