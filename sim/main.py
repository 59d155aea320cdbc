"""Driver: check / worker / replay / selftest.   See DESIGN.md, section 'Driver'."""
import importlib, json, os, select, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get('RSB_PY', '/opt/venv/bin/python')
REPO = os.environ.get('RSB_REPO', '/repo')
sys.path.insert(0, HERE)
NWORK = int(os.environ.get('RSB_WORKERS', '0')) or max(1, min(8, os.cpu_count() or 1))
CASE_WALL = 150           # seconds without progress on one case before a worker is called stuck


def shim_path():
    b = os.path.join(ROOT, 'build')
    so = os.path.join(b, 'shim.so')
    src = os.path.join(HERE, 'shim.c')
    if os.path.exists(so) and os.path.getmtime(so) >= os.path.getmtime(src):
        return so
    try:
        os.makedirs(b, exist_ok=True)
        tmp = so + '.%d' % os.getpid()
        subprocess.check_call(['gcc', '-O1', '-fPIC', '-shared', '-Wno-unused-function', '-o', tmp, src, '-ldl'])
        os.replace(tmp, so)
        return so
    except Exception as e:
        sys.stderr.write('cannot build the I/O seam: %r\n' % (e,))
        sys.exit(3)


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    return tempfile.mkdtemp(prefix='rsbsim_', dir=base)


def child_env(hashseed='0'):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('LD_', 'PYTHON'))}
    e.update(LD_PRELOAD=shim_path(), PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX='/nonexistent/rsbsim-pycache', PYTHONPATH=REPO + os.pathsep + HERE, PYTHONNOUSERSITE='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.environ.get('RSB_SCRATCH', '/tmp'), HDF5_USE_FILE_LOCKING='FALSE', LC_ALL='C.UTF-8', TZ='UTC',
             RSB_REPO=REPO)
    return e


# ------------------------------------------------------------------ child side
def child_setup(pid):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    dn = os.open('/dev/null', os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('RSB_DEBUG'):
        os.dup2(dn, 2)
    sys.stdout = open('/dev/null', 'w')
    if not os.environ.get('RSB_DEBUG'):
        sys.stderr = open('/dev/null', 'w')
    sys.unraisablehook = lambda *a: None
    import core
    core.Scratch.setup(os.environ['RSB_SCRATCH'])
    os.chdir(os.environ['RSB_SCRATCH'])
    mod = importlib.import_module('props.' + pid.lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    import rsbeams
    got = os.path.dirname(os.path.dirname(os.path.abspath(rsbeams.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise RuntimeError('library under test is %s, expected %s' % (got, REPO))
    core.install_monitor()
    return core, mod, out


def run_case(core, mod, case):
    """-> dict(ok, [kind, msg, tags], digest)"""
    core.Scratch.io.reset()
    core.Scratch.clean()
    core.set_line_hook(None)
    core.entropy(True, case.get('ent', 12345))
    import random as _r
    import numpy as _np
    _r.seed(4242)
    _np.random.seed(4242)
    try:
        info = mod.run(case)
        return {'ok': True, 'digest': core.digest(info)}
    except core.Violation as v:
        return {'ok': False, 'kind': v.kind, 'msg': v.msg, 'tags': v.tags, 'digest': core.digest([v.kind, v.msg])}
    except Exception as e:
        # an exception out of the library in a call that has to succeed; anything else is an error of the harness
        t, inside = e.__traceback__, None
        while t is not None:
            if t.tb_frame.f_code.co_filename.startswith(core._prefix):
                inside = '%s:%d' % (os.path.basename(t.tb_frame.f_code.co_filename), t.tb_lineno)
            t = t.tb_next
        if isinstance(e, MemoryError) or inside is None and isinstance(e, (OSError, RuntimeError)):
            raise
        if inside is None:      # what the library returned is not of the form it has on the pinned tree
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return {'ok': False, 'kind': 'malformed', 'msg': 'a result cannot be evaluated: %r in the comparison at %s:%d' % (e, os.path.basename(tb.filename), tb.lineno), 'tags': {},
                    'digest': core.digest(['malformed', repr(e)])}
        return {'ok': False, 'kind': 'raises', 'msg': 'a call that has to succeed raises %r' % (e,), 'tags': {}, 'digest': core.digest(['raises', repr(e)])}
    finally:
        core.set_line_hook(None)
        core.Scratch.io.reset()
        core.entropy(False)


def sanity(core, mod):
    """The seam must be live: an intercepted write in the scratch directory is counted and can fail."""
    io = core.io()
    io.reset([{'k': 'open', 'nth': 0, 'err': 'EACCES'}])
    try:
        with io:
            open(core.path('probe'), 'wb').close()
        raise RuntimeError('the I/O seam does not intercept')
    except OSError:
        pass
    io.reset()


def worker(a):
    pid, seed, tier, w, W, n, wall = a[0], int(a[1]), a[2], int(a[3]), int(a[4]), int(a[5]), float(a[6])
    core, mod, out = child_setup(pid)
    sanity(core, mod)
    digests = os.environ.get('RSB_DIGESTS')
    t0 = time.monotonic()
    done, samples, mism, rechecked = 0, [], 0, 0
    kn = load_known(pid)
    keep = []
    known_hits = {}
    step = max(1, n // W // 12)
    for i in range(w, n, W):
        if time.monotonic() - t0 > wall:
            break
        case = mod.gen(core.rng('case', pid, seed, i), i, tier)
        out.write('B %d\n' % i)
        t1 = time.monotonic()
        r = run_case(core, mod, case)
        done += 1
        if 'RSB_SLOW' in os.environ and time.monotonic() - t1 > float(os.environ['RSB_SLOW']):
            print('case %d took %.1f s: %s' % (i, time.monotonic() - t1, json.dumps(case)[:1500]), file=sys.stderr)
        if digests:
            out.write('D %s\n' % json.dumps([i, r['digest'], r['ok']]))
        if not r['ok']:
            k = match_known(kn, r)
            if k is not None:
                known_hits[k] = known_hits.get(k, 0) + 1
                continue
            out.write('V %s\n' % json.dumps({'i': i, 'case': case, 'r': r}))
            break
        if (i // W) % step == 0:
            keep.append((case, r['digest']))
        if len(samples) < 1:
            samples.append(case)
    fin = time.monotonic() - t0
    stats = {'done': done, 'fired': dict(core.FIRED), 'probes': dict(core.PROBES), 'stat': dict(core.STAT),
             'states': sorted(core.STATES)[:200000], 'samples': samples, 'known': known_hits, 'search_s': fin}
    # replay determinism: the same cases again, at the end, in another order
    for case, d in reversed(keep[:12]):
        if time.monotonic() - t0 > wall * 1.2:
            break
        r = run_case(core, mod, case)
        rechecked += 1
        mism += r['digest'] != d
    stats.update(rechecked=rechecked, mismatches=mism)
    out.write('S %s\n' % json.dumps(stats))


def batch(a):
    """Run a list of cases in one process; print one result per case."""
    pid, fn = a[0], a[1]
    core, mod, out = child_setup(pid)
    for case in json.load(open(fn)):
        out.write('B\n')
        out.write('R %s\n' % json.dumps(run_case(core, mod, case)))


def minimise(a):
    """Greedy minimisation; writes the best case found so far."""
    pid, fn, limit = a[0], a[1], float(a[2])
    core, mod, out = child_setup(pid)
    t0 = time.monotonic()
    job = json.load(open(fn))
    best, kind = job['case'], job['kind']
    tried = 0
    seen = set()
    improved = True
    while improved and time.monotonic() - t0 < limit:
        improved = False
        for cand in mod.shrink(best):
            if time.monotonic() - t0 > limit:
                break
            d = core.digest(cand)
            if d in seen:
                continue
            seen.add(d)
            tried += 1
            out.write('B\n')
            try:
                r = run_case(core, mod, cand)
            except Exception:
                continue
            if not r['ok'] and r['kind'] == kind and match_known(load_known(pid), r) is None:
                best = cand
                improved = True
                out.write('M %s\n' % json.dumps({'case': best, 'r': r}))
                break
    out.write('E %s\n' % json.dumps({'tried': tried}))


# ------------------------------------------------------------------ known findings
def load_known(pid):
    try:
        return [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'] if k['property'] == pid]
    except FileNotFoundError:
        return []


def match_known(kn, r):
    for k in kn:
        m = k['match']
        if r['kind'] == m['kind'] and all(r['tags'].get(t) == v for t, v in m.get('tags', {}).items()):
            return k['id']
    return None


# ------------------------------------------------------------------ parent side
def spawn(args, scratch, hashseed='0', **kw):
    env = child_env(hashseed)
    env['RSB_SCRATCH'] = scratch
    env['MPLCONFIGDIR'] = scratch + '.mpl'
    env['HOME'] = scratch + '.mpl'
    os.makedirs(env['HOME'], exist_ok=True)
    env.update(kw.pop('extra', {}))
    return subprocess.Popen([PY, '-B', os.path.join(HERE, 'main.py')] + [str(x) for x in args], env=env,
                            stdout=subprocess.PIPE, stderr=None if os.environ.get('RSB_DEBUG') else subprocess.PIPE,
                            text=True, start_new_session=True, **kw)


def pump(proc, on_line, idle, total):
    """Read lines until EOF.  -> 'eof' | 'idle' | 'total'"""
    t0 = last = time.monotonic()
    fd = proc.stdout.fileno()
    os.set_blocking(fd, False)
    buf = b''
    err = b''
    ef = proc.stderr.fileno() if proc.stderr else None
    fds = [fd] + ([ef] if ef is not None else [])
    while True:
        now = time.monotonic()
        if now - last > idle:
            return 'idle', err
        if now - t0 > total:
            return 'total', err
        r, _, _ = select.select(fds, [], [], 0.5)
        for f in r:
            try:
                d = os.read(f, 1 << 16)
            except BlockingIOError:
                continue
            if f == ef:
                if not d:
                    fds.remove(ef)
                err = (err + d)[-4000:]
                continue
            if not d:
                return 'eof', err
            last = time.monotonic()
            buf += d
            while b'\n' in buf:
                l, buf = buf.split(b'\n', 1)
                on_line(l.decode())


def kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    proc.wait()


def run_batch(pid, cases, scratch, idle=CASE_WALL, hashseed='0'):
    """Fresh process.  -> list of results; a missing tail means crash or stuck (second value says which)."""
    os.makedirs(scratch, exist_ok=True)
    fn = scratch + '.json'
    with open(fn, 'w') as f:
        json.dump(cases, f)
    p = spawn(['batch', pid, fn], scratch, hashseed)
    res = []
    how, err = pump(p, lambda l: res.append(json.loads(l[2:])) if l.startswith('R ') else None, idle, 3 * idle)
    if how != 'eof':
        kill(p)
    p.wait()
    return res, how, p.returncode, err


class Job:
    pass


def do_check(pid, tier, seed):
    sys.path.insert(0, HERE)
    shim_path()
    root = scratch_root()
    try:
        return _check(pid, tier, seed, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def meta_of(pid):
    return json.load(open(os.path.join(HERE, 'props', 'meta.json')))[pid]


def _check(pid, tier, seed, root):
    m = meta_of(pid)
    n = int(os.environ.get('RSB_N', '0')) or m[tier]
    wall = float(os.environ.get('RSB_WALL', '0')) or m.get('wall_' + tier, 150 if tier == 'quick' else 1500)
    t0 = time.monotonic()
    jobs = []
    threads = []
    for w in range(min(NWORK, n)):
        j = Job()
        j.w, j.cur, j.viol, j.stats, j.how, j.err, j.rc = w, None, None, None, None, b'', None
        sc = os.path.join(root, 'w%02d' % w)
        os.makedirs(sc)
        j.p = spawn(['worker', pid, seed, tier, w, min(NWORK, n), n, wall], sc)

        def go(j=j):
            def line(l):
                if l[0] == 'B':
                    j.cur = int(l[2:])
                elif l[0] == 'V':
                    j.viol = json.loads(l[2:])
                elif l[0] == 'S':
                    j.stats = json.loads(l[2:])
            j.how, j.err = pump(j.p, line, CASE_WALL, wall * 1.5 + CASE_WALL)
            if j.how != 'eof':
                kill(j.p)
            j.rc = j.p.wait()
        t = threading.Thread(target=go)
        t.start()
        threads.append(t)
        jobs.append(j)
    for t in threads:
        t.join()
    viol = sorted((j.viol for j in jobs if j.viol), key=lambda v: v['i'])
    broken = [j for j in jobs if j.stats is None]
    W = len(jobs)
    report = None
    if viol:
        report = settle(pid, tier, seed, viol, W, root)
    if report is None and broken:
        # a worker died or stood still: decide in a fresh process whether one case does it
        for j in broken:
            if j.cur is None:
                sys.stderr.write('worker %d failed to start (rc %s): %s\n' % (j.w, j.rc, j.err.decode(errors='replace')[-1500:]))
                continue
            case = gen_case(pid, tier, seed, j.cur, root)
            res, how, rc, err = run_batch(pid, [case], os.path.join(root, 'retry'))
            if res and not res[0]['ok']:
                report = settle(pid, tier, seed, [{'i': j.cur, 'case': case, 'r': res[0]}], W, root)
                break
            if not res and (how in ('idle', 'total') or (rc is not None and rc < 0)):
                res2, how2, rc2, _ = run_batch(pid, [case], os.path.join(root, 'retry2'))
                if not res2 and (how2 in ('idle', 'total') or (rc2 is not None and rc2 < 0)):
                    kind = 'stuck' if how2 != 'eof' else 'crash'
                    report = write_replay(pid, tier, seed, [case], {'kind': kind, 'msg': 'the process %s (case %d), reproduced in fresh processes' % (
                        'makes no progress' if kind == 'stuck' else 'dies with signal %d' % -rc2, j.cur), 'digest': kind}, {'minimised': False})
                    break
            sys.stderr.write('worker %d ended early in case %s (%s, rc %s), not reproducible: %s\n' % (
                j.w, j.cur, j.how, j.rc, j.err.decode(errors='replace')[-3000:]))
    # listed findings: shown to be still there, by their own recorded cases
    known_lines = []
    for k in load_known(pid):
        res, how, rc, err = run_batch(pid, [k['case']], os.path.join(root, 'known'))
        if res and not res[0]['ok'] and match_known([k], res[0]) == k['id']:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        elif res and not res[0]['ok'] and report is None:
            report = write_replay(pid, tier, seed, [k['case']], res[0], {'minimised': False})
    evidence(pid, tier, seed, m, jobs, n, time.monotonic() - t0, t0, report, known_lines)
    for l in known_lines:
        print(l)
    if report:
        print(report['line1'])
        print('VIOLATION property=%s replay=%s' % (pid, report['path']))
        return 1
    if broken:
        print('ERROR property=%s: %d of %d workers did not finish' % (pid, len(broken), len(jobs)))
        return 2
    tot = sum(j.stats['done'] for j in jobs)
    print('OK property=%s tier=%s seed=%d cases=%d wall=%.1fs' % (pid, tier, seed, tot, time.monotonic() - t0))
    return 0


def gen_case(pid, tier, seed, i, root):
    sc = os.path.join(root, 'gen')
    os.makedirs(sc, exist_ok=True)
    p = spawn(['gen', pid, seed, tier, i], sc)
    o, _ = p.communicate(timeout=120)
    return json.loads(o)


def do_gen(a):
    pid, seed, tier, i = a[0], int(a[1]), a[2], int(a[3])
    core, mod, out = child_setup(pid)
    out.write(json.dumps(mod.gen(core.rng('case', pid, seed, i), i, tier)) + '\n')


def settle(pid, tier, seed, viol, W, root):
    """Confirm in a fresh process, minimise, confirm the minimised case, write the replay file."""
    for v in viol[:3]:
        case, r = v['case'], v['r']
        res, how, rc, err = run_batch(pid, [case], os.path.join(root, 'conf'))
        if res and not res[0]['ok'] and res[0]['kind'] == r['kind']:
            best, bres, info = case, res[0], {'minimised': False, 'tried': 0}
            mn, mres = run_min(pid, case, r['kind'], root)
            if mn is not None:
                res2, *_ = run_batch(pid, [mn], os.path.join(root, 'conf2'))
                if res2 and not res2[0]['ok'] and res2[0]['kind'] == r['kind']:
                    best, bres, info = mn, res2[0], {'minimised': True}
            return write_replay(pid, tier, seed, [best], bres, dict(info, index=v['i']))
        # depends on what ran before in the same process: replay the history of this worker
        i = v['i']
        idx = list(range(i % W, i + 1, W))
        k = 2
        while True:
            hist = idx[-k:]
            cases = [gen_case(pid, tier, seed, x, root) for x in hist[:-1]] + [case]
            res, how, rc, err = run_batch(pid, cases, os.path.join(root, 'conf3'), idle=CASE_WALL)
            if len(res) == len(cases) and not res[-1]['ok'] and res[-1]['kind'] == r['kind']:
                return write_replay(pid, tier, seed, cases, res[-1], {'minimised': False, 'history': len(cases), 'index': i})
            if k >= len(idx) or k > 64:
                break
            k *= 4
        sys.stderr.write('case %d: violation not reproducible in a fresh process: %s\n' % (i, r))
    # seen but not reproduced: not a verdict
    v = viol[0]
    print('ERROR property=%s: violation %s seen in case %d but it does not replay' % (pid, v['r']['kind'], v['i']))
    raise SystemExit(2)


def run_min(pid, case, kind, root, limit=60):
    sc = os.path.join(root, 'min')
    os.makedirs(sc, exist_ok=True)
    fn = sc + '.json'
    with open(fn, 'w') as f:
        json.dump({'case': case, 'kind': kind}, f)
    p = spawn(['minimise', pid, fn, limit], sc)
    best = [None, None]

    def line(l):
        if l.startswith('M '):
            d = json.loads(l[2:])
            best[:] = [d['case'], d['r']]
    how, err = pump(p, line, 60, limit + 60)
    if how != 'eof':
        kill(p)
    p.wait()
    return best


def write_replay(pid, tier, seed, cases, r, info):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha256(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:10]
    fn = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(fn, 'w') as f:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'kind': r['kind'], 'msg': r['msg'], 'digest': r.get('digest'),
                   'info': info, 'cases': cases, 'replay_with': './check replay <this file>'}, f, indent=1)
    return {'path': fn, 'line1': 'property %s: %s: %s' % (pid, r['kind'], r['msg'][:600]), 'kind': r['kind']}


def do_replay(fn):
    d = json.load(open(fn))
    root = scratch_root()
    try:
        res, how, rc, err = run_batch(d['property'], d['cases'], os.path.join(root, 'r'))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if d['kind'] in ('stuck', 'crash'):
        if not res and (how != 'eof' or (rc or 0) < 0):
            print('VIOLATION property=%s replay=%s' % (d['property'], fn))
            return 1
    if res and not res[-1]['ok']:
        r = res[-1]
        print('%s: %s' % (r['kind'], r['msg']))
        print('same as recorded: %s' % (r['kind'] == d['kind'] and r['digest'] == d['digest']))
        print('VIOLATION property=%s replay=%s' % (d['property'], fn))
        return 1
    if not res:
        print('ERROR: no result (%s, rc %s) %s' % (how, rc, err.decode(errors='replace')[-2000:]))
        return 2
    print('does not reproduce: the property holds in this execution')
    return 0


def evidence(pid, tier, seed, m, jobs, n, wall, t0, report, known_lines):
    from collections import Counter
    F, P, S, st, samples, known = Counter(), Counter(), Counter(), set(), [], Counter()
    done = mism = rech = 0
    srch = 0.0
    for j in jobs:
        s = j.stats
        if not s:
            continue
        F.update(s['fired']); P.update(s['probes']); S.update(s['stat']); st.update(s['states'])
        known.update(s['known'])
        samples += s['samples']
        done += s['done']; mism += s['mismatches']; rech += s['rechecked']
        srch = max(srch, s['search_s'])
    runs = S.get('runs', 0) or done
    cov = {
        'evaluations': int(runs), 'distinct_nontrivial': len(st), 'rule': m['rule'],
        'samples': samples[:2] or [{'note': 'no complete case'}],
        'cases': done, 'cases_planned': n,
        'simulated_runs_per_hour': int(runs / max(srch, 1e-3) * 3600),
        'seeds_per_hour': int(done / max(srch, 1e-3) * 3600),
        'simulated_time': {'library_source_lines_executed': S.get('steps', 0), 'intercepted_file_operations': S.get('io_ops', 0),
                           **{k: v for k, v in S.items() if k not in ('steps', 'io_ops', 'runs')}},
        'faults_fired': dict(sorted(F.items())), 'probes': dict(sorted(P.items())),
        'distinct_measure': m['state'], 'determinism_recheck': {'cases_run_twice': rech, 'different': mism},
        'real_components': m['real'], 'stub_components': m['stub'], 'workers': len(jobs),
        'known_findings_seen': dict(known),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': m['level'], 'coverage': cov, 'assumptions': m['assumptions'],
          'wall_s': round(wall, 2), 'violations': 1 if report else 0}
    if report:
        cov['violation'] = report['line1']
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))


def do_selftest(pid, n, seed):
    """Determinism: the same cases over different worker counts, PYTHONHASHSEEDs and orders; event digests must agree."""
    root = scratch_root()
    try:
        runs = []
        for W, hs in ((1, '0'), (3, '7'), (8, '99'), (8, 'random')):
            D = {}
            ps = []
            for w in range(W):
                sc = os.path.join(root, 'd%d_%s_%d' % (W, hs, w))
                os.makedirs(sc)
                ps.append(spawn(['worker', pid, seed, 'quick', w, W, n, 3600], sc, hs, extra={'RSB_DIGESTS': '1'}))

            def rd(p):
                pump(p, lambda l: D.__setitem__(json.loads(l[2:])[0], json.loads(l[2:])[1:]) if l.startswith('D ') else None, 600, 7200)
                p.wait()
            ts = [threading.Thread(target=rd, args=(p,)) for p in ps]
            [t.start() for t in ts]
            [t.join() for t in ts]
            runs.append(D)
        base = runs[0]
        bad = [(i, [r.get(i) for r in runs]) for i in sorted(base) if any(r.get(i) != base[i] for r in runs)]
        print('%s: %d cases x 4 configurations, %d differ%s' % (pid, len(base), len(bad), '' if not bad else ': %s' % bad[:3]))
        return 1 if bad or len(base) < n else 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == 'worker':
        return worker(a[1:])
    if a[0] == 'batch':
        return batch(a[1:])
    if a[0] == 'minimise':
        return minimise(a[1:])
    if a[0] == 'gen':
        return do_gen(a[1:])
    if a[0] == 'build':
        shim_path()
        return 0
    if a[0] == 'replay':
        return do_replay(a[1])
    if a[0] == 'selftest':
        return do_selftest(a[1], int(a[2]) if len(a) > 2 else 200, int(os.environ.get('VERIF_SEED', '1')))
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print('seed=%d tier=%s property=%s' % (seed, tier, a[0]), flush=True)
    return do_check(a[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
