#!/usr/bin/env python3
"""Decides one property of snapws by deterministic simulation with fault injection.

  check.py CNN [--tier quick|thorough]   explore, exit 0 (held), 1 (VIOLATION), 2 (no answer)
  check.py --replay FILE [--trace]       rebuild from /repo's working tree and replay a recorded violation
  check.py --build                       only build the simulator (both variants)
  check.py --selftest                    conformance of the rewriter, and determinism of every profile across processes
"""
import concurrent.futures as cf
import contextlib, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.path.join(HERE, '.build')
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
CFG = json.load(open(os.path.join(HERE, 'checks.json')))
WORKERS = 8


def goenv():
    e = dict(os.environ)
    p = '/opt/vp/env.sh'
    if os.path.exists(p):
        out = subprocess.run(['bash', '-c', f'. {p} >/dev/null 2>&1; env -0'], capture_output=True, text=True).stdout
        for kv in out.split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                if k.startswith('GO') or k in ('PATH', 'HOME'):
                    e[k] = v
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOWORK='off', GOTOOLCHAIN='local', GOENV='off')
    e.pop('GOEXPERIMENT', None)
    return e


def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)


def tree_key(race):
    h = hashlib.sha256(b'race' if race else b'plain')
    files = [f for f in sorted(glob.glob(REPO + '/*.go')) if not f.endswith('_test.go')]
    files += [f for f in sorted(glob.glob(REPO + '/**/*.go', recursive=True)) if not f.endswith('_test.go') and f not in files]
    files += [REPO + '/go.mod', REPO + '/go.sum']
    for d, ds, fs in os.walk(SIM):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


@contextlib.contextmanager
def lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def build(race=False):
    """Builds the simulated library and its harness from /repo's working tree; returns the binary and how it was made."""
    with lock():
        key = tree_key(race)
        d = os.path.join(BUILD, key)
        exe = os.path.join(d, 'harness')
        if os.path.exists(exe):
            return exe, json.load(open(os.path.join(d, 'build.json')))
        t0 = time.time()
        for old in sorted(glob.glob(BUILD + '/*/'), key=os.path.getmtime)[:-6]:
            shutil.rmtree(old, ignore_errors=True)
        env = goenv()
        tmp = tempfile.mkdtemp(prefix='tmp.', dir=BUILD)
        try:
            src = os.path.join(tmp, 'src')
            shutil.copytree(SIM, src)
            def run(*a):
                r = subprocess.run(a, cwd=src, env=env, capture_output=True, text=True, timeout=600)
                if r.returncode:
                    die(f'ERROR: {" ".join(a[:3])} failed:\n{r.stdout[-3000:]}{r.stderr[-6000:]}')
                return r.stdout
            run('go', 'build', '-o', tmp + '/rw', './rewrite')
            out = run(tmp + '/rw', '-repo', REPO, '-out', src, '-shim', src + '/shim', *(['-race'] if race else []))
            run('go', 'build', '-o', tmp + '/harness', './harness')
            info = {'race': race, 'key': key, 'build_s': round(time.time() - t0, 1), 'rewriter': out.strip()[-400:]}
            json.dump(info, open(tmp + '/build.json', 'w'))
            shutil.rmtree(src)
            os.remove(tmp + '/rw')
            os.rename(tmp, d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return exe, info


def wenv():
    return dict(os.environ, GOMAXPROCS='1', GOGC='', GOTRACEBACK='single')


def worker(exe, prop, seed, k, n, maxsec, d, hashes=False):
    cmd = [exe, 'run', '-prop', prop, '-seed', str(seed), '-from', str(k), '-step', str(WORKERS), '-n', str(n), '-maxsec', str(maxsec), '-dir', d, '-known', KNOWN]
    if hashes:
        cmd.append('-hashes')
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=maxsec + 180, env=wenv())
    except subprocess.TimeoutExpired:
        return {'dead': f'worker {k} is stuck'}
    st = None
    for l in r.stdout.splitlines():
        if l.startswith('S '):
            st = json.loads(l[2:])
    if st is None:
        return {'dead': f'worker {k} ended with {r.returncode}', 'err': r.stderr[-4000:], 'out': r.stdout}
    if hashes:
        st['H'] = [l for l in r.stdout.splitlines() if l.startswith('H ')]
    return st


def reproduce(exe, f):
    """Replays a file in a fresh process."""
    r = subprocess.run([exe, 'replay', f], capture_output=True, text=True, timeout=600, env=wenv())
    return r.returncode == 1 and 'REPRODUCED exactly' in r.stdout, r.stdout + r.stderr


def report(exe, prop, viols, race, tier):
    """Minimises a violation, checks that the replay file reproduces it, and prints the verdict."""
    os.makedirs(EVID, exist_ok=True)
    out = os.path.join(EVID, f'replay-{prop}.json')
    best, txts = None, []
    for f in viols:
        m = f + '.min'
        try:
            subprocess.run([exe, 'min', '-o', m, '-maxsec', '60' if tier == 'thorough' else '25', f], capture_output=True, text=True, timeout=400, env=wenv())
        except subprocess.TimeoutExpired:
            pass
        for c in (m, f):
            if os.path.exists(c):
                ok, txt = reproduce(exe, c)
                txts.append(txt)
                if ok:
                    best = c
                    break
        if best:
            break
    if best is None:
        die(f'ERROR: no violation of {prop} could be reproduced from its replay file (nondeterminism in the harness):\n' + '\n'.join(txts)[-3000:])
    shutil.copyfile(best, out)
    rp = json.load(open(out))
    print(f"seed {rp['plan']['seed']} run {rp['index']}: {rp['violation']['kind']}: {rp['violation']['msg']}")
    print(f"minimised: {'yes' if best == m else 'no'}; connections {len(rp['plan'].get('conns') or [])}, actors {len(rp['plan'].get('acts') or [])}, "
          f"preemptions {len(rp['sched'].get('preempts') or [])}, recorded choices {len(rp['sched'].get('choices') or [])}; replay with: python3 {HERE}/check.py --replay {out} --trace")
    for l in (rp.get('trace') or [])[-40:]:
        print('   ', l[:220])
    print(f'VIOLATION property={prop} replay={out}', flush=True)
    return out


def crash(exe, prop, seed, k, n, maxsec, d, st):
    """A worker died (stack overflow, out of memory): find the run that kills it."""
    err = st.get('err', '')
    r = subprocess.run([exe, 'run', '-prop', prop, '-seed', str(seed), '-from', str(k), '-step', str(WORKERS), '-n', str(n), '-maxsec', str(maxsec), '-dir', d, '-hashes'],
                       capture_output=True, text=True, timeout=maxsec + 180, env=wenv())
    hs = [l for l in r.stdout.splitlines() if l.startswith('H ')]
    i = k if not hs else int(hs[-1].split()[1]) + WORKERS
    if any(l.startswith('S ') for l in r.stdout.splitlines()) or not ('stack overflow' in r.stderr or 'goroutine stack exceeds' in r.stderr) or 'gen/snapws' not in r.stderr:
        die(f'ERROR: {st["dead"]}\n{err}')
    plan = json.loads(subprocess.run([exe, 'plan', '-prop', prop, '-seed', str(seed), '-i', str(i)], capture_output=True, text=True).stdout)
    os.makedirs(EVID, exist_ok=True)
    out = os.path.join(EVID, f'replay-{prop}.json')
    json.dump({'property': prop, 'violation': {'props': [prop], 'kind': 'crash', 'msg': 'the process dies: ' + r.stderr[:300]}, 'index': i, 'crash': True, 'plan': plan, 'sched': {}}, open(out, 'w'), indent=1)
    print(r.stderr[:1500])
    print(f'VIOLATION property={prop} replay={out}', flush=True)


def known_lines(prop):
    if not os.path.exists(KNOWN):
        return []
    return [l.strip() for l in open(KNOWN) if l.startswith('known: ') and f'property={prop} ' in l]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    c = CFG['checks'][prop]
    race = bool(c.get('race'))
    exe, info = build(race)
    n = c[tier + '_runs'] // WORKERS
    cap = CFG['cap_s'][tier]
    d = tempfile.mkdtemp(prefix='run.', dir=BUILD)
    try:
        t1 = time.time()
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            sts = list(ex.map(lambda k: worker(exe, prop, seed, k, n, cap, d), range(WORKERS)))
        wall = time.time() - t1
        for k, st in enumerate(sts):
            if 'dead' in st:
                if 'err' in st:
                    crash(exe, prop, seed, k, n, cap, d, st)
                    evidence(prop, tier, seed, [s for s in sts if 'dead' not in s], wall, t0, info, 1, exe, {})
                    return 1
                die('ERROR: ' + st['dead'])
            if st.get('fault'):
                die(f'ERROR: the harness misbehaved: {st["fault"]}')
        viols = sorted((v for st in sts for v in st.get('viols') or []), key=lambda f: int(f.rsplit('-', 1)[1].split('.')[0]))
        # the same seeds again in other processes: the traces must be identical
        det = {}
        if not viols:
            m = min(n, 25)
            with cf.ThreadPoolExecutor(4) as ex:
                a = list(ex.map(lambda k: worker(exe, prop, seed, k % 2, m, 60, d, True), range(4)))
            hs = [x.get('H') for x in a]
            det = {'runs_repeated_in_another_process': 2 * m, 'identical_traces': sum(x == y for p, q in ((hs[0], hs[2]), (hs[1], hs[3])) for x, y in zip(p or [], q or []))}
            if det['identical_traces'] != 2 * m:
                print(f'WARNING: only {det["identical_traces"]} of {2*m} repeated runs had identical traces')
        evidence(prop, tier, seed, sts, wall, t0, info, len(viols), exe, det)
        for l in known_lines(prop):
            hits = sum((st.get('known') or {}).get(l, 0) for st in sts)
            print(f'KNOWN-FINDING: property={prop} {l[7:]} (seen {hits} times in this run)')
        runs = sum(st['runs'] for st in sts)
        if viols:
            report(exe, prop, viols, race, tier)
            return 1
        print(f'{prop}: held in {runs} simulated runs ({sum(st["sim_ns"] for st in sts)/3.6e12:.1f} h simulated, {sum(st["checks"] for st in sts)} oracle decisions) in {wall:.1f} s; build {info["build_s"]} s')
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(d, ignore_errors=True)


RULE = ('A case is one simulated run: a plan (options, connections, client scripts, application actors, link and fault parameters) and a schedule, both drawn from '
        'one seed. Non-trivial: at least one oracle of the run had something to decide. Distinct: the hash over every scheduling decision, event, call result and '
        'transport operation of the run differs from that of all other runs.')


def evidence(prop, tier, seed, sts, wall, t0, info, nviol, exe, det):
    tot = lambda k: sum(st.get(k, 0) for st in sts)
    merged = lambda k: {x: sum(st[k].get(x, 0) for st in sts) for x in sorted({y for st in sts for y in st[k]})}
    hashes, pairs = set(), set()
    for st in sts:
        hashes.update(st.get('hashes') or [])
        pairs.update(st.get('pairs') or [])
    runs = tot('runs')
    samples = []
    for i in range(2):
        r = subprocess.run([exe, 'plan', '-prop', prop, '-seed', str(seed), '-i', str(i)], capture_output=True, text=True, env=wenv())
        h = subprocess.run([exe, 'det', '-prop', prop, '-seed', str(seed), '-from', str(i), '-n', '1'], capture_output=True, text=True, env=wenv()).stdout.split()
        try:
            samples.append({'run': i, 'trace_hash': h[2] if len(h) > 2 else '', 'plan': json.loads(r.stdout)})
        except ValueError:
            pass
    c = CFG['checks'][prop]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(hashes),
            'rule': RULE,
            'samples': samples,
            'exhaustive': False,
            'oracle_decisions': tot('checks'),
            'runs_per_hour_one_seed_each': int(runs / max(wall, 1e-3) * 3600),
            'simulated_seconds': round(tot('sim_ns') / 1e9, 1),
            'application_calls': tot('calls'), 'application_reads': tot('reads'), 'transport_writes': tot('frames'), 'client_bytes': tot('bytes'),
            'library_steps': tot('steps'), 'context_switches': tot('switches'), 'preemptions_injected': tot('preemptions'),
            'faults_injected': merged('faults'), 'runs_with_fault': merged('fault_runs'),
            'distinct_states': {'measure': 'distinct ordered pairs (library source site left, library source site entered) of context switches', 'count': len(pairs)},
            'determinism': det,
            'components_real': 'every statement of package snapws from the current working tree of /repo (rewritten only in its synchronisation, time, randomness, map order and scheduling points), bufio, net/http response controller, golang.org/x/time/rate (source rewritten the same way), encoding/json, crypto/sha1',
            'components_stub': 'Go scheduler, channels, sync, sync/atomic, context timers, time, math/rand, crypto/rand, map iteration order; net.Conn transport and kernel buffers; HTTP server (request parsing and hijack); WebSocket clients; application code',
            'build': info,
        },
        'assumptions': CFG['assumptions'] + c.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': nviol,
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f'.{prop}.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(EVID, f'{prop}.json'))


def replay(f, trace):
    rp = json.load(open(f))
    exe, _ = build(bool(rp.get('race')))
    if rp.get('crash'):
        d = tempfile.mkdtemp(prefix='run.', dir=BUILD)
        r = subprocess.run([exe, 'replay', '-gen', f], capture_output=True, text=True, env=wenv())
        shutil.rmtree(d, ignore_errors=True)
        print(r.stderr[:1500])
        return 1 if r.returncode == 2 else 0
    return subprocess.run([exe, 'replay'] + (['-trace'] if trace else []) + [f], env=wenv()).returncode


def conform(seeds=300):
    """Checks the rewriter and the simulated runtime: programs whose result does not depend on the schedule must give the
    results of the Go runtime, and the repository's own tests must pass on the rewritten package, in every simulated run."""
    bad = 0
    env = dict(goenv(), CONFORM_SEEDS=str(seeds))
    os.makedirs(BUILD, exist_ok=True)
    for race in ([], ['-race']):
        for what in ('programs', 'repository tests'):
            tmp = tempfile.mkdtemp(prefix='tmp.', dir=BUILD)
            try:
                src = os.path.join(tmp, 'src')
                shutil.copytree(SIM, src)
                def run(*a):
                    r = subprocess.run(a, cwd=src, env=env, capture_output=True, text=True, timeout=900)
                    if r.returncode:
                        die(f'ERROR: {" ".join(a[:3])} failed:\n{r.stdout[-6000:]}{r.stderr[-6000:]}')
                    return r.stdout
                run('go', 'build', '-o', tmp + '/rw', './rewrite')
                if what == 'programs':
                    want = run('go', 'run', './conform/native')
                    run(tmp + '/rw', '-repo', src + '/conform/prog', '-out', src, '-shim', src + '/shim', *race)
                    got = run('go', 'run', './conform/simulated', str(seeds))
                    ok = want == got
                    for l in sorted(set(got.splitlines()) ^ set(want.splitlines())):
                        print('   ', l[:300])
                    n = len(want.splitlines())
                else:
                    run(tmp + '/rw', '-repo', REPO, '-out', src, '-shim', src + '/shim', '-tests', *race)
                    out = run('go', 'test', '-count=1', '-v', './gen/snapws')
                    n = out.count('--- PASS')
                    ok = n > 0 and '--- FAIL' not in out
                bad += not ok
                print(f'conformance {what}{" (race build)" if race else ""}: {n} in {seeds} simulated executions each: {"agree" if ok else "DISAGREE"}', flush=True)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    return bad


def selftest():
    bad = conform()
    for p, c in CFG['checks'].items():
        exe, _ = build(bool(c.get('race')))
        outs = []
        for g in ('1', '8'):
            r = subprocess.run([exe, 'det', '-prop', p, '-n', '40'], capture_output=True, text=True, env=dict(wenv(), GOMAXPROCS=g))
            outs.append(r.stdout)
        ok = outs[0] == outs[1] and 'differing=0' in outs[0]
        bad += not ok
        print(p, 'deterministic' if ok else 'DIFFERS', flush=True)
    return 2 if bad else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ['--build']:
        for r in (False, True):
            print(build(r))
        return 0
    if a[:1] == ['--replay']:
        return replay(a[1], '--trace' in a)
    if a[:1] == ['--selftest']:
        return selftest()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if not a or a[0] not in CFG['checks'] or tier not in ('quick', 'thorough'):
        die(__doc__)
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
