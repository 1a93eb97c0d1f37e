#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property of /repo's current tree.

1. builds the MIR driver (driver/) if it is not built, into .build/ (git-ignored);
2. compiles /repo's working tree under the driver into a throw-away target directory, which dumps
   the monomorphised MIR of the crate;
3. runs the property's rules over the dump, each in its own process;
4. writes evidence/<id>.json, prints KNOWN-FINDING / VIOLATION lines."""
import fcntl, json, multiprocessing as mp, os, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, os.path.join(HERE, 'analysis'))


def sh(cmd, env=None, cwd=None, timeout=600):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'drv'))
        env.pop('RUSTFLAGS', None)
        env.pop('RUSTC_WORKSPACE_WRAPPER', None)
        p = sh(['cargo', '+nightly', 'build', '--offline', '-q'], env, os.path.join(HERE, 'driver'), 1200)
        if p.returncode:
            print(p.stdout[-3000:])
            raise SystemExit(2)
    return os.path.join(BUILD, 'drv', 'debug', 'mirdump')


FLAGS = '-Zmir-opt-level=0 -Zinline-mir=no -Coverflow-checks=off -Cdebug-assertions=off -Zalways-encode-mir -Zub-checks=no'


def dump(drv, repo=REPO):
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mir', dir=BUILD)
    try:
        out = os.path.join(tmp, 'd.json')
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_CRATE='ebur128',
                   MIRDUMP_OUT=out, RUSTFLAGS=FLAGS, CARGO_TARGET_DIR=os.path.join(tmp, 't'))
        env.pop('CARGO_ENCODED_RUSTFLAGS', None)
        p = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--features', 'capi'], env, repo)
        if p.returncode or not os.path.exists(out):
            print(p.stdout[-3000:])
            print('cannot compile the tree under analysis')
            raise SystemExit(2)
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Timeout(BaseException):
    pass


def job(args):
    """one rule in its own process"""
    prop, i, tier, limit = args
    import report
    name, fn = RULES[prop][i]
    rep = report.Report(prop)
    t = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (3800 << 20, 3800 << 20))

    def onalarm(*a):
        raise Timeout('time limit')
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    import ctx as CX
    try:
        fn(CTX, rep, tier)
    except CX.Missing as e:
        rep.ob('%s: anchor %s' % (name, e), 'missing')
    except Timeout as e:
        rep.ob('%s: %s' % (name, e), 'undecided', detail='analysis stopped after %d s' % limit)
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        rep.ob('%s: analysis gave up' % name, 'undecided', detail='%r at %s' % (e, ' / '.join(x.strip() for x in tb[-3:])))
    signal.setitimer(signal.ITIMER_REAL, 0)
    for o in rep.obs:
        o.setdefault('group', name)
    E = CTX.E
    return (name, rep.obs, rep.notes, [f for f in E.analysed], CTX.log, time.time() - t, {k: v for k, v in E.unmodelled.items()})


RULES = {}
CTX = None


def main():
    global CTX
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    drv = build_driver()
    d = dump(drv)
    import rules
    import ctx as CX
    RULES.update(rules.RULES)
    CTX = CX.Ctx(d)
    n = len(RULES[prop])
    limit = 420 if tier == 'quick' else 760
    jobs = [(prop, i, tier, limit) for i in range(n)]
    mpc = mp.get_context('fork')
    res = []
    with mpc.Pool(min(8, max(1, n)), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(job, (j,)) for j in jobs]
        for j, r in zip(jobs, rs):
            left = max(5, (limit + 60 if n <= 8 else 820) - (time.time() - t0))
            try:
                res.append(r.get(left))
            except Exception as e:
                res.append((RULES[prop][j[1]][0], [{'obligation': RULES[prop][j[1]][0], 'status': 'undecided', 'where': '', 'detail': 'process: %r' % e, 'witness': None}], [], [], [], 0, {}))
        pool.terminate()
    finish(prop, tier, d, res, t0)


def finish(prop, tier, d, res, t0):
    import rules
    obs = [o for r in res for o in r[1]]
    fns = {f['id']: f['path'] for f in d['fns']}
    an = sorted({fns[f] for r in res for f in r[3] if f in fns})
    known = load_known(prop)
    bad, kf = [], []
    for o in obs:
        if o['status'] in ('refuted', 'missing'):
            k = [x for x in known if x in o['obligation']]
            (kf if k else bad).append(o)
    count = lambda s: sum(1 for o in obs if o['status'] == s)
    undec = [o for o in obs if o['status'] == 'undecided']
    floor = rules.FLOOR.get(prop, 1)
    gaveup = any(o['status'] == 'undecided' and ('gave up' in o['obligation'] or 'time limit' in o['obligation'] or str(o.get('detail')).startswith('process:')) for o in obs)
    if len(obs) < floor and not gaveup:
        bad.append({'obligation': 'coverage: %d obligations, at least %d expected' % (len(obs), floor), 'status': 'missing', 'where': '', 'detail': '', 'witness': None})
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': rules.EXPLAIN.get(prop, ''),
            'obligations': len(obs), 'discharged': count('proved'), 'undecided': len(undec), 'violated': len(bad),
            'functions_analysed': len(an), 'functions': an[:200],
            'entry_summaries': [list(x) for r in res for x in r[4]][:400],
            'rules': [{'rule': r[0], 'obligations': len(r[1]), 'discharged': sum(1 for o in r[1] if o['status'] == 'proved'), 'seconds': round(r[5], 2)} for r in res],
            'samples': [{k: o.get(k) for k in ('obligation', 'status', 'where')} for o in obs[:30]],
            'undecided_obligations': [{'obligation': o['obligation'], 'detail': o.get('detail', '')[:400]} for o in undec[:60]],
            'notes': [x for r in res for x in r[2]][:60],
        },
        'assumptions': rules.ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': [o for o in bad][:40],
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for o in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, o['obligation']))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (prop, len(obs), count('proved'), len(undec), len(bad), time.time() - t0))
    if bad:
        rp = os.path.join(HERE, 'evidence', prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(bad, f, indent=1, default=str)
        for o in bad[:20]:
            print('  violated: %s\n    at %s\n    %s\n    witness: %s' % (o['obligation'], o.get('where'), str(o.get('detail'))[:500], str(o.get('witness'))[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


if __name__ == '__main__':
    main()
