"""Property-based check runner on top of Hypothesis.

A check module (checks/<id>.py, '-' written '_') defines
  DRIVERS  list of driver executables it needs (built from /repo first)
  RULE     how cases are made and what makes one non-trivial
  TESTS    list of Test
Each Test has a Hypothesis strategy and a function fn(ctx, case) which raises on a
violation.  Jobs (test x shard) run in worker processes; each has its own seed derived
from VERIF_SEED, so a run is a function of the code and VERIF_SEED.
"""
import sys, os, json, time, hashlib, base64, pickle, traceback, multiprocessing, importlib, argparse

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import hypothesis
from hypothesis import settings, HealthCheck, Phase, given
import hypothesis.internal.conjecture.engine as _engine
from lib.drvclient import Driver, CppException, Crash, Hang, HarnessError

_engine.MAX_SHRINKING_SECONDS = 45
# fresh cases only: the mutator mostly repeats parts of the previous case
_engine.ConjectureRunner.generate_mutations_from = lambda self, data: None


class Violation(Exception):
    pass


class Excluded(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def equal(got, want, what):
    if got != want:
        raise Violation('%s:\n  got      %r\n  expected %r' % (what, got, want))


def lst(elements, lo, hi, avg=None):
    """A list strategy with the given average length (Hypothesis keeps lists short by default)."""
    from hypothesis import strategies as st
    s = st.lists(elements, min_size=lo, max_size=hi)
    s.wrapped_strategy.average_size = avg if avg is not None else lo + (hi - lo) * 0.75
    return s


class Test:
    def __init__(self, name, strategy, fn, quick=200, thorough=None, explicit=(), shards=8):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 30
        self.explicit, self.shards = list(explicit), shards


class Ctx:
    def __init__(self, drivers=None, known=()):
        self.drivers = {} if drivers is None else drivers
        self.known_ids = set(known)     # findings whose inputs are left out of the search
        self.reset()

    def reset(self):
        self.is_nontrivial = False
        self.events = []

    def drv(self, name, **kw):
        key = (name, repr(sorted(kw.items())))
        if key not in self.drivers:
            self.drivers[key] = Driver(name, **kw)
        return self.drivers[key]

    def call(self, name, *args):
        return self.drv(name).call(*args)

    def v(self, name, cmd, value):
        return self.drv(name).v(cmd, value)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def event(self, *names):
        self.events.extend(names)

    def exclude(self, finding, cond=True):
        """The case is an instance of a recorded finding: leave it out of the search."""
        if cond and finding in self.known_ids:
            self.events.append('excluded:' + finding)
            raise Excluded()

    def close(self):
        for d in self.drivers.values():
            d.stop()
        self.drivers.clear()


def case_hash(case):
    return hashlib.sha1(repr(case).encode('utf-8', 'surrogatepass')).digest()[:8]


def run_case(test, ctx, case):
    """Returns None or a failure message."""
    ctx.reset()
    try:
        test.fn(ctx, case)
    except Excluded:
        return None
    except HarnessError:
        raise
    except (Violation, Crash, Hang) as e:
        return '%s: %s' % (type(e).__name__, e)
    except hypothesis.errors.UnsatisfiedAssumption:
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return 'unexpected %s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    return None


class _Fail(Exception):
    pass


class _Stop(Exception):
    pass


_G = {}


def _job(args):
    mod, tname, shard, n, seed, deadline, known = args
    try:
        return _job2(mod, tname, shard, n, seed, deadline, known)
    except BaseException as e:
        return {'test': tname, 'shard': shard, 'error': traceback.format_exc()}


def _job2(mod, tname, shard, n, seed, deadline, known):
    stop = _G['stop']
    m = importlib.import_module(mod)
    test = [t for t in m.TESTS if t.name == tname][0]
    drivers = _G.setdefault('drivers', {})
    ctx = Ctx(drivers, known)
    st = {'evals': 0, 'nt': set(), 'seen': set(), 'events': {}, 'samples': {}, 'fail': None, 'skipped': 0, 'excluded': 0,
          'shrink': False}

    def one(case):
        if st['fail'] is None and (stop.is_set() or time.time() > deadline):
            st['skipped'] += 1
            return
        if st['fail'] is not None and (st['fail'][1].startswith('Hang') or time.time() > st['first'] + 60):
            return          # each run of a hang takes its whole limit, so it is not shrunk
        msg = run_case(test, ctx, case)
        if st['fail'] is None:
            h = case_hash(case)
            st['evals'] += 1
            for e in set(ctx.events):
                st['events'][e] = st['events'].get(e, 0) + 1
            if any(e.startswith('excluded:') for e in ctx.events):
                st['excluded'] += 1
            elif ctx.is_nontrivial and h not in st['nt']:
                st['nt'].add(h)
                if len(st['samples']) < 4 or h < max(st['samples']):
                    st['samples'][h] = repr(case)[:700]
                    if len(st['samples']) > 4:
                        del st['samples'][max(st['samples'])]
        if msg is not None:
            st['fail'] = (case, msg)
            st.setdefault('first', time.time())
            raise _Fail(msg)

    try:
        if shard == 0:
            for c in test.explicit:
                one(c)
        prop = given(test.strategy)(one)
        prop = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink))(prop)
        prop = hypothesis.seed(seed)(prop)
        prop()
    except HarnessError:
        raise
    except BaseException as e:
        if st['fail'] is None:
            raise
    out = {'test': tname, 'shard': shard, 'evals': st['evals'], 'nt': list(st['nt']), 'events': st['events'],
           'samples': list(st['samples'].values()), 'skipped': st['skipped'], 'excluded': st['excluded'], 'fail': None}
    if st['fail']:
        case, msg = st['fail']
        ctx.close()
        # replay 3x with fresh drivers before it counts
        oks, msgs = 0, []
        for _ in range(3):
            c2 = Ctx({}, known)
            r = run_case(test, c2, case)
            c2.close()
            if r is not None:
                oks += 1
                msgs.append(r)
        if oks == 3:
            stop.set()
        out['fail'] = {'case': base64.b64encode(pickle.dumps(case)).decode(), 'repr': repr(case), 'msg': (msgs or [msg])[-1],
                       'confirmed': oks}
    return out


def _init(stop):
    _G['stop'] = stop
    import warnings
    warnings.simplefilter('ignore')


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:7], 'big')


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--nobuild', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()
    mod = 'checks.' + pid.replace('-', '_')
    m = importlib.import_module(mod)
    if not a.nobuild:
        from lib import build
        if not build.build(m.DRIVERS):
            print('ERROR: the drivers do not build')
            return 3
    if hasattr(m, 'prepare'):
        m.prepare()
    build_s = time.time() - t0
    tests = [t for t in m.TESTS if not a.only or t.name in a.only.split(',')]
    byname = {t.name: t for t in m.TESTS}
    if a.replay:
        r = json.load(open(a.replay))
        case = pickle.loads(base64.b64decode(r['case']))
        ctx = Ctx()
        msg = run_case(byname[r['test']], ctx, case)
        ctx.close()
        print('case:', repr(case)[:3000])
        print('result:', msg or 'holds')
        return 1 if msg else 0

    known = [k for k in load_known() if k.get('status') == 'open' and k['property'] == pid]
    known_ids = [k['id'] for k in known]
    for k in known:
        ctx = Ctx()
        msg = run_case(byname[k['test']], ctx, eval(k['case'], {}))
        ctx.close()
        if msg is not None:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']), flush=True)

    quick = a.tier != 'thorough'
    cap = 240 if quick else 780
    deadline = time.time() + cap
    jobs = []
    for t in tests:
        n = int((t.quick if quick else t.thorough) * a.scale)
        per = max(1, -(-n // t.shards))
        for s in range(min(t.shards, max(1, n))):
            jobs.append((mod, t.name, s, per, seed_of(a.seed, pid, t.name, s), deadline, known_ids))
    jobs.sort(key=lambda j: (j[2], j[1]))
    mp = multiprocessing.get_context('fork')
    stop = mp.Event()
    res = []
    with mp.Pool(min(a.jobs, max(1, len(jobs))), _init, (stop,)) as pool:
        for r in pool.imap_unordered(_job, jobs):
            res.append(r)
    errors = [r for r in res if 'error' in r]
    res = [r for r in res if 'error' not in r]
    nt, events, samples, per_test = set(), {}, [], {}
    evals = skipped = excluded = 0
    fails = []
    flaky = 0
    for r in res:
        nt.update((r['test'].encode() + h) for h in r['nt'])
        evals += r['evals']
        skipped += r['skipped']
        excluded += r['excluded']
        pt = per_test.setdefault(r['test'], {'evaluations': 0, 'nontrivial': 0, 'events': {}, 'samples': []})
        pt['evaluations'] += r['evals']
        pt['nontrivial'] += len(r['nt'])
        pt['samples'] += r['samples']
        for e, c in r['events'].items():
            pt['events'][e] = pt['events'].get(e, 0) + c
        if r['fail']:
            if r['fail']['confirmed'] == 3:
                fails.append(r)
            else:
                flaky += 1
                print('note: unconfirmed failure (%d/3) in %s: %s' % (r['fail']['confirmed'], r['test'], r['fail']['msg'][:400]))
    nper = max(1, 8 // max(1, len(per_test)))
    for tn in sorted(per_test):
        for s in sorted(per_test[tn].pop('samples'))[:nper]:
            samples.append({'test': tn, 'case': s})
    level = getattr(m, 'LEVEL', 'exploration')
    ev = {'property': pid, 'tier': 'quick' if quick else 'thorough', 'seed': a.seed, 'level': level,
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(nt), 'rule': m.RULE, 'samples': samples[:12],
                       'per_test': per_test, 'skipped_for_time': skipped, 'excluded_known_findings': excluded,
                       'unconfirmed_failures': flaky},
          'assumptions': getattr(m, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 1), 'build_s': round(build_s, 1), 'violations': len(fails)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if fails:
        fails.sort(key=lambda r: (len(r['fail']['repr']), r['fail']['repr']))
        r = fails[0]
        os.makedirs(os.path.join(HERE, 'build', 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'build', 'replay', '%s-%s.json' % (pid, r['test']))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'test': r['test'], 'case': r['fail']['case'], 'repr': r['fail']['repr'],
                       'msg': r['fail']['msg'],
                       'replay_cmd': 'python3-vt lib/pbt.py %s --replay %s' % (pid, path)}, f, indent=1)
        print('test %s, minimal failing case:\n%s' % (r['test'], r['fail']['repr'][:3000]))
        print(r['fail']['msg'][:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    if errors:
        print('ERROR in the harness:')
        for e in errors[:2]:
            print(e['test'], e['error'][-3000:])
        return 2
    print('%s: held on %d cases (%d distinct non-trivial), %d skipped, %d excluded, %.0f s (build %.0f s)' % (
        pid, evals, len(nt), skipped, excluded, time.time() - t0, build_s))
    return 0


if __name__ == '__main__':
    # run as module object shared with the checks ('lib.pbt', not '__main__')
    import lib.pbt as _p
    sys.exit(_p.main())
