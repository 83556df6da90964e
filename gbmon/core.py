"""Runner of the monitors: cases in parallel, verdicts, replay files, evidence.

A check is a set of *cases*. Each case is a function of a random generator: it drives the real code and
watches it with an oracle. A case ends in one of three ways: quiet (held), Violation (or an exception that
came out of the code under test), or HarnessError (inconclusive: neither held nor violated).
"""

import hashlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GBMON_REPO', '/repo')
EVIDENCE = os.environ.get('GBMON_EVIDENCE', os.path.join(VERIF, 'evidence'))
FINDINGS = os.path.join(VERIF, 'known_findings.txt')

# the numbers of cases of the quick checks are multiplied by this
QUICK_SCALE = int(os.environ.get('GBMON_SCALE', '6'))

# and those of the checks whose cases are short by these too, so that all of them take some seconds
MORE = {'K01': 10, 'K02': 10, 'K03': 10, 'K04': 10, 'K05': 5, 'K06': 8, 'K07': 3, 'N01': 12, 'N02': 12, 'N03': 12,
        'S02': 10, 'S03': 8, 'S04': 20, 'S05': 6, 'S06': 6, 'H09': 4, 'H14': 10, 'H16': 8, 'H18': 8, 'H19': 8,
        'H21': 8, 'B01': 2, 'B02': 2, 'T02': 8, 'H04': 2, 'H05': 2, 'H06': 2, 'H12': 2}

# CPU time one case may take before it counts as not completing (they take milliseconds to a few seconds)
CASE_CPU_LIMIT = 200


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, msg, witness=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.witness = witness


class HarnessError(Exception):
    """The monitor itself could not do its work: inconclusive."""


# what monitors raise when they are given something of another kind than what is promised
UNUSABLE = (TypeError, ValueError, LookupError, AttributeError, StopIteration)


class DidNotComplete(BaseException):
    """CPU limit of a case."""


def setup_imports():
    """Makes `import gb` the package in the working tree of REPO."""
    sys.dont_write_bytecode = True
    sys.path = [REPO] + [p for p in sys.path if p != REPO]
    import gb
    where = os.path.realpath(os.path.dirname(gb.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'gb')):
        raise HarnessError('gb was imported from %s' % where)


class Obs(object):
    """What one case observed."""

    def __init__(self):
        self.counts = {}
        self.distinct = set()
        self.trace = []
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, thing):
        """A distinct thing that was observed (a state, an input, an interleaving...)."""
        self.distinct.add(hashlib.blake2b(repr(thing).encode('utf-8', 'surrogatepass'), digest_size=8).digest())

    def log(self, *what):
        self.trace.append(what)


class Scratch(object):
    """A scratch directory (in memory if possible), removed at the end."""

    def __init__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix='gbmon_', dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def scratch():
    return Scratch()


def clip(x, n=4000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '... (%d characters)' % len(s)


def product_exception(e, tb):
    """Did this exception come out of the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    frames = traceback.extract_tb(tb)
    return any(os.path.realpath(f.filename).startswith(root) for f in frames)


def on_cpu_limit(_signum, _frame):
    raise DidNotComplete()


def run_case(check, kind, seed, params):
    """Runs one case in this process. Returns a picklable result."""
    rng = random.Random('%s|%s|%s' % (check.property, kind, seed))
    obs = Obs()
    res = {'kind': kind, 'seed': seed, 'params': params, 'violation': None, 'error': None}
    old_out = sys.stdout
    sys.stdout = io.StringIO()
    old_handler = signal.signal(signal.SIGPROF, on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    t0 = time.process_time()
    try:
        try:
            check.kinds[kind].fun(rng, obs, params)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as v:
        res['violation'] = v.msg
        res['witness'] = clip(v.witness) if v.witness is not None else None
    except DidNotComplete:
        res['violation'] = 'did not complete: more than %s s of CPU time in one case' % CASE_CPU_LIMIT
    except HarnessError as e:
        res['error'] = '%s\n%s' % (e, traceback.format_exc())
    except (MemoryError, KeyboardInterrupt) as e:
        res['error'] = repr(e)
    except BaseException as e:
        tb = traceback.format_exc()
        if product_exception(e, e.__traceback__):
            res['violation'] = 'unexpected exception: %r' % (e,)
            res['witness'] = clip(tb[-3000:])
        elif isinstance(e, UNUSABLE):
            # the monitors only take answers apart that are of the promised form
            res['violation'] = 'an answer that cannot be used: %r' % (e,)
            res['witness'] = clip(tb[-3000:])
        else:
            res['error'] = tb
    finally:
        sys.stdout = old_out
        signal.signal(signal.SIGPROF, old_handler)
    res['cpu'] = time.process_time() - t0
    res['counts'] = obs.counts
    res['distinct'] = obs.distinct
    res['sample'] = clip(obs.sample, 1500) if obs.sample is not None else None
    if res['violation'] or res['error']:
        res['trace'] = [clip(t, 600) for t in obs.trace[-400:]]
    return res


class Kind(object):
    """A kind of case: fun(rng, obs, params), and how many per tier."""

    def __init__(self, fun, quick, thorough, what, params=None):
        self.fun = fun
        self.quick = quick
        self.thorough = thorough
        self.what = what
        self.params = params


class Check(object):
    """All the cases that decide one property."""

    def __init__(self, prop, rule, level='exploration', assumptions=(), need=()):
        self.property = prop
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.need = list(need)     # counters that must not be zero: the monitor was reached
        self.kinds = {}
        self.exhaustive = False

    def kind(self, name, quick, thorough, what):
        def deco(fun):
            more = MORE.get(self.property, 1)
            self.kinds[name] = Kind(fun, min(quick * QUICK_SCALE, thorough) * more, thorough * more, what)
            return fun
        return deco


CHECKS = {}


def register(check):
    CHECKS[check.property] = check
    return check


_current = None


_deadline = None


def _job(args):
    kind, seed, params = args
    if time.time() > _deadline:
        return None
    return run_case(_current, kind, seed, params)


def known_findings(prop):
    """Lines `property=<id> key=<mechanism> <text>` of the known findings file (the fixed: ones suppress nothing)."""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf-8'):
            line = line.strip()
            if line.startswith('property=%s ' % prop):
                key = [w for w in line.split() if w.startswith('key=')]
                if key:
                    res.append((key[0][4:], line))
    return res


def write_replay(prop, res, tier):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s_%s.json' % (prop, res['kind'], res['seed']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'kind': res['kind'], 'seed': res['seed'],
                   'violation': res['violation'], 'witness': res.get('witness'), 'trace': res.get('trace')},
                  f, indent=1, default=repr)
    return path


def run_check(check, tier, seed, workers=None, only=None):
    """Runs a check, writes its evidence, prints its verdict. Returns the exit code."""
    global _current, _deadline
    _current = check
    t0 = time.time()
    wall_limit = 600 if tier == 'quick' else 3000
    # no further case starts after this: on a slow machine less is explored, and the evidence says how much
    soft_limit = 120 if tier == 'quick' else 1500
    _deadline = t0 + soft_limit
    workers = workers or int(os.environ.get('GBMON_WORKERS', min(8, os.cpu_count() or 1)))
    jobs = []
    for name, k in check.kinds.items():
        if only and name != only:
            continue
        n = k.quick if tier == 'quick' else k.thorough
        for i in range(n):
            jobs.append((name, '%d.%d' % (seed, i), {'i': i, 'n': n, 'tier': tier}))
    # deterministic shuffle, so that a soft limit would cut all kinds evenly
    random.Random(seed).shuffle(jobs)

    violations, errors = [], []
    counts, distinct, samples = {}, set(), []
    done = 0
    kinds_done = {}
    slowest = {}
    watchdog = False
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(workers)
    try:
        it = pool.imap_unordered(_job, jobs, 1)
        while True:
            try:
                res = it.next(timeout=max(1, wall_limit - (time.time() - t0)))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                watchdog = True
                break
            if res is None:
                continue
            done += 1
            kinds_done[res['kind']] = kinds_done.get(res['kind'], 0) + 1
            slowest[res['kind']] = max(slowest.get(res['kind'], 0), round(res['cpu'], 2))
            for name, n in res['counts'].items():
                counts[name] = counts.get(name, 0) + n
            distinct |= res['distinct']
            if res['sample'] is not None and len(samples) < 6:
                samples.append({'kind': res['kind'], 'seed': res['seed'], 'case': res['sample']})
            if res['violation']:
                violations.append(res)
                if len(violations) >= 5:
                    break
            if res['error']:
                errors.append(res)
                if len(errors) >= 40:
                    break
    finally:
        pool.terminate()
        pool.join()

    known = known_findings(check.property)
    known_hit = {}
    new = []
    for v in violations:
        hit = [k for k in known if ('[%s]' % k[0]) in v['violation']]
        if hit:
            known_hit[hit[0][1]] = known_hit.get(hit[0][1], 0) + 1
        else:
            new.append(v)

    coverage = {
        'evaluations': done,
        'distinct_nontrivial': len(distinct),
        'rule': check.rule,
        'samples': samples,
        'cases_per_kind': kinds_done,
        'slowest_case_cpu_s': slowest,
        'kinds': dict((n, k.what) for n, k in check.kinds.items()),
        'observed': dict(sorted(counts.items())),
        'cases_planned': len(jobs),
    }
    if check.exhaustive:
        coverage['exhaustive'] = done == len(jobs)
    evidence = {
        'property': check.property, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': coverage,
        'assumptions': check.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % check.property)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVIDENCE, '%s.json' % check.property))

    for key, line in known:
        print('KNOWN-FINDING: %s (seen %d times in this run)' % (line, known_hit.get(line, 0)))

    for v in new:
        path = write_replay(check.property, v, tier)
        print('%s: %s' % (v['kind'], clip(v['violation'], 1500)))
        if v.get('witness'):
            print('  witness: %s' % clip(v['witness'], 1500))
        print('VIOLATION property=%s replay=%s' % (check.property, path))
    if new:
        return 1

    for e in errors[:5]:
        print('INCONCLUSIVE: %s %s: %s' % (e['kind'], e['seed'], e['error']))
    missing = [n for n in check.need if counts.get(n, 0) == 0]
    if missing:
        print('INCONCLUSIVE: never observed: %s' % ', '.join(missing))
    if watchdog:
        print('INCONCLUSIVE: watchdog')
    if errors or missing or watchdog:
        return 3
    if not violations and len(distinct) < 2:
        print('INCONCLUSIVE: nothing observed')
        return 3
    print('HELD property=%s on %d cases, %d distinct; observed: %s; %.1f s' % (
        check.property, done, len(distinct),
        ', '.join('%s=%d' % kv for kv in sorted(counts.items())), time.time() - t0))
    return 0


def run_replay(path):
    global _current
    with open(path) as f:
        rep = json.load(f)
    check = CHECKS[rep['property']]
    _current = check
    i = int(rep['seed'].split('.')[1])
    k = check.kinds[rep['kind']]
    n = k.quick if rep['tier'] == 'quick' else k.thorough
    res = run_case(check, rep['kind'], rep['seed'], {'i': i, 'n': n, 'tier': rep['tier']})
    for t in res.get('trace') or []:
        print('  ', t)
    if res['violation']:
        print('%s\n%s' % (res['violation'], res.get('witness')))
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    if res['error']:
        print(res['error'])
        return 3
    print('quiet')
    return 0
