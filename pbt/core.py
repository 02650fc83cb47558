"""
Runner: decides one property by generated-input search.

    python -m pbt.core C01                  (VERIF_SEED, VERIF_TIER)
    python -m pbt.core C01 --replay FILE    re-run one saved case, no Hypothesis

A property is a set of *laws*.  A law is a Hypothesis strategy that produces a
JSON-able case and a function that drives the code in /repo with that case and
raises `Violation` when an explicit oracle disagrees.  Every random choice is in
the case, so a case is a complete reproduction.
"""
import math
import sys
import os
import json
import time
import hashlib
import traceback
import importlib
import multiprocessing as mp
import signal
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSM_REPO', '/repo')
CPU_LIMIT_PER_CASE = 120.   # CPU seconds; a case normally takes milliseconds
SHRINK_WALL = 30.           # stop shrinking after that; the best case is kept
QUICK_WALL = 420.           # quick tier: no new cases after that (a slow machine explores less, and says so)
STOP_AT = None

LAWS = {}                   # property -> [Law]


class Violation(Exception):
    """The oracle disagrees with the code."""


class HarnessError(Exception):
    """The check itself is broken: exit code 2, never a VIOLATION."""


class Hang(Exception):
    """A single case used CPU_LIMIT_PER_CASE seconds of CPU time."""


class StopShrinking(BaseException):
    """Ends Hypothesis' generation or shrinking when its time is up."""


class Rec:
    """Collects what one case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def hit(self, cond=True):
        """Declare the case non-trivial by the law's rule."""
        if cond:
            self.nontrivial = True


class Law:
    def __init__(self, prop, fn, strategy, quick, thorough, rule, examples, shards):
        self.prop, self.fn, self.strategy = prop, fn, strategy
        self.name = fn.__name__
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.examples, self.shards = examples, shards


def law(prop, strategy, quick, thorough=None, rule='', examples=(), shards=None):
    """Register a law.  `strategy` is a zero-argument callable."""
    def deco(fn):
        props = prop if isinstance(prop, (tuple, list)) else [prop]
        for p in props:
            LAWS.setdefault(p, []).append(
                Law(p, fn, strategy, quick, thorough or 25*quick, rule, list(examples), shards))
        return fn
    return deco


def require(cond, msg):
    """Raise a Violation unless cond. msg may be a callable."""
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _frames_in_repo(tb):
    root = os.path.join(REPO, 'vspec_vsm') + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def evaluate(law_, case):
    """Run one case. Returns Rec; raises Violation or HarnessError."""
    rec = Rec()

    def on_alarm(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_PER_CASE)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            law_.fn(case, rec)
    except (Violation, HarnessError, StopShrinking):
        raise
    except Hang:
        raise Violation(f'the code did not finish within {CPU_LIMIT_PER_CASE:.0f} s of CPU time '
                        'on a case that normally takes well under a second')
    except Exception as e:  # noqa
        if _frames_in_repo(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb
                     if f.filename.startswith(REPO)]
            raise Violation(f'the code raised {type(e).__name__}: {e} (in {" > ".join(where)}) '
                            'on a valid input') from e
        if isinstance(e, AttributeError) and type(getattr(e, 'obj', None)).__module__.split('.')[0] == 'vspec_vsm':
            raise Violation(f'{e}') from e
        raise HarnessError(''.join(traceback.format_exception(e))) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return rec


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:12]


QUICK_SCALE = 4


def register_uniform():
    """A Hypothesis backend that draws bounded numbers uniformly (Hypothesis' own draws favour simple values).

    Failures found with it are replayed and shrunk by Hypothesis as usual."""
    from hypothesis.internal.conjecture import providers

    class Uniform(providers.HypothesisProvider):
        def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
            if min_value is None or max_value is None or weights is not None or self._random.random() < 0.04:
                return super().draw_integer(min_value, max_value, weights=weights, shrink_towards=shrink_towards)
            return self._random.randint(min_value, max_value)

        def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude):
            if math.isinf(min_value) or math.isinf(max_value) or self._random.random() < 0.06:
                return super().draw_float(min_value=min_value, max_value=max_value, allow_nan=allow_nan,
                                          smallest_nonzero_magnitude=smallest_nonzero_magnitude)
            v = min(max_value, max(min_value, self._random.uniform(min_value, max_value)))
            return v if v == 0 or abs(v) >= smallest_nonzero_magnitude else super().draw_float(
                min_value=min_value, max_value=max_value, allow_nan=allow_nan,
                smallest_nonzero_magnitude=smallest_nonzero_magnitude)
    providers.AVAILABLE_PROVIDERS['uniform'] = Uniform


def run_shard(task):
    """Run one law for one shard in this process; returns a plain dict."""
    prop, law_index, shard, n_shards, n, seed = task
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    from hypothesis.errors import HypothesisException
    law_ = LAWS[prop][law_index]
    out = dict(law=law_.name, evaluations=0, digests=set(), labels={}, samples=[],
               violation=None, error=None, wall=0.)
    best = {}
    t_fail = [None]
    t0 = time.time()

    def one(case):
        if STOP_AT is not None and t_fail[0] is None and time.time() > STOP_AT:
            raise StopShrinking()
        out['evaluations'] += 1
        if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_WALL:
            raise StopShrinking()
        try:
            rec = evaluate(law_, case)
        except Violation as v:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            size = len(json.dumps(case))
            if not best or size <= best['size']:
                best.update(case=case, msg=str(v), size=size)
            raise
        if t_fail[0] is None:
            for lab in rec.labels:
                out['labels'][lab] = out['labels'].get(lab, 0) + 1
            if rec.nontrivial:
                d = digest(case)
                if d not in out['digests']:
                    out['digests'].add(d)
                    if len(out['samples']) < 1:
                        out['samples'].append(case)
    try:
        if shard == 0:
            for case in law_.examples:
                one(case)
        register_uniform()
        for backend, k in (('uniform', n - n//3), ('hypothesis', n//3)):
            if not k:
                continue
            h = int.from_bytes(hashlib.sha1(
                f'{seed}/{prop}/{law_.name}/{shard}/{backend}'.encode()).digest()[:8], 'big')
            test = given(law_.strategy())(one)
            test = settings(max_examples=k, database=None, deadline=None, backend=backend,
                            phases=[Phase.generate, Phase.shrink],
                            report_multiple_bugs=False, print_blob=False,
                            suppress_health_check=list(HealthCheck))(test)
            test = hseed(h)(test)
            test()
    except Violation as v:
        pass
    except StopShrinking:
        pass
    except HarnessError as e:
        out['error'] = str(e)
    except HypothesisException as e:
        if not best:
            out['error'] = ''.join(traceback.format_exception(e))
    except BaseException as e:  # noqa
        if not best:
            out['error'] = ''.join(traceback.format_exception(e))
    if best:
        out['violation'] = dict(case=best['case'], msg=best['msg'])
    out['wall'] = time.time() - t0
    return out


def load_laws():
    import numpy as np
    np.seterr(all='ignore')
    for m in ('spots', 'faculae', 'grids', 'coverage', 'transit', 'flares', 'generators',
              'granulation', 'history', 'more'):
        importlib.import_module(f'pbt.laws_{m}')


def write_replay(prop, law_name, case, msg, seed):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = f'{prop}-{law_name}-{hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(dict(property=prop, law=law_name, seed=seed, message=msg, case=case), f, indent=1)
    return path


def check_imports():
    # the code under test is always compiled from source, never from a stale .pyc
    import numpy, astropy.units, astropy.constants, jax, jax.experimental, tinygp  # noqa
    sys.pycache_prefix = '/nonexistent-pycache'
    import vspec_vsm
    sys.pycache_prefix = None
    where = os.path.dirname(os.path.abspath(vspec_vsm.__file__))
    if where != os.path.join(REPO, 'vspec_vsm'):
        raise HarnessError(f'vspec_vsm imported from {where}, expected {REPO}')


def main(argv):
    prop = argv[0]
    if prop == '--list':
        load_laws()
        for p in sorted(LAWS):
            print(p, [(l.name, l.quick, l.thorough) for l in LAWS[p]])
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    check_imports()
    load_laws()
    if '--replay' in argv:
        path = argv[argv.index('--replay') + 1]
        with open(path) as f:
            rep = json.load(f)
        law_ = next(l for l in LAWS[rep['property']] if l.name == rep['law'])
        try:
            evaluate(law_, rep['case'])
        except Violation as v:
            print(v)
            print(f'VIOLATION property={rep["property"]} replay={path}')
            return 1
        print('the saved case passes')
        return 0
    only = os.environ.get('VERIF_LAW')
    laws = LAWS[prop]
    cpus = min(8, os.cpu_count() or 1)
    tasks = []
    for i, l in enumerate(laws):
        if only and l.name != only:
            continue
        n = QUICK_SCALE*l.quick if tier == 'quick' else max(l.thorough, QUICK_SCALE*l.quick)
        shards = l.shards or max(1, min(8, n // 10))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            if k:
                tasks.append((prop, i, s, shards, k, seed))
    # every law gets its first share before any gets its second
    tasks.sort(key=lambda t: (t[2], t[1]))
    global STOP_AT
    if tier == 'quick':
        STOP_AT = t0 + QUICK_WALL
    ctx = mp.get_context('fork')
    results = []
    stop = False
    with ctx.Pool(cpus, maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(run_shard, tasks, chunksize=1):
            results.append(r)
            if r['violation'] is not None and not stop:
                stop = True
                break
        pool.terminate()
    # one violation per law is enough; keep the smallest
    violations = {}
    errors = []
    agg = {}
    for r in results:
        a = agg.setdefault(r['law'], dict(evaluations=0, digests=set(), labels={}, samples=[], wall_s=0.))
        a['evaluations'] += r['evaluations']
        a['digests'] |= r['digests']
        a['wall_s'] += r['wall']
        a['samples'] += r['samples']
        for k, v in r['labels'].items():
            a['labels'][k] = a['labels'].get(k, 0) + v
        if r['violation']:
            violations.setdefault(r['law'], []).append(r['violation'])
        if r['error']:
            errors.append((r['law'], r['error']))
    lawinfo = {l.name: l for l in laws}
    cov_laws = {}
    samples = []
    for name, a in sorted(agg.items()):
        cov_laws[name] = dict(evaluations=a['evaluations'], distinct_nontrivial=len(a['digests']),
                              nontrivial_rule=lawinfo[name].rule, labels=dict(sorted(a['labels'].items())),
                              cpu_s=round(a['wall_s'], 2))
        for s in a['samples'][:2]:
            samples.append(dict(law=name, case=s))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(a['evaluations'] for a in agg.values()),
            distinct_nontrivial=sum(len(a['digests']) for a in agg.values()),
            rule='Hypothesis generates JSON cases per law; a case counts as non-trivial when, while running, '
                 'it met the law\'s own rule: ' + '; '.join(
                     f'{l.name}: {l.rule}' for l in laws if l.name in agg),
            samples=samples,
            laws=cov_laws),
        assumptions=['numpy, astropy, scipy, jax and tinygp compute what they document',
                     'the oracle in /verif/pbt is right within the stated tolerances'],
        wall_s=round(time.time() - t0, 2),
        violations=sum(len(v) for v in violations.values()))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if violations:
        for name, vs in sorted(violations.items()):
            v = min(vs, key=lambda v: len(json.dumps(v['case'])))
            path = write_replay(prop, name, v['case'], v['msg'], seed)
            print(f'{prop}/{name}: {v["msg"]}')
            print(f'  case: {json.dumps(v["case"])[:1500]}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for name, e in errors[:1]:
            print(f'HARNESS-ERROR {prop}/{name}\n{e}', file=sys.stderr)
        return 2
    c = evidence['coverage']
    print(f'{prop}: held on {c["evaluations"]} cases ({c["distinct_nontrivial"]} distinct non-trivial) '
          f'in {evidence["wall_s"]:.1f} s, seed {seed}, {tier}')
    return 0


if __name__ == '__main__':
    # make `pbt.core` and `__main__` the same module, so laws register here
    sys.modules['pbt.core'] = sys.modules['__main__']
    try:
        rc = main(sys.argv[1:])
    except HarnessError as e:
        print(e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
