"""Shared machinery of the checks: generated-input search, shrinking, replay files and evidence.

A check is a list of `Sub` objects.  Each has a generator producing a *JSON-able* case and a function `fn(case, rec)` which
drives the real code from /repo with that case and asserts the property against an oracle.  A failing case is shrunk
(engine.py) and written as a plain JSON replay file, which `run PROP --replay FILE` re-runs.  Every random choice comes from
a seed which is a pure function of VERIF_SEED.
"""
import contextlib
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class HarnessError(BaseException):
    """Something is wrong with the check itself: an error exit, never a VIOLATION."""


class Violation(AssertionError):
    pass


def setup_path():
    """/repo first, whatever else is installed."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def jdefault(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=str)
    if isinstance(o, tuple):
        return list(o)
    return repr(o)


def canon(case):
    return json.dumps(case, sort_keys=True, default=jdefault)


class Rec:
    """Per-case recorder: labels, the non-triviality verdict, known findings met."""

    def __init__(self):
        self.labels = []
        self.nt = False
        self.known = []

    def label(self, *names):
        self.labels.extend(n for n in names if n)

    def nontrivial(self, yes=True):
        self.nt = self.nt or bool(yes)


class Sub:
    def __init__(self, name, strategy, fn, quick=200, thorough=2000, shards=1, rule='', must_label=()):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.rule, self.must_label = rule, tuple(must_label)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def check_eq(got, want, what=''):
    if got != want:
        raise Violation('{}: got {!r}, expected {!r}'.format(what, got, want))


def close(a, b, rtol=1e-9, atol=0.0):
    """Scalar closeness which also treats equal infinities / both-NaN as close."""
    import math
    a, b = float(a), float(b)
    if a == b or (math.isnan(a) and math.isnan(b)):
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def check_close(got, want, what='', rtol=1e-9, atol=0.0):
    import numpy as np
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation('{}: shape {} instead of {}'.format(what, g.shape, w.shape))
    for i, (x, y) in enumerate(zip(g.ravel(), w.ravel())):
        if not close(x, y, rtol, atol):
            raise Violation('{}[{}]: got {!r}, expected {!r}'.format(what, i, float(x), float(y)))


def raises(exc, fn, *args, **kwargs):
    """True iff fn raises one of exc; any other exception propagates (and is a failure of the property)."""
    try:
        fn(*args, **kwargs)
    except exc:
        return True
    return False


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


class ShardResult(dict):
    pass


def scratch_dir(tag='case'):
    import tempfile
    return tempfile.mkdtemp(prefix=tag + '-', dir=os.environ['VERIF_SCRATCH'])


def private_home():
    """A home directory (with a configuration) for this process alone; before anything of pygmo_fwork is imported."""
    home = os.path.join(os.environ['VERIF_SCRATCH'], 'home-{}'.format(os.getpid()))
    os.makedirs(home, exist_ok=True)
    with open(os.path.join(home, '.pygmofwork'), 'w') as f:
        f.write('workspace: {}\n'.format(os.path.join(home, 'workspace')))
    os.environ['HOME'] = home


def run_shard(prop, sub, shard, n, seed, budget_s, shrink_s):
    """n generated cases of one sub-check; each is a pure function of (seed, its number)."""
    import io
    import random
    from contextlib import redirect_stdout, redirect_stderr
    import engine
    warnings.simplefilter('ignore')
    t0 = time.monotonic()
    st = {'evaluations': 0, 'labels': {}, 'nt': set(), 'samples': [], 'known': set(), 'fail': None, 'cut': False}
    fail, err = None, None

    def run(case, rec):
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
            sub.fn(case, rec)

    def failing(case):
        try:
            run(case, Rec())
        except Exception:
            return True
        return False

    try:
        for k in range(n):
            if time.monotonic() - t0 > budget_s:
                st['cut'] = True
                break
            case, made = engine.generate(sub.strategy, rng=random.Random(derive_seed(seed, k)))
            text = canon(case)
            case = json.loads(text)  # exactly what a replay file would give
            rec = Rec()
            try:
                run(case, rec)
            except Exception:
                made = engine.shrink(sub.strategy, made, lambda c: failing(json.loads(canon(c))), shrink_s)
                small = json.loads(canon(engine.generate(sub.strategy, given=made)[0]))
                try:
                    run(small, Rec())
                    small, tb = case, traceback.format_exc()  # not reproducible when run again: report the original
                except Exception:
                    tb = traceback.format_exc()
                fail = {'case': small, 'tb': tb}
                break
            st['evaluations'] += 1
            for lb in rec.labels:
                st['labels'][lb] = st['labels'].get(lb, 0) + 1
            st['known'].update(rec.known)
            if rec.nt:
                h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
                if h not in st['nt']:
                    st['nt'].add(h)
                    if len(st['samples']) < 2 and len(text) < 6000:
                        st['samples'].append(case)
    except (HarnessError, Exception):
        err = traceback.format_exc()
    st['nt'] = sorted(st['nt'])
    st['known'] = sorted(st['known'])
    st['seconds'] = time.monotonic() - t0
    return {'sub': sub.name, 'shard': shard, 'stats': st, 'fail': fail, 'error': err}


_MOD = None


def _worker(args):
    prop, sub_name, shard, n, seed, budget_s, shrink_s = args
    sub = [s for s in _MOD.SUBS if s.name == sub_name][0]
    private_home()
    try:
        return run_shard(prop, sub, shard, n, seed, budget_s, shrink_s)
    except BaseException:
        return {'sub': sub_name, 'shard': shard, 'error': traceback.format_exc(), 'fail': None, 'stats': None}


def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.txt')
    out = {}
    if os.path.isfile(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d['property'] == prop:
                        out[d['key']] = d
    return out


def write_replay(prop, sub_name, case, tb):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'sub': sub_name, 'case': case, 'traceback': tb}
    h = hashlib.blake2b(canon([sub_name, case]).encode(), digest_size=6).hexdigest()
    path = os.path.join(d, '{}-{}-{}.json'.format(prop, sub_name, h))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True, default=jdefault)
    return path


def write_evidence(prop, body):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.{}.tmp'.format(prop))
    with open(tmp, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True, default=jdefault)
    os.replace(tmp, os.path.join(d, prop + '.json'))


def main(argv):
    global _MOD
    setup_path()
    prop = argv[0]
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    try:
        _MOD = importlib.import_module('checks.' + prop.lower())
    except BaseException:
        traceback.print_exc()
        return 2
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(prop, argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = os.environ.get('VERIF_ONLY')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    t0 = time.monotonic()
    jobs = []
    for sub in _MOD.SUBS:
        if only and sub.name not in only.split(','):
            continue
        total = int((sub.quick if tier == 'quick' else sub.thorough) * scale)
        shards = sub.shards if tier == 'quick' else max(sub.shards, min(16, total // 400 or 1))
        shards = max(1, min(shards, total))
        for k in range(shards):
            n = max(1, total // shards)
            jobs.append((prop, sub.name, k, n, derive_seed(seed, prop, sub.name, k),
                         240 if tier == 'quick' else 3000, 30 if tier == 'quick' else 180))
    # the regression corpus: saved cases which once failed (before a repair, or under a planted bug); plain JSON
    results = []
    with multiprocessing.get_context('fork').Pool(1) as pool:  # in a process of its own, which the others do not inherit
        reg = pool.apply(run_regressions, (prop,))
    if reg is not None:
        results.append(reg)
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    with multiprocessing.get_context('fork').Pool(min(nproc, len(jobs)), maxtasksperchild=1) as pool:
        results += pool.map(_worker, jobs, chunksize=1)
    return report(prop, tier, seed, results, time.monotonic() - t0)


def run_regressions(prop):
    d = os.path.join(ROOT, 'regressions', prop)
    if not os.path.isdir(d) or os.environ.get('VERIF_ONLY'):
        return None
    st = {'evaluations': 0, 'labels': {}, 'nt': [], 'samples': [], 'known': set(), 'cut': False, 'seconds': 0.0}
    fail = None
    subs = {s.name: s for s in _MOD.SUBS}
    private_home()
    for name in sorted(os.listdir(d)):
        with open(os.path.join(d, name)) as f:
            body = json.load(f)
        rec = Rec()
        st['evaluations'] += 1
        try:
            import io
            from contextlib import redirect_stdout
            with redirect_stdout(io.StringIO()):
                subs[body['sub']].fn(body['case'], rec)
        except Exception:
            if fail is None:
                fail = {'case': body['case'], 'tb': traceback.format_exc(), 'sub': body['sub']}
        st['known'].update(rec.known)
    st['known'] = sorted(st['known'])
    return {'sub': 'saved-cases', 'shard': 0, 'stats': st, 'fail': fail, 'error': None}


def replay(prop, path):
    with open(path) as f:
        body = json.load(f)
    sub = [s for s in _MOD.SUBS if s.name == body['sub']][0]
    warnings.simplefilter('ignore')
    private_home()
    try:
        sub.fn(body['case'], Rec())
    except Exception:
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    print('replay passes')
    return 0


def report(prop, tier, seed, results, wall):
    known = load_known(prop)
    errors = [r for r in results if r['error']]
    fails = [r for r in results if r['fail']]
    evaluations, labels, nt, samples, per_sub, met, cut = 0, {}, 0, [], {}, set(), []
    ntsets = {}
    for r in results:
        s = r['stats']
        if not s:
            continue
        evaluations += s['evaluations']
        ntsets.setdefault(r['sub'], set()).update(s['nt'])
        ps = per_sub.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': 0, 'labels': {}, 'cpu_s': 0.0})
        ps['evaluations'] += s['evaluations']
        ps['cpu_s'] = round(ps['cpu_s'] + s['seconds'], 2)
        for k, v in s['labels'].items():
            ps['labels'][k] = ps['labels'].get(k, 0) + v
        if r['shard'] == 0:
            samples += [{'sub': r['sub'], 'case': c} for c in s['samples'][:1]]
        met.update(s['known'])
        if s['cut']:
            cut.append('{}#{}'.format(r['sub'], r['shard']))
    for k, v in ntsets.items():
        per_sub[k]['distinct_nontrivial'] = len(v)
        nt += len(v)
    rules = ['{}: {}'.format(s.name, s.rule) for s in _MOD.SUBS if s.rule]
    rc = 0
    lines = []
    unknown = sorted(met - set(known))
    for k in sorted(known):
        lines.append('KNOWN-FINDING: property={} {}'.format(prop, known[k]['what']))
    viol = 0
    for r in fails[:5]:
        path = write_replay(prop, r['fail'].get('sub', r['sub']), r['fail']['case'], r['fail']['tb'])
        lines.append(r['fail']['tb'].strip().splitlines()[-1][:600])
        lines.append('VIOLATION property={} replay={}'.format(prop, path))
        viol += 1
        rc = 1
    if unknown:
        rc = rc or 2
        lines.append('HARNESS: finding keys not listed: {}'.format(unknown))
    if not fails:
        for r in errors:
            lines.append('HARNESS ERROR in {}#{}:\n{}'.format(r['sub'], r['shard'], r['error']))
            rc = 2
        for s in _MOD.SUBS:
            ps = per_sub.get(s.name)
            if ps is None or rc:
                continue
            if not os.environ.get('VERIF_SCALE') and not cut:
                if ps['distinct_nontrivial'] == 0:
                    lines.append('HARNESS ERROR: {} generated no non-trivial case'.format(s.name))
                    rc = 2
                for lb in s.must_label:
                    if not ps['labels'].get(lb):
                        lines.append('HARNESS ERROR: {} never reached the class {!r}'.format(s.name, lb))
                        rc = 2
    if not os.environ.get('VERIF_ONLY') or os.environ.get('VERIF_EVIDENCE'):
        write_evidence(prop, {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {'evaluations': evaluations, 'distinct_nontrivial': nt, 'rule': ' || '.join(rules),
                         'samples': samples[:6], 'per_sub': per_sub, 'cut_short_by_time_budget': cut},
            'assumptions': getattr(_MOD, 'ASSUMPTIONS', []),
            'wall_s': round(wall, 2), 'violations': viol})
    for ln in lines:
        print(ln)
    print('{} {} seed={} cases={} nontrivial={} wall={:.1f}s exit={}{}'.format(
        prop, tier, seed, evaluations, nt, wall, rc, ' cut=' + ','.join(cut) if cut else ''))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(per_sub, indent=1, sort_keys=True))
    return rc


@contextlib.contextmanager
def solver_replaced(make):
    """scipy's solve_ivp replaced by make(original), wherever the code under test took it from."""
    import scipy.integrate as si
    real = si.solve_ivp
    fake = make(real)
    places = [(m, k) for n, m in list(sys.modules.items()) if m is not None and n.split('.')[0] in ('pygmo_fwork', 'plaschem')
              for k, v in list(vars(m).items()) if v is real] + [(si, 'solve_ivp')]
    for m, k in places:
        setattr(m, k, fake)
    try:
        yield
    finally:
        for m, k in places:
            setattr(m, k, real)
