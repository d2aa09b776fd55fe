"""C29: a Morris trajectory is a walk over the factors, one step of ±0.5 in each, and is logged as such."""
import contextlib
import copy
import io
import math
import multiprocessing
import os
import shutil
import time
import types

import numpy as np
import pandas as pd
import yaml

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close, scratch_dir, solver_replaced
from checks import c16, c18
from checks.c22 import numpied, same_frame, snapshot

KINDS = [('disable_sp', 3), ('disable_r', 4), ('stick', 2), ('ret', 1), ('arrh', 2), ('protect', 1)]
BAD = ['chemistry', 'params', 'type', 'id', 'unknown-type', 'interrupt', 'interrupt', 'interrupt', 'pair-twice', 'range', 'self', 'zero-coef',
       'not-stuck', 'one-factor']
GRID = [round(0.05 + 0.1 * k, 5) for k in range(10)]


def draw_rets(d, spec):
    names = [s['attrs']['name'] for s in spec['species'] if s['attrs']['name'] not in ('e', 'M')]
    rets = []
    for n in d.perm(names)[:d.int(1, 3)]:
        others = [m for m in d.perm(names) if m != n][:d.int(1, 3)]
        rets.append({'of': n, 'stick': d.pick([1., 0.3, 0.01]), 'self': d.weighted([(0., 1), (d.flt(0, 1), 2), (3., 4)]),
                     'to': {m: d.weighted([(d.flt(0, 1), 4), (d.logflt(-3, -1), 1), (1, 1)]) for m in others}})
    return rets


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=5, max_species=6)
    kind = d.weighted([('reactions', 3), ('species', 3), ('return_coefficients', 3)])
    ops = world.draw_ops(d, 3, KINDS) if d.bool(1, 2) else []
    rets = draw_rets(d, spec)
    return {'spec': spec, 'kind': kind, 'ops': ops, 'P': plasma.draw_params(d, c18.neutral_names(spec), t_end=d.pick([1e-3, 0.01, 1.]), constant=True),
            'numpy': d.bool(1, 3), 'backend': d.pick(['pygmol', 'pygmol', 'PyGMol', 'PYGMOL']), 'seed': d.int(0, 10 ** 6),
            'id': d.weighted([(None, 3), ('traj007', 1), ('x y', 1)]), 'full': d.bool(3, 4), 'verbosity': d.int(0, 3), 'rets': rets,
            'ranges': d.weighted([('one', 1), ('many', 1)]), 'range': [d.pick([1.05, 1.5, 2, 3.]) for _ in range(9)],
            'bad': d.pick(BAD) if d.bool() else None, 'at': d.int(0, 20), 'how': d.int(0, 3), 'steps': d.int(2, 6), 'debug': d.bool(1, 5),
            'to': d.weighted([('default', 1), ('given', 3)]), 'compress': d.bool()}


class Stub:
    """Stands in for the numerical integration: a solution which depends on the right-hand side, without the cost."""
    def __init__(self, steps):
        self.steps, self.calls, self.fail_at, self.how = steps, 0, None, 0

    def __call__(self, fun, t_span, y0, *args, **kw):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            if self.how == 0:
                raise ValueError('stub')
            if self.how == 1:
                raise KeyboardInterrupt
        y0 = np.array(y0, dtype=float)
        s = float(np.sum(np.abs(fun(t_span[0], y0))))
        a = math.log10(1 + s) % 1 if math.isfinite(s) else 0.5
        t = np.linspace(t_span[0], t_span[1], self.steps)
        y = np.array([y0 * (1 + (0.2 + a) * x / t_span[1]) for x in t]).T
        ok = not (self.fail_at is not None and self.calls == self.fail_at)
        return types.SimpleNamespace(t=t, y=y, nfev=1, njev=0, nlu=0, status=0 if ok else -1, message='stub', success=ok)


@contextlib.contextmanager
def stubbed(stub):
    import pygmo_fwork.pygmol.model  # noqa
    with solver_replaced(lambda real: stub):
        yield


def quiet(call, verbosity):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = call()
    if verbosity == 0:
        check(not out.getvalue(), 'something is printed with verbosity 0: {}', out.getvalue()[:80])
    return res


def with_rets(case):
    spec = copy.deepcopy(case['spec'])
    by = {s['attrs']['name']: s for s in spec['species']}
    for r in case['rets']:
        a = by[r['of']]['attrs']
        a['stick_coef'] = r['stick']
        to = dict(r['to'])
        if r['self']:
            to[r['of']] = r['self']
        a['ret_coefs'] = to
    return spec


def fn(case, rec):
    top = scratch_dir('c29')
    home = os.path.join(os.environ['HOME'], '.pygmofwork')
    old = open(home).read()
    try:
        with open(home, 'w') as f:
            f.write('workspace: {}\n'.format(os.path.join(top, 'ws')))
        stub = Stub(case['steps'])
        with stubbed(stub):
            walk(case, rec, top, stub)
    finally:
        with open(home, 'w') as f:
            f.write(old)
        shutil.rmtree(top)


def pairs_of(case, ref):
    """Pairs which are proper factors, in the order of the case."""
    out = []
    here = {ref.name(i) for i in ref.ids()}
    for r in case['rets']:
        if r['of'] not in here:
            continue
        i = ref.by_name[r['of']]
        cur = ref.ret_coefs(i)
        if not ref.stick_coef(i) > 0:
            continue
        for m in r['to']:
            if m in here and cur.get(m, 0) > 0 and m != r['of']:
                out.append((r['of'], m))
    return out


def load_arrh(w, chem, path):
    """The values of a logged run: (arrh_a by reaction, return matrix, sticking coefficients) of a fresh copy given the log."""
    chem.load_chemistry_attributes(path)
    arrh = {int(k): float(v) for k, v in chem.get_reactions_arrh_a(si_units=False).items()}
    mat = chem.get_return_matrix()
    return arrh, {int(s): {int(r): float(mat.at[r, s]) for r in mat.index} for s in mat.columns}


def walk(case, rec, top, stub):
    from pygmo_fwork.config import Config
    from pygmo_fwork.optichem import exceptions as X
    from pygmo_fwork.optichem.morris import MorrisMethod
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError
    w = world.World(with_rets(case))
    for op in case['ops']:
        w.apply(op)
    ref, kind = w.ref, case['kind']
    P0 = c16.live_params(case['P'], ref)
    P = numpied(P0, case['numpy'])
    P_was = copy.deepcopy(P)
    given = c16.passed(P)
    given_was = repr(dict(given))
    if case['to'] == 'default':
        results = str(Config().get_morris_results_dir())
        where = {}
    else:
        results = os.path.join(top, 'morris')
        os.mkdir(results)
        where = {'morris_results_dir': results}
    kw = dict(where)
    factors = {'reactions': ref.rids(), 'species': [ref.name(i) for i in ref.ids()]}.get(kind)
    must, may = True, True  # the return coefficients can be brought to every value which may come up / or maybe not
    pairs, ranges = [], []
    if kind == 'return_coefficients':
        pairs = pairs_of(case, ref)
        if case['at'] % 2:
            pairs = pairs[::-1]
        if len(pairs) < 2:
            rec.label('too-few-pairs')
            return
        ranges = [case['range'][k % 9] for k in range(len(pairs))] if case['ranges'] == 'many' else [case['range'][0]] * len(pairs)
        kw.update(ret_species=list(pairs), rel_ranges=ranges if case['ranges'] == 'many' else ranges[0])
        factors = ['r({}>{})'.format(*p) for p in pairs]
        for s in {p[0] for p in pairs}:
            cur = ref.ret_coefs(ref.by_name[s])
            up = sum(cur[m] * (g ** 0.9 - 1) for (a, m), g in zip(pairs, ranges) if a == s)
            must = must and cur.get(s, 0.) - up > 1e-9
    if len(factors) < 2:
        rec.label('one-factor')
        M = MorrisMethod(w.chem, given, case['backend'])
        try:
            quiet(lambda: M.run_trajectory('few', kind, full_log=False, verbosity=0, **kw), 0)
        except X.MorrisInputsError:
            pass
        else:
            raise Violation('a trajectory over fewer than two factors is not refused')
        return
    before = world.observe_all(w.chem)
    M = MorrisMethod(w.chem, given, case['backend'])
    logs = os.path.join(results, 'R', 'logs')
    meta_dir = os.path.join(results, 'R', 'meta')

    def run(full, tid=None, verb=case['verbosity'], method=None, run_id='R', seed=case['seed'], **more):
        a = dict(kw, full_log=full, traj_id=tid, verbosity=verb, random_seed=seed, **more)
        t = a.pop('traj_type', kind)
        return quiet(lambda: (method or M).run_trajectory(run_id, t, **a), verb)

    def untouched(when):
        world.check_same(before, world.observe_all(w.chem), when + ': the chemistry of the user')
        check_eq((repr(P), repr(dict(given))), (repr(P_was), given_was), when + ': the model parameters of the user')

    tid = case['id']
    # a trajectory which is stopped on the way, and is run again
    if case['bad'] == 'interrupt' and must:
        stub.calls, stub.fail_at, stub.how = 0, 1 + case['at'] % (len(factors) + 1), case['how'] % 3
        stopped = (ModelSolutionError, KeyboardInterrupt)
        try:
            run(case['full'], tid)
        except stopped:
            pass
        else:
            raise Violation('a trajectory of which a run failed is reported as finished')
        stub.fail_at = None
        rec.label('interrupted')
        check(not os.path.exists(os.path.join(logs, tid or 'traj001', 'meta.yaml')), 'a trajectory which was stopped is marked as finished')
        untouched('after a trajectory which was stopped')
    stub.calls = 0
    if case['debug'] and kind == 'return_coefficients':
        M.debug = True
        rec.label('debug')
    try:
        if case['debug']:
            quiet(lambda: M.run_trajectory('R', kind, full_log=case['full'], traj_id=tid, verbosity=case['verbosity'], random_seed=case['seed'], **kw), 1)
        else:
            run(case['full'], tid)
    except X.MorrisInputsError:
        check(not must, 'coefficients which can be compensated are refused')
        rec.label('refused')
        untouched('after a refusal')
        return
    M.debug = False
    untouched('after a trajectory')
    tid = tid or 'traj001'
    here = os.path.join(logs, tid)
    with open(os.path.join(here, 'meta.yaml')) as f:
        meta = yaml.safe_load(f)
    n = len(factors)
    check_eq(sorted(meta), ['base_run_id', 'deltas', 'factors_ids', 'run_ids'], 'the entries of meta.yaml')
    check_eq(sorted(map(str, meta['factors_ids'])), sorted(map(str, factors)), 'every factor is changed once')
    check_eq({type(f) for f in meta['factors_ids']}, {type(factors[0])}, 'the type of the logged factors')
    check_eq(len(meta['run_ids']), n, 'number of steps')
    check_eq(len(set(meta['run_ids']) | {meta['base_run_id']}), n + 1, 'runs of their own')
    check_eq([abs(float(x)) for x in meta['deltas']], [0.5] * n, 'sizes of the steps')
    check_eq(stub.calls, n + 1, 'number of runs of the model')
    runs = [meta['base_run_id']] + meta['run_ids']
    if case['bad'] != 'interrupt':
        check_eq(sorted(os.listdir(here)), sorted(runs + ['meta.yaml']), 'contents of the directory of the trajectory')
    for r in runs:
        files = set(os.listdir(os.path.join(here, r)))
        check('solution.csv' in files, 'no solution logged for {}', r)
        check_eq('chemistry_attributes.yaml' in files, case['full'], 'a full log of {}'.format(r))
    check_eq(sorted(os.listdir(meta_dir)), ['chemistry_attributes.yaml', 'meta.yaml', 'model_parameters.yaml'], 'meta files of the Morris run')
    rec.label(kind, 'numpy' if case['numpy'] else 'plain', 'backend-' + case['backend'])
    rec.nontrivial(n >= 3)

    if case['full']:
        rec.label('full')
        steps_of(case, rec, w, ref, kind, pairs, ranges, meta, here, runs, factors)
    # the same seed gives the same trajectory; solutions do not depend on what is logged
    other = run(not case['full'], 'twin', verb=0, run_id='T', compress_solution=case['compress'])
    there = os.path.join(results, 'T', 'logs', 'twin')
    with open(os.path.join(there, 'meta.yaml')) as f:
        check_eq(yaml.safe_load(f), meta, 'the trajectory of the same seed')
    a, b = (here, there) if case['full'] else (there, here)
    for r in runs:
        A, B = (pd.read_csv(os.path.join(x, r, 'solution.csv'), index_col=0) for x in (a, b))
        packed = case['compress'] if case['full'] else True
        if not packed:
            same_frame(B, A, 'solution of ' + r)
        else:
            rows = [int(i) for i in B.index]
            check(rows[0] == A.index[0] and rows[-1] == A.index[-1], 'the first and the last time of a compressed solution: {} of {}', rows, len(A))
            same_frame(B, A.loc[rows], 'solution of ' + r)
    # further trajectories of the Morris run
    again(case, rec, w, ref, M, P0, run, X, logs, tid, factors, must, kw)
    untouched('at the end')


def on_grid(x, what):
    check(any(abs(x - g) <= 1e-8 for g in GRID), '{} is {}, which is not on the grid', what, x)


def steps_of(case, rec, w, ref, kind, pairs, ranges, meta, here, runs, factors):
    fresh = w.chem.copy()
    seen = [load_arrh(w, fresh.copy(), os.path.join(here, r, 'chemistry_attributes.yaml')) for r in runs]
    nominal = {r: ref.arrh_a(r, si=False) for r in ref.rids()}
    ids = ref.ids()
    nom_ret = {s: {r: (ref.ret_coefs(s) or {}).get(ref.name(r), 0.) for r in ids} for s in ids}
    steps = list(zip(meta['factors_ids'], meta['deltas']))
    if kind != 'return_coefficients':
        for k, (_, mat) in enumerate(seen):
            check_eq(mat, nom_ret, 'return coefficients in run {} of a trajectory over {}'.format(k, kind))
    else:
        for k, (arrh, _) in enumerate(seen):
            for r in nominal:
                check(close(arrh[r], nominal[r], 1e-12), 'arrh_a of reaction {} in run {} of a trajectory over return coefficients', r, k)
    if kind == 'reactions':
        for r in nominal:
            if not nominal[r]:
                check(all(a[r] == 0 for a, _ in seen), 'reaction {} has no nominal rate', r)
                continue
            xs = [a[r] / (2 * nominal[r]) for a, _ in seen]
            for x in xs:
                on_grid(x, 'factor of reaction {}'.format(r))
            for (f, delta), x0, x1 in zip(steps, xs, xs[1:]):
                check(abs(x1 - x0 - (delta if f == r else 0)) < 1e-8, 'reaction {} goes from {} to {} in the step of {} by {}', r, x0, x1, f, delta)
    elif kind == 'species':
        part = {r: {i for i in ids if ref.stoich(r, i, 'lhs') or ref.stoich(r, i, 'rhs')} for r in nominal}
        x = {}
        for k, (f, delta) in enumerate(steps):
            i = ref.by_name[f]
            for r in nominal:
                a0, a1 = seen[k][0][r], seen[k + 1][0][r]
                if i not in part[r] or not nominal[r]:
                    check(close(a1, a0, 1e-9), 'reaction {} without {} changes in the step of it', r, f)
                    continue
                x0 = delta / (a1 / a0 - 1)
                on_grid(x0, 'factor of ' + f)
                check(abs(x.setdefault(i, x0) - x0) < 1e-7, 'factor of {} is {} and {}', f, x[i], x0)
        for r in nominal:
            if all(i in x for i in part[r]) and nominal[r]:
                want = nominal[r] * math.prod(2 * x[i] for i in part[r])
                check(close(seen[0][0][r], want, 1e-6), 'arrh_a of reaction {} at the start: {} instead of {}', r, seen[0][0][r], want)
    else:
        fac = {'r({}>{})'.format(*p): (ref.by_name[p[0]], ref.by_name[p[1]], g) for p, g in zip(pairs, ranges)}
        for name, (s, m, g) in fac.items():
            xs = [(math.log(mat[s][m] / nom_ret[s][m]) / math.log(g) + 1) / 2 for _, mat in seen]
            for x in xs:
                on_grid(x, 'factor ' + name)
            for (f, delta), x0, x1 in zip(steps, xs, xs[1:]):
                check(abs(x1 - x0 - (delta if f == name else 0)) < 1e-7, '{} goes from {} to {} in the step of {} by {}', name, x0, x1, f, delta)
        free = {(s, m) for s, m, _ in fac.values()} | {(s, s) for s, _, _ in fac.values()}
        for k, (_, mat) in enumerate(seen):
            for s in ids:
                tot = math.fsum(nom_ret[s].values())
                check(abs(math.fsum(mat[s].values()) - tot) <= 1e-9 * max(tot, 1), 'particles returned per stuck {} in run {}: {} instead of {}',
                      ref.name(s), k, math.fsum(mat[s].values()), tot)
                for m in ids:
                    if (s, m) not in free:
                        check(close(mat[s][m], nom_ret[s][m], 1e-12), 'return coefficient {}>{} is not a factor', ref.name(s), ref.name(m))
                    check(mat[s][m] >= 0, 'a negative return coefficient')


def again(case, rec, w, ref, M, P0, run, X, logs, tid, factors, must, kw):
    from pygmo_fwork.optichem.morris import MorrisMethod
    kind, bad = case['kind'], case['bad']
    finished = lambda: sorted(x for x in os.listdir(logs) if os.path.isfile(os.path.join(logs, x, 'meta.yaml')))
    done = finished()
    snap = snapshot(logs)

    def refused(exc, what, **a):
        try:
            run(False, verb=0, **a)
        except exc:
            pass
        else:
            raise Violation(what + ' is not refused')
        check_eq(finished(), done, what + ': finished trajectories')
        now = snapshot(logs)
        check_eq({k: now.get(k) for k in snap}, snap, what + ': files of the finished trajectories')
    refused(X.MorrisLogError, 'the id of a finished trajectory', tid=tid)
    other_backend = 'PYGMOL' if M.model_backend != 'PYGMOL' else 'pygmol'
    if bad == 'chemistry':
        c2 = w.chem.copy()
        r = ref.rids()[case['at'] % len(ref.rids())]
        c2.set_adhoc_reactions_attributes('arrh_a', r, ref.arrh_a(r, si=False) * 1.5 + 1e-3)
        refused(X.MorrisCoherenceError, 'a trajectory of another chemistry', method=MorrisMethod(c2, M.model_params, M.model_backend))
    elif bad == 'params':
        p2 = dict(P0, pressure=P0['pressure'] * 2)
        refused(X.MorrisCoherenceError, 'a trajectory of other model parameters', method=MorrisMethod(w.chem, p2, M.model_backend))
    elif bad == 'type':
        t = 'species' if kind != 'species' else 'reactions'
        m2 = lambda **a: M.run_trajectory('R', t, verbosity=0, **dict({k: v for k, v in kw.items() if k == 'morris_results_dir'}))
        try:
            quiet(m2, 0)
        except X.MorrisCoherenceError:
            pass
        else:
            raise Violation('a trajectory of another type is not refused')
    elif bad == 'unknown-type':
        try:
            quiet(lambda: M.run_trajectory('Q', 'specie', verbosity=0, **{k: v for k, v in kw.items() if k == 'morris_results_dir'}), 0)
        except ValueError:
            pass
        else:
            raise Violation('an unknown type of trajectories is not refused')
    elif kind == 'return_coefficients' and bad in ('pair-twice', 'range', 'self', 'zero-coef', 'not-stuck', 'one-factor'):
        p, g = list(kw['ret_species']), kw['rel_ranges']
        exc = X.MorrisInputsError
        if bad == 'pair-twice':
            p, g, exc = p + p[:1], case['range'][0], AssertionError
        elif bad == 'range':
            g = [1., 0.5, -2., 0][case['at'] % 4]
        elif bad == 'self':
            p, g = [(p[0][0], p[0][0])] + p, case['range'][0]
        elif bad == 'one-factor':
            p, g = p[:1], case['range'][0]
        else:
            names = [ref.name(i) for i in ref.ids()]
            want = (lambda s, m: not ref.stick_coef(s) > 0) if bad == 'not-stuck' else (lambda s, m: ref.stick_coef(s) > 0)
            zero = [(a, b) for a in names for b in names if a != b and want(ref.by_name[a], b)
                    and (bad == 'not-stuck' or not (ref.ret_coefs(ref.by_name[a]) or {}).get(b, 0) > 0)]
            if not zero:
                return
            p, g = p + [zero[case['at'] % len(zero)]], case['range'][0]
        try:
            quiet(lambda: M.run_trajectory('Q', kind, verbosity=0, **dict(kw, ret_species=p, rel_ranges=g)), 0)
        except exc:
            rec.label('bad-' + bad)
        else:
            raise Violation('return coefficients ({}) are not refused: {} {}'.format(bad, p, g))
    # one more, by the same or by an equal object; the lowest id which is free
    used = set(finished())
    k = 1
    while 'traj%03d' % k in used:
        k += 1
    m2 = MorrisMethod(w.chem.copy(), c16.passed(P0) if case['at'] % 3 else dict(P0), other_backend if case['at'] % 2 else M.model_backend)
    try:
        run(False, verb=0, method=m2, seed=case['seed'] + 1)
    except X.MorrisInputsError:
        check(not must, 'coefficients which can be compensated are refused')
        return
    check_eq(finished(), sorted(used | {'traj%03d' % k}), 'finished trajectories')
    now = snapshot(logs)
    check_eq({x: now.get(x) for x in snap if x.startswith(tid)}, {x: snap[x] for x in snap if x.startswith(tid)}, 'files of the first trajectory')
    if bad:
        rec.label('bad-' + bad)


# ------------------------------------------------ the values of the factors ----------------------------------------- #

@gen.cases
def spread_case(d):
    return {'seeds': [d.int(0, 10 ** 6) for _ in range(3)], 'orders': [d.int(0, 10 ** 6) for _ in range(8)]}


def argon(n):
    from plaschem.chemistry import Chemistry
    from plaschem.species import RP
    from plaschem.reactions import Reaction
    e, ar, ion = RP(1, name='e', mass=5.4858e-4, charge=-1), RP(2, name='Ar', mass=39.948), RP(3, name='Ar+', mass=39.948, charge=1)
    return Chemistry([e, ar, ion], [Reaction(k, [e, ar], [e, e, ion] if k % 2 else [e, ar], arrh_a=1. + k, units={'arrh_a': 'm3.s-1'}) for k in range(1, n + 1)])


def spread_fn(case, rec):
    """Starting values of 300 factors, and orders of eight trajectories over five. The bounds are met but for chance below 1e-9."""
    from pygmo_fwork.optichem.morris import MorrisMethod
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError
    P = {'radius': .1, 'length': .1, 'pressure': 10., 'temp_gas': 300., 't_end': 1., 'feeds': {'Ar': 10.}, 'power': [1., 1.], 't_power': [0., 2.]}
    top = scratch_dir('c29s')
    try:
        chem = argon(100)
        M = MorrisMethod(chem, P)
        xs = []
        for k, seed in enumerate(case['seeds']):
            stub = Stub(2)
            stub.fail_at = 2  # the starting point is enough
            with stubbed(stub):
                try:
                    quiet(lambda: M.run_trajectory('S', 'reactions', full_log=True, verbosity=0, random_seed=seed, traj_id=str(k), morris_results_dir=top), 0)
                except ModelSolutionError:
                    pass
            run = os.path.join(top, 'S', 'logs', str(k))
            c = chem.copy()
            c.load_chemistry_attributes(os.path.join(run, os.listdir(run)[0], 'chemistry_attributes.yaml'))
            xs.append([float(v) / (2 * (1. + int(r))) for r, v in c.get_reactions_arrh_a(si_units=False).items()])
        counts = [sum(abs(x - g) < 1e-8 for v in xs for x in v) for g in GRID]
        check_eq(sum(counts), 300, 'starting values on the grid')
        distinct = len(set(map(str, xs)))
        check_eq(distinct, len(set(case['seeds'])), 'different starting points')
        if distinct == 3:
            check(all(1 <= c <= 75 for c in counts), 'starting values are not spread over the grid: {}', dict(zip(GRID, counts)))
            check(abs(math.fsum(x for v in xs for x in v) / 300 - 0.5) < 0.12, 'starting values are not centred: {}', counts)
            rec.nontrivial(True)
        M = MorrisMethod(argon(5), P)
        orders = set()
        with stubbed(Stub(2)):
            for k, seed in enumerate(case['orders']):
                quiet(lambda: M.run_trajectory('O', 'reactions', full_log=False, verbosity=0, random_seed=seed, traj_id=str(k), morris_results_dir=top), 0)
                with open(os.path.join(top, 'O', 'logs', str(k), 'meta.yaml')) as f:
                    orders.add(tuple(yaml.safe_load(f)['factors_ids']))
        if len(set(case['orders'])) == 8:
            check(len(orders) > 2, 'trajectories of eight seeds take their steps in {} orders', len(orders))
    finally:
        shutil.rmtree(top)


# ------------------------------------------------------- many at once ----------------------------------------------- #

@gen.cases
def many_case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=4, max_species=5)
    kind = d.weighted([('reactions', 2), ('species', 2), ('return_coefficients', 1)])
    rets = draw_rets(d, spec) if kind == 'return_coefficients' else []
    for r in rets:
        r['self'] = 3.  # every value which may come up can be compensated
        r['to'] = {m: min(c, 0.5) for m, c in r['to'].items()}
    return {'spec': spec, 'kind': kind, 'rets': rets, 'misuse': d.bool(1, 3), 'n': d.int(1, 5), 'cores': d.int(1, 3), 'before': d.int(0, 2),
            'P': plasma.draw_params(d, c18.neutral_names(spec), t_end=0.01, constant=True), 'slow': d.bool(1, 2), 'full': d.bool(1, 4),
            'seed': d.int(0, 10 ** 6), 'fails': d.bool(1, 6)}


def many_fn(case, rec):
    from pygmo_fwork.optichem.morris import MorrisMethod
    from pygmo_fwork.optichem import morris as mod
    w = world.World(with_rets(dict(case, rets=case.get('rets', []))))
    more = {}
    factors = {'reactions': w.ref.rids(), 'species': [w.ref.name(i) for i in w.ref.ids()]}.get(case['kind'])
    if factors is None:
        pairs = pairs_of(case, w.ref)
        factors = ['r({}>{})'.format(*p) for p in pairs]
        more = dict(ret_species=pairs, rel_ranges=1.5)
    if len(factors) < 2:
        rec.label('one-factor')
        return
    top = scratch_dir('c29m')
    conf = multiprocessing.current_process()._config
    was = conf.get('daemon')
    try:
        conf['daemon'] = False
        M = MorrisMethod(w.chem, c16.passed(c16.live_params(case['P'], w.ref)))
        logs = os.path.join(top, 'R', 'logs')
        stub = Stub(3)
        real = yaml.dump

        def slow(data, stream=None, *a, **k):
            """A slow disk: a file is there for a while before it is complete."""
            if stream is not None:
                time.sleep(0.01)
            return real(data, stream, *a, **k)
        with stubbed(stub):
            for k in range(case['before']):
                quiet(lambda: M.run_trajectory('R', case['kind'], morris_results_dir=top, verbosity=0, traj_id='traj%03d' % (2 * k + 1), **more), 0)
            if case.get('misuse'):
                # what cannot work is refused, rather than lost in the workers
                bad = [('reactions', dict(traj_id='x'))] + [('return_coefficients', {k: 1.5}) for k in ('ret_species', 'rel_ranges')]
                for kind, kw in bad:
                    try:
                        M.run_morris('R', kind, 1, num_cores=1, morris_results_dir=top, verbosity=0, **kw)
                    except ValueError:
                        rec.label('misuse')
                    else:
                        raise Violation('run_morris of {} with {} is accepted'.format(kind, sorted(kw)))
            old = {x: v for x, v in (snapshot(logs) if case['before'] else {}).items()}
            if case['slow']:
                yaml.dump = slow
            try:
                with c18.at_most(60):
                    M.run_morris('R', case['kind'], case['n'], num_cores=case['cores'], morris_results_dir=top, full_log=case['full'], verbosity=0, **more)
            finally:
                yaml.dump = real
        done = sorted(x for x in os.listdir(logs) if os.path.isfile(os.path.join(logs, x, 'meta.yaml')))
        want, k = {'traj%03d' % (2 * k + 1) for k in range(case['before'])}, 1
        while len(want) < case['before'] + case['n']:
            want.add('traj%03d' % k)
            k += 1
        check_eq(done, sorted(want), 'finished trajectories after {} more were asked for'.format(case['n']))
        now = snapshot(logs)
        check_eq({x: now.get(x) for x in old}, old, 'files of the earlier trajectories')
        metas = []
        for x in done:
            with open(os.path.join(logs, x, 'meta.yaml')) as f:
                m = yaml.safe_load(f)
            metas.append(m)
            for r in [m['base_run_id']] + m['run_ids']:
                check(os.path.isfile(os.path.join(logs, x, r, 'solution.csv')), 'no solution of {} {}', x, r)
        for m in metas:
            check_eq(sorted(map(str, m['factors_ids'])), sorted(map(str, factors)), 'every factor is changed once')
        sols = [open(os.path.join(logs, x, m['base_run_id'], 'solution.csv')).read() for x, m in zip(done, metas)]
        if len(done) >= 2 and len(w.ref.rids()) >= 3 and len(factors) >= 3:
            check(len({repr(m) for m in metas}) > 1 or len(set(sols)) > 1, 'all of the {} trajectories are the same', len(done))
        rec.nontrivial(case['n'] >= 2)
        rec.label('cores-%d' % case['cores'], case['kind'], 'slow' if case['slow'] else 'fast')
    finally:
        conf['daemon'] = was
        shutil.rmtree(top)


SUBS = [Sub('spread', spread_case, spread_fn, quick=8, thorough=160, shards=8, rule='three different seeds'),
        Sub('walk', case, fn, quick=240, thorough=4000, shards=8, rule='a trajectory over three factors or more, logged and read back',
            must_label=('full', 'reactions', 'species', 'return_coefficients', 'interrupted', 'numpy', 'plain')),
        Sub('many', many_case, many_fn, quick=48, thorough=800, shards=8, rule='two or more trajectories run by a pool of processes',
            must_label=('slow', 'cores-2', 'misuse'))]
ASSUMPTIONS = ['the numerical integration is replaced by a stand-in which depends on the right-hand side at the start (C18/C22 run the real one)',
               'trajectories of return coefficients which cannot be compensated may be refused (MorrisInputsError)']
