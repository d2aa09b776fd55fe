"""C30: Morris statistics and rankings are those of the elementary effects of the logged trajectories."""
import math
import os
import shutil

import numpy as np
import pandas as pd
import yaml

import gen
from core import Sub, Violation, check, check_eq, close, scratch_dir
from checks.c28 import at

OUTPUTS = ['e', 'Ar', 'Ar+', 'Te']
NAMES = ['Ar', 'Ar+', 'O2', 'O-', 'CF4', 'H2**', 'r(Ar+>Ar)', 'r(O2+>O)']


@gen.cases
def case(d):
    nf = d.int(2, 5)
    kind = d.pick(['names', 'ids'])
    factors = d.perm(NAMES)[:nf] if kind == 'names' else d.perm([1, 2, 3, 5, 10, 12, 100, 48])[:nf]
    wide = d.bool(1, 3)
    outs = d.perm(OUTPUTS)[:d.int(2, 4)]

    def solution():
        t = [0]
        for _ in range(d.int(1, 4)):
            t.append(t[-1] + d.int(1, 5))
        t[-1] = max(t[-1], 10)
        return {'t': t, 'cols': {c: [d.logflt(-3, 18) if wide else d.flt(1, 9) for _ in t] for c in outs}}
    trajs = []
    for _ in range(d.int(1, 4) if nf > 2 or d.bool(5, 6) else d.int(9, 13)):
        order = d.perm(range(nf))
        trajs.append({'order': order, 'deltas': [d.pick([0.5, -0.5]) for _ in range(nf)], 'sols': [solution() for _ in range(nf + 1)]})
    return {'factors': factors, 'outs': outs, 'trajs': trajs, 'unit': d.pick([1., 1e-3, 1e-7]), 'names': d.int(0, 2), 'cut': d.bool(1, 3),
            'times': [d.int(0, 60) for _ in range(d.int(1, 3))], 'by': d.pick(['dir', 'id', 'path']), 'as': d.int(0, 3), 'imp_as': d.int(0, 6),
            'important': d.subset(outs) or [outs[0]], 'junk': d.bool(1, 4), 'shuffle': d.int(0, 2), 'index': d.int(0, 2)}


def write(case, logs):
    n = len(case['trajs'])
    names = {0: ['traj%03d' % (k + 1) for k in range(n)], 1: ['traj%03d' % (n - k + 8) for k in range(n)], 2: (['b', 'a c', 'traj1', 'X'] + ['t %d' % k for k in range(n)])[:n]}[case['names']]
    for name, tr in zip(names, case['trajs']):
        top = os.path.join(logs, name)
        os.makedirs(top)
        ids = ['0_initial_run'] + ['{}_elem_effect_of_{}'.format(k + 1, case['factors'][i]) for k, i in enumerate(tr['order'])]
        for run, sol in zip(ids, tr['sols']):
            os.mkdir(os.path.join(top, run))
            df = pd.DataFrame({'t': [x * case['unit'] for x in sol['t']], **sol['cols']})
            if case['index'] == 1:
                df.index = [3 * k for k in range(len(df))]
            df.to_csv(os.path.join(top, run, 'solution.csv'))
        with open(os.path.join(top, 'meta.yaml'), 'w') as f:
            yaml.dump({'base_run_id': ids[0], 'run_ids': ids[1:], 'deltas': tr['deltas'], 'factors_ids': [case['factors'][i] for i in tr['order']]}, f)
    if case['junk']:  # a trajectory which is running, or was stopped before its end
        os.makedirs(os.path.join(logs, 'traj500', '0_initial_run'))
        with open(os.path.join(logs, 'traj500', '0_initial_run', 'solution.csv'), 'w') as f:
            f.write('t,e\n')
    return names


def mean(x):
    return math.fsum(x) / len(x)


def series(values):
    return pd.Series(values, index=[7 * k + 2 for k in range(len(values))])


def fn(case, rec):
    from pygmo_fwork.config import Config
    from pygmo_fwork.optichem.morris import MorrisMethod as MM
    import pathlib
    top = scratch_dir('c30')
    run = None
    try:
        if case['by'] == 'id':
            root = str(Config().get_morris_results_dir())
            run = 'run %d' % os.getpid()
            shutil.rmtree(os.path.join(root, run), ignore_errors=True)
            logs = os.path.join(root, run, 'logs')
            which = {'morris_run_id': run}
        else:
            logs = os.path.join(top, 'logs')
            which = {'logs_dir': pathlib.Path(logs) if case['by'] == 'path' else logs}
        os.makedirs(logs)
        names = write(case, logs)
        end = min(s['t'][-1] for tr in case['trajs'] for s in tr['sols'])
        xs = sorted(set(x / 60. * end for x in case['times']))
        if case.get('shuffle'):
            xs = xs[::-1] if case['shuffle'] == 1 else xs[1:] + xs[:1]
        times = [min(x * case['unit'], end * case['unit']) for x in xs]
        rec.label('times-unsorted' if times != sorted(times) else None)
        arg = [list, tuple, np.array, series][case['as']](times)
        outs, factors = case['outs'], case['factors']
        # --- every trajectory
        effects = {}  # (time, factor, output) -> elementary effects
        values, scale = {}, {}
        for name, tr in zip(names, case['trajs']):
            ts = MM.evaluate_trajectory(os.path.join(logs, name), arg)
            check_eq(list(ts.times), times, 'times')
            check_eq((len(ts.elementary_effects), len(ts.mean_outputs)), (len(times), len(times)), 'results for each time')
            for k, x in enumerate(xs):
                for c in outs:
                    v = [at(s, c, x) for s in tr['sols']]
                    m = max(max(s['cols'][c]) for s in tr['sols'])
                    values.setdefault((k, c), []).extend(v)
                    scale[k, c] = max(scale.get((k, c), 0.), m)
                    check(close(ts.mean_outputs[k][c], mean(v), 1e-9, 1e-9 * m), 'mean of {} is {!r} instead of {!r}', c, ts.mean_outputs[k][c], mean(v))
                    for j, i in enumerate(tr['order']):
                        ee = (v[j + 1] - v[j]) / tr['deltas'][j]
                        effects.setdefault((k, factors[i], c), []).append(ee)
                        got = ts.elementary_effects[k].at[factors[i], c]
                        check(close(got, ee, 1e-9, 1e-9 * m), 'effect of {} on {} is {!r} instead of {!r}', factors[i], c, got, ee)
        # --- all of them
        st = MM.get_morris_stats(times=arg, **which)
        check_eq(list(st.times), times, 'times')
        n = len(case['trajs'])
        mu_rel, sg_rel, tol = {}, {}, {}
        for k in range(len(times)):
            for c in outs:
                m = mean(values[k, c])
                check(close(st.mean_outputs[k][c], m, 1e-9, 1e-9 * scale[k, c]), 'mean of {} is {!r} instead of {!r}', c, st.mean_outputs[k][c], m)
                for f in factors:
                    ee = effects[k, f, c]
                    mu = mean(ee)
                    sg = math.sqrt(math.fsum((x - mu) ** 2 for x in ee) / (n - 1)) if n > 1 else None
                    err = 1e-8 * scale[k, c]
                    for what, got, want in (('mu', st.mu[k], mu), ('sigma', st.sigma[k], sg), ('mu_rel', st.mu_rel[k], mu / m),
                                            ('sigma_rel', st.sigma_rel[k], None if sg is None else sg / m)):
                        g = float(got.at[f, c])
                        if want is None:
                            check(math.isnan(g), '{} of a single trajectory is {!r}', what, g)
                        else:
                            e = err if what in ('mu', 'sigma') else err / m * 10
                            check(close(g, want, 1e-8, e), '{} of {} for {} is {!r} instead of {!r}', what, f, c, g, want)
                    mu_rel[k, f, c], sg_rel[k, f, c] = abs(mu / m), 0. if sg is None else sg / m
                    tol[f] = max(tol.get(f, 0.), err / m * 100)
            for frame in (st.mu[k], st.sigma[k], st.mu_rel[k], st.sigma_rel[k]):
                check_eq(sorted(frame.index, key=str), sorted(factors, key=str), 'factors')
        # --- rankings
        imp = case['important']
        # (any iterables will do)
        as_is = [list, tuple, np.array, pd.Index, series, set, iter][case.get('imp_as', 0)]
        times_as_is = iter if case.get('imp_as') == 6 else lambda x: x
        for method in ('mean', 'max', None):
            got = MM.get_ranking(as_is(imp), times_as_is(arg), **which, **({'method': method} if method else {}))
            check_eq(sorted(got.index, key=str), sorted(factors, key=str), 'ranked factors')
            if method != 'mean' and n == 1:
                continue
            vals = [float(x) for x in got.values]
            check(vals == sorted(vals), 'ranking {} is not ascending', vals)
            K = range(len(times))
            for f in factors:
                if method == 'mean':
                    want = [math.fsum(mu_rel[k, f, c] + sg_rel[k, f, c] for k in K for c in imp) / len(imp) / len(times)]
                else:
                    want = [max(max(mu_rel[k, f, c] for c in imp) + max(sg_rel[k, f, c] for c in imp) for k in K),
                            max(mu_rel[k, f, c] for k in K for c in imp) + max(sg_rel[k, f, c] for k in K for c in imp)]
                check(any(close(got[f], x, 1e-7, tol[f] * 10) for x in want), 'score of {} by {} is {!r} instead of {}', f, method, got[f], want)
        for bad in (lambda: MM.get_morris_stats(times=times), lambda: MM.get_morris_stats('a', logs, times), lambda: MM.get_morris_stats(**which),
                    lambda: MM.get_ranking(imp + ['no such'], times, **which), lambda: MM.get_ranking(imp, times, method='sum', **which)):
            try:
                bad()
            except ValueError:
                pass
            else:
                raise Violation('invalid arguments are accepted')
        late = end * case['unit'] * 1.2
        if all(s['t'][-1] * case['unit'] < late for tr in case['trajs'] for s in tr['sols']):
            try:
                MM.get_morris_stats(times=times + [late], **which)
            except AssertionError as e:
                if isinstance(e, Violation):
                    raise
            else:
                raise Violation('a time outside of the solutions is accepted')
        rec.label(as_is.__name__)
        rec.label(case['by'], 'single' if n == 1 else 'several', 'times-%d' % min(len(times), 2), 'unfinished' if case['junk'] else 'finished')
        rec.nontrivial(n > 1 and len(imp) > 1)
    finally:
        shutil.rmtree(top)
        if run:
            shutil.rmtree(os.path.join(root, run))


SUBS = [Sub('stats', case, fn, quick=320, thorough=4000, shards=8, rule='several trajectories and outputs',
            must_label=('dir', 'id', 'path', 'single', 'several', 'times-2', 'unfinished', 'list', 'tuple', 'array', 'Index', 'series', 'set', 'iter'))]
ASSUMPTIONS = ['all trajectories of a Morris run have the same factors', 'outputs are positive']
