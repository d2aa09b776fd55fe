"""C28: the errors between full and reduced solutions are the documented mixed errors at the asked times, maximal or RMS."""
import math
from bisect import bisect_right

import numpy as np
import pandas as pd

import gen
from core import Sub, Violation, check, check_eq, close

COLUMNS = ['e', 'Ar', 'Ar+', 'O2', 'Te', 'p']


@gen.cases
def case(d):
    def solution():
        n = d.weighted([(d.int(2, 8), 12), (d.int(9, 40), 1)])
        t = [0]
        for _ in range(n - 1):
            t.append(t[-1] + d.int(1, 6))
        kind = d.pick(['positive', 'decades', 'zeros', 'flat'])
        draw = {'positive': lambda: d.flt(0.1, 10), 'decades': lambda: d.logflt(-10, 20), 'zeros': lambda: d.pick([0., 0., 1., 3.5]),
                'flat': lambda: 2.5}[kind]
        return {'t': t, 'cols': {c: [draw() for _ in t] for c in COLUMNS}}
    return {'full': solution(), 'red': solution(), 'unit': d.pick([1., 1e-3, 1e-7, 1 / 3.]), 'times': [d.int(0, 60) for _ in range(d.weighted([(d.int(1, 5), 12), (d.int(6, 25), 1)]))],
            'outputs': d.subset(COLUMNS) or ['e'], 'drop': d.subset(COLUMNS, 1, 4), 'index': d.int(0, 3), 'as': d.int(0, 4), 'outs_as': d.int(0, 4),
            'same': d.bool(1, 6), 'bad': d.int(0, 5), 'negative': d.bool(1, 6), 'scale': d.logflt(-3, 3)}


def frame(sol, unit, index, drop=()):
    df = pd.DataFrame({'t': [x * unit for x in sol['t']], **{c: v for c, v in sol['cols'].items() if c not in drop}})
    if index == 1:
        df.index = [k * 3 + 5 for k in range(len(df))]
    elif index == 2:
        df.index = [0] * len(df)
    elif index == 3:
        df = df[list(df.columns)[::-1]]
    return df


def at(sol, col, x):
    """Value by straight lines between the points (x in units of the grid)."""
    t, v = sol['t'], sol['cols'][col]
    k = min(max(bisect_right(t, x) - 1, 0), len(t) - 2)
    return v[k] + (v[k + 1] - v[k]) * (x - t[k]) / (t[k + 1] - t[k])


def refused(call, what):
    try:
        call()
    except AssertionError as e:
        if isinstance(e, Violation):
            raise
        return
    raise Violation(what + ' is not refused')


def fn(case, rec):
    from pygmo_fwork.optichem.errors import SolutionsDiff
    full, red, unit = case['full'], case['red'], case['unit']
    if case['same']:
        red = full
    if case['negative']:
        red = dict(red, cols={c: [-x for x in v] for c, v in red['cols'].items()})
    end = min(full['t'][-1], red['t'][-1])
    xs = [x / 60. * end for x in case['times']]
    times = [x * unit for x in xs]
    last = end * unit
    times = [min(x, last) for x in times]
    cast = [list, tuple, np.array, pd.Series, iter][case['as']]
    outs_as = [list, tuple, np.array, pd.Series, iter][case.get('outs_as', 0)]
    F, R = frame(full, unit, case['index']), frame(red, unit, (case['index'] + 1) % 4, case['drop'])
    f0, r0 = F.copy(), R.copy()
    sd = SolutionsDiff(F)
    if case['bad'] == 0:
        sd = SolutionsDiff(frame(red, unit, 0))
        sd.get_error_max(R, [c for c in COLUMNS if c not in case['drop']][:1] or [], times[:1]) if len(case['drop']) < 6 else None
        sd.reset(F)
        rec.label('reset')
    outs = [c for c in case['outputs'] if c not in case['drop'] and max(at(full, c, x) for x in xs) > 1e-12 * max(full['cols'][c])
            and max(at(full, c, x) for x in xs) > 0]
    every, every_m = [], []
    for c in outs:
        vf, vr = [at(full, c, x) for x in xs], [at(red, c, x) for x in xs]
        top = max(vf)
        want = [2 * (b - a) / (a + top) for a, b in zip(vf, vr)]
        # values taken between points carry the rounding of the larger point next to them
        mags = [1e-9 * (max(abs(v) for v in red['cols'][c]) + max(full['cols'][c])) / top for _ in want]
        got = sd.get_output_errors(R, c, cast(times))
        check_eq(len(got), len(times), 'number of errors')
        for k, (g, x) in enumerate(zip(got, want)):
            check(close(g, x, 1e-9, mags[k] * (1 + abs(x))), 'error of {} at {} is {!r} instead of {!r}', c, times[k], g, x)
        mx, rms = max(abs(x) for x in want), math.sqrt(sum(x * x for x in want) / len(want))
        tol = mags[0] * (1 + mx)
        check(close(sd.get_output_error_max(R, c, cast(times)), mx, 1e-9, tol), 'maximal error of {}', c)
        check(close(sd.get_output_error_rms(R, c, cast(times)), rms, 1e-9, tol), 'RMS error of {}', c)
        every.append((mx, rms, tol))
        if case['same'] and not case['negative']:
            check(mx == 0 and all(abs(g) <= tol for g in got), 'a solution differs from itself by {}', got)
            rec.label('same')
        if any(x > 1 for x in want):
            rec.label('above')
        if any(x < 0 for x in want):
            rec.label('below')
    if outs:
        tol = max(t for _, _, t in every)
        check(close(sd.get_error_max(R, outs_as(outs), cast(times)), max(m for m, _, _ in every), 1e-9, tol), 'maximal error of {}', outs)
        check(close(sd.get_error_rms(R, outs_as(outs), cast(times)), math.sqrt(sum(r * r for _, r, _ in every) / len(every)), 1e-9, tol),
              'RMS error of {}', outs)
        # an output listed twice weighs twice
        twice = every + every[:1]
        check(close(sd.get_error_rms(R, outs_as(outs + outs[:1]), cast(times)), math.sqrt(sum(r * r for _, r, _ in twice) / len(twice)),
                    1e-9, tol), 'RMS error of {} and {} again', outs, outs[0])
        big = lambda s: dict(s, cols={c: [x * case['scale'] for x in v] for c, v in s['cols'].items()})
        other = SolutionsDiff(frame(big(full), unit, 0)).get_error_max(frame(big(red), unit, 0), outs, times)
        check(close(other, max(m for m, _, _ in every), 1e-7, 10 * tol), 'the error depends on the units')
    missing = [c for c in COLUMNS if c in case['drop']]
    if missing and case['bad'] in (1, 2):
        refused(lambda: sd.get_output_errors(R, missing[0], times), 'an output which the reduced solution does not have')
        refused(lambda: sd.get_error_max(R, outs + missing, times), 'an output which the reduced solution does not have')
        rec.label('refused')
    for t in (-unit * 1e-3, last * 1.001 + 1e-300):
        if outs:
            refused(lambda: sd.get_output_errors(R, outs[0], times + [t]), 'time {!r} outside of the solutions'.format(t))
            refused(lambda: sd.get_error_rms(R, outs, [t] + times), 'time {!r} outside of the solutions'.format(t))
    if case['bad'] == 3:
        for bad in (F.drop(columns='t'), F['t'], F.values, {'t': [0, 1]}, None):
            refused(lambda: SolutionsDiff(bad), 'a solution which is none')
            refused(lambda: sd.reset(bad), 'a solution which is none')
        if outs:
            check(close(sd.get_error_max(R, outs, times), max(m for m, _, _ in every), 1e-9, tol), 'error after a refused reset')
    check(f0.equals(F) and r0.equals(R), 'solutions passed in were changed')
    rec.nontrivial(len(outs) >= 2 and len(set(xs)) >= 2)


SUBS = [Sub('errors', case, fn, quick=3000, thorough=60000, shards=4, rule='two or more outputs and times',
            must_label=('same', 'above', 'below', 'refused', 'reset'))]
ASSUMPTIONS = ['times of solutions increase; the full solution is not negative, and positive at one of the times']
