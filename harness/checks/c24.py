"""C24: frames between time points, compressed results, convergency and comparison of logged runs."""
import io
import os
import shutil
from contextlib import redirect_stdout

import numpy as np
import pandas as pd

import gen
from core import Sub, Violation, check, check_eq, close, scratch_dir

COLS = ['Ar', 'Ar+', 'e', 'Te', 'Tg', 'p', 1, 7, 23, 'O2*']


def draw_frame(d, signs=True, positive=False, n_min=1, n_max=9, zeros=True):
    n = d.int(n_min, n_max)
    cols = d.perm(COLS)[:d.int(1, 4)]
    t, step = [], 0.
    for _ in range(n):
        t.append(step)
        step += d.weighted([(d.flt(0.001, 1), 4), (d.logflt(-6, 1), 3), (1, 1)])
    scale = d.pick([1., 1e-9, 1e3])
    data = {}
    for c in cols:
        v = d.logflt(-3, 20) * (1 if positive or not signs else d.weighted([(1, 2), (-1, 1)]))
        xs = []
        for _ in range(n):
            k = d.weighted([('same', 2), ('slow', 4), ('fast', 3)] + ([('zero', 1), ('flip', 1)] if zeros and not positive else []))
            xs.append(0. if k == 'zero' else v)
            if k == 'slow':
                v *= 1 + d.flt(-0.06, 0.06)
            elif k == 'fast':
                v *= d.logflt(-2, 2)
            elif k == 'flip':
                v = -v
        data[str(c) if isinstance(c, str) else 'R%d' % c] = xs
    return {'t': [x * scale for x in t], 'cols': data, 't_at': d.int(0, 1), 'index': d.weighted([('plain', 2), ('odd', 1)])}


def make(f):
    cols = {(int(c[1:]) if c[0] == 'R' and c[1:].isdigit() else c): v for c, v in f['cols'].items()}
    df = pd.DataFrame({'t': f['t'], **cols})
    if f['index'] == 'odd':
        df.index = [3 * k + 2 for k in range(len(df))]
    return df


# ------------------------------------------------------- frames --------------------------------------------------- #

@gen.cases
def case_frames(d):
    f = draw_frame(d)
    return {'f': f, 'at': [[d.int(0, 30), d.weighted([(0, 2), (1000, 1), (d.int(0, 1000), 4)])] for _ in range(d.int(0, 6))],
            'kind': d.pick(['list', 'tuple', 'array', 'series']), 'out': d.weighted([(None, 2), (d.pick(['before', 'after']), 1)]),
            'by': d.logflt(-9, 3), 'out_at': d.int(0, 9)}


def fn_frames(case, rec):
    from pygmo_fwork.results import ResultsParser as RP
    df = make(case['f'])
    t = list(df['t'])
    times = []
    for k, x in case['at']:
        a, b = t[k % len(t)], t[min(k % len(t) + 1, len(t) - 1)]
        times.append(min(max(a + (b - a) * x / 1000., t[0]), t[-1]))
    inside = list(times)
    if case['out']:
        by = case['by'] * (t[-1] - t[0] or 1.)
        bad = t[0] - by if case['out'] == 'before' else t[-1] + by
        if t[0] <= bad <= t[-1]:
            return
        times.insert(case['out_at'] % (len(times) + 1), bad)
    arg = {'list': list, 'tuple': tuple, 'array': lambda x: np.array(x, dtype=float),
           'series': lambda x: pd.Series(x, dtype=float, index=range(4, 4 + len(x)))}[case['kind']](times)
    before = df.copy()
    try:
        got = RP.get_results_frames(df, arg)
    except AssertionError:
        check(case['out'], 'times {} inside {} .. {} are refused', times, t[0], t[-1])
        rec.label('outside')
        rec.nontrivial()
        return
    check(not case['out'], 'a time outside the results is answered: {} in {} .. {}', times, t[0], t[-1])
    check(before.equals(df), 'the results passed in were changed')
    check_eq(list(got.columns), list(df.columns), 'columns of the frames')
    check_eq(len(got), len(inside), 'number of frames')
    for k, x in enumerate(inside):
        row = got.iloc[k]
        check(float(row['t']) == x, 'time of frame {} is {!r} instead of {!r}', k, row['t'], x)
        j = max(i for i in range(len(t)) if t[i] <= x)
        for c in df.columns:
            if c == 't':
                continue
            v = list(df[c])
            if j == len(t) - 1 or t[j] == x:
                want, mag = v[j], abs(v[j])
                rec.label('node')
            else:
                want = v[j] + (v[j + 1] - v[j]) * (x - t[j]) / (t[j + 1] - t[j])
                mag = abs(v[j]) + abs(v[j + 1])
                rec.label('between')
            check(close(row[c], want, 1e-9, 1e-9 * mag), '{} at {!r} is {!r} instead of {!r}', c, x, row[c], want)
            check(isinstance(float(row[c]), float) and got[c].dtype.kind == 'f', 'column {} of frames holds {}', c, got[c].dtype)
    if len(got) >= 1:
        RP.compress_solution(got.sort_values('t').drop_duplicates('t').reset_index(drop=True))  # frames are tables like any other
    rec.nontrivial(len(inside) >= 1 and len(t) >= 2)


# ------------------------------------------------------ compress -------------------------------------------------- #

@gen.cases
def case_compress(d):
    return {'f': draw_frame(d, n_min=1, n_max=14), 'thr': d.weighted([(None, 2), (d.flt(0.001, 0.5), 3), (1.5, 1)]),
            'step': d.weighted([(None, 2), (d.flt(0, 0.3), 2), (0., 1)])}


def fn_compress(case, rec):
    from pygmo_fwork.results import ResultsParser as RP
    df = make(case['f'])
    kw = {}
    if case['thr'] is not None:
        kw['diff_threshold'] = case['thr']
    if case['step'] is not None:
        kw['min_timestep'] = case['step']
    thr, step = kw.get('diff_threshold', 0.05), kw.get('min_timestep', 0.001)
    before = df.copy()
    got = RP.compress_solution(df, **kw)
    check(before.equals(df), 'the solution passed in was changed')
    check_eq(list(got.columns), list(df.columns), 'columns')
    kept = list(got.index)
    check(kept == [i for i in df.index if i in set(kept)], 'rows {} of {}', kept, list(df.index))
    check(got.equals(df.loc[kept]), 'the rows kept were changed')
    check(kept[0] == df.index[0] and kept[-1] == df.index[-1], 'first or last frame dropped: {} of {}', kept, list(df.index))
    rows = [df.loc[i] for i in df.index]
    min_abs = df['t'].iloc[-1] * step
    front = 0
    dropped = 0
    for k in range(1, len(rows) - 1):
        a, b = rows[front], rows[k]
        rel = []
        for c in df.columns:
            if c == 't':
                continue
            x, y = float(a[c]), float(b[c])
            rel.append(abs(y - x) / abs(x) if x else (None if y == x else float('inf')))
        dt = float(b['t'] - a['t'])
        alike = [True if r is None else None if abs(r - thr) <= 1e-9 * thr else r < thr for r in rel]
        may_drop = dt < min_abs * (1 + 1e-9) or all(x is not False for x in alike)
        must_drop = dt < min_abs * (1 - 1e-9) or all(x is True for x, r in zip(alike, rel) if r is not None) and None not in rel
        if df.index[k] in kept:
            check(not must_drop, 'frame {} is kept, {!r} after frame {} with relative changes {} (threshold {}, shortest step {!r})', k, dt,
                  front, rel, thr, min_abs)
            front = k
        else:
            check(may_drop, 'frame {} is dropped, {!r} after frame {} with relative changes {} (threshold {}, shortest step {!r})', k, dt,
                  front, rel, thr, min_abs)
            dropped += 1
    again = RP.compress_solution(got, **kw)
    check(set(again.index) <= set(kept), 'compressing again brings rows back')
    rec.label('dropped' if dropped else 'nothing-dropped')
    if dropped and len(kept) > 2:
        rec.label('some-dropped')
    if any(min(v) < 0 for v in case['f']['cols'].values()):
        rec.label('negative')
    rec.nontrivial(len(df) >= 4)


# ----------------------------------------------------- convergency ------------------------------------------------ #

@gen.cases
def case_conv(d):
    return {'f': draw_frame(d, positive=True, n_min=2, n_max=9), 'eps': d.weighted([(None, 2), (d.logflt(-3, 0), 3)]),
            'win': d.weighted([(None, 2), (d.flt(0.01, 1), 3)]), 't_end': d.pick([0.5, 1, 1.02, 1.3, 10]), 'verbose': d.bool()}


def fn_conv(case, rec):
    from pygmo_fwork.global_model import GlobalModel
    df = make(case['f'])
    kw = {}
    if case['eps'] is not None:
        kw['eps'] = case['eps']
    if case['win'] is not None:
        kw['timewindow'] = case['win']
    eps, win = kw.get('eps', 0.1), kw.get('timewindow', 0.1)
    te = float(df['t'].iloc[-1])
    out = io.StringIO()
    before = df.copy()
    with redirect_stdout(out):
        got = GlobalModel.check_convergency(df, {'t_end': case['t_end'] * te}, verbose=case['verbose'], **kw)
    check(before.equals(df), 'the solution passed in was changed')
    check_eq(list(got.index), [c for c in df.columns if c != 't'], 'outputs judged')
    t = list(df['t'])
    x = te - te * win
    j = max([i for i in range(len(t)) if t[i] <= x] or [0])
    both = set()
    for c in got.index:
        v = list(df[c])
        a = v[j] if j == len(t) - 1 or x <= t[0] else v[j] + (v[j + 1] - v[j]) * (x - t[j]) / (t[j + 1] - t[j])
        b = v[-1]
        rel = abs(2 * (b - a) / (b + a))
        if abs(rel - eps) < 1e-6 * eps + 1e-9:
            continue
        check(bool(got[c]) == (rel < eps), '{} changed by {!r} within the last {} of the time, which is {} (limit {})', c, rel, win,
              'converged' if got[c] else 'not converged', eps)
        both.add(rel < eps)
    text = out.getvalue()
    if not case['verbose']:
        check_eq(text, '', 'printed without being asked')
    else:
        for c in got.index:
            check((' {} value changed'.format(c) in text) == (not got[c]), 'message about {}: {!r}', c, text)
        if te > 1e-4:  # (times of the order of 1e-8 are compared absolutely)
            check(('not reached' in text) == (case['t_end'] > 1.1), 'message about the end time {} of {}: {!r}', te, case['t_end'] * te, text)
    rec.label(*(['both'] if len(both) == 2 else ['converged' if True in both else 'not']))
    rec.nontrivial(bool(both) and len(t) >= 3)


# ------------------------------------------------------- compare -------------------------------------------------- #

@gen.cases
def case_compare(d):
    runs = [{'f': draw_frame(d, positive=True, n_max=4), 'id': d.pick(['a', 'run_1', 'x y', 'a_rather_long_name_of_a_run_which_was_logged']),
             'place': d.int(0, 2), 'file': d.weighted([('solution.csv', 3), ('mine.csv', 1)])} for _ in range(d.int(1, 4))]
    return {'runs': runs, 'relative': d.bool(), 'nominal': d.int(0, 2), 'form': [d.int(0, 5) for _ in runs], 'print': d.bool(),
            'bad': d.weighted([(None, 3), ('long', 1), ('none', 1), ('file', 1)]), 'as_list': d.bool(1, 4), 'held': d.int(0, 4)}


def fn_compare(case, rec):
    from pygmo_fwork import exceptions as X
    from pygmo_fwork.results import ResultsParser
    path = scratch_dir('c24')
    home = os.path.join(os.environ['HOME'], '.pygmofwork')
    old = open(home).read()
    try:
        with open(home, 'w') as f:
            f.write('workspace: {}\n'.format(os.path.join(path, 'ws')))
        places = [os.path.join(path, 'ws', 'results', 'pygmol'), os.path.join(path, 'one'), os.path.join(path, 'two')]
        for p in places:
            os.makedirs(p)
        rows, runs, labels = [], [], []
        for k, r in enumerate(case['runs']):
            place = places[r['place']]
            rid = '{}{}'.format(r['id'], k)
            os.mkdir(os.path.join(place, rid))
            df = make(r['f'])
            df.columns = [c if isinstance(c, str) else 'X%d' % c for c in df.columns]
            df.to_csv(os.path.join(place, rid, r['file']))
            if r['file'] != 'solution.csv' and k % 2:
                (df * 0 - 1).to_csv(os.path.join(place, rid, 'solution.csv'))
            rows.append(df.iloc[-1])
            nominal = r['place'] == case['nominal']
            forms = []
            default = r['file'] == 'solution.csv'
            if nominal and default:
                forms += [(rid,), rid]
            if nominal and not default:
                forms += [(rid, r['file'])]
            if r['place'] == 0:
                forms += [(rid, b) if default else (rid, b, r['file']) for b in ('pygmol', 'PyGMol')]
            forms += [(rid, place) if default else (rid, place, r['file'])]
            if default:
                forms += [(rid, place, r['file'])]
            form = forms[case['form'][k] % len(forms)]
            runs.append(list(form) if case['as_list'] and isinstance(form, tuple) else form)
            parent = os.path.basename(place)
            if isinstance(form, tuple) and len(form) > 1 and form[1].lower() == 'pygmol':
                parent = form[1]
            labels.append(os.path.join('...' + parent, rid))
        nom = case['nominal']
        rp = ResultsParser() if nom == 0 and case['print'] else ResultsParser('pygmol') if nom == 0 else ResultsParser(nominal_results_dir=places[nom])
        try:
            ResultsParser('pygmol', places[1])
        except X.ResultsAttributeError:
            pass
        else:
            raise Violation('a parser of two nominal places is accepted')
        if case['bad']:
            bad, exc = {'long': (('a', 'pygmol', 'x.csv', 'y'), X.ResultsAttributeError), 'none': ('no such run', X.ResultsNotFoundError),
                        'file': ((runs[0] if isinstance(runs[0], str) else runs[0][0], places[case['runs'][0]['place']], 'missing.csv'),
                                 X.ResultsNotFoundError)}[case['bad']]
            try:
                rp.compare(runs + [bad])
            except exc:
                rec.label('refused')
            else:
                raise Violation('comparing {} is accepted'.format(bad))
        before = repr(runs)
        out = io.StringIO()
        with redirect_stdout(out):
            got = rp.compare(gen.held(case.get('held', 0))(runs), relative_to_first=case['relative'], printout=case['print'])
        check_eq(repr(runs), before, 'runs passed in')
        check((out.getvalue().strip() != '') == case['print'], 'printout {!r}', out.getvalue())
        check_eq(len(got), len(rows), 'number of runs compared')
        check_eq(set(got.columns), set(c for r in rows for c in r.index), 'columns compared')
        for k, (i, row) in enumerate(got.iterrows()):
            check(i == labels[k] if len(labels[k]) <= 40 else len(i) < 50 and labels[k].endswith(i[3:]) and i.startswith('...'), 'run {} is named {!r} instead of {!r}', k, i, labels[k])
            for c in got.columns:
                if c not in rows[k].index or case['relative'] and c not in rows[0].index:
                    check(np.isnan(row[c]), '{} of run {} is {!r} although not there', c, k, row[c])
                    continue
                want = float(rows[k][c])
                if case['relative']:
                    base = float(rows[0][c])
                    if base == 0:
                        continue
                    want = (want - base) / base * 100
                    check(close(row[c], want, 1e-9, 1e-7), '{} of run {} is {!r} instead of {!r}', c, k, row[c], want)
                else:
                    check(close(row[c], want, 1e-10), '{} of run {} is {!r} instead of {!r}', c, k, row[c], want)
        rec.label('relative' if case['relative'] else 'absolute')
        rec.nontrivial(len(rows) >= 2)
    finally:
        with open(home, 'w') as f:
            f.write(old)
        shutil.rmtree(path)


SUBS = [
    Sub('frames', case_frames, fn_frames, quick=2000, thorough=30000, shards=4, rule='frames of two or more time points, or a refused time',
        must_label=('node', 'between', 'outside')),
    Sub('compress', case_compress, fn_compress, quick=1600, thorough=24000, shards=4, rule='four or more frames',
        must_label=('some-dropped', 'nothing-dropped', 'negative')),
    Sub('convergency', case_conv, fn_conv, quick=2000, thorough=30000, shards=4, rule='three or more frames and a change clearly on one side of the limit',
        must_label=('both', 'converged', 'not')),
    Sub('compare', case_compare, fn_compare, quick=800, thorough=10000, shards=4, rule='two or more runs',
        must_label=('relative', 'absolute', 'refused')),
]
ASSUMPTIONS = ['strictly ascending times; for values which stay zero both keeping and dropping a frame is taken as right',
               'convergency of positive outputs']
