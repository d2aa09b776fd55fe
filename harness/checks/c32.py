"""C32: the plots of solutions and of reductions show the values logged, and nothing else."""
import contextlib
import os
import shutil
from collections import Counter

import numpy as np
import pandas as pd
import yaml

import gen
from core import Sub, Violation, check, check_eq, close, scratch_dir
from checks import c31
from checks.c22 import expect
from checks.c24 import draw_frame

SPECIES = ['Ar', 'Ar+', 'Ar*', 'O2', 'O2-', 'O2+', 'O', 'O3', 'N2(v=1)', 'H2O', 'SiH4', 'O+2', 'C2H6']
EXTRA = ['e', 'Te', 'Tg', 'p']


@contextlib.contextmanager
def shown():
    """What is on the screen whenever a plot is shown."""
    import matplotlib.pyplot as plt
    plt.close('all')
    out, old = [], plt.show
    plt.show = lambda *a, **k: out.append(plt.gcf())
    try:
        yield out
    finally:
        plt.show = old
        plt.close('all')


def points(line):
    return list(zip(map(float, np.asarray(line.get_xdata(), dtype=float)), map(float, np.asarray(line.get_ydata(), dtype=float))))


def same_points(a, b):
    return len(a) == len(b) and all(close(x, u, 1e-9, 1e-12) and close(y, v, 1e-9, 1e-12) for (x, y), (u, v) in zip(a, b))


# ------------------------------------------------------ solutions ------------------------------------------------- #

@gen.cases
def case_solution(d):
    f = draw_frame(d, positive=True, n_min=2)
    names = d.perm(SPECIES)[:d.int(2, 6)]
    values = list(f['cols'].values())
    cols = {n: [x * d.pick([1., 1e3, .5]) * (k + 1) for x in values[k % len(values)]] for k, n in enumerate(names + EXTRA)}
    return {'t': f['t'], 'cols': [[n, v] for n, v in cols.items()], 'log': d.weighted([(None, 2), (True, 1), (False, 2)]),
            'plot': d.weighted([([], 2), ([d.pick(names + EXTRA) for _ in range(d.int(1, 4))], 3)]), 'file': d.bool(1, 4),
            'twice': d.bool(1, 3), 'missing': d.bool(1, 5)}


def fn_solution(case, rec):
    from pygmo_fwork.exceptions import ResultsNotFoundError
    from pygmo_fwork.results import ResultsParser
    top = scratch_dir('c32')
    try:
        os.mkdir(os.path.join(top, 'run'))
        cols = dict(case['cols'])
        name = 'mine.csv' if case['file'] else 'solution.csv'
        df = pd.DataFrame({'t': case['t'], **cols})
        df.to_csv(os.path.join(top, 'run', name))
        if case['file']:
            (df * 0 + 1).to_csv(os.path.join(top, 'run', 'solution.csv'))
        files = {f: open(os.path.join(top, 'run', f)).read() for f in os.listdir(os.path.join(top, 'run'))}
        rp = ResultsParser(nominal_results_dir=top)
        kw = {'file_name': name} if case['file'] else {}
        if case['log'] is not None:
            kw['log'] = case['log']
        if case['missing']:
            with shown() as out:
                expect(ResultsNotFoundError, lambda: rp.plot_solution('other', *case['plot'], **kw), 'the plot of a run which is not there')
                check_eq(len(out), 0, 'plots shown of a run which is not there')
        want = list(dict.fromkeys(case['plot'])) or [n for n in cols if n not in ('Te', 'Tg', 'p')]
        given = list(dict.fromkeys(case['plot']))
        for _ in range(1 + case['twice']):
            with shown() as out:
                rp.plot_solution('run', *given, **kw)
                check_eq(len(out), 1, 'plots shown')
                axes = out[0].axes
                check_eq(len(axes), 1, 'axes')
                ax = axes[0]
                check_eq(sorted(ln.get_label() for ln in ax.lines), sorted(want), 'curves')
                for ln in ax.lines:
                    check(same_points(points(ln), list(zip(case['t'], cols[ln.get_label()]))), 'the curve of {} is {}', ln.get_label(), points(ln))
                check_eq(ax.get_yscale(), 'linear' if case['log'] is False else 'log', 'scale')
                check_eq(ax.get_xscale(), 'linear', 'scale of time')
                check_eq(sorted(t.get_text() for t in ax.get_legend().get_texts()), sorted(want), 'legend')
                check_eq(len(set(ln.get_color() for ln in ax.lines)), min(len(want), 10), 'colours')
                check('time' in ax.get_xlabel().lower(), 'label of the x axis: {}', ax.get_xlabel())
                y = ax.get_ylabel()
                other = {'p', 'Te', 'Tg'} & set(want)
                check(('K' in y and 'eV' in y and 'Pa' in y) if other else 'ensity' in y, 'label of the y axis of {}: {}', want, y)
        check(files == {f: open(os.path.join(top, 'run', f)).read() for f in os.listdir(os.path.join(top, 'run'))}, 'files were changed')
        rec.label('all' if not given else 'chosen', 'linear' if case['log'] is False else 'log', 'temperatures' if other else 'densities')
        rec.nontrivial(len(want) >= 2)
    finally:
        shutil.rmtree(top)


# ------------------------------------------------------ reductions ------------------------------------------------ #

def draw_options(d, n):
    o = {}
    for k, v in (('annotate', True), ('dead_ends', False), ('plot_endpoints', True), ('plot_max_error', False)):
        if d.bool(1, 3):
            o[k] = v
    if d.bool(1, 4):
        o['xlim'] = [d.int(-3, 0), d.int(1, 9)]
    if d.bool(1, 4):
        o['ylim'] = [d.int(-3, 0), d.int(1, 30)]
    if d.bool(1, 3):
        o['labels'] = ['run no. %d' % k for k in range(n + d.int(0, 1))]
    if d.bool(1, 5):
        o['annotations_shift'] = [d.int(-2, 2), d.int(-2, 2)]
    if d.bool(1, 5):
        o['fig_size'] = [d.int(4, 9), d.int(4, 9)]
    if d.bool(1, 5):
        o['line_styles_success'] = ['y-s'] * n
    return o


@gen.cases
def case_made(d):
    n = d.weighted([(1, 2), (2, 2), (3, 1)])
    limit = d.pick([1., 5, 12.5, 100])
    runs = []
    for _ in range(n):
        names, rows, gone = d.perm(SPECIES), [], 0
        for _ in range(d.int(0, 6)):
            kind = d.weighted([('done', 4), ('too-much', 3), ('fails', 2)])
            if not names:
                break
            sp, extra = names[0], names[1:1 + d.weighted([(0, 3), (1, 1), (2, 1)])]
            if kind == 'done':
                names = names[1 + len(extra):]
                gone += 1 + len(extra)
                rows.append([kind, sp, extra, gone, d.pick([0., 0.3, 0.9, 1]) * limit])
            else:
                names = names[1:]
                rows.append([kind, sp, extra, gone + (1 + len(extra) if kind == 'too-much' else 0), limit * (1 + d.logflt(-3, 1))])
        runs.append(rows)
    return {'runs': runs, 'max': limit, 'o': draw_options(d, n), 'bad': d.weighted([(None, 5), ('max', 1), ('labels', 1)]), 'save': d.bool(1, 4),
            'names': d.subset(SPECIES, 1, 5)}


def write_run(path, rows, limit):
    os.mkdir(path)
    base = dict.fromkeys(c31.COLUMNS)
    out = [dict(base, run_id='00_full_chemistry', rm_success=True, total_removed=0, total_left=len(SPECIES), error_base_max=0., error_base_rms=0.,
                error_last_max=0., error_last_rms=0.)]
    for k, (kind, sp, extra, gone, err) in enumerate(rows):
        row = dict(base, species=sp, ranking_score=.1 * k, rm_success=kind != 'fails', total_removed=gone, total_left=len(SPECIES) - gone)
        if kind != 'fails':
            row.update(run_id='{:02d}_disabled_{}'.format(k + 1, sp), rm_additional=', '.join(extra) or None, error_base_max=err / 100,
                       error_base_rms=err / 150, error_last_max=err / 200, error_last_rms=err / 300)
        out.append(row)
    pd.DataFrame(out, columns=c31.COLUMNS).to_csv(os.path.join(path, 'reduction_history.csv'), header=True, index=True, index_label='run_index')
    with open(os.path.join(path, 'meta.yaml'), 'w') as f:
        yaml.dump({'important_outputs': ['e'], 'important_times': [1.], 'max_error': float(limit)}, f)


def plain(text):
    return ''.join(c for c in text if c not in '$^_{}')


def judge(fig, runs, limit, o, labels, names=()):
    """`runs`: rows (kind, species, species removed along, number removed, error in %) of each."""
    check_eq(len(fig.axes), 1, 'axes')
    ax = fig.axes[0]
    lines = list(ax.lines)
    wanted = []
    dead, marks, texts, high, far = [], [], [], float(limit), 0
    ends = []
    for rows in runs:
        last = (0., 0.)
        path = [last]
        texts.append(((0., 0.), ''))
        far_here = 0
        for kind, sp, extra, gone, err in rows:
            p = (float(gone), float(err))
            if kind == 'done':
                path.append(p)
                last = p
                texts.append((p, ', '.join([sp] + list(extra)) if extra or sp not in names else '!' + sp))
            if kind == 'too-much' and o.get('dead_ends', True):
                dead.append([last, p])
                marks.append(p)
                texts.append((p, sp if sp not in names else '!' + sp))
            if kind == 'done' or kind == 'too-much' and o.get('dead_ends', True):
                far, high = max(far, gone), max(high, err)
        wanted.append(path)
        ends.append(last[0])
    # one curve of each run, in their order, of colours which tell them apart
    curves = [ln for ln in lines if ln.get_label() in labels]
    check_eq([ln.get_label() for ln in curves], labels, 'labelled curves')
    for ln, path in zip(curves, wanted):
        check(same_points(points(ln), path), 'the curve of {} is {} instead of {}', ln.get_label(), points(ln), path)
        check(ln.get_linestyle() == '-', 'the curve of {} is not continual', ln.get_label())
    if 'line_styles_success' not in o:
        check_eq(len(set(ln.get_color() for ln in curves)), len(curves), 'colours of curves')
    rest = [ln for ln in lines if not any(ln is c for c in curves)]
    limits = [ln for ln in rest if not ln.get_label().startswith('_')]
    rest = [ln for ln in rest if ln.get_label().startswith('_')]
    check_eq(len(limits), 0 if o.get('plot_max_error') is False else 1, 'lines of the maximal error')
    x0, x1 = ax.get_xlim()
    for ln in limits:
        ps = points(ln)
        check(all(close(y, limit) for _, y in ps), 'the line of the maximal error {} is at {}', limit, ps)
        check(min(x for x, _ in ps) <= x0 + 1e-9 and max(x for x, _ in ps) >= x1 - 1e-9, 'the line of the maximal error ends inside of the plot')
    upright = [ln for ln in rest if len(points(ln)) == 2 and points(ln)[0][0] == points(ln)[1][0] and abs(points(ln)[0][1]) > 1e6]
    rest = [ln for ln in rest if not any(ln is c for c in upright)]
    check_eq(sorted(points(ln)[0][0] for ln in upright), sorted(ends) if o.get('plot_endpoints') else [], 'end points')
    key = lambda ps: tuple((round(x, 6), round(y, 6)) for x, y in ps)
    segments = Counter(key(points(ln)) for ln in rest if len(points(ln)) == 2)
    check_eq(segments, Counter(key(s) for s in dead), 'lines to removals which cost too much')
    spots = Counter(key(points(ln)) for ln in rest if len(points(ln)) == 1)
    if not any(ln.get_marker() not in ('None', None, '', ' ') for ln in rest if len(points(ln)) == 2):
        check_eq(spots, Counter(key([p]) for p in marks), 'removals which cost too much')
    check(all(len(points(ln)) in (1, 2) for ln in rest), 'further curves')
    # annotations
    shift = o.get('annotations_shift', [0.05, -0.45])
    got = Counter((round(t.get_position()[0] if not hasattr(t, 'xy') else t.xy[0], 6), round(t.xy[1] if hasattr(t, 'xy') else t.get_position()[1], 6),
                   plain(t.get_text())) for t in ax.texts if t.get_text())
    want = Counter((round(p[0] + shift[0], 6), round(p[1] + shift[1], 6), text) for p, text in texts if text)
    check_eq(got, want if o.get('annotate') else Counter(), 'annotations')
    # what is seen
    y0, y1 = ax.get_ylim()
    if 'xlim' in o:
        check(close(x0, o['xlim'][0]) and close(x1, o['xlim'][1]), 'limits of x {}', (x0, x1))
    else:
        check(x0 < 0 and far < x1 < far + 2, '{} removed species shown between {} and {}', far, x0, x1)
    if 'ylim' in o:
        check(close(y0, o['ylim'][0]) and close(y1, o['ylim'][1]), 'limits of y {}', (y0, y1))
    else:
        check(y0 < 0 and high < y1, 'errors of up to {} shown between {} and {}', high, y0, y1)
    check_eq([t.get_text() for t in ax.get_legend().get_texts()][:len(labels)], labels, 'legend')
    if 'fig_size' in o:
        check_eq([float(x) for x in fig.get_size_inches()], [float(x) for x in o['fig_size']], 'size')


def fn_made(case, rec):
    from pygmo_fwork.optichem.reduction import compare_reduction_runs
    import matplotlib.pyplot as plt
    top = scratch_dir('c32')
    try:
        paths = [os.path.join(top, 'red %d' % k) for k in range(len(case['runs']))]
        for p, rows in zip(paths, case['runs']):
            write_run(p, rows, case['max'])
        o = dict(case['o'])
        if case['names']:
            o['spcs_annotations'] = {n: '!' + n for n in case['names']}
        files = {p: open(os.path.join(p, 'reduction_history.csv')).read() for p in paths}
        labels = o['labels'][:len(paths)] if 'labels' in o else [os.path.basename(p) for p in paths]
        with shown() as out:
            if case['bad'] == 'max' and len(paths) > 1:
                write_run(os.path.join(top, 'other'), case['runs'][0], case['max'] + 1)
                expect(AssertionError, lambda: compare_reduction_runs(*paths, os.path.join(top, 'other'), **dict(o, labels=None)), 'another maximal error')
                rec.label('refused')
                return
            if case['bad'] == 'labels':
                expect(AssertionError, lambda: compare_reduction_runs(*paths, **dict(o, labels=labels[:-1])), 'too few labels')
                rec.label('refused')
                return
            if case['save']:
                o['save_to'] = os.path.join(top, 'plot.png')
            compare_reduction_runs(*paths, **o)
            check_eq(len(out), 0 if case['save'] else 1, 'plots shown')
            if case['save']:
                check(open(o['save_to'], 'rb').read(4) == b'\x89PNG', 'no plot is saved')
            judge(out[0] if out else plt.gcf(), case['runs'], case['max'], o, labels, case['names'])
        check(files == {p: open(os.path.join(p, 'reduction_history.csv')).read() for p in paths}, 'files were changed')
        kinds = [r[0] for rows in case['runs'] for r in rows]
        rec.label('dead-end' if 'too-much' in kinds else None, 'fails' if 'fails' in kinds else None, 'several' if len(paths) > 1 else 'one',
                  'saved' if case['save'] else 'shown', 'along' if any(r[2] for rows in case['runs'] for r in rows if r[0] == 'done') else None)
        rec.label(*o)
        rec.nontrivial(len(kinds) >= 3)
    finally:
        shutil.rmtree(top)


@gen.cases
def case_run(d):
    c = c31.case(d)
    c['mode'] = 'static'
    return {'red': c, 'o': draw_options(d, 1)}


def fn_run(case, rec):
    """A reduction as the framework logs it (C31 judges the logs themselves)."""
    from pygmo_fwork.optichem.reduction import compare_reduction_runs
    red = case['red']
    held = {}
    old = c31.compare

    def look(c, r, w, it, model, run_dir):
        old(c, r, w, it, model, run_dir)
        h = pd.read_csv(os.path.join(run_dir, 'reduction_history.csv'), index_col='run_index')
        rows = []
        for k, row in enumerate(model.rows[1:], 1):
            kind = 'fails' if not row['rm_success'] else 'too-much' if row['error_base_max'] > red['max'] / 100 else 'done'
            add = h.at[k, 'rm_additional']
            rows.append([kind, row['species'], [] if add != add else str(add).split(', '), row['total_removed'],
                         100 * row.get('error_base_max', 0.)])
        with shown() as out:
            compare_reduction_runs(run_dir, **case['o'])
            check_eq(len(out), 1, 'plots shown')
            labels = case['o']['labels'][:1] if 'labels' in case['o'] else [str(red['id'])]
            judge(out[0], [rows], red['max'], case['o'], labels)
        held['rows'] = rows
    c31.compare = look
    try:
        c31.fn(red, rec)
    finally:
        c31.compare = old
    rec.nontrivial(len(held.get('rows', ())) >= 2)


SUBS = [Sub('solution', case_solution, fn_solution, quick=320, thorough=6000, shards=4, rule='two or more curves',
            must_label=('all', 'chosen', 'linear', 'log', 'temperatures', 'densities')),
        Sub('reductions', case_made, fn_made, quick=320, thorough=6000, shards=8, rule='three or more removals',
            must_label=('dead-end', 'fails', 'several', 'one', 'saved', 'shown', 'along', 'refused', 'annotate', 'dead_ends', 'plot_endpoints',
                        'plot_max_error', 'xlim', 'ylim', 'labels')),
        Sub('run', case_run, fn_run, quick=48, thorough=1600, shards=8, rule='two or more removals were tried')]
ASSUMPTIONS = ['figures are inspected as matplotlib holds them when they are shown or saved; colours and fonts are not judged beyond telling curves apart',
               'reductions which restore the network after a removal over the maximal error, as run_reduction does']
