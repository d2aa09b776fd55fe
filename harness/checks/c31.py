"""C31: a skeletal reduction removes species in the order of the ranking, keeps what costs too much, and reports what it did."""
import math
import os
import shutil
import types

import numpy as np
import pandas as pd
import yaml

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close, scratch_dir
from checks import c16, c18
from checks.c22 import expect, numpied
from checks.c29 import quiet, stubbed

KINDS = [('stick', 2), ('ret', 1), ('arrh', 2), ('protect', 2)]
COLUMNS = ['run_id', 'species', 'ranking_score', 'rm_success', 'rm_additional', 'total_removed', 'total_left', 'error_base_max',
           'error_base_rms', 'error_last_max', 'error_last_rms']
FAILS = ['value', 'status', 'interrupt']


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=10, max_species=9, min_reactions=4)
    names = [s['attrs']['name'] for s in spec['species'] if s['attrs']['name'] not in ('e', 'M')]
    ops = world.draw_ops(d, 2, KINDS) if d.bool(1, 3) else []
    eff = {n: [d.weighted([(0., 3), (0.002, 2), (-0.03, 2), (0.08, 2), (0.7, 1), (-0.6, 1)]) for _ in range(4)] for n in names}
    outs = d.perm(names)[:d.weighted([(1, 4), (2, 2), (0, 2)])] + d.subset(['e', 'Te'])
    rankings = [[[n, d.flt(0, 1)] for n in d.perm(names)] for _ in range(d.int(1, 4))]
    return {'spec': spec, 'ops': ops, 'eff': eff, 'outs': outs or ['e'], 'times': [d.int(0, 10) for _ in range(d.weighted([(d.int(1, 3), 12), (d.int(4, 9), 1)]))],
            'P': plasma.draw_params(d, c18.neutral_names(spec), t_end=d.pick([0.001, 1., 2, 1.37e-6]), constant=True),
            'fails': {n: d.pick(FAILS) for n in d.subset(names, 1, 7)}, 'max': d.weighted([(1, 1), (5., 3), (20, 1), (1000., 2)]),
            'rankings': rankings, 'drop': d.int(0, 3), 'extra': d.bool(1, 4), 'streak': d.weighted([(0, 2), (1, 2), (2, 2), (20, 3)]),
            'mode': d.weighted([('static', 3), ('dynamic', 3), ('steps', 3)]), 'back': d.bool(2, 3), 'numpy': d.bool(1, 4),
            'held': [d.int(0, 4), d.int(0, 4)], 'to': d.bool(1, 4), 'id': d.pick(['red', 'r 1', 7]), 'verbose': d.int(0, 2), 'logs': [d.bool(2, 3), d.bool(1, 4), d.bool(1, 4), d.bool()]}


class Solver:
    """Stands in for the integration: solutions given by a table of what the removal of every species does."""
    def __init__(self, case, w, P):
        self.case, self.w, self.P = case, w, P
        self.all = [w.ref.name(i) for i in w.ref.ids()]
        self.q = {w.ref.name(i): w.ref.sp[i]['k']['q'] for i in w.ref.ids()}

    def factor(self, col, removed, x):
        k = {'e': 2, 'Te': 3}.get(col, sum(map(ord, col)) % 2)
        return 1 + sum(self.case['eff'][r][k] for r in removed) * x

    def density(self, name, removed, x):
        n = {0: 1e19, 1: 1e16}.get(self.q[name], 3e16 if self.q[name] > 0 else 1e13) * (1 + sum(map(ord, name)) % 7)
        return n * max(self.factor(name, removed, x), 0.05)

    def values(self, removed, x):
        out = {n: self.density(n, removed, x) for n in self.all if n not in removed}
        out['e'] = math.fsum(self.q[n] * v for n, v in out.items())
        out['Te'] = 2.5 * max(self.factor('Te', removed, x), 0.2)  # above the temperature of the hottest gas
        return out

    def fails(self, removed):
        return next((self.case['fails'][n] for n in self.all if n in removed and n in self.case['fails']), None)

    def __call__(self, fun, t_span, y0, *args, **kw):
        here = [str(n) for n in self.w.chem.get_species_name()]
        removed = set(self.all) - set(here)
        how = self.fails(removed)
        if how == 'value':
            raise ValueError('stub')
        if how == 'interrupt':
            raise KeyboardInterrupt
        xs = [0, .3, .6, 1]
        y = []
        for x in xs:
            v = self.values(removed, x)
            y.append([v[n] for n in here] + [1.5 * v['e'] * v['Te']])
        return types.SimpleNamespace(t=np.array(xs) * t_span[1], y=np.array(y).T, nfev=1, njev=0, nlu=0, status=-1 if how else 0,
                                     message='stub', success=not how)

    def at(self, removed, col, x):
        xs = [0, .3, .6, 1]
        k = max(i for i in range(3) if xs[i] <= x)
        a, b = self.values(removed, xs[k])[col], self.values(removed, xs[k + 1])[col]
        return a + (b - a) * (x - xs[k]) / (xs[k + 1] - xs[k])

    def errors(self, full, red):
        big, rms = [], []
        for o in self.case['outs']:
            f = [self.at(full, o, x / 10) for x in self.case['times']]
            r = [self.at(red, o, x / 10) for x in self.case['times']]
            e = [2 * (b - a) / (a + max(f)) for a, b in zip(f, r)]
            big.append(max(map(abs, e)))
            rms.append(math.sqrt(math.fsum(x * x for x in e) / len(e)))
        return max(big), math.sqrt(math.fsum(x * x for x in rms) / len(rms))


class Model:
    """What a reduction should do."""
    def __init__(self, case, ref, solver, feeds):
        self.case, self.ref, self.s = case, ref, solver
        self.fixed = set(case['outs']) | set(feeds)
        self.left = {ref.name(i) for i in ref.ids(protected=False)} - self.fixed
        self.tried, self.rows, self.last = set(), [], set()
        self.states = []

    def removed(self):
        return set(self.s.all) - {self.ref.name(i) for i in self.ref.ids()}

    def base(self):
        self.rows.append({'run_id': '00_full_chemistry', 'rm_success': True, 'total_removed': 0, 'total_left': len(self.s.all),
                          'error_base_max': 0., 'error_base_rms': 0., 'error_last_max': 0., 'error_last_rms': 0.})
        self.states.append(self.ref.clone())

    def attempt(self, name, score, back):
        self.tried.add(name)
        was, before = self.ref.clone(), self.removed()
        row = {'species': name, 'ranking_score': score, 'rm_success': False}
        ok = self.ref.disable([self.ref.by_name[name]], [])
        gone = self.removed() - before
        why = 'done'
        if not ok:
            why = 'refused'
        elif gone & self.fixed:
            ok, self.ref, why = False, was, 'important'
        elif self.s.fails(self.removed()):
            ok, self.ref, why = False, was, 'fails'
        now = self.removed()
        row.update(total_removed=len(now), total_left=len(self.s.all) - len(now))
        err = None
        if ok:
            self.left -= gone
            row.update(rm_success=True, run_id='{:02d}_disabled_{}'.format(len(self.tried), name), additional=gone - {name})
            row['error_base_max'], row['error_base_rms'] = self.s.errors(set(), now)
            row['error_last_max'], row['error_last_rms'] = self.s.errors(self.last, now)
            err = row['error_base_max']
            self.states.append(self.ref.clone())
            if back and err > self.case['max'] / 100:
                self.ref = was
                self.left |= gone
                why = 'too-much'
            else:
                self.last = now
        else:
            self.states.append(None)
        self.rows.append(row)
        return why, err

    def reduce(self, ranking, streak, rec):
        """The whole loop; `ranking` answers the (name, score) pairs for the state it is asked in."""
        self.base()
        asked = [self.ref.clone()]
        todo, bad = list(ranking(0)), 0
        while todo:
            name, score = todo.pop(0)
            if name in self.tried or name not in self.left:
                continue
            why, err = self.attempt(name, score, True)
            rec.label(why)
            if why == 'too-much':
                bad += 1
            elif why == 'done':
                bad = 0
                if self.case['mode'] == 'dynamic':
                    todo = list(ranking(len(asked)))
                    asked.append(self.ref.clone())
            if bad > streak or not self.left:
                break
        return asked


def fn(case, rec):
    top = scratch_dir('c31')
    home = os.path.join(os.environ['HOME'], '.pygmofwork')
    old = open(home).read()
    try:
        with open(home, 'w') as f:
            f.write('workspace: {}\n'.format(os.path.join(top, 'ws')))
        reduce_(case, rec, top)
    finally:
        with open(home, 'w') as f:
            f.write(old)
        shutil.rmtree(top)


def reduce_(case, rec, top):
    from pygmo_fwork.config import Config
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.optichem.exceptions import ReductionInitError, ReductionRunError
    from pygmo_fwork.optichem.reduction import ReductionIterator
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    P = c16.live_params(case['P'], w.ref)
    te = P['t_end']
    gm = GlobalModel(w.chem, numpied(P, case['numpy']))
    solver = Solver(case, w, P)
    model = Model(case, w.ref.clone(), solver, P['feeds'])
    if case['to']:
        results, where = str(Config().get_reduction_results_dir()), {}
    else:
        results = os.path.join(top, 'reductions')
        where = {'reduction_results_dir': results}
        args = dict(model=gm, reduction_run_id='x', important_outputs=['e'], important_times=[te], max_error=1., verbose_level=0)
        expect(ReductionInitError, lambda: ReductionIterator(reduction_results_dir=results, **args), 'a directory which does not exist')
        os.mkdir(results)
    num = np.float64 if case['numpy'] else (lambda x: x)
    outs = np.array(case['outs']) if case['numpy'] else list(case['outs'])
    times = [num(x / 10 * te) for x in case['times']]
    held = [gen.held(k) for k in case.get('held', (0, 0))]
    make = lambda: ReductionIterator(gm, case['id'], held[0](outs), held[1](times), num(case['max']), verbose_level=case['verbose'], **where)
    if not model.left:
        expect(ReductionInitError, make, 'a chemistry of which no species can be removed')
        rec.label('nothing-to-remove')
        return
    run_dir = os.path.join(results, str(case['id']))
    it = quiet(make, case['verbose'])
    if any(case['logs'][1:]):
        it.log_solution, it.log_rates, it.log_wall_fluxes, it.compress_logs = case['logs']
    before = world.observe_all(w.chem)
    base_names = {n for n in solver.all}
    with open(os.path.join(run_dir, 'meta.yaml')) as f:
        meta = yaml.safe_load(f)
    check_eq(sorted(meta), ['important_outputs', 'important_times', 'max_error'], 'entries of meta.yaml')
    check_eq(meta['important_outputs'], case['outs'], 'logged outputs')
    check(close(meta['max_error'], case['max'], 1e-12), 'logged maximal error')
    check(len(meta['important_times']) == len(times) and all(abs(a - b) <= 1e-9 for a, b in zip(meta['important_times'], times)), 'logged times')
    check_eq({n for n in base_names if it.can_be_removed(n)}, model.left, 'species which can be removed')
    seen = []
    if case['mode'] == 'steps':
        steps(case, rec, w, it, model, solver, ReductionRunError)
    else:
        rankings = [sorted((x for x in r if x[0] in base_names), key=lambda p: p[1]) for r in case['rankings']]
        if case['drop']:
            rankings = [r[case['drop'] - 1:] for r in rankings]
        if case['extra']:
            rankings = [[['Zz', -1.], ['M', -.5]] + r for r in rankings]
        pick = lambda k: rankings[k % len(rankings)]
        series = lambda r: pd.Series([float(s) for _, s in r], index=[n for n, _ in r], dtype=float)

        def dynamic(m):
            if m is not gm:
                raise Violation('the ranking is asked for another model')
            check(m.success(), 'the ranking is asked without a solution')
            k = len(seen)
            seen.append((world.observe_sets(w.chem), [str(c) for c in m.get_solution().columns]))
            return series(pick(k))
        asked = model.reduce(pick, case['streak'], rec)
        given = dynamic if case['mode'] == 'dynamic' else series(pick(0))
        kept = None if callable(given) else given.copy()
        with stubbed(solver):
            quiet(lambda: it.run_reduction(given, **({} if case['streak'] == 0 else {'max_unsuccess_streak': case['streak']})), case['verbose'])
        if kept is not None:
            check(kept.equals(given) and list(kept.index) == list(given.index), 'the ranking of the user is changed')
        else:
            check_eq(len(seen), len(asked), 'number of rankings asked for')
            for k, (s, cols) in enumerate(seen):
                check_eq(s, world.expected_sets(asked[k]), 'state of the chemistry when ranking {} is asked for'.format(k))
        world.check_same(before, world.observe_all(w.chem), 'after the reduction: the chemistry')
    compare(case, rec, w, it, model, run_dir)
    # a further reduction does not mix with the finished one
    expect(ReductionInitError, make, 'a reduction under the id of another')
    rec.label(case['mode'])
    rec.nontrivial(sum(r['rm_success'] for r in model.rows) >= 3)


def steps(case, rec, w, it, model, solver, refused):
    names = [n for n, _ in case['rankings'][0]]
    expect(refused, lambda: it.remove_one_species_and_run(sorted(model.left)[0]), 'a removal before the base case')
    with stubbed(solver):
        quiet(it.run_base_case, case['verbose'])
        model.base()
        expect(refused, it.run_base_case, 'a second base case')
        for name, score in case['rankings'][0]:
            if name not in model.left:
                expect(refused, lambda: quiet(lambda: it.remove_one_species_and_run(name), case['verbose']), 'the removal of ' + name)
                continue
            if name in model.tried:
                continue
            why, err = model.attempt(name, score, case['back'])
            rec.label(why)
            row = quiet(lambda: it.remove_one_species_and_run(name, score, **({'backtrack_if_over_max_error': True} if case['back'] else {})), case['verbose'])
            world.check_sets(w.chem, model.ref, 'after the removal of {} ({})'.format(name, why))
            check_eq({n for n in solver.all if it.can_be_removed(n)}, model.left, 'species which can be removed after {} ({})'.format(name, why))
            same_row(row, model.rows[-1], 'answered for ' + name)
            got = pd.read_csv(os.path.join(it.reduction_run_dir, 'reduction_history.csv'), index_col='run_index')
            check_eq(len(got), len(model.rows), 'rows logged after ' + name)


def same_row(got, want, what):
    for c in ['run_id', 'species']:
        g = got[c]
        check((want.get(c) is None and (g is None or g != g)) or g == want.get(c), '{}: {} is {} instead of {}', what, c, g, want.get(c))
    check_eq(str(got['rm_success']), str(want['rm_success']), what + ': rm_success')
    for c in ['total_removed', 'total_left']:
        check_eq(int(got[c]), want[c], what + ': ' + c)
    for c in ['ranking_score', 'error_base_max', 'error_base_rms', 'error_last_max', 'error_last_rms']:
        g, x = float(got[c]), want.get(c)
        check(g != g if x is None else abs(g - x) <= 1e-7 * (abs(x) + 1e-3), '{}: {} is {} instead of {}', what, c, g, x)
    add = got['rm_additional']
    add = set() if add is None or add != add else set(str(add).split(', '))
    check_eq(add, want.get('additional') or set(), what + ': species removed along')


def compare(case, rec, w, it, model, run_dir):
    frames = {'held': it.reduction_history, 'logged': pd.read_csv(os.path.join(run_dir, 'reduction_history.csv'), index_col='run_index')}
    for where, h in frames.items():
        check_eq([str(c) for c in h.columns], COLUMNS, 'columns of the history ' + where)
        check_eq([int(i) for i in h.index], list(range(len(model.rows))), 'rows of the history ' + where)
        for k, row in enumerate(model.rows):
            same_row(h.loc[k], row, 'row {} of the history {}'.format(k, where))
    runs = [r['run_id'] for r in model.rows if r.get('run_id')]
    check_eq(sorted(os.listdir(run_dir)), sorted(runs + ['meta.yaml', 'reduction_history.csv']), 'contents of the directory of the reduction')
    sol, rates, wall = case['logs'][:3] if any(case['logs'][1:]) else (True, False, False)
    c = w.chem.copy()
    for row, state in zip(model.rows, model.states):
        if not row.get('run_id'):
            continue
        p = os.path.join(run_dir, row['run_id'])
        files = os.listdir(p)
        check_eq([f + '.csv' in files for f in ('solution', 'rates', 'wall_fluxes')], [sol, rates, wall], 'logs of ' + row['run_id'])
        c.load_chemistry_attributes(os.path.join(p, 'chemistry_attributes.yaml'))
        check_eq(sorted(c.get_species_name()), sorted(state.name(i) for i in state.ids()), 'species logged with ' + row['run_id'])
        check_eq(sorted(int(r) for r in c.get_reactions_id()), sorted(state.rids()), 'reactions logged with ' + row['run_id'])
        if sol:
            df = pd.read_csv(os.path.join(p, 'solution.csv'), index_col=0)
            check(df['t'].iloc[0] == 0 and close(df['t'].iloc[-1], case['P']['t_end'], 1e-9), 'times of the solution of ' + row['run_id'])
            removed = set(model.s.all) - {state.name(i) for i in state.ids()}
            for n in [state.name(i) for i in state.ids()] + ['Te']:
                check(close(float(df[n].iloc[-1]), model.s.values(removed, 1)[n], 1e-7), 'final {} in the solution of {}', n, row['run_id'])
    if any(r.get('additional') for r in model.rows):
        rec.label('along')


SUBS = [Sub('reduction', case, fn, quick=240, thorough=6000, shards=8, rule='at least two species were removed (for some time)',
            must_label=('static', 'dynamic', 'steps', 'done', 'too-much', 'fails', 'refused', 'important', 'along'))]
ASSUMPTIONS = ['the numerical integration is replaced by a stand-in which answers by a table of effects of the species removed',
               'important times have no more than ten decimals (they are rounded to so many)']
