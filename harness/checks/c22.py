"""C22: the life of a global model - what a run needs, when results are answered, and logs which give them back."""
import os
import pathlib
import shutil

import numpy as np
import pandas as pd
import yaml

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close, scratch_dir, solver_replaced
from checks import c16, c18

KINDS = [('disable_sp', 3), ('disable_r', 4), ('stick', 2), ('ret', 1), ('arrh', 2), ('reset', 1), ('protect', 1)]
RUN_IDS = ['a', 'run_1', 'run 2', 'Ar+ (3)']
FILES = ['chemistry_attributes.yaml', 'model_attributes.yaml', 'rates.csv', 'solution.csv', 'solver_log.yaml', 'wall_fluxes.csv']
GETTERS = ['get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes', 'get_wall_fluxes_final']
BAD_RUNS = ['run-id', 'log-to', 'el-temp', 'init-missing', 'init-extra', 'init-charge', 'init-zero', 'init-electron', 'fails']


def draw_run(d):
    good = d.bool(3, 4)
    return {'op': 'run', 'bad': None if good else d.pick(BAD_RUNS), 'id': d.weighted([(0, 7), (1, 1), (d.int(2, 3), 1)]),
            'log': d.bool(4, 5), 'to': d.weighted([('str', 5), ('path', 1), ('default', 2)]), 'overwrite': d.bool(),
            'compress': d.bool(1, 3), 'verbose': d.bool(1, 5), 'init': d.bool(), 'Y': plasma.draw_state(d), 'numpy': d.bool(1, 3),
            'Te': d.weighted([(1., 1), (d.flt(0.3, 6), 2), (2, 1)]), 'at': d.int(0, 40), 'junk': d.bool(1, 4)}


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=6, max_species=7)
    names = c18.neutral_names(spec)
    draw_p = lambda: plasma.draw_params(d, names, t_end=d.pick([1e-9, 1e-8]), constant=d.bool(2, 3))
    ops = []
    for _ in range(d.int(1, 6)):
        k = d.weighted([('run', 7), ('change', 2), ('reload', 1), ('bad-reload', 1)])
        if k == 'run':
            ops.append(draw_run(d))
        elif k == 'change':
            ops.append({'op': 'change', 'ops': world.draw_ops(d, 2, KINDS)})
        elif k == 'reload':
            ops.append({'op': 'reload', 'P': draw_p()})
        else:
            ops.append({'op': 'bad-reload', 'at': d.int(0, 10)})
    return {'spec': spec, 'P': draw_p(), 'ops': ops, 'numpy': d.bool(1, 4), 'backend': d.pick(['PyGMol', 'pygmol', 'PYGMOL']),
            'frac': [d.flt(-15, -2), d.flt(-15, -3), d.flt(-15, -3)]}


def numpied(P, yes):
    P = dict(P, feeds=dict(P['feeds']), power=list(P['power']), t_power=list(P['t_power']))
    if yes:
        P['power'], P['t_power'] = np.array(P['power']), np.array(P['t_power'])
        P['feeds'] = {k: np.float64(v) for k, v in P['feeds'].items()}
        P['pressure'], P['radius'] = np.float64(P['pressure']), np.float64(P['radius'])
    return P


def snapshot(path):
    out = {}
    for root, _, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as s:
                out[os.path.relpath(p, path)] = s.read()
    return out


def same_frame(got, want, what, rows=None):
    """Equal up to the last digits of the decimal notation in the logs."""
    check_eq([str(c) for c in got.columns], [str(c) for c in want.columns], what + ': columns')
    check_eq([type(c) is str for c in got.columns], [type(c) is str for c in want.columns], what + ': types of the column labels')
    check_eq(len(got), len(want), what + ': rows')
    check_eq([int(i) for i in got.index], [int(i) for i in want.index], what + ': index')
    g, w = np.array(got, dtype=float), np.array(want, dtype=float)
    bad = ~((g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= 1e-10 * np.abs(w)))
    check(not bad.any(), '{}: differs at {}', what, [(float(g[i][j]), float(w[i][j])) for i, j in np.argwhere(bad)[:3]])


def fn(case, rec):
    path = scratch_dir('c22')
    home = os.path.join(os.environ['HOME'], '.pygmofwork')
    old = open(home).read()
    try:
        with open(home, 'w') as f:  # a workspace of its own for runs which are logged to the default place
            f.write('workspace: {}\n'.format(os.path.join(path, 'ws')))
        life(case, rec, path)
    finally:
        with open(home, 'w') as f:
            f.write(old)
        shutil.rmtree(path)


def expect(exc, call, what):
    try:
        call()
    except exc:
        return
    raise Violation(what + ' is not refused')


def life(case, rec, path):
    from pygmo_fwork import exceptions as X
    from pygmo_fwork.global_model import GlobalModel
    from pygmo_fwork.pygmol.exceptions import ModelParametersError, ModelParametersConsistencyError, ModelParametersTypeError, \
        EquationsParametersConsistencyError, ModelSolutionError
    from pygmo_fwork.results import ResultsParser
    w = world.World(case['spec'])
    P = case['P']
    res = os.path.join(path, 'results')
    os.mkdir(res)
    default = os.path.join(path, 'ws', 'results', 'pygmol')
    expect(X.GlobalModelAttributeError, lambda: GlobalModel(w.chem, P, backend='pygmo'), 'an unknown backend')
    gm = GlobalModel(w.chem, c16.passed(numpied(P, case['numpy'])), backend=case['backend'])
    state, own = None, None  # None / False / True, and the tables of the last run
    logged = {}
    runs = 0

    def look(when):
        if state is None:
            expect(X.BackendNoRunError, gm.success, when + ': asking for success without a run')
        else:
            check_eq(gm.success(), state, when + ': success')
        for g in GETTERS:
            if state is True:
                got = getattr(gm, g)()
                if g.endswith('_final'):
                    last = own[g[:-6]].iloc[-1]
                    last = last if g == 'get_solution_final' else last.drop('t')
                    check_eq([str(i) for i in got.index], [str(i) for i in last.index], '{}: {}'.format(when, g))
                    check(all(close(a, b) for a, b in zip(got.values, last.values)), '{}: {} is not the last row', when, g)
                else:
                    same_frame(got, own[g], '{}: {}'.format(when, g))
            else:
                expect(X.BackendNoRunError if state is None else X.BackendRunUnsuccessfulError, getattr(gm, g),
                       '{}: {} without a successful run'.format(when, g))
        check_eq((gm.num_species(), gm.num_reactions()), (len(w.ref.ids()), len(w.ref.rids())), when + ': numbers of species and reactions')
        check(gm.model.chemistry is w.chem, '{}: another chemistry', when)
        check_eq(gm.model.model_params['p'], P['pressure'], when + ': pressure')
        check_eq(gm.model.model_params['feeds'], P['feeds'], when + ': feeds')

    look('new')
    for n, op in enumerate(case['ops']):
        when = 'step {}'.format(n)
        if op['op'] == 'change':
            for o in op['ops']:
                w.apply(o)
            look(when + ' (chemistry changed)')
            rec.label('changed')
            continue
        if op['op'] == 'reload':
            live = {w.ref.name(i) for i in w.ref.ids()}
            op['P']['feeds'] = {k: v for k, v in op['P']['feeds'].items() if k in live}
            if set(P['feeds']) - live and op['P'] == P:
                continue
            gm.reload_model_parameters(c16.passed(numpied(op['P'], case['numpy'])))
            P, state = op['P'], None
            look(when + ' (reloaded)')
            rec.label('reloaded')
            continue
        if op['op'] == 'bad-reload':
            bad = numpied(P, False)
            at = op['at'] % 4
            if at == 0:
                bad.pop('pressure')
            elif at == 1:
                bad['pressure'] = -1
            elif at == 2:
                bad['feeds'] = dict(bad['feeds'], **{'no such species': 1.})
            else:
                bad['t_power'] = [0] * len(bad['t_power'])
            expect((ModelParametersError, ModelParametersConsistencyError, ModelParametersTypeError, EquationsParametersConsistencyError),
                   lambda: gm.reload_model_parameters(bad), when + ': reloading bad parameters')
            look(when + ' (refused reload)')
            rec.label('bad-reload')
            continue
        # ---- a run
        pl = plasma.Plasma(w.ref, P)
        names, q = pl.names, pl.q
        if not any(x == 0 for x in q):
            return
        fed_gone = not set(P['feeds']) <= set(names)
        given = None
        if op['init'] or op['bad'] in ('init-missing', 'init-extra', 'init-charge', 'init-zero', 'init-electron'):
            y = plasma.make_y(pl, dict(op['Y'], odd=None))
            given = dict(zip(names, y[:-1]))
            if op['numpy']:
                given = {k: np.float64(v) for k, v in given.items()}
            if sum(a * given[k] for k, a in zip(names, q)) <= 0:
                continue
        where = {'str': res, 'path': pathlib.Path(res), 'default': None}[op['to']]
        place = default if where is None else res
        rid = RUN_IDS[op['id']]
        kw = dict(run_id=rid, init_el_temp=op['Te'], init_n=given, log_results=op['log'], log_to=where, verbose=op['verbose'],
                  overwrite=op['overwrite'], compress_logs=op['compress'])
        if op['bad']:
            b, at = op['bad'], op['at']
            exc = X.GlobalModelInitialGuessError
            if b == 'run-id':
                kw.update(run_id=[None, 3, True, ('a',)][at % 4], log_results=True)
                exc = X.GlobalModelAttributeError
            elif b == 'log-to':
                kw.update(log_to=os.path.join(path, 'nowhere'), log_results=True)
                exc = X.GlobalModelLogError
            elif b == 'el-temp':
                kw.update(init_el_temp=[0, 0., -1, -1e-9][at % 4])
            elif b == 'init-missing':
                given.pop(names[at % len(names)])
            elif b == 'init-extra':
                given['no such species'] = 1e10
            elif b == 'init-electron':
                given['e'] = 1e10
            elif b == 'init-charge':
                for k, x in zip(names, q):
                    given[k] = 0. if x > 0 else given[k]
            elif b == 'init-zero':
                for k in given:
                    given[k] = 0.
            elif b == 'fails':
                def giving_up(real):
                    def gives_up(*a, **k):
                        if at % 2:
                            raise ValueError('solver')
                        sol = real(*a, **k)
                        sol.success, sol.status, sol.message = False, -1, 'step size'
                        return sol
                    return gives_up
                before = snapshot(path)
                with solver_replaced(giving_up):
                    if fed_gone:
                        exc = EquationsParametersConsistencyError
                    else:
                        exc = ModelSolutionError
                    with c18.at_most(20):
                        expect(exc, lambda: gm.run(**kw), when + ': a run which the solver gives up')
                state = False
                if kw['log_to'] is not None or not op['log']:
                    check_eq(snapshot(path), before, when + ': files after a failed run')
                look(when + ' (failed run)')
                rec.label('fails')
                continue
            before = snapshot(path)
            expect(exc, lambda: gm.run(**kw), '{}: a run with bad {}'.format(when, b))
            state = False
            check_eq(snapshot(path), before, when + ': files after a refused run')
            look(when + ' (refused run)')
            rec.label('refused', b)
            continue
        run_dir = os.path.join(place, rid)
        exists = os.path.isdir(run_dir)
        if exists and op['junk']:
            with open(os.path.join(run_dir, 'notes.txt'), 'w') as f:
                f.write('left by someone')
        before = snapshot(path)
        arg = dict(given) if given is not None else None
        outcome = 'ok'
        try:
            with c18.at_most(20):
                gm.run(**kw)
        except X.GlobalModelLogError:
            outcome = 'exists'
        except EquationsParametersConsistencyError:
            check(fed_gone, '{}: parameters with feeds {} refused for {}', when, P['feeds'], names)
            outcome = 'feeds'
        except ModelSolutionError:
            outcome = 'unsolved'
        except c18.Slow:
            return
        check_eq(given, arg, when + ': initial densities passed in')
        check(fed_gone == (outcome == 'feeds'), '{}: a feed of a species which is disabled is accepted', when)
        if outcome in ('feeds', 'unsolved'):
            state = False
            check_eq(snapshot(path), before, when + ': files after an unsuccessful run')
            look(when + ' (unsuccessful run)')
            rec.label(outcome)
            continue
        state = True
        runs += 1
        own = {g: getattr(gm.model, g)() for g in GETTERS if not g.endswith('_final')}
        y0 = own['get_solution'].iloc[0]
        if given is not None:
            check(all(close(y0[k], float(v), 1e-12) for k, v in given.items()), '{}: starts from {}', when, y0.to_dict())
        else:
            want = gm.generate_initial_n()
            check(all(close(y0[k], v, 1e-12) for k, v in want.items()), '{}: starts from {}', when, y0.to_dict())
        must = op['log'] and exists and not op['overwrite']
        check(must == (outcome == 'exists'), '{}: results already logged are {}', when, 'refused' if outcome == 'exists' else 'replaced')
        after = snapshot(path)
        rel = os.path.relpath(run_dir, path) + os.sep
        check_eq({k: v for k, v in after.items() if not k.startswith(rel)}, {k: v for k, v in before.items() if not k.startswith(rel)},
                 when + ': other files')
        if outcome == 'exists' or not op['log']:
            check_eq(after, before, when + ': files without logging')
            rec.label('kept' if outcome == 'exists' else 'not-logged')
        else:
            check_eq(sorted(k[len(rel):] for k in after if k.startswith(rel)), FILES, when + ': logged files')
            want_init = {'init_el_temp': float(op['Te']),
                         'init_n': {k: float(v) for k, v in (given if given is not None else gm.generate_initial_n()).items()}}
            chem = gen.build(case['spec'])
            chem.load_chemistry_attributes(os.path.join(run_dir, 'chemistry_attributes.yaml'))
            check(world.observe_all(chem) == world.observe_all(w.chem), '{}: the logged chemistry attributes give another chemistry', when)
            logged[(place, rid)] = (own, dict(P), want_init, op['compress'])
            rec.label('overwritten' if exists else 'logged', op['to'])
            if op['compress']:
                rec.label('compressed')
        look(when + ' (run)')
    # ---- everything logged can be fetched again
    for (place, rid), (tabs, params, init, compressed) in logged.items():
        calls = [(ResultsParser(nominal_results_dir=place), {}), (ResultsParser(), {'results_dir': place})]
        if place == default:
            calls += [(ResultsParser(), {}), (ResultsParser(nominal_backend='PyGMol'), {}),
                      (ResultsParser(nominal_results_dir=res), {'backend': 'pygmol'})]
        for k, (rp, kw) in enumerate(calls):
            for f, g in (('fetch_solution', 'get_solution'), ('fetch_rates', 'get_rates'), ('fetch_wall_fluxes', 'get_wall_fluxes')):
                got = getattr(rp, f)(rid, **kw)
                want = tabs[g]
                if compressed:
                    check(len(got) >= 1 and set(got.index) <= set(want.index), 'compressed {} of {} has rows {}', f, rid, list(got.index))
                    check({want.index[0], want.index[-1]} <= set(got.index), 'compressed {} of {} lost its first or last row', f, rid)
                    if len(ResultsParser.compress_solution(want)) < 0.5 * len(want):
                        rec.label('shortened')
                        check(len(got) < len(want), 'compressed {} of {} has all {} rows', f, rid, len(want))
                    want = want.loc[list(got.index)]
                same_frame(got, want, '{} of {!r}'.format(f, rid))
            got = rp.fetch_model_params(rid, **kw)
            check_eq(got, params, 'logged model parameters of {!r}'.format(rid))
            got = rp.fetch_initial_params(rid, **kw)
            check_eq(got, init, 'logged initial parameters of {!r}'.format(rid))
            for f in ('fetch_solution', 'fetch_rates', 'fetch_wall_fluxes', 'fetch_model_params', 'fetch_initial_params'):
                expect(X.ResultsNotFoundError, lambda: getattr(rp, f)('no such run', **kw), f + ' of a run which does not exist')
                expect(X.ResultsNotFoundError, lambda: getattr(rp, f)(rid, **dict(kw, **{
                    'attributes_dump_name' if 'params' in f else 'file_name': 'missing'})), f + ' of a missing file')
                expect(X.ResultsAttributeError, lambda: getattr(rp, f)(rid, backend='pygmol', results_dir=place), f + ' of two places')
            GlobalModel(gen.build(case['spec']), got_params(rp, rid, kw))  # may be used again
        other = os.path.join(place, rid, 'other.csv')
        shutil.copy(os.path.join(place, rid, 'rates.csv'), other)
        same_frame(ResultsParser(nominal_results_dir=place).fetch_rates(rid, file_name='other.csv'),
                   calls[0][0].fetch_rates(rid), 'rates under another file name')
    if logged:
        rec.label('fetched')
    rec.nontrivial(runs >= 2 or logged)
    # ---- initial densities of any documented fractions
    P2 = c16.live_params(P, w.ref)
    pl = plasma.Plasma(w.ref, P2)
    if not any(x == 0 for x in pl.q):
        return
    f = [10. ** x for x in case['frac']]
    n = gm.generate_initial_n(*f)
    check_eq(list(n), pl.names, 'keys of the initial densities')
    check(all(type(v) is float for v in n.values()), 'types of the initial densities')
    nt = pl.p0 / (plasma.K_B * pl.Tg)
    q = pl.q
    check(close(sum(n.values()), nt, 1e-9), 'initial densities add up to {!r}, pressure and temperature make {!r}', sum(n.values()), nt)
    ne = sum(a * n[k] for a, k in zip(q, pl.names))
    mag = sum(abs(a) * n[k] for a, k in zip(q, pl.names))
    check(close(ne, nt * f[0], 1e-9, atol=1e-12 * mag), 'initial electron density {!r}, asked for a fraction {}', ne, f[0])
    fed = [i for i in range(len(q)) if pl.feeds[i] > 0]
    for i, k in enumerate(pl.names):
        if q[i] < 0:
            check(close(n[k], nt * f[1], 1e-9), 'initial density of {} is {!r}', k, n[k])
        if q[i] == 0 and fed and i not in fed:
            check(close(n[k], nt * f[2], 1e-9), 'initial density of {} is {!r}', k, n[k])
        if i in fed and q[i] == 0:
            check(close(n[k] * pl.feeds[fed[0]], n[pl.names[fed[0]]] * pl.feeds[i], 1e-9), 'initial density of {} is {!r}', k, n[k])


def got_params(rp, rid, kw):
    p = rp.fetch_model_params(rid, **kw)
    return dict(p)


SUBS = [Sub('life', case, fn, quick=360, thorough=5000, shards=8, rule='at least two successful runs, or a logged run fetched again',
            must_label=('fetched', 'overwritten', 'kept', 'not-logged', 'compressed', 'refused', 'fails', 'reloaded', 'bad-reload',
                        'changed', 'default', 'path'))]
ASSUMPTIONS = ['real solve_ivp runs of 1e-9 to 1e-8 s; failing integrations are also injected by replacing solve_ivp',
               'run identifiers are plain directory names']
