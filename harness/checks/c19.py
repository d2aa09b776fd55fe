"""C19: the tables of a run (solution, rates, fluxes, any diagnosed quantity) hold the right numbers under the right labels."""
import contextlib
import os
import shutil

import numpy as np
import yaml

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close, scratch_dir, solver_replaced
from checks import c16, c18

SCALARS = [s for s in c16.SCALARS]
SPECIES = ['density_vector', 'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'mean_free_paths',
           'free_diffusivities', 'diffusivities', 'wall_fluxes', 'diffusion_sinks', 'diffusion_sources',
           'diffusion_source_rates', 'min_n_correction', 'dn_dt']
REACTIONS = ['reaction_rate_coefficients', 'reaction_rates', 'el_en_losses']
KINDS = [('disable_sp', 3), ('disable_r', 5), ('stick', 2), ('ret', 1), ('arrh', 3), ('reset', 1)]


def draw_case(d, run):
    one = d.bool(1, 5)
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=1 if one else 7, min_reactions=0 if one else 1,
                              max_families=1 if one else 3, max_species=7, excited=not one and d.bool(2, 3))
    ops = [] if d.bool() else world.draw_ops(d, 3, c16.KINDS)
    P = plasma.draw_params(d, c18.neutral_names(spec), t_end=d.pick([1e-9, 1e-8, 1e-7]) if run else None, constant=run)
    return {'spec': spec, 'ops': ops, 'P': P, 'Y': [plasma.draw_state(d) for _ in range(d.int(1, 4))],
            'more': world.draw_ops(d, 3, KINDS), 'order': d.perm(SCALARS + SPECIES + REACTIONS)[:d.int(3, 33)],
            'Te': d.weighted([(1., 1), (d.flt(0.3, 6), 2)]), 'init': d.bool(),
            'fail': d.weighted([('no', 2), ('charge', 2), ('solver', 2), ('unfed', 1)])}


@gen.cases
def case_diagnose(d):
    return draw_case(d, False)


@gen.cases
def case_run(d):
    return draw_case(d, True)


def check_table(df, quantity, pl, evals, t, totals, what):
    if quantity in SCALARS:
        cols = ['value']
    elif quantity in SPECIES:
        cols = list(pl.names)
    else:
        cols = list(pl.rids)
    check_eq([c if isinstance(c, str) else int(c) for c in df.columns], ['t'] + cols + (['total'] if totals else []),
             '{}: columns of {}'.format(what, quantity))
    check_eq(len(df), len(evals), '{}: number of rows of {}'.format(what, quantity))
    for k, (o, (_, row)) in enumerate(zip(evals, df.iterrows())):
        check(close(row['t'], t[k]), '{}: time of row {} is {!r} instead of {!r}', what, k, row['t'], t[k])
        if o is None or (quantity in c16.TRANSPORT and not o['ok']):
            continue
        vals = [row[c] for c in cols]
        c16.compare(quantity, vals[0] if quantity in SCALARS else vals, o, 1e-6)
        if totals:
            mag = sum(abs(v) for v in vals)
            check(close(row['total'], sum(vals), 1e-9, atol=1e-9 * mag), '{}: total of {} is {!r}, its columns make {!r}', what,
                  quantity, row['total'], sum(vals))


def fn_diagnose(case, rec):
    from pygmo_fwork.pygmol.model import Model
    w, pl, eqs, P = c16.make(case)
    model = Model(w.chem, c16.passed(P))
    ys = [np.array(plasma.make_y(pl, st)) for st in case['Y']]
    evals = [pl.evaluate(y) for y in ys]
    if not all(c16.usable(o) for o in evals):
        return
    t = np.array([0.001 * k * P['t_end'] for k in range(len(ys))])
    model.t, model.sol_primary = t, np.array(ys)
    snap = model.sol_primary.copy()
    for k, quantity in enumerate(case['order']):
        totals = k % 3 == 1
        if k % 2:
            df = model.diagnose(quantity, totals=totals)
        else:
            df = model.diagnose(quantity, sol_primary=np.array(ys), totals=totals)
        check_table(df, quantity, pl, evals, t, totals, 'diagnose')
    for name, quantity in (('get_rates', 'reaction_rates'), ('get_wall_fluxes', 'wall_fluxes')):
        df = getattr(model, name)()
        check_table(df, quantity, pl, evals, t, False, name)
        last = getattr(model, name + '_final')()
        check_eq([c if isinstance(c, str) else int(c) for c in last.index], list(pl.rids if name == 'get_rates' else pl.names),
                 name + '_final labels')
        check(all(close(last[c], df.iloc[-1][c]) for c in last.index), '{}_final differs from the last row', name)
    # a solution which is passed, with no run or a run of other times: the same values under the same labels
    for k, quantity in enumerate(case['order'][:4]):
        m = Model(w.chem, c16.passed(P)) if k % 2 else model
        n = 1 + k % 3 if not k % 2 else len(ys)
        some = [ys[i % len(ys)] for i in range(n + (1 if not k % 2 and n == len(ys) else 0))]
        df = m.diagnose(quantity, sol_primary=np.array(some), totals=k > 1)
        df['t'] = -1.
        check_table(df, quantity, pl, [evals[i % len(ys)] for i in range(len(some))], [-1.] * len(some), k > 1, 'diagnose of a passed solution')
    check(np.array_equal(snap, model.sol_primary), 'a diagnosis changed the solution')
    check_eq((model.dimension(), model.num_species(), model.num_reactions()), (len(pl.ids) + 1, len(pl.ids), len(pl.rids)),
             'dimension, number of species, number of reactions')
    S, R = len(pl.ids), len(pl.rids)
    rec.label('one-reaction' if R == 1 else 'square' if R == S else 'square+1' if R == S + 1 else 'other')
    rec.nontrivial(all(o['ok'] for o in evals) and len(case['order']) >= 5)


def check_solution(model, pl, P, what):
    N = len(pl.ids)
    ys, t = np.array(model.sol_primary), np.array(model.t)
    check_eq(ys.shape, (len(t), N + 1), what + ': shape of the primary solution')
    check(t[0] == 0 and (np.diff(t) > 0).all(), '{}: times do not ascend from 0: {}', what, t.tolist())
    if model.success():
        check(close(t[-1], P['t_end'], 1e-9), '{}: the run ends at {!r} instead of {!r}', what, t[-1], P['t_end'])
    df = model.get_solution()
    check_eq(sorted(df.columns), sorted(['t'] + pl.names + ['e', 'Te', 'Tg', 'p']), what + ': columns of the solution')
    check_eq(df.columns[0], 't', what + ': first column of the solution')
    evals = []
    rows = range(len(t)) if len(t) <= 12 else sorted(set(list(range(0, len(t), max(1, len(t) // 10))) + [len(t) - 1]))
    for k in rows:
        o = pl.evaluate(ys[k])
        if not (o['electron_density'] > 1e-9 * sum(abs(a * b) for a, b in zip(ys[k], pl.q))):
            o = None
        evals.append(o)
        row = df.iloc[k]
        want = dict(zip(pl.names, ys[k]), t=t[k], Tg=pl.Tg)
        if o is not None:
            want.update(e=o['electron_density'], Te=o['electron_temperature'], p=o['total_pressure'])
        for c, v in want.items():
            check(close(row[c], v, 1e-6), '{}: {} in row {} is {!r}, the solution makes {!r}', what, c, k, row[c], v)
    last = model.get_solution_final()
    check_eq(list(last.index), list(df.columns), what + ': labels of the final solution')
    check(all(close(last[c], df.iloc[-1][c]) for c in df.columns), '{}: the final solution is not the last row', what)
    for name, quantity in (('get_rates', 'reaction_rates'), ('get_wall_fluxes', 'wall_fluxes')):
        tab = getattr(model, name)()
        check_eq(len(tab), len(t), '{}: rows of {}'.format(what, name))
        check_table(tab.iloc[list(rows)], quantity, pl, evals, t[list(rows)], False, what + ', ' + name)
    return len(t), evals


TABLES = ('get_solution', 'get_solution_final', 'get_rates', 'get_rates_final', 'get_wall_fluxes', 'get_wall_fluxes_final')


def tables(m):
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError
    out = []
    for g in TABLES:
        try:
            out.append(getattr(m, g)())
        except ModelSolutionError:
            out.append(None)
    return out


def check_failing(how, model, pl, rec):
    """A further run which is refused or fails leaves the tables of the solution before it, or none, but never a mixture."""
    from pygmo_fwork.pygmol.exceptions import InitialSolutionError, ModelSolutionError
    if how == 'no':
        return
    before = tables(model)
    init = {n: (1e20 if q == 0 else 0.) for n, q in zip(pl.names, pl.q)} if how == 'charge' else None
    replaced = None
    if how == 'solver':
        def replaced(*a, **k):
            raise ValueError('array must not contain infs or NaNs')
    with solver_replaced(lambda real: replaced) if replaced else contextlib.nullcontext():
        try:
            if how == 'unfed':
                model.run(init_n={'Xx': 1.})
            else:
                model.run(init_n=init)
        except (InitialSolutionError, ModelSolutionError):
            pass
        else:
            raise Violation('a run without electrons or solution is accepted ({})', how)
    for g, a, b in zip(TABLES, before, tables(model)):
        check(b is None or a.equals(b), '{} after a {} run which failed is neither the table of the run before nor none:\n{}\n{}', g, how, a, b)
    rec.label('failed-' + how)


def fn_run(case, rec):
    from pygmo_fwork.pygmol.exceptions import ModelSolutionError
    from pygmo_fwork.pygmol.model import Model
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    P = c16.live_params(case['P'], w.ref)
    model = Model(w.chem, c16.passed(P))
    for g in ('get_solution', 'get_rates', 'get_wall_fluxes'):
        try:
            getattr(model, g)()
        except ModelSolutionError:
            pass
        else:
            raise Violation('{} answers before the model was run'.format(g))

    def go(m, pl):
        init = None
        if case['init']:
            y = plasma.make_y(pl, dict(case['Y'][0], odd=None))
            init = dict(zip(pl.names, y[:-1]))
        try:
            with c18.at_most(20):
                m.run(init_el_temp=case['Te'], init_n=init)
        except ModelSolutionError:
            return None
        except c18.Slow:
            return None
        check(m.success(), 'a run which failed did not raise')
        return True

    pl = plasma.Plasma(w.ref, P)
    if not any(q == 0 for q in pl.q):
        return
    if not go(model, pl):
        rec.label('unsolved')
        return
    frames, evals = check_solution(model, pl, P, 'first run')
    rec.nontrivial(frames > 2 and any(o is not None for o in evals))
    sol1 = model.get_solution()
    sol1.iloc[:, 1] = -1.
    check(not (model.get_solution().iloc[:, 1] == -1.).all(), 'get_solution hands out the stored table')
    path = scratch_dir('c19')
    try:
        model.dump_logs(path)
        files = os.listdir(path)
        check_eq(len(files), 1, 'log files of the solver')
        log = yaml.safe_load(open(os.path.join(path, files[0])))
        check(log['success'] is True, 'solver log {}', log)
    finally:
        shutil.rmtree(path)

    # --- the model follows changes of its chemistry when it is run again
    fed = {w.ref.by_name[n] for n in P['feeds']}
    changed = False
    for op in case['more']:
        if op['op'].startswith('disable'):
            sps, rs = w.resolve_disable(op)
            if fed - w.ref.fixpoint(sps, rs)[0] and not w.ref.would_refuse(sps, rs):
                continue
        before = w.ref.key()
        w.apply(op)
        changed = changed or w.ref.key() != before
    pl2 = plasma.Plasma(w.ref, P)
    if not any(q == 0 for q in pl2.q):
        return
    check_failing(case.get('fail', 'no'), model, pl2, rec)
    if not go(model, pl2):
        return
    check_solution(model, pl2, P, 'second run')
    fresh = Model(w.chem, c16.passed(P))
    if go(fresh, pl2):
        check(np.array_equal(np.array(model.sol_primary), np.array(fresh.sol_primary), equal_nan=True),
              'a model run again after its chemistry changed gives another solution than a new model')
        if changed:
            rec.label('rerun-changed')
    S, R = len(pl.ids), len(pl.rids)
    rec.label('one-reaction' if R == 1 else 'square' if R == S else 'other')


SUBS = [
    Sub('diagnose', case_diagnose, fn_diagnose, quick=700, thorough=8000, shards=8,
        rule='at least five quantities of states with defined transport', must_label=('one-reaction', 'square', 'square+1')),
    Sub('run', case_run, fn_run, quick=400, thorough=5000, shards=8,
        rule='a solved run of more than two frames with a positive electron density',
        must_label=('rerun-changed', 'one-reaction', 'square', 'failed-solver', 'failed-charge')),
]
ASSUMPTIONS = ['real solve_ivp runs over 1e-9 to 1e-7 s; runs the solver gives up (or needs over 20 s for) are not judged']
