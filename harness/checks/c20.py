"""C20: the neutral variant: chemistry accepts only neutrals, equations and runs follow the reference without electrons."""
import numpy as np

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close
from checks import c15, c16, c18, c19

KINDS = [('disable_sp', 4), ('disable_r', 4), ('stick', 2), ('ret', 2), ('arrh', 1)]
NAMES = ['density_vector', 'total_density', 'total_pressure', 'reaction_rate_coefficients', 'reaction_rates',
         'volumetric_source_rates', 'flow_source_rates', 'mean_speeds', 'sigma_sc', 'mean_free_paths',
         'free_diffusivities', 'min_n_correction']


def neutral_class():
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry
    return NeutralChemistry


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=6, charged=False, min_reactions=2)
    ops = [] if d.bool() else world.draw_ops(d, 3, KINDS)
    P = plasma.draw_params(d, c18.neutral_names(spec), t_end=d.pick([1e-8, 1e-6, 1e-4]))
    return {'spec': spec, 'ops': ops, 'P': P, 'Y': [plasma.draw_state(d) for _ in range(d.int(1, 3))],
            'init': d.weighted([('default', 1), ('given', 1), ('bad', 1)]), 'perm': d.int(0, 10 ** 6)}


TABLES = ['total_density', 'total_pressure', 'density_vector', 'reaction_rate_coefficients', 'reaction_rates', 'volumetric_source_rates',
          'flow_source_rates', 'mean_speeds', 'mean_free_paths', 'free_diffusivities', 'diffusivities', 'wall_fluxes', 'diffusion_sinks',
          'diffusion_sources', 'diffusion_source_rates', 'min_n_correction', 'dn_dt']


def fn(case, rec):
    from pygmo_fwork.pygmol.neutral_model import NeutralEquations, NeutralModel
    from pygmo_fwork.pygmol.exceptions import InitialSolutionError, ModelSolutionError
    w = world.World(case['spec'], cls=neutral_class(), charged=False)
    for op in case['ops']:
        w.apply(op)
    if len(w.ref.ids()) < 2 or not w.ref.rids():
        return
    P = c16.live_params(case['P'], w.ref)
    pl = plasma.Plasma(w.ref, P, neutral=True)
    N = len(pl.ids)
    eqs = NeutralEquations(w.chem, dict(P))
    f, _ = eqs.get_objective_functions()
    outs = []
    for rnd in (0, 1):
        for st in case['Y']:
            y = np.array(plasma.make_y(pl, st))
            o = pl.evaluate(y)
            if not o['ok']:
                continue
            rec.nontrivial()
            before = y.copy()
            for name in NAMES:
                c16.compare(name, getattr(eqs, 'get_' + name)(y), o)
            check_eq(float(eqs.get_electron_density(y)), 0., 'electron density')
            # what only concerns charged particles changes nothing of a neutral gas, whoever passes it along
            v, k_r = np.array(eqs.get_mean_speeds(y)), np.array(eqs.get_reaction_rate_coefficients(y))
            hot = 2. * pl.Tg + 100.
            c16.compare('mean_speeds', eqs.get_mean_speeds(y, hot), o)
            c16.compare('reaction_rate_coefficients', eqs.get_reaction_rate_coefficients(y, 3.7), o)
            c16.compare('sigma_sc', eqs.get_sigma_sc(y, v, 1e-4), o)
            c16.compare('reaction_rates', eqs.get_reaction_rates(y, k_r=k_r), o)
            check(np.isnan(eqs.get_electron_temperature(y)), 'electron temperature of a neutral gas')
            out = np.array(f(0.5 * P['t_end'], y), dtype=float)
            check(np.array_equal(before, y), 'the objective function changed the state it was given')
            check_eq(out.shape, (N + 1,), 'shape of the right-hand side')
            c16.compare('dn_dt', out[:-1], o)
            check_eq(float(out[-1]), 0., 'd rho / dt')
            for el in sorted({e for i in pl.ids for e in w.ref.sp[i]['k']['comp']}):
                c = np.array([w.ref.sp[i]['k']['comp'].get(el, 0) for i in pl.ids])
                vol = np.array(eqs.get_volumetric_source_rates(y))
                c15.near(float(np.sum(c * vol)), 0., float(np.sum(c * np.array(o['~volumetric_source_rates']))),
                         'reactions create ' + el)
            if rnd == 0:
                outs.append(out)
            else:
                check(np.array_equal(outs.pop(0), out), 'the right-hand side of the same state differs between two calls')
    # --- a run
    if case['init'] == 'bad':
        model = NeutralModel(w.chem, c16.passed(P))
        bad = {n: 1e20 for n in pl.names}
        if case['perm'] % 2:
            bad.pop(pl.names[case['perm'] % N])
        else:
            bad['no such species'] = 1.
        try:
            with c18.at_most(20):
                model.run(init_n=bad)
        except InitialSolutionError:
            rec.label('refused')
            return
        raise Violation('inconsistent initial densities are accepted: {}'.format(bad))
    given = None
    if case['init'] == 'given':
        y = plasma.make_y(pl, dict(case['Y'][0], odd=None))
        dens = dict(zip(pl.names, y[:-1]))
        given = {k: dens[k] for k in sorted(dens, key=lambda x: c18.hash_of(x, case['perm']))}
    model = NeutralModel(w.chem, c16.passed(P))
    try:
        with c18.at_most(20):
            model.run(init_n=dict(given) if given else None)
    except (ModelSolutionError, c18.Slow):
        rec.label('unsolved')
        return
    rec.label('run')
    t, ys = np.array(model.t), np.array(model.sol_primary)
    check(t[0] == 0 and close(t[-1], P['t_end']), 'the run goes from {} to {} instead of to {}', t[0], t[-1], P['t_end'])
    nt = pl.p0 / (plasma.K_B * pl.Tg)
    if given:
        for n, x in zip(pl.names, ys[0]):
            check(close(x, given[n], 1e-12), 'initial density of {} is {!r}, asked for {!r}', n, x, given[n])
    else:
        fed = [i for i in range(N) if pl.feeds[i] > 0]
        check(close(float(np.sum(ys[0][:-1])), nt, 1e-9), 'initial total density {!r} instead of {!r}', float(np.sum(ys[0][:-1])), nt)
        for i in range(N):
            if fed and i not in fed:
                check(0 < ys[0][i] < 1e-9 * nt, 'species {} which is not fed starts with {!r} of {!r}', pl.names[i], ys[0][i], nt)
            else:
                j = fed[0] if fed else 0
                want = ys[0][j] * (pl.feeds[i] / pl.feeds[j] if fed else 1.)
                check(close(ys[0][i], want, 1e-9), 'initial density of {}: {!r}, expected {!r}', pl.names[i], ys[0][i], want)
    df = model.get_solution()
    check_eq(sorted(df.columns), sorted(['t'] + pl.names + ['e', 'Te', 'Tg', 'p']), 'columns of the solution')
    for k in sorted({0, len(t) // 2, len(t) - 1}):
        o = pl.evaluate(ys[k])
        for n, x in zip(pl.names, ys[k]):
            check(close(df.iloc[k][n], x, 1e-12), '{} in row {} is {!r} instead of {!r}', n, k, df.iloc[k][n], x)
        check(close(df.iloc[k]['p'], o['total_pressure'], 1e-9), 'pressure in row {}', k)
        check_eq(float(df.iloc[k]['e']), 0., 'electron density in row {}'.format(k))
        check(close(df.iloc[k]['t'], t[k]) and close(df.iloc[k]['Tg'], pl.Tg), 'time or temperature in row {}', k)
        rates = model.get_rates()
        check_eq([c if c == 't' else int(c) for c in rates.columns], ['t'] + list(pl.rids), 'columns of the rates')
        c16.compare('reaction_rates', [rates.iloc[k][c] for c in rates.columns[1:]], o)
    # everything of the heavy particles, tabulated for all times
    evals = [pl.evaluate(y) for y in ys]
    for k, quantity in enumerate(TABLES):
        totals = (k + case['perm']) % 3 == 0
        c19.check_table(model.diagnose(quantity, totals=totals), quantity, pl, evals, t, totals, 'diagnose')
    c19.check_table(model.get_wall_fluxes(), 'wall_fluxes', pl, evals, t, False, 'get_wall_fluxes')
    last = model.get_wall_fluxes_final()
    check_eq(list(last.index), list(pl.names), 'labels of the last wall fluxes')


@gen.cases
def case_refuse(d):
    charged = d.bool()
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=4, max_species=6, charged=charged, min_reactions=1)
    return {'spec': spec, 'charged': charged, 'extra': d.weighted([(None, 1), ('e', 2), ('+', 1), ('-', 1), ('+-', 1)]), 'at': d.int(0, 20)}


def fn_refuse(case, rec):
    """A neutral chemistry is accepted, any with an electron or an ion is not."""
    from plaschem.exceptions import ChemistryConsistencyError
    cls = neutral_class()
    spec = dict(case['spec'], species=list(case['spec']['species']), reactions=list(case['spec']['reactions']))
    bad = case['charged']
    if not bad and case['extra']:
        bad = True
        sid = max(s['id'] for s in spec['species']) + 1
        rid = max(r['id'] for r in spec['reactions']) + 1
        heavy = [i for i, s in enumerate(spec['species']) if s['k']['name'] not in ('e', 'M')]
        i = heavy[case['at'] % len(heavy)]
        for x in [case['extra']] if case['extra'] == 'e' else case['extra']:
            if x == 'e':
                attrs, k = {'name': 'e', 'mass': gen.E_MASS, 'charge': -1}, {'name': 'e', 'q': -1, 'comp': {}, 'state': None}
            else:
                n = 'Kr' + x
                attrs = {'name': n, 'mass': 83.8, 'charge': 1 if x == '+' else -1, 'ret_coefs': {}}
                k = {'name': n, 'q': attrs['charge'], 'comp': {'Kr': 1}, 'state': None}
            spec['species'].append({'id': sid, 'attrs': attrs, 'units': {}, 'k': k})
            j = len(spec['species']) - 1
            spec['reactions'].append({'id': rid, 'lhs': [j, i], 'rhs': [j, i], 'attrs': {'arrh_a': 1.},
                                      'units': {'arrh_a': 'm3.s-1'}})
            sid, rid = sid + 1, rid + 1
        rec.label('extra ' + case['extra'])
    if bad:
        try:
            gen.build(spec, cls)
        except ChemistryConsistencyError:
            rec.nontrivial()
            return
        raise Violation('a neutral chemistry with charged species is accepted: {}'.format(gen.names_of(spec)))
    chem = gen.build(spec, cls)
    names = [s['attrs']['name'] for s in spec['species']]
    check_eq(list(chem.get_species_name(special=True)), names, 'species of the neutral chemistry')
    for m in ('lhs', 'rhs', 'net'):
        s = chem.get_reactions_stoich_coefs_electron(method=m)
        check_eq(([int(i) for i in s.index], [float(x) for x in s.values]),
                 ([r['id'] for r in spec['reactions']], [0.] * len(spec['reactions'])), 'electron stoichiometry')
    rec.label('accepted')
    rec.nontrivial()


SUBS = [
    Sub('model', case, fn, quick=500, thorough=6000, shards=8, rule='two or more species and a state compared with the reference',
        must_label=('run', 'refused')),
    Sub('refuse', case_refuse, fn_refuse, quick=300, thorough=3000, shards=4, rule='every case',
        must_label=('accepted', 'extra e', 'extra +', 'extra -', 'extra +-')),
]
ASSUMPTIONS = ['gases of at least two species (the mean free path of a gas of one is undefined in this model)']
