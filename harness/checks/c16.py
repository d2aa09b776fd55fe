"""C16: every partial result and right-hand side of the model's equations against an independent scalar reference."""
import numpy as np

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close

KINDS = [('disable_sp', 4), ('disable_r', 4), ('stick', 2), ('ret', 2), ('arrh', 1)]
SCALARS = ['total_density', 'total_pressure', 'ion_temperature', 'electron_density', 'electron_temperature',
           'debye_length', 'ambipolar_diffusivity_pos', 'ambipolar_diffusivity_neg', 'drho_dt_el_inel',
           'drho_dt_gain_loss', 'drho_dt_el_walls', 'sheath_voltage', 'drho_dt_ions_walls', 'min_rho_correction',
           'electron_energy_density']
VECTORS = ['density_vector', 'reaction_rate_coefficients', 'reaction_rates', 'volumetric_source_rates',
           'flow_source_rates', 'mean_speeds', 'sigma_sc', 'mean_free_paths', 'free_diffusivities', 'diffusivities',
           'wall_fluxes', 'diffusion_sinks', 'diffusion_sources', 'diffusion_source_rates', 'min_n_correction', 'dn_dt',
           'el_en_losses']
TRANSPORT = {'sigma_sc', 'mean_free_paths', 'free_diffusivities', 'diffusivities', 'wall_fluxes', 'diffusion_sinks',
             'diffusion_sources', 'diffusion_source_rates', 'dn_dt', 'drho_dt_el_walls', 'drho_dt_ions_walls',
             'ambipolar_diffusivity_pos'}


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=8, large=20, excited=d.bool(2, 3))
    for r in spec['reactions']:
        if sorted(r['lhs']) == sorted(r['rhs']) and d.bool(1, 4):
            r['attrs']['elastic'] = False
        if r['attrs'].get('el_en_loss') is not None and d.bool(1, 6):
            r['attrs']['el_en_loss'] = -gen.fnum(r['attrs']['el_en_loss'])  # superelastic
    ops = [] if d.bool(1, 3) else world.draw_ops(d, 4, KINDS)
    names = [s['attrs']['name'] for s in spec['species'] if s['k']['name'] not in ('e', 'M')]
    P = plasma.draw_params(d, names)
    if d.bool(1, 8):
        P['temp_gas'] = d.flt(4000, 15000)  # hotter than ions of 0.5 eV
    return {'spec': spec, 'ops': ops, 'P': P, 'Y': [plasma.draw_state(d) for _ in range(d.int(1, 3))],
            'dm': d.weighted([(1, 4), (0, 1)]), 'order': d.perm(list(range(len(SCALARS) + len(VECTORS)))),
            't': [d.int(0, 1000) for _ in range(3)]}


def live_params(P, ref):
    """The parameters, feeding only species which are still in the chemistry."""
    names = {ref.name(i) for i in ref.ids()}
    return dict(P, feeds={n: v for n, v in P['feeds'].items() if n in names}, power=list(P['power']),
                t_power=list(P['t_power']))


def passed(P):
    """The parameters in one of the forms in which a user may pass them: a dictionary, of some names for them, or a ModelParameters."""
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    k = int(P['pressure'] * 7919) % 4
    if k == 1:
        return ModelParameters(P)
    if k == 2:
        alias = {'radius': 'R', 'length': 'Z', 'pressure': 'p', 'power': 'P', 't_power': 'time_P', 'temp_gas': 'Tg', 'feeds': 'feed_flows', 't_end': 'end_time'}
        return {alias[x]: v for x, v in P.items()}
    return dict(P)


def make(case):
    """(world, reference plasma, Equations) of a case."""
    from pygmo_fwork.pygmol.equations import Equations
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    P = live_params(case['P'], w.ref)
    pl = plasma.Plasma(w.ref, P, diffusion_model=case.get('dm', 1))
    eqs = Equations(w.chem, passed(P))
    eqs.diffusion_model = case.get('dm', 1)
    return w, pl, eqs, P


def compare(name, got, o, rtol=1e-7):
    want = o[name]
    g = np.asarray(got, dtype=float)
    wa = np.asarray(want, dtype=float)
    check(g.shape == wa.shape, '{}: shape {} instead of {}', name, g.shape, wa.shape)
    mag = np.asarray(o.get('~' + name, np.abs(wa)), dtype=float)
    for i, (x, y, m) in enumerate(zip(g.ravel(), wa.ravel(), np.broadcast_to(mag, wa.shape).ravel())):
        if not close(x, y, rtol, atol=rtol * abs(m)):
            raise Violation('{}[{}] is {!r}, the equations give {!r}'.format(name, i, float(x), float(y)))


def scale_of(o):
    """Magnitudes of the terms of drho_dt."""
    return sum(abs(o['~' + k]) for k in ('drho_dt_el_inel', 'drho_dt_gain_loss', 'drho_dt_el_walls', 'drho_dt_ions_walls'))


def usable(o):
    return o['electron_density'] > 0 and o['total_density'] > 0


def fn(case, rec):
    w, pl, eqs, P = make(case)
    names = SCALARS + VECTORS
    f, jac = eqs.get_objective_functions()
    check(jac is None, 'a jacobian is returned although none was asked for')
    ys, refs = [], []
    for st in case['Y']:
        y = np.array(plasma.make_y(pl, st))
        o = pl.evaluate(y)
        if not usable(o):
            continue
        ys.append(y)
        refs.append(o)
        if st['odd'] is not None and any(x < 1 for x in o['density_vector']):
            rec.label('min-density')
        rec.label('transport' if o['ok'] else 'degenerate-transport')
        if o['electron_temperature'] > o['electron_energy_density'] / o['electron_density'] / 1.5 * 1.001:
            rec.label('cold-electrons')
        if o['electron_energy_density'] < 1:
            rec.label('low-energy')
        if o['total_pressure'] < plasma.MTORR:
            rec.label('below-mtorr')
    for k in case['order']:
        name = names[k]
        for y, o in zip(ys, refs):
            if name in TRANSPORT and not o['ok']:
                continue
            before = y.copy()
            compare(name, getattr(eqs, 'get_' + name)(y), o)
            check(np.array_equal(before, y), 'get_{} changed the state it was given', name)
    first = []
    for rnd in (0, 1):
        for n, (y, o) in enumerate(zip(ys, refs)):
            if not o['ok']:
                continue
            for a in case['t']:
                t = P['t_end'] * a / 1000.
                before = y.copy()
                out = np.array(f(t, y), dtype=float)
                check(np.array_equal(before, y), 'the objective function changed the state it was given')
                check_eq(out.shape, (len(pl.ids) + 1,), 'shape of the right-hand side')
                compare('dn_dt', out[:-1], o)
                lo, hi = pl.power_range(t, 1.01e-5 * P['t_end'])
                rest = -(o['drho_dt_el_inel'] + o['drho_dt_gain_loss'] + o['drho_dt_el_walls'] + o['drho_dt_ions_walls']) \
                    + o['min_rho_correction']
                ext = [x / pl.V / plasma.E_CH for x in (lo, hi)]
                tol = 1e-7 * (scale_of(o) + abs(ext[1]) + o['min_rho_correction'])
                check(ext[0] + rest - tol <= out[-1] <= ext[1] + rest + tol, 'd rho / dt is {!r}, the equations give '
                      '{!r} … {!r}', float(out[-1]), ext[0] + rest, ext[1] + rest)
                if rnd == 0:
                    first.append(out)
                else:
                    old = first.pop(0)
                    check(np.array_equal(old, out, equal_nan=True), 'the right-hand side of the same state differs '
                          'between two calls: {} and {}', old.tolist(), out.tolist())
    rec.label(*gen.tag(case['spec']))
    rec.label('disabled' if (len(w.ref.es) < len(w.ref.order) or len(w.ref.er) < len(w.ref.rorder)) else 'full')
    if any(x and y for x, y in zip(pl.elc, pl.els)):
        rec.label('elastic-electron')
    if any(len(x) == 3 for x in pl.lhs):
        rec.label('three-body')
    rec.nontrivial(any(o['ok'] for o in refs) and len(pl.ids) >= 2)


def fn_power(case, rec):
    w, pl, eqs, P = make(case)
    te = P['t_end']
    ts = [te * a / 1000. for a in case['t']]
    first, last = P['t_power'][0], P['t_power'][-1]
    ts += [first - te, first - 1e-3 * te, last + 1e-3 * te, 3 * last, last - 0.01 * te]
    ts += [first + (last - first) * a / 1000. for a in case['t']]
    T = P['t_power']
    for x in T:
        ts += [x + s * te for s in (-3e-5, 3e-5, 0.)]
    for a, b in zip(T, T[1:]):
        if 0 < b - a < 2e-4 * te:
            ts += [a + f * (b - a) for f in (-1, .25, .5, .75, 1, 2)]
            rec.label('ramp')
    ends = [(T[max(i - 1, 0)], T[min(i + 2, len(T) - 1)]) for i in range(len(T) - 1) if T[i] == T[i + 1]]  # lines which end at a step
    for t in ts:
        got = float(eqs.get_power_ext(t))
        near = any(a - 1e-4 * te <= t <= b + 1e-4 * te for a, b in ends)
        lo, hi = pl.power_range(t, 1.01e-5 * te if near else 1e-14 * (te + abs(t)))
        tol = 1e-9 * max(1., max(P['power']))
        check(lo - tol <= got <= hi + tol, 'power at t = {} (t_end = {}) is {!r}, the profile {} at {} gives {} … {}', t,
              te, got, P['power'], P['t_power'], lo, hi)
        ext = float(eqs.get_drho_dt_ext(t))
        check(close(ext, got / (pl.V * plasma.E_CH), 1e-7), 'absorbed power density {!r} for {} W in {} m3', ext, got, pl.V)
    check_eq(list(P['t_power']), list(case['P']['t_power']), 'the power profile passed in was changed')
    rec.label('step' if len(set(T)) < len(T) else 'no-step', 'int' if all(isinstance(x, int) for x in T) else 'float')
    rec.nontrivial(len(set(P['power'])) > 1)


@gen.cases
def case_power(d):
    spec = gen.draw_chemistry(d, rich=False, realistic=True, max_reactions=1, max_families=1, excited=False)
    P = plasma.draw_params(d, [])
    T = P['t_power']
    if d.bool(1, 2) and not all(isinstance(x, int) for x in T):
        for i in range(len(T) - 1):
            if T[i] == T[i + 1] and d.bool(2, 3):  # a steep ramp instead of a step
                T[i + 1] = T[i] + P['t_end'] * 10 ** d.flt(-9, -4)
    return {'spec': spec, 'ops': [], 'P': P, 't': [d.int(0, 1000) for _ in range(8)]}


SUBS = [
    Sub('rhs', case, fn, quick=2000, thorough=20000, shards=8,
        rule='at least two heavy species and a state whose transport cross sections are all defined (Debye logarithm > 0.05)',
        must_label=('transport', 'low-energy', 'cold-electrons', 'min-density', 'below-mtorr', 'elastic-electron', 'three-body', 'disabled',
                    'negative-ion', 'M')),
]
ASSUMPTIONS = ['constants are the CODATA 2018 values; tolerance 1e-7 relative to the sum of the magnitudes of the terms',
               'states have a positive electron density; where the Debye logarithm of an ion pair is below 0.05 (outside '
               'the formula\'s range) transport is not compared']
