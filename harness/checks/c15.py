"""C15: laws of the model's right-hand side: conservation, signs and bounds, and invariance (no reference values needed)."""
import copy
import math

import numpy as np

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close
from checks import c16


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=8, large=20, excited=d.bool(2, 3))
    ops = [] if d.bool(1, 3) else world.draw_ops(d, 3, c16.KINDS)
    names = [s['attrs']['name'] for s in spec['species'] if s['k']['name'] not in ('e', 'M')]
    P = plasma.draw_params(d, names)
    return {'spec': spec, 'ops': ops, 'P': P, 'Y': plasma.draw_state(d), 'dm': d.weighted([(1, 4), (0, 1)]),
            'perm_s': d.perm(list(range(len(spec['species'])))), 'perm_r': d.perm(list(range(len(spec['reactions'])))),
            'r': d.int(0, 40), 'scale': d.pick([2., 0.25, 10.])}


def near(got, want, mag, what, rtol=1e-9):
    if not close(got, want, rtol, atol=rtol * mag):
        raise Violation('{}: {!r} instead of {!r}'.format(what, float(got), float(want)))


def equations(w, P, dm):
    from pygmo_fwork.pygmol.equations import Equations
    e = Equations(w.chem, dict(P))
    e.diffusion_model = dm
    return e


def permuted(case):
    spec = case['spec']
    ps, pr = case['perm_s'], case['perm_r']
    pos = {old: new for new, old in enumerate(ps)}
    out = {'species': [spec['species'][i] for i in ps], 'reactions': []}
    for j in pr:
        r = copy.deepcopy(spec['reactions'][j])
        r['lhs'] = [pos[i] for i in r['lhs']]
        r['rhs'] = [pos[i] for i in r['rhs']]
        out['reactions'].append(r)
    return out


def fn(case, rec):
    w, pl, eqs, P = c16.make(case)
    ref = w.ref
    y = np.array(plasma.make_y(pl, case['Y']))
    o = pl.evaluate(y)
    if not c16.usable(o):
        return
    N = len(pl.ids)
    n = np.array(y[:-1])
    q = np.array(pl.q)
    rates = np.array(eqs.get_reaction_rates(y), dtype=float)
    vol = np.array(eqs.get_volumetric_source_rates(y), dtype=float)

    # --- reactions conserve every element and charge
    mag = np.array(o['~volumetric_source_rates'])
    elements = sorted({e for i in pl.ids for e in ref.sp[i]['k']['comp']})
    for el in elements:
        c = np.array([ref.sp[i]['k']['comp'].get(el, 0) for i in pl.ids])
        near(float(np.sum(c * vol)), 0., float(np.sum(c * mag)), 'reactions create {}'.format(el), 1e-9)
    de = sum((R.count(pl.e) - L.count(pl.e)) * x for L, R, x in zip(pl.lhs, pl.rhs, rates))
    near(float(np.sum(q * vol)), de, float(np.sum(np.abs(q) * mag)), 'net charge of heavy species created against electrons created', 1e-9)
    # --- energy: electrons born carry their mean energy, every electron collision costs its loss, power spreads over the volume
    Te = o['electron_temperature']
    near(float(eqs.get_drho_dt_gain_loss(y)), 1.5 * Te * de, o['~drho_dt_gain_loss'], 'energy of the electrons born or lost')
    loss = np.array(eqs.get_el_en_losses(y), dtype=float)
    near(float(eqs.get_drho_dt_el_inel(y)), math.fsum(l * r for l, r, c in zip(loss, rates, pl.elc) if c),
         o['~drho_dt_el_inel'], 'energy lost in electron collisions')
    tt = 0.37 * P['t_end']
    near(float(eqs.get_drho_dt_ext(tt)) * pl.V * plasma.E_CH, float(eqs.get_power_ext(tt)), max(P['power']), 'absorbed power', 1e-7)
    check((rates >= 0).all() or (n < 0).any(), 'a reaction rate is negative: {}', rates.tolist())

    # --- flow: charged species only by feeds; the totals follow the pressure only
    flow = np.array(eqs.get_flow_source_rates(y), dtype=float)
    feed = np.array(pl.feeds) * plasma.SCCM / pl.V
    for i in range(N):
        if q[i] != 0:
            near(flow[i], feed[i], feed[i], 'flow of the ion {}'.format(pl.names[i]), 1e-9)
    neu = float(np.sum(n[q == 0]))
    p = plasma.K_B * pl.Tg * float(np.sum(n))
    if (q == 0).any():  # with ions only there is nothing to pump out
        near(float(np.sum(flow)), -neu * (p - pl.p0) / pl.p0 / 1e-3, float(np.sum(o['~flow_source_rates'])),
             'total flow in and out against the pressure regulation', 1e-9)

    # --- walls
    if o['ok']:
        wall = np.array(eqs.get_wall_fluxes(y), dtype=float)
        sinks = np.array(eqs.get_diffusion_sinks(y), dtype=float)
        src = np.array(eqs.get_diffusion_sources(y), dtype=float)
        R = np.zeros((N, N))
        for j, i in enumerate(pl.ids):
            for name, c in (pl.rc[i] or {}).items():
                if name in pl.names:
                    R[pl.names.index(name), j] = c
        physical = all(x > 0 for x in o['mean_free_paths']) and (n >= 0).all()
        for i in range(N):
            if pl.s[i] == 0:
                check(sinks[i] == 0, '{} does not stick but is lost to walls at {}', pl.names[i], sinks[i])
            elif physical:
                check(sinks[i] <= 0, '{} is created at the walls by sticking ({})', pl.names[i], sinks[i])
                if case['dm'] == 1:
                    lim = pl.s[i] * n[i] * math.sqrt(8 * plasma.K_B * (pl.Tg if q[i] == 0 else o['ion_temperature'])
                                                     / math.pi / pl.m[i]) / 4
                    check(-wall[i] <= lim * (1 + 1e-9), 'flux of {} to the wall {} is above its thermal flux {}',
                          pl.names[i], -wall[i], lim)
        near(float(np.sum(wall * pl.area)), float(np.sum(sinks * pl.V)), float(np.sum(np.abs(wall))) * pl.area,
             'losses in the volume against fluxes through the surface', 1e-7)
        for i in range(N):
            want = float(np.sum(R[i] * -sinks))
            near(src[i], want, float(np.sum(R[i] * np.abs(sinks))), 'return of {} from walls'.format(pl.names[i]), 1e-9)

        net = sinks + src
        near(float(eqs.get_drho_dt_el_walls(y)), -2 * Te * float(np.sum(q * net)), o['~drho_dt_el_walls'],
             'energy which electrons take to the walls')
        volts = float(eqs.get_sheath_voltage(y))
        near(float(eqs.get_drho_dt_ions_walls(y)), -float(np.sum(((0.5 * Te + volts * q) * net)[q > 0])), o['~drho_dt_ions_walls'],
             'energy which ions take to the walls')

    # --- order of species and reactions does not matter
    f, _ = eqs.get_objective_functions()
    t = 0.37 * P['t_end']
    base = np.array(f(t, y), dtype=float)
    magn = np.r_[np.array(o['~dn_dt']), c16.scale_of(o) + o['min_rho_correction'] + max(P['power']) / pl.V / plasma.E_CH]
    if o['ok']:
        terms = [float(eqs.get_drho_dt_ext(t))] + [-float(getattr(eqs, 'get_drho_dt_' + k)(y))
                                                   for k in ('el_inel', 'gain_loss', 'el_walls', 'ions_walls')] \
            + [float(eqs.get_min_rho_correction(y))]
        near(base[-1], math.fsum(terms), math.fsum(map(abs, terms)), 'd rho / dt against the sum of its terms')
        near_all = [vol, flow, np.array(eqs.get_diffusion_source_rates(y)), np.array(eqs.get_min_n_correction(y))]
        for i in range(N):
            near(base[i], math.fsum(float(x[i]) for x in near_all), magn[i], 'change of {} against the sum of its terms'.format(pl.names[i]))
        alt = np.array(eqs.get_dy_dt(t, y), dtype=float)
        for i in range(N + 1):
            near(alt[i], base[i], magn[i], 'get_dy_dt against the objective function, component {}'.format(i))
        w2 = world.World(permuted(case))
        rid = {x: x for x in ref.rorder}
        w2.ref.stick, w2.ref.ret, w2.ref.arrh = dict(ref.stick), dict(ref.ret), dict(ref.arrh)
        for i, v in ref.stick.items():
            w2.chem.set_adhoc_species_attributes('stick_coef', i, v)
        for i, v in ref.ret.items():
            w2.chem.set_adhoc_species_attributes('ret_coefs', i, dict(v))
        for i, v in ref.arrh.items():
            w2.chem.set_adhoc_reactions_attributes('arrh_a', i, v)
        dr = [r for r in ref.rorder if r not in ref.er]
        ds = [s for s in ref.order if s not in ref.es]
        if dr or ds:
            w2.chem.disable(species=tuple(ds), reactions=tuple(dr))
            w2.ref.disable(ds, dr)
        check_eq((w2.ref.es, w2.ref.er), (ref.es, ref.er), 'harness: same state')
        e2 = equations(w2, P, case['dm'])
        at = {s: k for k, s in enumerate(pl.ids)}
        order = [at[i] for i in w2.ref.ids()]
        y2 = np.r_[y[:-1][order], y[-1]]
        out = np.array(e2.get_objective_functions()[0](t, y2), dtype=float)
        for k, i in enumerate(order):
            near(out[k], base[i], magn[i], 'rate of change of {} with species and reactions in another order'.format(pl.names[i]), 1e-8)
        near(out[-1], base[-1], magn[-1], 'd rho / dt with species and reactions in another order', 1e-8)

        # --- a disabled reaction acts as one with a zero coefficient; rates are proportional to the coefficient
        r = pl.rids[case['r'] % len(pl.rids)]
        j = pl.rids.index(r)
        a = pl.A[j] / gen.SI[ref.r[r]['units']['arrh_a']]
        w3 = world.World(case['spec'])
        for op in case['ops']:
            w3.apply(op)
        w3.chem.set_adhoc_reactions_attributes('arrh_a', r, a * case['scale'])
        e3 = equations(w3, P, case['dm'])
        got = np.array(e3.get_reaction_rates(y), dtype=float)
        want = rates.copy()
        want[j] *= case['scale']
        for k in range(len(rates)):
            near(got[k], want[k], 1e-200, 'rate of reaction {} with the coefficient of reaction {} scaled'.format(pl.rids[k], r))
        if not ref.would_refuse([], [r]) and ref.fixpoint([], [r])[0] == ref.es and ref.fixpoint([], [r])[1] == ref.er - {r}:
            w3.chem.set_adhoc_reactions_attributes('arrh_a', r, 0.)
            zero = np.array(equations(w3, P, case['dm']).get_objective_functions()[0](t, y), dtype=float)
            w3.chem.disable(reactions=(r,))
            w3.chem.reset_adhoc_reactions_attributes('all')
            for i, v in ref.arrh.items():
                if i != r:
                    w3.chem.set_adhoc_reactions_attributes('arrh_a', i, v)
            gone = np.array(equations(w3, P, case['dm']).get_objective_functions()[0](t, y), dtype=float)
            for i in range(N + 1):
                near(gone[i], zero[i], magn[i], 'component {} with reaction {} disabled against one with zero coefficient'.format(i, r))
            rec.label('reaction-removed')
    rec.label(*gen.tag(case['spec']))
    if any(pl.feeds):
        rec.label('feeds')
    if any(c for x in pl.rc.values() for c in (x or {}).values()):
        rec.label('returns')
    if o['ok'] and any(s == 0 for s, qq in zip(pl.s, pl.q) if qq < 0):
        rec.label('non-sticking-negative')
    rec.nontrivial(o['ok'] and (rates > 0).any() and N >= 2)


SUBS = [Sub('laws', case, fn, quick=1500, thorough=15000, shards=8,
            rule='defined transport, at least two heavy species and one running reaction',
            must_label=('reaction-removed', 'feeds', 'returns', 'negative-ion', 'M', 'doubly-charged'))]
ASSUMPTIONS = ['sums are compared within 1e-9 (1e-8 for other orders) of the sum of the magnitudes of their terms',
               'signs and bounds of wall losses are asserted for non-negative densities and positive mean free paths']
