"""C09: rate coefficients follow the documented Arrhenius forms, in nominal and SI units, for reaction and model alike."""
import math

import numpy as np

import gen
import plasma
import world
from checks import c16
from checks.c07 import make_rps
from core import Sub, check, check_eq, close


@gen.cases
def case(d):
    sp = gen.draw_species(d, max_families=2)
    table = gen.conserving_table(sp)
    lhs, rhs = gen.draw_reaction(d, sp, table)
    attrs, units = gen.draw_kinetics(d, sp, lhs, types=d.bool())
    el = gen.is_electron_lhs(sp, lhs)
    return {'sp': sp, 'lhs': lhs, 'rhs': rhs, 'attrs': attrs, 'units': units,
            'temps': [d.logflt(-1, 2) if el else d.logflt(2, 4) for _ in range(3)],
            'ratios': [d.flt(10, 400) for _ in range(2)]}


def rate(el, a, b, c, temp):
    x = temp if el else temp / 300.
    return a * x ** b * math.exp(-c / temp)


def fn(case, rec):
    from plaschem.exceptions import ReactionValueError
    from plaschem.reactions import Reaction
    sp, a = case['sp'], case['attrs']
    rps = make_rps(sp)
    r = Reaction(1, [rps[i] for i in case['lhs']], [rps[i] for i in case['rhs']],
                 attributes={k: gen.untag(v) for k, v in a.items()}, units=case['units'])
    el = gen.is_electron_lhs(sp, case['lhs'])
    A, b, c = gen.fnum(a['arrh_a']), gen.fnum(a.get('arrh_b', 0)), gen.fnum(a.get('arrh_c', 0))
    si = gen.SI[case['units']['arrh_a']]
    rec.label('electron' if el else 'heavy', case['units']['arrh_a'])
    rec.nontrivial(A and (b or c))
    # temperatures far below the activation energy too: the law has no cut-off
    cold = [c / x for x in case.get('ratios', ()) if c > 0]
    cold = [t for t in cold if (1e-3 if el else 1.) <= t <= (1e2 if el else 1e4)]
    rec.label('cold' if cold else None)
    for t in case['temps'] + cold:
        want = rate(el, A, b, c, t)
        check(close(r.get_rate_coefficient(t, si_units=False), want, 1e-9), 'nominal k({}) of {}: {} != {}', t, r,
              r.get_rate_coefficient(t, si_units=False), want)
        check(close(r.get_rate_coefficient(t), want * si, 1e-9), 'SI k({}) of {}: {} != {}', t, r, r.get_rate_coefficient(t), want * si)
        check(close(r.get_rate_coefficient(t, si_units=True), want * si, 1e-9), 'SI k')
    r2 = Reaction(1, [rps[i] for i in case['lhs']], [rps[i] for i in case['rhs']], special_number=4)
    for s in (True, False):
        try:
            r2.get_rate_coefficient(case['temps'][0], si_units=s)
        except ReactionValueError:
            continue
        check(False, 'a rate coefficient without Arrhenius data')



@gen.cases
def case_model(d):
    spec = gen.draw_chemistry(d, rich=False, realistic=d.bool(1, 3), types=d.bool(), max_reactions=8, special_number=False)
    P = plasma.draw_params(d, [], constant=True)
    return {'spec': spec, 'ops': world.draw_ops(d, 4, [('disable_sp', 2), ('disable_r', 3), ('arrh', 5), ('reset', 1), ('reset_adhoc', 1)]),
            'P': P, 'Te': [d.logflt(-1, 2) for _ in range(2)], 'x': [d.int(0, 1000) for _ in range(12)]}


def fn_model(case, rec):
    """The model evaluates every reaction at the temperature its law asks for, whatever else the chemistry holds."""
    w, pl, eqs, P = c16.make(case)
    ref = w.ref
    for te in case['Te']:
        n = [10. ** (18 + 3 * x / 1000.) for x in case['x'][:len(pl.ids)]] + [1e18] * (len(pl.ids) - 12)
        n = [v * (1e-3 if q < 0 else 1.) for v, q in zip(n, pl.q)]
        ne = sum(a * b for a, b in zip(n, pl.q))
        if ne <= 0:
            continue
        te = max(te, 1.001 * P['temp_gas'] * plasma.K_B / plasma.E_CH)
        y = np.array(n + [1.5 * ne * te])
        got = np.asarray(eqs.get_reaction_rate_coefficients(y), dtype=float)
        check_eq(got.shape, (len(pl.rids),), 'number of rate coefficients')
        for j, r in enumerate(pl.rids):
            a = ref.r[r]['attrs']
            b, c = (gen.fnum(a[k]) if a.get(k) is not None else 0. for k in ('arrh_b', 'arrh_c'))
            t = te if pl.elc[j] else P['temp_gas']
            try:
                want = rate(pl.elc[j], ref.arrh_a(r), b, c, t)
            except OverflowError:
                continue
            check(close(got[j], want, 1e-6), 'k of reaction {} ({}) at Te = {} eV, Tg = {} K is {!r}, not {!r}', r,
                  [ref.name(i) for i in pl.lhs[j]], te, P['temp_gas'], float(got[j]), want)
            obj = w.chem.get_reactions().at[r]
            own = rate(pl.elc[j], gen.fnum(a['arrh_a']) * gen.SI[ref.r[r]['units']['arrh_a']], b, c, t)
            check(close(obj.get_rate_coefficient(t), own, 1e-9), 'k of the reaction object {}', r)
            rec.label('electrons-2' if pl.lhs[j].count(pl.e) > 1 else 'electron' if pl.elc[j] else 'heavy')
            if c < 0:
                rec.label('negative-c')
        rec.nontrivial(len(pl.rids) > 1)
    rec.label('override' if ref.arrh else 'nominal')


SUBS = [Sub('rates', case, fn, quick=5000, thorough=60000, shards=4,
            rule='Arrhenius data in every unit and number type, at three temperatures; non-trivial when the value depends on '
                 'temperature', must_label=('electron', 'heavy', 's-1', 'cm3.s-1', 'm3.s-1', 'cm6.s-1', 'm6.s-1', 'cold')),
        Sub('model', case_model, fn_model, quick=900, thorough=15000, shards=4,
            rule='rate coefficients of the model equations after a history; non-trivial with more than one reaction',
            must_label=('electrons-2', 'electron', 'heavy', 'negative-c', 'override', 'nominal'))]
