"""C06: for every mask combination all per-species / per-reaction views line up and hold each member's own value."""
import numpy as np

import gen
import world
from core import Sub, check, check_eq, close

KINDS = [('disable_sp', 5), ('disable_r', 5), ('protect', 1), ('protect_any', 1), ('reset', 1), ('stick', 1), ('ret', 2), ('arrh', 1)]


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, max_reactions=7, large=20, special_number=d.bool(1, 4), types=d.bool(1, 3))
    return {'spec': spec, 'ops': world.draw_ops(d, 4, KINDS)}


def same(x, y):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, (dict, str)) or isinstance(y, (dict, str)):
        return x == y
    return close(x, y, 1e-12)


def check_views(w, rec):
    ref, chem, spec = w.ref, w.chem, w.spec
    num = {'mass': None, 'h_form': 0., 'lj_epsilon': 0., 'lj_sigma': 3.}
    for dis in (False, True):
        for spc in (False, True):
            for pro in (False, True):
                ids = ref.ids(dis, spc, pro)
                args = dict(disabled=dis, special=spc, protected=pro)
                sp = chem.get_species(**args)
                check_eq(list(sp.index), ids, 'get_species index {}'.format(args))
                check_eq([s.id for s in sp], ids, 'get_species ids {}'.format(args))
                check_eq(list(chem.get_species_id(**args)), ids, 'get_species_id {}'.format(args))
                check_eq(chem.num_species(**args), len(ids), 'num_species {}'.format(args))
                for g in ('name', 'charge', 'mass', 'h_form', 'lj_epsilon', 'lj_sigma', 'stick_coef', 'ret_coefs'):
                    s = getattr(chem, 'get_species_' + g)(**args)
                    check_eq([int(i) for i in s.index], ids, '{} index {}'.format(g, args))
                    for i in ids:
                        a, name = ref.sp[i]['attrs'], ref.name(i)
                        if g == 'name':
                            want = name
                        elif g == 'charge':
                            want = None if name == 'M' else ref.sp[i]['k']['q']
                        elif g == 'stick_coef':
                            want = ref.stick_coef(i)
                        elif g == 'ret_coefs':
                            want = ref.ret_coefs(i)
                        elif name == 'M' or (name == 'e' and g != 'mass'):
                            want = None
                        else:
                            want = gen.fnum(a[g]) if a.get(g) is not None else num[g]
                        check(same(world.val(s.at[i]), want), '{} of {} under {}: {!r}, expected {!r}', g, name, args,
                              s.at[i], want)
            ids = ref.ids(dis, spc)
            rm = chem.get_return_matrix(disabled=dis, special=spc)
            check_eq(([int(i) for i in rm.index], [int(i) for i in rm.columns]), (ids, ids),
                     'return matrix labels disabled={} special={}'.format(dis, spc))
            for i in ids:
                for j in ids:
                    got = world.val(rm.at[i, j])
                    if ref.is_special(i) or ref.is_special(j):
                        want = None
                    else:
                        want = ref.ret_coefs(j).get(ref.name(i), 0.)
                    check(same(got, want), 'return matrix[{}, {}] (disabled={}, special={}): {} != {}', ref.name(i),
                          ref.name(j), dis, spc, got, want)
            for m in ('lhs', 'rhs', 'net'):
                s = chem.get_stoichiomatrix(disabled=dis, special=spc, method=m)
                check_eq(([int(i) for i in s.index], [int(i) for i in s.columns]), (ref.rids(dis), ids),
                         'stoichiometric matrix labels')
                want = [[ref.stoich(r, i, m) for i in ids] for r in ref.rids(dis)]
                check_eq(np.asarray(s.values).tolist(), want, 'stoichiometric matrix {} dis={} spc={}'.format(m, dis, spc))
        rids = ref.rids(dis)
        check_eq([int(i) for i in chem.get_reactions(disabled=dis).index], rids, 'get_reactions')
        check_eq([r.id for r in chem.get_reactions(disabled=dis)], rids, 'get_reactions ids')
        check_eq([int(i) for i in chem.get_reactions_id(disabled=dis)], rids, 'get_reactions_id')
        e, m_id = ref.by_name['e'], ref.by_name.get('M')
        for m in ('lhs', 'rhs', 'net'):
            v = chem.get_reactions_stoich_coefs_electron(disabled=dis, method=m)
            check_eq([(int(i), float(x)) for i, x in v.items()], [(r, float(ref.stoich(r, e, m))) for r in rids],
                     'electron coefficients ' + m)
            v = chem.get_reactions_stoich_coefs_arbitrary(disabled=dis, method=m)
            check_eq([(int(i), float(x)) for i, x in v.items()],
                     [(r, float(ref.stoich(r, m_id, m)) if m_id is not None else 0.) for r in rids],
                     'arbitrary-species coefficients ' + m)
        views = {
            'arrh_b': chem.get_reactions_arrh_b, 'arrh_c': chem.get_reactions_arrh_c,
            'el_en_loss': chem.get_reactions_el_en_loss, 'gas_heat_contrib': chem.get_reactions_ges_heat_contrib,
            'elastic': chem.get_reactions_elastic,
        }
        for g, f in views.items():
            s = f(disabled=dis)
            check_eq([int(i) for i in s.index], rids, g + ' index')
            for i in rids:
                a, rx = ref.r[i]['attrs'], ref.r[i]
                if g == 'elastic':
                    want = set(rx['L']) == set(rx['R'])
                elif a.get(g) is not None:
                    want = gen.fnum(a[g])
                else:
                    want = 0. if (g in ('el_en_loss', 'gas_heat_contrib') or a.get('arrh_a') is not None) else None
                check(same(world.val(s.at[i]), want), '{} of reaction {}: {} != {}', g, i, s.at[i], want)
        for si in (True, False):
            s = chem.get_reactions_arrh_a(disabled=dis, si_units=si)
            check_eq([int(i) for i in s.index], rids, 'arrh_a index')
            for i in rids:
                check(same(world.val(s.at[i]), ref.arrh_a(i, si)), 'arrh_a of {}: {} != {}', i, s.at[i], ref.arrh_a(i, si))


SPECIES = ('', '_name', '_charge', '_mass', '_h_form', '_lj_epsilon', '_lj_sigma', '_stick_coef', '_ret_coefs')
REACTIONS = ('', '_arrh_b', '_arrh_c', '_el_en_loss', '_ges_heat_contrib', '_elastic')


def flat(s):
    if isinstance(s, np.ndarray):
        return [int(i) for i in s]
    if hasattr(s, 'columns'):
        return [[int(i) for i in s.index], [int(i) for i in s.columns], [[world.val(v) for v in r] for r in s.values]]
    return [(int(i), v.id if hasattr(v, 'id') else world.val(v)) for i, v in s.items()]


def check_defaults(w, rec):
    """The documented defaults: enabled, ordinary, protected or not; net coefficients; SI units."""
    chem = w.chem
    full = dict(disabled=False, special=False, protected=True)
    calls = [('get_species' + g, full) for g in SPECIES]
    calls += [('get_species_id', full)]
    calls += [('get_reactions' + g, dict(disabled=False)) for g in REACTIONS]
    calls += [('get_reactions_id', dict(disabled=False)), ('get_reactions_arrh_a', dict(disabled=False, si_units=True)),
              ('get_return_matrix', dict(disabled=False, special=False)),
              ('get_stoichiomatrix', dict(disabled=False, special=False, method='net')),
              ('get_reactions_stoich_coefs_electron', dict(disabled=False, method='net')),
              ('get_reactions_stoich_coefs_arbitrary', dict(disabled=False, method='net'))]
    for name, kw in calls:
        f = getattr(chem, name)
        want = flat(f(**kw))
        check_eq(flat(f()), want, name + ' without arguments')
        for k in kw:
            check_eq(flat(f(**{j: v for j, v in kw.items() if j != k})), want, '{} without {}'.format(name, k))
    check_eq(chem.num_species(), len(w.ref.ids()), 'num_species without arguments')
    check_eq(chem.num_species(disabled=True), len(w.ref.ids(True)), 'num_species of all ordinary species')
    check_eq(chem.num_species(special=True), len(w.ref.ids(special=True)), 'num_species of all enabled species')


def fn(case, rec):
    w = world.World(case['spec'])
    rec.label(*gen.tag(case['spec']))
    check_views(w, rec)
    for op in case['ops']:
        rec.label(w.apply(op))
    check_views(w, rec)
    check_defaults(w, rec)
    rec.nontrivial(len(w.ref.er) < len(w.ref.rorder) and len(w.ref.es) < len(w.ref.order))
    sp = w.chem.get_special_species()
    check_eq([s.get_name() for s in sp], [n for n in gen.names_of(case['spec']) if n in ('e', 'M')], 'special species')
    for i in w.ref.order:
        rp = w.chem.get_rp(i)
        check(rp is w.chem.get_rp(w.ref.name(i)) and rp is w.chem.get_rp(rp) and rp.id == i, 'get_rp({}) is inconsistent', i)
    for i in w.ref.rorder:
        check_eq(w.chem.get_reaction(i).id, i, 'get_reaction')


SUBS = [Sub('views', case, fn, quick=800, thorough=9000, shards=8,
            rule='every getter under all 8 masks before and after a history; non-trivial when some species and some '
                 'reactions were disabled', must_label=('cascade-s', 'M', 'negative-ion'))]
