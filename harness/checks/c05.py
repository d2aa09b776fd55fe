"""C05: ad-hoc overrides are exactly what the chemistry answers, and touch nothing else."""
import copy

import gen
import world
from core import Sub, check, check_eq, close

KINDS = [('stick', 6), ('ret', 6), ('arrh', 6), ('reset_adhoc', 2), ('disable_sp', 2), ('disable_r', 2), ('reset', 1)]


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, max_reactions=6, large=20, special_number=d.bool(1, 3), types=d.bool(1, 3))
    return {'spec': spec, 'ops': world.draw_ops(d, 8, KINDS)}


def check_adhoc(w):
    ref, chem = w.ref, w.chem
    for dis in (False, True):
        st = chem.get_species_stick_coef(disabled=dis)
        rc = chem.get_species_ret_coefs(disabled=dis)
        want = ref.ids(disabled=dis)
        check_eq(list(st.index), want, 'index of sticking coefficients (disabled={})'.format(dis))
        check_eq(list(rc.index), want, 'index of return coefficients (disabled={})'.format(dis))
        for i in want:
            check(world.val(st.at[i]) == ref.stick_coef(i), 'stick_coef of {}: {} != {}', ref.name(i), st.at[i],
                  ref.stick_coef(i))
            check(world.val(rc.at[i]) == ref.ret_coefs(i), 'ret_coefs of {}: {} != {}', ref.name(i), rc.at[i],
                  ref.ret_coefs(i))
        for spc, pro in ((True, True), (True, False), (False, False)):
            rc = chem.get_species_ret_coefs(disabled=dis, special=spc, protected=pro)
            st = chem.get_species_stick_coef(disabled=dis, special=spc, protected=pro)
            for i in ref.ids(dis, spc, pro):
                check((world.val(st.at[i]), world.val(rc.at[i])) == (ref.stick_coef(i), ref.ret_coefs(i)),
                      'surface coefficients of {} (disabled={}, special={}, protected={}): {}, {}', ref.name(i), dis, spc, pro, st.at[i], rc.at[i])
        for si in (True, False):
            a = chem.get_reactions_arrh_a(disabled=dis, si_units=si)
            check_eq(list(a.index), ref.rids(dis), 'index of Arrhenius factors')
            for i in a.index:
                x, y = world.val(a.at[i]), ref.arrh_a(i, si)
                check((x is None) == (y is None) and (x is None or close(x, y, 1e-12)),
                      'arrh_a of reaction {} (si={}): {} != {}', i, si, x, y)


def own_values(chem):
    out = []
    for sp in chem.get_species(disabled=True, special=True):
        out.append((sp.id, sp.get_name(), sp.get_stick_coef(), copy.deepcopy(sp.get_ret_coefs()), sp.get_mass(), sp.get_charge()))
    for r in chem.get_reactions(disabled=True):
        out.append((r.id, str(r), r.get_arrh_a(), r.get_arrh_a(si_units=False), r.get_arrh_b(), r.get_arrh_c()))
    return out


def fn(case, rec):
    w = world.World(case['spec'])
    own = own_values(w.chem)
    check_adhoc(w)
    ctl = gen.build(case['spec'])
    for n, op in enumerate(case['ops']):
        what = w.apply(op)
        rec.label(what, op['op'])
        rec.nontrivial(what == 'adhoc')
        check_adhoc(w)
        check_eq(own_values(w.chem), own, 'species/reaction objects changed by ad-hoc attributes')
    # a value passed in, and values handed out, stay the caller's
    ids = w.ref.ids()
    if ids:
        mine = {w.ref.name(ids[0]): 0.25}
        w.chem.set_adhoc_species_attributes('ret_coefs', ids[-1], mine)
        w.ref.ret[ids[-1]] = dict(mine)
        mine[w.ref.name(ids[0])] = 5.
        check_adhoc(w)
        for v in w.chem.get_species_ret_coefs(disabled=True):
            v['x'] = 1.
        check_adhoc(w)
    w.chem.reset_adhoc_species_attributes('all')
    w.chem.reset_adhoc_reactions_attributes('all')
    w.chem.reset()
    world.check_same(world.observe_values(ctl), world.observe_values(w.chem), 'after resetting all ad-hoc attributes')


SUBS = [Sub('history', case, fn, quick=1300, thorough=16000, shards=8,
            rule='a history of ad-hoc overrides mixed with disabling and resets; non-trivial when an override was set',
            must_label=('stick', 'ret', 'arrh', 'reset_adhoc', 'cascade-s'))]
