"""C08: what is accepted as a reaction conserves charge and atoms; what is accepted as a chemistry is closed and consistent."""
from collections import Counter

import gen
from checks.c07 import make_rps
from core import Sub, check, check_eq


@gen.cases
def case_r(d):
    sp = gen.draw_species(d, max_families=3, high='any')
    table = gen.conserving_table(sp)
    lhs, rhs = gen.draw_reaction(d, sp, table)
    mut = d.weighted([(None, 3), ('drop', 2), ('add', 2), ('swap', 3), ('random', 2), ('flip', 3)])
    if mut == 'flip':  # other charges, same atoms
        lhs = list(d.pick([lhs, [d.int(0, len(sp) - 1) for _ in range(d.int(1, 2))]]))
        rhs = list(lhs)
        for _ in range(d.int(1, 2)):
            side = d.pick([lhs, rhs])
            k = d.int(0, len(side) - 1)
            side[k] = d.pick([i for i, s in enumerate(sp) if s['comp'] == sp[side[k]]['comp']])
    if mut == 'drop' and len(rhs) > 1:
        rhs.pop(d.int(0, len(rhs) - 1))
    elif mut == 'add':
        (rhs if len(lhs) > 2 or d.bool() else lhs).append(d.int(0, len(sp) - 1))
    elif mut == 'swap':
        side = rhs if d.bool() else lhs
        side[d.int(0, len(side) - 1)] = d.int(0, len(sp) - 1)
    elif mut == 'random':
        lhs = [d.int(0, len(sp) - 1) for _ in range(d.int(1, 3))]
        rhs = [d.int(0, len(sp) - 1) for _ in range(d.int(1, 4))]
    return {'sp': sp, 'lhs': lhs, 'rhs': rhs, 'perm': [list(d.perm(lhs)), list(d.perm(rhs))], 'style': d.int(0, 1)}


def fn_r(case, rec):
    from plaschem.exceptions import ReactionValueError
    from plaschem.reactions import Reaction
    sp, lhs, rhs = case['sp'], case['lhs'], case['rhs']
    rps = make_rps(sp, case['style'])
    good = gen.signature(sp, lhs) == gen.signature(sp, rhs)
    try:
        r = Reaction(3, [rps[i] for i in lhs], [rps[i] for i in rhs], special_number=1)
    except ReactionValueError:
        check(not good, 'a conserving reaction was refused: {} > {}', [sp[i]['name'] for i in lhs], [sp[i]['name'] for i in rhs])
        rec.label('refused')
        rec.nontrivial()
        return
    check(good, 'a reaction which does not conserve charge and atoms was accepted: {}', r)
    rec.label('accepted')
    rec.nontrivial(Counter(lhs) != Counter(rhs))
    names = lambda ix: [sp[i]['name'] for i in ix]
    check_eq(str(r), ' + '.join(names(lhs)) + ' > ' + ' + '.join(names(rhs)), 'string')
    check_eq(r.get_string(), str(r), 'get_string')
    cl, cr = Counter(rps[i].id for i in lhs), Counter(rps[i].id for i in rhs)
    for m, want in (('lhs', dict(cl)), ('rhs', dict(cr)), ('net', {i: cr[i] - cl[i] for i in set(cl) | set(cr)})):
        check_eq(dict(r.get_stoich_coefs(method=m)), want, 'stoichiometric coefficients ' + m)
    check_eq(dict(r.get_stoich_coefs()), {i: cr[i] - cl[i] for i in set(cl) | set(cr)}, 'default stoichiometric coefficients')
    uniq = lambda seq: tuple(dict.fromkeys(seq))
    for m, ix in (('lhs', lhs), ('rhs', rhs), ('all', lhs + rhs)):
        check_eq(tuple(r.get_rp_names_set(m)), uniq(names(ix)), 'names ' + m)
        check_eq(tuple(r.get_rp_ids_set(m)), uniq([rps[i].id for i in ix]), 'ids ' + m)
    check_eq((tuple(r.get_rp_names_set()), tuple(r.get_rp_ids_set())),
             (uniq(names(lhs + rhs)), uniq([rps[i].id for i in lhs + rhs])), 'names and ids by default')
    for m in (r.get_stoich_coefs, r.get_rp_names_set, r.get_rp_ids_set):
        try:
            m(method='both')
        except ReactionValueError:
            continue
        check(False, 'unsupported method accepted')
    for i in lhs + rhs:
        check(r.get_rp(rps[i].id) is rps[i] and r.get_rp(sp[i]['name']) is rps[i], 'get_rp of {}', sp[i]['name'])
    for bad in ('nope', max(x.id for x in rps) + 1):
        try:
            r.get_rp(bad)
        except ValueError:
            continue
        check(False, 'get_rp of a species not in the reaction')
    el = gen.is_electron_lhs(sp, lhs)
    heavy = [i for i in lhs if sp[i]['name'] not in ('e', 'M')]
    check_eq(bool(r.is_electron_process()), el, 'is_electron_process')
    check_eq(bool(r.is_ion_process()), any(sp[i]['q'] for i in heavy), 'is_ion_process')
    check_eq(bool(r.is_elastic_process()), set(lhs) == set(rhs), 'is_elastic_process')
    try:
        partner = r.get_electron_collision_partner()
        check(el and heavy and partner is rps[heavy[0]], 'collision partner is {}', partner)
    except ReactionValueError:
        check(not el or not heavy, 'no collision partner found in {}', r)
    hp = lambda ix: ' + '.join(sp[i]['name'].upper() + '^' for i in ix)
    check_eq(r.get_hpem_string(), hp(lhs) + ' > ' + hp(rhs), 'HPEM string')
    check_eq(r.get_hpem_string(backward=True), hp(rhs) + ' > ' + hp(lhs), 'backward HPEM string')
    # the identity of a reaction does not depend on the order of its species, and only on its species
    pl, pr = case['perm']
    r2 = Reaction(4, [rps[i] for i in pl], [rps[i] for i in pr], special_number=1)
    check_eq(Reaction.unique_key(str(r2)), Reaction.unique_key(str(r)), 'key of a reordered reaction')
    if Counter(lhs) != Counter(rhs) and len(rhs) <= 3:
        r3 = Reaction(5, [rps[i] for i in rhs], [rps[i] for i in lhs], special_number=1)
        check(Reaction.unique_key(str(r3)) != Reaction.unique_key(str(r)), 'a reaction and its reverse have one key')
    # (only the counts differ; such a pair cannot balance both, so strings are given)
    for s1, s2 in ((names(lhs) + names(lhs)[:1], names(rhs)), (names(lhs), names(rhs) + names(rhs)[-1:])):
        check(Reaction.unique_key(' + '.join(s1) + ' > ' + ' + '.join(s2)) != Reaction.unique_key(str(r)),
              'reactions which differ in how often a species occurs have one key')
    r4 = Reaction(6, [rps[i] for i in lhs[:2]] + [rps[lhs[0]]], [rps[i] for i in rhs] + [rps[lhs[0]]], special_number=1) \
        if len(lhs) == 2 else None
    if r4 is not None:
        check(Reaction.unique_key(str(r4)) != Reaction.unique_key(str(r)), 'reactions with different counts have one key')


# iterables of species or reactions
def objects(items):
    import numpy as np
    out = np.empty(len(items), dtype=object)
    out[:] = items
    return out


def shifted(items):
    import pandas as pd
    return pd.Series(items, index=[k + 1000 for k in range(len(items))], dtype=object)


def turned(items):
    """A Series whose labels are the ids of other items."""
    import pandas as pd
    return pd.Series(items, index=[x.id for x in items][::-1], dtype=object)


C_BAD = ['dup-sp-id', 'dup-r-id', 'dup-name', 'unused', 'missing', 'foreign', 'no-electron', 'no-ion', 'bad-return',
         'init-none', 'init-species-only', 'init-reactions-only']


@gen.cases
def case_c(d):
    spec = gen.draw_chemistry(d, max_reactions=6, rich=True)
    return {'spec': spec, 'bad': d.pick(C_BAD) if d.bool(2, 3) else None, 'n': d.int(0, 30), 'neutral': d.bool(1, 5),
            'as': d.int(0, 7)}


def fn_c(case, rec):
    import numpy as np
    import pandas as pd
    from plaschem.chemistry import Chemistry
    from plaschem.exceptions import ChemistryConsistencyError, ChemistryInitError
    from plaschem.reactions import Reaction
    from plaschem.species import RP
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry
    spec, n, bad = case['spec'], case['n'], case['bad']
    sps = gen.build_species(spec)
    rs = gen.build_reactions(spec, sps)
    exc = ChemistryConsistencyError
    names = gen.names_of(spec)
    ordinary = [i for i, s in enumerate(names) if s not in ('e', 'M')]

    def extra_sp(attrs, i=None):
        return RP(max(s.id for s in sps) + 3 if i is None else i, attributes=attrs)

    def extra_r(L, R, i=None):
        return Reaction(max(r.id for r in rs) + 3 if i is None else i, L, R, special_number=1)

    args = {}
    if bad == 'dup-sp-id':
        s = extra_sp({'name': 'Xe', 'mass': 131.}, sps[n % len(sps)].id)
        sps.append(s)
        rs.append(extra_r([s, s], [s, s]))
    elif bad == 'dup-r-id':
        x = sps[ordinary[0]]
        rs.append(extra_r([x, x], [x, x], rs[n % len(rs)].id))
    elif bad == 'dup-name':
        k = spec['species'][ordinary[n % len(ordinary)]]
        s = extra_sp({a: gen.untag(v) for a, v in k['attrs'].items()})
        sps.append(s)
        rs.append(extra_r([s, s], [s, s]))
    elif bad == 'unused':
        sps.append(extra_sp({'name': 'Xe', 'mass': 131., 'charge': n % 2, 'ret_coefs': {}}))
    elif bad == 'missing':
        sps.pop(ordinary[n % len(ordinary)])
    elif bad == 'foreign':
        i = ordinary[n % len(ordinary)]
        twin = gen.build_species({'species': [spec['species'][i]]})[0]
        rs.append(extra_r([sps[i], twin], [sps[i], sps[i]]))
    elif bad == 'no-electron':
        e = names.index('e')
        keep = [j for j, r in enumerate(spec['reactions']) if e not in r['lhs'] + r['rhs']]
        used = {i for j in keep for i in spec['reactions'][j]['lhs'] + spec['reactions'][j]['rhs']}
        ion = next(i for i in ordinary if spec['species'][i]['k']['q'] > 0)
        rs = [rs[j] for j in keep] + [extra_r([sps[ion]], [sps[ion]])]
        used |= {ion}
        for i in ordinary:
            if i not in used:
                used.add(i)
                rs.append(extra_r([sps[i]], [sps[i]], rs[-1].id + 1))
        sps = [s for i, s in enumerate(sps) if i in used]
    elif bad == 'no-ion':
        neutral = [i for i in ordinary if not spec['species'][i]['k']['q'] > 0]
        e = sps[names.index('e')]
        gone = {sps[i].get_name() for i in ordinary} - {sps[i].get_name() for i in neutral}
        for i in neutral:
            r = sps[i].get_ret_coefs()
            if set(r) & gone:
                sps[i].set_species_attribute('ret_coefs', {})
        rs = [extra_r([e, sps[i]], [e, sps[i]], i + 1) for i in neutral]
        sps = [e] + [sps[i] for i in neutral]
    elif bad == 'bad-return':
        i = ordinary[n % len(ordinary)]
        sps[i].set_species_attribute('stick_coef', 0.5)
        sps[i].set_species_attribute('ret_coefs', {names[ordinary[0]]: 0.5, 'Unobtainium': 0.5})
    elif bad and bad.startswith('init'):
        exc = ChemistryInitError
        args = {'init-none': {}, 'init-species-only': {'species': sps}, 'init-reactions-only': {'reactions': rs}}[bad]
        if n % 2 and bad != 'init-none':
            args['xml_path'] = '/nonexistent.xml'
    if not (bad and bad.startswith('init')):
        wrap = [list, tuple, list, iter, objects, shifted, turned, lambda x: {k: y for k, y in enumerate(x)}.values()][case['as']]
        args = {'species': wrap(sps), 'reactions': wrap(rs)}
    cls = Chemistry
    if bad:
        if case['neutral'] and bad not in ('no-electron', 'no-ion', 'missing'):
            cls = NeutralChemistry if bad in ('init-none', 'init-species-only', 'init-reactions-only') else Chemistry
        rec.label(bad)
        rec.nontrivial()
        try:
            cls(**args)
        except exc:
            return
        check(False, 'an inconsistent chemistry ({}) was accepted', bad)
    chem = cls(**args)
    rec.label('accepted')
    rec.nontrivial(len(rs) > 2)
    check_eq([s.id for s in chem.get_species(special=True)], [s.id for s in sps], 'species of the chemistry')
    check_eq([r.id for r in chem.get_reactions()], [r.id for r in rs], 'reactions of the chemistry')
    check_eq([int(i) for i in chem.get_species(special=True).index], [s.id for s in sps], 'labels of the species')
    check_eq([int(i) for i in chem.get_reactions().index], [r.id for r in rs], 'labels of the reactions')
    rec.label('as-%d' % case['as'])
    ions = [s.get_name() for s in sps if not s.is_special() and s.get_charge() > 0]
    check_eq({s.get_name() for s in chem.get_protected_species()}, {'e'} | (set(ions) if len(ions) == 1 else set()),
             'species protected from the start')


SUBS = [
    Sub('reactions', case_r, fn_r, quick=6000, thorough=60000, shards=4,
        rule='balanced and unbalanced reactions; non-trivial when refused, or when the two sides differ',
        must_label=('accepted', 'refused')),
    Sub('chemistries', case_c, fn_c, quick=1800, thorough=15000, shards=4,
        rule='consistent chemistries, or one of 12 inconsistent variants; non-trivial when refused or with more than two '
             'reactions', must_label=tuple(C_BAD) + ('accepted', 'as-3', 'as-4', 'as-5', 'as-6', 'as-7')),
]
