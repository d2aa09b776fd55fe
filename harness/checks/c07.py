"""C07: species and reaction attributes: legal ones are stored and answered converted or defaulted, illegal ones refused."""
import copy

import gen
from core import Sub, check, check_eq, close

E_UNITS = {'mass': 'amu', 'charge': 'e', 'h_form': 'eV', 'lj_epsilon': 'K', 'lj_sigma': 'A'}
SP_BAD = ['id-neg', 'id-str', 'id-float', 'id-bool', 'no-name', 'no-mass', 'no-stateless', 'bad-char', 'unknown-attr',
          'unit-absent-attr', 'unit-no-unit-attr', 'unit-value', 'type-list', 'type-charge-float', 'type-ret-list', 'type-name']
R_BAD = ['id-zero', 'id-neg', 'id-str', 'no-reactants', 'no-products', 'four-reactants', 'no-kinetics', 'unknown-attr',
         'unit-absent-attr', 'a-no-unit', 'a-unit-count', 'a-unit-unknown', 'c-no-unit', 'c-unit-wrong', 'a-negative',
         'elastic-value', 'type-list', 'en-unit', 'special-float', 'a-negative-str']


@gen.cases
def case_sp(d):
    sp = gen.draw_species(d, high='any')
    k = d.pick(sp)
    attrs, units = gen.species_attrs(d, k, [s['name'] for s in sp], types=True, zeros=True, ret=d.bool(2, 3))
    if d.bool(1, 3):
        attrs['hpem_name'] = d.pick(['AR', 'O2^', 'E'])
    if d.bool(1, 3):
        attrs['qdb_id'] = d.pick([42, '17', 0])
    if d.bool(1, 3):
        attrs['comments'] = d.pick(['made up', ''])
    if d.bool(1, 4):
        attrs['latex'] = d.pick([r'\mathrm{Ar}', 'x'])
    for key in d.subset(['h_form', 'lj_epsilon', 'stick_coef', 'ret_coefs', 'comments', 'qdb_id'], 1, 6):
        attrs[key] = None
        units.pop(key, None)
    if k['name'] in ('e', 'M') and d.bool(1, 3):
        attrs['h_form'], attrs['lj_sigma'], attrs['stick_coef'] = 1.5, 2., 0.5
    kw = [a for a in attrs if a != 'name' and d.bool(1, 4)]
    return {'k': k, 'id': d.int(0, 1000), 'attrs': attrs, 'units': units, 'kw': kw, 'bad': d.pick(SP_BAD) if d.bool(2, 5) else None,
            'set': [d.pick(['h_form', 'lj_sigma', 'lj_epsilon', 'stick_coef', 'mass', 'charge', 'ret_coefs', 'comments']),
                    d.int(0, 5), d.int(0, 3)], 'n': d.int(0, 5), 'decoy': [d.flt(0, 9), d.bool()]}


def expected_sp(k, a):
    special = k['name'] in ('e', 'M')

    def f(key, default):
        return default if a.get(key) is None else gen.fnum(a[key])
    if k['name'] == 'M':
        charge = None
    else:
        charge = int(a['charge']) if a.get('charge') is not None else 0
    state = None if special else a.get('state')
    stateless = k['name'] if special else (a.get('stateless') or k['name'])
    if special:
        ret = stick = None
    else:
        ground = state is None and charge == 0
        stick = f('stick_coef', 0. if ground else 1.)
        if a.get('ret_coefs') is not None:
            ret = {n: gen.fnum(v) for n, v in a['ret_coefs'].items()}
        else:
            ret = {} if ground else {k['ground']: 1.}
    out = {
        'name': k['name'], 'stateless': stateless, 'state': state, 'mass': None if k['name'] == 'M' else f('mass', None),
        'charge': charge, 'h_form': None if special else f('h_form', 0.),
        'lj_epsilon': None if special else f('lj_epsilon', 0.), 'lj_sigma': None if special else f('lj_sigma', 3.),
        'hpem_name': a.get('hpem_name'), 'qdb_id': None if a.get('qdb_id') is None else int(a['qdb_id']),
        'stick_coef': stick, 'ret_coefs': ret, 'comments': a.get('comments'),
    }
    if a.get('latex') is not None:
        out['latex'] = a['latex']
    return out


FLOATS = {'mass', 'h_form', 'lj_epsilon', 'lj_sigma', 'stick_coef'}


def check_getters(obj, want, what):
    for key, w in want.items():
        got = getattr(obj, 'get_' + key)()
        check(got == w and (got is None) == (w is None), '{}: get_{}() is {!r}, expected {!r}', what, key, got, w)
        if w is not None and key in FLOATS:
            check(isinstance(got, float), '{}: get_{}() is a {}', what, key, type(got))
        if w is not None and key == 'charge':
            check(isinstance(got, int), '{}: charge is a {}', what, type(got))


def fn_sp(case, rec):
    from plaschem.exceptions import RPAttributeError, RPInitError
    from plaschem.species import RP
    k = case['k']
    attrs = {a: gen.untag(v) for a, v in case['attrs'].items()}
    units = dict(case['units'])
    bad, sp_id, exc = case['bad'], case['id'], RPAttributeError
    name = k['name']
    if bad == 'id-neg':
        sp_id, exc = -1 - sp_id, RPInitError
    elif bad == 'id-str':
        sp_id, exc = str(sp_id), RPInitError
    elif bad == 'id-float':
        sp_id, exc = float(sp_id), RPInitError
    elif bad == 'id-bool':
        sp_id, exc = True, RPInitError
    elif bad == 'no-name':
        del attrs['name']
        attrs.setdefault('mass', 1.)
    elif bad == 'no-mass':
        if name == 'M':
            return
        del attrs['mass']
        units.pop('mass', None)
    elif bad == 'no-stateless':
        attrs['state'] = attrs.get('state') or 'v=1'
        attrs.pop('stateless', None)
    elif bad == 'bad-char':
        attrs['name'] = name + '><'[len(name) % 2]
        attrs.setdefault('mass', 1.)
    elif bad == 'unknown-attr':
        attrs['weight'] = 1.
    elif bad == 'unit-absent-attr':
        key = [x for x in E_UNITS if x not in attrs]
        if not key:
            return
        units[key[0]] = E_UNITS[key[0]]
    elif bad == 'unit-no-unit-attr':
        attrs['stick_coef'] = 0.5
        units['stick_coef'] = '1'
    elif bad == 'unit-value':
        attrs['h_form'] = 1.
        units['h_form'] = 'K'
    elif bad == 'type-list':
        attrs['lj_sigma'] = [3.]
    elif bad == 'type-charge-float':
        attrs['charge'] = 1.
    elif bad == 'type-ret-list':
        attrs['ret_coefs'] = [name]
    elif bad == 'type-name':
        attrs['comments'] = 5
    if bad:
        rec.label('refused')
        rec.nontrivial()
        try:
            RP(sp_id, attributes=attrs, units=units)
        except exc:
            return
        check(False, 'illegal species ({}) accepted', bad)
    # keyword attributes amend or overwrite the dictionary's
    kw = {a: attrs[a] for a in case['kw']}
    base = {a: v for a, v in attrs.items() if a not in kw}
    if case['decoy'][1]:
        for a in kw:
            if a in FLOATS:
                base[a] = case['decoy'][0]
    snap = (copy.deepcopy(base), dict(units), copy.deepcopy(kw))
    rp = RP(sp_id, attributes=base, units=units, **kw)
    check_eq((base, units, kw), snap, 'arguments changed by the constructor')
    want = expected_sp(k, case['attrs'])
    rec.label('special' if k['name'] in ('e', 'M') else 'ordinary', 'state' if k['state'] else 'ground')
    rec.nontrivial(len(attrs) > 3)
    check_eq(rp.id, sp_id, 'id')
    check_getters(rp, want, name)
    check_eq((rp.is_special(), rp.is_stateless(), str(rp)), (name in ('e', 'M'), want['state'] is None, name), 'is_special/is_stateless/str')
    check_eq(dict(rp.get_atoms()), k['comp'], 'atoms of ' + name)
    for u, default in E_UNITS.items():
        check_eq(rp.get_unit(u), default, 'unit of ' + u)
    for u in ('name', 'stick_coef', 'nonsense'):
        try:
            rp.get_unit(u)
        except RPAttributeError:
            continue
        check(False, 'unit of {} answered', u)
    if name not in ('e', 'M'):
        check_eq(RP.strip_charge(k['stateless']), k['ground'], 'strip_charge')
    # own values cannot be edited through what is handed out
    if want['ret_coefs']:
        rp.get_ret_coefs()[next(iter(want['ret_coefs']))] = 99.
        check_getters(rp, want, name)
    # one attribute set later: that one (and what is documented to default from it) changes
    attr, how, val = case['set']
    new, a2 = None, dict(case['attrs'])
    if how == 0:
        new, ok = [1], False
    elif how == 1:
        new, ok = None, not (attr in ('mass',))
    else:
        v = {'charge': val - 1, 'ret_coefs': {'X': str(val)}, 'comments': 'n%d' % val}.get(attr, val + 0.5)
        if how in (3, 4) and attr not in ('comments', 'ret_coefs', 'mass'):
            v = (0 if attr == 'charge' or val == 0 else 0.) if how == 3 else (str(val) if attr == 'charge' or val < 2 else '2.5')
        new, ok = v, True
    if not ok and how == 1:
        return
    if how == 5 and attr in E_UNITS:
        try:
            rp.set_species_attribute(attr, new, unit='furlong')
        except RPAttributeError:
            check_getters(rp, want, name)
            return
        check(False, 'unsupported unit accepted for {}', attr)
    refused = [lambda: rp.set_species_attribute('weight', 1.), lambda: rp.set_species_attribute('stick_coef', .25, unit='1'),
               lambda: rp.set_species_attribute('comments', 'x', unit='m'), lambda: rp.set_species_attribute('qdb_id', 4, unit='eV'),
               lambda: rp.set_species_attribute('h_form', 1., unit='K'), lambda: rp.set_species_attribute('weight', None)]
    try:
        refused[case['n'] % 6]()
        check(False, 'illegal attribute set (variant {})', case['n'] % 6)
    except RPAttributeError:
        check_getters(rp, want, name + ' after a refused change')
    try:
        rp.set_species_attribute(attr, new)
        check(ok, 'illegal {} set: {!r}', attr, new)
        a2[attr] = new
    except RPAttributeError:
        check(not ok, 'legal {} refused: {!r}', attr, new)
    check_getters(rp, expected_sp(k, a2), name + ' after setting ' + attr)


def reaction_case(d):
    sp = gen.draw_species(d, max_families=2, high='any')
    table = gen.conserving_table(sp)
    lhs, rhs = gen.draw_reaction(d, sp, table)
    attrs, units = gen.draw_kinetics(d, sp, lhs, types=True)
    if d.bool(1, 3):
        attrs['special_number'] = d.pick([7, '-3', 0, -1165])
        if d.bool(1, 3):
            attrs, units = {'special_number': attrs['special_number']}, {}
    if d.bool(1, 3):
        attrs['elastic'] = d.pick(['true', 'True', 'TRUE', 'false', 'False', 'FALSE', True, False])
    for key in ('arrh_b', 'el_en_loss', 'gas_heat_contrib'):
        if d.bool(1, 8):
            attrs[key] = gen.vary_number(d, 0.)
    if d.bool(1, 4):
        attrs['qdb_r_id'], attrs['qdb_ds_id'] = d.pick([1, '22']), d.pick([3, '4'])
    if d.bool(1, 4):
        attrs['doi'], attrs['comments'] = '10.1/x', 'foo'
    if d.bool(1, 5):
        attrs['latex'] = 'a + b'
    if 'el_en_loss' in attrs and d.bool(1, 3):
        units['el_en_loss'] = 'eV'
    if 'gas_heat_contrib' in attrs and d.bool(1, 3):
        units['gas_heat_contrib'] = 'eV'
    return sp, lhs, rhs, attrs, units


@gen.cases
def case_r(d):
    sp, lhs, rhs, attrs, units = reaction_case(d)
    return {'sp': sp, 'lhs': lhs, 'rhs': rhs, 'id': d.int(1, 5000), 'attrs': attrs, 'units': units,
            'bad': d.pick(R_BAD) if d.bool(2, 5) else None, 'kw': [a for a in attrs if d.bool(1, 4)], 'n': d.int(0, 5),
            'set': [d.pick(['arrh_b', 'el_en_loss', 'gas_heat_contrib', 'special_number', 'elastic', 'arrh_a', 'arrh_c']), d.int(0, 6)],
            'idstyle': d.int(0, 1)}


def make_rps(sp, style=0):
    from plaschem.species import RP
    out = []
    for i, k in enumerate(sp):
        a = {'name': k['name'], 'stateless': k['stateless'], 'state': k['state']}
        if k['name'] != 'M':
            a.update(mass=k['mass'], charge=k['q'])
        a['hpem_name'] = k['name'].upper() + '^'
        out.append(RP(i if style == 0 else 7 * (len(sp) - i), attributes=a))
    return out


def expected_r(sp, lhs, rhs, a, units):
    has_a = a.get('arrh_a') is not None

    def f(key, default):
        return default if a.get(key) is None else gen.fnum(a[key])
    el = gen.is_electron_lhs(sp, lhs)
    if a.get('elastic') is None:
        elastic = set(lhs) == set(rhs)
    else:
        elastic = str(a['elastic']).lower() == 'true'
    special = int(a['special_number']) if a.get('special_number') is not None else (10 if el else 20)
    out = {'arrh_b': f('arrh_b', 0. if has_a else None), 'arrh_c': f('arrh_c', 0. if has_a else None), 'elastic': elastic,
           'el_en_loss': f('el_en_loss', 0.), 'gas_heat_contrib': f('gas_heat_contrib', 0.), 'special_number': special,
           'qdb_r_id': None if a.get('qdb_r_id') is None else int(a['qdb_r_id']),
           'qdb_ds_id': None if a.get('qdb_ds_id') is None else int(a['qdb_ds_id']),
           'doi': a.get('doi'), 'comments': a.get('comments')}
    if a.get('latex') is not None:
        out['latex'] = a['latex']
    return out


def check_reaction(r, sp, lhs, rhs, a, units, what):
    for key, w in expected_r(sp, lhs, rhs, a, units).items():
        got = getattr(r, 'get_' + key)()
        check(got == w and (got is None) == (w is None) and not isinstance(got, str) or key in ('doi', 'comments', 'latex') and got == w,
              '{}: get_{}() is {!r}, expected {!r}', what, key, got, w)
    nominal = None if a.get('arrh_a') is None else gen.fnum(a['arrh_a'])
    check_eq(r.get_arrh_a(si_units=False), nominal, 'nominal arrh_a')
    if nominal is None:
        check_eq(r.get_arrh_a(), None, 'arrh_a')
    else:
        check(close(r.get_arrh_a(), nominal * gen.SI[units['arrh_a']], 1e-12), 'SI arrh_a is {}', r.get_arrh_a())
        check_eq(r.get_unit('arrh_a'), units['arrh_a'], 'unit of arrh_a')
    if a.get('arrh_c') is not None:
        check_eq(r.get_unit('arrh_c'), units['arrh_c'], 'unit of arrh_c')
    check_eq((r.get_unit('el_en_loss'), r.get_unit('gas_heat_contrib')), ('eV', 'eV'), 'energy units')
    check_eq((bool(r.is_electron_process()), bool(r.is_elastic_process())),
             (gen.is_electron_lhs(sp, lhs), expected_r(sp, lhs, rhs, a, units)['elastic']), 'is_electron_process/is_elastic_process')
    check_eq(bool(r.is_ion_process()), any(sp[i]['q'] for i in lhs if sp[i]['name'] not in ('e', 'M')), 'is_ion_process')


def fn_r(case, rec):
    from plaschem.exceptions import ReactionAttributeError, ReactionInitError
    from plaschem.reactions import Reaction
    sp, lhs, rhs, n = case['sp'], case['lhs'], case['rhs'], case['n']
    rps = make_rps(sp, case['idstyle'])
    attrs = {a: gen.untag(v) for a, v in case['attrs'].items()}
    units, bad, r_id, exc = dict(case['units']), case['bad'], case['id'], ReactionAttributeError
    L, R = [rps[i] for i in lhs], [rps[i] for i in rhs]
    el = gen.is_electron_lhs(sp, lhs)
    has_a = 'arrh_a' in attrs
    if bad in ('a-no-unit', 'a-unit-count', 'a-unit-unknown', 'a-negative', 'a-negative-str') and not has_a:
        attrs['arrh_a'], units['arrh_a'] = 1., gen.ARRH_UNITS[len(lhs)][0]
    if bad in ('c-no-unit', 'c-unit-wrong'):
        attrs.setdefault('arrh_c', 1.)
        units['arrh_c'] = 'eV' if el else 'K'
    if bad == 'id-zero':
        r_id, exc = 0, ReactionInitError
    elif bad == 'id-neg':
        r_id, exc = -r_id, ReactionInitError
    elif bad == 'id-str':
        r_id, exc = str(r_id), ReactionInitError
    elif bad == 'no-reactants':
        L, exc = [], (ReactionInitError,)
    elif bad == 'no-products':
        R, exc = [], ReactionInitError
    elif bad == 'four-reactants':
        x = [r for r in rps if r.get_name() != 'e'][0]
        L, R, exc = [x] * 4, [x] * 4, ReactionInitError
    elif bad == 'no-kinetics':
        for key in ('arrh_a', 'special_number'):
            attrs.pop(key, None)
            units.pop(key, None)
    elif bad == 'unknown-attr':
        attrs['rate'] = 1.
    elif bad == 'unit-absent-attr':
        attrs.pop('gas_heat_contrib', None)
        units['gas_heat_contrib'] = 'eV'
    elif bad == 'a-no-unit':
        del units['arrh_a']
    elif bad == 'a-unit-count':
        others = [u for k in (1, 2, 3) if k != len(lhs) for u in gen.ARRH_UNITS[k]]
        units['arrh_a'] = others[n % len(others)]
    elif bad == 'a-unit-unknown':
        units['arrh_a'] = {1: 'h-1', 2: 'mm3.s-1', 3: 'mm6.s-1'}[len(lhs)]
    elif bad == 'c-no-unit':
        del units['arrh_c']
    elif bad == 'c-unit-wrong':
        units['arrh_c'] = ['K' if el else 'eV', 'J'][n % 2]
    elif bad == 'a-negative':
        attrs['arrh_a'] = -1. - n
    elif bad == 'a-negative-str':
        attrs['arrh_a'] = '-1e-9'
    elif bad == 'elastic-value':
        attrs['elastic'] = 'yes'
    elif bad == 'type-list':
        attrs['arrh_b'] = [1.]
    elif bad == 'en-unit':
        attrs['el_en_loss'], units['el_en_loss'] = 1., 'J'
    elif bad == 'special-float':
        attrs['special_number'] = 10.
    if bad:
        rec.label('refused')
        rec.nontrivial()
        try:
            Reaction(r_id, L, R, attributes=attrs, units=units)
        except exc:
            return
        check(False, 'illegal reaction ({}) accepted', bad)
    kw = {a: attrs[a] for a in case['kw']}
    base = {a: v for a, v in attrs.items() if a not in kw}
    snap = (copy.deepcopy(base), dict(units), list(L), list(R))
    r = Reaction(r_id, L, R, attributes=base, units=units, **kw)
    check_eq((base, units, L, R), snap, 'arguments changed by the constructor')
    L.append(rps[0])  # the reaction does not depend on the caller's lists
    check_eq(([x.id for x in r.get_reactants()], [x.id for x in r.get_products()]),
             ([rps[i].id for i in lhs], [rps[i].id for i in rhs]), 'reactants and products')
    rec.nontrivial(len(attrs) > 2)
    rec.label('electron' if el else 'heavy')
    check_reaction(r, sp, lhs, rhs, case['attrs'], case['units'], str(r))
    refused = [('rate', 1., None), ('rate', None, None), ('arrh_b', 1., 'K'), ('special_number', 3, '1'), ('elastic', True, 'eV'),
               ('arrh_a', 1., None), ('arrh_c', 1., None), ('comments', 'x', 'm'), ('el_en_loss', 1., 'K')]
    attr, value, unit = refused[(n + case['id']) % len(refused)]
    try:
        r.set_reaction_attribute(attr, value, unit=unit)
        check(False, 'illegal {} set: {!r} {!r}', attr, value, unit)
    except ReactionAttributeError:
        check_reaction(r, sp, lhs, rhs, case['attrs'], case['units'], '{} after a refused change'.format(r))
    attr, how = case['set']
    a2, u2 = dict(case['attrs']), dict(case['units'])
    ok, new, unit = True, [2.5, 3.5, 0., '0', '-1.5', 0, '2'][how], None
    if attr == 'special_number':
        new = how
    if attr == 'elastic':
        new = ['true', 'FALSE', True, False, 'no', 1, 'False'][how]
        ok = how not in (4, 5)
    if attr == 'arrh_a':
        unit = (gen.ARRH_UNITS[1] + gen.ARRH_UNITS[2] + gen.ARRH_UNITS[3])[how % 5]
        ok = unit in gen.ARRH_UNITS[len(lhs)]
        if new == '-1.5':
            ok = False
    if attr == 'arrh_c':
        unit = [None, 'eV', 'K'][how % 3]
        ok = unit == ('eV' if el else 'K')
    if attr in ('arrh_b', 'el_en_loss', 'gas_heat_contrib') and how == 0:
        new, ok = (1, 2), False
    try:
        r.set_reaction_attribute(attr, new, unit=unit)
        check(ok, 'illegal {} set: {!r} {!r}', attr, new, unit)
        a2[attr] = new
        if unit:
            u2[attr] = unit
    except ReactionAttributeError:
        check(not ok, 'legal {} refused: {!r} {!r}', attr, new, unit)
    check_reaction(r, sp, lhs, rhs, a2, u2, '{} after setting {}'.format(r, attr))


SUBS = [
    Sub('species', case_sp, fn_sp, quick=6000, thorough=60000, shards=4,
        rule='species attributes of every documented type, or one of 16 illegal variants; non-trivial when refused or with '
             'more than three attributes', must_label=('refused', 'special', 'ordinary', 'state')),
    Sub('reactions', case_r, fn_r, quick=6000, thorough=60000, shards=4,
        rule='reaction attributes of every documented type, or one of 20 illegal variants; non-trivial when refused or with '
             'more than two attributes', must_label=('refused', 'electron', 'heavy')),
]
