"""Generators of chemistries as JSON-able specs, and builders of the real objects from them (public API only).

A spec is {"species": [{"id":…, "attrs": {…}, "units": {…}}…], "reactions": [{"id":…, "lhs": [pos…], "rhs": [pos…],
"attrs": {…}, "units": {…}}…], "xml": optional str}; lhs/rhs hold positions in the species list.  The harness's own
knowledge of each species (composition, charge …) is kept beside it in "k" and never read from the code under test.
"""
import itertools

import numpy as np
import pandas as pd

ELEMENTS = {  # symbol: mass (amu)
    'H': 1.008, 'He': 4.0026, 'C': 12.011, 'N': 14.007, 'O': 15.999, 'F': 18.998, 'Si': 28.085, 'S': 32.06,
    'Cl': 35.45, 'Ar': 39.948, 'B': 10.81, 'Ne': 20.180, 'Kr': 83.798, 'W': 183.84,
    'Li': 6.94, 'Na': 22.99, 'Al': 26.982, 'P': 30.974, 'Sc': 44.956, 'Ti': 47.867, 'Fe': 55.845, 'Cu': 63.546, 'Ge': 72.63,
    'Br': 79.904, 'Mo': 95.95, 'I': 126.9, 'Xe': 131.29, 'Hf': 178.49, 'Au': 196.97, 'Hg': 200.59, 'Tl': 204.38, 'Pb': 207.2,
    'U': 238.03,
}
NOBLE = {'He', 'Ar', 'Ne', 'Kr', 'Xe'}
STATES = ['*', '**', 'v=1', 'v=2', '1D', 'J=1', '3P2', 'A']
E_MASS = 5.48579909e-4


def formula(comp):
    return ''.join(el + (str(n) if n > 1 else '') for el, n in comp)


def charge_suffix(q, style=0):
    if q == 0:
        return ''
    s = '+' if q > 0 else '-'
    if abs(q) == 1:
        return s if style != 2 else s + '1'
    return s * abs(q) if style == 0 else s + str(abs(q))


def cases(fn):
    """Marks fn(d) -> case as a generator of cases (d: engine.D)."""
    return fn


def draw_species(d, max_families=3, excited=True, multi=True, negative=True, need_ion=True, has_m=None,
                 max_species=9, elements=None, styles=(0, 1, 2), high=False, wide=False):
    """Returns a list of dicts k: name, stateless, state, comp, q, mass."""
    els = elements or d.perm(['H', 'O', 'Ar', 'N', 'Cl', 'C', 'He', 'F', 'Si', 'S'])[:d.int(1, 2)]
    comps = []
    for el in els:
        comps.append(((el, 1),))
        if el not in NOBLE:
            comps.append(((el, 2),))
            comps.append(((el, 3),))
    mol = [e for e in els if e not in NOBLE]
    if len(mol) == 2:
        comps += [((mol[0], 1), (mol[1], 1)), ((mol[0], 2), (mol[1], 1)), ((mol[0], 1), (mol[1], 2)),
                  ((mol[0], 2), (mol[1], 2))]
    if wide:  # more atoms of one element, and molecules of three elements
        comps += [((e, d.int(4, 9)),) for e in mol[:1]]
        if len(mol) >= 2:
            comps += [((mol[1], d.int(1, 9)), (mol[0], d.int(1, 9)))]
        if len(mol) >= 3:
            comps = [tuple((e, d.int(1, 9)) for e in mol[:3]), tuple((e, d.int(1, 2)) for e in mol[:3])] + d.perm(comps)[:1]
        comps = list(dict.fromkeys(comps))
    nfam = d.int(1, max_families)
    fams = d.perm(comps)[:nfam]
    out = []
    for i, comp in enumerate(fams):
        base = formula(comp)
        mass = round(sum(ELEMENTS.get(e, 50.) * n for e, n in comp), 4)
        variants = [(0, None)]
        if (i == 0 and need_ion) or d.bool():
            variants.append((1, None))
        if multi and d.bool(1, 5):
            variants.append((2, None))
        if high and d.bool(1, 3):
            variants.append((d.pick([3, 4, -2, -3, 10, 12] if high == 'any' else [3, -2, -2, -3]), None))
        if negative and d.bool(1, 3):
            variants.append((-1, None))
        if excited:
            for s in d.perm(STATES)[:d.weighted([(0, 3), (1, 4), (2, 1)])]:
                variants.append((0, s))
            if d.bool(1, 8):
                variants.append((1, '*'))
        style = d.pick(styles)
        for q, state in variants:
            stateless = base + charge_suffix(q, style)
            name = stateless + ('' if state is None else state if set(state) == {'*'} else '(' + state + ')')
            out.append({'name': name, 'stateless': stateless, 'state': state, 'comp': dict(comp), 'q': q,
                        'ground': base, 'mass': mass})
    out = out[:max_species]
    sp = [{'name': 'e', 'stateless': 'e', 'state': None, 'comp': {}, 'q': -1, 'ground': None, 'mass': E_MASS}] + out
    if has_m is None:
        has_m = d.bool(1, 2)
    if has_m:
        sp.append({'name': 'M', 'stateless': 'M', 'state': None, 'comp': {'M': 1}, 'q': None, 'ground': None,
                   'mass': None})
    return sp


def signature(sp, ms):
    q, comp = 0, {}
    for i in ms:
        q += sp[i]['q'] or 0
        for e, n in sp[i]['comp'].items():
            comp[e] = comp.get(e, 0) + n
    return q, tuple(sorted(comp.items()))


def conserving_table(sp, max_l=3, max_r=4):
    idx = [i for i, s in enumerate(sp) if s['name'] != 'M']
    if len(idx) > 9:
        max_r = 3
    if len(idx) > 12:
        max_l = max_r = 2
    groups = {}
    for n in range(1, max_r + 1):
        for ms in itertools.combinations_with_replacement(idx, n):
            groups.setdefault(signature(sp, ms), []).append(ms)
    lhs = []
    for n in range(1, max_l + 1):
        for ms in itertools.combinations_with_replacement(idx, n):
            alts = groups[signature(sp, ms)]
            if len(alts) > 1 or alts[0] != ms:
                lhs.append(ms)
    return groups, lhs, idx


def draw_reaction(d, sp, table, elastic_ok=True, electron=None):
    """Returns (lhs, rhs) position lists of a reaction conserving charge and atoms."""
    groups, lhs_all, idx = table
    m = [i for i, s in enumerate(sp) if s['name'] == 'M']
    e = [i for i, s in enumerate(sp) if s['name'] == 'e'][0]
    kind = d.weighted([('alt', 8), ('elastic', 1 if elastic_ok else 0), ('any', 1)]) if lhs_all else 'elastic'
    if kind == 'alt':
        if electron or (electron is None and d.bool(2, 5)):
            pool = [x for x in lhs_all if e in x and any(i != e for i in x)] or lhs_all
        else:
            pool = lhs_all
        if d.bool(3, 4):
            pool = [x for x in pool if len(x) <= 2] or pool
        lhs = d.pick(pool)
        alts = [r for r in groups[signature(sp, lhs)] if r != lhs]
        if d.bool(4, 5):
            alts = [r for r in alts if len(r) <= 3] or alts
        rhs = d.pick(alts)
    else:
        heavy = [i for i in idx if i != e]
        lhs = (e, d.pick(heavy)) if d.bool() else tuple(d.pick(heavy) for _ in range(2))
        rhs = lhs
    lhs, rhs = list(lhs), list(rhs)
    if m and d.bool(1, 12):
        one = [x for x in lhs_all if len(x) == 1 and x[0] != e]
        lhs = list(d.pick(one)) if one and d.bool() else [d.pick([i for i in idx if i != e])]
        rhs = list(d.pick([r for r in groups[signature(sp, lhs)] if len(r) < 3]))
        lhs, rhs = lhs + m * 2, rhs + m * 2
    elif m and len(lhs) <= 2 and d.bool(1, 5):
        lhs, rhs = lhs + m, rhs + m
    if d.bool(1, 3):
        lhs = d.perm(lhs)
    if d.bool(1, 3):
        rhs = d.perm(rhs)
    return lhs, rhs


ARRH_UNITS = {1: ['s-1'], 2: ['cm3.s-1', 'm3.s-1'], 3: ['cm6.s-1', 'm6.s-1']}


def is_electron_lhs(sp, lhs):
    return any(sp[i]['name'] == 'e' for i in lhs)


def draw_kinetics(d, sp, lhs, realistic=False, types=False):
    n = len(lhs)
    el = is_electron_lhs(sp, lhs)
    unit = d.pick(ARRH_UNITS[n])
    if realistic:
        mag = {1: (2, 6), 2: (-18, -14), 3: (-44, -41)}[n]
        a = d.logflt(*mag)
        if unit.startswith('cm3'):
            a = float('{:.6g}'.format(a * 1e6))
        if unit.startswith('cm6'):
            a = float('{:.6g}'.format(a * 1e12))
        if d.bool(1, 12):
            a = 0.
    else:
        a = d.weighted([(0., 1), (1., 2), (d.flt(0, 50), 3), (d.logflt(-32, 3), 3)])
    attrs, units = {'arrh_a': a}, {'arrh_a': unit}
    if d.bool(3, 4):
        attrs['arrh_b'] = d.weighted([(0., 1), (1., 1), (-1., 1), (d.flt(-3, 3), 3)])
    if d.bool(3, 4):
        attrs['arrh_c'] = d.flt(0, 25) if el else (d.flt(0, 3000) if realistic else d.flt(-2000, 30000))
        units['arrh_c'] = 'eV' if el else 'K'
    if d.bool(1, 2) and (el or not realistic):
        attrs['el_en_loss'] = d.flt(-5, 25) if not realistic else d.flt(0, 20)
    if d.bool(1, 5):
        attrs['gas_heat_contrib'] = d.flt(-3, 3)
    if types:
        for key in list(attrs):
            attrs[key] = vary_number(d, attrs[key])
    return attrs, units


def vary_number(d, x):
    """One of the number types which the attribute setters document (all JSON-able; {"np": x} is a numpy float)."""
    t = d.int(0, 3)
    if t == 1:
        return repr(float(x))
    if t == 2:
        return {'np': float(x)}
    if t == 3 and abs(x) < 1e6:
        return int(x)
    return x


def held(k):
    """A way of holding a list: as it is, or in another iterable."""
    def array(xs):
        out = np.empty(len(xs), dtype=object)
        out[:] = xs
        return out
    return (list, tuple, iter, lambda xs: pd.Series(array(xs), index=[7 * i + 3 for i in range(len(xs))], dtype=object), array)[k]


def untag(v):
    if isinstance(v, dict) and set(v) == {'np'}:
        import numpy as np
        return np.float64(v['np'])
    return v


def species_attrs(d, k, names, rich=True, ret=True, types=False, zeros=False):
    """Attributes passed to the RP constructor for the species described by k."""
    a = {'name': k['name']}
    if k['name'] == 'M':
        return a, {}
    a['mass'] = k['mass']
    if k['name'] == 'e':
        a['charge'] = -1
        return a, {}
    if k['q'] != 0 or d.bool(1, 3):
        a['charge'] = k['q']
    if k['state'] is not None or d.bool(1, 4):
        a['stateless'] = k['stateless']
    if k['state'] is not None:
        a['state'] = k['state']
    units = {}
    if rich:
        if d.bool(1, 3):
            a['h_form'] = d.flt(-10, 20)
        if d.bool(1, 2):
            a['lj_sigma'] = d.flt(1, 6)
        if d.bool(1, 4):
            a['lj_epsilon'] = d.flt(0, 400)
        if d.bool(1, 2):
            a['stick_coef'] = d.weighted([(0., 2), (1., 2), (d.flt(0, 1), 4)])
        default_ok = k['ground'] in names
        if ret and (not default_ok and (k['q'] or k['state']) or d.bool(1, 2)):
            pool = [n for n in names if n not in ('e', 'M')]
            a['ret_coefs'] = {n: d.flt(0, 2) for n in d.perm(pool)[:d.weighted([(0, 2), (1, 3), (2, 3), (3, 2), (4, 1)])]}
    else:
        if k['ground'] not in names and (k['q'] or k['state']):
            a['ret_coefs'] = {}
        for key in ('h_form', 'lj_sigma', 'lj_epsilon', 'stick_coef'):
            if zeros and d.bool(1, 6):
                a[key] = 0.
    if types:
        for key in ('mass', 'h_form', 'lj_sigma', 'lj_epsilon', 'stick_coef'):
            if key in a and d.bool(1, 2):
                a[key] = vary_number(d, a[key]) if key != 'mass' else a[key]
        if 'charge' in a and d.bool(1, 3):
            a['charge'] = str(a['charge'])
    for u, val in (('mass', 'amu'), ('charge', 'e'), ('h_form', 'eV'), ('lj_sigma', 'A'), ('lj_epsilon', 'K')):
        if u in a and d.bool(1, 6):
            units[u] = val
    return a, units


def assign_ids(d, n, special=()):
    style = d.weighted([(0, 5), (1, 5), (2, 5), (3, 1)])
    if style == 0:
        return list(range(n))
    if style == 1:
        return list(range(n))[::-1]
    start = d.pick([5, 95, 120, 250, 995, 9995, 32760, 99995]) if style == 3 else 0  # also ids of more digits
    pool = d.perm(list(range(start, start + 2 * n + 2)))
    return list(pool[:n])


def draw_chemistry(d, max_reactions=9, rich=True, realistic=False, types=False, special_number=False,
                   max_families=3, charged=True, has_m=None, ret=True, names_filter=None, excited=True, negative=True,
                   max_species=9, min_reactions=1, elements=None, styles=(0, 1, 2), high=True, wide=False, large=0):
    """A consistent chemistry spec: every species is in a reaction, an electron and a positive ion exist. One in `large` of
    them (if given) has up to some twenty species and thirty reactions."""
    if large and d.bool(1, large):
        max_families, max_species, min_reactions, max_reactions = 8, 22, 14, 32
        elements = elements or d.perm(['H', 'O', 'N', 'Cl', 'C', 'F', 'S'])[:2] + d.perm(['Ar', 'He'])[:1]
    if charged:
        sp = draw_species(d, max_families=max_families, has_m=has_m, excited=excited, negative=negative,
                          max_species=max_species, elements=elements, styles=styles, high=high and negative and d.bool(1, 3), wide=wide)
    else:
        sp = draw_species(d, max_families=max_families, has_m=has_m, need_ion=False, excited=excited,
                          max_species=max_species, elements=elements)
        sp = [s for s in sp if not s['q']]
        if d.bool(1, 2):  # electron cannot be in a neutral chemistry; keep M or not
            pass
    by_name = {s['name']: i for i, s in enumerate(sp)}
    rs = []
    if charged:
        table = conserving_table(sp)
        ion = next(i for i, s in enumerate(sp) if s['q'] and s['q'] > 0)
        ground = by_name.get(sp[ion]['ground'])
        e = by_name['e']
        rs.append(([e, ground], [e] * (1 + sp[ion]['q']) + [ion]))
    else:
        table = _neutral_table(sp)
    for _ in range(d.int(min_reactions, max_reactions)):
        r = draw_reaction(d, sp, table) if charged else _neutral_reaction(d, sp, table)
        if r is not None:
            rs.append(tuple(r))
    used = set(i for l, r in rs for i in l + r)
    # species in no reaction are either dropped or given a collision of their own:
    for i, s in enumerate(sp):
        if i not in used and s['name'] not in ('e', 'M') and d.bool(1, 3):
            if charged and d.bool():
                rs.append(([by_name['e'], i], [by_name['e'], i]))
            else:
                j = d.pick(sorted(used - {by_name.get('e', -1), by_name.get('M', -1)}) or [i])
                rs.append(([i, j], [j, i]))
            used |= set(rs[-1][0])
    keep = [i for i in range(len(sp)) if i in used]
    order = d.perm(keep) if d.bool(2, 3) else keep
    newpos = {old: new for new, old in enumerate(order)}
    sp2 = [sp[i] for i in order]
    rs2 = [([newpos[i] for i in l], [newpos[i] for i in r]) for l, r in rs]
    if len(rs2) > 1 and d.bool():
        rs2 = d.perm(rs2)
    names = [s['name'] for s in sp2]
    ids = assign_ids(d, len(sp2))
    rids = [i + 1 for i in assign_ids(d, len(rs2))]
    spec = {'species': [], 'reactions': []}
    for s, i in zip(sp2, ids):
        attrs, units = species_attrs(d, s, names, rich=rich, ret=ret, types=types)
        spec['species'].append({'id': i, 'attrs': attrs, 'units': units, 'k': s})
    for (l, r), i in zip(rs2, rids):
        attrs, units = draw_kinetics(d, sp2, l, realistic=realistic, types=types)
        if special_number and d.bool(1, 3):
            attrs['special_number'] = d.int(-50, 50)
            if d.bool():
                attrs, units = {'special_number': attrs['special_number']}, {}
        spec['reactions'].append({'id': i, 'lhs': l, 'rhs': r, 'attrs': attrs, 'units': units})
    return spec


def _neutral_table(sp):
    idx = [i for i, s in enumerate(sp) if s['name'] not in ('M', 'e')]
    groups = {}
    for n in range(1, 5):
        for ms in itertools.combinations_with_replacement(idx, n):
            groups.setdefault(signature(sp, ms), []).append(ms)
    lhs = []
    for n in range(1, 4):
        for ms in itertools.combinations_with_replacement(idx, n):
            if len(groups[signature(sp, ms)]) > 1:
                lhs.append(ms)
    return groups, lhs, idx


def _neutral_reaction(d, sp, table):
    groups, lhs_all, idx = table
    m = [i for i, s in enumerate(sp) if s['name'] == 'M']
    if lhs_all and d.bool(5, 6):
        lhs = d.pick(lhs_all)
        rhs = d.pick([r for r in groups[signature(sp, lhs)] if r != lhs])
    else:
        lhs = tuple(d.pick(idx) for _ in range(2))
        rhs = lhs
    lhs, rhs = list(lhs), list(rhs)
    if m and len(lhs) <= 2 and d.bool(1, 4):
        lhs, rhs = lhs + m, rhs + m
    return lhs, rhs


# ------------------------------------------------ building real objects ------------------------------------------- #

def build_species(spec):
    from plaschem.species import RP
    out = []
    for s in spec['species']:
        out.append(RP(s['id'], attributes={k: untag(v) for k, v in s['attrs'].items()}, units=dict(s['units'])))
    return out


def build_reactions(spec, sps):
    from plaschem.reactions import Reaction
    out = []
    for r in spec['reactions']:
        out.append(Reaction(r['id'], [sps[i] for i in r['lhs']], [sps[i] for i in r['rhs']],
                            attributes={k: untag(v) for k, v in r['attrs'].items()}, units=dict(r['units'])))
    return out


def build(spec, cls=None, xml_path=None):
    from plaschem.chemistry import Chemistry
    sps = build_species(spec)
    rs = build_reactions(spec, sps)
    return (cls or Chemistry)(species=sps, reactions=rs, xml_path=xml_path)


# ------------------------------------------------ harness-side facts ---------------------------------------------- #

def names_of(spec):
    return [s['attrs']['name'] for s in spec['species']]


def fnum(v):
    if isinstance(v, dict):
        v = v['np']
    return float(v)


SI = {'s-1': 1., 'm3.s-1': 1., 'm6.s-1': 1., 'cm3.s-1': 1e-6, 'cm6.s-1': 1e-12}


def stick_of(s):
    """Sticking coefficient the documentation gives the species (None for special ones)."""
    k, a = s['k'], s['attrs']
    if k['name'] in ('e', 'M'):
        return None
    if a.get('stick_coef') is not None:
        return fnum(a['stick_coef'])
    return 0. if (k['state'] is None and k['q'] == 0) else 1.


def ret_of(s):
    """The species' own return coefficients (ignoring its sticking coefficient); None for special ones."""
    k, a = s['k'], s['attrs']
    if k['name'] in ('e', 'M'):
        return None
    if a.get('ret_coefs') is not None:
        return {n: fnum(v) for n, v in a['ret_coefs'].items()}
    return {} if (k['state'] is None and k['q'] == 0) else {k['ground']: 1.}


def tag(spec):
    """Labels describing the shape of a chemistry."""
    out = []
    q = [s['k']['q'] for s in spec['species']]
    pos = sum(1 for x in q if x and x > 0)
    out.append('ions={}'.format(min(pos, 3)))
    if any(x and x < 0 for x, s in zip(q, spec['species']) if s['k']['name'] != 'e'):
        out.append('negative-ion')
    if any(s['k']['name'] == 'M' for s in spec['species']):
        out.append('M')
    if any(s['k']['state'] for s in spec['species']):
        out.append('excited')
    if any(x == 2 for x in q):
        out.append('doubly-charged')
    return out
