"""C14: the printed tables of attributes and arrays hold the values the chemistry uses, each with its colour and label."""
import contextlib
import io
import random

import gen
import world
from core import Sub, check, check_eq, raises

ASSUMPTIONS = [
    'Blue marks an attribute whose value differs from the one given for it (a default, an ad-hoc change, return species '
    'which are disabled or which the species cannot have because it does not stick); an ad-hoc change to the very value given '
    'may have either colour.',
    'Arrays are judged for chemistries where the ids of the printed rows and columns belong to one kind of objects only, or '
    'are exactly the ids of an array of the chemistry.',
    'Units of attributes which are not given may be shown as the default unit in blue.',
]

RED, BLUE, YELLOW, MAGENTA, RESET = '\x1b[31m', '\x1b[34m', '\x1b[33m', '\x1b[35m', '\x1b[39m'

SP_ATTRS = ['name', 'stateless', 'state', 'mass', 'charge', 'h_form', 'lj_epsilon', 'lj_sigma', 'hpem_name', 'qdb_id',
            'stick_coef', 'ret_coefs', 'comments', 'latex']
SP_UNITS = {'mass': 'amu', 'charge': 'e', 'h_form': 'eV', 'lj_epsilon': 'K', 'lj_sigma': 'A'}
R_ATTRS = ['arrh_a', 'arrh_b', 'arrh_c', 'elastic', 'el_en_loss', 'gas_heat_contrib', 'special_number', 'qdb_r_id', 'qdb_ds_id',
           'doi', 'comments', 'latex']
R_UNITS = {'arrh_a': None, 'arrh_c': None, 'el_en_loss': 'eV', 'gas_heat_contrib': 'eV'}


def enrich(d, spec):
    for s in spec['species']:
        a = s['attrs']
        if d.bool(1, 4):
            a['hpem_name'] = d.pick(['X1', 'AR+', '12', 'True'])
        if d.bool(1, 4):
            a['qdb_id'] = d.pick([7, '8', 0])
        if d.bool(1, 4):
            a['comments'] = d.pick(['some words', '3.5', '', 'nan', 'a comment of more than fifty characters, which is not cut'])
        if d.bool(1, 6):
            a['latex'] = d.pick(['X', r'\mathrm{Y}'])
    for r in spec['reactions']:
        a = r['attrs']
        if d.bool(1, 3):
            a['elastic'] = d.pick([True, False, 'True', 'false', 'TRUE', 'FALSE', 'true', 'False'])
        if d.bool(1, 4):
            a['qdb_r_id'] = d.pick([7, '8', 0])
        if d.bool(1, 4):
            a['qdb_ds_id'] = d.pick([7, '8', 1])
        if d.bool(1, 4):
            a['doi'] = d.pick(['10.1/x', '10.1', 'True', 'this work'])
        if d.bool(1, 4):
            a['comments'] = d.pick(['some words', '3.5', '', 'False'])


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, types=True, special_number=True, max_reactions=6, large=20)
    enrich(d, spec)
    return {'spec': spec, 'ops': world.draw_ops(d, 5), 'disabled': d.bool(2, 3), 'special': d.bool(), 'sort': d.bool(),
            'classify': d.bool(), 'units': d.bool(), 'pretty': d.bool(3, 4), 'omit': d.bool(), 'same': [[d.int(0, 20), d.pick([1, 1, 0.999, 1 - 1e-6, 0.1])] for _ in range(d.int(0, 3))],
            'ignored': d.weighted([(None, 3), ([], 2), (d.subset(['latex', 'mass', 'ret_coefs', 'name', 'arrh_a', 'doi', 'elastic']), 3)])}


def plain(v):
    """A cell as plain data: None for undefined."""
    import numpy as np
    if v is None or isinstance(v, (float, np.floating)) and v != v:
        return None
    if isinstance(v, dict):
        return {str(k): float(x) for k, x in v.items()}
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, str):
        return v
    return float(v)


def stored_matches(given, value):
    """Whether a given attribute (of any documented type) is the value shown."""
    given = gen.untag(given)
    if given is None or value is None:
        return given is None and value is None
    if isinstance(value, bool):
        return str(given).lower() == str(value).lower()
    if isinstance(value, dict):
        return {k: float(gen.untag(v)) for k, v in given.items()} == value
    if isinstance(value, str):
        return str(given) == value
    return float(given) == value


def judge_cell(cell, value, colour, where):
    """cell: what the pretty table holds; value: plain value; colour: set of the allowed ones."""
    shown = cell.value
    if value is None:
        check_eq(shown, '...', '{} (undefined)'.format(where))
    else:
        check_eq(plain(shown), value, where)
    check(cell.color in colour, '{} = {!r} is printed with {!r}, not with {!r}', where, shown, cell.color, colour)
    check(str(cell) == cell.color + str(shown) + RESET and repr(cell) == cell.color + repr(shown) + RESET,
          '{} is printed as {!r}', where, str(cell))


def expected_columns(attrs, units, ignored, unit_names, first=()):
    cols = []
    for a in list(first) + [a for a in attrs if a not in ignored]:
        cols.append(a)
        if units and a in unit_names:
            cols.append('[{}]'.format(a))
    return cols


def sides(text):
    return [sorted(x for x in side.split() if x != '+') for side in text.split('>')]


def quiet_call(fn, *args, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = fn(*args, **kw)
    return out, buf.getvalue()


def prepare(case):
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    ref, chem = w.ref, w.chem
    for x, f in case['same']:  # ad-hoc changes to the very values given, or to values close to them
        i = ref.order[x % len(ref.order)]
        a = ref.sp[i]['attrs']
        if not ref.is_special(i) and a.get('stick_coef') is not None:
            v = gen.fnum(a['stick_coef']) * f if gen.fnum(a['stick_coef']) or f == 1 else (1 - f) / 100
            chem.set_adhoc_species_attributes('stick_coef', i, v)
            ref.stick[i] = v
        r = ref.rorder[x % len(ref.rorder)]
        if ref.r[r]['attrs'].get('arrh_a') is not None:
            v = gen.fnum(ref.r[r]['attrs']['arrh_a']) * f
            chem.set_adhoc_reactions_attributes('arrh_a', r, v)
            ref.arrh[r] = v
    return w


DEFAULTS = {'disabled': True, 'special': True, 'pretty_print': True, 'sort': False, 'classify': False, 'units': False}


def kwargs_of(case, names):
    kw = {'disabled': case['disabled'], 'pretty_print': case['pretty'], 'sort': case['sort'], 'units': case['units']}
    if case['ignored'] is not None:
        kw['ignored'] = (tuple, list, set, frozenset)[len(case['ignored']) % 4](case['ignored'])
    kw.update({n: case[n] for n in names})
    if case.get('omit'):  # arguments at their documented defaults are left out
        for n in list(kw):
            if n != 'ignored' and kw[n] is DEFAULTS[n]:
                del kw[n]
    return kw


def species_fn(case, rec):
    from plaschem.classification import ReactionClassifier
    w = prepare(case)
    ref, chem = w.ref, w.chem
    before = world.observe_all(chem)
    table, text = quiet_call(chem.species_attributes, printout=False, **kwargs_of(case, ('special',)))
    check_eq(text, '', 'printed without asking')
    again, text = quiet_call(chem.species_attributes, **kwargs_of(case, ('special',)))
    world.check_same(before, world.observe_all(chem), 'printing the species changed the chemistry')
    ids = ref.ids(disabled=case['disabled'], special=case['special'])
    if case['sort']:
        cl = ReactionClassifier(species=chem.get_species(disabled=case['disabled'], special=case['special']), reactions=[None])
        cl.sort_species()
        check_eq(sorted(s.id for s in cl.species), sorted(ids), 'classified species')
        ids = [s.id for s in cl.species]
    ignored = ('latex',) if case['ignored'] is None else case['ignored']
    cols = expected_columns(SP_ATTRS, case['units'], ignored, SP_UNITS)
    check_eq(list(table.index), ids, 'rows of the species table')
    check_eq([str(c.value) if case['pretty'] else c for c in table.columns], cols, 'columns of the species table')
    blue = False
    for i in ids:
        sp, s = chem.get_rp(i), ref.sp[i]
        for n, c in enumerate(cols):
            cell = table.iat[ids.index(i), n]
            where = 'column {} of species {}'.format(c, ref.name(i))
            if c.startswith('['):
                a = c[1:-1]
                unit = s['units'].get(a) or SP_UNITS[a]
                if not case['pretty']:
                    check_eq(cell, unit, where)
                    continue
                judge_cell(cell, unit, {RED} if i not in ref.es else {RESET} if a in s['units'] else {BLUE}, where)
                continue
            given = s['attrs'].get(c)
            if c == 'stick_coef':
                value = ref.stick_coef(i)
            elif c == 'ret_coefs':
                value = ref.ret_coefs(i)
            else:
                value = plain(getattr(sp, 'get_' + c)())
                if c in s['attrs'] and gen.untag(given) is not None:
                    check(stored_matches(given, value) or given == '', '{}: {!r} given as {!r}', where, value, given)
            if not case['pretty']:
                check_eq(plain(cell), value, where)
                continue
            if i not in ref.es:
                colour = {RED}
            elif value is None:
                colour = {RESET} if given is None or given == '' else {RESET, BLUE}
            else:
                colour = {RESET} if stored_matches(given, value) else {BLUE}
                blue |= colour == {BLUE} and given is not None
            judge_cell(cell, value, colour, where)
    if case['pretty']:
        lines = [x for x in text.split('\n') if x.strip()]
        check_eq(len(lines), len(ids) + 1, 'printed lines of the species table')
        for i, line in zip(ids, lines[1:]):
            if 'name' not in ignored:
                check(ref.name(i) in line, 'species {} is not in its printed line {!r}', ref.name(i), line)
            check((RED in line) == (i not in ref.es), 'colours of the printed line {!r}', line)
            check_eq(line.count('\x1b['), 2 * len(cols), 'colours opened and closed in {!r}'.format(line))
    rec.label('overridden' if blue else None, 'disabled' if set(ids) - ref.es else None, 'units' if case['units'] else None,
              'pretty' if case['pretty'] else 'plain', 'sort' if case['sort'] else None, 'defaults' if case.get('omit') else None)
    rec.nontrivial(len(ids) > 1)


def reactions_fn(case, rec):
    from plaschem.classification import ReactionClassifier
    w = prepare(case)
    ref, chem = w.ref, w.chem
    before = world.observe_all(chem)
    kw = kwargs_of(case, ('classify',))
    table, text = quiet_call(chem.reactions_attributes, printout=False, **kw)
    check_eq(text, '', 'printed without asking')
    again, text = quiet_call(chem.reactions_attributes, **kw)
    world.check_same(before, world.observe_all(chem), 'printing the reactions changed the chemistry')
    ids = ref.rids(disabled=case['disabled'])
    rows, heads = ids, {}
    reactions = chem.get_reactions(disabled=True)
    strings = {i: reactions[i].get_string() for i in ids}
    if case['sort'] or case['classify']:
        cl = ReactionClassifier(species=chem.get_species(disabled=case['disabled'], special=True),
                                reactions=chem.get_reactions(disabled=case['disabled']))
        if case['sort']:
            cl.sort_species()
            cl.sort_reactions()
            rows = [r.id for r in cl.reactions]
        if case['classify']:
            rows = []
            for n, (t, cats) in enumerate(cl.get_classified_reactions().items()):
                rows.append('(C{})'.format(n + 1))
                heads[rows[-1]] = (t, YELLOW)
                for m, (c, rs) in enumerate(cats.items()):
                    if c != 'None':
                        rows.append('(C{}.{})'.format(n + 1, m + 1))
                        heads[rows[-1]] = (c, MAGENTA)
                    rows += [r.id for r in rs]
        check_eq(sorted(r for r in rows if r not in heads), sorted(ids), 'classified reactions')
    ignored = ('latex',) if case['ignored'] is None else case['ignored']
    cols = expected_columns(R_ATTRS, case['units'], ignored, R_UNITS, ('string',))
    check_eq(list(table.index), rows, 'rows of the reactions table')
    check_eq([str(c.value) if case['pretty'] else c for c in table.columns], cols, 'columns of the reactions table')
    blue = False
    for k, i in enumerate(rows):
        for n, c in enumerate(cols):
            cell = table.iat[k, n]
            where = 'column {} of row {}'.format(c, i)
            if i in heads:
                value = cell.value if case['pretty'] else cell
                check_eq(value.strip(), heads[i][0] if c == 'string' else '', where)
                if case['pretty']:
                    check_eq(cell.color, heads[i][1] if c == 'string' else RESET, 'colour of ' + where)
                continue
            r = reactions[i]
            spec_r = ref.r[i]
            if c == 'string':
                value = cell.value if case['pretty'] else cell
                if case['classify']:  # aligned: the species of a side in the order of the classification
                    check_eq(sides(value), sides(strings[i]), where)
                else:
                    check_eq(value, strings[i], where)
                if case['pretty']:
                    check_eq(cell.color, RED if i not in ref.er else RESET, 'colour of ' + where)
                continue
            if c.startswith('['):
                a = c[1:-1]
                unit = spec_r['units'].get(a) or R_UNITS[a]
                if not case['pretty']:
                    check_eq(plain(cell), unit, where)
                    continue
                judge_cell(cell, unit, {RED} if i not in ref.er else
                           {RESET} if a in spec_r['units'] or unit is None else {BLUE}, where)
                continue
            given = spec_r['attrs'].get(c)
            if c == 'arrh_a':
                value = ref.arrh_a(i, si=False)
            else:
                value = plain(getattr(r, 'get_' + c)())
                if given is not None and given != '':
                    check(stored_matches(given, value), '{}: {!r} given as {!r}', where, value, given)
            if not case['pretty']:
                check_eq(plain(cell), value, where)
                continue
            if i not in ref.er:
                colour = {RED}
            elif value is None:
                colour = {RESET} if given is None or given == '' else {RESET, BLUE}
            else:
                colour = {RESET} if stored_matches(given, value) else {BLUE}
                blue |= colour == {BLUE} and given is not None
            judge_cell(cell, value, colour, where)
    if case['pretty']:
        lines = [x for x in text.split('\n') if x.strip()]
        check_eq(len(lines), len(rows) + 1, 'printed lines of the reactions table')
        for i, line in zip(rows, lines[1:]):
            what = heads[i][0] if i in heads else strings[i]
            check(what.split()[0] in line, '{!r} is not in its printed line {!r}', what, line)
            check((RED in line) == (i not in heads and i not in ref.er), 'colours of the printed line {!r}', line)
            check_eq(line.count('\x1b['), 2 * len(cols), 'colours opened and closed in {!r}'.format(line))
    rec.label('overridden' if blue else None, 'disabled' if set(ids) - ref.er else None, 'units' if case['units'] else None,
              'pretty' if case['pretty'] else 'plain', 'classify' if case['classify'] else None,
              'sort' if case['sort'] and not case['classify'] else None, 'defaults' if case.get('omit') else None)
    rec.nontrivial(len(ids) > 1)


# ------------------------------------------------------- arrays ---------------------------------------------------- #

@gen.cases
def array_case(d):
    spec = gen.draw_chemistry(d, rich=True, max_reactions=6)
    if d.bool(1, 2):  # ids of the reactions apart from the ids of the species
        top = max(s['id'] for s in spec['species'])
        for r in spec['reactions']:
            r['id'] += top + 1
    return {'spec': spec, 'ops': world.draw_ops(d, 4, [('disable_sp', 3), ('disable_r', 4), ('reset', 1), ('ret', 1), ('stick', 1)]),
            'array': d.pick(['stoich', 'stoich', 'return']), 'disabled': d.bool(), 'special': d.bool(), 'method': d.pick(['net', 'lhs', 'rhs']),
            'annotation': d.bool(2, 3), 'cut': d.weighted([(None, 3), (d.int(0, 1000), 1)])}


def array_fn(case, rec):
    import pandas as pd
    from plaschem.pretty_print import PrettyPrint
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    ref, chem = w.ref, w.chem
    cols = ref.ids(disabled=case['disabled'], special=case['special'])
    if case['array'] == 'stoich':
        arr = chem.get_stoichiomatrix(disabled=case['disabled'], special=case['special'], method=case['method'])
        rows, kind = ref.rids(case['disabled']), 'r'
    else:
        arr = chem.get_return_matrix(disabled=case['disabled'], special=case['special'])
        rows, kind = cols, 'sp'
    check_eq((list(arr.index), list(arr.columns)), (rows, cols), 'ids of the array')
    apart = not set(ref.order) & set(ref.rorder)
    if apart and case['cut'] is not None:  # a part of an array
        rng = random.Random(case['cut'])
        arr = arr.loc[[i for i in rows if rng.random() < .7] or rows[:1], [i for i in cols if rng.random() < .7] or cols[:1]]
        rows, cols = list(arr.index), list(arr.columns)
    if not apart:  # ids of both kinds: the very same ids cannot be told apart
        lists = [ref.rids(x) for x in (False, True)]
        sp_lists = [ref.ids(disabled=x, special=y) for x in (False, True) for y in (False, True)]
        if any(x in sp_lists for x in lists):
            rec.label('ambiguous')
            return
    pp = PrettyPrint(chemistry=chem)
    keep = arr.copy()
    kw = {} if case['annotation'] else {'annotation': False}
    out, text = quiet_call(pp.print, arr, **kw)
    check(arr.equals(keep), 'printing an array changed it')
    k = 1 if case['annotation'] else 0
    check_eq(out.shape, (len(rows) + k, len(cols) + k), 'shape of the printed array')
    check_eq(list(out.index), ([''] if k else []) + rows, 'ids of the rows')
    check_eq([c.value for c in out.columns], ([''] if k else []) + cols, 'ids of the columns')
    off_rows = [i not in (ref.er if kind == 'r' else ref.es) for i in rows]
    off_cols = [i not in ref.es for i in cols]
    names = {'r': {i: str(r) for i, r in chem.get_reactions(disabled=True).items()}, 'sp': {i: ref.name(i) for i in ref.order}}
    for a, i in enumerate(rows):
        for b, c in enumerate(cols):
            cell = out.iat[a + k, b + k]
            where = 'row {} column {}'.format(i, c)
            check_eq(plain(cell.value), plain(keep.iat[a, b]), where)
            check_eq(cell.color, RED if off_rows[a] or off_cols[b] else RESET, 'colour of ' + where)
        if k:
            check_eq((out.iat[a + 1, 0].value, out.iat[a + 1, 0].color), (names[kind][i], RED if off_rows[a] else RESET), 'label of row {}'.format(i))
    if k:
        check_eq(out.iat[0, 0].value, '', 'the corner')
        for b, c in enumerate(cols):
            check_eq((out.iat[0, b + 1].value, out.iat[0, b + 1].color), (names['sp'][c], RED if off_cols[b] else RESET),
                     'label of column {}'.format(c))
    lines = [x for x in text.split('\n') if x.strip()]
    check_eq(len(lines), len(rows) + 1 + k, 'printed lines')
    for a, i in enumerate(rows):
        line = lines[1 + k + a]
        check(line.split()[0] == str(i), 'the line of row {}: {!r}', i, line)
        check(not k or names[kind][i] in line, 'the label of row {} is not in {!r}', i, line)
        check((RED in line) == (off_rows[a] or any(off_cols)), 'colours of {!r}', line)
        check_eq(line.count('\x1b['), 2 * (len(cols) + k), 'colours opened and closed in {!r}'.format(line))
    raises(NotImplementedError, pp.print, pd.Series([1.]))
    rec.label(case['array'], 'annotated' if k else 'bare', 'disabled' if any(off_rows + off_cols) else None,
              'apart' if apart else 'shared ids', 'part' if apart and case['cut'] is not None else None)
    rec.nontrivial(len(rows) > 1 and len(cols) > 1)


SUBS = [Sub('species', case, species_fn, quick=800, thorough=20000, shards=8,
            rule='a chemistry with attributes of every documented type, and a history; non-trivial with two or more species',
            must_label=('overridden', 'disabled', 'units', 'pretty', 'plain', 'sort', 'defaults')),
        Sub('reactions', case, reactions_fn, quick=800, thorough=20000, shards=8,
            rule='as above; non-trivial with two or more reactions',
            must_label=('overridden', 'disabled', 'units', 'pretty', 'plain', 'sort', 'classify', 'defaults')),
        Sub('arrays', array_case, array_fn, quick=700, thorough=20000, shards=8,
            rule='stoichiometric and return matrices after a history; non-trivial with two or more rows and columns',
            must_label=('stoich', 'return', 'annotated', 'bare', 'disabled', 'apart', 'shared ids', 'part'))]
