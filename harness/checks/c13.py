"""C13: the LaTeX of species, reactions, rate coefficients and reaction tables says what the objects hold."""
import re

import gen
import world
from core import Sub, check, check_eq, raises

ASSUMPTIONS = [
    'Species names are judged within the documented notation: element symbols with counts below 20, then at most one of a '
    'charge written by up to three repeated signs or up to four stars, then at most one round bracket at the very end.',
    'White space of a math environment is of no consequence, except inside the bracket of a state.',
    'Rate coefficients are judged for reactions with Arrhenius parameters; reaction tables for chemistries without ad-hoc rates.',
]

ELEMENTS = (
    'H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru '
    'Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At '
    'Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
COMMON = 'H C N O F S I B P Si Cl Ar He Na Al Cs Co Os Sn In'.split()
STATE_CHARS = 'vJ=1234567890ABXabgu*+-^_, \'/St{}'


# ------------------------------------------------------- reading --------------------------------------------------- #

def read_species(tex):
    """LaTeX of a species back to its name; every letter has to be upright, every count a subscript and every charge or
    excitation sign a superscript."""
    name, i = '', 0
    m = re.search(r' *\(', tex)
    state = ''
    if m:
        state, tex = tex[m.end() - 1:], tex[:m.start()]
    scripted = set()
    while i < len(tex):
        rest = tex[i:]
        m = re.match(r'\s+', rest)
        if m:
            i += m.end()
            continue
        m = re.match(r'\\mathrm\{([A-Za-z]+)\}', rest)
        if m:
            check('^' not in scripted, 'letters after a superscript in {!r}', tex)
            name, scripted = name + m.group(1), set()
            i += m.end()
            continue
        m = re.match(r'_(?:\{(\d+)\}|(\d))', rest)
        if m:
            check(name and not scripted, 'a subscript of nothing in {!r}', tex)
            name += m.group(1) or m.group(2)
            scripted.add('_')
            i += m.end()
            continue
        m = re.match(r'\^(?:\{([23])([+-])\}|\{(\*+)\}|([+*-]))', rest)
        check(m, '{!r} is not LaTeX of a species (at {!r})', tex, rest)
        check(name and '^' not in scripted, 'a superscript of nothing in {!r}', tex)
        name += m.group(2) * int(m.group(1)) if m.group(1) else m.group(3) or m.group(4)
        scripted.add('^')
        i += m.end()
    return name + state


NUM = r'(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)'


def read_rate(tex):
    """(mantissa, exponent, temperature of the power, b, temperature of the exponential, c); None for an absent factor."""
    rest = tex.strip()
    m = re.match(r'(-?\d+(?:\.\d+)?)(?:\s*\\times\s*10\^\{(-?\d+)\})?\s*', rest)
    check(m, 'no pre-exponential factor in {!r}', tex)
    mant, ex = float(m.group(1)), int(m.group(2) or 0)
    rest = rest[m.end():]
    tb = b = tc = c = None
    for t, pat in (('e', r'T_\\mathrm\{e\}\^\{' + NUM + r'\}\s*'),
                   ('g/', r'\\left\(\s*\\mathrm\{T_g\}/300\s*\\right\)\^\{' + NUM + r'\}\s*'),
                   ('gd', r'\\left\(\s*\\dfrac\{\\mathrm\{T_g\}\}\{300\}\s*\\right\)\^\{' + NUM + r'\}\s*')):
        m = re.match(pat, rest)
        if m:
            tb, b = t, float(m.group(1))
            rest = rest[m.end():]
            break
    for t, pat in (('e/', r'\\exp\s*\\left\(\s*(-?)' + NUM + r'/T_\\mathrm\{e\}\s*\\right\)\s*'),
                   ('ed', r'\\exp\s*\\left\(\s*(-?)\\dfrac\{' + NUM + r'\}\{T_\\mathrm\{e\}\}\s*\\right\)\s*'),
                   ('g/', r'\\exp\s*\\left\(\s*(-?)' + NUM + r'/\\mathrm\{T_g\}\s*\\right\)\s*'),
                   ('gd', r'\\exp\s*\\left\(\s*(-?)\\dfrac\{' + NUM + r'\}\{\\mathrm\{T_g\}\}\s*\\right\)\s*')):
        m = re.match(pat, rest)
        if m:
            tc, c = t, -float(m.group(1) + m.group(2))
            rest = rest[m.end():]
            break
    check(not rest, 'something else in the rate coefficient {!r}: {!r}', tex, rest)
    return mant, ex, tb, b, tc, c


def check_rounded(got, x, what):
    check(abs(got - x) <= 0.005 * (1 + 1e-9) + 1e-12 * abs(x), '{}: {} is shown for {}', what, got, x)
    check(abs(got) > 1e15 or got == round(got, 2), '{}: {} is not rounded', what, got)


def check_rate(tex, a, b, c, electron, fractype):
    mant, ex, tb, gb, tc, gc = read_rate(tex)
    if a == 0:
        check_eq((mant, ex), (0., 0), 'pre-exponential factor in ' + tex)
    else:
        check(1 <= mant < 10, 'mantissa in {!r}', tex)
        check(abs(mant * 10. ** ex - a) <= 0.005 * 10. ** ex * (1 + 1e-9), 'pre-exponential factor {} shown as {!r}', a, tex)
        check(mant == round(mant, 2), 'mantissa in {!r}', tex)
    check_eq(tb, None if b == 0 else 'e' if electron else 'gd' if fractype == 'dfrac' else 'g/', 'the power factor in ' + tex)
    if b != 0:
        check_rounded(gb, b, 'the power in ' + tex)
    check_eq(tc, None if c == 0 else ('e' if electron else 'g') + ('d' if fractype == 'dfrac' else '/'),
             'the exponential in ' + tex)
    if c != 0:
        check_rounded(gc, c, 'the exponential in ' + tex)


# ------------------------------------------------------- species --------------------------------------------------- #

@gen.cases
def species_case(d):
    els = [[d.pick(COMMON) if d.bool(2, 3) else d.pick(ELEMENTS), d.weighted([(None, 4), (d.int(2, 9), 4), (d.int(10, 19), 2),
                                                                              (1, 1)])] for _ in range(d.int(1, 4))]
    name = ''.join(e + str(n or '') for e, n in els)
    kind = d.weighted([('', 3), ('charge', 4), ('star', 3)])
    if kind == 'charge':
        name += d.pick('+-') * d.int(1, 3)
    elif kind == 'star':
        name += '*' * d.int(1, 4)
    if d.bool(1, 2):
        kind += '(' + 'state'
        name += '(' + ''.join(d.pick(STATE_CHARS) for _ in range(d.int(1, 8))) + ')'
    special = d.weighted([(None, 30), ('e', 1), ('M', 1)])
    return {'name': special or name, 'kind': 'special' if special else kind,
            'explicit': d.weighted([(None, 3), ('42', 1), (r'\mathrm{X}_{20}^{4+}', 1), ('a + b', 1)])}


def species_fn(case, rec):
    from plaschem.latex import Texify
    from plaschem.species import RP
    name = case['name']
    sp = RP(1, name=name, mass=1.)
    tex = sp.get_latex()
    check(isinstance(tex, str) and '$' not in tex, 'LaTeX of {!r}: {!r}', name, tex)
    check_eq(read_species(tex), name, 'the name read from {!r}'.format(tex))
    check_eq(Texify.texify_species(name), tex, 'texify_species')
    if case['explicit'] is not None:
        check_eq(RP(1, name=name, mass=1., latex=case['explicit']).get_latex(), case['explicit'], 'explicit LaTeX')
        sp.set_species_attribute('latex', case['explicit'])
        check_eq(sp.get_latex(), case['explicit'], 'explicit LaTeX set later')
        sp.set_species_attribute('latex', None)
        check_eq(sp.get_latex(), tex, 'LaTeX after an explicit one is withdrawn')
    rec.label('explicit' if case['explicit'] else None, *(case['kind'].split('(') if case['kind'] else ()))
    rec.nontrivial(bool(case['kind']) or any(ch.isdigit() for ch in name))


# ------------------------------------------------------- reactions ------------------------------------------------- #

def draw_rate(d, electron):
    return {'a': d.weighted([(0., 1), (d.int(1, 3000), 2), (d.logflt(-45, 25), 6), (d.flt(0, 10), 2), (d.int(1, 99) * 10., 1),
                             (9.999, 1), (9.9951e-12, 1)]),
            'b': d.weighted([(0., 2), (d.int(-30, 30), 2), (d.flt(-5, 5), 4), (d.flt(-0.02, 0.02), 1), (None, 1)]),
            'c': d.weighted([(0., 2), (d.int(-30, 30) * 10, 2), (d.flt(-500, 30000), 3), (d.int(-9, 9) * 1000, 1),
                             (d.flt(-0.02, 0.02), 1), (None, 1)]),
            't': d.int(0, 2)}


@gen.cases
def rate_case(d):
    lhs = d.pick([['e', 'Ar'], ['Ar', 'e'], ['e', 'e', 'Ar'], ['Ar', 'Ar'], ['Ar'], ['Ar', 'O2'], ['Ar', 'O2', 'M'], ['e', 'O2', 'M']])
    return dict(draw_rate(d, 'e' in lhs), lhs=lhs, cm=d.bool())


def typed(v, t):
    return v if t == 0 or v is None else repr(float(v)) if t == 1 else gen.untag({'np': float(v)})


def rate_fn(case, rec):
    from plaschem.latex import Texify
    from plaschem.reactions import Reaction
    from plaschem.species import RP
    sp = {n: RP(i, name=n, mass=1., charge=-1 if n == 'e' else 0) for i, n in enumerate(['e', 'Ar', 'O2', 'M'])}
    lhs = [sp[n] for n in case['lhs']]
    electron = 'e' in case['lhs']
    unit = {1: 's-1', 2: 'm3.s-1', 3: 'm6.s-1'}[len(lhs)]
    if case['cm']:
        unit = unit.replace('m', 'cm')
    kw = {'arrh_' + k: typed(case[k], case['t']) for k in 'abc' if case[k] is not None}
    r = Reaction(1, lhs, lhs, units=dict({'arrh_a': unit}, **({'arrh_c': 'eV' if electron else 'K'} if 'arrh_c' in kw else {})), **kw)
    b, c = float(case['b'] or 0), float(case['c'] or 0)
    for si in (True, False):
        a = float(case['a']) * (gen.SI[unit] if si else 1.)
        for frac in ('/', 'dfrac'):
            check_rate(Texify.texify_rate_coefficient(r, si_units=si, fractype=frac), a, b, c, electron, frac)
    check_eq(Texify.texify_rate_coefficient(r), Texify.texify_rate_coefficient(r, si_units=True, fractype='/'), 'defaults')
    rec.label('electron' if electron else 'heavy', 'b' if b else None, 'c' if c else None, 'a=0' if case['a'] == 0 else None,
              'ends in 0' if any(case[k] and float(case[k]) % 10 == 0 for k in 'abc') else None)
    rec.nontrivial(bool(case['a']) and bool(b or c))


# ------------------------------------------------------- tables ---------------------------------------------------- #

COLUMNS = ['ID', 'Reaction', '$k$', r'$\Delta E_\mathrm{e}$', 'Source']


@gen.cases
def table_case(d):
    spec = gen.draw_chemistry(d, rich=False, styles=(0,), high=False)
    for s in spec['species']:
        if s['k']['q'] and s['k']['state'] or d.bool(1, 5):
            s['attrs']['latex'] = d.pick(['X', 'Y', r'\mathrm{Z}^+', r'\mathrm{Ar}'])
    for r in spec['reactions']:
        if d.bool(1, 6):
            r['attrs']['latex'] = d.pick(['R', r'a \rightarrow b', 'S'])
        if d.bool():
            r['attrs']['doi'] = d.pick(['10.1000/x', 'this work', '10.1/a_b'])
        if d.bool(1, 4):
            r['attrs']['el_en_loss'] = d.weighted([(d.int(1, 10) * 10, 2), (d.int(-10, 30), 2), (0, 1), (d.flt(-0.02, 0.02), 1)])
    return {'spec': spec, 'ops': world.draw_ops(d, 3, [('disable_sp', 2), ('disable_r', 4), ('reset', 1)]),
            'columns': d.weighted([(None, 2), (d.perm(COLUMNS)[:d.int(1, 5)], 4)]),
            'caption': d.pick(['', 'A caption.', 'Rates of all']), 'label': d.pick(['', 'tab:x']),
            'notes': [[d.pick('abc'), 'note {}'.format(i)] for i in range(d.int(0, 2))],
            'decorators': [[d.int(0, 30), d.int(0, 5), d.weighted([('note', 2), ('bold', 1)]), d.subset(['a', 'b', 'c'])]
                           for _ in range(d.int(0, 3))],
            'bad': d.bool(1, 6)}


def read_side(side):
    out = {}
    for part in side.split(' + '):
        m = re.match(r'(?:(\d+) )?(.+)$', part)
        check(m, 'not a side of a reaction: {!r}', side)
        out[m.group(2)] = out.get(m.group(2), 0) + int(m.group(1) or 1)
    return out


TOKEN = re.compile(r'\\(begin|end)\{(\w+)\}|\\(begin|end)group|([{}])')


def well_formed(tex):
    """Environments, groups and braces are closed in the order in which they were opened."""
    stack = []
    for m in TOKEN.finditer(tex):
        kind, env, group, brace = m.groups()
        if kind == 'begin' or group == 'begin' or brace == '{':
            stack.append(env or group and 'group' or '{')
        else:
            want = env or group and 'group' or '{'
            check(stack and stack[-1] == want, '{!r} closes {} at {!r}', m.group(0), stack[-1:], tex[max(0, m.start() - 60):m.end()])
            stack.pop()
    check(not stack, 'left open: {}', stack)


def read_longtable(tex, columns):
    """(caption lines, label, header columns, body rows) of a longtable."""
    well_formed(tex)
    marks = re.findall(r'\\end(firsthead|head|foot|lastfoot)\b', tex)
    check_eq(marks, ['firsthead', 'head', 'foot', 'lastfoot'], 'parts of the longtable')
    parts = re.split(r'\\end(?:firsthead|head|foot|lastfoot)\b', tex)
    check_eq([len(re.findall(r'Continued on next page', x)) for x in parts], [0, 0, 1, 0, 0], 'notes that the table goes on')
    check_eq([len(re.findall(r'textit{Continued}', x)) for x in parts], [0, 1, 0, 0, 0], 'notes that the table went on')
    check_eq(len(re.findall(r'multicolumn\{%d\}\{[cr]\}' % len(columns), parts[1] + parts[2])), 2, 'width of the notes')
    check(tex.rstrip().endswith('\\normalsize'), 'the font size stays on after the table')
    lines = [x.strip() for x in tex.split('\n')]
    check_eq(lines.count(r'\begin{longtable}{' + 'l' * len(columns) + '}'), 1, 'longtable environment')
    check(r'\end{longtable}' in lines, 'the longtable is not closed')
    cap = lines[lines.index(r'\caption{') + 1:]
    cap = cap[:cap.index('}')]
    label = [x for x in lines if x.startswith(r'\label{')]
    header = ' & '.join(r'\multicolumn{1}{l}{\textbf{' + c + '}}' for c in columns) + r' \\'
    check_eq(lines.count(header), 2, 'lines with the headers {}'.format(columns))
    body = lines[lines.index(r'\endlastfoot') + 1:lines.index(r'\end{longtable}')]
    rows = []
    for x in body:
        if x:
            check(x.endswith(r' \\') or x == r'\\', 'the row {!r} does not end', x)
            rows.append(x[:-2].rstrip(' ') if len(columns) > 1 else x[:-3])
    return cap, label, rows


def table_fn(case, rec):
    import numpy as np
    from plaschem.latex import ReactionsTable, Texify
    w = world.World(case['spec'])
    chem, ref = w.chem, w.ref
    for op in case['ops']:
        w.apply(op)
    specs = {r['id']: r for r in case['spec']['reactions']}
    reactions = chem.get_reactions(disabled=True)
    sp_tex = {i: sp.get_latex() for i, sp in chem.get_species(disabled=True, special=True).items()}
    for s in case['spec']['species']:  # species LaTeX
        want = s['attrs'].get('latex')
        if want is not None:
            check_eq(sp_tex[s['id']], want, 'explicit LaTeX')
        else:
            check_eq(read_species(sp_tex[s['id']]), s['attrs']['name'], 'the name read from ' + sp_tex[s['id']])
    merged = False
    for i, r in reactions.items():
        tex = r.get_latex()
        if specs[i]['attrs'].get('latex') is not None:
            check_eq(tex, specs[i]['attrs']['latex'], 'explicit LaTeX of reaction {}'.format(i))
            continue
        sides = tex.split(r' \rightarrow ')
        check_eq(len(sides), 2, 'sides of ' + tex)
        for side, ids in zip(sides, (ref.r[i]['L'], ref.r[i]['R'])):
            want = {}
            for j in ids:
                want[sp_tex[j]] = want.get(sp_tex[j], 0) + 1
            check_eq(read_side(side), want, 'species read from {!r} (reaction {})'.format(side, r))
            merged |= len(want) < len(set(ids))
    columns = case['columns'] or COLUMNS
    t = ReactionsTable(chem) if case['columns'] is None else ReactionsTable(chem, columns=columns)
    if case['bad']:
        raises(ValueError, ReactionsTable, chem, columns=list(columns) + ['no such column'])
    ids = ref.rids()
    df = t.dataframe
    check_eq((list(df.index), list(df.columns)), (ids, list(columns)), 'rows and columns of the table')
    want = {}
    for i in ids:
        r = reactions[i]
        cell = {'ID': str(i), 'Reaction': '${}$'.format(r.get_latex()), 'Source': specs[i]['attrs'].get('doi'),
                '$k$': '${}$'.format(Texify.texify_rate_coefficient(r))}
        for c in columns:
            got = df.at[i, c]
            if c == r'$\Delta E_\mathrm{e}$':
                el = gen.fnum(specs[i]['attrs'].get('el_en_loss', 0.))
                check((got == '') == (el == 0), 'electron energy loss {} shown as {!r}', el, got)
                if el:
                    check(re.fullmatch(NUM, got), 'electron energy loss {} shown as {!r}', el, got)
                    check_rounded(float(got), el, 'electron energy loss')
            elif c == 'Source' and cell[c] is None:
                check(got in ('None', ''), 'source of reaction {}: {!r}', i, got)
            else:
                check_eq(got, cell[c], 'column {} of reaction {}'.format(c, i))
            want[i, c] = got
        a, b, c = (gen.fnum(specs[i]['attrs'].get('arrh_' + x, 0.)) for x in 'abc')
        check_rate(Texify.texify_rate_coefficient(r), a * gen.SI[specs[i]['units']['arrh_a']], b, c,
                   any(ref.name(x) == 'e' for x in ref.r[i]['L']), '/')
    t.add_caption(case['caption'])
    t.add_label(case['label'])
    notes = {}
    for sup, note in case['notes']:
        t.add_note(sup, note)
        notes[sup] = note
    for a, b, kind, sups in case['decorators']:
        i, c = ids[a % len(ids)], columns[b % len(columns)]
        if kind == 'note':
            t.add_decorator(i, c, t.get_note_decorator(sups))
            want[i, c] = (df.at[i, c], r'{} $^\mathrm{{{}}}$'.format(df.at[i, c], ','.join(sups)))[1]
        else:
            t.add_decorator(i, c, lambda x: r'\textbf{' + x + '}')
            want[i, c] = r'\textbf{' + df.at[i, c] + '}'
    cap, label, rows = read_longtable(str(t), columns)
    check_eq(cap, [case['caption'] + r' \\' if case['caption'] else r'\\']
             + [r'$^\mathrm{{{}}}$ {} \\'.format(k, v) for k, v in notes.items()], 'caption')
    check_eq(label, [r'\label{' + case['label'] + r'} \\'], 'label')
    check_eq([[c.strip() for c in row.split(' & ')] for row in [' ' + x + ' ' for x in rows]] if len(columns) > 1 else [x.strip() for x in rows],
             [[want[i, c].strip() for c in columns] for i in ids] if len(columns) > 1 else [want[i, columns[0]].strip() for i in ids],
             'rows of the table')
    rec.label('disabled' if len(ids) < len(ref.rorder) else None, 'shared latex' if merged else None,
              'decorated' if case['decorators'] else None, 'notes' if notes else None)
    rec.nontrivial(len(ids) > 1)


# ------------------------------------------------------- plain tables ---------------------------------------------- #

@gen.cases
def plain_case(d):
    cols = ['c{}'.format(i) for i in range(d.int(1, 4))]
    idx = d.pick([list(range(5)), list('abcde'), [7, 3, 9, 1, 0]])[:d.int(1, 5)]
    return {'columns': cols, 'index': idx, 'cells': [[d.pick(['x', '1.0', '$a_2$', 'two words', '0']) for _ in cols] for _ in idx],
            'type': d.weighted([('table', 6), ('longtable', 3), ('tabular', 1)]), 'caption': d.pick(['', 'Cap.']),
            'label': d.pick(['', 't']), 'notes': [[s, 'n ' + s] for s in d.subset(['a', 'b'])], 'spacing': d.pick([None, 2, 1.25]),
            'fontsize': d.pick([None, 'small']), 'decorate': [[d.int(0, 9), d.int(0, 9), d.pick('<[')] for _ in range(d.int(0, 3))]}


def plain_fn(case, rec):
    import pandas as pd
    from plaschem.latex import TexTable
    kw = {k: case[k] for k in ('spacing', 'fontsize') if case[k] is not None}
    t = TexTable(case['type'], **kw)
    df = pd.DataFrame(case['cells'], index=case['index'], columns=case['columns'])
    t.load_dataframe(df.copy())
    t.add_caption(case['caption'])
    t.add_label(case['label'])
    for n in case['notes']:
        t.add_note(*n)
    want = [list(r) for r in case['cells']]
    for a, b, s in case['decorate']:
        i, c = a % len(case['index']), b % len(case['columns'])
        t.add_decorator(case['index'][i], case['columns'][c], lambda x, s=s: s + x + s)
        want[i][c] = s + case['cells'][i][c] + s
    rec.label(case['type'], 'decorated' if case['decorate'] else None)
    if case['type'] == 'tabular':
        raises(ValueError, str, t)
        return
    text = str(t)
    n = len(case['columns'])
    cap_want = [case['caption'] + r' \\' if case['caption'] else r'\\'] + [r'$^\mathrm{{{}}}$ {} \\'.format(*x) for x in case['notes']]
    if case['type'] == 'longtable':
        cap, label, rows = read_longtable(text, case['columns'])
        check(text.startswith('\\' + (case['fontsize'] or 'tiny') + '\n'), 'font size in {!r}', text[:30])
    else:
        well_formed(text)
        check(re.search(r'\\resizebox{\\textwidth}{!}{%?\s*\\begin{tabular}', text), 'the table is not fitted to the page: {!r}', text)
        lines = [x.strip() for x in text.split('\n')]
        for must in (r'\begin{tabular}{' + 'l' * n + '}', r'\end{tabular}', r'\begin{table}[!htb]', r'\end{table}',
                     r'\renewcommand{\arraystretch}{' + str(case['spacing'] or 1.5) + '}',
                     r'\label{' + case['label'] + '}'):
            check_eq(lines.count(must), 1, 'lines ' + must)
        cap = lines[lines.index(r'\caption{') + 1:]
        cap = cap[:cap.index('}')]
        body = lines[lines.index(r'\begin{tabular}{' + 'l' * n + '}') + 1:lines.index(r'\end{tabular}')]
        body = [x for x in body if x and not x.startswith((r'\noalign', r'\hline'))]
        check_eq(body[0], ' & '.join(r'\textbf{' + c + '}' for c in case['columns']) + r' \\', 'header')
        rows = [x[:-3] for x in body[1:]]
    check_eq(cap, cap_want, 'caption')
    check_eq([x.split(' & ') for x in rows], want, 'rows')
    check((t.dataframe.values == df.values).all(), 'the data are changed by building the table')
    check_eq(str(t), text, 'a second string')
    rec.nontrivial(len(case['index']) > 1)


SUBS = [Sub('species', species_case, species_fn, quick=3000, thorough=200000, shards=8,
            rule='a name over all elements; non-trivial when it has a count, a charge, an excitation or a state',
            must_label=('explicit', 'charge', 'star', 'state', 'special')),
        Sub('rate', rate_case, rate_fn, quick=4000, thorough=200000, shards=8,
            rule='Arrhenius parameters of all magnitudes; non-trivial when the rate has a temperature factor',
            must_label=('electron', 'heavy', 'a=0', 'ends in 0')),
        Sub('table', table_case, table_fn, quick=700, thorough=20000, shards=8,
            rule='a chemistry, a history, explicit LaTeX, notes and decorators; non-trivial with two or more rows',
            must_label=('disabled', 'shared latex', 'decorated', 'notes')),
        Sub('plain', plain_case, plain_fn, quick=600, thorough=20000, shards=8,
            rule='any table of strings in both environments; non-trivial with two or more rows',
            must_label=('table', 'longtable', 'tabular', 'decorated'))]
