"""C12: classification is a partition into the documented scheme, and sorting a documented order of all members."""
import classref
import gen
from core import Sub, check, check_eq

def draw_spec(d):
    els = None
    if d.bool(1, 3):
        els = [d.pick(classref.SYMBOLS) if d.bool(3, 4) else d.pick(['H', 'O', 'C', 'N', 'F', 'S', 'Ar']) for _ in range(d.int(1, 3))]
        els = list(dict.fromkeys(els))
    spec = gen.draw_chemistry(d, max_reactions=12, large=20, rich=False, styles=(0,), elements=els, wide=els is not None)
    for r in spec['reactions']:
        if d.bool(1, 8):
            r['attrs']['elastic'] = d.pick(['true', 'false', True, False])
    return spec


@gen.cases
def case(d):
    spec = draw_spec(d)
    n, m = len(spec['species']), len(spec['reactions'])
    return {'spec': spec, 'sp': d.perm(list(range(n))), 'r': d.perm(list(range(m))),
            'calls': [d.pick(['sort_species', 'sort_reactions', 'classify', 'align', 'reset']) for _ in range(d.int(2, 6))],
            'flip': d.bool(), 'other': draw_spec(d) if d.bool(1, 2) else None, 'held': [d.int(0, 4), d.int(0, 4)]}


def flat(classified):
    return [(t, c, [r.id for r in rs]) for t in classified for c, rs in classified[t].items()]


def fn(case, rec):
    from plaschem.classification import ReactionClassifier
    flip = lambda x: dict(x, reactions=[dict(r, lhs=r['lhs'][::-1], rhs=r['rhs'][::-1]) for r in x['reactions']])
    # the order in which a reaction lists its reactants and products does not matter
    specs = [flip(x) if case['flip'] else x for x in (case['spec'], case.get('other')) if x]
    objects = []
    for x in specs:
        sps = gen.build_species(x)
        objects.append((sps, gen.build_reactions(x, sps)))
    hold = [gen.held(k) for k in case.get('held', (0, 0))]
    now, rc, cats = -1, None, set()

    def start():
        """Sets the next of the chemistries up: with other reactions, of which some share ids with the ones before."""
        nonlocal now, rc, spec, sps, rs, sp_pos, r_pos, want, by_id, names, keys
        now = (now + 1) % len(specs)
        spec, (sps, rs) = specs[now], objects[now]
        sp_pos, r_pos = (list(case['sp']), list(case['r'])) if now == 0 else (list(range(len(sps))), list(range(len(rs))))
        given = hold[0]([sps[i] for i in sp_pos]), hold[1]([rs[i] for i in r_pos])
        if rc is None:
            rc = ReactionClassifier(*given)
        else:
            rc.set_new_chemistry(*given)
        want = {r['id']: classref.classify(spec, r) for r in spec['reactions']}
        by_id = {r['id']: r for r in spec['reactions']}
        names = gen.names_of(spec)
        keys = [classref.species_key(s['k']) for s in spec['species']]
        cats.update(want.values())

    spec = sps = rs = sp_pos = r_pos = want = by_id = names = keys = None
    start()
    classified_now = False

    def rank():
        return {i: n for n, i in enumerate(sp_pos)}

    for call in case['calls'] + ['classify', 'align']:
        if call == 'sort_species':
            rc.sort_species()
            sp_pos.sort(key=lambda i: keys[i])  # stable, as the sort of a list is
            classified_now = False
        elif call == 'sort_reactions':
            rc.sort_reactions()
            pos = rank()
            r_pos.sort(key=lambda i: classref.reaction_key(pos, spec['reactions'][i]))
            classified_now = False
        elif call == 'reset':
            start()
            classified_now = False
        elif call == 'classify' or (call == 'align' and not classified_now):
            got = flat(rc.get_classified_reactions())
            classified_now = True
            exp = {}
            for i in r_pos:
                exp.setdefault(want[rs[i].id], []).append(rs[i].id)
            exp = [(t, c, exp[t, c]) for t, c in sorted(exp, key=lambda x: classref.RANK[x])]
            check_eq(sorted(i for _, _, ids in got for i in ids), sorted(by_id), 'reactions classified')
            for (t, c, ids), (t2, c2, ids2) in zip(got, exp):
                check((t, c, ids) == (t2, c2, ids2), 'classified {} as {!r}/{!r}, expected {} as {!r}/{!r}', ids, t, c, ids2, t2, c2)
            check_eq(len(got), len(exp), 'number of categories')
        if call == 'align' and classified_now:
            by_cat = {}
            for i in range(len(rs)):
                text = rc.get_aligned_reaction_string(rs[i])
                lhs, rhs = text.split(' > ')
                for side, what in ((lhs, 'lhs'), (rhs, 'rhs')):
                    got = sorted(x.strip() for x in side.split(' + ') if x.strip())
                    check_eq(got, sorted(names[j] for j in by_id[rs[i].id][what]), 'species in the aligned string {!r}'.format(text))
                by_cat.setdefault(want[rs[i].id], set()).add((len(lhs), len(rhs)))
            for cat, widths in by_cat.items():
                check(len(widths) == 1, 'reactions of {} are not aligned: {}', cat, widths)
        check_eq([s.id for s in rc.species], [spec['species'][i]['id'] for i in sp_pos], 'species after ' + call)
        check_eq([r.id for r in rc.reactions], [spec['reactions'][i]['id'] for i in r_pos], 'reactions after ' + call)
    rec.label('other' if now else None, *('{} / {}'.format(*c) for c in cats))
    rec.nontrivial(len(cats) > 2)


@gen.cases
def case_order(d):
    """Many species which differ by little: neighbouring elements, counts, charges and states."""
    n = d.int(0, len(classref.SYMBOLS) - 1)
    els = [classref.SYMBOLS[(n + k) % len(classref.SYMBOLS)] for k in d.perm(range(4))[:d.int(1, 3)]]
    if d.bool(1, 3):
        els.append(d.pick(classref.SYMBOLS))
    els = list(dict.fromkeys(els))
    counts = [d.int(1, 9) for _ in range(2)]
    out = {}
    for _ in range(d.int(3, 12)):
        comp = tuple((e, d.pick(counts) if d.bool(2, 3) else d.int(1, 9)) for e in d.perm(els)[:d.int(1, min(3, len(els)))])
        q = d.weighted([(0, 4), (1, 2), (-1, 2), (d.int(-5, 5), 1)])
        state = d.weighted([(None, 3), ('*', 1), ('v=1', 1)])
        base = gen.formula(comp)
        stateless = base + gen.charge_suffix(q, 0)
        name = stateless + ('' if state is None else state if state == '*' else '(' + state + ')')
        out[name] = {'name': name, 'stateless': stateless, 'state': state, 'q': q, 'ground': base, 'comp': dict(comp)}
    out = list(out.values())
    if d.bool():
        out.append({'name': 'e', 'stateless': 'e', 'state': None, 'q': -1, 'ground': None, 'comp': {}})
    if d.bool():
        out.append({'name': 'M', 'stateless': 'M', 'state': None, 'q': None, 'ground': None, 'comp': {'M': 1}})
    return {'sp': d.perm(out)}


def fn_order(case, rec):
    from plaschem.classification import ReactionClassifier
    from plaschem.species import RP
    sps = []
    for i, k in enumerate(case['sp']):
        a = {'name': k['name'], 'stateless': k['stateless'], 'state': k['state']}
        if k['name'] != 'M':
            a.update(mass=1., charge=k['q'])
        sps.append(RP(i, attributes=a))
        check_eq(dict(sps[-1].get_atoms()), k['comp'], 'atoms of ' + k['name'])
    rc = ReactionClassifier(sps, [])
    rc.sort_species()
    got = [s.get_name() for s in rc.species]
    check_eq(sorted(got), sorted(k['name'] for k in case['sp']), 'species sorted')
    keys = {k['name']: classref.species_key(k) for k in case['sp']}
    for x, y in zip(got, got[1:]):
        check(keys[x] <= keys[y], 'sorted {} before {}: {} {}', x, y, keys[x], keys[y])
    check_eq(got, [k['name'] for k in sorted(case['sp'], key=lambda k: keys[k['name']])], 'order of the species')
    check_eq([s.id for s in sps], list(range(len(sps))), 'list of the species given')
    rec.nontrivial(got != [k['name'] for k in case['sp']])


SUBS = [Sub('order', case_order, fn_order, 2500, 40000, 4, 'up to 14 species which differ by little; counts when sorting moved something'),
        Sub('classify', case, fn, 1600, 30000, 8, 'case counts when its reactions fall in at least three categories')]
ASSUMPTIONS = ['names of ions end in + or - signs (Ar++), as in the shipped chemistries; species have at most 3 elements and at '
               'most 9 atoms of each, the documented limit of the sorting']
