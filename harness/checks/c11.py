"""C11: sorting and renumbering XML elements permutes and renumbers them as documented and changes nothing else."""
import os
import shutil

import classref
import facts
import gen
from core import Sub, check, check_eq, scratch_dir


@gen.cases
def case(d):
    els = None
    if d.bool(1, 4):
        els = list(dict.fromkeys(d.pick(classref.SYMBOLS) for _ in range(d.int(1, 3))))
    spec = gen.draw_chemistry(d, max_reactions=8, large=20, rich=True, styles=(0,), elements=els, wide=els is not None)
    n, m = len(spec['species']), len(spec['reactions'])
    return {'spec': spec, 'sp': d.perm(list(range(n))), 'r': d.perm(list(range(m))),
            'no_ids': [d.pick(['all', 'some', 'none']) for _ in range(2)],
            'calls': [d.weighted([('sort', 4), ('ids', 2), ('sp_ids', 1), ('r_ids', 1)]) for _ in range(d.int(1, 4))]}


def fn(case, rec):
    from plaschem.chemistry import Chemistry
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    tmp = scratch_dir('c11')
    try:
        spec = case['spec']
        names = gen.names_of(spec)
        b = XmlBuilder()
        sp_ids, r_ids = {}, {}

        def given(mode, i, k):
            return None if mode == 'all' or (mode == 'some' and k % 2) else i

        for k, p in enumerate(case['sp']):
            s = spec['species'][p]
            sid = given(case['no_ids'][0], s['id'], k)
            sp_ids[p] = 999 if sid is None else sid
            b.add_rp_from_attributes(sid, s['attrs'], s['units'])
        for k, p in enumerate(case['r']):
            r = spec['reactions'][p]
            rid = given(case['no_ids'][1], r['id'], k)
            r_ids[p] = 999 if rid is None else rid
            b.add_reaction_from_attributes(tuple(names[i] for i in r['lhs']), tuple(names[i] for i in r['rhs']), rid,
                                           r['attrs'], r['units'])
        sp_order, r_order = list(case['sp']), list(case['r'])
        keys = [classref.species_key(s['k']) for s in spec['species']]

        def number_species():
            n = 1
            for p in sp_order:
                if names[p] == 'e':
                    sp_ids[p] = 0
                elif names[p] == 'M':
                    sp_ids[p] = 999
                else:
                    sp_ids[p] = n
                    n += 1

        def number_reactions():
            for n, p in enumerate(r_order):
                r_ids[p] = n + 1

        sps = gen.build_species(spec)
        rs = gen.build_reactions(spec, sps)
        want_s = {p: facts.rp_facts(sps[p], False) for p in range(len(sps))}
        want_r = {p: facts.r_facts(rs[p], False) for p in range(len(rs))}
        for call in case['calls']:
            if call == 'sort':
                b.sort_elements()
                dup_s, dup_r = len(set(sp_ids.values())) < len(sp_ids), len(set(r_ids.values())) < len(r_ids)
                sp_order.sort(key=lambda p: keys[p])
                pos = {p: n for n, p in enumerate(sp_order)}
                r_order.sort(key=lambda p: (classref.RANK[classref.classify(spec, spec['reactions'][p])],
                                            classref.reaction_key(pos, spec['reactions'][p])))
                if dup_s:
                    number_species()
                if dup_r:
                    number_reactions()
            elif call == 'ids':
                b.assign_ids()
                number_species(), number_reactions()
            elif call == 'sp_ids':
                b.assign_species_ids()
                number_species()
            else:
                b.assign_reactions_ids()
                number_reactions()
            path = os.path.join(tmp, 'x.xml')
            b.dump_xml(path, overwrite=True)
            s2, r2 = XmlParser().get_species_and_reactions(path)
            check_eq([s.get_name() for s in s2], [names[p] for p in sp_order], 'species after ' + call)
            check_eq([s.id for s in s2], [sp_ids[p] for p in sp_order], 'ids of {} after {}'.format([s.get_name() for s in s2], call))
            for s, p in zip(s2, sp_order):
                g = facts.rp_facts(s, False)
                check(g == want_s[p], '{} after {}: {}', names[p], call, facts.first_diff(g, want_s[p]))
            got = [facts.r_facts(r, False) for r in r2]
            if len(set(sp_ids.values())) == len(sp_ids):
                exp = [want_r[p] for p in r_order]
                check_eq([(g['L'], g['R']) for g in got], [(g['L'], g['R']) for g in exp], 'reactions after ' + call)
                for g, w in zip(got, exp):
                    g, w = dict(g), dict(w)
                    g.pop('latex'), w.pop('latex')
                    check(g == w, 'reaction after {}: {}', call, facts.first_diff(g, w))
            check_eq([r.id for r in r2], [r_ids[p] for p in r_order], 'reaction ids after ' + call)
        if 'ids' in case['calls'] or 'none' == case['no_ids'][0] == case['no_ids'][1]:
            ch = Chemistry(xml_path=path)
            check_eq(sorted(ch.get_species_name(special=True)), sorted(names), 'species of the chemistry')
            rec.label('chemistry built')
        rec.label(*set(case['calls']))
        rec.nontrivial('sort' in case['calls'] and len(rs) > 2 and sp_order != case['sp'] and r_order != case['r'])
    finally:
        shutil.rmtree(tmp)


SUBS = [Sub('sort', case, fn, 800, 12000, 8, 'case counts when sorting moved both species and reactions (three or more reactions)')]
ASSUMPTIONS = ['names of ions end in + or - signs, as in the shipped chemistries']
