"""C10: a chemistry written to XML and read back is the same chemistry; imports carry every value over."""
import copy
import json
import os
import shutil
import subprocess
import sys
import traceback
from xml.etree import ElementTree

import facts
import gen
import world
from core import Sub, check, check_eq, close, raises, scratch_dir


def draw_spec(d, **kw):
    spec = gen.draw_chemistry(d, rich=True, special_number=d.bool(1, 3), types=d.bool(1, 2), large=20, **kw)
    for s in spec['species']:
        a = s['attrs']
        if d.bool(1, 6):
            a['hpem_name'] = d.pick(['AR^', 'E', 'O2*'])
        if d.bool(1, 6):
            a['qdb_id'] = d.pick([42, '17', 0])
        if d.bool(1, 6):
            a['comments'] = d.pick(['made up', 'a < b & c > "d"', 'α-state, see [1]', '  padded  '])
        if d.bool(1, 8):
            a['latex'] = d.pick([r'\mathrm{Ar}^{*}', 'x_{1}'])
    for r in spec['reactions']:
        a = r['attrs']
        if d.bool(1, 5):
            a['elastic'] = d.pick(['true', 'False', True, False])
        if d.bool(1, 6):
            a['qdb_r_id'], a['qdb_ds_id'] = d.pick([1, '22']), d.pick([3, '4'])
        if d.bool(1, 6):
            a['doi'] = '10.1063/1.x<y>'
        if d.bool(1, 6):
            a['comments'] = d.pick(['foo', 'e + Ar > e + Ar & more'])
        if d.bool(1, 8):
            a['latex'] = r'a \rightarrow b'
    # compound state names, as the QDB naming convention makes them
    ren = {}
    for s in spec['species']:
        if s['k']['state'] and '=' in s['k']['state'] and d.bool(1, 3):
            old = s['attrs']['name']
            s['k'] = dict(s['k'], state=s['k']['state'] + ',J=2', name=s['k']['stateless'] + '(' + s['k']['state'] + ',J=2)')
            s['attrs'].update(name=s['k']['name'], state=s['k']['state'])
            ren[old] = s['k']['name']
    for s in spec['species']:
        if s['attrs'].get('ret_coefs'):
            s['attrs']['ret_coefs'] = {ren.get(n, n): v for n, v in s['attrs']['ret_coefs'].items()}
    return spec


@gen.cases
def case(d):
    return {'spec': draw_spec(d, max_reactions=6), 'ops': world.draw_ops(d, 2, [('disable_sp', 1), ('disable_r', 2), ('stick', 1)])
            if d.bool(1, 4) else [], 'how': d.int(0, 2), 'kw': d.int(0, 4)}


def compare(got_s, got_r, want_s, want_r, what):
    check_eq([s['name'] for s in got_s], [s['name'] for s in want_s], what + ': species')
    for g, w in zip(got_s, want_s):
        check(g == w, '{}: species {}: {}', what, w['name'], facts.first_diff(g, w))
    check_eq(len(got_r), len(want_r), what + ': number of reactions')
    for g, w in zip(got_r, want_r):
        check(g == w, '{}: reaction {}: {}', what, w.get('id'), facts.first_diff(g, w))


def split(obj, n):
    """Attributes as a dictionary and as keywords (which amend or overwrite the dictionary's)."""
    attrs = {k: gen.untag(v) for k, v in obj['attrs'].items()}
    kw = {k: v for i, (k, v) in enumerate(attrs.items()) if n and i % n == 1}
    attrs = {k: v for k, v in attrs.items() if k not in kw}
    if n % 2:
        attrs.update({k: 'overwritten' for k in kw})
    return attrs, kw, dict(obj['units'])


def fn(case, rec):
    from plaschem.chemistry import Chemistry
    from plaschem.exceptions import XmlError
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    tmp = scratch_dir('c10')
    try:
        spec = case['spec']
        w = world.World(spec)
        for op in case['ops']:
            w.apply(op)
        chem = w.chem
        sps, rs = list(chem.get_species(special=True)), list(chem.get_reactions())
        want_s, want_r = [facts.rp_facts(s) for s in sps], [facts.r_facts(r) for r in rs]
        b = XmlBuilder()
        if case['how'] == 0:
            b.add_chemistry_from_instance(chem)
        elif case['how'] == 1:
            for s in sps:
                b.add_rp_from_instance(s)
            for r in rs:
                b.add_reaction_from_instance(r)
        else:  # straight from attributes, with keys which the constructors do not know ignored
            for s in spec['species']:
                if s['id'] in w.ref.es:
                    attrs, kw, units = split(s, case.get('kw', 0))
                    snap = copy.deepcopy((attrs, units))
                    b.add_rp_from_attributes(s['id'], attrs, units, nonsense=1, **kw)
                    check_eq((attrs, units), snap, 'arguments changed by add_rp_from_attributes')
            for r in spec['reactions']:
                if r['id'] in w.ref.er:
                    names = gen.names_of(spec)
                    attrs, kw, units = split(r, case.get('kw', 0))
                    snap = copy.deepcopy((attrs, units))
                    b.add_reaction_from_attributes(tuple(names[i] for i in r['lhs']), tuple(names[i] for i in r['rhs']), r['id'],
                                                   attrs, units, nonsense=1, **kw)
                    check_eq((attrs, units), snap, 'arguments changed by add_reaction_from_attributes')
        path, path2 = os.path.join(tmp, 'a.xml'), os.path.join(tmp, 'b.xml')
        b.dump_xml(path)
        text = open(path, encoding='utf-8').read()
        s2, r2 = XmlParser().get_species_and_reactions(path)
        compare([facts.rp_facts(s) for s in s2], [facts.r_facts(r) for r in r2], want_s, want_r, 'written and read back')
        by = {s.get_name(): s for s in s2}
        for r in r2:
            for sp in r.get_reactants() + r.get_products():
                check(by[sp.get_name()] is sp, 'reactions and species do not share objects')
        # the same chemistry, when nothing is left out
        if len(sps) == len(spec['species']):
            full = Chemistry(xml_path=path)
            check_eq(full.xml_path, path, 'xml_path')
            if not w.ref.stick and len(rs) == len(spec['reactions']):
                world.check_same(world.observe_all(chem), world.observe_all(full), 'chemistry built from the xml')
        # an existing file is only overwritten on request
        try:
            b.dump_xml(path)
            check(False, 'an existing xml file was overwritten')
        except XmlError:
            pass
        check_eq(open(path, encoding='utf-8').read(), text, 'xml file after a refused dump')
        b.dump_xml(path, overwrite=True)
        check_eq(open(path, encoding='utf-8').read(), text, 'xml file dumped twice')
        # xml -> builder -> xml
        c = XmlBuilder()
        c.add_chemistry_from_xml(path)
        c.dump_xml(path2)
        s3, r3 = XmlParser().get_species_and_reactions(path2)
        compare([facts.rp_facts(s) for s in s3], [facts.r_facts(r) for r in r3], want_s, want_r, 'xml copied through a builder')
        # refused additions leave the builder alone
        some = sps[0]
        absent = [n for n in ('M', 'e', 'Kr+', 'Kr', some.get_name() + '*') if n not in {x.get_name() for x in sps}][0]
        for call in (lambda: b.add_rp_from_instance(some),
                     lambda: b.add_rp_from_attributes(5, {'name': some.get_name(), 'mass': 1.}),
                     lambda: b.add_reaction_from_attributes((some.get_name(),), ('Unobtainium',), 77, {'special_number': 1}),
                     lambda: b.add_reaction_from_attributes((some.get_name(), absent), (some.get_name(), absent), 77, {'special_number': 1}),
                     lambda: b.add_reaction_from_attributes((some.get_name(), absent), (some.get_name(),), 77, {'special_number': 1}),
                     lambda: b.add_reaction_from_attributes((some.get_name(),), (absent, some.get_name()), 77, {'special_number': 1})):
            try:
                call()
                check(False, 'a duplicate species or a reaction of unknown species was added')
            except XmlError:
                pass
        b.dump_xml(path, overwrite=True)
        check_eq(open(path, encoding='utf-8').read(), text, 'xml after refused additions')
        b.reset_chemistry()
        b.dump_xml(path, overwrite=True)
        check_eq([len(x) for x in XmlParser().get_species_and_reactions(path)], [0, 0], 'xml of an emptied builder')
        try:
            XmlParser().get_species_and_reactions(os.path.join(tmp, 'none.xml'))
            check(False, 'a missing xml file was read')
        except XmlError:
            pass
        rec.label('how%d' % case['how'], 'reduced' if len(rs) < len(spec['reactions']) else 'full')
        if any(',' in s['name'] for s in want_s):
            rec.label('comma-name')
        rec.nontrivial(len(rs) > 1)
    finally:
        shutil.rmtree(tmp)


@gen.cases
def case_merge(d):
    specs = [draw_spec(d, max_reactions=4) for _ in range(d.pick([2, 2, 3]))]
    if d.bool(1, 4):  # the same chemistry once more
        specs.append(d.pick(specs))
    return {'specs': specs, 'xml': [d.bool() for _ in specs]}


def fn_merge(case, rec):
    """Chemistries merged in one builder: all reactions of all; each species (by name) once, as first added."""
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    tmp = scratch_dir('c10')
    try:
        chems = [gen.build(spec) for spec in case['specs']]
        b = XmlBuilder()
        for n, (ch, xml) in enumerate(zip(chems, case['xml'])):
            if xml:
                o = XmlBuilder()
                o.add_chemistry_from_instance(ch)
                part = os.path.join(tmp, 'part{}.xml'.format(n))
                o.dump_xml(part)
                b.add_chemistry_from_xml(part)
            else:
                b.add_chemistry_from_instance(ch)
        path = os.path.join(tmp, 'm.xml')
        names, have = [], set()
        for ch in chems:
            for s in ch.get_species(special=True):
                if s.get_name() not in have:
                    have.add(s.get_name())
                    names.append(facts.rp_facts(s))
        b.assign_ids()
        b.dump_xml(path)
        want_r = [facts.r_facts(r, False) for ch in chems for r in ch.get_reactions()]
        root = ElementTree.parse(path).getroot()
        got_names = [x.find('name').text for x in root.find('species').iter('rp')]
        check_eq(sorted(got_names), sorted(n['name'] for n in names), 'species of the merged xml')
        check_eq(got_names, [n['name'] for n in names], 'order of the merged species')
        s2, r2 = XmlParser().get_species_and_reactions(path)
        for s, w in zip(s2, names):
            g = facts.rp_facts(s, False)
            check(g == {k: v for k, v in w.items() if k != 'id'}, 'merged species {}: {}', w['name'], facts.first_diff(g, w))
        check_eq(len(r2), len(want_r), 'number of merged reactions')
        # the latex of a reaction follows its (first added) species
        for g, w in zip([facts.r_facts(r, False) for r in r2], want_r):
            g.pop('latex'), w.pop('latex')
            check(g == w, 'merged reaction: {}', facts.first_diff(g, w))
        total = sum(len(ch.get_species(special=True)) for ch in chems)
        rec.nontrivial(max(len(ch.get_species(special=True)) for ch in chems) < len(names) < total)
        rec.label('xml-first' if case['xml'][0] else 'instance-first',
                  'xml-twice' if sum(case['xml']) > 1 else None, 'xml' if any(case['xml']) else 'instance',
                  'three' if len(chems) > 2 else None)
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------ HPEM input files ------------------------------------------------ #

@gen.cases
def case_hpem(d):
    spec = gen.draw_chemistry(d, max_reactions=6, rich=False, excited=False)
    names = gen.names_of(spec)
    sp = []
    for s in spec['species']:
        q = s['k']['q'] or 0
        st = d.pick([0., 1., 0.5, 0.25])
        ordinary = [n for n in names if n not in ('e', 'M')]
        sp.append({'name': s['k']['name'], 'q': q, 'mass': s['k']['mass'] or 1., 'stick': st, 'ret': d.pick([0., 1., 0.5]),
                   'retsp': d.pick(ordinary), 'comment': d.pick(['', 'a comment: with; marks', 'x'])})
    unused = d.bool(1, 2)
    rs = [{'lhs': [names[i] for i in r['lhs']], 'rhs': [names[i] for i in r['rhs']], 'a': d.logflt(-30, 0), 'b': d.flt(-2, 2),
           'c': d.flt(0, 20), 'g': d.flt(-3, 3), 'n': d.weighted([(1, 4), (-1, 3), (7, 1), (-42, 1)]),
           'comment': d.pick(['', 'a > b : c', 'ref 1'])} for r in spec['reactions']]
    return {'sp': sp, 'rs': rs, 'unused': unused, 'skip': d.bool(2, 3), 'pad': d.int(0, 3)}


def hpem(n):
    return {'e': 'E'}.get(n, n).replace('+', '^')


def fn_hpem(case, rec):
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    tmp = scratch_dir('c10')
    try:
        p = ' ' * case['pad']
        lines = []
        sp = list(case['sp'])
        if case['unused']:
            sp.insert(1, {'name': 'Xe', 'q': 0, 'mass': 131., 'stick': 0., 'ret': 0., 'retsp': sp[0]['name'], 'comment': 'unused'})
        for s in sp:
            lines.append('{n}{p}: {q} ; {m}{p}&{p}{st} ] 0 [ {r} @ {rs} ! {c}'.format(
                n=hpem(s['name']), p=p, q=s['q'], m=s['mass'], st=s['stick'], r=s['ret'], rs=hpem(s['retsp']), c=s['comment']))
        lines.append('*')
        for r in case['rs']:
            lines.append('{l} > {r} {p}: {a} ;{p} {b} & {c} ] {g} [ {n} ! {cm}'.format(
                l=' + '.join(map(hpem, r['lhs'])), r=' + '.join(map(hpem, r['rhs'])), p=p, a=r['a'], b=r['b'], c=r['c'],
                g=r['g'], n=r['n'], cm=r['comment']))
        dat, path = os.path.join(tmp, 'x.dat'), os.path.join(tmp, 'x.xml')
        with open(dat, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        b = XmlBuilder()
        b.add_chemistry_from_hpem(dat, skip_special_numbers=case['skip'])
        b.assign_ids()
        b.dump_xml(path)
        s2, r2 = XmlParser().get_species_and_reactions(path)
        kept = [r for r in case['rs'] if not case['skip'] or r['n'] in (1, -1)]
        used = {n for r in kept for n in r['lhs'] + r['rhs']}
        want = [s for s in sp if s['name'] in used]
        check_eq([s.get_name() for s in s2], [s['name'] for s in want], 'species imported')
        for s, w in zip(s2, want):
            if w['name'] != 'M':
                check_eq((s.get_charge(), s.get_mass()), (w['q'], w['mass']), 'charge and mass of ' + w['name'])
            if w['name'] not in ('e', 'M'):
                check_eq(s.get_stick_coef(), w['stick'], 'sticking coefficient of ' + w['name'])
                if w['stick']:
                    check_eq(s.get_ret_coefs(), {w['retsp']: w['ret']}, 'return coefficients of ' + w['name'])
            check_eq(s.get_comments(), w['comment'] or None, 'comments of ' + w['name'])
        check_eq(len(r2), len(kept), 'number of reactions imported')
        for r, w in zip(r2, kept):
            check_eq(([x.get_name() for x in r.get_reactants()], [x.get_name() for x in r.get_products()]), (w['lhs'], w['rhs']), 'reaction')
            check_eq((r.get_arrh_a(si_units=False), r.get_arrh_b(), r.get_arrh_c(), r.get_gas_heat_contrib(), r.get_special_number()),
                     (w['a'], w['b'], w['c'], w['g'], w['n']), 'data of {}'.format(r))
            check_eq(r.get_unit('arrh_a'), {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}[len(w['lhs'])], 'unit')
            check_eq(r.get_unit('arrh_c'), 'eV' if 'e' in w['lhs'] else 'K', 'unit of arrh_c')
            check_eq(r.get_comments(), w['comment'] or None, 'comments')
        rec.label('skip' if case['skip'] else 'keep')
        rec.nontrivial(len(kept) < len(case['rs']) or case['unused'])
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------- QDB objects (by their interface) ------------------------------------- #

class Qs(list):
    """A stand-in for a Django query set of fakes."""
    def all(self):
        return self

    def count(self):
        return len(self)

    def filter(self, **kw):
        out = Qs()
        for x in self:
            ok = True
            for key, v in kw.items():
                parts = key.split('__')
                op = parts[-1] if parts[-1] in ('startswith', 'endswith', 'in') else None
                obj = x
                for q in parts[:-1] if op else parts:
                    obj = getattr(obj, q)
                ok &= {None: lambda: obj == v, 'startswith': lambda: obj.startswith(v), 'endswith': lambda: obj.endswith(v),
                       'in': lambda: obj in v}[op]()
            if ok:
                out.append(x)
        return out


class Fake:
    def __init__(self, **kw):
        self.__dict__.update(kw)


@gen.cases
def case_qdb(d):
    spec = gen.draw_chemistry(d, max_reactions=5, rich=True, has_m=False)
    ds = []
    for r in spec['reactions']:
        ds.append({'kind': d.weighted([('arrh', 3), ('xsec', 2 if len(r['lhs']) > 1 and any(spec['species'][i]['k']['name'] == 'e' for i in r['lhs']) else 0)]),
                   'a': d.logflt(-30, 0), 'b': d.pick([0., 1.5, -0.5]), 'c': d.pick([0., 11.5, -2., 300.]), 'entry': d.pick([None, 5, -7, 0]),
                   'thr': d.pick([None, 0., 11.6]), 'doi': d.pick([[], ['10.1/x'], ['None', '10.2/y'], ['10.3/z', '10.2/y'], ['10.4/w', 'None', '10.1/x']]), 'extra': d.bool(1, 4), 'u': d.int(0, 1),
                   'lumps': d.weighted([(0, 3), (1, 1), (2, 1)])})
    return {'spec': spec, 'ds': ds, 'off': d.int(1, 500), 'bad': d.weighted([(None, 4), (['no data', d.int(0, 9)], 1),
            (['no parameter', d.int(0, 9), d.int(0, 2)], 2), (['no kind', d.int(0, 9)], 1), (['children', d.int(0, 9)], 1)])}


def fn_qdb(case, rec):
    from plaschem.xml_inputs import XmlBuilder, XmlError, XmlParser
    tmp = scratch_dir('c10')
    try:
        spec = case['spec']
        qs, want_s = [], {}
        for n, s in enumerate(spec['species']):
            k, a = s['k'], s['attrs']
            q = k['q'] or 0
            of = 'e-' if k['name'] == 'e' else k['ground'] + gen.charge_suffix(q, 1)
            qrp = Fake(ordinary_formula=of, state=Qs([Fake(state_str=k['state'])] if k['state'] else []), mass=k['mass'], charge=q,
                       hform=gen.fnum(a.get('h_form', 0)), lj_epsilon=gen.fnum(a.get('lj_epsilon', 0)),
                       lj_sigma=gen.fnum(a.get('lj_sigma', 0)), hpem='H%d' % n if n % 2 else None, pk=case['off'] + 3 * n)
            qs.append(qrp)
            st = k['state'] or ''
            name = 'e' if k['name'] == 'e' else k['ground'] + gen.charge_suffix(q, 0) + ('(%s)' % st if st.strip('*') else st)
            want_s[name] = qrp
        names = list(want_s)
        qrs = []
        for m, (r, ds) in enumerate(zip(spec['reactions'], case['ds'])):
            n, el = len(r['lhs']), any(names[i] == 'e' for i in r['lhs'])
            ua, uc = gen.ARRH_UNITS[n][min(ds['u'], len(gen.ARRH_UNITS[n]) - 1)], 'eV' if el else 'K'

            def dataset(kind, a, pk, ds=ds, ua=ua, uc=uc):
                P = Qs([Fake(value=str(a), meta=Fake(name='A', units=ua)), Fake(value=str(ds['b']), meta=Fake(name='n', units='')),
                        Fake(value=str(ds['c']), meta=Fake(name='E', units=uc))])
                return Fake(is_xsec=lambda: kind == 'xsec', is_arrhenius=lambda: kind == 'arrh', parameter_set=P, pk=pk,
                            fit_arrhenius=lambda: ((a, 0.), (ds['b'], 0.), (ds['c'], 0.)), entry_id=ds['entry'], threshold=ds['thr'],
                            get_thresh=lambda: 3.25, citations=Qs([Fake(doi=x) for x in ds['doi']]),
                            dataset_type=Fake(pk=2 if kind == 'xsec' else 1))
            sets = Qs([dataset(ds['kind'], ds['a'], 1000 + m)])
            if ds['extra'] and n > 1:  # of several datasets, electron collisions prefer cross sections, others Arrhenius data
                sets.insert(0, dataset('arrh' if el else 'xsec', ds['a'] * 7, 5000 + m))
            bad = case.get('bad') or [None, 0]
            if bad[0] and bad[1] % len(spec['reactions']) == m:
                if bad[0] == 'no data':
                    del sets[:]
                elif bad[0] == 'no kind':
                    for x in sets:
                        x.is_xsec = x.is_arrhenius = lambda: False
                elif bad[0] == 'no parameter':
                    for x in sets:
                        del x.parameter_set[bad[2]]
                        x.is_xsec, x.is_arrhenius = lambda: False, lambda: True
            q = Fake(pk=100 + m, parent_reaction=Qs(), child_reactions=Qs(), reactants=Qs([qs[i] for i in r['lhs']]),
                     products=Qs([qs[i] for i in r['rhs']]), get_all_rps=lambda r=r: [qs[i] for i in r['lhs'] + r['rhs']],
                     reactiondataset_set=sets)
            if bad[0] == 'children' and bad[1] % len(spec['reactions']) == m:
                q.child_reactions = Qs([q, q])
            qrs.append(q)
            if ds.get('lumps'):  # a reaction of lumped species: its data are those of the resolved reactions it stands for
                q.reactiondataset_set = Qs([dataset('arrh', ds['a'] * 3, 7000 + m)])
                for j in range(ds['lumps']):
                    res = [Fake(**{**x.__dict__, 'pk': 90000 + 10 * n + j, 'state': Qs([Fake(state_str='v={}'.format(j))])})
                           if x.ordinary_formula != 'e-' else x for n, x in enumerate(qs)]
                    q.parent_reaction.append(Fake(pk=1000 * (j + 1) + m, parent_reaction=Qs(), child_reactions=Qs([q]),
                                                  reactants=Qs([res[i] for i in r['lhs']]), products=Qs([res[i] for i in r['rhs']]),
                                                  get_all_rps=lambda r=r, res=res: [res[i] for i in r['lhs'] + r['rhs']],
                                                  reactiondataset_set=sets))
                if bad[0] == 'children' and q.child_reactions:
                    q.child_reactions = Qs()
                    q.parent_reaction[-1].child_reactions = Qs([q, q])
        b = XmlBuilder()
        if bad[0]:  # data which are missing are missed, not made up
            raises(XmlError, b.add_chemistry_from_qdb, Fake(get_reactions=lambda: qrs))
            rec.label('refused')
            rec.nontrivial(True)
            return
        b.add_chemistry_from_qdb(Fake(get_reactions=lambda: qrs))
        path = os.path.join(tmp, 'q.xml')
        b.dump_xml(path)
        s2, r2 = XmlParser().get_species_and_reactions(path)
        check_eq(sorted(s.get_name() for s in s2), sorted(names), 'species imported from QDB')
        for s in s2:
            q = want_s[s.get_name()]
            check_eq((s.id, s.get_qdb_id(), s.get_mass(), s.get_charge(), s.get_hpem_name()), (q.pk, q.pk, q.mass, q.charge, q.hpem),
                     'id, mass, charge of ' + s.get_name())
            if not s.is_special():
                check_eq((s.get_h_form(), s.get_lj_epsilon(), s.get_lj_sigma()), (q.hform, q.lj_epsilon, q.lj_sigma or 3.),
                         'h_form, LJ of ' + s.get_name())
                check_eq(s.get_state(), None if not len(q.state) else
                         (q.state[0].state_str if not q.state[0].state_str.strip('*') else '(%s)' % q.state[0].state_str), 'state')
        want_r = []
        for m, (spec_r, ds) in enumerate(zip(spec['reactions'], case['ds'])):
            if not ds.get('lumps'):
                want_r.append((m, 100 + m, spec_r, ds, None))
            for j in range(ds.get('lumps', 0)):
                resolved = ['e' if names[i] == 'e' else (spec['species'][i]['k']['ground'] + gen.charge_suffix(qs[i].charge, 0) + '(v=%d)' % j)
                            for i in range(len(names))]
                want_r.append((m, 1000 * (j + 1) + m, spec_r, ds,
                               ' > '.join(' + '.join(resolved[i] for i in side) for side in (spec_r['lhs'], spec_r['rhs']))))
                rec.label('lumped')
        check_eq(len(r2), len(want_r), 'reactions imported from QDB')
        for r, (m, pk_r, spec_r, ds, comment) in zip(r2, want_r):
            L, R = [names[i] for i in spec_r['lhs']], [names[i] for i in spec_r['rhs']]
            el, n = 'e' in L, len(L)
            check_eq(([x.get_name() for x in r.get_reactants()], [x.get_name() for x in r.get_products()]), (L, R), 'reaction')
            kind, a, pk = ds['kind'], ds['a'], 1000 + m
            if ds['extra'] and n > 1:
                first = ('arrh' if el else 'xsec', ds['a'] * 7, 5000 + m)
                if (el and kind != 'xsec') or (not el and kind != 'arrh'):
                    kind, a, pk = first
            unit = gen.ARRH_UNITS[n][min(ds['u'], len(gen.ARRH_UNITS[n]) - 1)] if kind == 'arrh' else {2: 'cm3.s-1', 3: 'cm6.s-1'}[n]
            check_eq((r.get_arrh_a(si_units=False), r.get_unit('arrh_a'), r.get_arrh_b(), r.get_arrh_c()), (a, unit, ds['b'], ds['c']),
                     'kinetics of {}'.format(r))
            loss = 0.
            if el and sorted(L) != sorted(R) and 'e' in R:
                loss = max(0., ds['c']) if kind == 'arrh' else (ds['thr'] if ds['thr'] is not None else 3.25)
            check_eq(r.get_el_en_loss(), loss, 'electron energy loss of {}'.format(r))
            check_eq((r.id, r.get_qdb_r_id(), r.get_qdb_ds_id()), (pk_r, pk_r, pk), 'QDB ids')
            check_eq(r.get_comments(), comment, 'comments of {}'.format(r))
            check_eq(r.get_special_number(), ds['entry'] if ds['entry'] is not None and ds['entry'] < 0 else 10 if el else 20, 'special number')
            doi = [x for x in ds['doi'] if x != 'None']
            check_eq(r.get_doi(), doi[0] if doi else None, 'doi')
            rec.label(kind)
        rec.nontrivial(len(qrs) > 1)
    finally:
        shutil.rmtree(tmp)


# -------------------------------------------- whatever the locale ------------------------------------------------- #

TEXTS = ['plain', 'µ and ±', 'naïve – “quoted”', '温度', 'λ = 656 nm', 'ž<š>&"ť"', '\U0001d6fc decay']


@gen.cases
def case_locale(d):
    specs = [draw_spec(d, max_reactions=3) for _ in range(d.int(3, 6))]
    for spec in specs:
        for o in spec['species'] + spec['reactions']:
            if d.bool(1, 2):
                o['attrs']['comments'] = d.pick(TEXTS)
            if d.bool(1, 6):
                o['attrs']['latex'] = d.pick(TEXTS)
    return {'specs': specs, 'locale': d.weighted([('ascii', 3), ('utf-8', 1)])}


def child(path):
    """Runs in a process of its own: one line per chemistry, 'same' or what went wrong."""
    from plaschem.chemistry import Chemistry
    from plaschem.xml_inputs import XmlBuilder, XmlParser
    tmp = os.path.dirname(path)
    with open(path, encoding='ascii') as f:
        specs = json.load(f)
    for n, spec in enumerate(specs):
        out = 'same'
        try:
            chem = gen.build(spec)
            xml, xml2, attrs = (os.path.join(tmp, '%d.%s' % (n, x)) for x in ('xml', '2.xml', 'yaml'))
            b = XmlBuilder()
            b.add_chemistry_from_instance(chem)
            b.dump_xml(xml)
            c = XmlBuilder()
            c.add_chemistry_from_xml(xml)
            c.dump_xml(xml2)
            used = set(chem.get_species_id(special=True))
            want = [facts.rp_facts(s) for s in chem.get_species(special=True)], [facts.r_facts(r) for r in chem.get_reactions()]
            for x in (xml, xml2):
                s2, r2 = XmlParser().get_species_and_reactions(x)
                compare([facts.rp_facts(s) for s in s2], [facts.r_facts(r) for r in r2], want[0], want[1], 'written and read back')
            if len(used) == len(spec['species']):
                full = Chemistry(xml_path=xml)
                full.dump_chemistry_attributes(attrs)
                check(full.check_coherence(attrs), 'not coherent with the file just dumped')
                Chemistry(xml_path=xml).load_chemistry_attributes(attrs)
        except Exception:
            out = traceback.format_exc()[-1500:]
        print(json.dumps(out))


def fn_locale(case, rec):
    tmp = scratch_dir('c10')
    try:
        path = os.path.join(tmp, 'specs.json')
        with open(path, 'w', encoding='ascii') as f:
            json.dump(case['specs'], f)
        env = dict(os.environ, LC_ALL='C.UTF-8')
        if case['locale'] == 'ascii':
            env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        code = 'import sys; sys.path[:0] = {!r}; from checks import c10; c10.child(sys.argv[1])'.format(
            ['/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))])
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code, path], env=env, capture_output=True, encoding='ascii',
                           errors='replace', timeout=100)
        lines = [json.loads(x) for x in r.stdout.split('\n') if x.startswith('"')]
        for line in lines:
            check(line == 'same', 'in a process with the locale {}: {}', case['locale'], line)
        check_eq(len(lines), len(case['specs']), 'chemistries done in a process of its own ({})'.format(r.stderr[-500:]))
        rec.label(case['locale'])
        rec.nontrivial(case['locale'] == 'ascii')
    finally:
        shutil.rmtree(tmp)


SUBS = [
    Sub('roundtrip', case, fn, quick=900, thorough=12000, shards=6,
        rule='chemistry -> builder (three ways) -> xml -> parser and chemistry; non-trivial with at least two reactions',
        must_label=('how0', 'how1', 'how2', 'reduced', 'comma-name')),
    Sub('merge', case_merge, fn_merge, quick=400, thorough=5000, shards=4,
        rule='two to four chemistries merged in one builder; non-trivial when they share some species but not all',
        must_label=('xml-first', 'instance-first', 'xml-twice', 'three')),
    Sub('hpem', case_hpem, fn_hpem, quick=1000, thorough=10000, shards=2,
        rule='generated HPEM input files; non-trivial when something had to be left out', must_label=('skip', 'keep')),
    Sub('qdb', case_qdb, fn_qdb, quick=800, thorough=8000, shards=2,
        rule='stand-ins for QDB objects with the interface the importer uses; non-trivial with at least two reactions',
        must_label=('arrh', 'xsec', 'lumped', 'refused')),
    Sub('locale', case_locale, fn_locale, quick=16, thorough=200, shards=4,
        rule='chemistries with text of many alphabets, written and read in a process with an ASCII or a UTF-8 locale; non-trivial in ASCII',
        must_label=('ascii',)),
]
