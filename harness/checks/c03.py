"""C03: a dumped chemistry state can be restored exactly; coherence is equality of states; a rejected load is harmless."""
import os
import shutil

import yaml

import gen
import world
from core import Sub, check, check_eq, scratch_dir

KINDS = [('disable_sp', 5), ('disable_r', 5), ('disable_mix', 2), ('protect', 4), ('protect_any', 1), ('reset', 1), ('stick', 3), ('ret', 3),
         ('arrh', 3), ('reset_adhoc', 1)]
CORRUPT = ['missing-file', 'drop:species_ids', 'drop:reactions_ids', 'drop:adhoc_species_attributes',
           'drop:adhoc_reactions_attributes', 'drop:xml_path', 'drop:xml_hash', 'drop:enabled', 'drop:disabled',
           'drop:protected', 'empty', 'list', 'scalar', 'xml-append', 'xml-space', 'xml-case', 'xml-byte', 'xml-truncated',
           'xml-swap', 'xml-gone', 'xml-path', 'foreign-species', 'foreign-reaction', 'foreign-protected', 'foreign-return', 'foreign-stuck',
           'foreign-arrhenius', 'foreign-attribute', 'foreign-network', 'no-ion', 'not-text', 'not-yaml', 'no-list', 'no-number', 'short']


@gen.cases
def case(d):
    neutral = d.bool(1, 6)
    spec = gen.draw_chemistry(d, rich=True, max_reactions=6, large=20, charged=not neutral)
    return {'spec': spec, 'neutral': neutral, 'pre': world.draw_ops(d, 5, KINDS), 'post': world.draw_ops(d, 4, KINDS) if d.bool(3, 4) else [],
            'tail': world.draw_ops(d, 2, KINDS), 'xml': d.int(0, 4), 'fresh': d.bool(), 'check_hash': d.bool(2, 3)}


def make_xml(tmp, n):
    if not n:
        return None
    path = os.path.join(tmp, 'chem.xml')
    with open(path, 'w', encoding=ENCODING[n]) as f:
        f.write('<chemistry>%d</chemistry>\n' % n if n == 1 else XML if n == 2 else
                '<?xml version="1.0" encoding="%s"?>\n' % ENCODING[n] + XML.replace('X1', 'Xé'))
    return path


ENCODING = {1: 'utf-8', 2: 'utf-8', 3: 'iso-8859-1', 4: 'utf-16'}


XML = '<chemistry>\n' + ''.join('  <rp id="{0}"> <name>X{0}</name> <mass>{1}</mass>\n  </rp>\n'.format(i, 7 * i + 11) for i in range(1, 200)) + '</chemistry>\n'


def spoil(text, bad, at):
    i = 12 + at % max(1, len(text) - 26)  # somewhere inside
    if bad == 'xml-append':
        return text + '<!-- changed -->\n'
    if bad == 'xml-space':
        return text[:i] + ' ' + text[i:] if at % 2 else text + '\n'
    if bad == 'xml-case':
        return text.replace('chemistry', 'Chemistry')
    if bad == 'xml-byte':
        return text[:i] + ('#' if text[i] != '#' else '!') + text[i + 1:]
    if bad == 'xml-truncated':
        return text[:-1 - at % (len(text) - 1)]
    j = next(j for j in range(i, len(text)) if text[j] != text[j - 1])
    return text[:j - 1] + text[j] + text[j - 1] + text[j + 1:]


FOREIGN = ['foreign-protected', 'foreign-return', 'foreign-stuck', 'foreign-arrhenius', 'foreign-attribute', 'foreign-network', 'no-ion',
           'no-list', 'no-number', 'short']


def foreign(bad, data, ref, at):
    """A file with the same numbers of species and reactions which belong to another chemistry, or with nonsense in it."""
    sps, rs = data['species_ids'], data['reactions_ids']
    own, per_r = data['adhoc_species_attributes'], data['adhoc_reactions_attributes']
    some = ref.order[at % len(ref.order)]
    if bad == 'foreign-protected':
        sps['protected' if at % 2 else 'adhoc_protected'].append(max(ref.order) + 5)
    elif bad == 'foreign-return':
        own.insert(at % (len(own) + 1), ['ret_coefs', some, {'Xx9': .5}])
    elif bad == 'foreign-stuck':
        own.insert(at % (len(own) + 1), ['stick_coef', max(ref.order) + 5, .5])
    elif bad == 'foreign-arrhenius':
        per_r.insert(at % (len(per_r) + 1), ['arrh_a', max(ref.rorder) + 5, 1e-16])
    elif bad == 'foreign-attribute':
        (own if at % 2 else per_r).append(['mass' if at % 2 else 'arrh_b', some if at % 2 else ref.rorder[0], 1.])
    elif bad == 'foreign-network':  # a species without its reactions
        used = [i for i in ref.order if i in sps['enabled'] and ref.name(i) != 'M']
        i = used[at % len(used)]
        sps['enabled'].remove(i)
        sps['disabled'].append(i)
        rs['enabled'], rs['disabled'] = sorted(ref.rorder), []
    elif bad == 'no-ion':
        sps['enabled'], sps['disabled'], rs['enabled'], rs['disabled'] = [], sorted(ref.order), [], sorted(ref.rorder)
    elif bad == 'no-list':
        part = ('enabled', 'disabled', 'protected')[at % 3]
        (sps if at % 2 or part == 'protected' else rs)[part] = None if at % 5 else 7
    elif bad == 'no-number':
        own.append([['stick_coef', some, 'sticky'], ['ret_coefs', some, {ref.name(some): 'all'}], ['ret_coefs', some, [1, 2]]][at % 3])
    else:
        own.append(['stick_coef', some] if at % 2 else ['stick_coef'])
    return data


def world_of(case, xml):
    if not case.get('neutral'):
        return world.World(case['spec'], xml_path=xml)
    from pygmo_fwork.pygmol.neutral_model import NeutralChemistry
    return world.World(case['spec'], cls=NeutralChemistry, charged=False, xml_path=xml)


def run_ops(w, ops, rec=None):
    for op in ops:
        what = w.apply(op)
        if rec is not None:
            rec.label(what)


def fn(case, rec):
    tmp = scratch_dir('c03')
    try:
        xml = make_xml(tmp, case['xml'])
        path = os.path.join(tmp, 'attrs.yaml')
        w = world_of(case, xml)
        run_ops(w, case['pre'], rec)
        saved_ref, saved = w.ref.clone(), world.observe_all(w.chem)
        w.chem.dump_chemistry_attributes(path)
        check(w.chem.check_coherence(path), 'not coherent with the file just dumped')
        world.check_same(saved, world.observe_all(w.chem), 'dumping changed the chemistry')
        run_ops(w, case['post'])
        same = w.ref.key() == saved_ref.key()
        check_eq(w.chem.check_coherence(path), same, 'coherence with the dumped state (states {})'.format(
            'equal' if same else 'differ'))
        rec.label('diverged' if not same else 'same')
        target = world_of(case, xml) if case['fresh'] else w
        target.chem.load_chemistry_attributes(path, check_hash=case['check_hash'])
        target.ref = saved_ref.clone()
        world.check_same(saved, world.observe_all(target.chem), 'the restored state differs from the dumped one')
        check(target.chem.check_coherence(path), 'not coherent with the file just loaded')
        world.check_sets(target.chem, target.ref, 'after load')
        rec.nontrivial(saved['disabled_r'] or saved_ref.stick or saved_ref.ret or saved_ref.arrh)
        rec.label('ret-adhoc' if saved_ref.ret else 'no-ret-adhoc', 'encoding%d' % case['xml'])
        # ad-hoc state hidden behind masks must have been restored too
        target.chem.reset()
        target.ref.reset()
        tail_a = world_of(case, xml)
        tail_a.chem.load_chemistry_attributes(path)
        tail_a.ref = saved_ref.clone()
        run_ops(tail_a, case['tail'])
        world.check_sets(tail_a.chem, tail_a.ref, 'operations after a load')
        for i in target.ref.order:
            if not target.ref.is_special(i):
                got = target.chem.get_species_stick_coef().at[i]
                check(world.val(got) == target.ref.stick_coef(i), 'stick_coef of {} after load+reset: {} != {}', i, got,
                      target.ref.stick_coef(i))
                got = target.chem.get_species_ret_coefs().at[i]
                check(world.val(got) == target.ref.ret_coefs(i), 'ret_coefs of {} after load+reset: {} != {}', i, got,
                      target.ref.ret_coefs(i))
    finally:
        shutil.rmtree(tmp)


@gen.cases
def case_bad(d):
    spec = gen.draw_chemistry(d, rich=True, max_reactions=5)
    return {'spec': spec, 'pre': world.draw_ops(d, 3, KINDS), 'post': world.draw_ops(d, 4, KINDS),
            'bad': d.pick(CORRUPT), 'at': d.int(0, 20000), 'xml': d.int(1, 4)}


def fn_bad(case, rec):
    from plaschem.exceptions import ChemistryAttributeError
    tmp = scratch_dir('c03')
    try:
        xml = make_xml(tmp, case.get('xml', 1))
        path = os.path.join(tmp, 'attrs.yaml')
        w = world.World(case['spec'], xml_path=xml)
        run_ops(w, case['pre'])
        w.chem.dump_chemistry_attributes(path)
        run_ops(w, case['post'])
        before = world.observe_all(w.chem)
        bad = case['bad']
        with open(path) as f:
            data = yaml.safe_load(f)
        ref = w.ref
        if bad == 'missing-file':
            path = os.path.join(tmp, 'nothing.yaml')
        elif bad.startswith('drop:'):
            key = bad[5:]
            if key in data:
                del data[key]
            else:
                for part in ('species_ids', 'reactions_ids'):
                    data[part].pop(key, None)
        elif bad == 'empty':
            data = None
        elif bad == 'list':
            data = [1, 2]
        elif bad == 'scalar':
            data = 'hello'
        elif bad == 'xml-gone':
            os.remove(xml)
        elif bad == 'xml-path':
            data['xml_path'] = xml + '.other'
        elif bad == 'foreign-species':
            data['species_ids']['enabled'] = data['species_ids']['enabled'] + [max(ref.order) + 5]
        elif bad == 'foreign-reaction':
            data['reactions_ids']['disabled'] = data['reactions_ids']['disabled'] + [max(ref.rorder) + 5]
        elif bad in FOREIGN:
            data = foreign(bad, data, ref, case['at'])
        if bad in ('xml-append', 'xml-space', 'xml-case', 'xml-byte', 'xml-truncated', 'xml-swap'):
            with open(xml, encoding=ENCODING[case.get('xml', 1)]) as f:
                text = f.read()
            new = spoil(text, bad, case['at'])
            assert new != text
            with open(xml, 'w', encoding=ENCODING[case.get('xml', 1)]) as f:
                f.write(new)
        elif bad == 'not-text':
            with open(path, 'rb') as f:
                raw = f.read()
            i = case['at'] % len(raw)
            with open(path, 'wb') as f:
                f.write(raw[:i] + b'\xff\xfe\xfa' + raw[i:])
        elif bad == 'not-yaml':
            with open(path, 'a') as f:
                f.write('}{ [\n' if case['at'] % 2 else '\x07\n')
        elif bad not in ('missing-file', 'xml-gone'):
            with open(path, 'w') as f:
                if data is not None:
                    yaml.safe_dump(data, f)
        rec.label(bad)
        try:
            w.chem.load_chemistry_attributes(path)
        except ChemistryAttributeError:
            pass
        else:
            check(False, 'an incompatible attributes file ({}) was accepted', bad)
        world.check_same(before, world.observe_all(w.chem), 'the rejected load ({}) changed the chemistry'.format(bad))
        rec.nontrivial(before['disabled_r'] or ref.stick or ref.ret or ref.arrh)
    finally:
        shutil.rmtree(tmp)


SUBS = [
    Sub('roundtrip', case, fn, quick=700, thorough=9000, shards=6,
        rule='history, dump, further history, load into the same or a fresh chemistry; non-trivial when the dumped state '
             'has disabled or ad-hoc changed members', must_label=('diverged', 'same', 'ret-adhoc', 'refused', 'encoding3', 'encoding4')),
    Sub('rejected', case_bad, fn_bad, quick=700, thorough=7000, shards=3,
        rule='a damaged or foreign attributes file; non-trivial when the live state differs from a fresh chemistry',
        must_label=tuple(FOREIGN)),
]
