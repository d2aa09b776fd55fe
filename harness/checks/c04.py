"""C04: a copy equals its original, and from then on neither sees the other's changes."""
import os
import shutil

import gen
import world
from checks.c03 import make_xml
from core import Sub, check, check_eq, scratch_dir

KINDS = [('disable_sp', 5), ('disable_r', 5), ('protect', 1), ('protect_any', 1), ('reset', 2), ('stick', 3), ('ret', 4), ('arrh', 3),
         ('reset_adhoc', 2)]


@gen.cases
def case(d):
    charged = d.bool(4, 5)
    spec = gen.draw_chemistry(d, rich=True, max_reactions=6, large=20, charged=charged)
    return {'spec': spec, 'charged': charged, 'pre': world.draw_ops(d, 4, KINDS), 'copy': world.draw_ops(d, 3, KINDS),
            'orig': world.draw_ops(d, 3, KINDS), 'first': d.bool(), 'xml': d.int(0, 2), 'again': d.bool(1, 4)}


def fn(case, rec):
    tmp = scratch_dir('c04')
    try:
        run(case, rec, make_xml(tmp, case.get('xml', 0)), os.path.join(tmp, 'attrs.yaml'))
    finally:
        shutil.rmtree(tmp)


def run(case, rec, xml, path):
    cls = None
    if not case['charged']:
        from pygmo_fwork.pygmol.neutral_model import NeutralChemistry as cls
    a = world.World(case['spec'], cls=cls, charged=case['charged'], xml_path=xml)
    for op in case['pre']:
        a.apply(op)
    before = world.observe_all(a.chem)
    b = object.__new__(world.World)
    b.spec, b.chem, b.ref = a.spec, a.chem.copy(), a.ref.clone()
    if case.get('again'):
        b.chem = b.chem.copy()
    check(type(b.chem) is type(a.chem), 'the copy of a {} is a {}', type(a.chem).__name__, type(b.chem).__name__)
    check_eq(b.chem.xml_path, a.chem.xml_path, 'xml_path of the copy')
    check_eq([id(x) for x in b.chem.get_reactions(disabled=True)], [id(x) for x in a.chem.get_reactions(disabled=True)], 'reactions shared')
    check(b.chem is not a.chem, 'copy returned the chemistry itself')
    world.check_same(before, world.observe_all(b.chem), 'the copy differs from the original')
    world.check_same(before, world.observe_all(a.chem), 'copying changed the original')
    check([id(x) for x in a.chem.get_species(disabled=True, special=True)] ==
          [id(x) for x in b.chem.get_species(disabled=True, special=True)], 'the copy does not share species objects')
    for x, y, ops in (((b, a, case['copy']), (a, b, case['orig'])) if case['first'] else
                      ((a, b, case['orig']), (b, a, case['copy']))):
        other = world.observe_all(y.chem)
        for op in ops:
            rec.label(x.apply(op))
            world.check_sets(x.chem, x.ref, 'history on one of original/copy')
        world.check_same(other, world.observe_all(y.chem), 'changing one of original/copy changed the other')
    # mutable values handed out by one may not be shared with the other
    for chem, oth in ((a.chem, b.chem), (b.chem, a.chem)):
        other = world.observe_all(oth)
        mine = world.observe_all(chem)
        for v in chem.get_species_ret_coefs(disabled=True):
            if v:
                v[next(iter(v))] = 77.
        world.check_same(other, world.observe_all(oth), 'editing a returned value changed the other chemistry')
        world.check_same(mine, world.observe_all(chem), 'editing a returned value changed the chemistry')
    # a state dumped by one of them can be restored in the other
    x, y = (a, b) if case['first'] else (b, a)
    x.chem.dump_chemistry_attributes(path)
    check_eq(y.chem.check_coherence(path), x.ref.key() == y.ref.key(), 'coherence of one with the dumped state of the other')
    mine = world.observe_all(x.chem)
    differ = world.observe_sets(a.chem) != world.observe_sets(b.chem) or a.ref.key() != b.ref.key()
    y.chem.load_chemistry_attributes(path)
    world.check_same(mine, world.observe_all(y.chem), 'a dumped state restored in the other of original/copy')
    world.check_same(mine, world.observe_all(x.chem), 'loading in one of original/copy changed the other')
    rec.label('charged' if case['charged'] else 'neutral', 'xml' if xml else 'no xml')
    rec.nontrivial(differ)


SUBS = [Sub('copies', case, fn, quick=600, thorough=12000, shards=8,
            rule='history, copy, then separate histories on copy and original; non-trivial when the two ended in '
                 'different states', must_label=('neutral', 'charged', 'adhoc'))]
