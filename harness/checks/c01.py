"""C01: disabling leaves exactly the greatest self-consistent sub-network, over histories of disable/protect/reset."""
import gen
import world
from core import Sub, check, check_eq

ASSUMPTIONS = ['Histories of up to 8 operations on generated chemistries of up to ~11 (some ~22) species and ~12 (~32) reactions.']


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=False, large=20)
    ops = world.draw_ops(d, 7, [('disable_sp', 5), ('disable_r', 8), ('disable_mix', 4), ('protect', 1), ('protect_any', 1), ('reset', 1)])
    return {'spec': spec, 'ops': ops}


def fn(case, rec):
    w = world.World(case['spec'])
    rec.label(*gen.tag(case['spec']))
    world.check_sets(w.chem, w.ref, 'initially')
    for n, op in enumerate(case['ops']):
        what = w.apply(op)
        rec.label(what)
        rec.nontrivial(what.startswith('cascade'))
        world.check_sets(w.chem, w.ref, 'after op {} ({})'.format(n, op))
        check_eq(w.chem.num_species(special=True), len(w.ref.es), 'num_species')
        check_eq(w.chem.num_reactions(), len(w.ref.er), 'num_reactions')
        # self-consistency, read off the real objects only
        on = {id(s) for s in w.chem.get_species(special=True)}
        used = set()
        for r in w.chem.get_reactions():
            for sp in r.get_reactants() + r.get_products():
                check(id(sp) in on, 'enabled reaction {} uses disabled species {}', r, sp)
                used.add(id(sp))
        check(used == on, 'an enabled species is in no enabled reaction')
        for r in w.chem.get_disabled_reactions():
            check(w.ref.sp and r.id not in w.ref.er, 'a disabled reaction is enabled in the reference')


@gen.cases
def case_order(d):
    spec = gen.draw_chemistry(d, rich=False, large=20)
    n = d.int(2, 4)
    items = [[d.int(0, 1), d.int(0, 40)] for _ in range(n)]
    return {'spec': spec, 'items': items, 'perm': [d.int(0, 3) for _ in range(n)]}


def fn_order(case, rec):
    """The result depends only on the set of items disabled: all at once == one by one in any order."""
    from plaschem.exceptions import ChemistryDisableError
    outs = []
    ref = world.RefState(case['spec'])
    items = []
    for t, x in case['items']:  # removable ones, where there are any
        cand = [(t, o[(x + j) % len(o)]) for t, o in ((('r', ref.rorder),) if t else (('s', ref.order),)) for j in range(len(o))]
        ok = [c for c in cand if c not in items and not ref.would_refuse(
            [i for t, i in items + [c] if t == 's'], [i for t, i in items + [c] if t == 'r'])]
        items += (ok or (cand if x % 5 == 0 else []))[:1]
    if not items:
        return

    def together(chem, its):
        chem.disable(species=[i for t, i in its if t == 's'], reactions=[i for t, i in its if t == 'r'])

    for plan in ([items], [[i] for i in items], [[i] for _, i in sorted(zip(case['perm'], items))]):
        chem = gen.build(case['spec'])
        try:
            for part in plan:
                together(chem, part)
            outs.append(world.observe_sets(chem))
        except ChemistryDisableError:
            outs.append(None)
    done = [o for o in outs if o is not None]
    rec.label('refused' if None in outs else 'accepted')
    rec.nontrivial(len(done) == 3 and len(done[0]['disabled_sp']) + len(done[0]['disabled_r']) > len(items))
    # disabling is monotone, so it is refused for one plan iff it is for all
    check(len(done) in (0, 3), 'disabling the same items was refused for some orders only: {}', items)
    for o in done[1:]:
        world.check_same(done[0], o, 'disabling {} in different orders'.format(items))


@gen.cases
def case_many(d):
    spec = gen.draw_chemistry(d, rich=False, large=1)
    share = d.pick([1, 2, 2, 3])
    return {'spec': spec, 'share': share, 'order': d.perm(list(range(40))), 'how': d.int(0, 2), 'r': d.bool(1, 3)}


def fn_many(case, rec):
    """Many items of a large chemistry disabled by one call."""
    w = world.World(case['spec'])
    ref = w.ref
    sps, rs = [], []
    for k in case['order']:
        if k < len(ref.order) and len(sps) < len(ref.order) * case['share'] // 3:
            if not ref.would_refuse(sps + [ref.order[k]], rs):
                sps.append(ref.order[k])
        elif case['r'] and k < len(ref.rorder) and not ref.would_refuse(sps, rs + [ref.rorder[k]]):
            rs.append(ref.rorder[k])
    if not sps and not rs:
        return
    w.chem.disable(species=[w.ref_to(i, case['how']) for i in sps], reactions=rs)
    ref.disable(sps, rs)
    world.check_sets(w.chem, ref, 'after disabling {} species and {} reactions at once'.format(len(sps), len(rs)))
    off = len(ref.order) - len(ref.es)
    rec.label('>16 species off' if off > 16 else '>10 species off' if off > 10 else None)
    rec.label('>16 reactions off' if len(ref.rorder) - len(ref.er) > 16 else None)
    rec.nontrivial(len(sps) > 3)
    w.chem.reset()
    ref.reset()
    world.check_sets(w.chem, ref, 'after the reset')


SUBS = [
    Sub('history', case, fn, quick=2400, thorough=30000, shards=8,
        rule='a chemistry spec and a history of disable/protect/reset calls; non-trivial when some call removed more '
             'than it was asked to', must_label=('cascade', 'refused')),
    Sub('order', case_order, fn_order, quick=500, thorough=5000, shards=4,
        rule='2-4 items disabled together, one by one, and in another order; non-trivial when the cascade removed more '
             'than the items'),
    Sub('many', case_many, fn_many, quick=160, thorough=3000, shards=8,
        rule='up to all removable species (and reactions) of a chemistry of up to ~22 species disabled by one call; '
             'non-trivial when more than three were named', must_label=('>10 species off',)),
]
