"""C02: refused changes leave no trace; protected species, the electron and the last positive ion survive; reset."""
import gen
import world
from core import Sub, check, check_eq

ASSUMPTIONS = ['Whether a species which was protected when it was disabled already may be named beside others in a further disabling '
               'is left unspecified.']


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, max_reactions=6, large=20)
    ops = world.draw_ops(d, 7, [('disable_sp', 6), ('disable_r', 6), ('disable_mix', 5), ('protect', 1), ('protect_any', 1), ('reset', 2),
                                ('unknown', 3), ('stick', 1), ('ret', 1), ('arrh', 1), ('bad_adhoc', 2)])
    return {'spec': spec, 'ops': ops}


def bad_adhoc(w, op):
    """Ad-hoc changes which the documentation says are refused."""
    from plaschem import exceptions as X
    chem = w.chem
    sp = w._ordinary(op['a'][0])
    r = w.ref.rorder[op['a'][0] % len(w.ref.rorder)]
    calls = [
        ((X.RPAttributeError,), lambda: chem.set_adhoc_species_attributes('mass', sp, 1.)),
        ((X.RPAttributeError,), lambda: chem.set_adhoc_species_attributes('stick_coef', sp, [1.])),
        ((X.RPAttributeError,), lambda: chem.set_adhoc_species_attributes('ret_coefs', sp, 1.)),
        ((X.ChemistryConsistencyError,), lambda: chem.set_adhoc_species_attributes('ret_coefs', sp, {'nope': 1.})),
        ((X.ReactionAttributeError,), lambda: chem.set_adhoc_reactions_attributes('arrh_b', r, 1.)),
        ((X.ReactionAttributeError,), lambda: chem.set_adhoc_reactions_attributes('arrh_a', r, [1.])),
        ((X.RPAttributeError,), lambda: chem.reset_adhoc_species_attributes('mass')),
        ((X.ReactionAttributeError,), lambda: chem.reset_adhoc_reactions_attributes('arrh_b')),
        ((X.ReactionAttributeError,), lambda: chem.set_adhoc_reactions_attributes('no_such_attribute', r, 1.)),
        ((X.RPAttributeError,), lambda: chem.set_adhoc_species_attributes('no_such_attribute', sp, 1.)),
        ((X.RPAttributeError,), lambda: chem.set_adhoc_species_attributes('arrh_a', sp, 1.)),
        ((X.ReactionAttributeError,), lambda: chem.set_adhoc_reactions_attributes('all', r, 1.)),
    ]
    exc, call = calls[op['how'] + op['a'][-1] % 3 if op['how'] + op['a'][-1] % 3 < len(calls) else 0]
    if op['a'][0] % 2:
        exc, call = calls[(op['a'][0] // 2) % len(calls)]
    try:
        call()
    except exc:
        return 'bad-adhoc'
    check(False, 'an illegal ad-hoc change was accepted')


def fn(case, rec):
    w = world.World(case['spec'])
    ref, chem = w.ref, w.chem
    e = ref.by_name['e']
    for n, op in enumerate(case['ops']):
        before = world.observe_all(chem)
        if op['op'] == 'bad_adhoc':
            what = bad_adhoc(w, op)
        else:
            what = w.apply(op)
        rec.label(what)
        after = world.observe_all(chem)
        if what in ('refused', 'unknown', 'bad-adhoc', 'noop'):
            world.check_same(before, after, 'op {} ({}) was {} but changed the chemistry'.format(n, op, what))
            rec.nontrivial(what != 'noop')
        world.check_sets(chem, ref, 'after op {} ({})'.format(n, op))
        # invariants over every reachable state
        check(e in after['enabled_sp'] and e in after['protected'], 'the electron is disabled or unprotected')
        check(ref.ions(set(after['enabled_sp'])), 'no positive ion is left')
        left = ref.ions(set(after['enabled_sp']))
        if len(left) == 1:
            check(left[0] in after['protected'], 'the only positive ion is not protected')
        check(ref.prot - ref.late <= set(after['enabled_sp']), 'a protected species is disabled')
        if what == 'reset':
            check(not after['disabled_sp'] and not after['disabled_r'], 'reset left something disabled')
            check_eq(after['protected'], [i for i in ref.order if i in ref.prot], 'protected after reset')
    prot, ad = set(ref.prot), (dict(ref.stick), dict(ref.arrh))
    chem.reset()
    ref.reset()
    world.check_sets(chem, ref, 'after a final reset')
    fresh = gen.build(case['spec'])
    check_eq(sorted(chem.get_protected_species().index), sorted(prot), 'protection after reset')
    if not ref.stick and not ref.ret and not ref.arrh:
        a, b = world.observe_values(chem, ((False, True, True),)), world.observe_values(fresh, ((False, True, True),))
        world.check_same(b, a, 'reset chemistry differs from a fresh one')
        rec.label('reset-fresh')


SUBS = [Sub('history', case, fn, quick=1300, thorough=20000, shards=8,
            rule='a chemistry and a history of (mostly harmful) calls; non-trivial when at least one call was refused',
            must_label=('refused', 'unknown', 'bad-adhoc', 'reset'))]
