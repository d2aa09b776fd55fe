"""C26: the edges of a chemistry graph are the couplings of the documented weighting methods, whatever the frames look like."""
import random

import numpy as np
import pandas as pd

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close
from checks import c16

METHODS = ['DRG', 'DRG1', 'DRG2', 'DRGEP']
INDEX = ['range', 'zeros', 'times', 'words', 'shifted', 'reversed']


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=8, large=20, excited=d.bool(2, 3))
    ops = [] if d.bool() else world.draw_ops(d, 4, c16.KINDS)
    names = [s['attrs']['name'] for s in spec['species'] if s['k']['name'] not in ('e', 'M')]
    return {'spec': spec, 'ops': ops, 'P': plasma.draw_params(d, names), 'mp': d.bool(), 'times': d.weighted([(d.int(1, 3), 12), (d.int(4, 14), 1)]), 'seed': d.int(0, 10 ** 6),
            'kind': d.weighted([('any', 3), ('zeros', 2), ('equal', 2), ('whole', 1)]), 'index': d.pick(INDEX), 'windex': d.pick(INDEX),
            'methods': [[d.pick(METHODS), d.bool(3, 4)] for _ in range(d.int(1, 4))], 'bad': d.int(0, 7), 'at': d.int(0, 30),
            'search': d.int(0, 10 ** 6), 'close': d.bool(1, 4), 'down': d.bool(1, 5)}


def values(kind, seed, n, ok):
    """Rates or fluxes of every process (0 where not ok)."""
    r = random.Random(seed)
    out = []
    for k in range(n):
        if kind == 'equal':
            v = 1e18
        elif kind == 'whole':
            v = float(r.randint(0, 4))
        elif kind == 'zeros':
            v = r.choice((0., 0., 10 ** r.uniform(14, 22)))
        else:
            v = 10 ** r.uniform(14, 22) if r.random() < 0.8 else 10 ** r.uniform(-10, 25)
        out.append(v if ok[k] else 0.)
    return out


def index_of(kind, n):
    return {'range': list(range(n)), 'zeros': [0] * n, 'times': [1e-3 * k for k in range(n)], 'words': ['row %d' % k for k in range(n)],
            'shifted': [k + 7 for k in range(n)], 'reversed': list(range(n))[::-1]}[kind]


def couplings(ref, pl, rates, fluxes, method, surface):
    """{(b, a): (weight, numerator uncertainty, denominator uncertainty)} by the documented formulae, ids of species."""
    S = ref.ids(special=True)
    scale = pl.area / pl.V if surface else 0.
    surf = {}
    for j, b in enumerate(pl.ids):
        x = fluxes[j] * scale
        for a in S:
            rc = 0. if ref.is_special(a) else (pl.rc[b] or {}).get(ref.name(a), 0.)  # electrons are not returned (C06)
            surf[b, a] = ((x if a == b else 0.) - rc * x, abs(x) * ((a == b) + rc))
    net, mag = {}, {}
    for a in S:
        terms = [ref.stoich(r, a, 'net') * rates[j] for j, r in enumerate(pl.rids)]
        walls = [surf.get((b, a), (0., 0.)) for b in S]
        plus = sum(t for t in terms if t > 0) + sum(w for w, _ in walls if w > 0)
        minus = -sum(t for t in terms if t < 0) - sum(w for w, _ in walls if w < 0)
        total = sum(abs(t) for t in terms) + sum(m for _, m in walls)
        norm = plus + minus if method == 'DRG' else abs(plus - minus) if method in ('DRG1', 'DRG2') else max(plus, minus)
        for b in S:
            if b == a:
                continue
            own = [t for j, (r, t) in enumerate(zip(pl.rids, terms)) if b in ref.r[r]['L'] + ref.r[r]['R']]
            w, m = surf.get((b, a), (0., 0.))
            m += sum(abs(t) for t in own)
            num = sum(abs(t) for t in own) + abs(w) if method in ('DRG', 'DRG1') else abs(sum(own) + w)
            yield b, a, num, norm, m * 1e-12, total * 1e-12


def make(case):
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    ref = w.ref
    P = c16.live_params(case['P'], ref)
    pl = plasma.Plasma(ref, P)
    T = case['times']
    rates = [values(case['kind'], case['seed'] * 7 + t, len(pl.rids), [True] * len(pl.rids)) for t in range(T)]
    fluxes = [[-x for x in values(case['kind'], case['seed'] * 7 + 3 + t, len(pl.ids), [s > 0 for s in pl.s])] for t in range(T)]
    times = [1.e-3 * (1 + 1e-6 * k) if case['close'] else 1.e-3 * (k + 1) for k in range(T)]
    if case.get('down'):
        times = times[::-1]
    rf = pd.DataFrame(rates, columns=list(pl.rids), index=index_of(case['index'], T), dtype=float)
    rf.insert(0, 't', times)
    wf = pd.DataFrame(fluxes, columns=list(pl.names), index=index_of(case['windex'], T), dtype=float)
    wf.insert(0, 't', times)
    return w, ref, pl, rates, fluxes, times, rf, wf, ModelParameters(dict(P)) if case['mp'] else dict(P)


def fn(case, rec):
    from pygmo_fwork.optichem.exceptions import GraphInitError
    from pygmo_fwork.optichem.graph import ChemistryGraph
    w, ref, pl, rates, fluxes, times, rf, wf, params = make(case)
    r0, w0 = rf.copy(), wf.copy()
    cg = ChemistryGraph(w.chem, params, rf, wf)
    try:
        cg.get_ranking([pl.names[0]])
    except ValueError:
        pass
    else:
        raise Violation('a ranking before weights are distributed')
    for method, surface in case['methods']:
        cg.distribute_weights(method, surface)
        check_eq(len(cg.graphs), len(times), 'number of graphs')
        for t, graph in enumerate(cg.graphs):
            edges = dict((e, graph.get_edge_attributes(*e)['weight']) for e in graph.get_edges())
            sure = 0
            for b, a, num, norm, dn, dd in couplings(ref, pl, rates[t], fluxes[t], method, surface):
                got = edges.pop((ref.name(b), ref.name(a)), None)
                what = '{} {} of {} -> {} at time {}'.format(method, 'with walls' if surface else 'without walls', ref.name(b), ref.name(a), t)
                if num == 0 and dn == 0:
                    check(got is None, 'edge {} has weight {!r}, they do not share any process', what, got)
                    continue
                if not surface and case['kind'] in ('equal', 'whole'):  # rates which are added without rounding
                    check((got is None) == (num == 0 or norm == 0), 'edge {} has weight {!r}, the coupling is {!r} of {!r}', what, got, num, norm)
                    if got is None:
                        rec.label('balanced')
                        continue
                elif (num <= dn * 1e3 or norm <= dd * 1e3):  # what is left of terms which cancel is rounding
                    rec.label('cancelled')
                    continue
                want = num / norm
                check(got is not None, 'edge {} is missing, its weight is {!r}', what, want)
                check(abs(got - want) <= want * (1e-9 + dn / num + dd / norm), 'weight {} is {!r} instead of {!r}', what, got, want)
                if method in ('DRG', 'DRGEP'):
                    check(0 < got <= 1, 'weight {} is {!r}, a share of the whole', what, got)
                rec.label('one' if close(got, 1.) else 'above-one' if got > 1 else 'share')
                sure += 1
            check(not edges, 'edges {} for couplings there are not', sorted(edges))
            check(graph.weights_distributed, 'graph not marked as weighted')
            rec.nontrivial(sure >= 4)
        rec.label(method, 'walls' if surface and any(any(f) for f in fluxes) else 'no-walls')
    check(r0.equals(rf) and w0.equals(wf), 'frames passed in were changed')
    try:
        cg.distribute_weights('drg 3')
    except NotImplementedError:
        pass
    else:
        raise Violation('an unknown weighting method is accepted')
    k, at = case['bad'], case['at']
    R, N = len(pl.rids), len(pl.names)
    br, bw = rf, wf
    if k == 0:
        br = rf.drop(columns=pl.rids[at % R])
    elif k == 1:
        br = rf.assign(**{'extra': 1.})
    elif k == 2:
        bw = wf.drop(columns=pl.names[at % N])
    elif k == 3:
        bw = wf.assign(**{'no such species': 1.})
    elif k == 4:
        bw = wf.assign(t=[x * 2 for x in times])
    elif k == 5:
        br = rf[['t'] + list(rf.columns[1:])[::-1]]
    elif k == 6:
        bw = wf[['t'] + list(wf.columns[1:])[::-1]]
    else:
        br = rf[list(rf.columns[1:]) + ['t']]
    if list(br.columns) == list(rf.columns) and list(bw.columns) == list(wf.columns) and k != 4:
        return
    try:
        ChemistryGraph(w.chem, params, br, bw)
    except GraphInitError:
        rec.label('refused')
    else:
        raise Violation('frames of another chemistry are accepted')


SUBS = [Sub('weights', case, fn, quick=1200, thorough=16000, shards=8, rule='four or more couplings judged',
            must_label=tuple(METHODS) + ('walls', 'no-walls', 'one', 'share', 'above-one', 'cancelled', 'balanced', 'refused'))]
ASSUMPTIONS = ['rates are not negative and fluxes are not positive, as the results of a model are']
