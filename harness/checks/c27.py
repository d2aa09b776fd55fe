"""C27: graph searches find the best paths and flows, and the ranking of species is the best score over outputs and times."""
import itertools
import math
import random

import numpy as np

import gen
from core import Sub, Violation, check, check_eq, close
from checks import c26

INF = float('inf')
NODES = list('abcdefgh')
ALL = list('abcdefghijk')
MAPS = {'none': (None, None), 'inverse': (lambda x: 1 / x if x else INF, lambda x: 1 / x if x else INF), 'root': (lambda x: x ** 0.5, lambda x: x ** 2),
        'tenfold': (lambda x: 10 * x, lambda x: x / 10), 'log': (lambda x: math.log(1 + x), lambda x: math.exp(x) - 1)}


# ------------------------------------------------ independent reference -------------------------------------------- #
def lengths_to(nodes, w, target):
    """Bellman-Ford: the length of the shortest path of every node to the target."""
    best = {n: 0. if n == target else INF for n in nodes}
    for _ in nodes:
        for (u, v), x in w.items():
            best[u] = min(best[u], x + best[v])
    return best


def widths_to(nodes, w, target):
    """The widest path of every node by adding edges in decreasing width until the target can be reached."""
    out = {n: 0. for n in nodes}
    out[target] = INF
    for width in sorted(set(w.values()), reverse=True):
        reach, grown = {target}, True
        while grown:
            grown = False
            for (u, v), x in w.items():
                if x >= width and v in reach and u not in reach:
                    reach.add(u)
                    grown = True
        for n in reach:
            out[n] = max(out[n], width)
    return out


def flow_between(nodes, w, source, target):
    """Max flow as the smallest of all cuts (all subsets of the other nodes)."""
    others = [n for n in nodes if n not in (source, target)]
    if len(others) > 11:
        return None
    best = INF
    ix = {n: k for k, n in enumerate(others)}
    edges = [(ix.get(u, -1 if u == source else -2), ix.get(v, -1 if v == source else -2), x) for (u, v), x in w.items() if u != v]
    for mask in range(1 << len(others)):
        side = lambda k: k == -1 or k >= 0 and mask >> k & 1
        best = min(best, sum(x for u, v, x in edges if side(u) and not side(v)))
        if not best:
            break
    return best


# ------------------------------------------------------- graphs ----------------------------------------------------- #
@gen.cases
def graph_case(d):
    n = d.int(2, 7)
    kind = d.pick(['whole', 'few', 'wild', 'share', 'close'])
    ops = []
    for _ in range(d.int(1, 18)):
        u, v = d.int(0, n - 1), d.int(0, n - 1)
        x = {'whole': d.int(1, 6), 'few': d.pick([0.5, 1., 2.]), 'wild': d.logflt(-8, 8), 'share': d.logflt(-4, 0),
             'close': d.int(1, 3) * (1 + d.int(-3, 3) * d.pick([1e-5, 1e-7, 1e-8]))}[kind]
        ops.append([u, v, x, d.weighted([('add', 6), ('again', 1), ('other', 1)])])
    return {'n': n, 'ops': ops, 'map': d.pick(sorted(MAPS)), 'target': d.int(0, n - 1), 'source': d.int(0, n - 1), 'one': d.int(0, 2),
            'attr': d.pick(['weight', 'rate']), 'perm': d.int(0, 5)}


def assertion(call, what):
    try:
        call()
    except AssertionError as e:
        if isinstance(e, Violation):
            raise
        return
    raise Violation(what + ' is not refused')


def graph_fn(case, rec):
    from pygmo_fwork.optichem.graph import Graph
    g = Graph()
    attrs, w = {}, {}
    attr = case['attr']
    for u, v, x, how in case['ops']:
        u, v = NODES[u], NODES[v]
        if u == v and how == 'other':
            continue
        g.add_edge(u, v)
        if (u, v) not in attrs:
            attrs[u, v] = {}
        if how == 'again' and attr in attrs[u, v]:
            g.add_edge(u, v)
        else:
            g.update_edge_attributes(u, v, **{attr: x})
            attrs[u, v][attr] = x
            w[u, v] = x
        if how == 'other':
            g.update_edge_attributes(u, v, length=-x)
            attrs[u, v]['length'] = -x
            g.update_node_attributes(u, mass=x)
            check_eq(g.get_node_attributes(u)['mass'], x, 'attribute of a node')
    if not w:
        return
    nodes = {n for e in w for n in e}
    check_eq(set(g.get_nodes()), nodes, 'nodes')
    check_eq(set(g.get_edges()), set(w), 'edges')
    for e in w:
        check_eq(dict(g.get_edge_attributes(*e)), attrs[e], 'attributes of {}'.format(e))
    for u in nodes:
        for v in nodes:
            check_eq(g.has_edge(u, v), (u, v) in w, 'edge {} {}'.format(u, v))
    e = sorted(w)[0]
    for bad in (0, 0., -1):
        assertion(lambda: g.update_edge_attributes(*e, weight=bad), 'a weight of {!r}'.format(bad))
    check_eq(dict(g.get_edge_attributes(*e)), attrs[e], 'attributes after a refused weight')
    target = NODES[case['target']] if NODES[case['target']] in nodes else sorted(nodes)[0]
    source = NODES[case['source']] if NODES[case['source']] in nodes else sorted(nodes)[-1]
    calls = [lambda **k: g.find_shortest_paths(target, attr, **k), lambda **k: g.find_max_bottleneck_paths(target, attr, **k),
             lambda **k: g.get_max_flow(source, target, attr, **k)]
    assertion(calls[case['one']], 'a search before the weights are distributed')
    g.weights_distributed = True
    f, inv = MAPS[case['map']]
    kw = {} if f is None else {'weighting_func': f, 'inverse': inv}
    if f is not None:
        assertion(lambda: calls[case['one']](weighting_func=f), 'a weighting function without its inverse')
        assertion(lambda: calls[case['one']](inverse=inv), 'an inverse without its weighting function')
    else:
        f = inv = lambda x: x
    m = {e: f(x) for e, x in w.items()}
    # --- widest paths
    paths, values = g.find_max_bottleneck_paths(target, attr, **kw)
    want = widths_to(nodes, m, target)
    check_eq(set(values), nodes, 'nodes with a widest path')
    for n in nodes - {target}:
        if want[n] == 0:
            check(values[n] == inv(0.), 'width from {} is {!r}, there is no path', n, values[n])
            check(paths[n][-1] != target, 'path {} which there is not', paths[n])
            rec.label('no-path')
            continue
        check(close(values[n], inv(want[n]), 1e-9), 'width from {} to {} is {!r} instead of {!r}', n, target, values[n], inv(want[n]))
        walk(paths[n], n, target, m)
        check(close(min(m[e] for e in zip(paths[n], paths[n][1:])), want[n], 1e-9), 'path {} is not {!r} wide', paths[n], want[n])
    # --- shortest paths
    paths, values = g.find_shortest_paths(target, attr, **kw)
    want = lengths_to(nodes, m, target)
    check_eq(set(values), nodes, 'nodes with a shortest path')
    for n in nodes - {target}:
        if want[n] == INF:
            check(case['map'] == 'log' or values[n] == inv(INF), 'length from {} is {!r}, there is no path', n, values[n])
            check(paths[n][-1] != target, 'path {} which there is not', paths[n])
            continue
        check(close(values[n], inv(want[n]), 1e-9), 'length from {} to {} is {!r} instead of {!r}', n, target, values[n], inv(want[n]))
        walk(paths[n], n, target, m)
        check(close(math.fsum(m[e] for e in zip(paths[n], paths[n][1:])), want[n], 1e-9), 'path {} is not {!r} long', paths[n], want[n])
        rec.label('direct' if len(paths[n]) == 2 else 'indirect')
    # --- flow
    if source != target:
        want = flow_between(nodes, m, source, target)
        got = g.get_max_flow(source, target, attr, **kw)
        if want or case['map'] != 'inverse':
            check(close(got, inv(want), 1e-9, 1e-12), 'flow from {} to {} is {!r} instead of {!r}', source, target, got, inv(want))
        rec.label('flow' if want else 'no-flow')
        again = g.get_max_flow(source, target, attr, **kw) if want else got
        check(again == got or close(again, got, 1e-9), 'the flow found again is {!r}, it was {!r}', again, got)
    for e in w:
        check_eq(dict(g.get_edge_attributes(*e)), attrs[e], 'attributes of {} after the searches'.format(e))
    check(set(g.get_edges()) == set(w) and set(g.get_nodes()) == nodes, 'edges or nodes changed by the searches')
    rec.nontrivial(len(nodes) >= 4 and len(w) >= 4)


def walk(path, start, target, m):
    check(path[0] == start and path[-1] == target, 'path {} is not from {} to {}', path, start, target)
    check(len(set(path)) == len(path), 'path {} comes twice through a node', path)
    check(all(e in m for e in zip(path, path[1:])), 'path {} goes where there is no edge', path)


# ------------------------------------------------------ rankings ---------------------------------------------------- #
@gen.cases
def flow_case(d):
    """Disjoint chains from the source to the target, with shortcuts between them: paths found first have to be undone."""
    n = d.int(6, 9)
    inner = d.perm(list(range(2, n)))
    chains, k = [], d.int(2, 3)
    for i in range(k):
        chains.append(inner[i::k])
    small = d.bool()
    cap = lambda: d.int(1, 3) if small else d.logflt(-3, 0)
    edges = []
    for c in chains:
        one = cap()
        for u, v in zip([0] + c, c + [1]):
            edges.append([u, v, one if d.bool(2, 3) else cap()])
    for _ in range(d.int(1, 4)):
        u, v = d.pick(inner), d.pick(inner)
        if u != v:
            edges.append([u, v, cap()])
    return {'edges': edges, 'names': d.perm(list(range(n))), 'map': d.pick(sorted(MAPS)), 'order': d.int(0, 10 ** 6)}


def greedy_flow(nodes, w, s, t):
    """Flow by shortest augmenting paths which are never undone."""
    left, total = dict(w), 0.
    while True:
        prev, queue = {s: None}, [s]
        while queue and t not in prev:
            u = queue.pop(0)
            for v in sorted(nodes):
                if left.get((u, v), 0) > 0 and v not in prev:
                    prev[v] = u
                    queue.append(v)
        if t not in prev:
            return total
        path, v = [], t
        while prev[v] is not None:
            path.append((prev[v], v))
            v = prev[v]
        x = min(left[e] for e in path)
        for e in path:
            left[e] -= x
        total += x


def flow_fn(case, rec):
    from pygmo_fwork.optichem.graph import Graph
    w = {}
    for u, v, x in case['edges']:
        w[ALL[case['names'][u]], ALL[case['names'][v]]] = float(x)
    order = sorted(w)
    random.Random(case['order']).shuffle(order)
    g = Graph()
    for u, v in order:
        g.add_edge(u, v)
        g.update_edge_attributes(u, v, weight=w[u, v])
    g.weights_distributed = True
    nodes = {n for e in w for n in e}
    s, t = ALL[case['names'][0]], ALL[case['names'][1]]
    f, inv = MAPS[case['map']]
    m = {e: f(x) if f else x for e, x in w.items()}
    want = flow_between(nodes, m, s, t)
    got = g.get_max_flow(s, t) if f is None else g.get_max_flow(s, t, weighting_func=f, inverse=inv)
    check(close(got, inv(want) if inv else want, 1e-9, 1e-12), 'flow from {} to {} is {!r} instead of {!r}', s, t, got, inv(want) if inv else want)
    rec.label('undone' if greedy_flow(nodes, m, s, t) < want * (1 - 1e-9) else None)
    rec.nontrivial(len(nodes) >= 6)


SEARCH = ['shortest_path', 'max_bottleneck', 'max_product', 'max_flow']


def score(search, nodes, w, n, target, memo):
    if n not in nodes or target not in nodes:
        return 0.
    if search == 'max_flow':
        return flow_between(nodes, w, n, target)
    if search not in memo:
        if search == 'shortest_path':
            memo[search] = {k: 1 / x if x else INF for k, x in lengths_to(nodes, {e: 1 / x for e, x in w.items()}, target).items()}
        elif search == 'max_product':
            memo[search] = {k: math.exp(-x) for k, x in lengths_to(nodes, {e: max(-math.log(x), 0.) for e, x in w.items()}, target).items()}
        else:
            memo[search] = widths_to(nodes, w, target)
    return memo[search][n]


def rank_fn(case, rec):
    from pygmo_fwork.optichem.graph import ChemistryGraph
    w, ref, pl, rates, fluxes, times, rf, wf, params = c26.make(case)
    cg = ChemistryGraph(w.chem, params, rf, wf)
    r = random.Random(case['search'])
    method, surface = case['methods'][0]
    cg.distribute_weights(method, surface)
    graphs = []
    for g in cg.graphs:
        m = {e: g.get_edge_attributes(*e)['weight'] for e in g.get_edges()}
        graphs.append((m, {n for e in m for n in e}))
    everything = [ref.name(i) for i in ref.ids(special=True)]
    special = {'e', 'M'}
    important = r.sample(everything, r.randint(1, min(3, len(everything))))
    assessed = [n for n in everything if n not in special and n not in important]
    if not assessed:
        return
    for search in r.sample(SEARCH, 2):
        above = any(x > 1 for m, _ in graphs for x in m.values())
        if search == 'max_product' and above:
            continue
        if search == 'max_flow' and (len(everything) > 9 or len(assessed) * len(important) * len(times) > 30):
            continue
        got = cg.get_ranking(list(important), search)
        check_eq(sorted(got.index), sorted(assessed), 'species in the ranking for {}'.format(important))
        got = got.astype(float)  # a missing score might be None
        vals = [float(x) for x in got.values]
        ones = []
        best = {n: -1. for n in assessed}
        rest = {n: None for n in assessed}
        for target in important:
            for m, nodes in graphs:
                memo = {}
                for n in assessed:
                    x = score(search, nodes, m, n, target, memo)
                    if x is None:
                        return
                    best[n] = max(best[n], x)
                    if search == 'max_product' and x > 1 - 1e-12:
                        ones.append(n)
                    elif rest[n] is None or x > rest[n]:
                        rest[n] = x
        for n in assessed:
            x = float(got[n])
            if n in ones:  # paths of no length are left out, as documented
                check(math.isnan(x) and rest[n] is None or close(x, 1., 1e-9) or rest[n] is not None and close(x, rest[n], 1e-9),
                      'score of {} for {} by {} is {!r}', n, important, search, x)
                rec.label('product-of-one')
                continue
            check(close(x, best[n], 1e-9, 1e-12 if search == 'max_flow' else 1e-300),
                  'score of {} for {} by {} ({}) is {!r} instead of {!r}', n, important, search, method, x, best[n])
            rec.label('score' if best[n] else 'unconnected')
        known = [x for x in vals if not math.isnan(x)]
        check(known == sorted(known), 'ranking {} is not ascending', got.to_dict())
        again = cg.get_ranking(important[::-1], search).astype(float)
        check(list(again.index) == list(got.index) or sorted(vals) != sorted(set(vals)) or any(close(a, b) for a, b in zip(vals, vals[1:])),
              'ranking depends on the order of outputs')
        check(all(float(again[n]) == float(got[n]) or math.isnan(got[n]) or close(again[n], got[n]) for n in assessed),
              'scores depend on the order of outputs: {} {}', got.to_dict(), again.to_dict())
        if search == 'shortest_path':
            default = cg.get_ranking(list(important)).astype(float)
            check(list(default.index) == list(got.index) and list(default.values) == list(got.values), 'shortest_path is not the default')
        rec.label(search, 'outputs-%d' % len(important), 'times-%d' % len(times))
        rec.nontrivial(len(assessed) >= 2 and len(set(vals)) >= 2)
    try:
        cg.get_ranking(list(important), 'longest')
    except ValueError:
        pass
    else:
        raise Violation('an unknown search method is accepted')


SUBS = [Sub('graph', graph_case, graph_fn, quick=3000, thorough=60000, shards=4, rule='four or more nodes and edges',
            must_label=('direct', 'indirect', 'no-path', 'flow', 'no-flow')),
        Sub('flow', flow_case, flow_fn, quick=1500, thorough=30000, shards=2, rule='six or more nodes', must_label=('undone',)),
        Sub('ranking', c26.case, rank_fn, quick=700, thorough=12000, shards=8, rule='two or more species with different scores',
            must_label=tuple(SEARCH) + ('score', 'unconnected', 'product-of-one', 'outputs-2', 'times-2'))]
ASSUMPTIONS = ['weights above 1 are not searched by max_product', 'paths of product exactly 1 may be left out by max_product, as its documentation says']
