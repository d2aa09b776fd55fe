"""C18: a run of the model starts from a consistent initial state, or is refused."""
import contextlib
import signal

import numpy as np

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close
from checks import c16

KINDS = [('disable_sp', 4), ('disable_r', 4), ('stick', 1)]


class Slow(BaseException):
    pass


@contextlib.contextmanager
def at_most(seconds):
    """Leaves a numerical integration which does not get anywhere (the case is then not counted)."""
    def handler(*_):
        raise Slow()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def neutral_names(spec):
    return [s['attrs']['name'] for s in spec['species'] if s['k']['q'] == 0]


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=6, max_species=7)
    ops = [] if d.bool() else world.draw_ops(d, 3, KINDS)
    P = plasma.draw_params(d, neutral_names(spec), t_end=d.pick([1e-9, 1e-8]), constant=True)
    return {'spec': spec, 'ops': ops, 'P': P, 'Te': d.weighted([(1., 1), (d.flt(0.1, 8), 2), (2, 1)]),
            'init': d.weighted([('default', 2), ('given', 3)]), 'Y': plasma.draw_state(d),
            'perm': d.int(0, 10 ** 6), 'bad': d.int(0, 7), 'as_int': d.bool(1, 4)}


def fn(case, rec):
    from pygmo_fwork.pygmol.exceptions import InitialSolutionError, ModelSolutionError
    from pygmo_fwork.pygmol.model import Model
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    P = c16.live_params(case['P'], w.ref)
    pl = plasma.Plasma(w.ref, P)
    names, q, N = pl.names, pl.q, len(pl.ids)
    neu = [i for i in range(N) if q[i] == 0]
    if not neu:
        return
    model = Model(w.chem, c16.passed(P))
    given = None
    if case['init'] == 'given':
        y = plasma.make_y(pl, dict(case['Y'], odd=None))
        dens = dict(zip(names, y[:-1]))
        if case['as_int']:
            dens = {k: int(v) + 1 for k, v in dens.items()}
        keys = sorted(names, key=lambda x: hash_of(x, case['perm']))
        given = {k: dens[k] for k in keys}
        if sum(qq * dens[k] for k, qq in zip(names, q)) <= 0:
            return

    # --- what has to be refused
    bad = dict(given or {k: 1e16 if qq >= 0 else 1. for k, qq in zip(names, q)})
    k = case['bad']
    if k == 0:
        bad.pop(names[case['perm'] % N])
    elif k == 1:
        bad['no such species'] = 1.
    elif k == 2:
        bad['e'] = 1.
    elif k == 3:
        bad[names[0] + '_'] = bad.pop(names[0])
    elif k == 4:
        bad = {n: (0. if q[i] > 0 else v) for i, (n, v) in enumerate(zip(names, [bad[x] for x in names]))}
    elif k == 5 and any(x < 0 for x in q):
        bad = {n: (1e18 if q[names.index(n)] < 0 else 1.) for n in bad}
    else:
        bad = None
    if bad is not None:
        snapshot = dict(bad)
        try:
            with at_most(20):
                model.run(init_el_temp=case['Te'], init_n=bad)
        except InitialSolutionError:
            check_eq(bad, snapshot, 'initial densities passed in')
        else:
            raise Violation('inconsistent initial densities (kind {}) are accepted: {}'.format(k, bad))
        rec.label('refused')

    # --- what the run starts from
    snapshot = dict(given) if given is not None else None
    try:
        with at_most(20):
            model.run(init_el_temp=case['Te'], init_n=given)
    except (ModelSolutionError, Slow):
        rec.label('unsolved')
        if model.sol_primary is None:
            return
    check_eq(given, snapshot, 'initial densities passed in')
    y0 = np.array(model.sol_primary[0], dtype=float)
    check_eq(y0.shape, (N + 1,), 'shape of the initial state')
    check(close(model.t[0], 0.), 'the solution starts at {}', model.t[0])
    ne = sum(a * b for a, b in zip(y0[:-1], q))
    mag = sum(a * abs(b) for a, b in zip(y0[:-1], q))
    if given is not None:
        for i, n in enumerate(names):
            check(close(y0[i], float(given[n]), 1e-12), 'initial density of {} is {!r}, asked for {!r}', n, y0[i], given[n])
        rec.label('given')
    else:
        nt = pl.p0 / (plasma.K_B * pl.Tg)
        check(close(float(np.sum(y0[:-1])), nt, 1e-9), 'initial total density {!r}, the pressure and temperature make {!r}',
              float(np.sum(y0[:-1])), nt)
        check((y0[:-1] > 0).all(), 'an initial density is not positive: {}', y0.tolist())
        check(ne > 0 and ne < 1e-9 * nt, 'initial electron density {!r} of {!r}', ne, nt)
        fed = [i for i in range(N) if pl.feeds[i] > 0]
        if fed:
            for i in fed:
                check(close(y0[i] / y0[fed[0]], pl.feeds[i] / pl.feeds[fed[0]], 1e-9), 'feeds {} start with densities {}',
                      [(names[j], pl.feeds[j]) for j in fed], [y0[j] for j in fed])
            rest = [i for i in neu if i not in fed]
            for i in rest:
                check(y0[i] < 1e-9 * nt and close(y0[i], y0[rest[0]], 1e-9), 'species {} which is not fed starts with {!r} of {!r}',
                      names[i], y0[i], nt)
            rec.label('fed')
        else:
            for i in neu:
                check(close(y0[i], y0[neu[0]], 1e-9), 'neutral species start with different densities: {}',
                      [(names[j], y0[j]) for j in neu])
            rec.label('unfed')
        for sgn in (1, -1):
            ions = [i for i in range(N) if q[i] * sgn > 0]
            for i in ions:
                check(close(y0[i], y0[ions[0]], 1e-9), 'ions of one sign start with different densities: {}',
                      [(names[j], y0[j]) for j in ions])
        if any(x < 0 for x in q):
            rec.label('negative-ion')
        rec.label('default')
    want = 1.5 * ne * case['Te']
    check(close(y0[-1], want, 1e-9, atol=1e-9 * 1.5 * case['Te'] * mag), 'initial electron energy density {!r}, {} eV make {!r}',
          y0[-1], case['Te'], want)
    first = model.get_solution().iloc[0]
    if ne > 1e-6 * mag and case['Te'] > 1.01 * plasma.K_B * pl.Tg / plasma.E_CH:
        check(close(first['Te'], case['Te'], 1e-6), 'initial electron temperature {!r} instead of {}', first['Te'], case['Te'])
    rec.nontrivial(len(neu) >= 2 or given is not None)


def hash_of(x, k):
    import hashlib
    return hashlib.sha256('{}|{}'.format(k, x).encode()).hexdigest()


SUBS = [Sub('initial', case, fn, quick=500, thorough=6000, shards=8,
            rule='initial densities given, or at least two neutral species share the default ones',
            must_label=('given', 'default', 'fed', 'unfed', 'refused', 'negative-ion'))]
ASSUMPTIONS = ['feed gases are neutral; the initial state is read from the first frame of a real run of 1e-9 to 1e-8 s',
               'runs which the solver does not finish within 20 s are not judged']
