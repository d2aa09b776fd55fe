"""C23: production and consumption processes of a species are exactly those of the equations, sorted and named."""
import io
from contextlib import redirect_stdout

import numpy as np
import pandas as pd

import gen
import plasma
import world
from core import Sub, Violation, check, check_eq, close
from checks import c16

UNITS = {'m-3/s': 1, 'm-3.s-1': 1, 'm-3s-1': 1, 'cm-3/s': 1e-6, 'cm-3.s-1': 1e-6, 'cm-3s-1': 1e-6}


@gen.cases
def case(d):
    spec = gen.draw_chemistry(d, rich=True, realistic=True, max_reactions=8, large=20, excited=d.bool(2, 3))
    ops = [] if d.bool(1, 3) else world.draw_ops(d, 4, c16.KINDS)
    names = [s['attrs']['name'] for s in spec['species'] if s['k']['name'] not in ('e', 'M')]
    return {'spec': spec, 'ops': ops, 'P': plasma.draw_params(d, names), 'Y': plasma.draw_state(d), 'how': [d.int(0, 2) for _ in range(8)],
            'made': d.weighted([(None, 2), (d.int(0, 10 ** 6), 1)]), 't': d.bool(), 'mp': d.bool(), 'perm': d.bool(1, 4),
            'print': [[d.int(0, 30), d.weighted([(None, 1), (d.int(0, 8), 2)]), d.pick(sorted(UNITS)), d.bool(), d.bool(3, 4)]
                      for _ in range(3)], 'bad': d.int(0, 3), 'at': d.int(0, 30)}


def made_up(seed, n):
    import random
    r = random.Random(seed)
    return [r.choice((0., 1., 10 ** r.uniform(-15, 25), 10 ** r.uniform(15, 20))) for _ in range(n)]


def fn(case, rec):
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    from pygmo_fwork.results import ResultsParser as RP
    w = world.World(case['spec'])
    for op in case['ops']:
        w.apply(op)
    ref, chem = w.ref, w.chem
    P = c16.live_params(case['P'], ref)
    pl = plasma.Plasma(ref, P)
    N, R = len(pl.ids), len(pl.rids)
    if case['made'] is None:
        o = pl.evaluate(plasma.make_y(pl, case['Y']))
        if not c16.usable(o) or not o['ok']:
            return
        rates, fluxes = o['reaction_rates'], o['wall_fluxes']
        vol_sum, dif_sum = o['volumetric_source_rates'], o['diffusion_source_rates']
        rec.label('state')
    else:
        o, x = None, made_up(case['made'], N + R)
        rates, fluxes = x[:R], [-a if pl.s[k] else 0. for k, a in enumerate(x[R:])]
        rec.label('made-up')
    rframe = pd.Series(rates, index=list(pl.rids), dtype=float)
    wframe = pd.Series(fluxes, index=list(pl.names), dtype=float)
    if case['perm']:
        rframe = rframe.iloc[::-1]
    if case['t']:
        rframe = pd.concat([pd.Series([0.5], index=['t']), rframe])
        wframe = pd.concat([pd.Series([0.5], index=['t']), wframe])
    params = ModelParameters(dict(P)) if case['mp'] else dict(P)
    r0, w0 = rframe.copy(), wframe.copy()
    scale = pl.area / pl.V
    everything = {}
    for k, i in enumerate(pl.ids + [pl.e] + ([pl.M] if pl.M is not None and pl.M in ref.es else [])):
        sp = w.ref_to(i, case['how'][k % 8])
        # --- in the volume
        want = {}
        for j, r in enumerate(pl.rids):
            net = ref.stoich(r, i, 'net')
            if net:
                want[r] = net * rates[j]
        got = RP.get_volumetric_rates(sp, chem, rframe)
        label = ref.name(i)
        check_eq(sorted(int(x) for x in got.index), sorted(want), 'volume processes of ' + label)
        for r, v in got.items():
            check(close(v, want[r], 1e-12), 'rate of reaction {} for {} is {!r} instead of {!r}', r, label, v, want[r])
        check(list(got.values) == sorted(got.values, reverse=True), 'volume rates of {} are not sorted: {}', label, list(got.values))
        ann = RP.get_volumetric_rates(sp, chem, rframe, annotate=True)
        vnames = {'{: <10}{}'.format('R%d' % r, chem.get_reaction(r)): want[r] for r in want}
        check(len(ann) == len(vnames) and all(a in vnames and close(v, vnames[a], 1e-12) for a, v in ann.items()),
              'annotated volume processes of {}: {}', label, ann.to_dict())
        # --- on the surface
        swant = {}
        if i in pl.ids:
            for j, s in enumerate(pl.ids):
                sink = fluxes[j] * scale
                v = -(pl.rc[s] or {}).get(ref.name(i), 0.) * sink + (sink if s == i else 0.)
                swant[s] = (v, abs(sink) * (1 + (pl.rc[s] or {}).get(ref.name(i), 0.)))
        sgot = RP.get_surface_rates(sp, chem, params, wframe)
        for s, v in sgot.items():
            check(int(s) in swant and close(v, swant[int(s)][0], 1e-9, 1e-12 * swant[int(s)][1]),
                  'surface rate of {} from {} is {!r} instead of {!r}', label, s, v, swant.get(int(s)))
            check(v != 0, 'surface process with a rate of zero')
        for s, (v, mag) in swant.items():
            check(s in sgot.index or abs(v) <= 1e-9 * mag, 'surface process of {} from {} with rate {!r} is missing', label, s, v)
        check(list(sgot.values) == sorted(sgot.values, reverse=True), 'surface rates of {} are not sorted: {}', label, list(sgot.values))
        sann = RP.get_surface_rates(sp, chem, params, wframe, annotate=True)
        snames = {}
        for s in swant:
            text = '{} + wall > wall'.format(label) if s == i else '{} + wall > {} + wall'.format(ref.name(s), label)
            snames['{: <10}{}'.format('S%d' % s, text)] = s
        check_eq(sorted(sann.index), sorted(x for x, s in snames.items() if s in sgot.index), 'names of surface processes of ' + label)
        check(all(close(v, sgot[snames[x]], 1e-12) for x, v in sann.items()), 'annotated surface processes of {}: {}', label, sann.to_dict())
        if o is not None and i in pl.ids:
            n = pl.ids.index(i)
            check(close(got.sum(), vol_sum[n], 1e-9, 1e-10 * o['~volumetric_source_rates'][n]),
                  'volume processes of {} add up to {!r}, its source rate is {!r}', label, got.sum(), vol_sum[n])
            check(close(sgot.sum(), dif_sum[n], 1e-6, 1e-9 * o['~diffusion_source_rates'][n]),
                  'surface processes of {} add up to {!r}, its diffusion source rate is {!r}', label, sgot.sum(), dif_sum[n])
        everything[i] = dict([(x, float(v)) for x, v in ann.items()] + [(x, float(v)) for x, v in sann.items()])
        if i in pl.ids and len([s for s in swant if s in sgot.index]) >= 2:
            rec.label('returned-from-others')
    if any(v is not None for v in pl.rc.values()) and any(fluxes):
        rec.label('walls')
    # --- printed
    keys = list(everything)
    for at, n, unit, production, cap in case['print']:
        i = keys[at % len(keys)]
        f = RP.print_production_processes if production else RP.print_consumption_processes
        out = io.StringIO()
        with redirect_stdout(out):
            f(w.ref_to(i, at % 3), chem, params, rframe, wframe, **({'n': n} if cap and n is not None else {}), unit=unit)
        n = n if cap else None
        sign = 1 if production else -1
        want = sorted(((v * sign, x) for x, v in everything[i].items() if v * sign > 0), reverse=True)
        lines = [ln for ln in out.getvalue().splitlines() if ln.strip()]
        check('[{}]'.format(unit) in lines[0], 'heading {!r}', lines[0])
        body = [ln for ln in lines[1:] if ln.strip() != '...' and not ln.startswith('Series([]')]
        shown = len(want) if n is None else min(n, len(want))
        check_eq(len(body), shown, 'number of printed processes of {}'.format(ref.name(i)))
        check_eq(any(ln.strip() == '...' for ln in lines), shown < len(want), 'mark that there are more processes')
        last = None
        values = dict((x, v) for v, x in want)
        for ln in body:
            hit = [x for x in values if ln.startswith(x)]
            hit = sorted(hit, key=len)[-1:]
            check(hit, 'printed process {!r} is none of {}', ln, list(values))
            v = values.pop(hit[0])
            printed = float(ln[len(hit[0]):].strip())
            check(close(printed, sign * v * UNITS[unit], 1e-3, 2e-6), 'printed rate of {!r} is {!r}, it is {!r}', hit[0], printed, sign * v * UNITS[unit])
            check(last is None or v <= last, 'printed processes are not sorted: {}', body)
            last = v
        if values and last is not None:
            check(max(values.values()) <= last, 'a more prominent process is left out: {}', out.getvalue())
        if shown < len(want):
            rec.label('capped')
        if shown > 1:
            rec.label('printed')
    check(r0.equals(rframe) and w0.equals(wframe), 'frames passed in were changed')
    # --- results of something else
    k = case['bad']
    bad_r, bad_w = rframe, wframe
    if k == 0:
        bad_r = rframe.drop(pl.rids[case['at'] % R])
    elif k == 1:
        bad_r = pd.concat([rframe, pd.Series([1.], index=[max(ref.rorder) + 3])])
    elif k == 2:
        bad_w = wframe.drop(pl.names[case['at'] % N])
    else:
        bad_w = pd.concat([wframe, pd.Series([1.], index=['no such species'])])
    try:
        RP.get_volumetric_rates(pl.ids[0], chem, bad_r) if k < 2 else RP.get_surface_rates(pl.ids[0], chem, params, bad_w)
    except AssertionError as e:
        if isinstance(e, Violation):
            raise
    else:
        raise Violation('results of another chemistry are accepted')
    rec.nontrivial(R >= 2 and any(len(v) >= 2 for v in everything.values()))


SUBS = [Sub('rates', case, fn, quick=900, thorough=12000, shards=8, rule='two or more reactions, and a species with two or more processes',
            must_label=('state', 'made-up', 'walls', 'returned-from-others', 'capped', 'printed'))]
ASSUMPTIONS = ['species which are enabled; frames as the result tables order them']
