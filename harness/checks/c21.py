"""C21: model parameters are accepted exactly when legal, answer under every alias, and are frozen."""
import copy
import pickle

import numpy as np
import pandas as pd

import gen
from core import Sub, Violation, check, check_eq

ALIASES = {'radius': ('r', 'R'), 'length': ('z', 'Z'), 'pressure': ('p',), 'power': ('P',),
           't_power': ('t_P', 'time_P', 'time_power'), 'temp_gas': ('Tg', 'T_g', 'gas_temp'), 'feeds': ('feed_flows',),
           't_end': ('time_end', 'end_time')}
KEYS = list(ALIASES)
NUMBERS = ['radius', 'length', 'pressure', 'temp_gas', 't_end']
NAMES = ['Ar', 'O2', 'N2', 'CF4', 'He', 'O2*', 'strange name', '']
FAULTS = ['missing', 'unknown', 'number-type', 'number-sign', 'nan', 'power-type', 'power-value', 'power-negative', 'time-value',
          'short', 'lengths', 'late-start', 'early-end', 'feeds-type', 'feeds-key', 'feeds-value', 'feeds-sign']
BAD = [None, '1', True, False, 'nan', [1.0], {}, 'abc', b'1']
ERR = {'missing': 'P', 'unknown': 'P', 'short': 'C', 'lengths': 'C', 'late-start': 'C', 'early-end': 'C'}


def draw_number(d):
    return d.weighted([(d.flt(0.001, 10), 3), (d.logflt(-6, 6), 3), (d.int(1, 1000), 2), (1e-300, 1), (1, 1)])


@gen.cases
def case(d):
    n = d.weighted([(2, 3), (3, 2), (d.int(4, 9), 2)])
    te = draw_number(d)
    te = te if te > 1e-200 else 1e-9
    T = sorted(d.flt(0, 1) for _ in range(n - 2))
    T = [d.pick([0, 0., -1, -1e-9])] + [x * te for x in T] + [d.weighted([('exact', 2), (2 * te, 2), (1.11 * te, 1), (1e6 * te, 1)])]
    c = {'values': {k: draw_number(d) for k in NUMBERS}, 'power': [d.weighted([(0, 1), (0., 1), (d.flt(0, 3000), 3), (d.int(1, 9), 1)])
                                                               for _ in range(n)],
         't_power': T, 'feeds': {f: draw_number(d) for f in d.subset(NAMES, 1, 3)},
         'alias': {k: d.int(0, 3) for k in KEYS}, 'kwargs': [k for k in KEYS if d.bool(1, 3)], 'order': d.perm(KEYS),
         'override': [k for k in KEYS if d.bool(1, 5)], 'no_dict': d.bool(1, 6),
         'seq': [d.pick(['list', 'tuple', 'array', 'series']) for _ in range(2)], 'numpy': d.bool(1, 4),
         'fault': d.weighted([(None, 2), (d.pick(FAULTS), 3)]), 'at': d.int(0, 60), 'bad': d.int(0, len(BAD) - 1), 'amount': d.flt(0, 0.999)}
    c['values']['t_end'] = te
    return c


def seq(kind, xs):
    return {'list': list, 'tuple': tuple, 'array': np.array, 'series': lambda v: pd.Series(v, index=range(5, 5 + len(v)))}[kind](xs)


def bad_value(k):
    v = BAD[k % len(BAD)]
    return float('nan') if v == 'nan' else v


def fn(case, rec):
    from pygmo_fwork.pygmol import exceptions as ex
    from pygmo_fwork.pygmol.model_parameters import ModelParameters
    errors = {'P': ex.ModelParametersError, 'T': ex.ModelParametersTypeError, 'C': ex.ModelParametersConsistencyError}
    te = case['values']['t_end']
    T = [1.1 * te if t == 'exact' else t for t in case['t_power']]
    want = dict(case['values'], power=list(case['power']), t_power=T, feeds=dict(case['feeds']))
    f, at, amount = case['fault'], case['at'], case['amount']
    key = KEYS[at % len(KEYS)]
    num = NUMBERS[at % len(NUMBERS)]
    n = len(T)
    extra = None
    given = dict(want, power=list(want['power']), t_power=list(T), feeds=dict(want['feeds']))
    i = at % n
    if f == 'missing':
        given.pop(key)
    elif f == 'unknown':
        extra = ['Radius', 'tg', 'pressure ', 'powers', 'x', 'T', 'POWER', 't'][at % 8]
    elif f == 'number-type':
        given[num] = bad_value(case['bad'])
    elif f == 'number-sign':
        given[num] = [0, 0., -given[num]][at % 3]
    elif f == 'nan':
        given[num] = float('nan')
    elif f == 'power-type':
        given[['power', 't_power'][at % 2]] = [1., None, 'abcd', b'abcd', True][case['bad'] % 5]
    elif f in ('power-value', 'time-value'):
        given['power' if f == 'power-value' else 't_power'][i] = bad_value(case['bad'])
    elif f == 'power-negative':
        given['power'][i] = -1e-12 - amount
    elif f == 'short':
        k = 'power' if at % 2 else 't_power'
        both = at % 3 == 0
        for x in (('power', 't_power') if both else (k,)):
            given[x] = given[x][:at % 5 % 2]
    elif f == 'lengths':
        k = 'power' if at % 2 else 't_power'
        given[k] = given[k] + given[k][-1:] if n == 2 or at % 3 else given[k][:-1] if k == 'power' else given[k][:1] + given[k][2:]
    elif f == 'late-start':
        given['t_power'][0] = te * 1e-9 * (1 + amount)
        if n > 2 and case['bad'] % 2:
            given['t_power'][1 + at % (n - 2)] = -te * amount  # an earlier time further on does not start the profile
    elif f == 'early-end':
        given['t_power'][-1] = te * (1.0999 if at % 2 else amount)
        if n > 2 and case['bad'] % 2:
            given['t_power'][1 + at % (n - 2)] = 2 * te  # a later time further up does not end the profile
    elif f == 'feeds-type':
        given['feeds'] = [[], None, 'Ar', ('Ar', 1.), 3, {'Ar'}][at % 6]
    elif f == 'feeds-key':
        given['feeds'][[None, 1, 2.5, ('Ar',), b'Ar', True][at % 6]] = 1.
    elif f == 'feeds-value':
        given['feeds'][NAMES[at % len(NAMES)]] = bad_value(case['bad'])
    elif f == 'feeds-sign':
        given['feeds'][NAMES[at % len(NAMES)]] = [0, -1, -1e-9, 0.][at % 4]
    kinds = case['seq']
    plain = f is None or f in ('missing', 'unknown', 'number-type', 'number-sign', 'nan', 'feeds-type', 'feeds-key', 'feeds-value',
                               'feeds-sign', 'power-negative', 'late-start', 'early-end', 'lengths', 'short')
    for k, kind in zip(('power', 't_power'), kinds):
        if k in given and isinstance(given[k], list) and plain:
            given[k] = seq(kind, given[k])
        elif k in given and isinstance(given[k], list) and kind == 'tuple':
            given[k] = tuple(given[k])
    if case['numpy'] and plain:
        for k in NUMBERS:
            if type(given.get(k)) is float:
                given[k] = np.float64(given[k])
    name = {k: ((k,) + ALIASES[k])[case['alias'][k] % (1 + len(ALIASES[k]))] for k in KEYS}
    first, kwargs = {}, {}
    for k in case['order']:
        if k not in given:
            continue
        if case['no_dict'] or k in case['kwargs']:
            kwargs[name[k]] = given[k]
            if k in case['override'] and not case['no_dict']:
                first[name[k]] = 'to be replaced'  # the keyword argument counts
        else:
            first[name[k]] = given[k]
    if extra is not None:
        (kwargs if at % 2 else first)[extra] = 1.
    args = [] if case['no_dict'] and not first else [first]
    before = repr((first, kwargs))
    try:
        mp = ModelParameters(*args, **kwargs)
    except (ex.ModelParametersError, ex.ModelParametersTypeError, ex.ModelParametersConsistencyError) as e:
        check(f is not None, 'legal parameters {} {} are refused: {!r}', first, kwargs, e)
        allowed = [errors[ERR.get(f, 'T')]]
        if f in ('short', 'lengths'):
            allowed = [errors['C']]
        check(type(e) in allowed, 'parameters with fault {!r} raise {!r}', f, e)
        check_eq(repr((first, kwargs)), before, 'arguments after a refusal')
        rec.label('refused', f)
        rec.nontrivial()
        return
    check(f is None, 'parameters with fault {!r} are accepted: {} {}', f, first, kwargs)
    check_eq(repr((first, kwargs)), before, 'arguments')
    rec.label('accepted')
    rec.nontrivial(len(kwargs) > 0 or any(name[k] != k for k in KEYS))

    def verify(when, mp=mp):
        for k in KEYS:
            for a in (k,) + ALIASES[k]:
                got = mp[a]
                check(type(got) is (list if k in ('power', 't_power') else dict if k == 'feeds' else type(given[k])),
                      '{}: parameter {!r} is a {}', when, a, type(got))
                check_eq(got, want[k], '{}: parameter {!r}'.format(when, a))
        check_eq(sorted(mp), sorted(KEYS), when + ': iterating')
        check_eq(sorted(mp.keys()), sorted(KEYS), when + ': keys')
        check_eq(len(mp), len(KEYS), when + ': length')
        check_eq(dict(mp), want, when + ': as a dictionary')
        check_eq(dict(mp.items()), want, when + ': items')
        check(sorted(map(repr, mp.values())) == sorted(map(repr, dict(mp).values())), '{}: values {!r}', when, list(mp.values()))

    verify('new')
    for k in ('power', 't_power'):  # what the caller passed in and was handed out is not shared
        v = given[k]
        if isinstance(v, list):
            v[0] = 77.
            v.append(5.)
        elif isinstance(v, np.ndarray):
            v[:] = 77
        elif isinstance(v, pd.Series):
            v.iloc[0] = 77.
        got = mp[k]
        got[0] = -99.
        got.append(3.)
    given['feeds']['Ar'] = -5.
    given['feeds'].pop('O2', None)
    mp['feeds']['O2'] = 'nonsense'
    mp['feeds'].clear()
    for v in mp.values():
        if isinstance(v, dict):
            v.clear()
    for k, v in mp.items():
        if isinstance(v, (dict, list)):
            v.clear()
    for a in (name[key], key, 'new'):
        for change in (lambda: mp.__setitem__(a, want.get(key)), lambda: mp.__delitem__(a)):
            try:
                change()
            except (TypeError, KeyError):
                pass
            else:
                raise Violation('item {!r} of the model parameters can be changed'.format(a))
    for a in ('Radius', 'e', 'powers'):
        try:
            mp[a]
        except ex.ModelParametersError:
            pass
        else:
            raise Violation('unsupported parameter {!r} is answered'.format(a))
    verify('after attempts to change')
    # the parameters are good for making others of
    radius = want['radius']
    again, changed = ModelParameters(mp), ModelParameters(mp, radius=radius * 2)
    verify('made of the others', again)
    check_eq(changed['r'], radius * 2, 'parameter replaced by a keyword')
    check_eq({k: v for k, v in dict(changed).items() if k != 'radius'}, {k: v for k, v in want.items() if k != 'radius'}, 'the other parameters')
    for how in (copy.copy, copy.deepcopy, lambda m: pickle.loads(pickle.dumps(m)), lambda m: ModelParameters(**m)):
        verify('copied', how(mp))
    verify('after copying')


SUBS = [Sub('params', case, fn, quick=6000, thorough=100000, shards=4,
            rule='refused for an injected fault, or accepted with an alias or keyword arguments',
            must_label=('accepted', 'refused') + tuple(FAULTS))]
ASSUMPTIONS = ['each parameter is given once (or the same key in both dictionary and keywords); at most one fault is injected']
