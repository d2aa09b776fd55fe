"""Reference model of a chemistry's state, an interpreter of operation histories, and full observations.

`World` drives a real chemistry and the reference in lockstep.  The reference knows only the spec (what the user passed
in) and the documented rules; it never calls the code under test.
"""
import copy

import numpy as np

import gen
from core import Violation, check, check_eq, close


class RefState:
    def __init__(self, spec, charged=True):
        self.spec = spec
        self.charged = charged
        self.sp = {s['id']: s for s in spec['species']}
        self.order = [s['id'] for s in spec['species']]
        self.rorder = [r['id'] for r in spec['reactions']]
        pos = [s['id'] for s in spec['species']]
        self.r = {}
        for r in spec['reactions']:
            self.r[r['id']] = dict(r, L=[pos[i] for i in r['lhs']], R=[pos[i] for i in r['rhs']])
        self.by_name = {s['attrs']['name']: s['id'] for s in spec['species']}
        self.es, self.er = set(self.order), set(self.rorder)
        self.prot, self.adprot = set(), set()
        self.late = set()  # protected when they were disabled already
        self.stick, self.ret, self.arrh = {}, {}, {}
        if charged:
            self.prot.add(self.by_name['e'])
            ions = self.ions()
            if len(ions) == 1:
                self.prot.add(ions[0])

    def clone(self):
        c = copy.copy(self)
        for k in ('es', 'er', 'prot', 'adprot', 'late'):
            setattr(c, k, set(getattr(self, k)))
        for k in ('stick', 'ret', 'arrh'):
            setattr(c, k, copy.deepcopy(getattr(self, k)))
        return c

    def key(self):
        return (frozenset(self.es), frozenset(self.er), frozenset(self.prot), frozenset(self.adprot),
                repr(sorted(self.stick.items())), repr(sorted((k, sorted(v.items())) for k, v in self.ret.items())),
                repr(sorted(self.arrh.items())))

    def is_special(self, i):
        return self.sp[i]['attrs']['name'] in ('e', 'M')

    def ions(self, among=None):
        return [i for i in self.order if not self.is_special(i) and self.sp[i]['k']['q'] > 0
                and (among is None or i in among)]

    def fixpoint(self, sps, rs):
        es, er = self.es - set(sps), self.er - set(rs)
        while True:
            er2 = {r for r in er if all(x in es for x in self.r[r]['L'] + self.r[r]['R'])}
            es2 = {s for s in es if any(s in self.r[r]['L'] or s in self.r[r]['R'] for r in er2)}
            if (es2, er2) == (es, er):
                return es, er
            es, er = es2, er2

    def would_refuse(self, sps, rs):
        if not (set(sps) & self.es) and not (set(rs) & self.er):
            return False
        es, _ = self.fixpoint(sps, rs)
        if (self.es - es) & (self.prot | self.adprot):
            return True
        return self.charged and not self.ions(es)

    def disable(self, sps, rs):
        """Returns False (and changes nothing) if refused."""
        if not (set(sps) & self.es) and not (set(rs) & self.er):
            return True
        if self.would_refuse(sps, rs):
            return False
        self.es, self.er = self.fixpoint(sps, rs)
        left = self.ions(self.es)
        if self.charged and len(left) == 1:
            self.adprot.add(left[0])
        return True

    def reset(self):
        self.es, self.er, self.adprot, self.late = set(self.order), set(self.rorder), set(), set()

    # --------------------------------------------- expected observations ------------------------------------------ #
    def ids(self, disabled=False, special=False, protected=True):
        return [i for i in self.order if (disabled or i in self.es) and (special or not self.is_special(i))
                and (protected or i not in self.prot | self.adprot)]

    def rids(self, disabled=False):
        return [i for i in self.rorder if disabled or i in self.er]

    def name(self, i):
        return self.sp[i]['attrs']['name']

    def stick_coef(self, i):
        return float(self.stick[i]) if i in self.stick else gen.stick_of(self.sp[i])

    def ret_coefs(self, i):
        own = gen.ret_of(self.sp[i])
        out = dict(self.ret[i]) if i in self.ret else own
        if out is None:
            return None
        if self.stick_coef(i) == 0.:
            return {}
        return {n: float(c) for n, c in out.items() if self.by_name[n] in self.es}

    def arrh_a(self, r, si=True):
        rx = self.r[r]
        a = self.arrh[r] if r in self.arrh else rx['attrs'].get('arrh_a')
        if a is None:
            return None
        a = gen.fnum(a)
        return a * gen.SI[rx['units']['arrh_a']] if si else a

    def stoich(self, r, i, method):
        rx = self.r[r]
        lo, hi = rx['L'].count(i), rx['R'].count(i)
        return {'lhs': lo, 'rhs': hi, 'net': hi - lo}[method]


# ---------------------------------------------------- histories ---------------------------------------------------- #

def draw_ops(d, n_max=8, kinds=None):
    """A history; operands are big integers resolved modulo what exists when the operation is applied."""
    kinds = kinds or [('disable_sp', 5), ('disable_r', 6), ('disable_mix', 3), ('protect', 2), ('reset', 1),
                      ('unknown', 1), ('stick', 2), ('ret', 2), ('arrh', 2), ('reset_adhoc', 1)]
    ops = []
    for _ in range(d.int(1, n_max)):
        k = d.weighted(kinds)
        op = {'op': k, 'a': [d.int(0, 40) for _ in range(d.weighted([(1, 6), (2, 3), (3, 1)]))],
              'how': d.int(0, 2)}
        if k.startswith('disable'):
            op['acc'] = d.int(0, 3) > 0
        if k == 'disable_mix':
            op['b'] = [d.int(0, 40) for _ in range(d.int(1, 2))]
        if k == 'stick':
            op['v'] = d.weighted([(0., 2), (1., 1), (d.flt(0, 1), 3), (d.flt(0, 1) / 3, 1)])
        if k == 'ret':
            op['v'] = [[d.int(0, 40), d.flt(0, 2) / d.pick([1, 1, 3])] for _ in range(d.int(0, 3))]
        if k == 'arrh':
            op['v'] = d.weighted([(0., 1), (d.flt(0, 10), 2), (d.logflt(-30, 3), 2), (d.logflt(-30, 3) / 3, 1)])
        if k in ('stick', 'arrh', 'ret'):
            op['t'] = d.weighted([(0, 3), (1, 2), (2, 2), (3, 2), (4, 1)])  # 4: None, i.e. no override
        if k == 'reset_adhoc':
            op['v'] = d.int(0, 5)
        if k == 'unknown':
            op['v'] = d.int(0, 11)
        ops.append(op)
    return ops


def typed(v, t):
    if t == 1:
        return np.float64(v)
    if t == 2 and float(v) == int(v):
        return int(v)
    if t == 4:
        return None
    if t == 3:
        return repr(float(v))
    return float(v)


class World:
    def __init__(self, spec, cls=None, charged=True, xml_path=None):
        self.spec = spec
        self.chem = gen.build(spec, cls, xml_path)
        self.ref = RefState(spec, charged)

    def ref_to(self, i, how):
        """A species identifier of the documented kinds: id, name, RP instance."""
        if how == 1:
            return self.ref.name(i)
        if how == 2:
            return self.chem.get_rp(i)
        return i

    def resolve_species(self, op):
        return [self.ref.order[x % len(self.ref.order)] for x in op['a']]

    def resolve_disable(self, op):
        """Operands of a disabling; those flagged 'acc' move on to the next target which can be removed (if any)."""
        ref = self.ref
        sps, rs = [], []
        for x in (op['a'] if op['op'] != 'disable_r' else []):
            n = len(ref.order)
            cand = [ref.order[(x + j) % n] for j in range(n)]
            if op.get('acc'):
                ok = [c for c in cand if c in ref.es and not ref.would_refuse(sps + [c], rs)]
                if ok or sps:
                    cand = ok
            sps += cand[:1]
        for x in (op['a'] if op['op'] == 'disable_r' else op.get('b', [])):
            n = len(ref.rorder)
            cand = [ref.rorder[(x + j) % n] for j in range(n)]
            if op.get('acc'):
                ok = [c for c in cand if c in ref.er and not ref.would_refuse(sps, rs + [c])]
                if ok or sps or rs:
                    cand = ok
            rs += cand[:1]
        # whether a species which is both disabled and protected may be named beside others is left unspecified
        sps = [i for i in sps if i not in ref.prot - ref.es]
        return sps, rs

    def apply(self, op):
        """Applies one operation to both; returns a label of what happened ('refused', 'ok', 'noop' …)."""
        from plaschem import exceptions as X
        ref, chem, how = self.ref, self.chem, op['how']
        k = op['op']
        if k in ('disable_sp', 'disable_r', 'disable_mix'):
            sps, rs = self.resolve_disable(op)
            kw = {}
            if sps:
                kw['species'] = tuple(self.ref_to(i, (how + n) % 3 if how else 0) for n, i in enumerate(sps))
            if rs:
                kw['reactions'] = tuple(rs)
            before = (set(ref.es), set(ref.er))
            ok = ref.disable(sps, rs)
            try:
                chem.disable(**kw)
                got = True
            except X.ChemistryDisableError:
                got = False
            check(got == ok, 'disable({}) was {} where the reference says {}', {k: [str(x) for x in v] for k, v in kw.items()},
                  'accepted' if got else 'refused', 'accepted' if ok else 'refused')
            if not ok:
                return 'refused'
            if (ref.es, ref.er) == before:
                return 'noop'
            asked = set(sps) & before[0]
            askedr = set(rs) & before[1]
            extra_s, extra_r = before[0] - ref.es - asked, before[1] - ref.er - askedr
            if extra_s and extra_r:
                return 'cascade'
            return 'cascade-r' if extra_r else 'cascade-s' if extra_s else 'plain'
        if k in ('protect', 'protect_any'):
            sps = [i for i in self.resolve_species(op) if i in ref.es or k == 'protect_any']
            ref.late |= set(sps) - ref.es
            chem.set_protected_species(*[self.ref_to(i, (how + n) % 3 if how else 0) for n, i in enumerate(sps)])
            ref.prot |= set(sps)
            return 'protect-disabled' if set(sps) - ref.es else 'protect'
        if k == 'reset':
            chem.reset()
            ref.reset()
            return 'reset'
        if k == 'unknown':
            bad_id = max(ref.order + ref.rorder) + 7
            good_r, good_s = ref.rorder[op['a'][0] % len(ref.rorder)], ref.order[op['a'][0] % len(ref.order)]
            heavy = self._ordinary(op['a'][-1])
            name = ref.name(heavy)
            # the first of two reasons to refuse may be stated
            either = (X.ChemistryReactionNotPresentError, X.ChemistryDisableError)
            v = op['v']
            calls = [
                (X.ChemistrySpeciesNotPresentError, lambda: chem.disable(species=(good_s, bad_id))),
                (X.ChemistrySpeciesNotPresentError, lambda: chem.disable(species=('no such species',))),
                (X.ChemistryReactionNotPresentError, lambda: chem.disable(reactions=(good_r, bad_id))),
                (X.ChemistrySpeciesNotPresentError, lambda: chem.disable(species=(bad_id,), reactions=(good_r,))),
                (X.ChemistryReactionNotPresentError, lambda: chem.set_adhoc_reactions_attributes('arrh_a', bad_id, 1.)),
                (X.ChemistrySpeciesNotPresentError, lambda: chem.set_adhoc_species_attributes('stick_coef', bad_id, 1.)),
                (either, lambda: chem.disable(species=(heavy,), reactions=(bad_id,))),
                (either, lambda: chem.disable(species=(heavy,), reactions=(good_r, bad_id))),
                (X.ChemistrySpeciesNotPresentError, lambda: chem.set_protected_species(heavy, 'no such species')),
                (X.ChemistrySpeciesNotPresentError, lambda: chem.set_protected_species(heavy, bad_id)),
                (X.ChemistrySpeciesNotPresentError, lambda: chem.set_protected_species(name, bad_id)),
                (X.ChemistrySpeciesNotPresentError, lambda: chem.set_protected_species(name, 'no such species', heavy)),
            ]
            exc, call = calls[v % len(calls)]
            try:
                call()
            except exc:
                return 'unknown'
            raise Violation('an unknown species or reaction was accepted (call {})'.format(v % len(calls)))
        if k == 'stick':
            i = self._ordinary(op['a'][0])
            chem.set_adhoc_species_attributes('stick_coef', self.ref_to(i, how), typed(op['v'], op['t']))
            if op['t'] == 4:
                ref.stick.pop(i, None)
            else:
                ref.stick[i] = float(op['v'])
            return 'adhoc'
        if k == 'ret':
            i = self._ordinary(op['a'][0])
            pool = [j for j in ref.order if j in ref.es and not ref.is_special(j)]
            special = [j for j in ref.order if j in ref.es and ref.is_special(j)]  # accepted, though without effect
            val = {}
            for x, c in op['v']:
                if x >= 38 and special:
                    val[ref.name(special[x % len(special)])] = c
                elif pool:
                    val[ref.name(pool[x % len(pool)])] = c
            if op['t'] == 4:
                chem.set_adhoc_species_attributes('ret_coefs', self.ref_to(i, how), None)
                ref.ret.pop(i, None)
                return 'adhoc'
            chem.set_adhoc_species_attributes('ret_coefs', self.ref_to(i, how), {n: typed(c, op['t']) for n, c in val.items()})
            ref.ret[i] = {n: float(c) for n, c in val.items()}
            return 'adhoc'
        if k == 'arrh':
            i = ref.rorder[op['a'][0] % len(ref.rorder)]
            if ref.r[i]['attrs'].get('arrh_a') is None:
                return 'noop'
            chem.set_adhoc_reactions_attributes('arrh_a', i, typed(op['v'], op['t']))
            if op['t'] == 4:
                ref.arrh.pop(i, None)
            else:
                ref.arrh[i] = float(op['v'])
            return 'adhoc'
        if k == 'reset_adhoc':
            v = op['v']
            if v == 0:
                chem.reset_adhoc_species_attributes('stick_coef')
                ref.stick = {}
            elif v == 1:
                chem.reset_adhoc_species_attributes('ret_coefs')
                ref.ret = {}
            elif v == 2:
                chem.reset_adhoc_species_attributes('all')
                ref.stick, ref.ret = {}, {}
            elif v == 3:
                chem.reset_adhoc_reactions_attributes('arrh_a')
                ref.arrh = {}
            else:
                chem.reset_adhoc_reactions_attributes('all')
                ref.arrh = {}
            return 'reset_adhoc'
        raise KeyError(k)

    def _ordinary(self, x):
        pool = [i for i in self.ref.order if not self.ref.is_special(i)]
        return pool[x % len(pool)]


# --------------------------------------------------- observations -------------------------------------------------- #

def observe_sets(chem):
    return {
        'enabled_sp': list(chem.get_species(special=True).index),
        'disabled_sp': list(chem.get_disabled_species().index),
        'protected': list(chem.get_protected_species().index),
        'enabled_r': list(chem.get_reactions().index),
        'disabled_r': list(chem.get_disabled_reactions().index),
    }


def expected_sets(ref):
    return {
        'enabled_sp': ref.ids(special=True),
        'disabled_sp': [i for i in ref.order if i not in ref.es],
        'protected': [i for i in ref.order if i in ref.prot | ref.adprot],
        'enabled_r': ref.rids(),
        'disabled_r': [i for i in ref.rorder if i not in ref.er],
    }


def val(v):
    if v is None:
        return None
    if isinstance(v, dict):
        return {str(k): float(x) for k, x in v.items()}
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, str):
        return v
    v = float(v)
    return None if np.isnan(v) else v


def observe_values(chem, masks=((False, False, True), (True, True, True))):
    """Everything the chemistry-level getters answer (values only; used for equality of states)."""
    out = {}
    for dis, spc, pro in masks:
        for g in ('name', 'charge', 'mass', 'h_form', 'lj_epsilon', 'lj_sigma', 'stick_coef', 'ret_coefs'):
            s = getattr(chem, 'get_species_' + g)(disabled=dis, special=spc, protected=pro)
            out['sp', g, dis, spc, pro] = [(int(i), val(v)) for i, v in s.items()]
    for dis in (False, True):
        for si in (True, False):
            out['arrh_a', dis, si] = [(int(i), val(v)) for i, v in chem.get_reactions_arrh_a(disabled=dis, si_units=si).items()]
        for m in ('lhs', 'rhs', 'net'):
            s = chem.get_stoichiomatrix(disabled=dis, special=True, method=m)
            out['stoich', dis, m] = (list(s.index), list(s.columns), s.values.tolist())
    rm = chem.get_return_matrix()
    out['ret_mat'] = (list(rm.index), list(rm.columns), rm.values.astype(float).tolist())
    return out


def observe_all(chem):
    out = dict(observe_sets(chem))
    out.update(observe_values(chem))
    return out


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            return '{}: {!r} != {!r}'.format(k, a[k], b.get(k))
    return None


def check_same(before, after, what):
    d = diff(before, after)
    check(d is None, '{}: {}', what, d)


def check_sets(chem, ref, what=''):
    got, want = observe_sets(chem), expected_sets(ref)
    for k in want:
        check(got[k] == want[k], '{} {}: got {}, reference {}', what, k, got[k], want[k])
