"""Reference for reaction types and categories and for the documented order of species, from a chemistry spec only."""
import re

SYMBOLS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo '
           'Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl '
           'Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf').split()
SCHEME = [
    ('ELECTRON IMPACT COLLISIONS', ['elastic and momentum transfer', 'excitation', 'dissociative excitation', 'deexcitation',
     'ionization', 'dissociative ionization', 'attachment', 'dissociative attachment', 'three body attachment', 'detachment',
     'recombination', 'dissociative recombination', 'three body recombination', 'dissociation',
     'other electron energy loss channels', 'unclassified electron impact collisions']),
    ('NEUTRAL - NEUTRAL COLLISIONS', ['elastic scattering', 'association', 'dissociation', 'excitation',
     'dissociative excitation', 'collisional quenching', 'dissociative quenching', 'excitation transfer', 'ionization',
     'dissociative ionization', 'associative ionization', 'penning ionization', 'interchange', 'stripping',
     'unclassified neutral - neutral collisions']),
    ('POSITIVE ION - NEUTRAL COLLISIONS', ['resonant charge transfer', 'charge transfer', 'dissociative charge transfer',
     'unclassified positive ion - neutral collisions']),
    ('NEGATIVE ION - NEUTRAL COLLISIONS', ['resonant charge transfer', 'charge transfer', 'detachment',
     'associative detachment', 'unclassified negative ion - neutral collisions']),
    ('ION - ION COLLISIONS', ['neutralization', 'dissociative neutralization', 'unclassified ion - ion collisions']),
    ('THREE BODY COLLISIONS', ['None']), ('RADIATIVE DECAY', ['None']), ('UNCLASSIFIED COLLISIONS', ['None'])]
RANK = {(t, c): (i, j) for i, (t, cs) in enumerate(SCHEME) for j, c in enumerate(cs)}
EL, NN, PN, MN, II, TB, RD, UN = [t for t, _ in SCHEME]


def atoms_of(ground):
    """[(symbol, count)…] in the order written."""
    return [(m.group(1), int(m.group(2) or 1)) for m in re.finditer(r'([A-Z][a-z]?)(\d*)', ground)]


def species_key(k):
    """Ascending: fewer elements; then per element lighter, fewer; ground state neutral, positive, negative, excited; M last."""
    if k['name'] == 'M':
        return (99,)
    atoms = atoms_of(k['ground']) if k['ground'] else []
    key = [len(atoms)]
    for el, n in atoms:
        key += [SYMBOLS.index(el), n]
    q = k['q']
    return tuple(key + [k['state'] is not None, max(-q, 0), max(q, 0)])


def classify(spec, r):
    k = [s['k'] for s in spec['species']]
    lhs, rhs = [k[i] for i in r['lhs']], [k[i] for i in r['rhs']]
    e_l, e_r = sum(s['name'] == 'e' for s in lhs), sum(s['name'] == 'e' for s in rhs)
    hl, hr = [s for s in lhs if s['name'] != 'e'], [s for s in rhs if s['name'] != 'e']
    q = lambda s: s['q'] or 0
    exc = lambda ss: sum(s['state'] is not None for s in ss)
    el = r['attrs'].get('elastic')
    if el is None:
        elastic = sorted(r['lhs']) == sorted(r['rhs'])
    else:
        elastic = str(el).lower() == 'true'
    freed = e_r - e_l
    if e_l:
        un = 'unclassified electron impact collisions'
        if not hl or not 2 <= len(lhs) <= 3:
            return EL, un
        if len(lhs) == 3:
            ground = lambda s: s['ground'] or s['name']
            if {ground(s) for s in hl} <= {ground(s) for s in hr}:
                ql, qr = sum(map(q, hl)), sum(map(q, hr))
                if ql > qr and ql > 0:
                    return EL, 'three body recombination'
                if ql > qr and qr < 0:
                    return EL, 'three body attachment'
            return EL, un
        t = hl[0]
        split = len(hr) - len(hl)
        if freed > 0:
            table = {(0, 0): 'ionization', (0, -1): 'detachment', (1, 0): 'dissociative ionization'}
        elif freed < 0:
            table = {(0, 0): 'attachment', (0, 1): 'recombination', (1, 0): 'dissociative attachment',
                     (1, 1): 'dissociative recombination'}
        else:
            if elastic:
                return EL, 'elastic and momentum transfer'
            if split > 0:
                return EL, 'dissociative excitation' if exc(hr) else 'dissociation'
            if split < 0:
                return EL, un
            p = hr[0]
            if not exc(hl) and exc(hr):
                return EL, 'excitation'
            if exc(hl) and not exc(hr):
                return EL, 'deexcitation'
            if exc(hl) and exc(hr):
                loss = r['attrs'].get('el_en_loss')
                loss = 0. if loss is None else float(loss['np'] if isinstance(loss, dict) else loss)
                return EL, 'excitation' if loss > 0 else 'deexcitation'
            return EL, 'other electron energy loss channels' if t['name'] == p['name'] else un
        sgn = (q(t) > 0) - (q(t) < 0)
        return EL, table.get((min(split, 1), sgn), un) if split >= 0 else un
    if len(lhs) == 3:
        return TB, 'None'
    if len(lhs) == 1:
        return (RD, 'None') if len(rhs) == 1 else (UN, 'None')
    if len(lhs) != 2:
        return UN, 'None'
    ql = [q(s) for s in lhs]
    if not any(ql):
        un = 'unclassified neutral - neutral collisions'
        xl, xr = exc(lhs), exc(rhs)
        if elastic:
            return NN, 'elastic scattering'
        if len(rhs) < 2:
            return NN, 'association'
        if freed > 0:
            heavy = len(rhs) - freed
            if heavy == 2:
                return NN, 'penning ionization' if xl and not xr else 'ionization' if not xl and not xr else un
            return NN, 'dissociative ionization' if heavy > 2 else 'associative ionization'
        if len(rhs) > 2:
            if {s['name'] for s in lhs} & {s['name'] for s in rhs} and not any(q(s) for s in rhs):
                return NN, 'dissociation' if xl == xr else 'dissociative excitation' if xl < xr else 'dissociative quenching'
            return NN, un
        if xl != xr:
            return NN, 'excitation' if xl < xr else 'collisional quenching'
        if xl == 0:
            return NN, 'interchange'
        same = {s['stateless'] for s in lhs} == {s['stateless'] for s in rhs}
        return NN, 'excitation transfer' if same else un
    if 0 in ql:
        sign = 1 if max(ql) > 0 else -1
        typ, mark = (PN, '+') if sign > 0 else (MN, '-')
        un = 'unclassified {} ion - neutral collisions'.format('positive' if sign > 0 else 'negative')
        ion, neu = [s for s in lhs if q(s)][0], [s for s in lhs if not q(s)][0]
        if sign < 0 and freed > 0:
            heavy = len(rhs) - freed
            return typ, 'detachment' if heavy == 2 else 'associative detachment' if heavy < 2 else un
        if len(rhs) == 2:
            pi, pn = [s for s in rhs if q(s) * sign > 0], [s for s in rhs if not q(s)]
            if pi and pn and ion['name'].strip(mark) == pn[0]['name'] and pi[0]['name'].strip(mark) == neu['name']:
                return typ, 'resonant charge transfer' if neu['name'] == pn[0]['name'] else 'charge transfer'
        if sign > 0 and len(rhs) > 2 and neu['name'] + '+' in [s['name'] for s in rhs]:
            return typ, 'dissociative charge transfer'
        return typ, un
    if min(ql) < 0 < max(ql) and not any(q(s) for s in rhs):
        un = 'unclassified ion - ion collisions'
        return II, un if len(rhs) < 2 else 'neutralization' if len(rhs) == 2 else 'dissociative neutralization'
    return UN, 'None'


def reaction_key(pos_of, r):
    """pos_of: species position in the species list -> rank in the current order."""
    return (tuple(sorted(pos_of[i] for i in r['lhs'])), tuple(sorted(pos_of[i] for i in r['rhs'])))
