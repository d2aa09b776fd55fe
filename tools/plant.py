"""Planting bugs: python3 tools/plant.py make DEFS.py | verify [ID...] [--tests] [--no-check]

make: DEFS.py calls bug(id, prop, edits=[(file, old, new)], needs, breaks, demo) and each becomes seeded/<id>/.
verify: in a scratch copy which a private mount namespace shows as /repo, applies each patch, runs demo, stable tests (--tests)
and the property's check (--no-check: not).
"""
import json
import multiprocessing.pool
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = r'''#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it does not
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME="$T/home" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$T/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$T/mpl" LC_ALL=C.UTF-8
mkdir -p "$HOME"
printf 'workspace: %s\n' "$T/workspace" > "$HOME/.pygmofwork"
cd "$T" || exit 2
PYTHONPATH=/repo SCRATCH="$T" /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def make(path, only=()):
    made = []

    def bug(id, prop, edits, needs, breaks, demo):
        if only and id not in only:
            return
        t = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
        copy = t + '/repo'
        try:
            sh(['cp', '-a', REPO, copy])
            sh(['git', '-C', copy, 'checkout', '--', '.'])
            for f, old, new in edits:
                p = os.path.join(copy, f)
                s = open(p).read()
                assert s.count(old) == 1, (id, f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh(['git', '-C', copy, 'diff']).stdout
        finally:
            shutil.rmtree(t)
        # removed lines must not be lines which the fix commits added
        d = os.path.join(ROOT, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + demo.strip('\n') + '\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        base = {f: sh(['git', '-C', REPO, 'show', 'de58c55:' + f]).stdout.split('\n') for f, _, _ in edits}
        cur = None
        for line in diff.split('\n'):
            if line.startswith('--- a/'):
                cur = line[6:]
            elif line.startswith('-') and line[1:].strip() and line[1:] not in base[cur]:
                print('WARNING', id, 'touches a line which is not original:', line)
        made.append(id)
    exec(compile(open(path).read(), path, 'exec'), {'bug': bug})
    print('made', made)
    return made


PRELUDE = '''import os
import sys

import numpy as np

from plaschem.chemistry import Chemistry
from plaschem.reactions import Reaction
from plaschem.species import RP

assert os.path.realpath(sys.modules['plaschem'].__file__).startswith('/repo/')


def R(i, lhs, rhs, a=1e-10, b=0., c=0., **kw):
    units = {'arrh_a': {1: 's-1', 2: 'cm3.s-1', 3: 'cm6.s-1'}[len(lhs)], 'arrh_b': None,
             'arrh_c': 'eV' if any(x.get_name() == 'e' for x in lhs) else 'K'}
    units.pop('arrh_b')
    units['arrh_a'] = kw.pop('unit', units['arrh_a'])
    return Reaction(i, lhs, rhs, dict(arrh_a=a, arrh_b=b, arrh_c=c, **kw), units=units)


class Sp(dict):
    """Some species by name."""
    def __init__(self):
        rows = [(0, 'e', 5.4857e-4, -1), (1, 'Ar', 39.948, 0), (2, 'Ar+', 39.948, 1), (3, 'Ar*', 39.948, 0), (4, 'O2', 31.998, 0),
                (5, 'O2+', 31.998, 1), (6, 'O', 15.999, 0), (7, 'O-', 15.999, -1), (8, 'O+', 15.999, 1), (9, 'Ar++', 39.948, 2)]
        for i, n, m, q in rows:
            kw = {'stateless': 'Ar', 'state': '*'} if n == 'Ar*' else {}
            self[n] = RP(i, name=n, mass=m, charge=q, **kw)
        self['M'] = RP(999, name='M')


P0 = dict(radius=0.05, length=0.1, pressure=100., power=[300., 300.], t_power=[0., 1.], temp_gas=400., feeds={'Ar': 50.}, t_end=1e-6)


def argon():
    s = Sp()
    e, a, p, x = s['e'], s['Ar'], s['Ar+'], s['Ar*']
    return [e, a, p, x], [R(1, [e, a], [e, e, p], 2.34e-8, 0.59, 17.44, el_en_loss=15.76), R(2, [e, a], [e, x], 2.48e-8, 0.33, 12.78, el_en_loss=12.14),
                          R(3, [e, x], [e, e, p], 2.05e-7, 0., 4.95, el_en_loss=3.6), R(4, [e, a], [e, a], 2e-7),
                          R(5, [x, x], [e, a, p], 1e-9), R(6, [a, p], [a, p], 1e-9)]


def oxygen():
    """argon with oxygen: ids 1..6 argon, 7.. oxygen"""
    s = Sp()
    e, a, p, x, o2, o2p, o, om, op, M = (s[k] for k in ('e', 'Ar', 'Ar+', 'Ar*', 'O2', 'O2+', 'O', 'O-', 'O+', 'M'))
    r = [R(1, [e, a], [e, e, p], 2.34e-8, 0.59, 17.44, el_en_loss=15.76), R(2, [e, a], [e, x], 2.48e-8, 0.33, 12.78, el_en_loss=12.14),
         R(3, [e, o2], [e, e, o2p], 2e-9, 0.5, 12.1, el_en_loss=12.1), R(4, [e, o2], [e, o, o], 5e-9, 0., 8.4, el_en_loss=6.),
         R(5, [e, o2], [o, om], 1e-11, 0., 3.), R(6, [om, o2p], [o, o2], 1e-7, -0.5),
         R(7, [e, o], [e, e, op], 9e-9, 0.7, 13.6, el_en_loss=13.6), R(8, [op, o2], [o, o2p], 2e-11), R(9, [o, o, M], [o2, M], 1e-33),
         R(10, [x, o2], [a, o, o], 2e-10), R(11, [e, a], [e, a], 2e-7), R(12, [om, o], [e, o2], 5e-10), R(13, [om, op], [o, o], 1e-7)]
    return [e, a, p, x, o2, o2p, o, om, op, M], r


def chem(which=argon, **kw):
    return Chemistry(*which(), **kw)

'''


def verify_one(args):
    """Everything happens in a private mount namespace in which a scratch copy lies over /repo (and over the outputs)."""
    i, tests, check = args
    t = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        sh(['cp', '-a', REPO, t + '/repo'])
        for k in ('evidence', 'replays'):
            os.makedirs(os.path.join(ROOT, k), exist_ok=True)
            os.makedirs(t + '/' + k)
        r = sh(['unshare', '-m', 'bash', '-c', 'mount --bind {0}/repo /repo && mount --bind {0}/evidence {1}/evidence && mount --bind {0}/replays {1}/replays '
                '&& exec python3 {1}/tools/plant.py inner {2} {0} {3} {4}'.format(t, ROOT, i, int(tests), int(check))])
        return (r.stdout or '').strip() or r.stderr
    finally:
        shutil.rmtree(t)


def inner(i, tmp, tests, check):
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    a = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
    r = sh(['git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff')])
    if r.returncode:
        print(i, 'BAD: DOES NOT APPLY', r.stderr)
        return
    b = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
    bad = []
    if a.returncode:
        bad.append('demo fails without: ' + (a.stderr or a.stdout)[-600:])
    if not b.returncode:
        bad.append('demo passes with the patch')
    if tests:
        out = tmp + '/test.json'
        x = sh('bash /opt/vp/test.sh ' + out)
        passed = set(json.load(open(out)).get('passed', [])) if os.path.isfile(out) else set()
        lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
        if lost:
            bad.append('tests fail: {}'.format(sorted(lost)[:4]) + (x.stdout[-300:] if not passed else ''))
    line = ''
    if check:
        t0 = time.time()
        c = sh(['./run', meta['property']], cwd=ROOT)
        hit = c.returncode == 1 and 'VIOLATION property=' + meta['property'] in c.stdout
        why = [x for x in c.stdout.splitlines() if x.strip()]
        line = '{} in {:.0f}s  {}'.format('CAUGHT' if hit else 'MISSED rc={}'.format(c.returncode), time.time() - t0, (why[0] if why else '')[:150])
    tail = (b.stderr or b.stdout).strip().splitlines()
    print(i, meta['property'], line, '; demo: ' + tail[-1][:120] if b.returncode and tail else '', '\n   BAD: ' + ' | '.join(bad) if bad else '')


def verify(ids, tests, check):
    with multiprocessing.pool.ThreadPool(3) as pool:
        for x in pool.imap(verify_one, [(i, tests, check) for i in ids]):
            print(x, flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    flags = [x for x in a if x.startswith('--')]
    a = [x for x in a if not x.startswith('--')]
    if a[0] == 'inner':
        inner(a[1], a[2], a[3] == '1', a[4] == '1')
        sys.exit()
    if a[0] == 'make':
        ids = make(a[1], a[2:])
    else:
        ids = a[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    verify(ids, '--tests' in flags, '--no-check' not in flags)
