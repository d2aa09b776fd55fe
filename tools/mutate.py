"""Systematic mutants of the code, to find what the checks do not see. A development aid, not a check.

    /opt/venv/bin/python -B tools/mutate.py list FILE             number of mutants of a file of /repo
    /opt/venv/bin/python -B tools/mutate.py run OUT PROCS STEP OFFSET FILE...   every STEP-th mutant; survivors of checks and tests go to OUT

    /opt/venv/bin/python -B tools/mutate.py confirm OUT PROCS NEW  survivors listed in OUT once more, with the registered quick checks

Mutants are text edits of a copy of /repo under /tmp; /repo itself is not touched. Each is given to the relevant checks in rising numbers
of cases, and to the project's tests only if no check objects.
"""
import ast
import importlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import subprocess
import sys
import time
import traceback
import warnings
from contextlib import redirect_stderr, redirect_stdout

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
CHECKS = {
    'plaschem/chemistry.py': 'C06 C05 C02 C01 C03 C04 C08 C14 C10 C20 C16 C19',
    'plaschem/classification.py': 'C12 C11 C13 C14',
    'plaschem/latex.py': 'C13', 'plaschem/pretty_print.py': 'C14',
    'plaschem/reactions.py': 'C07 C08 C09 C06 C10 C12 C13 C16', 'plaschem/species.py': 'C07 C08 C06 C10 C12 C13 C16',
    'plaschem/xml_inputs.py': 'C10 C11', 'pygmo_fwork/config.py': 'C25 C22', 'pygmo_fwork/global_model.py': 'C24 C22 C18',
    'pygmo_fwork/results.py': 'C23 C24 C22', 'pygmo_fwork/optichem/graph.py': 'C26 C27', 'pygmo_fwork/optichem/errors.py': 'C28',
    'pygmo_fwork/optichem/morris.py': 'C29 C30', 'pygmo_fwork/optichem/reduction.py': 'C31',
    'pygmo_fwork/pygmol/equations.py': 'C16 C17 C15 C20', 'pygmo_fwork/pygmol/model.py': 'C19 C18 C22',
    'pygmo_fwork/pygmol/model_parameters.py': 'C21 C17 C22', 'pygmo_fwork/pygmol/neutral_model.py': 'C20 C04'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
OPS = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.BitOr: ('|', '&'), ast.BitAnd: ('&', '|'),
       ast.Pow: ('**', '*')}


def mutants(text):
    lines = text.split('\n')
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = text.encode()

    def pos(lineno, col):
        return starts[lineno - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(a, b, new, what):
        if raw[a:b].decode() != new:
            out.append((a, b, new, what))

    def op_between(left, right, olds, new, what):
        a, b = span(left)[1], span(right)[0]
        mid = raw[a:b].decode()
        for old in olds:
            k = mid.find(old)
            if k >= 0:
                put(a + len(mid[:k].encode()), a + len(mid[:k + len(old)].encode()), new, what)
                return

    def visit(n, doc=False):
        if isinstance(n, (ast.Raise,)):
            a, b = span(n)
            put(a, b, 'pass', 'no raise')
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            s = src(n.value.func)
            if s in ('print', 'warnings.warn'):
                return
            a, b = span(n)
            put(a, b, 'pass', 'no call')
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            a, b = span(n)
            if isinstance(n, ast.AugAssign) or isinstance(tg, (ast.Attribute, ast.Subscript)):
                put(a, b, 'pass', 'no assignment')
            if isinstance(n, ast.AugAssign):
                op_between(n.target, n.value, ['+=', '-=', '*=', '/=', '|='], {'Add': '-=', 'Sub': '+=', 'Mult': '/=', 'Div': '*=',
                                                                              'BitOr': '&='}.get(type(n.op).__name__, '='), 'aug')
        if isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            put(a, b, 'pass', 'no jump')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = span(n.test)
            if not isinstance(n, ast.While):
                put(a, b, 'True', 'always')
            put(a, b, 'False', 'never')
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                a, b = span(t)
                put(a, b, 'True', 'no filter')
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                old = {'Lt': ['<'], 'LtE': ['<='], 'Gt': ['>'], 'GtE': ['>='], 'Eq': ['=='], 'NotEq': ['!='], 'In': ['in'],
                       'NotIn': ['not in'], 'Is': ['is'], 'IsNot': ['is not']}[type(op).__name__]
                op_between(left, right, old, CMP[type(op)], 'compare')
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    op_between(left, right, old, {'Lt': '>', 'LtE': '>=', 'Gt': '<', 'GtE': '<='}[type(op).__name__], 'reverse')
                left = right
        if isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            old, new = OPS[type(n.op)]
            op_between(n.left, n.right, [old], new, 'arithmetic')
            a, b = span(n)
            put(a, b, src(n.left), 'left only')
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                op_between(x, y, ['and', 'or'], 'or' if isinstance(n.op, ast.And) else 'and', 'bool')
            a, b = span(n)
            for v in n.values:
                put(a, b, '(' + ' and '.join('(' + src(w) + ')' for w in n.values if w is not v) + ')'
                    if isinstance(n.op, ast.And) else '(' + ' or '.join('(' + src(w) + ')' for w in n.values if w is not v) + ')', 'operand')
        if isinstance(n, ast.UnaryOp):
            a, b = span(n)
            put(a, b, src(n.operand), 'no unary')
        if isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                put(a, b, str(not n.value), 'flip')
            elif isinstance(n.value, (int, float)):
                put(a, b, repr(n.value + 1), 'plus one')
                if n.value:
                    put(a, b, '0', 'zero')
            elif isinstance(n.value, str) and n.value and ' ' not in n.value and raw[a:a + 1] in b'\'"' and not doc:
                put(a, b, repr(n.value + 'x'), 'string')
        if isinstance(n, ast.Call):
            f = n.func
            for k in n.keywords:
                if k.arg:
                    a = pos(k.value.lineno, k.value.col_offset) - len(k.arg) - 1
                    b = span(k.value)[1]
                    rest = raw[b:]
                    m = len(rest) - len(rest.lstrip(b' \n'))
                    if rest[m:m + 1] == b',':
                        b += m + 1
                    put(a, b, '', 'no keyword ' + k.arg)
            if isinstance(f, ast.Attribute) and not n.args and f.attr in ('copy', 'lower', 'strip', 'abs', 'dropna'):
                a, b = span(n)
                put(a, b, src(f.value), 'no ' + f.attr)
            if isinstance(f, ast.Name) and f.id in ('sorted', 'list', 'reversed', 'set', 'abs', 'tuple', 'dict', 'float', 'str', 'int') and n.args:
                a, b = span(n)
                put(a, b, '(' + src(n.args[0]) + ')', 'no ' + f.id)
            if isinstance(f, ast.Name) and f.id in ('min', 'max', 'any', 'all'):
                a, b = span(f)
                put(a, b, {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[f.id], 'opposite')
            if isinstance(f, ast.Attribute) and f.attr in ('min', 'max', 'any', 'all', 'append'):
                if f.attr in ('min', 'max', 'any', 'all'):
                    b = span(f)[1]
                    put(b - 3, b, {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[f.attr], 'opposite')
            if f is not None and isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant):
                for c in n.args:
                    visit(c)
                return
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            a, b = span(n)
            put(a, b, 'return None', 'return none')
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(ast.parse(text))
    good, seen = [], set()
    for a, b, new, what in out:
        if (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(t, 'x', 'exec')
        except SyntaxError:
            continue
        line = raw[:a].count(b'\n') + 1
        good.append((line, what, raw[a:b].decode(), new, t))
    return good


def child(props, cap, rounds, tests_of):
    """In a forked process: exit code tells which round and check killed."""
    import core
    import engine
    warnings.simplefilter('ignore')
    core.setup_path()
    core.private_home()
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    t0 = time.time()
    mods = {}
    done = {}
    for n in rounds:
        for p in props:
            try:
                if p not in mods:
                    mods[p] = importlib.import_module('checks.' + p.lower())
            except Exception as e:
                return '{} import {!r}'.format(p, e)
            for sub in mods[p].SUBS:
                if p == 'C29' and sub.name != 'walk' and n < rounds[-1]:
                    continue
                m = min(n, sub.quick if p != 'C29' or sub.name == 'walk' else 4)
                for k in range(done.get((p, sub.name), 0), m):
                    if time.time() - t0 > cap:
                        return None
                    case, _ = engine.generate(sub.strategy, rng=random.Random(core.derive_seed('mut', p, sub.name, k)))
                    case = json.loads(core.canon(case))
                    try:
                        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
                            sub.fn(case, core.Rec())
                    except Exception as e:
                        return '{} {} {}: {!r}'.format(p, sub.name, k, e)[:200]
                done[p, sub.name] = max(m, done.get((p, sub.name), 0))
    return None


def tests(work, rel):
    out = os.path.join(work, 'test.json')
    subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind {}/repo /repo && timeout 400 bash /opt/vp/test.sh {}'.format(work, out)],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    passed = set()
    if os.path.isfile(out):
        with open(out) as f:
            passed = set(json.load(f).get('passed', []))
    with open('/opt/vp/BASELINE.json') as f:
        lost = sorted(set(json.load(f)['stable']) - passed)
    return lost[0] if lost else None


def one(job):
    rel, k, line, what, old, new, text = job
    work = '/tmp/mt/w{}'.format(multiprocessing.current_process()._identity[0])
    repo = os.path.join(work, 'repo')
    if not os.path.isdir(repo):
        os.makedirs(work, exist_ok=True)
        shutil.copytree('/repo', repo, symlinks=True)
    path = os.path.join(repo, rel)
    with open(path, 'w') as f:
        f.write(text)
    res = os.path.join(work, 'res')
    if os.path.exists(res):
        os.remove(res)
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.environ['VERIF_SCRATCH'] = os.path.join(work, 'scratch')
            os.makedirs(os.environ['VERIF_SCRATCH'], exist_ok=True)
            import core
            core.REPO = repo
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                r = child(CHECKS[rel].split(), CAP, ROUNDS, None)
            except BaseException:
                r = 'crash ' + traceback.format_exc()[-200:]
            with open(res, 'w') as f:
                f.write(r or '')
        finally:
            os._exit(0)
    verdict = None
    while True:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > CAP + 60:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            verdict = 'timeout'
            break
        time.sleep(0.05)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if verdict is None:
        with open(res) as f:
            verdict = f.read()
    shutil.rmtree(os.path.join(work, 'scratch'), ignore_errors=True)
    t1 = time.time()
    tested = ''
    if not verdict:
        tested = tests(work, rel) or ''
    with open('/repo/' + rel) as f:
        orig = f.read()
    with open(path, 'w') as f:
        f.write(orig)
    return rel, k, line, what, old, new, verdict, tested, round(t1 - t0, 1), round(time.time() - t1, 1)


CAP, ROUNDS = int(os.environ.get('MUT_CAP', '40')), [4, 20, 80, 250, 1000]


def confirm_one(job):
    rel, k, line, what, old, new, text = job
    work = '/tmp/mt/c{}'.format(multiprocessing.current_process()._identity[0])
    repo = os.path.join(work, 'repo')
    if not os.path.isdir(repo):
        os.makedirs(work, exist_ok=True)
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(ROOT, os.path.join(work, 'verif'), ignore=shutil.ignore_patterns('.git', 'seeded'))
    path = os.path.join(repo, rel)
    with open(path, 'w') as f:
        f.write(text)
    verdict = ''
    for prop in (os.environ.get('MUTATE_PROPS') or ' '.join(CHECKS[rel].split()[:4])).split():
        r = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind {0}/repo /repo && cd {0}/verif && VERIF_SEED=1 timeout 600 ./run {1}'.format(work, prop)],
                           capture_output=True, text=True)
        if r.returncode:
            verdict = prop + ' ' + str(r.returncode) + ' ' + ([x for x in r.stdout.split('\n') if x and not x.startswith('VIOL')] or [''])[0][:150]
            break
    with open('/repo/' + rel) as f:
        orig = f.read()
    with open(path, 'w') as f:
        f.write(orig)
    return rel, k, line, what, old, new, verdict, '', 0., 0.


def confirm(src, procs, out):
    import json
    jobs, done = [], set()
    if os.path.exists(out):
        with open(out) as f:
            done = {tuple(json.loads(x)[:2]) for x in f}
    with open(src) as f:
        rows = [json.loads(x) for x in f]
    for r in rows:
        if not r[6] and not r[7] and (r[0], r[1]) not in done:
            with open('/repo/' + r[0]) as f:
                same = [m for m in mutants(f.read()) if list(m[1:4]) == r[3:6]]
            m = min(same, key=lambda m: abs(m[0] - r[2]))
            jobs.append((r[0], r[1]) + tuple(m))
    with multiprocessing.Pool(procs) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(confirm_one, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()
            print(len(jobs), *r[:7], flush=True)


def main():
    global CAP
    if sys.argv[1] == 'confirm':
        return confirm(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    if sys.argv[1] == 'list':
        for rel in sys.argv[2:]:
            with open('/repo/' + rel) as f:
                print(rel, len(mutants(f.read())))
        return
    out, procs, step, offset = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    import numpy, pandas, scipy.integrate, yaml, matplotlib, matplotlib.pyplot  # noqa
    jobs = []
    for rel in sys.argv[6:]:
        with open('/repo/' + rel) as f:
            for k, m in enumerate(mutants(f.read())):
                if k % step == offset:
                    jobs.append((rel, k) + m)
    random.Random(1).shuffle(jobs)
    t0 = time.time()
    n = dead = 0
    with multiprocessing.Pool(procs) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(one, jobs):
            n += 1
            if r[6]:
                dead += 1
            f.write(json.dumps(r) + '\n')
            f.flush()
            if n % 20 == 0:
                print(n, len(jobs), 'killed by checks', dead, int(time.time() - t0), 's', flush=True)


if __name__ == '__main__':
    main()
