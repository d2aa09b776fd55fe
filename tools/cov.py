"""Which lines of /repo the checks run: python tools/cov.py N [C01 ...]   (N cases per sub; needs the coverage package on PYTHONPATH)"""
import importlib, io, json, os, random, sys, warnings
from contextlib import redirect_stderr, redirect_stdout
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import coverage
cov = coverage.Coverage(source=['/repo/plaschem', '/repo/pygmo_fwork'], branch=True, data_file=None, omit=['*/tests/*'])
cov.start()
import core, engine
core.setup_path(); core.private_home()
warnings.simplefilter('ignore')
n = int(sys.argv[1])
for p in sys.argv[2:] or ['C%02d' % i for i in range(1, 40)]:
    try:
        mod = importlib.import_module('checks.' + p.lower())
    except ModuleNotFoundError:
        continue
    for sub in mod.SUBS:
        for k in range(max(1, min(n, sub.quick // 4))):
            case, _ = engine.generate(sub.strategy, rng=random.Random(core.derive_seed('cov', p, sub.name, k)))
            case = json.loads(core.canon(case))
            with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
                sub.fn(case, core.Rec())
cov.stop()
cov.report(show_missing=True)
