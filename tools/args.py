"""Which kinds of arguments the checks pass to the functions of /repo: python tools/args.py N [C01 ...]   (N cases per sub).

Lists the parameters which were only ever left at their defaults, never at them, or given in one kind of value only. A development aid."""
import importlib, inspect, io, json, os, random, sys, threading, warnings
from collections import defaultdict
from contextlib import redirect_stderr, redirect_stdout
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
import core, engine
core.setup_path(); core.private_home()
warnings.simplefilter('ignore')
SEEN = defaultdict(lambda: defaultdict(set))


def kind(v):
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, str):
        return repr(v) if len(v) < 9 else 'str'
    if hasattr(v, '__len__'):
        try:
            return '{}[{}]'.format(type(v).__name__, min(len(v), 2))
        except TypeError:
            pass
    return type(v).__name__


def hook(frame, event, arg):
    if event != 'call':
        return
    code = frame.f_code
    if not code.co_filename.startswith('/repo/') or 'tests' in code.co_filename or code.co_name.startswith('<'):
        return
    n = code.co_argcount + code.co_kwonlyargcount
    key = code.co_filename[6:], code.co_firstlineno, code.co_name
    SEEN[key]
    for name in code.co_varnames[:n]:
        if name not in ('self', 'cls'):
            s = SEEN[key][name]
            if len(s) < 40:
                s.add(kind(frame.f_locals.get(name)))


n = int(sys.argv[1])
for p in sys.argv[2:] or ['C%02d' % i for i in range(1, 40)]:
    try:
        mod = importlib.import_module('checks.' + p.lower())
    except ModuleNotFoundError:
        continue
    for sub in mod.SUBS:
        for k in range(max(1, min(n, sub.quick // 4))):
            case, _ = engine.generate(sub.strategy, rng=random.Random(core.derive_seed('cov', p, sub.name, k)))
            case = json.loads(core.canon(case))
            with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
                sys.setprofile(hook)
                try:
                    sub.fn(case, core.Rec())
                except Exception as e:
                    sys.setprofile(None)
                    print(p, sub.name, repr(e)[:200], file=sys.__stderr__)
                finally:
                    sys.setprofile(None)
for key in sorted(SEEN):
    for name, s in SEEN[key].items():
        print('{}:{} {}({})'.format(*key, name), '|', ' '.join(sorted(s)[:12]))
