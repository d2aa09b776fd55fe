"""C25: the configuration file is read or refused as documented, and its workspace directories are there when asked for."""
import os
import pathlib
import shutil

import yaml

import gen
from core import Sub, Violation, check, check_eq, scratch_dir

BROKEN = ['', '   \n', '# only a comment\n', 'just text\n', '42\n', '- workspace: x\n', '[1, 2, 3]\n', 'workspace: [unclosed\n', '{a: 1\n',
          'a: b: c\n', '\tworkspace: x\n', 'workspace: "unterminated\n', '%bad\n', 'a: 1\n b: 2\n', '!!nonsense x\n', '@x\n', 'a: *nowhere\n']
SIBLINGS = ['results/reduction_old', 'results/reduction2', 'results/morris_sensitivity_old', 'results/morris', 'results/pygmol_2', 'results/PyGMol.bak',
            'results/pygkin-old', 'globalkin_stage2', 'globalkin_stage.old', 'results.old', 'stage', 'reduction', 'pygmol']
DIRS = ['results', 'results:PyGKin', 'results:bad', 'morris', 'reduction', 'stage']


@gen.cases
def case(d):
    return {'kind': d.weighted([('good', 5), ('broken', 3), ('missing', 1), ('directory', 1), ('binary', 1)]), 'text': d.pick(BROKEN),
            'keys': d.weighted([('both', 4), ('workspace', 2), ('bin', 1), ('none', 1)]), 'depth': d.int(0, 3), 'exists': d.int(0, 3),
            'bin': d.weighted([('file', 3), ('absent', 1), ('dir', 1)]), 'extra': d.bool(1, 3), 'path': d.pick(['str', 'path']),
            'calls': [d.pick(DIRS) for _ in range(d.int(1, 8))], 'falsy': d.int(0, 7), 'siblings': d.subset(SIBLINGS, 1, 3), 'name': d.pick(['config', '.pygmofwork', 'my config.yaml']), 'how': d.int(0, 3)}


def expect(exc, call, what):
    try:
        call()
    except exc:
        return
    raise Violation(what + ' is not refused')


def tree(path):
    return sorted(os.path.relpath(os.path.join(r, x), path) for r, ds, fs in os.walk(path) for x in ds + fs)


def fn(case, rec):
    from pygmo_fwork.config import Config
    from pygmo_fwork.exceptions import ConfigError, GlobalModelAttributeError
    top = scratch_dir('c25')
    try:
        file = os.path.join(top, case['name'])
        arg = pathlib.Path(file) if case['path'] == 'path' else file
        ws = os.path.join(top, *['d%d' % k for k in range(case['depth'])], 'ws')
        binary = os.path.join(top, 'global kin')
        if case['kind'] != 'good':
            if case['kind'] == 'broken':
                with open(file, 'w') as f:
                    f.write(case['text'])
            elif case['kind'] == 'directory':
                os.mkdir(file)
            elif case['kind'] == 'binary':
                with open(file, 'wb') as f:
                    f.write([b'\xff\xfe\x00\x01', b'\x80abc: 1\n', b'a: \x00\n', bytes(range(256))][case['how']])
            before = tree(top)
            expect(ConfigError, lambda: Config(arg), 'a configuration {} {!r}'.format(case['kind'], case['text']))
            check_eq(tree(top), before, 'files')
            rec.label('refused', case['kind'])
            rec.nontrivial()
            return
        body = {}
        if case['keys'] in ('both', 'workspace'):
            body['workspace'] = ws
        if case['keys'] in ('both', 'bin'):
            body['globalkin_bin'] = binary
        if case['extra']:
            body['something'] = [1, {'a': 'b'}]
        for k, v in enumerate(('', 0, False)):
            if case['falsy'] & 1 << k:
                body['empty%d' % k] = v
        if case['falsy'] == 7 and 'globalkin_bin' not in body and case['keys'] == 'workspace':
            body['globalkin_bin'] = ''
        if not body:
            body['other'] = 1
        with open(file, 'w') as f:
            if case['how'] == 0:
                for k, v in body.items():
                    f.write('{}: {}\n'.format(k, repr(v) if v == '' else v))
            else:
                yaml.dump(body, f, default_flow_style=case['how'] == 1)
        if case['bin'] == 'file':
            open(binary, 'w').close()
        elif case['bin'] == 'dir':
            os.mkdir(binary)
        kept = []
        if case['exists']:
            os.makedirs(ws)
            kept = [os.path.join(ws, 'notes.txt')]
            if case['exists'] > 1:
                os.makedirs(os.path.join(ws, 'results', 'pygmol', 'run'))
                kept.append(os.path.join(ws, 'results', 'pygmol', 'run', 'solution.csv'))
        for k in case['siblings'] if case['exists'] else ():
            os.makedirs(os.path.join(ws, k))
            kept.append(os.path.join(ws, k, 'keep'))
        for k in kept:
            with open(k, 'w') as f:
                f.write('keep')
        before = tree(top)
        calls = list(case['calls'])
        if case['bin'] == 'file' and case['falsy'] >= 4:  # whichever is asked for first finds no workspace
            calls.insert(0, 'stage')
        cfg = Config(arg)
        check_eq(tree(top), before, 'files after reading the configuration')
        for k in ('workspace', 'globalkin_bin', 'something', 'empty0', 'empty1', 'empty2'):
            if k in body:
                want = body[k] if case['how'] else yaml.safe_load(str(body[k])) if k == 'something' else body[k]
                check_eq(cfg[k], want, 'configured ' + k)
            else:
                expect(ConfigError, lambda: cfg[k], 'asking for {} which is not configured'.format(k))
        expect(ConfigError, lambda: cfg['no such key'], 'asking for an unknown key')
        for call in calls:
            before = tree(top)
            name, _, backend = call.partition(':')
            f = {'results': lambda: cfg.get_results_dir(backend or 'PyGMol'), 'morris': cfg.get_morris_results_dir,
                 'reduction': cfg.get_reduction_results_dir, 'stage': cfg.get_globalkin_stage_dir}[name]
            if backend == 'bad':
                expect(GlobalModelAttributeError, lambda: cfg.get_results_dir('pygm'), 'an unknown backend')
                check_eq(tree(top), before, 'files')
                continue
            refused = 'workspace' not in body or name == 'stage' and (body.get('globalkin_bin') != binary or case['bin'] != 'file')
            if refused:
                expect(ConfigError, f, call + ' without what it needs')
                check_eq(tree(top), before, 'files after a refusal')
                rec.label('unavailable')
                continue
            parts = {'results': ['results', 'pygkin' if backend else 'pygmol'], 'morris': ['results', 'morris_sensitivity'],
                     'reduction': ['results', 'reduction'], 'stage': ['globalkin_stage']}[name]
            want = os.path.join(ws, *parts)
            check_eq(str(f()), want, call)
            check(os.path.isdir(want), '{} is not there', want)
            new = set(tree(top)) - set(before)
            check(set(before) <= set(tree(top)), '{} removed files', call)
            check(all(want == os.path.join(top, x) or want.startswith(os.path.join(top, x) + os.sep) for x in new),
                  '{} made {}', call, sorted(new))
            rec.label('made' if new else 'there')
        check(all(open(k).read() == 'keep' for k in kept), 'files of the workspace were changed')
        rec.label('good')
        rec.nontrivial(len(case['calls']) >= 2)
    finally:
        shutil.rmtree(top)


SUBS = [Sub('config', case, fn, quick=1500, thorough=20000, shards=4, rule='a refused file, or two or more directories asked for',
            must_label=('good', 'broken', 'missing', 'directory', 'binary', 'made', 'there', 'unavailable'))]
ASSUMPTIONS = ['a workspace which can be written']
