"""C23 packaging builds exactly the self-contained contracts asked for"""
import contextlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
import zipfile

import guard
from chain import REPO
from core import Violation, require
from gen import sampled, st, weighted
from runner import Test

LEVEL = 'exploration'
RULE = ('a build is non-trivial when at least one package was produced next to stale or foreign files, or from a source tree '
        'with extra files, and compared file by file; a deployment when the unpacked packages traded')
ASSUMPTIONS = ['everything happens in scratch copies of the project; file operations outside are blocked before they happen',
               'a package is deployed by importing main_file from the unpacked directory and running main_score on iconservice']

CONTRACTS = ['flexible_token', 'icx_token', 'irc_token', 'score_registry', 'network', 'converter']
NOTICE = ['flexible_token', 'icx_token', 'score_registry', 'network', 'converter']
TYPES = ['ZIP_STORED', 'ZIP_DEFLATED', 'ZIP_BZIP2', 'ZIP_LZMA']
PARTS = ['build.py', 'contract_generator', 'contracts', 'NOTICE']


# -- scratch projects ------------------------------------------------------------------------------
def copy_project(to):
    os.makedirs(to, exist_ok=True)
    for p in PARTS:
        src = os.path.join(REPO, p)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(to, p), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        else:
            shutil.copy(src, os.path.join(to, p))


def read_tree(root):
    """{relative path: bytes} of all files, directories without files with None"""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        for f in files:
            with open(os.path.join(d, f), 'rb') as fp:
                out[os.path.normpath(os.path.join(rel, f))] = fp.read()
        if not dirs and not files:
            out[os.path.normpath(rel) + os.sep] = None
    return out


def files_of(tree):
    return {k: v for k, v in tree.items() if v is not None}


def write_tree(root, tree):
    for rel, content in tree:
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(content)


def check_package(name, got, project, what):
    """got: {path inside the output: bytes} of one package; the sources are in project"""
    own = os.path.join(project, 'contracts', name)
    want = {}
    for d, dirs, files in os.walk(own):
        dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')]
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), os.path.join(project, 'contracts'))
            with open(os.path.join(d, f), 'rb') as fp:
                want[f'{name}/package.json' if f == 'package.json' else f'{name}/{rel}'] = fp.read()
    for p, content in want.items():
        require(p in got, '{}: {} is missing', what, p)
        require(got[p] == content, '{}: {} is not identical to its source', what, p)
    require(f'{name}/package.json' in got, '{}: no package.json at the root of {}', what, name)
    if name in NOTICE:
        with open(os.path.join(project, 'NOTICE'), 'rb') as f:
            require(got.get(f'{name}/NOTICE') == f.read(), '{}: no NOTICE in {}', what, name)
    for p, content in got.items():
        if p in want or p == f'{name}/NOTICE':
            continue
        require(p.startswith(name + '/'), '{}: {} is outside of the package', what, p)
        src = os.path.join(project, 'contracts', p[len(name) + 1:])
        require(not p.startswith(f'{name}/{name}/'), '{}: {} does not belong into the package', what, p)
        require(os.path.isfile(src), '{}: {} has no source', what, p)
        with open(src, 'rb') as f:
            require(f.read() == content, '{}: {} is not identical to its source', what, p)
        parts = p.split('/')
        require('tests' not in parts and '__pycache__' not in parts, '{}: {} is a test or a cache', what, p)


# -- generated builds ------------------------------------------------------------------------------
EXTRA = ['extra.py', 'sub/mod.py', 'sub/__init__.py', 'tests/test_x.py', 'tests/deep/test_y.py', 'tests/deep/er/data.json',
         '__pycache__/x.pyc', 'sub/__pycache__/y.pyc', 'sub/tests/test_z.py', 'sub/tests/deep/t.py', 'sub/deeper/mod.py', 'data.txt',
         'mytests/x.py', 'tests_data.py', 'pycache.py', 'contracts/inner.py', 'sub/contracts/inner.py',
         '__pycache__/x.nbi', 'sub/__pycache__/deep/x.txt', 'sub/__pycache__/mod.py']
STALE = ['old.py', '{c}/old.py', 'interfaces/gone.py', 'tests/old.py', 'deep/er/x', 'NOTICE', 'package.json']


def selection():
    return weighted((3, st.lists(sampled(CONTRACTS), min_size=1, max_size=3, unique=True)),
                    (1, st.lists(sampled(CONTRACTS), min_size=1, max_size=6, unique=True)), (1, st.none()), (1, st.just([])))


def strategy():
    return st.fixed_dictionaries({
        'extra': st.lists(st.tuples(sampled(CONTRACTS), sampled(EXTRA)).map(list), max_size=4),
        'stale': st.lists(st.tuples(sampled(CONTRACTS + ['other', 'other']), sampled(STALE)).map(list), max_size=4),
        'loose': st.booleans(),
        'place': sampled(['project', 'my contracts', 'contracts/contracts', 'a-b.c', 'converter']),
        'spell': sampled(['absolute', 'relative', 'slash', 'dot', 'updown', 'double']),
        'out': sampled(['build', 'out/put', 'deep/er/build', 'contracts_out']),
        'steps': st.lists(st.fixed_dictionaries({
            'do': sampled(['file', 'file', 'file', 'zip', 'zip', 'extract', 'clean', 'bogus']), 'sel': selection(),
            'type': sampled(TYPES), 'cwd': sampled(['project', 'outside', 'contracts', 'out'])}), min_size=1, max_size=4)})


def spelling(how, project, cwd):
    p = os.path.join(project, 'contracts')
    if how == 'relative':
        return os.path.relpath(p, cwd)
    if how == 'slash':
        return p + os.sep
    if how == 'dot':
        return os.path.join('.', os.path.relpath(p, cwd))
    if how == 'updown':
        return os.path.join(project, 'contracts', '..', 'contracts')
    if how == 'double':
        return project + os.sep + os.sep + 'contracts'
    return p


_BASE = {}


def base():
    """the sources to copy from: one clean copy per process"""
    if os.getpid() not in _BASE:
        d = tempfile.mkdtemp(prefix='verif-c23-')
        copy_project(d)
        _BASE.clear()
        _BASE[os.getpid()] = d
        import atexit
        import multiprocessing.util
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
        atexit.register(shutil.rmtree, d, True)
    return _BASE[os.getpid()]


def tools():
    """the packaging classes"""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            from contract_generator.builder import Builder
            from contract_generator.writer import FileWriter, ZipWriter
        except Exception as e:
            require(False, 'the packaging tools cannot be imported: {} {}', type(e).__name__, e)
    return Builder, FileWriter, ZipWriter


def execute(case, stats):
    top = tempfile.mkdtemp(prefix='verif-c23-')
    old = os.getcwd()
    try:
        return run(case, stats, top)
    finally:
        os.chdir(old)
        shutil.rmtree(top, True)


def run(case, stats, top):
    Builder, FileWriter, ZipWriter = tools()
    project = os.path.join(top, case['place'])
    shutil.copytree(base(), project)
    outside = os.path.join(top, 'outside')
    os.makedirs(outside)
    write_tree(outside, [('keep.txt', 'keep')])
    write_tree(os.path.join(project, 'contracts'), [(os.path.join(c, rel), f'# {c} {rel}\n') for c, rel in case['extra']])
    out = os.path.join(top, case['out'])
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if case['stale']:
        write_tree(out, [(os.path.join(c, rel.format(c=c)), f'stale {rel}') for c, rel in case['stale']])
    if case['loose']:
        write_tree(out, [('loose.txt', 'loose')])
        write_tree(os.path.dirname(out), [('beside.txt', 'beside')])
    sources = read_tree(project)
    good = False
    model = read_tree(out) if os.path.isdir(out) else None

    def rest():
        """everything but the output"""
        t = {k: v for k, v in read_tree(top).items() if not k.startswith(case['out'] + os.sep)}
        return {k: v for k, v in t.items() if v is not None}
    others = rest()
    for step in case['steps']:
        cwd = {'project': project, 'outside': outside, 'contracts': os.path.join(project, 'contracts'), 'out': out}[step['cwd']]
        if not os.path.isdir(cwd) or (step['do'] == 'extract' and step['cwd'] == 'out'):
            cwd = outside       # (extracting replaces the output directory)
        os.chdir(cwd)
        sel = step['sel']
        names = sel or CONTRACTS
        source = spelling(case['spell'], project, os.getcwd())
        what = f'{step["do"]} of {sel} from {source} in {os.path.relpath(os.getcwd(), top)}'
        try:
            with guard.scratch(top):
                if step['do'] == 'bogus':
                    bogus = ['bogus', 'utility', 'formula', 'Converter', 'converter/', ''][len(names) % 6]
                    asked = (list(sel or []) + [bogus]) if len(names) % 2 else [bogus] + list(sel or [])
                    refused = False
                    try:
                        Builder(source, asked).build(FileWriter(out))
                    except guard.Escape:
                        raise
                    except Exception:
                        refused = True
                    require(refused, 'building {} was not refused', asked)
                    stats.label('unknown name refused')
                elif step['do'] == 'file':
                    for _ in range(2):      # building again changes nothing
                        Builder(source, sel).build(FileWriter(out))
                        now = read_tree(out)
                        model = check_file(model, now, names, project, what)
                    good = good or bool(case['stale'] or case['extra'])
                    stats.label('file build' + (' over stale files' if case['stale'] else ''))
                elif step['do'] in ('zip', 'extract'):
                    z = ZipWriter(step['type']) if step['type'] != 'ZIP_STORED' or len(names) % 2 else ZipWriter()
                    Builder(source, sel).build(z)
                    check_zip(z, names, project, step['type'], what)
                    if step['do'] == 'extract':
                        z.store_to_file(out)
                        tree = read_tree(out)
                        with zipfile.ZipFile(io.BytesIO(z.to_bytes())) as f:
                            archive = {os.path.normpath(i): f.read(i) for i in f.namelist() if not i.endswith('/')}
                        require(files_of(tree) == archive, '{}: extracted {}, archive has {}', what, sorted(tree), sorted(archive))
                        model = tree
                    good = good or bool(case['extra'] or case['stale'])
                    stats.label(f'{step["do"]} {step["type"]}')
                else:
                    there = os.path.isdir(out)
                    os.chdir(outside)
                    ok = FileWriter(out).clean()
                    require(bool(ok) == there, 'clean of {} directory says {}', 'an existing' if there else 'no', ok)
                    require(not os.path.exists(out), 'clean left the output directory')
                    model = None
                    stats.label('clean')
        except guard.Escape as e:
            require(False, '{}: touched a file outside: {}', what, e)
        except Violation:
            raise
        except Exception as e:
            require(False, '{} failed: {} {}', what, type(e).__name__, e)
        now = read_tree(out) if os.path.isdir(out) else None
        require(now == model, '{}: the output directory is {}', what, diff(model, now))
        require(rest() == others, '{}: changed {}', what, diff(others, rest()))
        require(read_tree(project) == sources, '{}: changed the sources {}', what, diff(sources, read_tree(project)))
    return good


def diff(a, b):
    a, b = a or {}, b or {}
    return {'missing': sorted(set(a) - set(b))[:5], 'unexpected': sorted(set(b) - set(a))[:5],
            'different': [k for k in a if k in b and a[k] != b[k]][:5]}


def check_file(model, now, names, project, what):
    inside, outer = {}, {}
    for p, c in now.items():
        first = p.split(os.sep)[0]
        (inside.setdefault(first, {}) if first in names else outer)[p] = c
    for n in names:
        require(n in inside, '{}: no package {}', what, n)
        require(all(c is not None for c in inside[n].values()), '{}: an empty directory in {}', what, n)
        check_package(n, inside[n], project, what)
    kept = {p: c for p, c in (model or {}).items() if p.split(os.sep)[0] not in names and p != './'}
    require(outer == kept, '{}: other outputs changed: {}', what, diff(kept, outer))
    return now


def check_zip(z, names, project, kind, what):
    data = z.to_bytes()
    with zipfile.ZipFile(io.BytesIO(data)) as f:
        require(f.testzip() is None, '{}: the archive is damaged', what)
        infos = [i for i in f.infolist() if not i.filename.endswith('/')]
        got = {i.filename: f.read(i.filename) for i in infos}
        want = getattr(zipfile, kind)
        require(all(i.compress_type == want for i in infos), '{}: compressed otherwise than {}', what, kind)
    require(len(got) == len(infos), '{}: a file is in the archive twice', what)
    by = {}
    for p, c in got.items():
        by.setdefault(p.split('/')[0], {})[p] = c
    require(set(by) == set(names), '{}: the archive has packages {}', what, sorted(by))
    for n in names:
        check_package(n, by[n], project, what)
    listed = [i.filename for i in z.list_content()]
    require(sorted(listed) == sorted(i.filename for i in infos), '{}: list_content says {}', what, listed)


# -- file, archive and extraction agree; wrong compression types --------------------------------------
def agree_strategy():
    return st.fixed_dictionaries({'sel': selection(), 'types': st.lists(sampled(TYPES), min_size=2, max_size=4, unique=True),
                                  'wrong': sampled(['', 'ZIP', 'zip_stored', 'DEFLATED', 'ZIP_DEFLATE', 'ZIP_LZMA2', 'GZIP'])})


def agree(case, stats):
    Builder, FileWriter, ZipWriter = tools()
    top = tempfile.mkdtemp(prefix='verif-c23-')
    try:
        source = os.path.join(base(), 'contracts')
        with guard.scratch(top):
            Builder(source, case['sel']).build(FileWriter(os.path.join(top, 'out')))
            tree = read_tree(os.path.join(top, 'out'))
            builder = Builder(source, case['sel'])
            for t in case['types']:
                z = ZipWriter(t)
                builder.build(z)        # one builder may serve several writers
                z.store_to_file(os.path.join(top, t))
                other = read_tree(os.path.join(top, t))
                require(other == tree, '{} {}: archive and directory differ: {}', case['sel'], t, diff(tree, other))
            names = case['sel'] or CONTRACTS
            require({p.split(os.sep)[0] for p in tree} == set(names), '{} built {}', names, sorted(tree))
            for n in names:
                check_package(n, {p: c for p, c in tree.items() if p.split(os.sep)[0] == n}, base(), f'build of {names}')
            refused = False
            try:
                ZipWriter(case['wrong'])
            except guard.Escape:
                raise
            except Exception:
                refused = True
            require(refused, 'compression type {!r} was accepted', case['wrong'])
    except guard.Escape as e:
        require(False, 'touched a file outside: {}', e)
    except Violation:
        raise
    except Exception as e:
        require(False, 'building {} failed: {} {}', case['sel'], type(e).__name__, e)
    finally:
        shutil.rmtree(top, True)
    return True


# -- the command line ----------------------------------------------------------------------------
def cli_cases(tier):
    out = []
    sels = [[], ['converter'], ['irc_token', 'network'], ['icx_token'], ['score_registry', 'flexible_token', 'converter']]
    for k, cwd in enumerate(['project', 'outside', 'contracts']):
        for i, sel in enumerate(sels):
            if tier == 'thorough' or (i + k) % 2 == 0:
                out.append({'cwd': cwd, 'sel': sel, 'way': ['absolute', 'relative'][(i + k) % 2]})
    return out


def cli(case, stats):
    top = tempfile.mkdtemp(prefix='verif-c23-')
    try:
        project = os.path.join(top, 'project')
        copy_project(project)
        outside = os.path.join(top, 'outside')
        os.makedirs(outside)
        cwd = {'project': project, 'outside': outside, 'contracts': os.path.join(project, 'contracts')}[case['cwd']]
        script = os.path.join(project, 'build.py')
        if case['way'] == 'relative':
            script = os.path.relpath(script, cwd)
        before = files_of(read_tree(top))

        def build(*args):
            p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(guard.__file__), 'run_guarded.py'), top, script,
                                *args], cwd=cwd, capture_output=True, text=True, timeout=120,
                               env={k: v for k, v in os.environ.items() if k != 'PYTHONPATH'})
            require('ESCAPE' not in p.stdout, 'build.py {} touched a file outside: {}', args, p.stdout)
            return p

        def outputs():
            return {k: v for k, v in files_of(read_tree(top)).items() if k not in before}
        p = build(*case['sel'])
        require(p.returncode == 0, 'build.py {} in {} failed: {}', case['sel'], case['cwd'], p.stderr[-300:])
        names = case['sel'] or CONTRACTS
        got = outputs()
        pre = os.path.join('project', 'build') + os.sep
        require(all(k.startswith(pre) for k in got), 'build.py wrote {}', [k for k in got if not k.startswith(pre)])
        tree = {k[len(pre):]: v for k, v in got.items()}
        require({k.split(os.sep)[0] for k in tree} == set(names), 'build.py {} built {}', case['sel'],
                sorted({k.split(os.sep)[0] for k in tree}))
        for n in names:
            check_package(n, {k: v for k, v in tree.items() if k.split(os.sep)[0] == n}, project, f'build.py {case["sel"]}')
        build('nonsense')
        build('irc_token', 'nonsense')
        require(outputs() == got, 'build.py with an unknown name changed {}', diff(got, outputs()))
        build(*case['sel'])
        require(outputs() == got, 'building again changed {}', diff(got, outputs()))
        build('clean')
        require(not os.path.exists(os.path.join(project, 'build')), 'build.py clean left the build directory')
        require(files_of(read_tree(top)) == before, 'build.py clean changed {}', diff(before, files_of(read_tree(top))))
        build('clean')
        require(files_of(read_tree(top)) == before, 'build.py clean twice changed {}', diff(before, files_of(read_tree(top))))
        stats.label('command line in ' + case['cwd'])
    finally:
        shutil.rmtree(top, True)
    return True


# -- packages work on their own ----------------------------------------------------------------------
def deploy_cases(tier):
    out = [{'writer': 'file', 'sel': None}] + [{'writer': t, 'sel': None} for t in TYPES]
    out += [{'writer': 'file', 'sel': [c]} for c in CONTRACTS]
    return out if tier == 'thorough' else out[:2] + out[3:4] + out[5:]


def deploy(case, stats):
    Builder, FileWriter, ZipWriter = tools()
    top = tempfile.mkdtemp(prefix='verif-c23-')
    try:
        base()
        with guard.scratch(top):
            out = os.path.join(top, 'out')
            try:
                if case['writer'] == 'file':
                    Builder(os.path.join(base(), 'contracts'), case['sel']).build(FileWriter(out))
                else:
                    z = ZipWriter(case['writer'])
                    Builder(os.path.join(base(), 'contracts'), case['sel']).build(z)
                    z.store_to_file(out)
            except guard.Escape:
                raise
            except Exception as e:
                require(False, 'building {} with {} failed: {} {}', case['sel'], case['writer'], type(e).__name__, e)
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'VERIF_REPO')}
        p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(guard.__file__), 'package_run.py'), out],
                           cwd=top, capture_output=True, text=True, timeout=300, env=env)
        line = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
        if not line:
            raise RuntimeError(f'package run gave no result: {p.stderr[-2000:]}')
        result = json.loads(line[0][7:])
        require('leak' not in result, 'a package uses files outside of it: {}', result)
        for n in case['sel'] or CONTRACTS:
            require(result[n] == 'loaded', 'the package {} cannot be loaded on its own: {}', n, result[n])
        if case['sel'] is None:
            require(result['trade'][:1] == ['ok'], 'the deployed packages do not work: {}', result['trade'])
            stats.label('packages deployed and traded')
    except guard.Escape as e:
        require(False, 'touched a file outside: {}', e)
    finally:
        shutil.rmtree(top, True)
    return True


TESTS = [Test('deployment', None, deploy, quick=0, enum=deploy_cases),
         Test('command_line', None, cli, quick=0, enum=cli_cases),
         Test('builds', strategy, execute, quick=360, thorough=8000),
         Test('agreement', agree_strategy, agree, quick=100, thorough=2000)]
