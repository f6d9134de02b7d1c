"""Builds /verif/seeded/<id>/ from tools/planted.py and confirms each planted bug in a scratch copy of /repo:
it builds, the stable tests pass, the demonstration passes without and fails with the patch, and the
property's quick check reports it (recorded, not required).  usage: plant.py [--no-check] [ID...]"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = ['chain.py', 'core.py', 'actors.py', 'world.py']
PRELUDE = '''import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def check(ok, what):
    if not ok:
        print('FAIL:', what)
        sys.exit(1)


'''
RUN = '#!/bin/bash\nexec env VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -B ' \
      '"$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(bug, run_check):
    d = os.path.join(HERE, 'seeded', bug['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with tempfile.TemporaryDirectory(prefix='plant-') as tmp:
        repo = os.path.join(tmp, 'repo')
        sh(f'cp -a /repo {repo}')
        for name, old, new in bug['edits']:
            path = os.path.join(repo, name)
            with open(path) as f:
                text = f.read()
            assert text.count(old) == 1, (bug['id'], name, text.count(old), old)
            with open(path, 'w') as f:
                f.write(text.replace(old, new))
        patch = sh(f'git -C {repo} diff').stdout
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(patch)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(PRELUDE + bug['demo'].strip() + '\n')
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write(RUN)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        if 'from world' in bug['demo'] or 'from chain' in bug['demo']:
            for lib in LIBS:
                shutil.copy(os.path.join(HERE, 'lib', lib), d)
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        out = []
        for where, want in (('/repo', 0), (repo, 1)):
            r = sh(f'bash {d}/demo.sh', cwd=where, timeout=300)
            if (r.returncode != 0) != bool(want):
                out.append(f'DEMO on {"the patched" if want else "the unchanged"} tree: {r.returncode} {(r.stdout + r.stderr)[-600:]}')
        build = open('/opt/vp/build.sh').read().replace('/repo', repo)
        r = sh(build, executable='/bin/bash')
        if r.returncode:
            out.append('BUILD ' + r.stderr[-300:])
        test = open('/opt/vp/test.sh').read().replace('/repo', repo).replace('REPORTS=/opt/vp/reports', f'REPORTS={tmp}/reports')
        with open(os.path.join(tmp, 'test.sh'), 'w') as f:
            f.write(test)
        r = sh(f'bash {tmp}/test.sh {tmp}/out.json')
        with open('/opt/vp/BASELINE.json') as f:
            base = json.load(f)
        with open(f'{tmp}/out.json') as f:
            got = json.load(f)
        bad = broken(base, got)
        if bad:
            out.append(f'TESTS {bad[:3]}')
        caught = None
        if run_check:
            r = sh(f'python3 {HERE}/check.py {bug["property"]}', env=dict(os.environ, VERIF_REPO=repo))
            caught = r.returncode == 1 and f'VIOLATION property={bug["property"]}' in r.stdout
            first = (r.stdout + r.stderr).strip().splitlines()[0][:200]
            out.append(f'{"caught" if caught else "MISSED"} ({r.returncode}): {first}')
    print(bug['id'], bug['property'], *out, sep='\n    ', flush=True)


def names(x, key):
    if isinstance(x, dict):
        for k in (key, key + '_tests'):
            if k in x:
                return set(x[k])
    return set()


def broken(base, got):
    def passed(x):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if isinstance(x, dict) and k in x:
                v = x[k]
                return set(v) if isinstance(v, list) else {n for n, s in v.items() if s in ('passed', 'pass', True)}
        raise KeyError(list(x))
    return sorted(passed(base) - passed(got))


def main():
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    import planted
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for bug in planted.BUGS:
        if not args or any(re.fullmatch(a, bug['id']) for a in args):
            plant(bug, '--no-check' not in sys.argv)


if __name__ == '__main__':
    main()
