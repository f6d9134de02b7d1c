# -*- coding: utf-8 -*-
"""python check.py <property id> [--tier quick|thorough] [--replay FILE] [--only SEARCH]"""
import argparse
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1'}


def bootstrap():
    # same interpreter state on every run; a private, empty bytecode cache so that
    # only the sources in the working tree are ever executed
    if os.environ.get('VERIF_BOOT') != '1':
        env = dict(os.environ, VERIF_BOOT='1', PYTHONPYCACHEPREFIX=os.path.join(tempfile.gettempdir(), 'verif-no-pyc'),
                   HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tempfile.gettempdir(), 'verif-hypothesis'), **WANT)
        env.pop('PYTHONPATH', None)
        os.execve(PYTHON, [PYTHON, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path[:0] = [HERE, os.path.join(HERE, 'lib')]
    # hypothesis, mpmath, ... (appended: never shadows the project's environment)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--selfcheck', action='store_true', help='everything the checks need can be imported')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    parser.add_argument('--replay')
    parser.add_argument('--only')
    args = parser.parse_args()
    bootstrap()
    try:
        import runner
        if args.selfcheck:
            import gen, hypothesis, mpmath, world  # noqa: F401,E401
            world.make_world()
            print('ready')
            code = 0
        elif args.replay:
            code = runner.replay(args.property, args.replay)
        else:
            code = runner.main(args.property, args.tier, args.only)
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
