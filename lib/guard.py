# -*- coding: utf-8 -*-
"""Keeps the packaging code away from everything but a scratch directory: while
switched on, an attempt to write, delete, rename or run anything outside raises
before it happens (Python audit events)."""
import os
import sys

SCRATCH = None      # directory in which writing is allowed; None: switched off
ESCAPES = []

_installed = False
_WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
# event -> positions of the paths it changes
_PATHS = {
    'shutil.rmtree': (0,), 'shutil.move': (0, 1), 'shutil.copyfile': (1,), 'shutil.copymode': (1,), 'shutil.copystat': (1,),
    'shutil.copytree': (1,), 'shutil.make_archive': (0,), 'shutil.unpack_archive': (1,), 'shutil.chown': (0,),
    'os.remove': (0,), 'os.rmdir': (0,), 'os.mkdir': (0,), 'os.rename': (0, 1), 'os.truncate': (0,), 'os.link': (1,),
    'os.symlink': (1,), 'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,), 'os.chflags': (0,), 'os.setxattr': (0,),
    'os.removexattr': (0,),
}
_FORBIDDEN = ('os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork', 'os.forkpty', 'os.kill', 'os.killpg',
              'subprocess.Popen', 'ctypes.dlopen', 'shutil.chown')
_DIRFD = {'os.remove': 1, 'os.rmdir': 1, 'os.mkdir': 2, 'os.chmod': 2, 'os.chown': 3, 'os.utime': 3}


class Escape(Exception):
    """the code under test reached for something outside its scratch directory"""


def _inside(p):
    if isinstance(p, int):
        return True
    try:
        p = os.fsdecode(p)
    except TypeError:
        return True
    full = os.path.realpath(os.path.join(os.getcwd(), p))
    return full == SCRATCH or full.startswith(SCRATCH + os.sep)


def _hook(event, args):
    if SCRATCH is None:
        return
    bad = None
    if event == 'open':
        path, mode, flags = args
        writing = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (
            isinstance(flags, int) and flags & _WRITING)
        if writing and not isinstance(path, int) and path != os.devnull and not _inside(path):
            bad = path
    elif event in _PATHS:
        fd = _DIRFD.get(event)
        if fd is not None and len(args) > fd and isinstance(args[fd], int) and args[fd] >= 0:
            return      # an entry of a directory that was opened before (inside a permitted rmtree)
        for i in _PATHS[event]:
            if len(args) > i and args[i] is not None and not _inside(args[i]):
                bad = args[i]
    elif event in _FORBIDDEN:
        bad = str(args)[:100]
    if bad is not None:
        ESCAPES.append((event, str(bad)))
        raise Escape(f'{event} {bad}')


class scratch:
    """with scratch(directory): only this directory can be changed"""

    def __init__(self, directory):
        self.directory = os.path.realpath(directory)

    def __enter__(self):
        global _installed, SCRATCH
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        del ESCAPES[:]
        SCRATCH = self.directory
        return self

    def __exit__(self, *_):
        global SCRATCH
        SCRATCH = None
        return False
