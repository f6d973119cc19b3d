"""In-process execution of the commands of /repo/beer/cli/beer."""
import contextlib
import io
import logging
import os
import runpy
import sys
import torch

REPO = os.environ.get('BEER_REPO', '/repo')
SCRIPT = os.path.join(REPO, 'beer', 'cli', 'beer')


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelname, record.getMessage()))


_log = Log()


def run(*argv, stdin='', seed=None):
    '''Run `beer argv...`; returns its standard output. A non-zero exit or an
    exception propagates to the caller.'''
    root = logging.getLogger()
    if _log not in root.handlers:
        root.handlers[:] = [_log]
    _log.lines.clear()
    out = io.StringIO()
    old = sys.argv, sys.stdin, torch.get_default_dtype()
    args = [str(a) for a in argv]
    if seed is not None:
        args = ['-s', str(seed)] + args
    sys.argv = [SCRIPT] + args
    sys.stdin = io.StringIO(stdin)
    torch.set_default_dtype(torch.float32)
    try:
        with contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(io.StringIO()) as err:
            try:
                runpy.run_path(SCRIPT, run_name='__main__')
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError(
                        f'beer {" ".join(args)}: exit {e.code}: '
                        f'{err.getvalue()}') from e
    finally:
        sys.argv, sys.stdin = old[:2]
        torch.set_default_dtype(old[2])
    return out.getvalue()


def log():
    return list(_log.lines)


def script(path, *argv, stdin=''):
    'Run a python script of the repository; returns its standard output.'
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin
    sys.argv = [path] + [str(a) for a in argv]
    sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(os.path.join(REPO, path), run_name='__main__')
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError(
                        f'{path} {argv}: exit {e.code}: '
                        f'{err.getvalue()}') from e
    finally:
        sys.argv, sys.stdin = old
    return out.getvalue()
