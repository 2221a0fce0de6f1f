"""Crash and fault injection at line granularity, independent of how the code is written.

`crashes(fn, ...)` runs fn in a forked child that dies (os._exit, no cleanup, nothing flushed) at the k-th line executed in the
code under test, for increasing k, until the child completes.  `faults(fn, ...)` runs fn in this process and raises an OSError
there instead.  Both yield k after each interrupted run, so that the caller inspects what was left behind."""
import linecache
import os
import re
import sys
from pathlib import Path

from vlib.core import REPO

ROOT = str(Path(REPO) / "seyfert") + os.sep


class Injected(OSError):
    pass


def _trace(k, act, only, count):
    def local(frame, event, arg):
        if event in ("line", "return"):
            count[0] += 1
            if count[0] == k:
                act()
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(ROOT) and (only is None or any(x in f for x in only)):
            count[0] += 1
            if count[0] == k:
                act()
            return local
        return None
    return glob


def total(fn, only=None):
    """number of injection points of fn (fn is run once, completely)"""
    count = [0]
    sys.settrace(_trace(-1, None, only, count))
    try:
        fn()
    finally:
        sys.settrace(None)
    return count[0]


WRITES = re.compile(r"dump\(|saveTo|write|to_csv|to_hdf|open\(|copy|rename|replace\(|symlink|unlink|mkdir|rmtree|File\(")


def marks(fn, only=None):
    """number of injection points of fn (run once, completely), and those which are about to write something"""
    out, count = [], [0]

    def seen(frame):
        count[0] += 1
        if WRITES.search(linecache.getline(frame.f_code.co_filename, frame.f_lineno)):
            out.append(count[0])

    def local(frame, event, arg):
        if event in ("line", "return"):
            seen(frame)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(ROOT) and (only is None or any(x in f for x in only)):
            seen(frame)
            return local
        return None
    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return count[0], out


def in_child(fn):
    """run fn in a forked child; returns its exit status (0 completed, 97 raised, other: killed/died)"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fn()
        except BaseException:
            code = 97
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def crash_at(fn, k, only=None):
    def run():
        sys.settrace(_trace(k, lambda: os._exit(55), only, [0]))
        fn()
    return in_child(run)


def crashes(fn, points, only=None):
    for k in points:
        code = crash_at(fn, k, only)
        yield k, code
        if code == 0:
            return


def faults(fn, points, only=None):
    def act():
        raise Injected(28, "injected: no space left on device")
    for k in points:
        sys.settrace(_trace(k, act, only, [0]))
        try:
            fn()
            done = True
        except Injected:
            done = False
        finally:
            sys.settrace(None)
        yield k, 0 if done else 55
