"""Run the real command line scripts of the repository, and stand-ins of the programs they start."""
import contextlib
import io
import logging
import os
import stat
import sys
from pathlib import Path
from unittest import mock

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


def load(name):
    """the globals of bin/<name>, without running its main block"""
    g = {"__name__": "loaded_" + name, "__file__": str(REPO / "bin" / name)}
    exec(compile((REPO / "bin" / name).read_text(), g["__file__"], "exec"), g)
    return g


def parser(name):
    g = load(name)
    for f in ("specific_program_options", "program_params", "program_options"):
        if f in g:
            return g[f]()
    raise LookupError(name)


@contextlib.contextmanager
def quiet():
    """whatever is done to the root logger and the standard output inside is undone"""
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    finally:
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
                h.close()
        root.handlers[:] = handlers
        root.setLevel(level)


def run(name, argv, cwd):
    """python bin/<name> argv, in this process; what the script raises is raised here"""
    g = {"__name__": "__main__", "__file__": str(REPO / "bin" / name)}
    code = compile((REPO / "bin" / name).read_text(), g["__file__"], "exec")
    old = os.getcwd()
    os.chdir(cwd)
    try:
        with mock.patch.object(sys, "argv", [name] + [str(a) for a in argv]), quiet() as out:
            exec(code, g)
        return out.getvalue()
    finally:
        os.chdir(old)


class Programs:
    """programs on a PATH of their own, which record how they are called: name, directory and arguments, in order.
    What a program does besides is the shell text `does[name]`; `fail` maps part of a call to shell text that ends it."""

    def __init__(self, base, names, does=None):
        self.dir = Path(base) / "programs"
        self.dir.mkdir(parents=True)
        self.log = self.dir / "calls.bin"
        self.fail_file = self.dir / "fail.sh"
        self.fail_file.write_text("")
        for n in names:
            f = self.dir / n
            f.write_text("#!/bin/bash\n"
                         f"{{ printf '%s\\0' '{n}' \"$PWD\" \"$@\"; printf '\\036'; }} >> '{self.log}'\n"
                         f"call=\" {n} $PWD $* \"\n"
                         'opt() { local p="" a; for a in "${args[@]}"; do [ "$p" = "$1" ] && { printf %s "$a"; return; }; p="$a"; done; }\n'
                         'args=("$@")\n'
                         f". '{self.fail_file}'\n" + (does or {}).get(n, "") + "\nexit 0\n")
            f.chmod(f.stat().st_mode | stat.S_IXUSR)

    def fail(self, part=None, how=""):
        self.fail_file.write_text(f'case "$call" in *{part}*) {how} ;; esac\n' if part else "")

    def calls(self, clear=True):
        if not self.log.is_file():
            return []
        out = [tuple(r.split("\0")[:-1]) for r in self.log.read_text().split("\036")[:-1]]
        if clear:
            self.log.unlink()
        return [(c[0], Path(c[1]), list(c[2:])) for c in out]

    @contextlib.contextmanager
    def on_path(self, **env):
        drop = [k for k, v in env.items() if v is None]
        new = {"PATH": f"{self.dir}:/usr/bin:/bin", **{k: str(v) for k, v in env.items() if v is not None}}
        with mock.patch.dict(os.environ, new):
            for k in drop + ([] if "VIRTUAL_ENV" in env else ["VIRTUAL_ENV"]):
                os.environ.pop(k, None)
            yield
