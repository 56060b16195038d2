"""Runs the demo scripts of the repository as a user does, inside the process and a scratch folder."""
import contextlib
import io
import os
import runpy
import sys
import traceback

from . import core
from .core import Discard, Gone, Violation


class Globals(dict):
    def __missing__(self, name):
        raise Gone(name)


class _Out(io.StringIO):
    encoding = "utf-8"


def path(*parts):
    return os.path.join(core.REPO, "demos", *parts)


@contextlib.contextmanager
def swapped(pairs):
    """(object, attribute, value) triples, put back afterwards."""
    old = [(o, a, getattr(o, a)) for o, a, _ in pairs]
    try:
        for o, a, v in pairs:
            setattr(o, a, v)
        yield
    finally:
        for o, a, v in reversed(old):
            setattr(o, a, v)


@contextlib.contextmanager
def stubs(modules):
    """Modules that stand in for the ones that are not installed; modules imported meanwhile from the demos are forgotten."""
    root = path()
    before = dict(sys.modules)
    try:
        sys.modules.update(modules)
        yield
    finally:
        for name in list(sys.modules):
            mod = sys.modules[name]
            if name in modules or str(getattr(mod, "__file__", None) or "").startswith(root):
                if name in before:
                    sys.modules[name] = before[name]
                else:
                    del sys.modules[name]


def run_script(script, args, cwd, modules=(), name="__main__"):
    """Runs a script; returns (globals, what it printed). Whatever it raises is a violation."""
    out = _Out()
    argv, here, syspath, byte = sys.argv, os.getcwd(), list(sys.path), sys.dont_write_bytecode
    try:
        sys.dont_write_bytecode = True
        sys.argv = [script] + [str(a) for a in args]
        sys.path.insert(0, os.path.dirname(script))
        os.chdir(cwd)
        with stubs(dict(modules)), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            return Globals(runpy.run_path(script, run_name=name)), out.getvalue()
    except (Discard, Violation):
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, SystemExit) and not e.code:
            return Globals(), out.getvalue()
        last = traceback.extract_tb(e.__traceback__)[-3:]
        raise Violation("%s %s raised %s: %s (%s)%s" % (
            os.path.basename(script), " ".join(map(str, args)), type(e).__name__, e,
            "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in last), out.getvalue()[-300:] if isinstance(e, SystemExit) else ""))
    finally:
        sys.argv, sys.path[:], sys.dont_write_bytecode = argv, syspath, byte
        os.chdir(here)
