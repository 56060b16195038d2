"""Makes Hypothesis importable, offline, in the interpreter that has norfair."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

WHEELS = "/opt/veriftools/wheels"
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def always_compile(repo):
    """Modules of the code under test are compiled from source, never read from a .pyc."""
    from importlib.machinery import SourceFileLoader

    original = SourceFileLoader.get_code
    prefix = os.path.join(os.path.abspath(repo), "norfair") + os.sep

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if os.path.abspath(path).startswith(prefix):
            return self.source_to_code(self.get_data(path), path)
        return original(self, fullname)

    SourceFileLoader.get_code = get_code


def _importable():
    try:
        import hypothesis  # noqa: F401
        import sortedcontainers  # noqa: F401

        return True
    except Exception:
        for m in [m for m in sys.modules if m.split(".")[0] in ("hypothesis", "sortedcontainers")]:
            del sys.modules[m]
        return False


def unpack(root):
    """Unzips the wheels into <root>/.deps (atomically); returns the folder or None."""
    deps = os.path.join(root, ".deps")
    if os.path.isdir(os.path.join(deps, "hypothesis")):
        return deps
    tag = "cp%d%d" % sys.version_info[:2]
    wheels = glob.glob(os.path.join(WHEELS, "hypothesis-*-%s-*.whl" % tag))
    wheels += glob.glob(os.path.join(WHEELS, "sortedcontainers-*.whl"))
    if len(wheels) < 2:
        return None
    try:
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=root)
        for wheel in wheels:
            with zipfile.ZipFile(wheel) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, deps)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return deps if os.path.isdir(os.path.join(deps, "hypothesis")) else None
    except OSError:
        return None


def ensure_hypothesis(root):
    if _importable():
        return
    deps = unpack(root)
    if deps:
        # at the end: norfair's own dependencies keep priority
        sys.path.append(deps)
        if _importable():
            return
        sys.path.remove(deps)
    sys.path.append(FALLBACK)
    if not _importable():
        print("ERROR: hypothesis is not available", file=sys.stderr)
        sys.exit(2)


if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    print(unpack(here))
