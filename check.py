#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY> [--replay FILE] [--tier quick|thorough]

Runs under the interpreter norfair is installed in, with the code imported from
/repo's current working tree.  Exit 0: held on everything explored.  Exit 1 and a
VIOLATION line: broken.  Anything else: an error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"

_ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TERM": "dumb",
    "COLUMNS": "120",
    "VF_CHILD": "1",
}

if os.environ.get("VF_CHILD") != "1":
    env = dict(os.environ)
    env.update(_ENV)
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execve(python, [python, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)

from vf.bootstrap import always_compile, ensure_hypothesis  # noqa: E402

always_compile(REPO)
ensure_hypothesis(HERE)

from vf.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(HERE, REPO, sys.argv[1:]))
