"""Makes /verif/seeded/<id> from a bug definition file, after confirming it in a scratch copy.

plant.py DEFS.py [ID ...]: DEFS.py defines BUGS = [dict(id, prop, file, old, new, needs, breaks, demo)], old/new may be
lists of (file, old, new) under "edits" instead.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = "import sys, os\nimport numpy as np\n"


def sh(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in defs:
        if want and b["id"] not in want:
            continue
        work = "/tmp/plant-%s" % b["id"]
        shutil.rmtree(work, ignore_errors=True)
        sh(["git", "-C", "/repo", "worktree", "prune"], "/")
        shutil.copytree("/repo", work, ignore=shutil.ignore_patterns("demos", "docs", "__pycache__"))
        sh(["git", "checkout", "--", "."], work)
        ok = True
        for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "PATTERN COUNT", s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            shutil.rmtree(work)
            continue
        diff = sh(["git", "diff"], work).stdout
        out = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(HEAD + b["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0: the property holds in this scenario\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        tests = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--disable-warnings", "tests"], work, env)
        good = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        bad = sh(["bash", os.path.join(out, "demo.sh")], work, env)
        state = []
        if "25 passed" not in tests.stdout:
            state.append("TESTS: " + tests.stdout[-300:])
        if good.returncode != 0:
            state.append("DEMO FAILS ON CLEAN: " + good.stdout[-400:])
        if bad.returncode == 0:
            state.append("DEMO PASSES ON BUG")
        caught = ""
        if not state:
            res = sh([PY, os.path.join(HERE, "check.py"), b["prop"]], HERE, dict(os.environ, VERIF_REPO=work, VERIF_SEED="1", VERIF_TIER="quick"), 900)
            caught = "caught" if res.returncode == 1 and "VIOLATION property=%s " % b["prop"] in res.stdout else "MISSED rc=%d" % res.returncode
            first = res.stdout.split("\n")[0][:150]
        print(b["id"], b["prop"], "; ".join(state) or ("ok " + caught + " | " + first), flush=True)
        if state:
            shutil.rmtree(out)
        shutil.rmtree(work)


main()
