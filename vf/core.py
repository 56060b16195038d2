"""Runner: generated-input search (Hypothesis) sharded over processes, shrinking, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import logging
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter

REPO = "/repo"
CASE_CPU_SECONDS = 40  # a case normally needs milliseconds of CPU
SHRINK_SECONDS = 40
QUICK_WALL = 300  # soft: no new case after this; never a verdict
THOROUGH_WALL = 2400
N_SHARDS = 8


class Violation(Exception):
    pass


class Discard(Exception):
    """The generated case is outside the property's domain."""


class Gone(Discard):
    """A name the case needs is no longer there: nothing to judge, whatever is drawn."""


class CaseHang(BaseException):
    pass


class StopSearch(BaseException):
    pass


class Rec:
    """What one case tells about itself."""

    def __init__(self):
        self.nontrivial = False
        self.tags = Counter()

    def tag(self, *names):
        for n in names:
            self.tags[n] += 1


def fail(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    """One generated check. strategy() gives JSON-able cases; run(case, rec) raises Violation."""

    def __init__(self, name, strategy, run, quick, thorough=None, regressions=(), hangs=True):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.regressions = list(regressions)


def _short(obj, limit=1500):
    s = json.dumps(obj, sort_keys=True)
    return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)


def _touches_repo(exc):
    prefix = os.path.join(REPO, "norfair") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(prefix):
            return True
        tb = tb.tb_next
    return False


_SETUP_ERRORS = (ImportError, OSError, SyntaxError)


def run_case(sub, case, rec, timed=True):
    """Runs one case. Raises Violation / Discard / CaseHang; anything else is a harness error."""

    def on_timer(signum, frame):
        raise CaseHang()

    if timed:
        old = signal.signal(signal.SIGPROF, on_timer)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        sub.run(case, rec)
    except (Violation, Discard, CaseHang):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc(limit=-6)
        if _touches_repo(e):
            raise Violation("the library raised %s: %s\n%s" % (type(e).__name__, e, tb)) from e
        if not isinstance(e, _SETUP_ERRORS):
            # The oracle only evaluates outputs of the library: it never raises on outputs of
            # the documented shape and type.
            raise Violation("malformed output, the oracle raised %s: %s\n%s" % (type(e).__name__, e, tb)) from e
        raise
    finally:
        if timed:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)


def _seed_for(seed, prop, sub, shard):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, sub, shard)).encode()).hexdigest()
    return int(h[:15], 16)


def run_shard(prop, sub, n, seed, shard, deadline, stop):
    """Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    res = {
        "sub": sub.name, "evals": 0, "nontrivial": 0, "hashes": [], "samples": [], "tags": Counter(),
        "failure": None, "error": None, "truncated": False, "discarded": 0,
    }
    state = {"failing": None}
    hashes = set()

    def execute(case):
        if stop.is_set() and state["failing"] is None:
            raise StopSearch()
        if time.time() > deadline and state["failing"] is None:
            res["truncated"] = True
            raise StopSearch()
        rec = Rec()
        res["evals"] += 1
        try:
            run_case(sub, case, rec)
        except Violation as e:
            state["failing"] = (case, str(e))
            stop.set()
            raise
        except Gone:
            res["discarded"] += 1
            return
        except Discard:
            res["discarded"] += 1
            hypothesis.reject()
        except CaseHang:
            state["failing"] = (case, "did not finish within %d s of CPU time" % CASE_CPU_SECONDS)
            stop.set()
            raise StopSearch()
        res["tags"].update(rec.tags.keys())
        if rec.nontrivial:
            h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(res["samples"]) < 2 and (len(hashes) in (3, 20)):
                    res["samples"].append(case)

    try:
        if shard == 0:
            for case in sub.regressions:
                rec = Rec()
                res["evals"] += 1
                try:
                    run_case(sub, case, rec)
                except Violation as e:
                    res["failure"] = (case, str(e))
                    stop.set()
                    return res
                except Discard:
                    pass
                except CaseHang:
                    res["failure"] = (case, "did not finish within %d s of CPU time" % CASE_CPU_SECONDS)
                    stop.set()
                    return res
        if n > 0:
            test = settings(
                max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
            )(given(sub.strategy())(execute))
            test = hypothesis.seed(_seed_for(seed, prop, sub.name, shard))(test)
            try:
                test()
            except StopSearch:
                pass
            except Violation:
                pass
            except BaseException:  # noqa: BLE001
                if state["failing"] is None:
                    raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:  # noqa: BLE001
        res["error"] = traceback.format_exc()
        return res
    if state["failing"] is not None:
        res["failure"] = state["failing"]
    res["nontrivial"] = len(hashes)
    res["hashes"] = sorted(hashes)
    return res


def _worker(prop, subs, tier, seed, tasks, deadline, stop, conn):
    os.setpgid(0, 0)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VF_DEBUG"):  # errors travel through the pipe; the rest is noise of native libraries
        os.dup2(devnull, 2)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    out = []
    for si, shard, n in tasks:
        if stop.is_set():
            break
        out.append(run_shard(prop, subs[si], n, seed, shard, deadline, stop))
        if out[-1]["failure"] or out[-1]["error"]:
            break
    conn.send(out)
    conn.close()


def explore(prop, subs, tier, seed, procs):
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    stop = ctx.Event()
    deadline = time.time() + (QUICK_WALL if tier == "quick" else THOROUGH_WALL)
    tasks = [[] for _ in range(procs)]
    for si, sub in enumerate(subs):
        total = sub.quick if tier == "quick" else sub.thorough
        base, extra = divmod(total, N_SHARDS)
        for shard in range(N_SHARDS):
            n = base + (1 if shard < extra else 0)
            if n > 0 or (shard == 0 and sub.regressions):
                tasks[(shard + si) % procs].append((si, shard, n))
    workers = []
    for t in tasks:
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(prop, subs, tier, seed, t, deadline, stop, b))
        p.start()
        b.close()
        workers.append((p, a))
    results, errors = [], []
    for p, a in workers:
        try:
            results.extend(a.recv())
        except EOFError:
            errors.append("a worker process died (exit code %s)" % p.exitcode)
            stop.set()
        p.join()
    return results, errors


def write_evidence(here, prop, tier, seed, rule, results, wall, violations, assumptions):
    tags, per_sub, samples = Counter(), {}, []
    distinct = 0
    for r in results:
        tags.update({"%s:%s" % (r["sub"], k): v for k, v in r["tags"].items()})
        s = per_sub.setdefault(r["sub"], {"evaluations": 0, "discarded": 0, "hashes": set()})
        s["evaluations"] += r["evals"]
        s["discarded"] += r["discarded"]
        s["hashes"].update(r["hashes"])
        if len([x for x in samples if x["check"] == r["sub"]]) < 2:
            for case in r["samples"][:1]:
                text = json.dumps(case, sort_keys=True)
                samples.append({"check": r["sub"], "case": case if len(text) < 3000 else text[:3000] + "..."})
    for s in per_sub.values():
        s["distinct_nontrivial"] = len(s.pop("hashes"))
        distinct += s["distinct_nontrivial"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evals"] for r in results),
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "per_check": per_sub,
            "classes": dict(sorted(tags.items())),
            "stopped_early_by_wall_clock": any(r["truncated"] for r in results),
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    path = os.path.join(here, "evidence", prop + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


def load_prop(prop):
    return importlib.import_module("vf.props." + prop.lower())


def main(here, repo, argv):
    global REPO
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--procs", type=int, default=0)
    ap.add_argument("--only", help="run only this sub-check (debugging)")
    ap.add_argument("--n", type=int, help="override the number of cases (debugging)")
    args = ap.parse_args(argv)
    REPO = os.path.abspath(repo)
    t0 = time.time()
    prop = args.property.upper()
    tier = "thorough" if args.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")

    import norfair

    src = os.path.dirname(os.path.abspath(norfair.__file__))
    if src != os.path.join(REPO, "norfair"):
        print("ERROR: norfair was imported from %s, not from %s" % (src, REPO), file=sys.stderr)
        return 2
    try:
        import cv2

        cv2.setNumThreads(1)
        cv2.setLogLevel(0)
    except Exception:
        pass
    mod = load_prop(prop)
    subs = [s for s in mod.SUBS if not args.only or s.name == args.only]

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        sub = [s for s in mod.SUBS if s.name == rep["check"]][0]
        try:
            run_case(sub, rep["case"], Rec())
        except Violation as e:
            print(str(e))
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        except CaseHang:
            print("did not finish")
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        except Discard:
            pass
        print("replay passes")
        return 0

    if args.n is not None:
        for s in subs:
            s.quick = s.thorough = args.n
    procs = args.procs or 8
    results, errors = explore(prop, subs, tier, seed, procs)
    errors += [r["error"] for r in results if r["error"]]
    failures = [(r["sub"], r["failure"]) for r in results if r["failure"]]
    # the smallest reproduction is the one reported
    failures.sort(key=lambda f: len(json.dumps(f[1][0])))
    wall = time.time() - t0
    write_evidence(here, prop, tier, seed, mod.RULE, results, wall, len(failures), getattr(mod, "ASSUMPTIONS", []))
    total = sum(r["evals"] for r in results)
    if failures:
        name, (case, msg) = failures[0]
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        path = os.path.join(here, "replays", "%s-%s.json" % (prop, hashlib.sha256(_short(case).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "check": name, "case": case, "message": msg, "seed": seed, "tier": tier}, f, indent=1)
            f.write("\n")
        print("%s: %s" % (name, msg))
        print("case: %s" % _short(case))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print("ERROR: the check itself failed (%d errors)" % len(errors), file=sys.stderr)
        return 2
    nt = sum(len(r["hashes"]) for r in results)
    print("%s held: %d cases, %d non-trivial, %.1f s%s" % (
        prop, total, nt, wall, " (stopped early)" if any(r["truncated"] for r in results) else ""))
    return 0
