"""From a MOTChallenge detection file to metrics: the numbers are those of what the tracker did."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Discard, Sub, check
from ..scratch import scratch, write_seqinfo
from ..trk import effective_delay
from ..util import closing

RULE = (
    "Generated sequences (1-2 per evaluation, up to 90 frames, 1-12 bodies in lanes of their own that are there and seen, there but "
    "missed, seen but not there, or away) are written as MOTChallenge folders, read with DetectionFileParser, tracked, written with "
    "PredictionsTextFile and evaluated with Accumulators. A model of the counters gives the boxes, misses, false positives, identity "
    "switches, matches and MOTA; the predictions file, evaluated by motmetrics and by eval_motChallenge, must give all the metrics of "
    "the accumulators. Non-trivial: misses, false positives and a switch occur."
)
ASSUMPTIONS = ["py-motmetrics is trusted to compute its metrics from boxes", "bodies stay far from each other"]
# what a body does in a frame
AWAY, SEEN, MISSED, GHOST = range(4)


@st.composite
def seq(draw):
    m = draw(st.integers(1, 4))
    run = st.tuples(st.sampled_from([AWAY, SEEN, SEEN, SEEN, MISSED, MISSED, GHOST]), st.integers(1, 9)).map(list)
    # seen until tracked, missed until forgotten, seen again, gone
    back = st.tuples(st.integers(0, 3), st.integers(3, 9), st.integers(2, 12), st.integers(3, 9), st.integers(1, 9)).map(
        lambda c: [[AWAY, c[0]], [SEEN, c[1]], [MISSED, c[2]], [SEEN, c[3]], [AWAY, c[4]]])
    return {"bodies": draw(st.lists(st.one_of(st.lists(run, min_size=1, max_size=7), back), min_size=m, max_size=m)), "n": draw(st.one_of(st.integers(1, 30), st.integers(25, 40))),
            "rep": draw(st.sampled_from([1] * 12 + [3])), "crowd": draw(st.sampled_from([1] * 12 + [3])), "v": draw(st.sampled_from([0, 1, 2, -2])),
            "x0": draw(st.sampled_from([10.0, 0.25, -50.5, 1500.75])), "shuffle": draw(st.integers(0, 3)), "name": draw(st.integers(0, 1))}


@st.composite
def case_(draw):
    hcm = draw(st.one_of(st.integers(1, 6), st.integers(1, 3)))
    return {"seqs": draw(st.lists(seq(), min_size=1, max_size=2)), "hcm": hcm, "delay": draw(st.one_of(st.none(), st.integers(0, hcm - 1), st.integers(0, hcm - 1))),
            "filter": draw(st.sampled_from(["no", "no", "opt", "fpy"])), "dist": draw(st.sampled_from(["iou", "euclidean", "mean_euclidean", "callable"])),
            "past": draw(st.integers(0, 4)), "reuse": draw(st.booleans()), "folder": draw(st.booleans())}


def states(s):
    """What every body does in every frame."""
    n = s["n"] * s["rep"]
    out = []
    for k in range(len(s["bodies"]) * s["crowd"]):
        runs = s["bodies"][k % len(s["bodies"])]
        line = [what for what, length in runs for _ in range(length)]
        line = line[k // len(s["bodies"]) * 2:] + line[:k // len(s["bodies"]) * 2]
        out.append([line[f % len(line)] for f in range(n)])
    return n, out


def box(s, v, k, f):
    return [s["x0"] + v * f, 10.0 + 200 * k, 60.0 + k % 3 + (f % 4 if v else 0), 80.0 - (f % 3 if v else 0)]


def overlap(p, q):
    w = max(0.0, min(p[0] + p[2], q[0] + q[2]) - max(p[0], q[0]))
    h = max(0.0, min(p[1] + p[3], q[1] + q[3]) - max(p[1], q[1]))
    return w * h / (p[2] * p[3] + q[2] * q[3] - w * h)


def expect(s, v, hcm, delay):
    """The boxes returned in every frame (one number for each track), and the events."""
    n, lines = states(s)
    ev = {"num_misses": 0, "num_false_positives": 0, "num_switches": 0, "num_objects": 0, "num_matches": 0}
    tracks, last = {}, {}
    shown, fresh, seen_tracks, known = [], 0, set(), set()
    for f in range(n):
        row = []
        for k, line in enumerate(lines):
            t = tracks.get(k)
            if t and t["hc"] < 0:
                t = None
            if t:
                t["hc"] -= 1
            now = box(s, v, k, f)
            if line[f] in (SEEN, GHOST):
                if t:
                    t["hc"] = min(t["hc"] + 2, hcm)
                    t["init"] = t["init"] or t["hc"] > delay
                else:
                    fresh += 1
                    t = {"hc": 1, "init": 1 > delay, "id": fresh}
                t["box"] = now
            tracks[k] = t
            there = line[f] in (SEEN, MISSED)
            ev["num_objects"] += there
            if there:
                known.add(k)
            out = t if t and t["init"] and t["hc"] >= 0 else None
            if out:
                row.append((out["id"], out["box"]))
                seen_tracks.add(out["id"])
            if there and out:
                o = overlap(out["box"], now)
                if abs(o - 0.5) < 0.02:
                    raise Discard()
                if o > 0.5:
                    if last.get(k, out["id"]) != out["id"]:
                        ev["num_switches"] += 1
                    else:
                        ev["num_matches"] += 1
                    last[k] = out["id"]
                    continue
            ev["num_misses"] += there
            ev["num_false_positives"] += out is not None
        shown.append(row)
    if ev["num_objects"]:
        ev["mota"] = 1 - (ev["num_misses"] + ev["num_false_positives"] + ev["num_switches"]) / ev["num_objects"]
    ev["num_unique_objects"] = len(known)
    return shown, ev, len(seen_tracks)


def same(a, b):
    a, b = float(a), float(b)
    return (np.isnan(a) and np.isnan(b)) or abs(a - b) < 1e-6


def run(case, rec):
    import motmetrics as mm
    from norfair import Tracker
    from norfair.filter import FilterPyKalmanFilterFactory, NoFilterFactory, OptimizedKalmanFilterFactory
    from norfair.metrics import Accumulators, DetectionFileParser, PredictionsTextFile, eval_motChallenge

    hcm, delay = case["hcm"], effective_delay(case["hcm"], case["delay"])
    factory = {"no": NoFilterFactory, "opt": OptimizedKalmanFilterFactory, "fpy": FilterPyKalmanFilterFactory}[case["filter"]]
    speed = [s["v"] if case["filter"] == "no" else 0 for s in case["seqs"]]
    want = [expect(s, v, hcm, delay) for s, v in zip(case["seqs"], speed)]
    if any(not w[1]["num_objects"] for w in want):
        raise Discard()

    def center(det, obj):
        return float(np.linalg.norm(det.points.mean(axis=0) - obj.estimate.mean(axis=0)))

    acc = Accumulators()
    metrics = list(mm.metrics.motchallenge_metrics) + ["num_objects", "num_matches", "num_frames", "num_predictions", "num_unique_objects"]
    with scratch() as d, closing(acc):
        paths, files, names = [], [], []
        for j, (s, v, (shown, ev, _)) in enumerate(zip(case["seqs"], speed, want)):
            n, lines = states(s)
            name = "SEQ-%d" % (s["name"] + (0 if case["folder"] else 2 * j))
            names.append(name)
            path = os.path.join(d, "part%d" % j, name)
            for sub in ("gt", "det"):
                os.makedirs(os.path.join(path, sub))
            write_seqinfo(path, name=name, seqLength=n, frameRate=30, imWidth=1920, imHeight=1080, imExt=".jpg")
            gt, det = [], []
            for f in range(n):
                for k, line in enumerate(lines):
                    row = "%d,%%d,%r,%r,%r,%r,%%s" % ((f + 1,) + tuple(box(s, v, k, f)))
                    if line[f] in (SEEN, MISSED):
                        gt.append(row % (k + 1, "1,1,1"))
                    if line[f] in (SEEN, GHOST):
                        det.append(row % (-1, "%r,-1,-1,-1" % [1.0, 0.5, 0.25][(f + k) % 3]))
            if not det:
                raise Discard()  # motmetrics has nothing to compare
            if s["shuffle"]:
                det = [det[(i * 7919 + s["shuffle"]) % len(det)] for i in range(len(det))] if len(det) % 7919 else det
                gt = gt[::-1]
            for what, rows in (("gt", gt), ("det", det)):
                with open(os.path.join(path, what, what + ".txt"), "w") as out:
                    out.write("\n".join(rows) + "\n")
            parser = DetectionFileParser(path)
            if case["reuse"]:
                list(parser)
            save = os.path.join(d, "save%d" % j)
            writer = PredictionsTextFile(path, save_path=save)
            acc.create_accumulator(path)
            t = Tracker({"callable": center}.get(case["dist"], case["dist"]), 0.9 if case["dist"] == "iou" else 90.0, hit_counter_max=hcm, initialization_delay=case["delay"],
                        filter_factory=factory(), past_detections_length=case["past"])
            number, frames = {}, 0
            for f, dets in enumerate(parser):
                frames += 1
                objs = t.update(dets)
                got = sorted([o.estimate[0, 0], o.estimate[0, 1], o.estimate[1, 0] - o.estimate[0, 0], o.estimate[1, 1] - o.estimate[0, 1]] + [o.id] for o in objs)
                exp = sorted(b + [i] for i, b in shown[f])
                check(len(got) == len(exp) and all(np.allclose(p[:4], q[:4], 0, 1e-3) for p, q in zip(got, exp)),
                      "%s, frame %d: the boxes tracked are %s, expected %s", name, f + 1, [g[:4] for g in got], [e[:4] for e in exp])
                for p, q in zip(got, exp):
                    check(number.setdefault(q[4], p[4]) == p[4], "%s, frame %d: the id of a body changed to %r", name, f + 1, p[4])
                acc.update(objs)
                writer.update(objs)
            check(frames == n, "%s: %d frames were read of %d", name, frames, n)
            check(len(set(number.values())) == len(number), "%s: an id was given twice", name)
            paths.append(path)
            files.append(os.path.join(save, "predictions", name + ".txt"))
        table = acc.compute_metrics(metrics=metrics)
        check(list(table.index) == names + ["OVERALL"], "rows %s, expected %s", list(table.index), names)
        for j, (name, (shown, ev, count)) in enumerate(zip(names, want)):
            for key, value in ev.items():
                check(same(table[key].iloc[j], value), "%s of %s is %r, expected %r", key, name, table[key].iloc[j], value)
            check(same(table["num_predictions"].iloc[j], sum(len(r) for r in shown)), "%r predictions in %s, %d boxes were tracked", table["num_predictions"].iloc[j], name, sum(len(r) for r in shown))
        for key in ("num_misses", "num_false_positives", "num_switches", "num_objects"):
            total = sum(w[1][key] for w in want)
            check(same(table.loc["OVERALL", key], total), "%s of all is %r, expected %r", key, table.loc["OVERALL", key], total)
        # the predictions files on their own
        if all(any(r for r in w[0]) for w in want):
            matrices = [np.loadtxt(p, delimiter=",", ndmin=2) for p in files]
            again = eval_motChallenge(matrixes_predictions=matrices, paths=paths, metrics=metrics)[1]
            mh = mm.metrics.create()
            accs = [mm.utils.compare_to_groundtruth(mm.io.loadtxt(os.path.join(p, "gt", "gt.txt"), fmt="mot15-2D", min_confidence=1), mm.io.loadtxt(q, fmt="mot15-2D"), "iou", distth=0.5)
                    for p, q in zip(paths, files)]
            mm.lap.default_solver = "scipy"
            direct = mh.compute_many(accs, names=names, metrics=metrics, generate_overall=True)
            for what, other in (("eval_motChallenge", again), ("motmetrics", direct)):
                check(list(other.index) == list(table.index), "rows of %s are %s, expected %s", what, list(other.index), list(table.index))
                for j in range(len(table.index)):
                    for key in metrics:
                        check(same(table[key].iloc[j], other[key].iloc[j]), "%s of %s is %r, and %r by %s from the predictions file", key, table.index[j], table[key].iloc[j], other[key].iloc[j], what)
            rec.tag("predictions files evaluated")
    ev = [w[1] for w in want]
    rec.tag("filter " + case["filter"], case["dist"])
    rec.nontrivial = all(sum(e[k] for e in ev) for k in ("num_misses", "num_false_positives", "num_switches"))


SUBS = [Sub("pipeline", case_, run, 320, 6000)]
