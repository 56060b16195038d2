"""Metrics: Accumulators count misses, false positives and identity switches like the ground truth says."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check
from ..scratch import scratch, write_seqinfo
from ..util import closing
from .c30 import tracked_boxes

RULE = (
    "Synthetic sequences (1-3 per evaluation, 1-7 frames, 1-4 ground truth objects on separate lanes, rows of confidence 0) "
    "with predictions derived from the ground truth by dropping boxes, shifting them, adding boxes in empty space and swapping "
    "identities; misses, false positives, switches, objects, frames, MOTA and MOTP are known by construction, the other metrics "
    "must equal those motmetrics gives on the same boxes handed over directly, for every sequence and overall. Non-trivial: "
    "misses, false positives and switches all occur."
)
ASSUMPTIONS = ["py-motmetrics is trusted to compute its metrics from boxes; norfair has to hand over the right boxes"]


@st.composite
def seq(draw):
    n, m = draw(st.integers(1, 7)), draw(st.integers(1, 4))
    sparse = draw(st.integers(0, 5)) == 5
    frame = st.lists(st.sampled_from(["drop"] * 5 + ["ok"] if sparse else ["ok", "ok", "ok", "ok", "drop", "shift", "half", "far", "absent"]), min_size=m, max_size=m)
    fp = st.integers(0, 0 if sparse else 2)
    return {"n": n, "m": m, "frames": draw(st.lists(frame, min_size=n, max_size=n)), "fp": draw(st.lists(fp, min_size=n, max_size=n)),
            "swap": draw(st.lists(st.integers(0, n - 1), max_size=3)), "ignored": draw(st.integers(0, 2)), "shuffle": draw(st.booleans()), "size": draw(st.integers(10, 60)), "x0": draw(st.sampled_from([10.0, 10.0, -30.0, -7.5, 4000.25])),
            "scale": draw(st.sampled_from([1, 1, 1, 1, 1, 0.125, 40, 200])), "rep": draw(st.sampled_from([1] * 10 + [20, 1])), "crowd": draw(st.sampled_from([1] * 10 + [16]))}


@st.composite
def case_(draw):
    seqs = draw(st.lists(seq(), min_size=1, max_size=3))
    names = draw(st.lists(st.integers(0, 2), min_size=3, max_size=3))
    if draw(st.integers(0, 7)) == 0:
        # a whole benchmark
        names = draw(st.permutations(range(8, 8 + draw(st.integers(9, 13)))))
        seqs = [dict(seqs[k % len(seqs)], swap=[k % seqs[k % len(seqs)]["n"]], size=20 + k) for k in range(len(names))]
    return {"ids": draw(st.sampled_from([[0, 0, 1], [0, 0, 1], [900, 0, 1000], [0, 995, 500], [10 ** 5, 10 ** 6, 1], [3, 4, 256], [0, 0, 65536]])), "seqs": seqs, "overall": draw(st.sampled_from([True, True, False])), "given": draw(st.booleans()),
            "subset": draw(st.integers(0, 3)) == 0, "move": draw(st.integers(0, 2)) == 0, "names": list(names), "tail": draw(st.integers(0, 7))}


def larger(s):
    """The sequence, many times as long or as crowded."""
    rep, crowd = s.get("rep", 1), s.get("crowd", 1)
    if rep * crowd == 1:
        return s
    if crowd > 1:
        rep = min(rep, 4)
    return dict(s, n=s["n"] * rep, m=s["m"] * crowd, frames=[fr * crowd for fr in s["frames"]] * rep, fp=s["fp"] * rep, swap=[f + s["n"] * k for f in s["swap"] for k in range(0, rep, 2)])


def boxes_of(s, pred_ids=0, gt_ids=0, step=1):
    """Per frame: ground truth {id: box}, predictions {id: box}, and the expected events."""
    scale = s.get("scale", 1)
    gts, preds = [], []
    cur = {}  # ground truth -> prediction identity
    nxt = [100 + pred_ids]
    last = {}
    ev = {"num_misses": 0, "num_false_positives": 0, "num_switches": 0, "num_objects": 0}
    dists = []
    size = s["size"]
    for f in range(s["n"]):
        if f in s["swap"]:
            cur = {}
        gt, pr = {}, {}
        for i, what in enumerate(s["frames"][f]):
            if what == "absent":
                continue
            box = [s["x0"] + 3 * f, (10.0 if s["x0"] >= 0 else -20.0) + i * 200, float(size), float(size + 4)]
            gt[(i + 1) * step + gt_ids] = box
            ev["num_objects"] += 1
            if what == "drop":
                ev["num_misses"] += 1
                continue
            if i not in cur:
                cur[i] = nxt[0]
                nxt[0] += step
            # IoU 0.67, 0.53, 0.47 (too little for a match)
            dx = {"shift": size / 5, "half": size * 47 / 153, "far": size * 53 / 147}.get(what, 0.0)
            pr[cur[i]] = [box[0] + dx, box[1], box[2], box[3]]
            if what == "far":
                ev["num_misses"] += 1
                ev["num_false_positives"] += 1
                continue
            dists.append(1 - (size - dx) / (size + dx))
            if i in last and last[i] != cur[i]:
                ev["num_switches"] += 1
            last[i] = cur[i]
        for k in range(s["fp"][f]):
            pr[nxt[0]] = [1500.0 + 200 * k, 900.0 + 3 * f, 20.0, 30.0]
            nxt[0] += step
            ev["num_false_positives"] += 1
        gts.append({i: [v * scale for v in b] for i, b in gt.items()})
        preds.append({i: [v * scale for v in b] for i, b in pr.items()})
    ev["motp"] = sum(dists) / len(dists) if dists else None
    ev["mota"] = 1 - (ev["num_misses"] + ev["num_false_positives"] + ev["num_switches"]) / ev["num_objects"] if ev["num_objects"] else None
    return gts, preds, ev


def same(a, b):
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return np.isnan(a) and np.isnan(b)
    return a == b or abs(a - b) < 1e-6


def run(case, rec):
    import motmetrics as mm
    from norfair.metrics import Accumulators, InformationFile

    if len(case["seqs"]) < 4:
        case = dict(case, seqs=[larger(s) for s in case["seqs"]])
    data = [boxes_of(s, *case.get("ids", [0, 0])) for s in case["seqs"]]
    if any(not d[2]["num_objects"] for d in data):
        rec.tag("no ground truth")
        return
    acc = Accumulators()
    direct, names = [], []
    with scratch() as d, closing(acc):
        for k, (s, (gts, preds, ev)) in enumerate(zip(case["seqs"], data)):
            name = "SEQ-%d" % case.get("names", [0, 1, 2])[k]
            rec.tag(*["repeated name"] * (name in names))
            names.append(name)
            path = os.path.join(d, "set%d" % k, name)
            os.makedirs(os.path.join(path, "gt"))
            info = os.path.join(d, "info%d" % k) if case["given"] else path
            write_seqinfo(info, name=name, seqLength=s["n"])
            with open(os.path.join(path, "gt", "gt.txt"), "w") as f:
                rows = [(fr + 1, i, b) for fr, gt in enumerate(gts) for i, b in gt.items()]
                for fr, i, b in rows[::-1] if s["shuffle"] else rows:
                    f.write("%d,%d,%r,%r,%r,%r,1,1,1\n" % (fr, i, b[0], b[1], b[2], b[3]))
                full = [fr + 1 for fr, gt in enumerate(gts) if gt]
                for j in range(s["ignored"]):
                    f.write("%d,%d,700.0,%r,33.0,44.0,0,1,1\n" % (full[j % len(full)], 37 + j, 10.0 + 200 * j))
            kw = {"information_file": InformationFile(os.path.join(info, "seqinfo.ini"))} if case["given"] else {}
            acc.create_accumulator(path + "/" * (case.get("tail", 0) >> k & 1), **kw)
            a = mm.MOTAccumulator()
            for fr in range(s["n"]):
                ids = list(preds[fr])
                objs = tracked_boxes([preds[fr][i] for i in ids], [8 * fr, -4] if case.get("move") else None)
                for o, i in zip(objs, ids):
                    o.id = i
                if objs or fr % 3 == 0:
                    acc.update(objs)
                else:
                    acc.update() if fr % 3 == 1 else acc.update(predictions=None)
                if gts[fr] or ids:
                    D = mm.distances.iou_matrix(np.array([gts[fr][i] for i in gts[fr]], float).reshape(-1, 4), np.array([preds[fr][i] for i in ids], float).reshape(-1, 4), max_iou=0.5)
                    a.update(list(gts[fr]), ids, D, frameid=fr + 1)
            direct.append(a)
        mh = mm.metrics.create()
        wanted = ["num_frames", "mota", "num_misses"] if case["subset"] else list(mm.metrics.motchallenge_metrics)
        kw = {"metrics": wanted} if case["subset"] else {}
        if not case["overall"]:
            kw["generate_overall"] = False
        got = acc.compute_metrics(**kw)
        mm.lap.default_solver = "scipy"
        ref = mh.compute_many(direct, names=names, metrics=wanted + ([] if case["subset"] else ["num_objects", "num_frames"]), generate_overall=True)
        check(list(got.index) == names + (["OVERALL"] if case["overall"] else []), "rows %s, expected %s", list(got.index), names)
        check(set(wanted) <= set(got.columns), "columns %s, expected %s", list(got.columns), wanted)
        for i, row in enumerate(got.index):
            for c in wanted:
                check(same(got[c].iloc[i], ref[c].iloc[i]), "%s of %s is %r, expected %r", c, row, got[c].iloc[i], ref[c].iloc[i])
        for i, (name, (gts, preds, ev)) in enumerate(zip(names, data)):
            for c in wanted:
                if c in ev and ev[c] is not None:
                    check(same(got[c].iloc[i], ev[c]), "%s of %s is %r, expected %r by construction", c, name, got[c].iloc[i], ev[c])
        total = {c: sum(x[2][c] for x in data) for c in ("num_misses", "num_false_positives", "num_switches", "num_objects")}
        if case["overall"]:
            for c in total:
                if c in wanted:
                    check(same(got.loc["OVERALL", c], total[c]), "overall %s is %r, expected %r", c, got.loc["OVERALL", c], total[c])
            mota = 1 - (total["num_misses"] + total["num_false_positives"] + total["num_switches"]) / total["num_objects"]
            check(same(got.loc["OVERALL", "mota"], mota), "overall mota is %r, expected %r", got.loc["OVERALL", "mota"], mota)
        acc.save_metrics(os.path.join(d, "res"))
        with open(os.path.join(d, "res", "metrics.txt")) as f:
            text = f.read()
        for row in got.index:
            lines = [ln for ln in text.split("\n") if ln.split()[:1] == [row]]
            check(len(lines) == list(got.index).count(row), "the saved metrics have %d lines for %s", len(lines), row)
        check("%.1f%%" % (100 * float(got["mota"].iloc[0])) in text or "%.2f%%" % (100 * float(got["mota"].iloc[0])) in text,
              "the MOTA %r is not in the saved metrics:\n%s", got["mota"].iloc[0], text)
    if total["num_misses"] and total["num_false_positives"] and total["num_switches"]:
        rec.nontrivial = True
    rec.tag("%d sequences" % len(names) if len(names) < 4 else "many sequences")
    if case.get("ids", [0, 0, 1]) != [0, 0, 1]:
        rec.tag("large ids")
    for x in data:
        k = sum(len(p) for p in x[1])
        if k < 2:
            rec.tag("a sequence with %s" % ("no prediction" if not k else "a single prediction"))


_ONE = {"n": 1, "m": 1, "frames": [["ok"]], "fp": [0], "swap": [], "ignored": 0, "shuffle": False, "size": 20, "x0": 10.0}
_NONE = dict(_ONE, n=3, frames=[["drop"]] * 3, fp=[0, 0, 0])
REGRESSIONS = [{"seqs": s, "overall": True, "given": False, "subset": False} for s in ([_ONE], [_NONE], [_ONE, _NONE], [_NONE, _ONE])]

SUBS = [Sub("evaluation", case_, run, 300, 6000, regressions=REGRESSIONS)]
