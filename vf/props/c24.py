"""draw_boxes / draw_points: what is painted where, in which color, with which title."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail
from ..trk import detection
from ..util import laid_out, layouts

RULE = (
    "Random lists (up to 150) of Detections, TrackedObjects (with dead points) and Drawables on a random sized gradient frame. Without "
    "titles the frame must equal, pixel by pixel, the rectangles / circles painted directly with OpenCV in the colors the "
    "options ask for (name, hex, tuple, by id, by label, random, deprecated spellings); titles must be the ones of an object "
    "whose label is the expected text, and lie on top of the box / points in the text color, long ones to their end. Turns: with default sizes many at once look as one after the other. Non-trivial: at least two objects "
    "and, for points, a dead one / for boxes, a title made of two parts."
)
NAMES = ["car", "person", "x", "", "dog-1", 0, 7, False, ("a", 1)]
COLORS = [["name", "red"], ["hex", "#10F0a0"], ["tuple", [12, 200, 77]], ["name", "tab5"], ["s", "by_id"], ["s", "by_label"], ["s", "random"], ["n", None]]
W, H = 320, 240


GRADIENTS = {}


def gradient(h=H, w=W):
    if (h, w) not in GRADIENTS:
        y, x = np.mgrid[0:h, 0:w]
        GRADIENTS[h, w] = np.stack([(x * 3 + y) % 60, (x + y * 5) % 60 + 20, (x * y) % 60 + 10], axis=2).astype(np.uint8)
    return GRADIENTS[h, w].copy()


def crowd(case, boxes):
    """Many objects in one call, of many ids."""
    rng = np.random.RandomState(case["many"])
    n = 2 if boxes else case["n"]
    out = []
    for _ in range(case["count"] if n < 20 else case["count"] % 6 + 1):
        kind = ["det", "trk", "drw"][rng.randint(3)] if case["mix"] else case["only"]
        pts = np.stack([rng.randint(-20, 400, size=n), rng.randint(-20, 300, size=n)], axis=1).tolist()
        lab = None if rng.randint(4) == 0 else int(rng.randint(len(NAMES)))
        sc = None if rng.randint(3) == 0 else rng.randint(0, 9, size=n).tolist()
        ident = None if rng.randint(5) == 0 else int(rng.randint(0, 2000))
        out.append([kind, pts, lab, sc, ident, int(rng.randint(4))])
    return out


@st.composite
def crowded(draw, base):
    case = draw(base())
    case.update(objs=[], many=draw(st.integers(0, 10 ** 6)), n=draw(st.sampled_from([1, 2, 2, 5, 17, 70, 133, 150, 260, 400])), mix=draw(st.booleans()), only=draw(st.sampled_from(["det", "trk", "trk", "drw"])),
                count=draw(st.one_of(st.integers(5, 40), st.sampled_from([50, 64, 65, 100, 101, 129, 150]))))
    return case


@st.composite
def outside(draw, n):
    """Points close together, anywhere around the frame."""
    x, y = draw(st.integers(-120, 440)), draw(st.integers(-120, 360))
    return [[x + draw(st.integers(0, 60)), y + draw(st.integers(0, 60))] for _ in range(n)]


@st.composite
def objects(draw, boxes):
    n = 2 if boxes else draw(st.one_of(*[st.integers(1, 4)] * 7, st.sampled_from([16, 32])))
    far = draw(st.sampled_from([False, False, False, True]))  # also wholly outside of the frame
    item = st.tuples(
        st.sampled_from(["det", "trk", "drw"]),
        st.lists(st.tuples(st.integers(-20, 400), st.integers(-20, 300)).map(list), min_size=n, max_size=n) if not far else outside(n),
        st.one_of(st.none(), st.integers(0, len(NAMES) - 1)),
        st.one_of(st.none(), st.lists(st.integers(0, 8), min_size=n, max_size=n), st.integers(0, n - 1).map(lambda k: [8 if i == k else 0 for i in range(n)])),
        st.one_of(st.none(), st.integers(0, 60)),
        st.integers(0, 3),
    ).map(list)
    return draw(st.lists(item, min_size=0, max_size=4))


def untied(sc):
    """Scores whose mean does not lie halfway between two numbers of four decimals (which may be rounded either way)."""
    if sc is not None and 2 * (10 ** 4 * sum(sc) % (8 * len(sc))) == 8 * len(sc):
        k = 0 if sc[0] < 8 else min(range(len(sc)), key=lambda i: sc[i])
        sc = [s + (i == k) if sc[k] < 8 else 7 if i == 0 else s for i, s in enumerate(sc)]
    return sc


def build(items, lay=None):
    """Library objects and plain descriptions (points, id, label, scores, live)."""
    from norfair import Tracker
    from norfair.drawing import Drawable
    from norfair.filter import NoFilterFactory

    items = [it[:3] + [untied(it[3])] + it[4:] for it in items]
    objs, plain = [], []
    t = Tracker(lambda d, o: 1.0, 0.5, initialization_delay=0, hit_counter_max=5, detection_threshold=0.5, filter_factory=NoFilterFactory())
    tr = [i for i, it in enumerate(items) if it[0] == "trk"]
    t.update([detection(items[i][1], scores=None if items[i][3] is None else [s / 8 for s in items[i][3]],
                        label=None if items[i][2] is None else NAMES[items[i][2]], data=i) for i in tr])
    by = {o.last_detection.data: o for o in t.tracked_objects}
    check(sorted(by) == tr, "setup: %d detections gave %d objects", len(tr), len(by))
    for i, (kind, pts, lab, sc, ident, frac) in enumerate(items):
        label = None if lab is None else NAMES[lab]
        scores = None if sc is None else np.array([s / 8 for s in sc])
        p = np.array(pts, float)
        p = laid_out(np.where(p > 0, p + frac / 8, p), lay)
        if kind == "det":
            o = detection(p, scores=scores, label=label)
            plain.append({"pts": pts, "id": None, "label": label, "scores": scores, "live": [True] * len(pts)})
        elif kind == "trk":
            o = by[i]
            live = [bool(v) for v in o.live_points]
            want = [True] * len(pts) if sc is None else [s > 4 for s in sc]
            check(live == want, "setup: live points %s, expected %s", live, want)
            plain.append({"pts": pts, "id": o.id, "label": label, "scores": None, "live": live})
        else:
            live = np.array([True if sc is None else s > 2 for s in sc] if sc is not None else [True] * len(pts))
            o = Drawable(points=p, id=ident, label=label, scores=scores, live_points=live)
            plain.append({"pts": pts, "id": ident, "label": label, "scores": scores, "live": [bool(v) for v in live]})
        objs.append(o)
    return objs, plain


def title(d, labels, ids, scores):
    parts = []
    if labels and d["label"] is not None and str(d["label"]) != "":
        parts.append(str(d["label"]))
    if ids and d["id"] is not None:
        parts.append(str(d["id"]))
    if scores and d["scores"] is not None:
        parts.append(str(round(float(np.mean(d["scores"])), 4)))
    return "-".join(parts)


def color_arg(c):
    kind, v = c
    return tuple(v) if kind == "tuple" else v


def color_of(c, d):
    """The color an object must get, or None when any palette color will do."""
    from norfair.drawing import Palette

    kind, v = c
    if kind == "n" or v == "by_id":
        return tuple(Palette.choose_color(d["id"]))
    if v == "by_label":
        return tuple(Palette.choose_color(d["label"]))
    if v == "random":
        return None
    return {"red": (0, 0, 255), "#10F0a0": (0xA0, 0xF0, 0x10), "tab5": (0x2C, 0xA0, 0x2C)}[v] if kind != "tuple" else tuple(v)


def same(a, b, what):
    check(isinstance(a, np.ndarray), "%s: returned %r", what, type(a))
    check(a.shape == b.shape and a.dtype == b.dtype, "%s: shape %s, expected %s", what, a.shape, b.shape)
    if not np.array_equal(a, b):
        ys, xs = np.where((a != b).any(axis=2))
        y, x = int(ys[0]), int(xs[0])
        fail("%s: %d pixels differ, e.g. (x=%d, y=%d) is %s, expected %s" % (what, len(ys), x, y, a[y, x].tolist(), b[y, x].tolist()))


@st.composite
def box_case(draw):
    return {"objs": draw(objects(True)), "color": draw(st.integers(0, len(COLORS) - 1)), "thick": draw(st.sampled_from([1, 2, 3, 5])),
            "dep": draw(st.integers(0, 6)), "flags": draw(st.integers(0, 7)), "box": draw(st.booleans()),
            "tc": draw(st.one_of(st.none(), st.integers(0, 3))), "size": draw(st.sampled_from([None, 0.5, 1.0])), "tt": draw(st.sampled_from([None, 1, 2])), "lay": draw(layouts())}


def run_box(case, rec):
    import cv2
    from norfair.drawing import Drawable, draw_boxes, draw_tracked_boxes

    if "many" in case:
        case = dict(case, objs=crowd(case, True))
    objs, plain = build(case["objs"], case.get("lay"))
    c = COLORS[case["color"]]
    th = case["thick"]
    frame = gradient()
    exp = gradient()
    got = draw_boxes(frame, objs, color=color_arg(c), thickness=th, draw_ids=False)
    if c[1] == "random":
        one = gradient()
        for d in plain:
            cv2.rectangle(one, tuple(d["pts"][0]), tuple(d["pts"][1]), (255, 0, 254), th)
        changed = (one != gradient()).any(axis=2)
        from norfair.drawing import Palette

        pal = {tuple(Palette.choose_color(i)) for i in range(200)}
        check(not (got != gradient()).any(axis=2)[~changed].any(), "something was painted outside of the boxes")
        check({tuple(v) for v in got[changed].tolist()} <= pal, "random colors are not from the palette")
    else:
        for d in plain:
            cv2.rectangle(exp, tuple(d["pts"][0]), tuple(d["pts"][1]), color_of(c, d), th)
        same(got, exp, "draw_boxes without titles, color %r" % (c[1],))
        same(frame, exp, "draw_boxes in place")
        # deprecated spellings
        kw = [dict(detections=objs, color=color_arg(c), thickness=th), dict(drawables=objs, line_color=color_arg(c), thickness=th) if c[0] != "n" else None,
              dict(drawables=objs, color=color_arg(c), line_width=th),
              dict(drawables=objs, color=color_arg(c), thickness=th, random_color=False, color_by_label=False),
              dict(drawables=objs, color_by_label=True, thickness=th) if c[1] == "by_label" else None,
              dict(drawables=tuple(objs), color=color_arg(c), thickness=th, label_size=1),
              dict(drawables=[o if isinstance(o, Drawable) else Drawable(o) for o in objs], color=color_arg(c), thickness=th)][case["dep"]]
        if kw is not None:
            same(draw_boxes(gradient(), draw_ids=False, **kw), exp, "draw_boxes with %s" % sorted(kw))
        if c[0] in ("tuple", "n") or c[1] == "by_label":
            r = draw_tracked_boxes(gradient(), objs, border_colors=color_arg(c) if c[0] == "tuple" else None, border_width=th, color_by_label=c[1] == "by_label")
            same(r, exp, "draw_tracked_boxes")
        nothing = gradient()
        same(draw_boxes(nothing, None), gradient(), "draw_boxes(None)")
        same(draw_boxes(nothing, []), gradient(), "draw_boxes([])")
        same(draw_boxes(nothing, objs, draw_box=False, draw_ids=False), gradient(), "draw_boxes with nothing to draw")
    if c[1] == "random":
        return
    # titles
    labels, ids, scores = (bool(case["flags"] >> k & 1) for k in range(3))
    tc = None if case["tc"] is None else color_arg(COLORS[case["tc"]])
    kw = dict(thickness=th, draw_box=case["box"], text_size=case["size"], text_thickness=case["tt"], text_color=tc)
    for o, d in zip(objs, plain):
        text = title(d, labels, ids, scores)
        stand_in = Drawable(points=np.array(d["pts"], float), label=text or None, live_points=np.array(d["live"]))
        got = draw_boxes(gradient(), [o], color=color_arg(c), draw_labels=labels, draw_ids=ids, draw_scores=scores, **kw)
        exp = draw_boxes(gradient(), [stand_in], color=color_of(c, d), draw_labels=True, draw_ids=False, **kw)
        same(got, exp, "title of id %r, label %r, scores %r (labels %s, ids %s, scores %s), expected %r" % (d["id"], d["label"], d["scores"], labels, ids, scores, text))
        if len([1 for v in (labels and d["label"] not in (None, ""), ids and d["id"] is not None, scores and d["scores"] is not None) if v]) > 1 and len(objs) > 1:
            rec.nontrivial = True
    # all together = one after another
    got = draw_boxes(gradient(), objs, color=color_arg(c), draw_labels=labels, draw_ids=ids, draw_scores=scores, **kw)
    exp = gradient()
    for o in objs:
        exp = draw_boxes(exp, [o], color=color_arg(c), draw_labels=labels, draw_ids=ids, draw_scores=scores, **kw)
    same(got, exp, "drawing several objects")
    rec.tag("color %s" % c[1], *[it[0] for it in case["objs"]])


@st.composite
def point_case(draw):
    return {"objs": draw(objects(False)), "color": draw(st.integers(0, len(COLORS) - 1)), "radius": draw(st.integers(1, 6)),
            "thick": draw(st.sampled_from([None, -1, 1, 3])), "hide": draw(st.booleans()), "dep": draw(st.integers(0, 5)), "flags": draw(st.integers(0, 7)),
            "pts": draw(st.booleans()), "tc": draw(st.one_of(st.none(), st.integers(0, 3))), "size": draw(st.sampled_from([None, 0.5, 1.0])),
            "tt": draw(st.sampled_from([None, 1, 2])), "lay": draw(layouts())}


def run_point(case, rec):
    import cv2
    from norfair.drawing import Drawable, Palette, draw_points, draw_tracked_objects

    if "many" in case:
        case = dict(case, objs=crowd(case, False))
    objs, plain = build(case["objs"], case.get("lay"))
    c = COLORS[case["color"]]
    r, th, hide = case["radius"], case["thick"], case["hide"]
    frame, exp = gradient(), gradient()
    plainkw = dict(draw_labels=False, draw_ids=False)
    kw = dict(radius=r, thickness=th, hide_dead_points=hide)
    keep = [None if not hasattr(o, "points") else o.points.copy() for o in objs]
    got = draw_points(frame, objs, color=color_arg(c), **kw, **plainkw)
    marked = np.zeros((H, W, 3), np.uint8)
    for d in plain:
        if any(d["live"]) and not all(d["live"]) and len(plain) > 1:
            rec.nontrivial = True
        if not any(d["live"]):
            rec.tag("all dead")
        for p, live in zip(d["pts"], d["live"]):
            if live or not hide:
                cv2.circle(exp, tuple(p), r, color_of(c, d) or (1, 2, 3), -1 if th is None else th)
                cv2.circle(marked, tuple(p), r, (255, 255, 255), -1 if th is None else th)
    marked = marked.any(axis=2)
    if c[1] == "random":
        pal = {tuple(Palette.choose_color(i)) for i in range(200)}
        check(not (got != gradient()).any(axis=2)[~marked].any(), "something was painted outside of the points")
        check({tuple(v) for v in got[marked].tolist()} <= pal, "random colors are not from the palette")
        return
    same(got, exp, "draw_points without titles, color %r, hide_dead_points %r" % (c[1], hide))
    same(frame, exp, "draw_points in place")
    alt = [dict(detections=objs, color=color_arg(c)), dict(drawables=objs, color=color_arg(c), color_by_label=False),
           dict(drawables=objs, color_by_label=True) if c[1] == "by_label" else None, dict(drawables=objs, color=color_arg(c), label_size=1),
           dict(drawables=[o if isinstance(o, Drawable) else Drawable(o) for o in objs], color=color_arg(c)), None][case["dep"]]
    if alt is not None:
        same(draw_points(gradient(), **alt, **kw, **plainkw), exp, "draw_points with %s" % sorted(alt))
    if hide and c[1] in ("by_label", None) and th in (None, -1):
        f = gradient()
        draw_tracked_objects(f, objs, radius=r, color_by_label=c[1] == "by_label", id_size=0)
        same(f, exp, "draw_tracked_objects")
    same(draw_points(gradient(), None), gradient(), "draw_points(None)")
    same(draw_points(gradient(), []), gradient(), "draw_points([])")
    same(draw_points(gradient(), objs, draw_points=False, **kw, **plainkw), gradient(), "draw_points with nothing to draw")
    labels, ids, scores = (bool(case["flags"] >> k & 1) for k in range(3))
    tc = None if case["tc"] is None else color_arg(COLORS[case["tc"]])
    kw.update(draw_points=case["pts"], text_size=case["size"], text_thickness=case["tt"], text_color=tc)
    for o, d in zip(objs, plain):
        text = title(d, labels, ids, scores)
        p = np.array(d["pts"], float)
        if hasattr(o, "points"):
            p = np.asarray(o.points, float)
        stand_in = Drawable(points=p, label=text or None, live_points=np.array(d["live"]))
        got = draw_points(gradient(), [o], color=color_arg(c), draw_labels=labels, draw_ids=ids, draw_scores=scores, **kw)
        exp = draw_points(gradient(), [stand_in], color=color_of(c, d), draw_labels=True, draw_ids=False, **kw)
        same(got, exp, "title of id %r, label %r, scores %r (labels %s, ids %s, scores %s), expected %r" % (d["id"], d["label"], d["scores"], labels, ids, scores, text))
        if hide and not any(d["live"]):
            same(got, gradient(), "an object whose points are all dead")
    got = draw_points(gradient(), objs, color=color_arg(c), draw_labels=labels, draw_ids=ids, draw_scores=scores, **kw)
    exp = gradient()
    for o in objs:
        exp = draw_points(exp, [o], color=color_arg(c), draw_labels=labels, draw_ids=ids, draw_scores=scores, **kw)
    same(got, exp, "drawing several objects")
    for o, k in zip(objs, keep):
        check(k is None or np.array_equal(o.points, k), "draw_points changed the points of an object")
    rec.tag("color %s" % c[1], "hide" if hide else "show", *[it[0] for it in case["objs"]])


@st.composite
def title_case(draw):
    x, y = draw(st.integers(40, 150)), draw(st.integers(90, 200))
    return {"x": x, "y": y, "w": draw(st.integers(4, 60)), "h": draw(st.integers(4, 60)), "text": draw(st.text("abcdeHTXZ1234789", min_size=1, max_size=5)),
            "size": draw(st.sampled_from([0.6, 0.8, 1.0])), "tt": draw(st.sampled_from([2, 3])), "tc": draw(st.one_of(st.none(), st.integers(0, 3))),
            "color": draw(st.integers(0, 3)), "how": draw(st.sampled_from(["box", "points", "id"])), "default": draw(st.booleans())}


def run_title(case, rec):
    """The title is really there: its pixels have the extent of the text and sit on the box / points."""
    import cv2
    from norfair.drawing import Drawable, draw_boxes, draw_points

    text = case["text"]
    c = COLORS[case["color"]]
    want = color_of(COLORS[case["tc"]] if case["tc"] is not None else c, None)
    kw = dict(color=color_arg(c), text_color=None if case["tc"] is None else color_arg(COLORS[case["tc"]]))
    size, tt = case["size"], case["tt"]
    kw.update(text_size=size, text_thickness=tt)
    if case["default"]:
        kw["text_size"], kw["text_thickness"] = None, 2
        size, tt = 0.5, 2
    pts = np.array([[case["x"], case["y"]], [case["x"] + case["w"], case["y"] + case["h"]]], float)
    d = Drawable(points=pts, id=text if case["how"] == "id" else None, label=None if case["how"] == "id" else text, live_points=np.array([True, True]))
    frame = np.full((H + 60, W + 60, 3), 120, np.uint8)
    if case["how"] == "points":
        out = draw_points(frame, [d], radius=2, draw_points=False, draw_labels=True, **kw)
        ax, ay = pts.mean(axis=0)
    else:
        out = draw_boxes(frame, [d], thickness=1, draw_box=False, draw_labels=True, **kw)
        ax, ay = pts[0]
    ref = np.full((H + 60, W + 60, 3), 120, np.uint8)
    cv2.putText(ref, text, (int(ax), int(ay)), cv2.FONT_HERSHEY_SIMPLEX, size, want, tt, cv2.LINE_AA)

    def extent(img):
        ys, xs = np.where((img == np.array(want)).all(axis=2))
        if len(ys) < 3:
            return None
        return np.array([xs.min(), ys.min(), xs.max(), ys.max()])

    e, r = extent(out), extent(ref)
    if r is None:
        return
    check(e is not None, "the title %r does not appear in color %s", text, want)
    check(np.abs((e[2:] - e[:2]) - (r[2:] - r[:2])).max() <= 4 + (6 if case["default"] else 0),
          "the title %r takes %s pixels, expected %s", text, (e[2:] - e[:2]).tolist(), (r[2:] - r[:2]).tolist())
    check(np.abs(e - r).max() <= 10, "the title %r is at %s, expected near %s", text, e.tolist(), r.tolist())
    rec.nontrivial = True
    rec.tag(case["how"])


def drawable_case():
    return st.one_of(st.integers(), st.text(max_size=3), st.lists(st.integers(), max_size=2), st.just({"a": 1}), st.floats(allow_nan=False))


def run_drawable(case, rec):
    from norfair.drawing import Drawable, draw_boxes, draw_points

    for what in (case, np.array([[1, 2], [3, 4]])):
        for f in (lambda: Drawable(what), lambda: draw_boxes(gradient(), [what]), lambda: draw_points(gradient(), [what])):
            try:
                f()
            except ValueError:
                continue
            fail("%r was accepted as something to draw" % (what,))
    rec.nontrivial = True


@st.composite
def turns_case(draw):
    return {"objs": [], "many": draw(st.integers(0, 10 ** 6)), "n": draw(st.sampled_from([1, 2, 2, 5, 17, 70])), "mix": draw(st.booleans()), "only": draw(st.sampled_from(["det", "trk", "drw"])),
            "count": draw(st.one_of(st.integers(2, 12), st.sampled_from([40, 101]))), "boxes": draw(st.booleans()), "flags": draw(st.integers(0, 7)),
            "color": draw(st.sampled_from([None, None, "by_id", "by_label", "red", "#0a141e"])), "hide": draw(st.booleans()),
            "size": draw(st.sampled_from([None, None, 0.4])), "thick": draw(st.sampled_from([None, None, 2])), "tc": draw(st.sampled_from([None, None, "blue"])), "frame": draw(st.sampled_from([[H, W], [H, W], [700, 400], [300, 1600]]))}


def run_turns(case, rec):
    """With default sizes and colors, drawing many objects at once is drawing them one after the other."""
    from norfair.drawing import draw_boxes, draw_points

    objs, _ = build(crowd(case, case["boxes"]))
    kw = {"draw_labels": bool(case["flags"] & 1), "draw_ids": bool(case["flags"] & 2), "draw_scores": bool(case["flags"] & 4)}
    for key, name in (("color", "color"), ("size", "text_size"), ("thick", "thickness"), ("tc", "text_color")):
        if case[key] is not None:
            kw[name] = case[key]
    f = draw_boxes if case["boxes"] else draw_points
    if not case["boxes"]:
        kw["hide_dead_points"] = case["hide"]
    got, exp = f(gradient(*case["frame"]), objs, **kw), gradient(*case["frame"])
    for o in objs:
        exp = f(exp, [o], **kw)
    same(got, exp, "%s of %d objects with %s, expected what drawing them in turn gives" % (f.__name__, len(objs), kw))
    rec.nontrivial = len(objs) > 4
    rec.tag("boxes" if case["boxes"] else "points")


@st.composite
def default_case(draw):
    side = st.one_of(st.integers(60, 700), st.integers(60, 2600))
    return {"h": draw(side), "w": draw(side), "what": draw(st.sampled_from(["boxes", "points", "detection points"])), "p": draw(st.tuples(*[st.integers(0, 100)] * 4).map(list))}


def run_default(case, rec):
    """Default sizes: an outline is an outline, a dot is a dot, whatever the size of the frame."""
    from norfair.drawing import Drawable, draw_boxes, draw_points

    h, w = case["h"], case["w"]
    big = max(h, w) / 100 + 4
    x0, y0 = int((w - 1) * (0.05 + case["p"][0] / 250)), int((h - 1) * (0.05 + case["p"][1] / 250))
    x1, y1 = int((w - 1) * (0.55 + case["p"][2] / 250)), int((h - 1) * (0.55 + case["p"][3] / 250))
    frame = np.zeros((h, w, 3), np.uint8)
    pts = np.array([[x0, y0], [x1, y1]], float)
    yy, xx = np.mgrid[0:h, 0:w]
    if case["what"] == "boxes":
        out = draw_boxes(frame, [Drawable(points=pts, id=4)], color="white", draw_ids=False)
        dist = np.full((h, w), 1e9)
        for ax, a0, a1, b0, b1 in ((xx, x0, x1, y0, y1), (yy, y0, y1, x0, x1)):
            other = yy if ax is xx else xx
            along = np.maximum(np.maximum(b0 - other, other - b1), 0)
            for e in (a0, a1):
                dist = np.minimum(dist, np.maximum(np.abs(ax - e), along))
    else:
        o = detection(pts) if case["what"] == "detection points" else Drawable(points=pts, id=4)
        out = draw_points(frame, [o], color="white", draw_ids=False)
        dist = np.minimum(np.hypot(xx - x0, yy - y0), np.hypot(xx - x1, yy - y1))
    painted = out.any(axis=2)
    check(painted[dist == 0].all(), "%s with default sizes on a frame of %d x %d: part of it is not painted", case["what"], w, h)
    check(not painted[dist > big].any(), "%s with default sizes on a frame of %d x %d: painted up to %d pixels away", case["what"], w, h, int(dist[painted].max()))
    check((out[painted] == 255).all(), "%s with default sizes: another color than asked for", case["what"])
    rec.nontrivial = max(h, w) > 700
    rec.tag(case["what"])


@st.composite
def legacy_case(draw):
    size = st.sampled_from([None, 0, 0.5, 0.7, 1.0])
    th = st.sampled_from([None, 1, 2, 3])
    return {"fn": draw(st.sampled_from(["tracked_boxes", "tracked_objects", "boxes", "points"])), "boxes": draw(objects(True)), "pts": draw(objects(False)),
            "color": draw(st.sampled_from([0, 1, 2, 3, 7])), "by_label": draw(st.booleans()), "labels": draw(st.booleans()), "id_size": draw(size),
            "label_size": draw(size), "id_thickness": draw(th), "label_width": draw(th), "width": draw(th), "draw": draw(st.booleans()),
            "radius": draw(st.sampled_from([None, 0, 1, 4])), "rnd": draw(st.integers(0, 2)),
            "scale": draw(st.sampled_from([[240, 320], [480, 360], [700, 500]]))}


def run_legacy(case, rec):
    """The deprecated functions and parameters paint what their replacements paint."""
    from norfair.drawing import draw_boxes, draw_points, draw_tracked_boxes, draw_tracked_objects

    h, w = case["scale"]
    fn = case["fn"]
    objs, plain = build(case["boxes"] if "box" in fn else case["pts"])
    color = color_arg(COLORS[case["color"]])
    by, lab = case["by_label"], case["labels"]
    id_size, label_size = case["id_size"], case["label_size"]
    rec.nontrivial = len(objs) > 0 and (lab or bool(id_size) or by or fn in ("boxes", "points"))
    rec.tag(fn)
    if fn == "tracked_boxes":
        got = draw_tracked_boxes(gradient(h, w), objs, border_colors=color, border_width=case["width"], id_size=id_size, id_thickness=case["id_thickness"],
                                 draw_box=case["draw"], color_by_label=by, draw_labels=lab, label_size=label_size, label_width=case["label_width"])
        exp = draw_boxes(gradient(h, w), objs, color="by_label" if by else color, thickness=case["width"], draw_labels=lab,
                         draw_ids=id_size is not None and id_size > 0, draw_box=case["draw"], text_size=label_size if label_size else id_size,
                         text_thickness=case["id_thickness"] if case["id_thickness"] else case["label_width"])
        same(got, exp, "draw_tracked_boxes(id_size=%r, label_size=%r, draw_labels=%r)" % (id_size, label_size, lab))
    elif fn == "tracked_objects":
        if label_size == 0:
            label_size = None
        got = gradient(h, w)
        draw_tracked_objects(got, objs, radius=case["radius"], color=color, id_size=id_size, id_thickness=case["id_thickness"], draw_points=case["draw"],
                             color_by_label=by, draw_labels=lab, label_size=label_size)
        kw = dict(color="by_label" if by else color, draw_points=case["draw"], draw_labels=lab, draw_ids=id_size is None or id_size > 0)
        if case["radius"] is not None and (case["id_thickness"] is not None and label_size is not None or not lab and not kw["draw_ids"]):
            exp = draw_points(gradient(h, w), objs, radius=case["radius"], text_size=label_size, text_thickness=case["id_thickness"], **kw)
            same(got, exp, "draw_tracked_objects(id_size=%r, label_size=%r, draw_labels=%r)" % (id_size, label_size, lab))
        else:
            # the default sizes are scaled with the frame: more of the same picture, never an empty or a flooded one
            some = any(any(d["live"]) and any(0 <= p[0] < w and 0 <= p[1] < h for p, a in zip(d["pts"], d["live"]) if a) for d in plain)
            touched = (got != gradient(h, w)).any(axis=2)
            check(touched.any() or not (some and case["draw"]), "draw_tracked_objects with default sizes painted nothing")
            if case["radius"] is None and not (lab or kw["draw_ids"]) and case["draw"]:
                far = np.full((h, w), 1e9)
                yy, xx = np.mgrid[0:h, 0:w]
                for d in plain:
                    for p, a in zip(d["pts"], d["live"]):
                        if a:
                            far = np.minimum(far, np.hypot(xx - p[0], yy - p[1]))
                check(not touched[far > h / 100 + 3].any(), "draw_tracked_objects with the default radius painted up to %d pixels away", int(far[touched].max()) if touched.any() else 0)
    elif fn == "boxes":
        kw = dict(drawables=objs, thickness=case["width"], draw_ids=bool(id_size), draw_labels=lab)
        cols = [(dict(random_color=True), "random"), (dict(color_by_label=True), "by_label"), (dict(line_color=color), color)][case["rnd"]]
        extra = dict(cols[0])
        if label_size:
            extra["label_size"] = label_size
        if cols[1] == "random":
            from norfair.drawing import Palette

            kw.update(draw_ids=False, draw_labels=False)
            got = draw_boxes(np.zeros((h, w, 3), np.uint8), color="green", **extra, **kw)
            exp = draw_boxes(np.zeros((h, w, 3), np.uint8), color="white", **kw)
            check(np.array_equal(got.any(axis=2), exp.any(axis=2)), "draw_boxes(random_color=True) does not paint the outlines of the boxes")
            pal = {tuple(Palette.choose_color(i)) for i in range(200)}
            check({tuple(v) for v in got[got.any(axis=2)].tolist()} <= pal, "draw_boxes(random_color=True): colors that are not from the palette")
            return
        got = draw_boxes(gradient(h, w), color="green", **extra, **kw)
        exp = draw_boxes(gradient(h, w), color=cols[1] or "green", text_size=label_size or None, **kw)
        same(got, exp, "draw_boxes(%s)" % sorted(extra))
    else:
        kw = dict(drawables=objs, thickness=case["width"], radius=case["radius"] or 2, draw_ids=bool(id_size), draw_labels=lab)
        extra = dict(color_by_label=True) if by else {}
        if label_size:
            extra["label_size"] = label_size
        got = draw_points(gradient(h, w), color=color, **extra, **kw)
        exp = draw_points(gradient(h, w), color="by_label" if by else color, text_size=label_size or None, **kw)
        same(got, exp, "draw_points(%s)" % sorted(extra))


@st.composite
def words_case(draw):
    label = draw(st.one_of(st.sampled_from(NAMES), st.none(), st.text("abcdefghijkl -_.", min_size=1, max_size=20), st.integers(-5, 10 ** 6), st.floats(0, 9).map(lambda v: round(v, 3))))
    scores = draw(st.one_of(st.none(), st.lists(st.one_of(st.integers(0, 100000), st.sampled_from([0, 100000, 50000])), min_size=2, max_size=2)))
    if scores is not None and sum(scores) % 20 == 10:  # the mean lies between two roundings
        scores[0] += 1
    return {"label": list(label) if isinstance(label, tuple) else label, "scores": scores, "id": draw(st.one_of(st.none(), st.integers(0, 12), st.integers(0, 10 ** 7))),
            "flags": draw(st.sampled_from([7, 7, 7, 6, 5, 4, 3, 2, 1])), "kind": draw(st.sampled_from(["drw", "drw", "det", "trk"]))}


def run_words(case, rec):
    """Long titles, which a frame with room shows to the end."""
    from norfair import Tracker
    from norfair.drawing import Drawable, draw_boxes, draw_points

    pts = np.array([[20.0, 40.0], [30.0, 50.0]])
    label, scores = case["label"], None if case["scores"] is None else np.array([s / 100000 for s in case["scores"]])
    label = tuple(label) if isinstance(label, list) else label
    labels, ids, want = (bool(case["flags"] >> k & 1) for k in range(3))
    d = {"label": label, "id": case["id"], "scores": scores}
    if case["kind"] == "drw":
        o = Drawable(points=pts, id=case["id"], label=label, scores=scores, live_points=np.array([True, True]))
    else:
        o = detection(pts, label=label, scores=scores)
        d["id"] = None
        if case["kind"] == "trk":
            o = Tracker(lambda a, b: 1.0, 0.5, initialization_delay=0, hit_counter_max=3, detection_threshold=-1).update([o])[0]
            d["id"], d["scores"] = o.id, None
    text = title(d, labels, ids, want)
    stand_in = Drawable(points=pts, label=text or None, live_points=np.array([True, True]))
    for f, kw in ((draw_boxes, {}), (draw_points, {}), (draw_points, {"hide_dead_points": False})):
        kw.update(color="red", text_size=0.4, text_thickness=1, thickness=1)
        got = f(gradient(70, 420), [o], draw_labels=labels, draw_ids=ids, draw_scores=want, **kw)
        exp = f(gradient(70, 420), [stand_in], draw_labels=True, draw_ids=False, **kw)
        same(got, exp, "%s: title of id %r, label %r, scores %r (labels %s, ids %s, scores %s), expected %r" % (f.__name__, d["id"], label, d["scores"], labels, ids, want, text))
    rec.nontrivial = len(text) > 12
    rec.tag(case["kind"])


SUBS = [
    Sub("words", words_case, run_words, 900, 15000),
    Sub("boxes", box_case, run_box, 1600, 40000),
    Sub("points", point_case, run_point, 1600, 40000),
    Sub("box crowd", lambda: crowded(box_case), run_box, 160, 4000),
    Sub("point crowd", lambda: crowded(point_case), run_point, 160, 4000),
    Sub("turns", turns_case, run_turns, 300, 6000),
    Sub("title", title_case, run_title, 600, 10000),
    Sub("defaults", default_case, run_default, 120, 2000),
    Sub("legacy", legacy_case, run_legacy, 700, 15000),
    Sub("drawable", drawable_case, run_drawable, 160, 1000),
]
