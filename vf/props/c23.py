"""Colors: hex parsing, named colors, palettes."""
import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail
from ..trk import LABELS, label_of

RULE = (
    "hex: every 24-bit color in 3- or 6-digit form and any letter case, and malformed strings (near misses of valid ones); "
    "names: every color of PIL's table, matplotlib's tab20 and seaborn's colorblind palette against Color and parse_color; "
    "palette: histories of Palette.set (names, lists, generators of color-likes, invalid ones), set_default_color and "
    "choose_color against a model (deterministic, equal keys get equal colors, always in the palette, consecutive ids differ, "
    "None gets the default). Non-trivial: letters of mixed case / a palette set twice with keys in between."
)
HEX = "0123456789abcdefABCDEF"


def tup(c):
    return tuple(int(v) for v in c)


def hex_case():
    ok = st.one_of(
        st.text(HEX, min_size=6, max_size=6), st.text(HEX, min_size=3, max_size=3)
    ).map(lambda s: "#" + s)
    bad = st.one_of(
        ok.map(lambda s: s[1:]), ok.map(lambda s: s + "0"), ok.map(lambda s: s + "\n"), ok.map(lambda s: s[:-1] + "g"),
        ok.map(lambda s: " " + s), ok.map(lambda s: s + " "), ok.map(lambda s: s[:3] + "-" + s[4:]), ok.map(lambda s: "##" + s[2:]),
        st.text(HEX + "#xgz -", max_size=8), ok.map(lambda s: s[:2] + "\u0663" + s[3:]), ok.map(lambda s: s[:-1]),
        ok.map(lambda s: s + s[1:3]),
    )
    return st.one_of(ok, ok, bad)


def run_hex(s, rec):
    from norfair.drawing.color import hex_to_bgr, parse_color

    body = s[1:]
    valid = s[:1] == "#" and len(body) in (3, 6) and all(ch in HEX for ch in body)
    if valid:
        if len(body) == 3:
            body = "".join(ch + ch for ch in body)
        v = int(body, 16)
        want = (v % 256, v // 256 % 256, v // 65536)
        for fn in (hex_to_bgr, parse_color):
            got = fn(s)
            check(isinstance(got, tuple) and tup(got) == want, "%s(%r) is %r, expected %r", fn.__name__, s, got, want)
        rec.tag("valid%d" % (len(s) - 1))
        rec.nontrivial = any(ch.isupper() for ch in s) or len(s) == 4
        return
    rec.tag("invalid")
    for fn in (hex_to_bgr, parse_color) if s.startswith("#") else (hex_to_bgr,):
        try:
            got = fn(s)
        except ValueError:
            continue
        fail("%s(%r) returned %r for an invalid color" % (fn.__name__, s, got))


CB = ["#0173b2", "#de8f05", "#029e73", "#d55e00", "#cc78bc", "#ca9161", "#fbafe4", "#949494", "#ece133", "#56b4e9"]


def bgr(h):
    return (int(h[5:7], 16), int(h[3:5], 16), int(h[1:3], 16))


def tables():
    from matplotlib import colormaps
    from PIL import ImageColor

    named = {n: bgr(v) for n, v in ImageColor.colormap.items() if isinstance(v, str)}
    t20 = [tuple(int(round(v * 255)) for v in c[::-1]) for c in colormaps["tab20"].colors]
    for i, c in enumerate(t20):
        named["tab%d" % (i + 1)] = c
    for i, c in enumerate(CB):
        named["cb%d" % (i + 1)] = bgr(c)
    pal = {"tab20": t20, "tab10": [tuple(int(round(v * 255)) for v in c[::-1]) for c in colormaps["tab10"].colors],
           "colorblind": [bgr(c) for c in CB]}
    return named, pal


TABLES = []


def get_tables():
    if not TABLES:
        TABLES.append(tables())
    return TABLES[0]


def name_case():
    return st.tuples(st.integers(0, 400), st.tuples(*[st.integers(0, 255)] * 3).map(list)).map(list)


def run_name(case, rec):
    from norfair.drawing import Color
    from norfair.drawing.color import parse_color

    named, _ = get_tables()
    names = sorted(named)
    n = names[case[0] % len(names)]
    for what, got in (("Color." + n, getattr(Color, n)), ("parse_color(%r)" % n, parse_color(n))):
        check(isinstance(got, tuple) and tup(got) == named[n], "%s is %r, expected %r", what, got, named[n])
    c = case[1]
    for form in (tuple(c), list(c), np.array(c), np.array(c, dtype=np.uint8), tuple(float(v) for v in c)):
        got = parse_color(form)
        check(isinstance(got, tuple) and tup(got) == tuple(c) and all(type(v) is int for v in got), "parse_color(%r) is %r", form, got)
    rec.nontrivial = True
    rec.tag(n[:1])


key = st.one_of(
    st.tuples(st.just("k"), st.integers(0, len(LABELS) - 1)).map(list), st.tuples(st.just("i"), st.integers(0, 10 ** 6)).map(list),
    st.tuples(st.just("neg"), st.integers(-50, 50)).map(list), st.just(["none", 0]), st.tuples(st.just("s"), st.text(max_size=4)).map(list),
)
clr = st.one_of(
    st.tuples(*[st.integers(0, 255)] * 3).map(list), st.text(HEX, min_size=6, max_size=6).map(lambda s: "#" + s),
    st.sampled_from(["red", "blue", "white", "tab3", "cb2", "orange"]),
)
op = st.one_of(
    st.tuples(st.just("choose"), key).map(list), st.tuples(st.just("choose"), key).map(list),
    st.tuples(st.just("ids"), st.one_of(st.integers(0, 1000), st.integers(0, 1000), st.integers(0, 2 ** 58), st.sampled_from([2 ** k for k in range(6, 58)]).map(lambda v: v - 5))).map(list),
    st.tuples(st.just("name"), st.sampled_from(["tab10", "tab20", "colorblind", "tab30", "", "TAB10"])).map(list),
    st.tuples(st.just("list"), st.lists(clr, min_size=1, max_size=6), st.sampled_from(["list", "gen", "tuple", "mutate"])).map(list),
    st.tuples(st.just("bad"), st.lists(clr, min_size=0, max_size=2), st.sampled_from(["#12", "#ggg"])).map(list),
    st.tuples(st.just("default"), clr).map(list),
)


def palette_case():
    many = st.tuples(st.just("many"), st.integers(0, 10 ** 6), st.sampled_from([300, 1100, 5000]), st.integers(0, 2)).map(list)
    return st.one_of(*[st.lists(op, min_size=1, max_size=14)] * 12, st.lists(st.one_of(op, many), min_size=1, max_size=6))


def parse(c):
    named, _ = get_tables()
    if isinstance(c, str):
        return bgr(c) if c[0] == "#" else named[c]
    return tuple(c)


def run_palette(case, rec):
    from norfair.drawing import Palette

    _, pals = get_tables()
    Palette.set("tab10")
    Palette.set_default_color("black")
    pal, default = pals["tab10"], (0, 0, 0)
    seen = {}
    sets = chooses = 0
    try:
        for o in case:
            kind = o[0]
            if kind == "choose":
                k, v = o[1]
                h = {"k": lambda: label_of(LABELS[v]), "i": lambda: v, "neg": lambda: v, "none": lambda: None, "s": lambda: v}[k]()
                got = Palette.choose_color(h)
                check(isinstance(got, tuple) and len(got) == 3, "choose_color(%r) is %r", h, got)
                got = tup(got)
                if h is None:
                    check(got == default, "choose_color(None) is %r, the default is %r", got, default)
                else:
                    check(got in pal, "choose_color(%r) is %r, not in the palette %s", h, got, pal)
                    check(seen.setdefault(h, got) == got, "choose_color(%r) changed from %r to %r", h, seen[h], got)
                    chooses += 1
                    if sets > 1:
                        rec.nontrivial = True
            elif kind == "ids":
                cs = [tup(Palette.choose_color(o[1] + i)) for i in range(len(pal))]
                check(sorted(cs) == sorted(pal), "%d consecutive ids get the colors %s, the palette is %s", len(pal), cs, pal)
                for i, c in enumerate(cs):
                    check(seen.setdefault(o[1] + i, c) == c, "choose_color(%d) changed", o[1] + i)
            elif kind == "many":
                # a long video: many ids and labels come and go
                for h in [o[1] + i for i in range(o[2])] if o[3] < 2 else ["object %d" % i for i in range(o[2])]:
                    c = tup(Palette.choose_color(h))
                    check(seen.setdefault(h, c) == c, "choose_color(%r) changed from %r to %r", h, seen[h], c)
                for h, c in list(seen.items()):
                    check(tup(Palette.choose_color(h)) == c and c in pal, "choose_color(%r) is %r, was %r", h, Palette.choose_color(h), c)
                rec.tag("many")
            elif kind == "name":
                try:
                    Palette.set(o[1])
                    check(o[1] in pals, "the palette name %r was accepted", o[1])
                    pal, seen = pals[o[1]], {}
                    sets += 1
                except ValueError:
                    check(o[1] not in pals, "the palette name %r was rejected", o[1])
                    rec.tag("bad name")
            elif kind == "list":
                arg = [tuple(c) if isinstance(c, list) else c for c in o[1]]
                keep = arg
                if o[2] == "gen":
                    arg = (c for c in list(arg))
                elif o[2] == "tuple":
                    arg = tuple(arg)
                Palette.set(arg)
                if o[2] == "mutate":
                    del keep[:]
                pal, seen = [parse(c) for c in o[1]], {}
                sets += 1
                rec.tag("custom")
            elif kind == "bad":
                try:
                    Palette.set([tuple(c) if isinstance(c, list) else c for c in o[1]] + [o[2]])
                    fail("a palette with the color %r was accepted" % o[2])
                except ValueError:
                    rec.tag("bad color")
            else:
                c = o[1]
                Palette.set_default_color(tuple(c) if isinstance(c, list) else c)
                default = parse(c)
    finally:
        Palette.set("tab10")
        Palette.set_default_color("black")


SUBS = [
    Sub("hex", hex_case, run_hex, 6000, 150000),
    Sub("names", name_case, run_name, 2000, 8000),
    Sub("palette", palette_case, run_palette, 3000, 60000),
]
