"""Video: reads every frame once in order, writes what it is given where it says."""
import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from ..core import Sub, check, fail
from ..scratch import scratch

RULE = (
    "roundtrip: synthetic clips (2-9 frames; long: 300-2200 frames; several sizes, fps, mp4 and avi) read with Video and compared frame by frame with "
    "OpenCV's own reader, written back (possibly resized, selected, with other fps / codec / extension / output folder or "
    "file) and read again: number, order, size, colors, fps and file name of the output; arguments: invalid combinations, "
    "missing and non-video files, codecs per extension, output names; show: the displayed image (OpenCV's window function is "
    "replaced by a recorder). Non-trivial: the output differs from the input in frame count, size, fps or name."
)
ASSUMPTIONS = ["OpenCV's mp4v and XVID codecs keep flat areas within 12 levels"]
SIZES = [[64, 48], [48, 64], [96, 32], [80, 80]]


def picture(k, w, h):
    """Frame k: three flat areas whose levels identify k, orientation and channel order."""
    f = np.zeros((h, w, 3), np.uint8)
    f[:] = (20 + 22 * (k % 10), 60, 200 - 15 * (k % 10))
    f[: h // 2, : w // 2] = (220, 30 + 20 * (k % 10), 40)
    return f


def marks(f, w, h):
    """Levels in the middle of the flat areas."""
    return np.array([f[h * 3 // 4, w * 3 // 4], f[h // 4, w // 4], f[h * 3 // 4, w // 4]]).astype(int)


def make_clip(path, n, w, h, fps, fourcc):
    import cv2

    out = cv2.VideoWriter(path, cv2.VideoWriter_fourcc(*fourcc), fps, (w, h))
    for k in range(n):
        out.write(picture(k, w, h))
    out.release()


def read(path):
    import cv2

    cap = cv2.VideoCapture(path)
    frames = []
    while True:
        ok, f = cap.read()
        if not ok:
            break
        frames.append(f)
    fps = cap.get(cv2.CAP_PROP_FPS)
    cap.release()
    return frames, fps


@contextlib.contextmanager
def inside(folder):
    old = os.getcwd()
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(old)


@st.composite
def trip_case(draw):
    return {"n": draw(st.integers(2, 9)), "size": draw(st.integers(0, len(SIZES) - 1)), "fps": draw(st.sampled_from([10, 24, 25, 30, 12.5, 29.97])),
            "ext": draw(st.sampled_from(["mp4", "mp4", "avi"])), "name": draw(st.sampled_from(["clip", "my video", "a_b", "x1"])),
            "out": draw(st.sampled_from(["dir", "file", "default", "sub", "none"])), "oext": draw(st.sampled_from([None, "avi", "mp4"])),
            "ofps": draw(st.sampled_from([None, None, 12, 20.0, 7.5, 23.976])), "fourcc": draw(st.sampled_from([None, None, "mp4v"])),
            "keep": draw(st.sampled_from([1, 1, 2])), "resize": draw(st.one_of(st.none(), st.integers(0, len(SIZES) - 1))),
            "label": draw(st.sampled_from(["", "progress", "x" * 120]))}


@st.composite
def long_case(draw):
    """The same with clips of hundreds of frames."""
    return dict(draw(trip_case()), n=draw(st.sampled_from([1400, 300, 1100, 2100])) + draw(st.integers(0, 99)), size=0, resize=None, label="")


def run_trip(case, rec):
    import cv2
    from norfair import Video

    w, h = SIZES[case["size"]]
    with scratch() as d:
        src = os.path.join(d, "%s.%s" % (case["name"], case["ext"]))
        make_clip(src, case["n"], w, h, case["fps"], {"mp4": "mp4v", "avi": "XVID"}[case["ext"]])
        ref, src_fps = read(src)
        check(len(ref) == case["n"], "setup: the clip has %d frames instead of %d", len(ref), case["n"])
        kw = {"label": case["label"]}
        ext = case["oext"] or "mp4"
        if case["oext"]:
            kw["output_extension"] = case["oext"]
        if case["ofps"]:
            kw["output_fps"] = case["ofps"]
        if case["fourcc"] and (case["out"] == "file" or ext == "mp4"):
            kw["output_fourcc"] = case["fourcc"]
        outdir = os.path.join(d, "out.d")
        os.mkdir(outdir)
        auto = "%s_out.%s" % (case["name"], ext)
        if case["out"] == "file":
            kw["output_path"] = expected = os.path.join(outdir, "result." + ext)
        elif case["out"] in ("dir", "sub"):
            kw["output_path"] = outdir
            expected = os.path.join(outdir, auto)
        else:
            expected = os.path.join(d, auto)
        with inside(d):
            rel = case["out"] == "sub"
            v = Video(input_path="./" + os.path.basename(src) if rel else src, **kw)
            check((v.input_width, v.input_height) == (w, h), "input size %s x %s, expected %d x %d", v.input_width, v.input_height, w, h)
            out_size = SIZES[case["resize"]] if case["resize"] is not None else [w, h]
            written, count = [], 0
            for k, frame in enumerate(v):
                check(k < len(ref), "more than %d frames", len(ref))
                check(isinstance(frame, np.ndarray) and np.array_equal(frame, ref[k]), "frame %d differs from what OpenCV reads", k)
                count += 1
                if case["out"] != "none" and k % case["keep"] == 0:
                    o = cv2.resize(picture(k, w, h), tuple(out_size), interpolation=cv2.INTER_NEAREST) if out_size != [w, h] else picture(k, w, h)
                    keep = o.copy()
                    v.write(o)
                    check(np.array_equal(o, keep), "write changed the frame")
                    written.append(k)
            check(count == len(ref), "%d frames were read, the video has %d", count, len(ref))
            made = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if os.path.join(r, f) != src)
            if case["out"] == "none":
                check(made == [], "files were created without a write: %s", made)
                return
            check(made == [expected], "output files %s, expected %s", made, expected)
            told = v.get_output_file_path()
            check(os.path.abspath(told) == os.path.abspath(expected), "get_output_file_path() is %r, the file is %r", told, expected)
        got, fps = read(expected)
        check(len(got) == len(written), "%d frames were written, the file has %d", len(written), len(got))
        for k, f in zip(written, got):
            ow, oh = out_size
            check(f.shape == (oh, ow, 3), "a frame of the output has shape %s, expected %s", f.shape, (oh, ow, 3))
            err = np.abs(marks(f, ow, oh) - marks(picture(k, ow, oh), ow, oh)).max()
            check(err <= 12, "frame written as %s is read back as %s", marks(picture(k, ow, oh), ow, oh).tolist(), marks(f, ow, oh).tolist())
        want = case["ofps"] or src_fps
        check(abs(fps - want) < 0.02, "the output has %s fps, expected %s", fps, want)
        rec.tag(case["out"], ext, "in " + case["ext"])
        rec.nontrivial = case["keep"] > 1 or out_size != [w, h] or want != src_fps or case["out"] == "file"


@st.composite
def arg_case(draw):
    return {"what": draw(st.sampled_from(["neither", "both", "camera", "missing", "text", "empty", "fourcc", "camera_path", "name", "dir"])),
            "v": draw(st.integers(-3, 40)), "s": draw(st.text("abcXYZ019_- ", min_size=1, max_size=8)),
            "ext": draw(st.sampled_from(["mp4", "avi", "MP4", "AVI", "Mp4", "mkv", "mov", "webm", "txt", "m4", "mpg"])),
            "dirs": draw(st.lists(st.text("abc._", min_size=1, max_size=4).filter(lambda s: s.strip(".") != ""), max_size=2)), "fc": draw(st.sampled_from([None, None, "XVID", "avc1"]))}


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    fail("%s did not raise %s" % (what, exc.__name__))


def run_arg(case, rec):
    from norfair import Video

    what = case["what"]
    rec.tag(what)
    rec.nontrivial = True
    with scratch() as d, inside(d):
        src = os.path.join(d, "in.mp4")
        if what == "neither":
            raises(ValueError, lambda: Video(output_path=d), "Video() without an input")
            raises(ValueError, Video, "Video()")
        elif what == "both":
            raises(ValueError, lambda: Video(camera=max(case["v"], 0), input_path=src), "Video(camera=%d, input_path=...)" % max(case["v"], 0))
        elif what == "camera":
            for bad in (case["s"], str(case["v"]), float(case["v"]), [case["v"]]):
                raises(ValueError, lambda: Video(camera=bad), "Video(camera=%r)" % (bad,))
        elif what == "missing":
            raises(RuntimeError, lambda: Video(input_path=os.path.join(d, case["s"] + ".mp4")), "Video of a missing file")
            raises(RuntimeError, lambda: Video(input_path=case["s"]), "Video of a missing file")
        elif what == "dir":
            raises(RuntimeError, lambda: Video(input_path=d), "Video of a folder")
        elif what in ("text", "empty"):
            with open(src, "w") as f:
                f.write(case["s"] * case["v"] if what == "text" else "")
            raises(RuntimeError, lambda: Video(input_path=src), "Video of a file that is not a video")
        else:
            import cv2

            if what == "camera_path":
                # no camera here: opening it fails silently
                cam = 90 + max(case["v"], 0)
                old = cv2.VideoCapture
                asked = []

                def fake(arg):
                    asked.append(arg)
                    return old()
                cv2.VideoCapture = fake
                try:
                    v = Video(camera=cam, output_path=d, output_extension=case["ext"], output_fps=10)
                finally:
                    cv2.VideoCapture = old
                check(asked == [cam], "Video(camera=%d) opened %r", cam, asked)
                p = v.get_output_file_path()
                check(os.path.dirname(p) == d and os.path.splitext(p)[1] == "." + case["ext"] and str(cam) in os.path.basename(p),
                      "the output of camera %d is %r", cam, p)
                return
            make_clip(src, 2, 64, 48, 25, "mp4v")
            if what == "name":
                folder = os.path.join(d, *["d" + s for s in case["dirs"]])
                os.makedirs(folder, exist_ok=True)
                path = os.path.join(folder, case["s"].replace(" ", "_") + "q.mp4")
                os.rename(src, path)
                v = Video(input_path=path, output_path=d, output_extension=case["ext"])
                want = os.path.join(d, case["s"].replace(" ", "_") + "q_out." + case["ext"])
                check(v.get_output_file_path() == want, "output path %r, expected %r", v.get_output_file_path(), want)
                f = os.path.join(d, "nodir", "x." + case["ext"])
                v = Video(input_path=path, output_path=f)
                check(v.get_output_file_path() == f, "output path %r, expected %r", v.get_output_file_path(), f)
                return
            kw = {} if case["fc"] is None else {"output_fourcc": case["fc"]}
            v = Video(input_path=src, **kw)
            dotted = "".join(x + "." for x in case["dirs"])
            want = case["fc"] or {"mp4": "mp4v", "avi": "XVID"}.get(case["ext"].lower())
            for folder, stem in [(d, ""), (d, dotted), ("", dotted), ("", "a.avi."), ("./x.mp4", dotted), ("..", "")]:
                name = os.path.join(folder, stem + case["s"] + "." + case["ext"])
                if want is None:
                    raises(RuntimeError, lambda: v.get_codec_fourcc(name), "the codec of %r" % name)
                else:
                    check(v.get_codec_fourcc(name) == want, "the codec of %r is %r, expected %r", name, v.get_codec_fourcc(name), want)


@st.composite
def show_case(draw):
    return {"w": draw(st.integers(8, 60)), "h": draw(st.integers(8, 60)), "ratio": draw(st.sampled_from([None, 1, 1.0, 2, 2.0, 1.5, 4, 0.5, 2.5])), "key": draw(st.integers(-1, 255))}


CLIP = {}


def run_show(case, rec):
    import cv2
    from norfair import Video

    shown = []
    old = cv2.imshow, cv2.waitKey
    with scratch() as d:
        src = os.path.join(d, "in.mp4")
        make_clip(src, 2, 64, 48, 25, "mp4v")
        v = Video(input_path=src)
        frame = picture(3, case["w"], case["h"])
        keep = frame.copy()
        cv2.imshow = lambda name, f: shown.append(np.array(f))
        cv2.waitKey = lambda *a: case["key"]
        try:
            r = v.show(frame) if case["ratio"] is None else v.show(frame, downsample_ratio=case["ratio"])
        finally:
            cv2.imshow, cv2.waitKey = old
    check(r == case["key"], "show returned %r, the key was %r", r, case["key"])
    check(len(shown) == 1, "show displayed %d images", len(shown))
    check(np.array_equal(frame, keep), "show changed the frame")
    ratio = case["ratio"] or 1
    want = (int(case["h"] / ratio), int(case["w"] / ratio))
    got = shown[0].shape[:2]
    check(abs(got[0] - want[0]) <= 1 and abs(got[1] - want[1]) <= 1, "show displayed %s, expected %s", got, want)
    if ratio == 1:
        check(np.array_equal(shown[0], frame), "show displayed something else")
    else:
        rec.nontrivial = True
        h, w = got
        e = np.abs(marks(shown[0], w, h) - marks(picture(3, w, h), w, h)).max()
        check(e <= 2 or min(h, w) < 8, "show displayed other colors")


SUBS = [
    Sub("roundtrip", trip_case, run_trip, 500, 12000),
    Sub("long", long_case, run_trip, 16, 200),
    Sub("arguments", arg_case, run_arg, 500, 10000),
    Sub("show", show_case, run_show, 160, 3000),
]
