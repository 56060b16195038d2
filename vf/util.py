"""Small helpers shared by the checks."""
import contextlib
import inspect

import numpy as np

from .core import check, fail


def arr(x, shape=None, what="value"):
    a = np.asarray(x)
    if a.dtype == object:
        fail("%s is not a numeric array: %r" % (what, x))
    if shape is not None:
        check(a.shape == tuple(shape), "%s has shape %s, expected %s", what, a.shape, tuple(shape))
    return a.astype(float)


def max_err(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    with np.errstate(invalid="ignore"):
        e = np.abs(a - b)
    e = np.where(a == b, 0, e)
    if np.isnan(e).any():
        return np.inf
    return float(e.max())


def near(a, b, rtol=1e-7, atol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    scale = max(float(np.max(np.abs(b))) if b.size else 0.0, 1.0)
    if not np.isfinite(scale):
        return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    return max_err(a, b) <= atol + rtol * scale


def check_near(a, b, what, rtol=1e-7, atol=1e-7):
    if not near(a, b, rtol, atol):
        fail("%s: got %s, expected %s" % (what, np.asarray(a).tolist(), np.asarray(b).tolist()))


def check_equal_arrays(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        fail("%s: got %s, expected %s" % (what, a.tolist(), b.tolist()))


def jitter(*ks):
    """A deterministic offset in [0, 1) that makes ties between distinct detections rare."""
    h = 1469598103
    for k in ks:
        h = ((h ^ (int(k) + 1013904223)) * 16777619) & 0xFFFFFFFF
        h ^= h >> 15
        h = (h * 2246822519) & 0xFFFFFFFF
        h ^= h >> 13
    return h / 4294967296.0


# the first keep the number type
LAYOUTS = ["fortran", "strided", "reversed", "read-only", "view", "subclass", "big-endian", "float32", "int"]


class Points(np.ndarray):
    pass


def laid_out(a, how):
    """The same numbers in another kind of array."""
    if how is None:
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full(tuple(2 * n for n in a.shape), 99, dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if how == "reversed":
        flip = tuple(slice(None, None, -1) for _ in a.shape)
        return a[flip].copy()[flip]
    if how == "view":
        big = np.full(tuple(n + 2 for n in a.shape), 99, dtype=a.dtype)
        inner = tuple(slice(1, -1) for _ in a.shape)
        big[inner] = a
        return big[inner]
    if how == "float32":
        return a.astype(np.float32)
    if how == "int":
        return a.astype(int) if (a == a.astype(int)).all() else a
    if how == "big-endian":
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "subclass":
        return a.view(Points)
    a = a.copy()
    a.flags.writeable = False
    return a


@contextlib.contextmanager
def closing(thing):
    """Closes generators left in the attributes of thing: a progress bar that is still shown when it is collected may hang."""
    try:
        yield thing
    finally:
        for v in list(vars(thing).values()):
            if inspect.isgenerator(v):
                v.close()


def layouts():
    """A layout (or none) that keeps the number type."""
    from hypothesis import strategies as st

    return st.sampled_from([None] * 5 + LAYOUTS[:7])
