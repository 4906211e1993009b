"""Deterministic data, strategies and comparisons shared by the facets."""
import numpy as np
from hypothesis import strategies as st

from .core import Violation

_M = np.uint64(0xFFFFFFFFFFFFFFFF)


def uniform(seed, n, stream=0):
    """n reproducible numbers in [0, 1): a splitmix64 counter stream."""
    with np.errstate(over="ignore"):
        base = np.uint64((int(seed) * 0x9E3779B97F4A7C15 + (stream + 1) * 0xD1B54A32D192ED03) & 0xFFFFFFFFFFFFFFFF)
        z = base + np.arange(1, n + 1, dtype=np.uint64) * np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    return (z >> np.uint64(11)).astype(np.float64) / float(1 << 53)


def field(seed, shape, lo=-10.0, hi=10.0, stream=0):
    n = int(np.prod(shape)) if len(shape) else 1
    return (lo + (hi - lo) * uniform(seed, n, stream)).reshape(shape)


def gauss(seed, shape, stream=0):
    n = int(np.prod(shape)) if len(shape) else 1
    u, v = uniform(seed, n, 2 * stream + 101), uniform(seed, n, 2 * stream + 102)
    return (np.sqrt(-2 * np.log(1 - u)) * np.cos(2 * np.pi * v)).reshape(shape)


def perm(seed, n, stream=0):
    return np.argsort(uniform(seed, n, 7000 + stream), kind="stable")


seeds = st.integers(0, 2**32 - 1)


def rarely(draw, k):
    """True once in k cases (and never in a shrunk one)."""
    return draw(st.sampled_from([False] * (k - 1) + [True]))


def ints(a, b):
    return st.integers(a, b)


def fl(a, b, step=None):
    """Floats in [a, b]; a mix of plain and 'round' values."""
    return st.floats(a, b, allow_nan=False, allow_infinity=False, width=64)


def plain(a):
    """A numpy array with the values of any result (dask computed)."""
    if hasattr(a, "compute") and not isinstance(a, np.ndarray):
        a = a.compute()
    if hasattr(a, "values") and not callable(a.values):
        a = a.values
    if hasattr(a, "magnitude"):
        a = a.magnitude
    return np.asarray(a)


def fmt(x):
    return np.array2string(np.asarray(x), threshold=12, precision=12)


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """Shapes, NaN pattern and values must agree (infinities exactly)."""
    g, w = plain(got), plain(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.dtype == object:
        raise Violation(f"{what}: object dtype")
    g = g.astype(np.float64) if g.dtype.kind in "fiub" else g
    w = w.astype(np.float64) if w.dtype.kind in "fiub" else w
    if g.size == 0:
        return
    gn, wn = np.isnan(g), np.isnan(w)
    if not np.array_equal(gn, wn):
        i = tuple(int(x) for x in np.argwhere(gn != wn)[0])
        raise Violation(f"{what}: missing-value pattern differs at {i}: got {g[i]}, expected {w[i]}")
    ok = ~gn
    if scale is None:
        tol = atol + rtol * np.abs(w)
    else:
        tol = atol + rtol * np.maximum(np.abs(w), scale)
    with np.errstate(invalid="ignore"):
        bad = ok & ~((np.abs(g - w) <= tol) | (g == w))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(f"{what}: at {i}: got {g[i]!r}, expected {w[i]!r} ({int(bad.sum())} of {g.size} differ)")


def same(got, want, what):
    g, w = plain(got), plain(want)
    if g.shape != w.shape or not np.array_equal(g, w, equal_nan=(g.dtype.kind == "f" and w.dtype.kind == "f")):
        raise Violation(f"{what}: got {fmt(g)}, expected {fmt(w)}")


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def magnify(x, top):
    """The factor that brings the largest number in ``x`` to about ``top``."""
    if hasattr(x, "data_vars"):
        return min(magnify(v, top) for v in x.data_vars.values())
    v = np.asarray(getattr(x, "values", x), float)
    m = np.abs(v[np.isfinite(v)]).max() if np.isfinite(v).any() else 0
    return top / m if m else 1.0
