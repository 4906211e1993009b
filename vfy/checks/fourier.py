"""F01, F02: Fourier filters."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, facet

KINDS = ["low", "high", "band", "block"]


def modes(n):
    """Frequency index |k| of every DFT coefficient."""
    k = np.arange(n)
    return np.minimum(k, n - k)


def dft_keep(x, keep):
    """The part of ``x`` (along axis 0) made of the kept frequency indices, by explicit sines and cosines."""
    n = x.shape[0]
    t = np.arange(n)
    out = np.zeros(x.shape)
    for k in sorted(set(int(v) for v in modes(n)[keep])):
        c, s = np.cos(2 * np.pi * ((k * t) % n) / n), np.sin(2 * np.pi * ((k * t) % n) / n)
        scale = 1.0 / n if k == 0 or 2 * k == n else 2.0 / n
        a, b = np.tensordot(c, x, 1) * scale, np.tensordot(s, x, 1) * scale
        out += np.multiply.outer(c, a) + np.multiply.outer(s, b)
    return out


@st.composite
def cutoff(draw, n):
    """A cutoff in units of the mode spacing: inside (0, 1), between modes, or on a mode."""
    k = draw(st.integers(0, n // 2 + draw(st.sampled_from([0, 0, 1, n]))))
    return k, draw(st.sampled_from([0.0, 0.5, 0.5, 0.25, 0.9, 1e-5, 0.004, 0.996, 1 - 1e-5]))


@st.composite
def filter_case(draw, tier="quick", kinds=KINDS):
    top = 24 if tier == "quick" else 90
    n = draw(st.one_of(st.integers(2, top), st.sampled_from([2, 3, 4, 5, 8, 9, 16])))
    long = U.rarely(draw, 25)
    if long:
        n = draw(st.sampled_from([128, 365, 509, 600, 997, 1000, 1461, 2048, 2500, 4096]))
    nd = draw(st.sampled_from([1, 1, 2, 2, 3, 4] if tier == "thorough" else [1, 1, 2, 2, 3]))
    others = [draw(st.sampled_from([1, 2, 3] if long else [1, 2, 3, n, n + 1, 2 * n] if nd < 3 else [1, 2, 3, n])) for _ in range(nd - 1)]
    ax = draw(st.integers(0, nd - 1))
    shape = others[:ax] + [n] + others[ax:]
    kind = draw(st.sampled_from(kinds))
    lo, hi = draw(cutoff(n)), draw(cutoff(n))
    if lo > hi:
        lo, hi = hi, lo
    return dict(
        shape=shape, axis=ax - (nd if draw(st.booleans()) else 0), kind=kind, lo=list(lo), hi=list(hi),
        # a power of two: mode frequencies are then exact when n is one, too
        freq=draw(st.sampled_from([1.0, 1, 64.0, 10.0, 0.1, 200, 24.0, 1 / 3, 365.25])), seed=draw(U.seeds),
        data=draw(st.sampled_from(["noise", "noise", "mode", "impulse", "constant", "int"])),
        box=draw(st.sampled_from(["np", "np", "xr", "xr", "list", "f4"])),
        # size of all numbers, and of the lines relative to one another (powers of two)
        size=draw(st.sampled_from([0, 0, 0, -40, 40])), spread=draw(st.sampled_from([0, 0, 0, 30, 50])),
    )


def sizes(case):
    """A factor for every line."""
    shape = list(case["shape"])
    shape[case["axis"]] = 1
    k = np.round(U.uniform(case["seed"], int(np.prod(shape)), 91) * case.get("spread", 0)) if case["box"] != "f4" and case["data"] != "int" else np.zeros(int(np.prod(shape)))
    return 2.0 ** (k.reshape(shape) + (case.get("size", 0) if case["data"] != "int" and case["box"] != "f4" else 0))


def signal(case, stream=0):
    shape, s = tuple(case["shape"]), case["seed"]
    n = shape[case["axis"]]
    kind = case["data"]
    if kind == "constant":
        return np.full(shape, round(float(U.uniform(s, 1, stream)[0] * 9), 2) + 1)
    x = U.field(s, shape, -5, 5, stream)
    if kind == "int":
        return np.round(x * 3)
    if kind == "mode":
        k = int(U.uniform(s, 1, stream + 5)[0] * (n // 2 + 1))
        w = np.cos(2 * np.pi * k * np.arange(n) / n + 0.7)
        return np.moveaxis(np.broadcast_to(w, shape[:-1] + (n,)) if len(shape) == 1 else
                           np.broadcast_to(w, tuple(np.delete(shape, case["axis"])) + (n,)), -1, case["axis"]).copy()
    if kind == "impulse":
        out = np.zeros(shape)
        out.reshape(-1)[int(U.uniform(s, 1, stream + 6)[0] * out.size)] = 7.0
        return out
    return x


def box(case, x):
    b = case["box"]
    if b == "xr":
        dims = [f"d{i}" for i in range(x.ndim)]
        dims[case["axis"]] = "time"
        return xr.DataArray(x, dims=dims, coords={d: np.arange(k) * 2.0 + 1 for d, k in zip(dims, x.shape)} | {"ref": 4.0},
                            name="sig", attrs={"units": "m", "n": 3})
    return x.tolist() if b == "list" else x.astype("f4") if b == "f4" else x.astype(int) if case["data"] == "int" else x


def bounds(case):
    """(low, high) cutoff in units of the mode spacing and the modes they round to."""
    n = case["shape"][case["axis"]]
    exact = n & (n - 1) == 0 and case["freq"] in (1.0, 64.0)
    out = []
    for (k, f), up in ((case["lo"], False), (case["hi"], True)):
        if f == 0.0 and not exact and k:
            f = 0.5      # on a mode only where the quotient cutoff/spacing is exact
        out += [k + f, k + (1 if f and up else 0)]
    if out[0] > out[2]:
        return out[2], out[2] // 1, out[0], -(-out[0] // 1)
    return out[0], out[1], out[2], out[3]


def keep_mask(case):
    n = case["shape"][case["axis"]]
    _, lo, _, hi = bounds(case)
    m = modes(n)
    return {"low": m < lo, "high": m >= hi, "band": (m >= lo) & (m < hi), "block": (m < lo) | (m >= hi)}[case["kind"]]


def apply(case, cx, x, kind=None, wrapper=True):
    n = case["shape"][case["axis"]]
    kind = kind or case["kind"]
    lo, _, hi, _ = bounds(case)
    res = case["freq"] / n
    lo, hi, f = lo * res, hi * res, case["freq"]
    kw = {} if case["axis"] == 0 else {"time_axis": np.int64(case["axis"]) if case["seed"] % 5 == 0 else case["axis"]}
    if wrapper:
        if kind == "low":
            return cx.call(gc.fourier_low_pass, x, f, lo, **kw)
        if kind == "high":
            return cx.call(gc.fourier_high_pass, x, f, hi, **kw)
        return cx.call(gc.fourier_band_pass if kind == "band" else gc.fourier_band_block, x, f, lo, hi, **kw)
    flag = {"low": "low_pass", "high": "high_pass", "band": "band_pass", "block": "band_block"}[kind]
    cut = {} if kind == "high" else {"cutoff_frequency_low": lo}
    if kind != "low":
        cut["cutoff_frequency_high"] = hi
    return cx.call(gc.fourier_filter, x, f, **cut, **{flag: True}, **kw)


TOL = dict(rtol=1e-9, scale=10.0)


def tol(case):
    return dict(rtol=2e-6, scale=20.0) if case["box"] == "f4" else TOL


def describe(case, cx):
    m = keep_mask(case)
    n = len(m)
    cx.label(case["kind"], case["box"], case["data"], f"axis{case['axis'] % len(case['shape'])}of{len(case['shape'])}",
             "odd" if n % 2 else "even", "all" if m.all() else "none" if not m.any() else "part",
             "beyond-nyquist" if bounds(case)[3] > n // 2 + 1 else "within", "on-mode" if bounds(case)[0] == bounds(case)[1] else "between")
    cx.interesting(m.any() and not m.all())


@facet("F01", "bands", lambda tier: filter_case(tier), 4500, 60000,
       rule="real signals x shape x filtered axis x filter x cutoffs (on modes, between modes, zero, beyond Nyquist) x sampling frequency x container; non-trivial when some modes are kept and some removed")
def bands(case, cx):
    x, z = signal(case), sizes(case)
    describe(case, cx)
    cx.label("lines of one size" if np.ptp(z) == 0 else "lines of different size")
    r = apply(case, cx, box(case, x * z), wrapper=case["seed"] % 2 == 0)
    g = U.plain(r)
    U.need(g.dtype.kind == "f", f"dtype {g.dtype}")
    g = g / z.astype(g.dtype)
    want = np.moveaxis(dft_keep(np.moveaxis(x, case["axis"], 0), keep_mask(case)), 0, case["axis"])
    U.close(g, want, f"fourier {case['kind']}", **tol(case))


@st.composite
def law_case(draw, tier="quick"):
    return dict(draw(filter_case(tier)), law=draw(st.sampled_from(["lines", "linear", "idempotent", "complement", "shift", "metadata", "axes", "time-shift"])))


@facet("F02", "laws", lambda tier: law_case(tier), 4500, 60000,
       rule="as for the bands, x law (each line alone, linearity, idempotence, complementary filters, metadata, axis order, circular shift in time); non-trivial when some modes are kept and some removed")
def laws(case, cx):
    law, ax = case["law"], case["axis"]
    if law == "metadata":
        case = dict(case, box="xr")
    x = signal(case)
    if law in ("lines", "axes", "time-shift"):
        z = sizes(case)
        x = x * z
    else:
        z = np.ones(())
    describe(case, cx)
    cx.label(law)
    w = case["seed"] % 2 == 0
    r = apply(case, cx, box(case, x), wrapper=w)
    g = U.plain(r).astype(float)
    t = tol(case)
    U.need(g.shape == x.shape, f"shape {g.shape} for input {x.shape}")
    what = f"fourier {case['kind']} {law}"
    if law == "lines":
        flat = np.moveaxis(x, ax, -1).reshape(-1, x.shape[ax])
        one = dict(case, shape=[x.shape[ax]], axis=0)
        got = np.moveaxis(g, ax, -1).reshape(-1, x.shape[ax])
        for i in sorted({0, len(flat) - 1, case["seed"] % len(flat)}):
            u = float(np.moveaxis(np.broadcast_to(z, x.shape), ax, -1).reshape(flat.shape)[i, 0])
            U.close(got[i] / u, U.plain(apply(one, cx, box(one, flat[i]))) / u, what, **t)
    elif law == "linear":
        y = signal(dict(case, data="noise"), 3)
        c = dict(case, data="noise", box="xr" if case["box"] == "xr" else "np")
        ry = U.plain(apply(c, cx, box(c, y)))
        both = U.plain(apply(c, cx, box(c, 2.5 * x - y)))
        U.close(both, 2.5 * g - ry, what, rtol=t["rtol"] * 3, scale=t["scale"])
    elif law == "idempotent":
        c = dict(case, data="noise")
        U.close(U.plain(apply(c, cx, box(c, g) if case["box"] != "xr" else r)), g, what, **t)
    elif law == "complement":
        other = {"low": "high", "high": "low", "band": "block", "block": "band"}[case["kind"]]
        if case["kind"] in ("low", "high"):
            # the same cutoff, rounded down by one and up by the other, is one mode only when on it
            k = case["lo"][0] if case["kind"] == "low" else case["hi"][0]
            n = x.shape[ax]
            c = dict(case, freq=float(n) if case["freq"] > 5 else n / 4, lo=[k, 0.0], hi=[k, 0.0])
            res = c["freq"] / n
            kw = {} if ax == 0 else {"time_axis": ax}
            a = U.plain(cx.call(gc.fourier_low_pass, box(c, x), c["freq"], k * res, **kw))
            b = U.plain(cx.call(gc.fourier_high_pass, box(c, x), c["freq"], k * res, **kw))
            U.close(a + b, x, what, **t)
        else:
            U.close(g + U.plain(apply(case, cx, box(case, x), other)), x, what, **t)
    elif law == "metadata":
        src = box(case, x)
        U.need(isinstance(r, xr.DataArray) and r.dims == src.dims, f"dims {getattr(r, 'dims', type(r).__name__)}, expected {src.dims}")
        U.need(r.attrs == src.attrs, f"attrs {r.attrs}")
        U.need(r.name == src.name, f"name {r.name}")
        U.need(set(r.coords) == set(src.coords), f"coordinates {sorted(map(str, r.coords))}")
        for c in src.coords:
            U.same(r[c], src[c], f"coordinate {c}")
    elif law == "axes":
        o = U.perm(case["seed"], x.ndim)
        c = dict(case, shape=[x.shape[i] for i in o], axis=int(list(o).index(ax % x.ndim)))
        z = np.broadcast_to(z, x.shape)
        U.close(U.plain(apply(c, cx, box(c, np.transpose(x, o)))) / np.transpose(z, o), np.transpose(g / z, o), what, **t)
    elif law == "time-shift":
        k = case["seed"] % x.shape[ax]
        U.close(U.plain(apply(case, cx, box(case, np.roll(x, k, ax)))) / z, np.roll(g, k, ax) / z, what, **t)
    else:
        # a constant is a mode like any other
        y = x + 3.0
        c = dict(case, data="noise")
        U.close(U.plain(apply(c, cx, box(c, y))), g + (3.0 if keep_mask(case)[0] else 0.0), what, **t)


ASSUMPTIONS["F01"] = ["a low cutoff is rounded down and a high cutoff up to a mode; a cutoff is put exactly on a mode only where cutoff/spacing is exact in floating point"]
