"""X10: results depend on the numbers, not on the type they are stored in."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import util as U
from ..core import Skip, Violation, facet
from ..recipes import RANGES, RECIPES

# recipe -> arguments that may hold whole numbers
WHOLE = {n: [i for i, (a, b) in enumerate(r) if b - a > 10] for n, r in RANGES.items()}
WHOLE.update({
    "max_daylight": [0, 1], "delta_pressure": [0, 1, "pressure_top"], "pressure_at_hybrid_levels": [0, "p0"], "delta_pressure_hybrid": [0, "p0"],
    "interp_hybrid_to_pressure": [0, 1, "new_levels"], "interp_hybrid_to_pressure extrapolate": [0, 1, "new_levels", "t_bot", "phi_sfc"],
    "interp_sigma_to_hybrid": [0, 2], "interp_multidim": [0, 1, 2, 3, 4], "calendar_average": [0], "climatology_average": [0], "climate_anomaly": [0],
    "month_to_season": [0], "fourier_low_pass": [0, 1], "fourier_high_pass": [0, 1], "fourier_band_pass": [0, 1], "fourier_band_block": [0, 1],
    "gradient": [0, 1, 2, "lon", "lat"], "decomposition": [0], "nmse": [0, 1], "pearson_r": [0, 1, "weights"], "eofunc_eofs": [0, "weights"], "eofunc_pcs": [0],
    "eofunc": [0], "eofunc_ts": [0],
})
# arguments in which the result is linear: their numbers may come close to the largest 32-bit integer
BIG = {n: [0] for n in ("calendar_average", "climatology_average", "climate_anomaly", "month_to_season", "fourier_low_pass", "interp_multidim",
                        "interp_hybrid_to_pressure", "interp_sigma_to_hybrid", "gradient", "decomposition", "eofunc_eofs", "eofunc_pcs")}
BIG["nmse"] = [0, 1]
NAMES = sorted(WHOLE)


class NotWhole(Exception):
    pass


def number_coords(x):
    return [k for k, v in x.coords.items() if v.dtype.kind == "f"] if isinstance(x, (xr.DataArray, xr.Dataset)) else []


def convert_coords(x, dt):
    """Coordinates rounded: as double precision, and as ``dt``."""
    names = number_coords(x)
    if not names:
        return x, x
    f, i = {}, {}
    for k in names:
        v = x[k]
        u, w = convert(v.values, dt)
        if v.ndim == 1 and np.unique(u).size < v.size:
            raise NotWhole
        f[k], i[k] = (v.dims, u, v.attrs), (v.dims, w, v.attrs)
    return x.assign_coords(f), x.assign_coords(i)


def convert(x, dt, grow=1.0):
    """(whole numbers as float64, the same numbers as ``dt``)"""
    if isinstance(x, xr.Dataset):
        out = {k: convert(v, dt, grow) for k, v in x.data_vars.items()}
        return x.assign({k: v[0] for k, v in out.items()}), x.assign({k: v[1] for k, v in out.items()})
    if isinstance(x, xr.DataArray):
        a, b = convert(x.values, dt, grow)
        return x.copy(data=a), x.copy(data=b)
    if isinstance(x, list):
        a, _b = convert(np.array(x, float), dt, grow)
        return a.tolist(), a.astype("i8").tolist()
    if isinstance(x, (int, float)):
        if float(x) != int(x):
            raise NotWhole
        return float(x), int(x) if dt == "i8" else np.dtype(dt).type(int(x))
    if not isinstance(x, np.ndarray) or x.dtype.kind != "f" or not np.isfinite(x).all():
        raise NotWhole
    a = np.round(x * grow)
    t = np.dtype(dt)
    if t.kind in "iu":
        i = np.iinfo(t)
        if a.min() < i.min or a.max() > i.max:
            raise NotWhole
    b = a.astype(t)
    if not np.array_equal(b.astype("f8"), a):
        raise NotWhole
    return a, b


@st.composite
def number_case(draw, tier="quick"):
    fn = draw(st.sampled_from(NAMES))
    return dict(fn=fn, kind=draw(st.integers(0, 4)), seed=draw(st.integers(0, 50000)), dt=draw(st.sampled_from(["i8", "i4"])), big=draw(st.booleans()), coords=draw(st.integers(0, 2)) == 0, which=draw(st.integers(1, 31)))


@facet("X10", "whole numbers", lambda tier: number_case(tier), 2400, 40000,
       rule="a case counts when at least one argument was given as integers and again as the same numbers in double precision")
def whole_numbers(case, cx):
    rec = RECIPES[case["fn"]]
    kind = rec.kinds[case["kind"] % len(rec.kinds)]
    fn, args, kw = rec.build(case["seed"], kind)
    a, q, b, p = list(args), dict(kw), list(args), dict(kw)
    done = []
    for i, key in enumerate(WHOLE[case["fn"]]):
        if not case["which"] >> i & 1:
            continue
        src = q if isinstance(key, str) else a
        dst = p if isinstance(key, str) else b
        if isinstance(key, str) and key not in q or isinstance(key, int) and key >= len(a):
            continue
        grow = 3.0 if key == "weights" else 1.0
        if case["big"] and key in BIG.get(case["fn"], ()):
            grow = U.magnify(src[key], 2e9)
        try:
            src[key], dst[key] = convert(src[key], case["dt"], grow)
            done.append(str(key))
        except NotWhole:
            continue
    if case["coords"]:
        try:
            pairs = [convert_coords(x, case["dt"]) for x in a + list(q.values())]
            other = [convert_coords(x, case["dt"]) for x in b + list(p.values())]
            if any(number_coords(x) for x in a):
                a, q = [x[0] for x in pairs[: len(a)]], dict(zip(q, [x[0] for x in pairs[len(a):]]))
                b, p = [x[1] for x in other[: len(b)]], dict(zip(p, [x[1] for x in other[len(b):]]))
                done.append("coords")
        except NotWhole:
            pass
    if not done:
        raise Skip("no argument can hold whole numbers")
    cx.label("fn:" + case["fn"], case["dt"], *("arg:" + d for d in done))
    cx.interesting()
    if case["fn"].startswith("eofunc") and gap(a[0], int(q.get("time_dim", 0))) < 1e-3:
        raise Skip("modes are not separated")
    try:
        want = cx.call(fn, *a, **q)
    except Violation:
        if "coords" not in done:
            raise
        raise Skip("rounded coordinates are no longer valid") from None
    if want is None:
        raise Skip("rounded coordinates are no longer valid")
    got = cx.call(fn, *b, **p)
    if case["fn"].startswith("eofunc"):
        got, want = signed(got), signed(want)
    same(got, want, f"{case['fn']} {kind} with {case['dt']} in {','.join(done)}", floor(a[0]) if case["fn"] in BIG else 0)


def gap(x, axis):
    """The smallest relative distance between the singular values of the anomalies (and from zero)."""
    v = np.moveaxis(np.asarray(getattr(x, "values", x), float), axis, 0)
    v = v.reshape(v.shape[0], -1)
    s = np.linalg.svd(v - v.mean(0), compute_uv=False)
    s = s[: min(v.shape[0] - 1, v.shape[1])]
    return -np.diff(np.append(s, 0.0)).max() / s[0] if s[0] > 0 else 0.0


def signed(x):
    """Every mode with its largest entry positive."""
    v = np.array(getattr(x, "values", x), float)
    for m in v:
        m *= np.sign(m.reshape(-1)[np.argmax(np.abs(np.round(m.reshape(-1) / (np.abs(m).max() or 1), 6)))]) or 1
    return x.copy(data=v) if isinstance(x, xr.DataArray) else v


def floor(x):
    """Results of sums that cancel are only as exact as the numbers summed."""
    return 1 / U.magnify(x, 1.0)


def same(got, want, what, least=0, rtol=1e-9):
    U.need(type(got) is type(want), f"{what}: {type(got).__name__}, {type(want).__name__} from float64")
    if isinstance(want, xr.Dataset):
        for k in want.data_vars:
            same(got[k], want[k], f"{what}[{k}]", least, rtol)
        return
    if isinstance(want, (list, tuple)):
        for i, (g, w) in enumerate(zip(got, want)):
            same(g, w, f"{what}[{i}]", least, rtol)
        return
    if isinstance(want, xr.DataArray):
        U.need(got.dims == want.dims and set(got.coords) == set(want.coords), f"{what}: dims {got.dims}, coords {sorted(map(str, got.coords))}")
    w = U.plain(want)
    if w.dtype.kind == "c":
        w = np.stack([w.real, w.imag])
        g = U.plain(got)
        got = np.stack([g.real, g.imag])
    fin = np.abs(w[np.isfinite(w)]) if w.dtype.kind == "f" else np.abs(w.ravel())
    U.close(got, w, what, rtol, scale=max(least, fin.max() if fin.size else 1))


# ---------------------------------------------------------------- single precision
SINGLE = sorted(n for n in RECIPES if n != "zonal_meridional_psi")


def recast(x, f):
    if isinstance(x, xr.Dataset):
        return x.map(lambda v: recast(v, f), keep_attrs=True)
    if isinstance(x, xr.DataArray):
        return x.copy(data=f(x.values)) if x.dtype.kind == "f" else x
    return f(x) if isinstance(x, np.ndarray) and x.dtype.kind == "f" else x


@st.composite
def single_case(draw, tier="quick"):
    return dict(fn=draw(st.sampled_from(SINGLE)), kind=draw(st.integers(0, 4)), seed=draw(st.integers(0, 50000)), which=draw(st.sampled_from([255] * 3 + list(range(1, 32)))),
                coords=draw(st.integers(0, 2)) == 0)


@facet("X10", "single precision", lambda tier: single_case(tier), 2400, 40000,
       rule="a case counts when at least one argument was given in single precision and again as the same numbers in double precision")
def single_precision(case, cx):
    rec = RECIPES[case["fn"]]
    kind = rec.kinds[case["kind"] % len(rec.kinds)]
    fn, args, kw = rec.build(case["seed"], kind)
    keys = list(range(len(args))) + sorted(kw)
    low = [k for i, k in enumerate(keys) if case["which"] >> min(i, 7) & 1 and floats(args[k] if isinstance(k, int) else kw[k])]
    if not low:
        raise Skip("no floating-point argument chosen")
    cx.label("fn:" + case["fn"], "all" if case["which"] == 255 else "some", *(f"arg:{k}" for k in low))
    cx.interesting()

    def call(cast):
        a = [cast(i, x) for i, x in enumerate(args)]
        if "coords" in low:
            a = [single_coords(x, cast) for x in a]
            return cx.call(fn, *a, **{k: single_coords(cast(k, v), cast) for k, v in kw.items()})
        return cx.call(fn, *a, **{k: cast(k, v) for k, v in kw.items()})

    if case["coords"]:
        # coordinates in single precision throughout, in both calls the same numbers
        low.append("coords")
        cx.label("arg:coords")
        keys.append("coords")
    f4, f8 = (lambda v: v.astype("f4")), (lambda v: v.astype("f4").astype("f8"))
    if case["fn"].startswith("eofunc") and gap(args[0], int(kw.get("time_dim", 0))) < 1e-3:
        raise Skip("modes are not separated")
    want = call(lambda k, x: recast(x, f8) if k in low else x)
    got = call(lambda k, x: recast(x, f4) if k in low else x)
    if case["fn"].startswith("eofunc"):
        got, want = signed(got), signed(want)
    tol = 1e-3 if case["fn"].startswith("eofunc") else 2e-5
    try:
        same(got, want, f"{case['fn']} {kind} with single precision in {low}", rtol=tol)
    except Violation:
        for p in range(1, 16):  # rounding may tip a threshold: then double precision is as sensitive
            tip = call(lambda k, x: recast(x, lambda v: f8(v) * (1 + 3e-7 * (1 if p >> (keys.index(k) % 4) & 1 else -1))) if k in low else x)
            try:
                same(tip, want, "", rtol=tol)
            except Violation:
                raise Skip("at a threshold") from None
        raise


def single_coords(x, cast):
    return x.assign_coords({n: (x[n].dims, cast("coords", x[n].values), x[n].attrs) for n in number_coords(x)}) if number_coords(x) else x


def floats(x):
    if isinstance(x, xr.Dataset):
        return any(v.dtype.kind == "f" for v in x.data_vars.values())
    return isinstance(x, (xr.DataArray, np.ndarray)) and x.dtype.kind == "f"
