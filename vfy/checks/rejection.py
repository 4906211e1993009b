"""X02: invalid inputs are rejected with the documented error, valid ones are not."""
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, Skip, WARMUPS, facet, probe
from ..recipes import RECIPES, small_uxds

ENTRIES = {}


def bad(label, exc, n=1):
    """``f(s)`` returns (function, (valid args, kwargs), (invalid args, kwargs)); ``exc``: what the invalid call raises."""

    def deco(f):
        ENTRIES[label] = (exc, f)
        return f

    return deco


def pick(s, xs, stream=0):
    return xs[int(U.uniform(s, 1, 300 + stream)[0] * len(xs))]


def call(name, s, kind=None):
    rec = RECIPES[name]
    fn, a, k = rec.build(s % 100003, kind if kind is not None else rec.kinds[s % len(rec.kinds)])
    return fn, list(a), dict(k)


def some_text(s):
    n = 1 + int(U.uniform(s, 1, 310)[0] * 6)
    return "".join("abcdefghijklmnopqrstuvwxyzDJFMASON _-"[int(u * 37)] for u in U.uniform(s, n, 311))


# ---------------------------------------------------------------- climatologies
FREQS = {"calendar_average": ["hour", "day", "month", "season", "year"], "climatology_average": ["hour", "day", "month", "season"],
         "climate_anomaly": ["day", "month", "season", "year"]}
SEASONS = ["DJF", "JFM", "FMA", "MAM", "AMJ", "MJJ", "JJA", "JAS", "ASO", "SON", "OND", "NDJ"]


def wrong_name(s, good):
    g = pick(s, good, 1)
    w = pick(s, [g.upper() if g.islower() else g.lower(), g + "s", g[:-1], "", " " + g, "decade", "hour", "week", "year", some_text(s)], 2)
    return w if w not in good else g + "x"


def _time_entries(name):
    @bad(f"{name}: unknown frequency", ValueError)
    def _(s):
        fn, a, k = call(name, s)
        k = {q: v for q, v in k.items() if q != "custom_seasons"}
        return fn, (a, k), ([a[0], wrong_name(s, FREQS[name])], k)

    @bad(f"{name}: not a time coordinate", ValueError)
    def _(s):
        fn, a, k = call(name, s)
        x = a[0]
        t = pick(s, [np.arange(x.sizes["time"]), np.arange(x.sizes["time"]) * 0.5, np.array([f"t{i}" for i in range(x.sizes["time"])])], 3)
        return fn, (a, dict(k, time_dim="time")), ([x.assign_coords(time=("time", t))] + a[1:], dict(k, time_dim="time"))

    @bad(f"{name}: another dimension as time", ValueError)
    def _(s):
        fn, a, k = call(name, s)
        x = a[0].expand_dims({"site": [1.0, 2.0]}, axis=int(s) % 2)
        return fn, ([x] + a[1:], dict(k, time_dim="time")), ([x] + a[1:], dict(k, time_dim="site"))

    @bad(f"{name}: month left out", ValueError)
    def _(s):
        f = pick(s, ["month", "season"] + (["year"] if name != "climatology_average" else []), 4)
        n = 24 + s % 90
        t = xr.date_range(f"{1950 + s % 60}-{1 + s % 12:02d}-01", periods=n, freq="MS", use_cftime=bool(s % 3 == 0))
        if s % 2:
            t = t + pd.Timedelta(days=int(s % 25))
        x = xr.DataArray(U.field(s, (n,), 250, 300), dims=["time"], coords={"time": t})
        drop = 1 + int(U.uniform(s, 1, 312)[0] * (n - 2))
        return getattr(gc, name), ([x, f], {}), ([x.isel(time=[i for i in range(n) if i != drop]), f], {})

    @bad(f"{name}: unevenly spaced time", ValueError)
    def _(s):
        from ..recipes import _series

        f = pick(s, ["day", "month"] + (["year"] if name != "climatology_average" else []), 4)
        x = _series(s % 100003, True, 40 + s % 300)
        n = x.sizes["time"]
        drop = 1 + int(U.uniform(s, 1, 312)[0] * (n - 3))
        y = x.isel(time=[i for i in range(n) if i != drop])
        return getattr(gc, name), ([x, f], {}), ([y, f], {})


for _n in FREQS:
    _time_entries(_n)


@bad("climatology_average: unknown season", ValueError)
def _(s):
    fn, a, k = call("climatology_average", s, "season")
    good = [SEASONS[int(u * 12)] for u in U.uniform(s, 1 + s % 3, 313)]
    w = list(good)
    w.insert(s % (len(w) + 1), wrong_name(s, SEASONS))
    if s % 5 == 0:
        return fn, (a, dict(k, custom_seasons=good[0])), (a, dict(k, custom_seasons=wrong_name(s, SEASONS) or "X"))
    return fn, (a, dict(k, custom_seasons=good)), (a, dict(k, custom_seasons=w))


@bad("month_to_season: unknown season", (KeyError, ValueError))
def _(s):
    fn, a, k = call("month_to_season", s)
    return fn, (a, k), ([a[0], wrong_name(s, SEASONS)], k)


@bad("month_to_season: not whole years", ValueError)
def _(s):
    fn, a, k = call("month_to_season", s)
    n = a[0].sizes["time"]
    m = pick(s, [i for i in range(1, n) if i % 12], 5)
    return fn, (a, k), ([a[0].isel(time=slice(0, m) if s % 2 else slice(n - m, n)), a[1]], k)


@bad("month_to_season: not a time coordinate", ValueError)
def _(s):
    fn, a, k = call("month_to_season", s)
    return fn, (a, dict(k, time_coord_name="time")), ([a[0].assign_coords(time=("time", np.arange(a[0].sizes["time"]))), a[1]], dict(k, time_coord_name="time"))


# ---------------------------------------------------------------- hybrid levels
def _hyb(name):
    @bad(f"{name}: unsupported type", TypeError)
    def _(s):
        fn, a, k = call(name, s, "np")
        i = s % 3
        w = list(a)
        w[i] = pick(s, [a[i].tolist(), 100000.0, None, "x"], 6)
        return fn, (a, k), (w, k)

    @bad(f"{name}: mismatched coefficients", ValueError)
    def _(s):
        fn, a, k = call(name, s, pick(s, ["np", "xr"], 7))
        i = 1 + s % 2
        w = list(a)
        w[i] = w[i][:-1]
        return fn, (a, k), (w, k)

    @bad(f"{name}: two-dimensional coefficients", ValueError)
    def _(s):
        fn, a, k = call(name, s, "np")
        return fn, (a, k), ([a[0], a[1][:, None] * np.ones(2), a[2][:, None] * np.ones(2)], k)


_hyb("pressure_at_hybrid_levels")
_hyb("delta_pressure_hybrid")


@bad("pressure_at_hybrid_levels: mixed types", TypeError)
def _(s):
    fn, a, k = call("pressure_at_hybrid_levels", s, "xr")
    w = list(a)
    for i in pick(s, [[0], [1], [2], [0, 1], [1, 2]], 8):
        w[i] = w[i].values
    return fn, (a, k), (w, k)


@bad("delta_pressure_hybrid: mixed coefficients", TypeError)
def _(s):
    fn, a, k = call("delta_pressure_hybrid", s, "xr")
    w = list(a)
    i = 1 + s % 2
    w[i] = w[i].values
    return fn, (a, k), (w, k)


@bad("delta_pressure_hybrid: reference pressure not a number", TypeError)
def _(s):
    fn, a, k = call("delta_pressure_hybrid", s)
    return fn, (a, k), (a, dict(k, p0=pick(s, ["100000", [100000.0], np.array([1e5, 1e5]), None, xr.DataArray(1e5)], 9)))


@bad("interp_hybrid_to_pressure: not DataArrays", TypeError)
def _(s):
    fn, a, k = call("interp_hybrid_to_pressure", s)
    w = list(a)
    i = s % 4
    w[i] = pick(s, [w[i].values, w[i].values.tolist()], 10)
    return fn, (a, k), (w, k)


@bad("interp_hybrid_to_pressure: extrapolation without variable", ValueError)
def _(s):
    fn, a, k = call("interp_hybrid_to_pressure extrapolate", s)
    w = {q: v for q, v in k.items() if q != "variable"}
    return fn, (a, k), (a, w)


@bad("interp_hybrid_to_pressure: extrapolation without surface data", ValueError)
def _(s):
    fn, a, k = call("interp_hybrid_to_pressure extrapolate", s, pick(s, ["temperature", "geopotential"], 11))
    gone = pick(s, [["t_bot"], ["phi_sfc"], ["t_bot", "phi_sfc"]], 12)
    return fn, (a, k), (a, {q: v for q, v in k.items() if q not in gone})


@bad("interp_hybrid_to_pressure: unknown variable", ValueError)
def _(s):
    fn, a, k = call("interp_hybrid_to_pressure extrapolate", s)
    return fn, (a, k), (a, dict(k, variable=wrong_name(s, ["temperature", "geopotential", "other"]), extrapolate=bool(s % 3)))


@bad("interp_hybrid_to_pressure: unknown method", ValueError)
def _(s):
    fn, a, k = call("interp_hybrid_to_pressure", s)
    return fn, (a, k), (a, dict(k, method=wrong_name(s, ["linear", "log"])))


@bad("interp_hybrid_to_pressure: unknown vertical dimension", ValueError)
def _(s):
    fn, a, k = call("interp_hybrid_to_pressure", s)
    plain = [x.rename({"lev": "q0"}).assign_coords(q0=np.arange(x.sizes["lev"])) if "lev" in x.dims else x for x in a]
    return fn, (plain, dict(k, lev_dim="q0")), (plain, {q: v for q, v in k.items() if q != "lev_dim"})


@bad("interp_sigma_to_hybrid: unknown method", ValueError)
def _(s):
    fn, a, k = call("interp_sigma_to_hybrid", s)
    return fn, (a, k), (a, dict(k, method=wrong_name(s, ["linear", "log"])))


@bad("interp_sigma_to_hybrid: unknown vertical dimension", ValueError)
def _(s):
    fn, a, k = call("interp_sigma_to_hybrid", s)
    w = list(a)
    w[0] = a[0].rename({"sigma": "q0"}).assign_coords(q0=np.arange(a[0].sizes["sigma"]))
    return fn, (a, k), (w, {q: v for q, v in k.items() if q != "lev_dim"})


@bad("interp_multidim: array without coordinates", ValueError)
def _(s):
    fn, a, k = call("interp_multidim", s, "np")
    data, la, lo, lat, lon = a
    return fn, (a, k), ([data, la, lo], pick(s, [k, dict(k, lat_in=lat), dict(k, lon_in=lon)], 13))


# ---------------------------------------------------------------- meteorology
@bad("heat_index: humidity out of range", ValueError)
def _(s):
    fn, a, k = call("heat_index", s)
    v = np.array(a[1], dtype=float)
    x = v.copy()
    i = int(U.uniform(s, 1, 320)[0] * v.size)
    x.flat[i] = pick(s, [-1e-6, -5.0, 100.0001, 250.0, np.inf, -np.inf], 14)
    if s % 4 == 0 and v.size > 1:
        x.flat[(i + 1) % v.size] = np.nan
    v.flat[i] = pick(s, [0.0, 100.0], 15)  # the limits are valid
    put = (lambda q: q.tolist()) if isinstance(a[1], list) else (lambda q: a[1].copy(data=q)) if isinstance(a[1], xr.DataArray) else (lambda q: q)
    return fn, ([a[0], put(v)], k), ([a[0], put(x)], k)


def _same_type(name, na):
    @bad(f"{name}: mixed types", TypeError)
    def _(s):
        fn, a, k = call(name, s, pick(s, ["np", "xr", "list"], 16))
        w = list(a)
        i = s % na
        v = w[i]
        w[i] = v.tolist() if isinstance(v, np.ndarray) else v.values if isinstance(v, xr.DataArray) else np.asarray(v)
        return fn, (a, k), (w, k)

    @bad(f"{name}: mismatched shapes", ValueError)
    def _(s):
        fn, a, k = call(name, s, pick(s, ["np", "xr", "list"], 17))
        w = list(a)
        i = s % na
        v = w[i]
        if isinstance(v, list):
            w[i] = v + [v[0]]
        elif isinstance(v, np.ndarray):
            w[i] = np.concatenate([v, v[:1]])
        else:
            w[i] = xr.concat([v, v.isel({v.dims[0]: [0]})], v.dims[0], **CONCAT)
        return fn, (a, k), (w, k)


CONCAT = dict(coords="minimal", compat="override", join="override")
_same_type("heat_index", 2)
_same_type("relhum_ice", 3)
_same_type("relhum_water", 3)


@bad("dewtemp: DataArray with something else", TypeError)
def _(s):
    fn, a, k = call("dewtemp", s, "xr")
    w = list(a)
    i = s % 2
    w[i] = pick(s, [w[i].values, w[i].values.tolist(), 50.0], 18)
    return fn, (a, k), (w, k)


@bad("max_daylight: more than one dimension", ValueError)
def _(s):
    fn, a, k = call("max_daylight", s)
    w = list(a)
    i = s % 2
    v = np.asarray(w[i], dtype=float)[None, :]
    w[i] = v.tolist() if isinstance(a[i], list) else xr.DataArray(v, dims=["q", a[i].dims[0]]) if isinstance(a[i], xr.DataArray) else v
    return fn, (a, k), (w, k)


def _dp(name):
    @bad(f"{name}: top below the first level", ValueError)
    def _(s):
        fn, a, k = call("delta_pressure", s)
        m = float(np.min(np.asarray(a[0])))
        return getattr(gc, name), (a, dict(k, pressure_top=m)), (a, dict(k, pressure_top=m * pick(s, [1.0000001, 1.5, 30.0], 19)))

    @bad(f"{name}: negative pressure", ValueError)
    def _(s):
        fn, a, k = call("delta_pressure", s, "np")
        p = a[0].copy()
        z = a[0].copy()
        p[np.argmin(p)] *= -1
        z[np.argmin(z)] = 0.0  # a level at zero pressure is valid
        if s % 2:
            return getattr(gc, name), (a, dict(pressure_top=0.0)), (a, dict(pressure_top=-1.0))
        return getattr(gc, name), ([z, a[1]], {}), ([p, a[1]], {})

    @bad(f"{name}: surface above the column", ValueError)
    def _(s):
        fn, a, k = call("delta_pressure", s, pick(s, ["np", "xr"], 20))
        ps = a[1].copy()
        low = float(np.min(np.asarray(a[0])))
        v = np.array(ps, dtype=float)
        x = v.copy()
        i = int(U.uniform(s, 1, 321)[0] * v.size)
        x.flat[i] = low * pick(s, [0.999, 0.5, 0.0, -1.0], 21)
        v.flat[i] = low * 1.001
        put = (lambda q: a[1].copy(data=q)) if isinstance(ps, xr.DataArray) else (lambda q: q)
        return getattr(gc, name), ([a[0], put(v)], k), ([a[0], put(x)], k)


_dp("delta_pressure")
_dp("dpres_plev")


def _psi(s):
    return small_uxds(s, 2 + s % 3, 1 + s % 2), {"lat": [-40.0, 10.0]}


def psi_fn(s):
    return pick(s, [gc.zonal_meridional_psi, gc.zonal_mpsi], 22)


@bad("zonal_meridional_psi: no wind", KeyError)
def _(s):
    ds, k = _psi(s)
    return psi_fn(s), ([ds], k), ([ds.rename({"V": "Q"})], k)


@bad("zonal_meridional_psi: no surface pressure", KeyError)
def _(s):
    ds, k = _psi(s)
    return psi_fn(s), ([ds], k), ([ds.rename({"PS": "Q"})], k)


@bad("zonal_meridional_psi: no vertical coordinate", AttributeError)
def _(s):
    ds, k = _psi(s)
    if s % 2:
        h = small_uxds(s, 2 + s % 3, 1 + s % 2, hybrid=True)
        return psi_fn(s), ([h], k), ([h.drop_vars(pick(s, [["hyam"], ["hybm"], ["hyam", "hybm"]], 23))], k)
    return psi_fn(s), ([ds], k), ([ds.rename({"plev": "layer"})], k)


@bad("zonal_meridional_psi: latitudes outside the grid", ValueError)
def _(s):
    ds, k = _psi(s)
    return psi_fn(s), ([ds], k), ([ds], {"lat": pick(s, [[80.0], [-40.0, 75.0], [-85.0, 0.0]], 24)})


@bad("zonal_meridional_psi: surface pressure not positive", ValueError)
def _(s):
    ds, k = _psi(s)
    w = ds.copy(deep=True)
    v = w["PS"].values
    v.flat[int(U.uniform(s, 1, 322)[0] * v.size)] = pick(s, [0.0, -1.0, -90000.0], 25)
    w["PS"] = w["PS"].copy(data=v)
    return psi_fn(s), ([ds], k), ([w], k)


# ---------------------------------------------------------------- statistics
@bad("nmse: not xarray", TypeError)
def _(s):
    fn, a, k = call("nmse", s, "xr")
    w = list(a)
    i = s % 2
    w[i] = pick(s, [w[i].values, w[i].values.tolist()], 26)
    if s % 3 == 0:
        w = [x.values if isinstance(x, xr.DataArray) else x for x in a]
    return fn, (a, k), (w, k)


@bad("nmse: array against dataset", TypeError)
def _(s):
    fn, a, k = call("nmse", s, "xr")
    w = list(a)
    w[s % 2] = w[s % 2].to_dataset(name="v")
    return fn, (a, k), (w, k)


@bad("nmse: coordinate names differ", KeyError)
def _(s):
    fn, a, k = call("nmse", s)
    w = list(a)
    i = s % 2
    w[i] = pick(s, [w[i].assign_coords(extra=3), w[i].rename({"lat": "latitude"}), w[i].rename({"lon": "x"}), w[i].drop_vars("time")], 27)
    return fn, (a, k), (w, k)


@bad("nmse: no latitude and longitude", ValueError)
def _(s):
    fn, a, k = call("nmse", s)
    names = pick(s, [{"lat": "q1", "lon": "q2"}, {"lat": "q1"}, {"lon": "q2"}], 28)
    return fn, (a, k), ([x.rename(names) for x in a], k)


@bad("nmse: uneven grid", ValueError)
def _(s):
    fn, a, k = call("nmse", s)
    c = pick(s, ["lat", "lon"], 29)
    v = a[0][c].values.astype(float).copy()
    v[int(U.uniform(s, 1, 323)[0] * len(v))] += 0.21 * (v[1] - v[0])
    if len(v) < 3:
        raise Skip("two points are always even")
    return fn, (a, k), ([x.assign_coords({c: v}) for x in a], k)


def _eof(name, arg):
    @bad(f"{name}: number of modes", ValueError)
    def _(s):
        fn, a, k = call(name, s)
        return fn, (a, k), (a, dict(k, **{arg: pick(s, [0, -1, -7], 30)}))

    @bad(f"{name}: time dimension out of bounds", ValueError)
    def _(s):
        fn, a, k = call(name, s, pick(s, ["np", "list"], 31))
        k.pop("weights", None)
        nd = np.ndim(a[0])
        return fn, (a, dict(k, time_dim=pick(s, [0, 1, nd - 1, -1, -nd], 32))), (a, dict(k, time_dim=pick(s, [nd, nd + 3, -nd - 1, 99], 33)))


_eof("eofunc_eofs", "neofs")
_eof("eofunc_pcs", "npcs")


# ---------------------------------------------------------------- gradient
@bad("gradient: array without coordinates", Exception)
def _(s):
    fn, a, k = call("gradient", s, "np")
    return fn, (a, k), (pick(s, [a[:1], a[:2]], 34), {})


@bad("gradient: unsupported type", Exception)
def _(s):
    fn, a, k = call("gradient", s, "np")
    return fn, (a, k), ([pick(s, [a[0].tolist(), "x", 3.0], 35)], {})


@bad("gradient: one- and two-dimensional coordinates", ValueError)
def _(s):
    fn, a, k = call("gradient", s, "np")
    lon2, lat2 = np.meshgrid(a[1], a[2])
    return fn, (a, k), (pick(s, [[a[0], lon2, a[2]], [a[0], a[1], lat2]], 36), k)


LABELS = sorted(ENTRIES)


@facet("X02", "rejections", lambda tier: st.fixed_dictionaries(dict(what=st.sampled_from(LABELS), seed=U.seeds)), 1100, 20000,
       rule="every case counts: one generated valid call (must be accepted) and the same call made invalid in one documented way (must raise the documented error)")
def rejections(case, cx):
    exc, f = ENTRIES[case["what"]]
    fn, good, wrong = f(case["seed"])
    cx.label(case["what"])
    cx.interesting()
    cx.call(fn, *good[0], **good[1])
    cx.expect_raises(exc, fn, *wrong[0], **wrong[1])


@probe("X02", "dead-shape-check")
def dead_shape_check():
    """dewtemp and relhum document equal shapes and mean to check them, but test a generator, which is always true."""
    def outcome(f, *a):
        try:
            f(*a)
            return "accepted"
        except ValueError:
            return "rejected"

    r = {outcome(gc.dewtemp, np.array([300.0]), np.array([50.0, 60.0])), outcome(gc.relhum, np.array([300.0]), np.array([0.01, 0.02]), np.array([100000.0]))}
    return "known" if r == {"accepted"} else None


ASSUMPTIONS["X02"] = [
    "the error classes are those raised by the functions' own argument checks; messages are not compared",
    "month_to_season may announce an unknown season as KeyError (what it raises) or ValueError (what it intends)",
]
