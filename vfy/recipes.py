"""One small, valid call of every public function, built deterministically from (seed, variant).

A recipe's ``build(seed, variant)`` returns (function, args, kwargs).  The cross-cutting
properties (X01, X04, X05) quantify over these calls.
"""
import numpy as np
import xarray as xr

import geocat.comp as gc

from . import util as U

RECIPES = {}


class Recipe:
    def __init__(self, name, build, kinds, lazy, chunk):
        # lazy: True, or the kinds of call whose result stays dask-backed
        self.name, self.build, self.kinds, self.lazy, self.chunk = name, build, kinds, lazy, chunk


def recipe(name, kinds=("np", "xr"), lazy=False, chunk=None):
    """``chunk``: {argument (index or keyword): dims that may be split}; None when dask input is unsupported."""

    def deco(f):
        RECIPES[name] = Recipe(name, f, kinds, lazy, chunk)
        return f

    return deco


def sizes(s, n, lo=1, hi=4):
    return [lo + int(x * (hi - lo + 1)) for x in U.uniform(s, n, 31)]


def xa(v, dims, s=0, name="v", aux=True, attrs=None):
    """DataArray with index, auxiliary and scalar coordinates."""
    co = {}
    for i, (d, n) in enumerate(zip(dims, v.shape)):
        co[d] = (d, 10.0 * i + 1.5 * np.arange(n), {"axis": d})
    if aux and v.ndim:
        co["label"] = (dims[0], np.arange(v.shape[0]) + 100)
        if v.ndim > 1:
            co["area"] = (tuple(dims[:2]), np.arange(v.shape[0] * v.shape[1], dtype=float).reshape(v.shape[:2]))
        co["member"] = 3
    return xr.DataArray(v, dims=dims, coords=co, name=name, attrs={"units": "1", "note": [1, 2], **(attrs or {})})


# ---------------------------------------------------------------- point-wise
RANGES = {
    "dewtemp": [(240, 320), (2, 100)], "heat_index": [(20, 120), (0, 100)], "relhum": [(160, 390), (1e-4, 0.03), (5000, 105000)],
    "relhum_ice": [(200, 272), (1e-5, 0.01), (30000, 105000)], "relhum_water": [(240, 315), (1e-5, 0.03), (50000, 105000)],
    "saturation_vapor_pressure": [(-20, 120)], "actual_saturation_vapor_pressure": [(-20, 120)],
    "saturation_vapor_pressure_slope": [(-20, 120)], "psychrometric_constant": [(20, 110)],
}
POINT_ATTRS = {
    "heat_index": {"units": "F", "long_name": "heat index: NWS"}, "relhum": {"units": "percentage", "long_name": "relative humidity"},
    "saturation_vapor_pressure": {"units": "kPa", "long_name": "saturation vapor pressure"},
    "actual_saturation_vapor_pressure": {"units": "kPa", "long_name": "actual saturation vapor pressure via Tdew"},
    "saturation_vapor_pressure_slope": {"units": "kPa/C", "long_name": "slope saturation vapor pressure curve"},
    "psychrometric_constant": {"units": "kPa/C", "long_name": "psychrometric constant"},
}


def _point(name):
    def build(s, kind):
        nd = 1 + s % 3
        shape = tuple(sizes(s, nd))
        cols = [U.field(s, shape, a, b, i) for i, (a, b) in enumerate(RANGES[name])]
        if kind == "list":
            cols = [c.tolist() for c in cols]
        elif kind == "xr":
            cols = [xa(c, ["time", "y", "x"][:nd], name=f"c{i}", attrs={"k": i}) for i, c in enumerate(cols)]
        kw = {}
        if name == "heat_index" and s % 5 == 0:
            kw["alternate_coeffs"] = True
        if "vapor" in name and s % 5 == 0:
            kw["tfill"] = -99.0
        return getattr(gc, name), cols, kw

    recipe(name, ("np", "xr", "list"), lazy=True, chunk={i: "all" for i in range(len(RANGES[name]))})(build)


for _n in RANGES:
    _point(_n)


@recipe("max_daylight", ("np", "xr", "list"))
def _(s, kind):
    d, l = 1 + np.floor(U.uniform(s, 1 + s % 5, 2) * 365), -60 + 120 * U.uniform(s, 1 + s % 4, 3)
    if kind == "list":
        return gc.max_daylight, [d.tolist(), l.tolist()], {}
    if kind == "xr":
        return gc.max_daylight, [xr.DataArray(d, dims=["doy"], coords={"doy": d}, attrs={"a": 1}), xr.DataArray(l, dims=["lat"], coords={"lat": l}, attrs={"b": 1})], {}
    return gc.max_daylight, [d, l], {}


@recipe("delta_pressure", ("np", "xr", "list", "scalar"))
def _(s, kind):
    p = 1000.0 + 99000 * np.sort(U.uniform(s, 2 + s % 5, 4))
    if s % 2:
        p = p[::-1].copy()
    shape = tuple(sizes(s, 1 + s % 2))
    ps = p.max() * U.field(s, shape, 0.9, 1.1, 5)
    ps = np.maximum(ps, p.min() * 1.01)
    if kind == "xr":
        return gc.delta_pressure, [xr.DataArray(p, dims=["plev"], coords={"plev": p}, attrs={"units": "Pa"}), xa(ps, ["y", "x"][: ps.ndim])], {}
    if kind == "list":
        return gc.delta_pressure, [p.tolist(), ps], {}
    if kind == "scalar":
        return gc.delta_pressure, [p, float(ps.flat[0])], {"pressure_top": 500.0}
    return gc.delta_pressure, [p, ps], {}


# ---------------------------------------------------------------- hybrid levels
def _hybrid(s, n=None):
    n = n or 2 + s % 5
    eta = np.cumsum(0.1 + U.uniform(s, n, 6))
    eta = eta / eta[-1]
    b = eta ** 2
    return eta - b, b


def _ps(s, shape):
    return 100000 - 20000 * U.field(s, shape, 0, 1, 7)


@recipe("pressure_at_hybrid_levels", lazy=True, chunk={0: "all"})
def _(s, kind):
    a, b = _hybrid(s)
    ps = _ps(s, tuple(sizes(s, 1 + s % 3)))
    if kind == "np":
        return gc.pressure_at_hybrid_levels, [ps, a, b], {}
    lev = {"lev": np.arange(len(a)) * 100.0}
    return gc.pressure_at_hybrid_levels, [xa(ps, ["time", "y", "x"][: ps.ndim], aux=False), xr.DataArray(a, dims=["lev"], coords=lev, attrs={"n": "a"}),
                                          xr.DataArray(b, dims=["lev"], coords=lev)], {"p0": 101325.0}


@recipe("delta_pressure_hybrid", lazy=True, chunk={0: "all"})
def _(s, kind):
    f, a, k = RECIPES["pressure_at_hybrid_levels"].build(s, kind)
    return gc.delta_pressure_hybrid, a, k


def _column(s, lev="lev", unit="x"):
    nd = s % 3
    odims = ["time", "lat", "lon"][3 - nd:] if nd else []
    shape = tuple(sizes(s, nd)) if nd else ()
    a, b = _hybrid(s)
    v = 250 + 10 * U.gauss(s, shape + (len(a),), 8)
    da = xr.DataArray(v, dims=odims + [lev], coords={lev: (lev, np.arange(len(a)) * 100.0, {"positive": "down"})}, name="T", attrs={"units": "K"})
    for d, n in zip(odims, shape):
        da = da.assign_coords({d: np.arange(n) * 4.0})
    da = da.transpose(*[da.dims[i] for i in U.perm(s, da.ndim)])
    ps = xr.DataArray(_ps(s, shape), dims=odims, coords={d: da[d] for d in odims}, name="PS", attrs={"units": "Pa"})
    lc = {lev: da[lev]}
    return da, ps, xr.DataArray(a, dims=[lev], coords=lc), xr.DataArray(b, dims=[lev], coords=lc)


def _levels(s):
    n = 1 + s % 4
    out = 20000 + 79000 * np.sort(U.uniform(s, n, 9))[::-1]
    if s % 5 == 1:
        out = out[::-1].copy()
    return out


@recipe("interp_hybrid_to_pressure", ("linear", "log"), lazy=True, chunk={0: "all", 1: "all"})
def _(s, kind):
    da, ps, a, b = _column(s)
    kw = dict(method=kind, lev_dim="lev")
    if s % 3:
        kw["new_levels"] = _levels(s)
    return gc.interp_hybrid_to_pressure, [da, ps, a, b], kw


@recipe("interp_hybrid_to_pressure extrapolate", ("temperature", "geopotential", "other"), lazy=True, chunk={0: "all", 1: "all", "t_bot": "all", "phi_sfc": "all"})
def _(s, kind):
    da, ps, a, b = _column(s)
    kw = dict(lev_dim="lev", extrapolate=True, variable=kind, new_levels=np.array([102000.0, 99000.0, 50000.0]))
    kw["t_bot"] = ps * 0 + 240 + 40 * U.uniform(s, 1, 12)[0]
    kw["phi_sfc"] = ps * 0 + 9.8 * 3000 * U.uniform(s, 1, 13)[0]
    return gc.interp_hybrid_to_pressure, [da, ps, a, b], kw


@recipe("interp_sigma_to_hybrid", ("linear", "log"), lazy=True, chunk={0: "all", 2: "all"})
def _(s, kind):
    da, ps, _a, _b = _column(s, "sigma")
    n = da.sizes["sigma"]
    sig = np.linspace(0.05, 1.0, n)
    a, b = _hybrid(s + 1, 1 + s % 4)
    da = da.assign_coords(sigma=("sigma", sig, {"positive": "down"}))
    return gc.interp_sigma_to_hybrid, [da, xr.DataArray(sig, dims=["sigma"], coords={"sigma": sig}), ps, xr.DataArray(a, dims=["hlev"]), xr.DataArray(b, dims=["hlev"])], dict(method=kind, lev_dim="sigma")


@recipe("interp_multidim", ("np", "xr", "cyclic", "missing", "nearest"), lazy=("xr", "nearest"), chunk={0: "all"})
def _(s, kind):
    ny, nx = 2 + s % 4, 3 + s % 5
    lat, lon = np.linspace(-60, 60, ny), np.arange(nx) * (360.0 / nx)
    lead = (1 + s % 2,) if s % 3 == 0 else ()
    v = U.field(s, lead + (ny, nx), -10, 10)
    la, lo = -55 + 110 * U.uniform(s, 1 + s % 3, 14), lon[0] + (lon[-1] - lon[0]) * U.uniform(s, 1 + s % 4, 15)
    kw = {}
    if kind == "missing":
        (v[-1] if s % 2 and v.ndim > 2 else v)[..., s % ny, s % nx] = -999.0  # of the last field only, or of all
        kw["missing_val"] = -999.0
    if kind == "cyclic":
        kw["cyclic"] = True
        lo = 360 * U.uniform(s, 1 + s % 4, 15)
    if kind == "nearest":
        kw["method"] = "nearest"
    if kind == "np":
        return gc.interp_multidim, [v, la, lo, lat, lon], kw
    dims = (["lev"] if lead else []) + ["lat", "lon"]
    return gc.interp_multidim, [xr.DataArray(v, dims=dims, coords={"lat": lat, "lon": lon}, name="q", attrs={"units": "m"}), la, lo], kw


# ---------------------------------------------------------------- climatology
def _series(s, daily=False, n=None):
    shape = tuple(sizes(s, s % 3)) if s % 3 else ()
    n = n or ((370 + s % 500 if s % 6 == 0 else 40 + s % 150) if daily else 24 + s % 20)
    freq = "D" if daily else "MS"
    start = f"{1990 + s % 20}-{1 + s % 12:02d}-01"
    if s % 4 == 0:
        t = xr.date_range(start, periods=n, freq=freq, calendar="noleap", use_cftime=True)
    else:
        t = xr.date_range(start, periods=n, freq=freq)
    v = U.field(s, shape + (n,), -10, 10)
    if s % 5 == 0:
        v[U.uniform(s, v.size, 16).reshape(v.shape) < 0.05] = np.nan
    da = xa(v, ["y", "x"][: len(shape)] + ["time"], aux=False).assign_coords(time=("time", np.asarray(t), {"long_name": "time"}))
    return da.transpose(*[da.dims[i] for i in U.perm(s, da.ndim)])


def _ds(s, da):
    return xr.Dataset({"v": da, "w": da * 2 + 1}, attrs={"title": "x"}) if s % 4 == 1 else da


def _clim(name, args):
    @recipe(name, tuple(args), lazy=True, chunk={0: "all"})
    def build(s, kind):
        daily = kind in ("day", "month") or (kind == "season" and s % 2 and name != "month_to_season")
        if name == "month_to_season":
            return gc.month_to_season, [_ds(s, _series(s, n=24)), kind], {}
        kw = {}
        if name == "climatology_average" and kind == "season" and s % 3 == 0:
            kw["custom_seasons"] = ["NDJ", "FMA"]
        n = 370 + s % 400 if daily and kind == "season" else None  # every season occurs
        return getattr(gc, name), [_ds(s, _series(s, daily, n)), kind], kw


_clim("calendar_average", ["day", "month", "season", "year"])
_clim("climatology_average", ["day", "month", "season"])
_clim("climate_anomaly", ["day", "month", "season", "year"])
_clim("month_to_season", ["DJF", "MAM", "JJA", "ASO", "NDJ"])


# ---------------------------------------------------------------- Fourier
def _fourier(name):
    @recipe(name, ("np", "xr", "list"))
    def build(s, kind):
        nd = 1 + s % 3
        shape = sizes(s, nd)
        ax = s % nd
        n = shape[ax] = 4 + s % 13
        x = U.field(s, tuple(shape), -5, 5)
        x = xa(x, ["a", "b", "c"][:nd]) if kind == "xr" else x.tolist() if kind == "list" else x
        k = 1 + s % (n // 2)
        cut = (k + 0.5) / n
        args = [cut * 0.5, cut * 1.2] if "band" in name else [cut]
        return getattr(gc, name), [x, 1.0] + args, {"time_axis": ax}


for _n in ("fourier_low_pass", "fourier_high_pass", "fourier_band_pass", "fourier_band_block"):
    _fourier(_n)


# ---------------------------------------------------------------- gradient
@recipe("gradient", ("xr", "np", "2d", "xr2d"))
def _(s, kind):
    ny, nx = 2 + s % 4, 2 + s % 5
    lat, lon = np.linspace(-50, 40, ny), np.linspace(10, 300, nx)
    v = U.field(s, (ny, nx), -5, 5)
    if kind == "np":
        return gc.gradient, [v, lon, lat], {}
    lon2, lat2 = np.meshgrid(lon, lat)
    if kind == "2d":
        return gc.gradient, [v], dict(lon=lon2, lat=lat2)
    if kind == "xr2d":
        return gc.gradient, [xr.DataArray(v, dims=["j", "i"], coords={"lat": (("j", "i"), lat2), "lon": (("j", "i"), lon2)})], {}
    return gc.gradient, [xr.DataArray(v, dims=["lat", "lon"], coords={"lat": lat, "lon": lon}, name="q", attrs={"units": "K"})], {}


# ---------------------------------------------------------------- spherical
def _sphere(s, kind):
    nt, npv = 3 + s % 4, 4 + s % 3
    phi1 = (np.arange(nt) + 0.5) * np.pi / nt
    th1 = np.arange(npv) * 2 * np.pi / npv
    theta, phi = np.meshgrid(th1, phi1)
    scale = np.sin(phi)
    if kind == "xr":
        co = {"lat": np.arange(nt) * 1.0, "lon": np.arange(npv) * 1.0}
        return [xr.DataArray(v, dims=["lat", "lon"], coords=co) for v in (scale, theta, phi)]
    return [scale, theta, phi]


@recipe("decomposition", lazy=True, chunk={i: "all" for i in range(4)})
def _(s, kind):
    scale, theta, phi = _sphere(s, kind)
    v = U.field(s, theta.shape, -3, 3)
    v = theta.copy(data=v) if kind == "xr" else v
    return gc.decomposition, [v, scale, theta, phi], {"max_harm": 1 + s % 3}


@recipe("recomposition", lazy=True, chunk={1: "all", 2: "all"})
def _(s, kind):
    _s, theta, phi = _sphere(s, kind)
    m = 1 + s % 3
    n = (m + 1) * (m + 2) // 2
    c = U.field(s, (n,), -1, 1) + 1j * U.field(s, (n,), -1, 1, 2)
    c = xr.DataArray(c, dims=["h"]) if kind == "xr" else c
    return gc.recomposition, [c, theta, phi], {"max_harm": m}


@recipe("scale_voronoi")
def _(s, kind):
    _s, theta, phi = _sphere(s, kind)
    return gc.scale_voronoi, [theta, phi], {}


# ---------------------------------------------------------------- statistics
@recipe("nmse", ("xr", "ds"), lazy=True, chunk={0: "all", 1: "all"})
def _(s, kind):
    ny, nx, nt = 3 + s % 3, 3 + s % 4, 1 + s % 3
    co = {"time": np.arange(nt), "lat": np.linspace(-60, 60, ny), "lon": np.arange(nx) * 30.0}
    a, b = (xr.DataArray(U.field(s, (nt, ny, nx), 0, 9, k), dims=["time", "lat", "lon"], coords=co, name="v", attrs={"units": "K"}) for k in (0, 1))
    if s % 2:
        a.values[0, 1, 1] = np.nan
    if kind == "ds":
        a, b = xr.Dataset({"v": a, "u": a + 1}), xr.Dataset({"v": b, "u": b - 1})
    return gc.nmse, [a, b], {}


@recipe("pearson_r", ("np", "xr", "list", "ds"), lazy=True, chunk={0: ["x"], 1: ["x"]})
def _(s, kind):
    shape = (4 + s % 3, 2 + s % 2)
    a, b = U.field(s, shape, -3, 3), U.field(s, shape, -3, 3, 1)
    w = U.field(s, shape, 0.5, 2, 2)
    if kind == "np":
        return gc.pearson_r, [a, b], {"axis": 0, "weights": w}
    if kind == "list":
        return gc.pearson_r, [a.tolist(), b.tolist()], {}
    A, B = xa(a, ["time", "x"], aux=False), xa(b, ["time", "x"], aux=False)
    if kind == "ds":
        A, B = xr.Dataset({"v": A}), xr.Dataset({"v": B})
        return gc.pearson_r, [A, B], dict({"weights": xr.DataArray(w[:, 0], dims=["time"], coords={"time": A["v"]["time"]})} if s % 2 else {}, dim="time")
    kw = {} if s % 3 == 0 else {"weights": xr.DataArray(w[:, 0], dims=["time"], coords={"time": A["time"]})}
    return gc.pearson_r, [A, B], dict(kw, dim="time", skipna=bool(s % 2))


def _eof_data(s, kind):
    x = U.field(s, (4 + s % 3, 2, 2 + s % 2), -4, 4)
    if kind == "xr":
        return xa(x, ["time", "y", "x"], name="sst")
    return x.tolist() if kind == "list" else x


@recipe("eofunc_eofs", ("np", "xr", "list"))
def _(s, kind):
    kw = {"meta": True} if kind == "xr" and s % 2 else {}
    if s % 3 == 0:
        kw["eofscaling"] = 1 + s % 2
    if s % 4 == 0:
        kw["weights"] = 1 + np.arange(2.0)[:, None]
    return gc.eofunc_eofs, [_eof_data(s, kind)], dict(kw, neofs=1 + s % 3)


@recipe("eofunc_pcs", ("np", "xr", "list"))
def _(s, kind):
    kw = {"meta": True} if kind == "xr" and s % 2 else {}
    return gc.eofunc_pcs, [_eof_data(s, kind)], dict(kw, npcs=1 + s % 3, pcscaling=s % 3)


@recipe("eofunc", ("np", "xr"))
def _(s, kind):
    return gc.eofunc, [_eof_data(s, kind), 1 + s % 2], {"time_dim": 0}


@recipe("eofunc_ts", ("np", "xr"))
def _(s, kind):
    return gc.eofunc_ts, [_eof_data(s, kind), np.zeros((1 + s % 2, 4))], {"time_dim": 0}


# ---------------------------------------------------------------- unstructured grids
def small_uxds(s, nlev=4, nt=2, desc=False, hybrid=False, names=("V", "PS")):
    """A tiny unstructured dataset that zonal_meridional_psi accepts."""
    import uxarray as ux

    from .checks.psi import make_grid

    nl, latb = 8, np.array([-60.0, -20.0, 20.0, 60.0])
    nf = nl * 3
    g = make_grid(np.arange(nl) * 360.0 / nl, latb)
    p = 10000.0 + 85000.0 * np.sort(U.uniform(s, nlev, 41))
    if desc:
        p = p[::-1].copy()
    lev = "lev" if hybrid else "plev"
    v = U.field(s, (nt, nlev, nf), -9, 9, 42)
    ps = 95000.0 + 6000 * U.field(s, (nt, nf), 0, 1, 43)
    co = {"time": np.arange(nt)}
    co[lev] = (lev, np.arange(nlev) * 1.0 if hybrid else p, {"axis": "Z", "positive": "down"})
    ds = xr.Dataset({names[0]: (("time", lev, "n_face"), v), names[1]: (("time", "n_face"), ps)}, coords=co)
    if hybrid:
        b = np.linspace(0, 1, nlev) ** 2
        ds["hyam"] = ("lev", np.linspace(0.05, 1, nlev) - b)
        ds["hybm"] = ("lev", b)
    return ux.UxDataset(ds, uxgrid=g)


@recipe("zonal_meridional_psi", ("pressure", "hybrid"))
def _(s, kind):
    ds = small_uxds(s, 2 + s % 4, 1 + s % 2, bool(s % 3 == 0), kind == "hybrid")
    return gc.zonal_meridional_psi, [ds], {"lat": [[-40.0, 10.0], [5.0], [-10.0, 30.0, 45.0]][s % 3]}


# ---------------------------------------------------------------- the same call with other numbers
def vary(args, kwargs, k):
    """The same call with other values: equal shapes, names, coordinates and options.

    0 nothing; 1, 2 every real number a little smaller; 3 every real array reversed along its last axis (equal
    sums and extremes); 4 only the last array argument reversed; 5 one inner element of every array changed;
    6 without the optional arguments.  3-6 may leave the domain of the function.
    """
    def num(v):
        if k in (1, 2):
            return v * (1 - 0.004 * k)
        if v.ndim == 0:
            return v
        if k in (3, 4):
            return v[..., ::-1].copy()
        out = v.copy()
        out[tuple(n // 2 for n in v.shape)] *= 0.996
        return out

    def f(x):
        if hasattr(x, "uxgrid"):
            out = x.copy(deep=True)
            for v in out.data_vars:
                out[v].values[...] = num(np.array(out[v].values))
            return out
        if isinstance(x, xr.Dataset):
            return x.map(f, keep_attrs=True)
        if isinstance(x, xr.DataArray):
            return x.copy(data=num(x.values)) if x.dtype.kind == "f" else x
        if isinstance(x, np.ndarray) and x.dtype.kind == "f":
            return num(x)
        if isinstance(x, list) and x and not isinstance(x[0], str):
            if k in (1, 2):
                return [f(v) if isinstance(v, list) else v * (1 - 0.004 * k) if isinstance(v, float) else v for v in x]
            return x[::-1] if k in (3, 4) else x
        return x

    if k == 0:
        return args, kwargs
    if k == 6:
        return args, {}
    if k == 4:
        last = [i for i, a in enumerate(args) if isinstance(a, (np.ndarray, xr.DataArray, list)) and not hasattr(a, "uxgrid")]
        return [f(a) if last and i == last[-1] else a for i, a in enumerate(args)], kwargs
    return [f(a) for a in args], {q: f(v) for q, v in kwargs.items()}


# ---------------------------------------------------------------- snapshots
def snap(x):
    """A comparable, picklable description of anything passed or returned."""
    if isinstance(x, xr.Dataset):
        return ("ds", {str(k): snap(v) for k, v in x.data_vars.items()}, {str(k): snap(v) for k, v in x.coords.items()}, snap(dict(x.attrs)), list(map(str, x.dims)))
    if isinstance(x, xr.DataArray):
        return ("da", snap(x.data), tuple(x.dims), str(x.name), snap(dict(x.attrs)),
                {str(k): (tuple(v.dims), snap(v.data), snap(dict(v.attrs)), snap(dict(v.encoding))) for k, v in sorted(x.coords.items(), key=lambda q: str(q[0]))}, snap(dict(x.encoding)))
    if hasattr(x, "dask") and hasattr(x, "compute"):
        return ("dask", x.chunks, snap(np.asarray(x.compute())))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", x.shape, [repr(v) for v in x.ravel()])
        return ("np", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ("np0", x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, dict):
        return ("dict", {str(k): snap(v) for k, v in x.items()})
    return (type(x).__name__, repr(x))


def shape_of(x):
    return tuple(x.shape) if hasattr(x, "shape") else np.shape(x)
