"""I01-I06: vertical and horizontal interpolation."""
import itertools
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import coldata as K
from .. import util as U
from ..core import ASSUMPTIONS, Skip, facet


# ---------------------------------------------------------------- I01
@st.composite
def press_case(draw, tier="quick"):
    c = draw(K.column_case(tier))
    return dict(c, kind=draw(st.sampled_from(["np", "xr"])), mixed=draw(st.booleans()), rename=draw(st.booleans()),
                p0i=draw(st.sampled_from(["float", "int", "f8", "i4"])), wild=draw(st.booleans()), dask=draw(st.booleans()))


@facet("I01", "large", lambda tier: K.large(press_case(tier)), 120, 1440, weight=20,
       rule="as below, with 32-91 levels, 60-2500 columns or both")
@facet("I01", "pressure_and_thickness", lambda tier: press_case(tier), 2100, 20000, weight=1,
       rule="surface pressure of 0-3 dims x coefficients (monotonic or arbitrary) x p0 x numpy/xarray x coefficient coordinates and names; non-trivial with 2+ levels and a surface pressure that varies")
def pressures(case, cx):
    K_ = K.Columns(case)
    a, b = K_.a, K_.b
    if case["wild"]:
        a, b = U.field(case["seed"], a.shape, -1, 1, 31), U.field(case["seed"], a.shape, -1, 1, 32)
    p0 = float(case["p0"])
    p0 = {"int": int, "f8": np.float64, "i4": np.int32}.get(case["p0i"], float)(p0)
    ps = K_.ps()
    cx.label(case["kind"], f"ps{ps.ndim}d", "wild" if case["wild"] else "eta", "aligned" if case["hcoords"] else "bare")
    cx.interesting(case["nlev"] > 1 and ps.size > 1)
    pv = ps.values
    want = a.reshape((-1,) + (1,) * pv.ndim) * float(p0) + b.reshape((-1,) + (1,) * pv.ndim) * pv
    sc = abs(want).max() + float(p0)
    if case["kind"] == "np":
        r = cx.call(gc.pressure_at_hybrid_levels, pv, a, b, p0)
        U.need(isinstance(r, np.ndarray), f"numpy input gave {type(r).__name__}")
        U.close(r, want, "pressure_at_hybrid_levels", scale=sc, rtol=1e-12)
        r = cx.call(gc.delta_pressure_hybrid, pv, a, b, p0)
        U.need(isinstance(r, np.ndarray), f"numpy input gave {type(r).__name__}")
        U.close(r, abs(np.diff(want, axis=0)), "delta_pressure_hybrid", scale=sc, rtol=1e-12)
        if not case["wild"]:
            U.close(np.asarray(r).sum(axis=0), abs(want[-1] - want[0]), "sum of layer thicknesses", scale=sc, rtol=1e-12)
        return
    ha, hb = K_.coef(a, "hyam"), K_.coef(b, "hybm")
    pk = ps.chunk({d: 1 for d in ps.dims}) if case["dask"] else ps
    hb_n = hb
    if case["rename"] and not case["hcoords"]:
        hb_n = hb.rename({K_.lev: "other"})
    r = cx.call(gc.pressure_at_hybrid_levels, pk, ha, hb_n, p0)
    U.need(isinstance(r, xr.DataArray), f"xarray input gave {type(r).__name__}")
    U.need(set(r.dims) == set(ps.dims) | {K_.lev}, f"dims {r.dims}")
    U.close(r.transpose(K_.lev, *ps.dims), want, "pressure_at_hybrid_levels", scale=sc, rtol=1e-12)
    for d in ps.dims:
        if d in ps.coords:
            U.same(r[d], ps[d], f"coordinate {d}")
    if case["mixed"]:
        ha, hb_n = a, b
    r = cx.call(gc.delta_pressure_hybrid, pk, ha, hb_n, p0)
    U.need(isinstance(r, xr.DataArray), f"xarray input gave {type(r).__name__}")
    ld = [d for d in r.dims if d not in ps.dims]
    U.need(len(ld) == 1 and set(r.dims) == set(ps.dims) | set(ld), f"dims {r.dims}")
    U.close(r.transpose(ld[0], *ps.dims), abs(np.diff(want, axis=0)), "delta_pressure_hybrid", scale=sc, rtol=1e-12)
    for d in ps.dims:
        if d in ps.coords:
            U.same(r[d], ps[d], f"coordinate {d}")
    U.need(r.attrs.get("units") == "Pa" and r.attrs.get("long_name") == "pressure layer thickness", f"attrs {r.attrs}")


# ---------------------------------------------------------------- targets
@st.composite
def targets(draw, tier="quick", below=1.25):
    if draw(st.integers(0, 5)) == 0:
        return "default"
    n = draw(st.integers(1, 8))
    return dict(
        frac=draw(st.lists(st.floats(0, 1, allow_nan=False), min_size=n, max_size=n)), below=below,
        hit=draw(st.lists(st.integers(0, 40), max_size=2)), order=draw(st.sampled_from(["asc", "desc", "any"])),
        dtype=draw(st.sampled_from(["f8", "f8", "f4", "i8"])), seed=draw(U.seeds),
    )


def make_targets(spec, cols):
    if spec == "default":
        return np.array(K.MANDATORY, dtype=np.float64) * 100.0
    p = cols.p.reshape(-1)
    lo, hi = math.log(p.min() * 0.7), math.log(max(p.max(), cols.psv.max()) * spec["below"])
    x = [math.exp(lo + f * (hi - lo)) for f in spec["frac"]]
    dt = spec["dtype"]
    if dt == "i8" and cols.c["p0"] < 10000:
        dt = "f8"
    x = np.array(x).astype(dt)
    if dt == "f8":
        x = np.concatenate([x, [p[i % len(p)] for i in spec["hit"]]])
    x = np.unique(x) if spec["order"] != "any" else x
    if spec["order"] == "any":
        x = x[U.perm(spec["seed"], len(x))]
    return x[::-1].copy() if spec["order"] == "desc" else x


@st.composite
def p_case(draw, tier="quick"):
    c = draw(K.column_case(tier))
    return dict(c, new=draw(targets(tier)), method=draw(st.sampled_from(["linear", "log"])),
                nan=draw(st.sampled_from([0, 0, 0.1, 0.4])), how=draw(st.sampled_from(["name", "name", "positive"])))


def lev_kwargs(case):
    if case["how"] == "name":
        return {"lev_dim": case["lev_name"]}, {}
    return {}, {"positive": "down"}


def check_out(case, cols, r, new, rtol=None):
    """dims, coordinates and metadata of an interp_hybrid_to_pressure result; returns values, plev last."""
    want_dims = tuple("plev" if d == cols.lev else d for d in cols.dims)
    U.need(isinstance(r, xr.DataArray), f"result is a {type(r).__name__}")
    U.need(r.dims == want_dims, f"dims {r.dims}, expected {want_dims}")
    U.close(r["plev"].values, new, "plev coordinate", rtol=1e-12)
    U.need(r.name == "T" and r.attrs.get("units") == "K" and r.attrs.get("long_name") == "temp", f"name {r.name}, attrs {r.attrs}")
    for d in cols.odims:
        if case["coords"]:
            U.need(d in r.coords, f"coordinate {d} lost")
            U.same(r[d], cols.coords_for(d), f"coordinate {d}")
    if case["aux"]:
        U.need("date" in r.coords and int(r["date"]) == 20200101, "scalar coordinate lost")
        if cols.odims:
            U.need("cell" in r.coords, "auxiliary coordinate lost")
            U.same(r["cell"], np.arange(cols.oshape[0]) * 7, "auxiliary coordinate")
    return np.moveaxis(U.plain(r), cols.axis, -1)


def single(case):
    """Are the targets single precision (as the default levels are)?"""
    return case["new"] == "default" or case["new"]["dtype"] == "f4"


def tolerance(case, cols):
    """Absolute allowance: the logarithm of single precision targets is single precision."""
    if case["method"] == "linear" or not single(case):
        return 0.0
    o = np.argsort(cols.p, axis=-1)
    lp, v = np.log(np.take_along_axis(cols.p, o, -1)), np.take_along_axis(cols.v.astype(float), o, -1)
    slope = abs(np.diff(v, axis=-1)) / np.diff(lp, axis=-1)
    return 2e-6 * (np.nanmax(slope) if np.isfinite(slope).any() else 0.0)


def ref_columns(cols, new, method, end=1e-9):
    shape = cols.oshape + (len(new),)
    want, nok, dont = np.empty(shape), np.zeros(shape, bool), np.zeros(shape, bool)
    for i in np.ndindex(*cols.oshape):
        want[i], nok[i], dont[i] = K.interp_column(cols.p[i], cols.v[i], np.asarray(new, float), method, end)
    return want, nok, dont


@facet("I02", "large", lambda tier: K.large(p_case(tier)), 240, 2880, weight=20,
       rule="as below, with 32-91 levels, 60-2500 columns or both")
@facet("I02", "columns", lambda tier: p_case(tier), 1360, 12000, weight=4,
       rule="data of 1-4 dims in any order x coefficients x targets (any order, duplicates, exact hits, default levels) x method x missing samples; non-trivial when some target lies inside a column")
def hybrid_to_pressure(case, cx):
    cols = K.Columns(case)
    new = make_targets(case["new"], cols)
    kw, attrs = lev_kwargs(case)
    args = [cols.data(attrs), cols.ps(), cols.hyam(), cols.hybm(), float(case["p0"])]
    if case["new"] != "default":
        kw["new_levels"] = new.copy()
    end = 2e-6 if single(case) else 1e-9
    want, nok, dont = ref_columns(cols, new, case["method"], end)
    cx.label(case["method"], f"{len(cols.odims) + 1}d", case["dtype"], "default" if case["new"] == "default" else case["new"]["order"],
             "nan" if case["nan"] else "full", case["how"], case["pure"])
    cx.interesting(bool(np.isfinite(want).any()))
    r = cx.call(gc.interp_hybrid_to_pressure, *args, method=case["method"], **kw)
    got = check_out(case, cols, r, new)
    K.compare(got, want, nok, dont, f"interp_hybrid_to_pressure({case['method']})", rtol=1e-9 if case["dtype"] != "f4" else 1e-6, scale=cols.scale, atol=tolerance(case, cols))


# ---------------------------------------------------------------- I03 extrapolation
@st.composite
def extrap_case(draw, tier="quick"):
    c = draw(K.column_case(tier))
    c["relief"] = draw(st.sampled_from([0.05, 0.3, 0.45]))
    return dict(c, new=draw(targets(tier, below=draw(st.sampled_from([1.1, 1.4])))), method=draw(st.sampled_from(["linear", "log"])),
                variable=draw(st.sampled_from(["temperature", "temperature", "geopotential", "geopotential", "other"])),
                tlo=draw(st.sampled_from([200.0, 240.0, 270.0, 285.0])), trange=draw(st.sampled_from([5.0, 40.0])),
                h0=draw(st.sampled_from([0.0, 0.0, -400.0, 300.0, 1900.0, 2400.0])), hr=draw(st.sampled_from([0.0, 300.0, 1000.0, 3000.0])),
                perms=draw(st.tuples(st.integers(0, 5), st.integers(0, 5))), nan=0, how="name",
                give=draw(st.booleans()))


def out_scale(case, cols):
    """Size of the numbers in the result."""
    return cols.scale if case["variable"] == "other" else max(300, cols.scale)


def extrap_inputs(case, cols):
    tb = case["tlo"] + case["trange"] * U.uniform(case["seed"], max(1, cols.psv.size), 41).reshape(cols.oshape)
    phi = K.G * (case["h0"] + case["hr"] * U.uniform(case["seed"], max(1, cols.psv.size), 42).reshape(cols.oshape))
    return tb, phi


def ref_extrap(case, cols, new):
    end = 2e-6 if single(case) else 1e-9
    want, nok, dont = ref_columns(cols, new, case["method"], end)
    tb, phi = extrap_inputs(case, cols)
    bottom = int(np.argmax(cols.levcoord))
    below = 0
    for i in np.ndindex(*cols.oshape):
        pb = cols.p[i][bottom]
        for j, t in enumerate(np.asarray(new, float)):
            if abs(t - pb) <= end * pb:
                dont[i][j] = True  # either side of the branch, which need not be continuous
            elif t > pb:
                below += 1
                a = (float(tb[i]), t, float(pb), float(cols.psv[i]), float(phi[i]))
                want[i][j] = (K.extrap_temperature(*a) if case["variable"] == "temperature" else
                              K.extrap_height(*a) if case["variable"] == "geopotential" else cols.v[i][bottom])
                nok[i][j] = False
    return want, nok, dont, below


@facet("I03", "large", lambda tier: K.large(extrap_case(tier)), 160, 1920, weight=20,
       rule="as below, with 32-91 levels, 60-2500 columns or both")
@facet("I03", "extrapolation", lambda tier: extrap_case(tier), 1700, 12000, weight=4,
       rule="columns with relief x variable x lowest-level temperature and surface height spanning every regime x targets; non-trivial when a target lies below the lowest level")
def extrapolation(case, cx):
    cols = K.Columns(case)
    new = make_targets(case["new"], cols)
    want, nok, dont, below = ref_extrap(case, cols, new)
    tb, phi = extrap_inputs(case, cols)
    h = phi / K.G
    cx.label(case["method"], case["variable"], "low" if h.max() < 2000 else "high" if h.min() > 2500 else "mid/mixed",
             f"{len(cols.odims) + 1}d", "default" if case["new"] == "default" else case["new"]["order"])
    cx.interesting(below > 0)
    kw = dict(lev_dim=cols.lev, method=case["method"], extrapolate=True, variable=case["variable"])
    if case["new"] != "default":
        kw["new_levels"] = new.copy()
    if case["variable"] != "other" or case["give"]:
        kw["t_bot"], kw["phi_sfc"] = cols.flat(tb, "TBOT", case["perms"][0]), cols.flat(phi, "PHIS", case["perms"][1])
    r = cx.call(gc.interp_hybrid_to_pressure, cols.data(), cols.ps(), cols.hyam(), cols.hybm(), float(case["p0"]), **kw)
    got = check_out(case, cols, r, new)
    K.compare(got, want, nok, dont, f"extrapolation of {case['variable']}", rtol=1e-9 if case["dtype"] != "f4" else 1e-6, scale=out_scale(case, cols), atol=tolerance(case, cols))


# ---------------------------------------------------------------- I05 sigma to hybrid
@st.composite
def sigma_case(draw, tier="quick"):
    c = draw(K.column_case(tier))
    return dict(c, nhyb=draw(st.integers(1, 9)), method=draw(st.sampled_from(["linear", "log"])), nan=draw(st.sampled_from([0, 0, 0.15])),
                how=draw(st.sampled_from(["name", "positive"])), wide=draw(st.booleans()),
                order=draw(st.sampled_from(["given", "given", "reversed", "shuffled"])))


def sigma_setup(case):
    """sigma levels of the data, hybrid coefficients of the output, sigma of the output per column."""
    cols = K.Columns(dict(case, pure="sigma"))
    sig = cols.b
    k = K.Columns(dict(case, nlev=case["nhyb"] + 1, seed=case["seed"] + 1, lev_name="k", dtype="f8", nan=0))
    hya, hyb = k.a[: case["nhyb"]], k.b[: case["nhyb"]]
    if case["wide"]:
        hyb = hyb + 0.02
    if case["order"] != "given":
        o = np.arange(len(hya))[::-1] if case["order"] == "reversed" else U.perm(case["seed"], len(hya))
        hya, hyb = hya[o], hyb[o]
    s = hya * case["p0"] / cols.psv[..., None] + hyb
    return cols, sig, hya, hyb, s


def sigma_call(case, cx, cols, sig, hya, hyb, chunks=None):
    lev = cols.lev
    attrs = {"positive": "up"} if case["how"] == "positive" else {}
    kw = {"lev_dim": lev} if case["how"] == "name" else {}
    data, ps = cols.data(attrs), cols.ps()
    if not case["aux"] or "layer" not in data.coords:
        pass
    a = xr.DataArray(hya, dims=[lev])
    b = xr.DataArray(hyb, dims=[lev])
    s = xr.DataArray(sig, dims=[lev], coords={lev: cols.levcoord} if case["hcoords"] else {})
    if chunks:
        data, ps, a = chunks(data, ps, a)
    return cx.call(gc.interp_sigma_to_hybrid, data, s, ps, a, b, float(case["p0"]), method=case["method"], **kw)


@facet("I05", "large", lambda tier: K.large(sigma_case(tier)), 120, 1440, weight=20,
       rule="as below, with 32-91 levels, 60-2500 columns or both")
@facet("I05", "sigma_to_hybrid", lambda tier: sigma_case(tier), 1500, 9000, weight=4,
       rule="sigma data of 1-4 dims in any order x hybrid coefficients (more, as many or fewer levels) x method x missing samples; non-trivial when some hybrid level lies inside the sigma range")
def sigma_to_hybrid(case, cx):
    case = dict(case, aux=False)
    cols, sig, hya, hyb, s = sigma_setup(case)
    n = len(hya)
    want, nok, dont = (np.empty(cols.oshape + (n,)), np.zeros(cols.oshape + (n,), bool), np.zeros(cols.oshape + (n,), bool))
    for i in np.ndindex(*cols.oshape):
        want[i], nok[i], dont[i] = K.interp_column(sig, cols.v[i], s[i], case["method"])
    cx.label(case["method"], f"{len(cols.odims) + 1}d", case["dtype"], "more" if n > len(sig) else "fewer" if n < len(sig) else "equal", "order:" + case["order"])
    cx.interesting(bool(np.isfinite(want).any()))
    r = sigma_call(case, cx, cols, sig, hya, hyb)
    check_sigma(case, cols, r, s, want, nok, dont)


def check_sigma(case, cols, r, s, want, nok, dont):
    dims = tuple("hlev" if d == cols.lev else d for d in cols.dims)
    U.need(r.dims == dims, f"dims {r.dims}, expected {dims}")
    first = s[(0,) * len(cols.oshape)]
    U.close(r["hlev"].values, first, "hlev coordinate", rtol=1e-9)
    for d in cols.odims:
        if case["coords"]:
            U.same(r[d], cols.coords_for(d), f"coordinate {d}")
    U.need(r.name == "T" and r.attrs.get("units") == "K", f"name {r.name}, attrs {r.attrs}")
    K.compare(np.moveaxis(U.plain(r), cols.axis, -1), want, nok, dont, f"interp_sigma_to_hybrid({case['method']})",
              rtol=1e-6 if case["dtype"] != "f8" else 1e-9, scale=cols.scale)


# ---------------------------------------------------------------- I06 interp_multidim
@st.composite
def grid_axis(draw, lo, hi, nmin, nmax):
    n = draw(st.integers(nmin, nmax))
    return dict(n=n, reg=draw(st.booleans()), seed=draw(U.seeds), lo=lo, hi=hi)


def make_axis(a):
    n = a["n"]
    if a["reg"]:
        return np.linspace(a["lo"], a["hi"], n)
    s = 0.2 + U.uniform(a["seed"], n + 1)
    x = np.cumsum(s)
    return a["lo"] + (a["hi"] - a["lo"]) * (x[:n] - x[0]) / (x[-1] - x[0])


@st.composite
def md_case(draw, tier="quick", many=True):
    big = 7 if tier == "quick" else 14
    cyclic = draw(st.booleans())
    lat = draw(grid_axis(*draw(st.sampled_from([(-90.0, 90.0), (-60.0, 75.0), (0.0, 10.0)])), 2, big))
    if cyclic:
        off = draw(st.sampled_from([0.0, 0.0, -180.0, 1.25, 10.0]))
        lon = draw(grid_axis(off, off + 359.0, 2, big))
        lon["reg360"] = draw(st.booleans())
    else:
        lon = draw(grid_axis(*draw(st.sampled_from([(0.0, 350.0), (-40.0, 60.0), (100.0, 101.0)])), 2, big))
    nt = draw(st.tuples(st.integers(1, 6), st.integers(1, 6)))
    if many and U.rarely(draw, 30):
        lat["n"], lon["n"] = draw(st.sampled_from([9, 37, 90])), draw(st.sampled_from([9, 72, 181]))
        nt = draw(st.sampled_from([(5, 5), (30, 40)]))
    return dict(
        lat=lat, lon=lon, cyclic=cyclic, latdesc=draw(st.booleans()), londesc=draw(st.integers(0, 3)) == 0,
        extra=draw(st.sampled_from([0, 0, 1, 2])), method=draw(st.sampled_from(["linear", "linear", "nearest"])),
        kind=draw(st.sampled_from(["np", "xr", "xr"])), dtype=draw(st.sampled_from(["f8", "f8", "f4", "i4"])),
        fill=draw(st.sampled_from(["nan", "nan", "extrapolate", "number", "zero"])),
        missing=draw(st.sampled_from(["none", "none", "value", "value", "nan"])),
        miss=draw(st.sampled_from([0, 0.0, 99.0, -999, -1.0, 7, 1e20])), mfrac=draw(st.sampled_from([0.05, 0.3])),
        nt=nt, close=draw(st.booleans()), seed=draw(U.seeds), names=draw(st.sampled_from([("lat", "lon"), ("y", "x")])),
        sort=draw(st.booleans()), planar=draw(st.booleans()), chunk=draw(st.integers(0, 3)),
    )


def missing_val(case):
    m = case["miss"]
    return -9999 if case["dtype"].startswith("i") and m > 1e9 else m


def md_setup(case):
    lat, lon = make_axis(case["lat"]), make_axis(case["lon"])
    if case["cyclic"] and case["lon"].get("reg360"):
        n = case["lon"]["n"]
        lon = case["lon"]["lo"] + 360.0 * np.arange(n) / n
    if case["latdesc"]:
        lat = lat[::-1].copy()
    if case["londesc"]:
        lon = lon[::-1].copy()
    shape = (2, 3)[: case["extra"]] + (len(lat), len(lon))
    if case["planar"] and not case["cyclic"] and case["dtype"] == "f8":
        v = (3 + 0.5 * lat[:, None] - 0.25 * lon[None, :]) + np.arange(int(np.prod(shape[:-2]))).reshape(shape[:-2] + (1, 1))
    else:
        v = U.field(case["seed"], shape, -50, 50, 5)
    if case["dtype"].startswith("i"):
        v = np.round(v)
    v = v.astype(case["dtype"])
    miss = np.zeros(shape, bool)
    if case.get("close") and case["missing"] == "value" and abs(case["miss"]) < 1e4 and v.dtype.kind == "f":
        # data next to the missing value, and not missing
        m = np.array(missing_val(case), v.dtype)
        near = np.array([np.nextafter(m, v.dtype.type(1e9)), m + v.dtype.type(1e-4), m - v.dtype.type(1e-5), -m], v.dtype)
        at = U.uniform(case["seed"], v.size, 7).reshape(shape) < 0.2
        v = np.where(at, near[(U.uniform(case["seed"], v.size, 8) * 4).astype(int)].reshape(shape), v)
    if case["missing"] != "none" and not (case["missing"] == "nan" and case["dtype"].startswith("i")):
        miss = U.uniform(case["seed"], v.size, 6).reshape(shape) < case["mfrac"]
        v = np.where(miss, np.array(missing_val(case) if case["missing"] == "value" else np.nan, v.dtype), v)
        if case["missing"] == "value":
            miss = v == np.array(missing_val(case), v.dtype)  # any data equal to it counts as missing
    # targets
    ext = 0.0 if case["fill"] == "nan" and case["seed"] % 3 else 0.15
    xs = []
    for k, (ax, m) in enumerate(((lat, case["nt"][0]), (lon, case["nt"][1]))):
        lo, hi = min(ax), max(ax)
        if k == 1 and case["cyclic"]:
            lo, hi = max(ax) - 360, min(ax) + 360
            e = 0.0
        else:
            e = ext * (hi - lo)
        t = lo - e + (hi - lo + 2 * e) * U.uniform(case["seed"], m, 60 + k)
        hits = U.uniform(case["seed"], m, 70 + k) < 0.3
        t = np.where(hits, ax[(U.uniform(case["seed"], m, 80 + k) * len(ax)).astype(int)], t)
        xs.append(np.sort(t) if case["sort"] else t)
    return lat, lon, v, miss, xs[0], xs[1]


def bracket(ax, t, extrap):
    """indices and weight of the pair used for t along an ascending axis; None when outside."""
    if not extrap and (t < ax[0] or t > ax[-1]):
        return None
    k = min(max(int(np.searchsorted(ax, t, "right")) - 1, 0), len(ax) - 2)
    return k, k + 1, (t - ax[k]) / (ax[k + 1] - ax[k])


def md_reference(case, lat, lon, v, miss, tlat, tlon):
    """Expected 2-D planes: value, NaN, or don't-care."""
    f = np.where(miss, np.nan, v.astype(float))
    if lat[0] > lat[-1]:
        lat, f = lat[::-1], f[..., ::-1, :]
    if lon[0] > lon[-1]:
        lon, f = lon[::-1], f[..., ::-1]
    if case["cyclic"]:
        lon = np.concatenate([[lon[-1] - 360], lon, [lon[0] + 360]])
        f = np.concatenate([f[..., -1:], f, f[..., :1]], axis=-1)
    extrap = case["fill"] == "extrapolate"
    fillv = {"number": -77.0, "zero": 0.0}.get(case["fill"], np.nan)
    shape = f.shape[:-2] + (len(tlat), len(tlon))
    want, dont = np.empty(shape), np.zeros(shape, bool)
    for i, y in enumerate(tlat):
        for j, x in enumerate(tlon):
            by, bx = bracket(lat, y, extrap), bracket(lon, x, extrap)
            if by is None or bx is None:
                want[..., i, j] = fillv
                continue
            if case["method"] == "nearest":
                iy, tie1 = nearest(lat, y)
                ix, tie2 = nearest(lon, x)
                want[..., i, j] = f[..., iy, ix]
                dont[..., i, j] |= tie1 or tie2
                continue
            (k0, k1, wy), (l0, l1, wx) = by, bx
            c = f[..., [k0, k0, k1, k1], [l0, l1, l0, l1]]
            w = np.array([(1 - wy) * (1 - wx), (1 - wy) * wx, wy * (1 - wx), wy * wx])
            bad = np.isnan(c)
            want[..., i, j] = np.where(bad.any(-1), np.nan, np.where(bad, 0, c) @ w)
            # on a grid line the two neighbouring cells give the same value unless one holds missing corners
            onx, ony = [l for l in range(len(lon)) if abs(lon[l] - x) <= 1e-9 * 360], [k for k in range(len(lat)) if abs(lat[k] - y) <= 1e-9 * 180]
            if onx or ony:
                ks = {k0, k1} | {z for k in ony for z in (k - 1, k, k + 1)}
                ls = {l0, l1} | {z for l in onx for z in (l - 1, l, l + 1)}
                ks, ls = [k for k in ks if 0 <= k < len(lat)], [l for l in ls if 0 <= l < len(lon)]
                dont[..., i, j] |= np.isnan(f[..., ks, :][..., ls]).any(axis=(-1, -2))
    return want, dont


def nearest(ax, t):
    d = abs(ax - t)
    i = int(np.argmin(d))
    d2 = np.sort(d)
    return i, len(d) > 1 and d2[1] - d2[0] <= 1e-9 * 360


@facet("I06", "interp_multidim", lambda tier: md_case(tier), 2100, 16000, weight=2,
       rule="lat/lon grids (regular or not, either direction, cyclic or not, leading dims) x targets inside, on, outside the grid and across the seam x method x fill value x missing cells; non-trivial when a target is strictly inside a cell")
def multidim(case, cx):
    lat, lon, v, miss, tlat, tlon = md_setup(case)
    want, dont = md_reference(case, lat, lon, v, miss, tlat, tlon)
    if case["method"] == "nearest" and case["fill"] == "extrapolate":
        case = dict(case, fill="nan")
        want, dont = md_reference(case, lat, lon, v, miss, tlat, tlon)
    cx.label(case["method"], "cyclic" if case["cyclic"] else "plain", case["fill"], case["missing"], case["kind"], case["dtype"],
             f"{case['extra'] + 2}d", "lon-down" if case["londesc"] else "lon-up", "chunked" if case["chunk"] == 1 and case["kind"] == "xr" else "memory")
    cx.interesting(bool(np.isfinite(want).any()) and not np.isin(tlat, lat).all())
    kw = dict(cyclic=case["cyclic"], method=case["method"])
    if case["missing"] == "value":
        kw["missing_val"] = missing_val(case)
    if case["fill"] != "nan":
        kw["fill_value"] = {"extrapolate": "extrapolate", "number": -77.0, "zero": 0}[case["fill"]]
    a, b = case["names"]
    if case["kind"] == "np":
        a, b = "lat", "lon"
        r = cx.call(gc.interp_multidim, v.copy(), tlat.copy(), tlon.copy(), lat.copy(), lon.copy(), **kw)
    else:
        dims = ["time", "z"][: case["extra"]] + [a, b]
        da = xr.DataArray(v.copy(), dims=dims, coords={a: lat, b: lon})
        if case["chunk"] == 1:
            da = da.chunk({d: 2 for d in dims})
        r = cx.call(gc.interp_multidim, da, tlat.copy(), tlon.copy(), **kw)
        U.need(r.dims == tuple(dims), f"dims {r.dims}, expected {tuple(dims)}")
    U.same(r[a].values, tlat, "latitudes of the result")
    U.same(r[b].values, tlon, "longitudes of the result")
    got = U.plain(r).astype(float)
    if case["missing"] == "value":
        U.need(not np.isnan(got).any(), "missing cells are not marked with missing_val")
        want = np.where(np.isnan(want), missing_val(case), want)
    U.need(got.shape == want.shape, f"shape {got.shape}, expected {want.shape}")
    want[dont] = got[dont]
    U.close(got, want, f"interp_multidim({case['method']})", rtol=1e-9 if case["dtype"] != "f4" else 2e-6, scale=150)


# ---------------------------------------------------------------- I04 chunking
def chunk_of(draw, dims):
    return {d: draw(st.integers(1, 4)) for d in dims if draw(st.integers(0, 2)) > 0}


@st.composite
def chunk_case(draw, tier="quick"):
    fn = draw(st.sampled_from(["hybrid", "hybrid", "hybrid", "sigma", "multidim", "pressure"]))
    if fn == "multidim":
        c = dict(draw(md_case(tier, many=False)), kind="xr")
        return dict(fn=fn, c=c, chunks=[draw(st.integers(1, 5)) for _ in range(4)])
    if fn == "sigma":
        c = draw(sigma_case(tier))
    else:
        c = draw(extrap_case(tier))
    if not [d for d in c["dims"] if d != "lev"]:
        c["dims"] = draw(st.permutations(["lev", "lat"]))
    dims = list(c["dims"])
    ch = {n: chunk_of(draw, dims if n == "data" else [d for d in dims if d != "lev"] if n in ("ps", "t_bot", "phi") else ["lev"])
          for n in ("data", "ps", "hyam", "hybm", "t_bot", "phi") if draw(st.booleans())}
    if not ch:
        ch["data"] = chunk_of(draw, dims)
    extrapolate = draw(st.booleans())
    if fn == "sigma":
        c["how"] = "name"
    return dict(fn=fn, c=c, ch=ch, extrapolate=extrapolate, lazy=draw(st.booleans()))


@facet("I04", "chunking", lambda tier: chunk_case(tier), 780, 8000, weight=8,
       rule="function x chunk layout of every input (including the level axis) x extrapolation x method; all cases with at least one chunked input are non-trivial")
def chunking(case, cx):
    c, fn = case["c"], case["fn"]
    cx.label(fn)
    if fn == "multidim":
        lat, lon, v, miss, tlat, tlon = md_setup(c)
        a, b = c["names"]
        dims = ["time", "z"][: c["extra"]] + [a, b]
        da = xr.DataArray(v, dims=dims, coords={a: lat, b: lon})
        kw = dict(cyclic=c["cyclic"], method=c["method"])
        if c["missing"] == "value":
            kw["missing_val"] = missing_val(c)
        if c["fill"] == "extrapolate" and c["method"] == "linear":
            kw["fill_value"] = "extrapolate"
        cx.interesting()
        base = cx.call(gc.interp_multidim, da, tlat, tlon, **kw)
        r = cx.call(gc.interp_multidim, da.chunk(dict(zip(dims, case["chunks"]))), tlat, tlon, **kw)
        got = cx.call(lambda: r.compute())
        U.need(got.dims == base.dims, f"dims {got.dims} vs {base.dims}")
        U.close(got, base, "chunked interp_multidim", rtol=1e-9, scale=150)
        return
    ch = {k: {(c["lev_name"] if d == "lev" else d): n for d, n in v.items()} for k, v in case["ch"].items()}

    def chunked(x, name):
        return x.chunk({d: n for d, n in ch[name].items() if d in x.dims}) if name in ch else x

    cx.interesting()
    cx.label("lev-chunked" if c["lev_name"] in ch.get("data", {}) else "lev-whole", *(f"chunk-{k}" for k in ch))
    if fn == "sigma":
        c = dict(c, aux=False)
        cols, sig, hya, hyb, s = sigma_setup(c)
        base = sigma_call(c, cx, cols, sig, hya, hyb)
        r = sigma_call(c, cx, cols, sig, hya, hyb, lambda d, p, a: (chunked(d, "data"), chunked(p, "ps"), a))
        got = cx.call(lambda: r.compute())
        U.need(got.dims == base.dims, f"dims {got.dims} vs {base.dims}")
        U.close(got, base, "chunked interp_sigma_to_hybrid", rtol=1e-9, scale=K.Columns(dict(c, pure="sigma")).scale)
        U.close(got["hlev"], base["hlev"], "hlev of chunked run", rtol=1e-9)
        return
    cols = K.Columns(c)
    if fn == "pressure":
        base = gc.pressure_at_hybrid_levels(cols.ps(), cols.hyam(), cols.hybm(), float(c["p0"]))
        r = cx.call(gc.pressure_at_hybrid_levels, chunked(cols.ps(), "ps"), chunked(cols.hyam(), "hyam"), chunked(cols.hybm(), "hybm"), float(c["p0"]))
        U.need(r.dims == base.dims, f"dims {r.dims} vs {base.dims}")
        U.close(cx.call(lambda: r.compute()), base, "chunked pressure_at_hybrid_levels", rtol=1e-12)
        base = gc.delta_pressure_hybrid(cols.ps(), cols.hyam(), cols.hybm(), float(c["p0"]))
        r = cx.call(gc.delta_pressure_hybrid, chunked(cols.ps(), "ps"), chunked(cols.hyam(), "hyam"), chunked(cols.hybm(), "hybm"), float(c["p0"]))
        U.need(r.dims == base.dims, f"dims {r.dims} vs {base.dims}")
        U.close(cx.call(lambda: r.compute()), base, "chunked delta_pressure_hybrid", rtol=1e-12)
        return
    new = make_targets(c["new"], cols)
    kw = dict(lev_dim=cols.lev, method=c["method"], new_levels=new)
    kwc = dict(kw)
    if case["extrapolate"]:
        tb, phi = extrap_inputs(c, cols)
        kw.update(extrapolate=True, variable=c["variable"], t_bot=cols.flat(tb, "TBOT"), phi_sfc=cols.flat(phi, "PHIS"))
        kwc = dict(kw, t_bot=chunked(kw["t_bot"], "t_bot"), phi_sfc=chunked(kw["phi_sfc"], "phi"))
        cx.label("extrapolate")
    args = [cols.data(), cols.ps(), cols.hyam(), cols.hybm()]
    base = cx.call(gc.interp_hybrid_to_pressure, *args, float(c["p0"]), **kw)
    cargs = [chunked(x, n) for x, n in zip(args, ("data", "ps", "hyam", "hybm"))]
    r = cx.call(gc.interp_hybrid_to_pressure, *cargs, float(c["p0"]), **kwc)
    got = cx.call(lambda: r.compute())
    gv = check_out(c, cols, got, new)
    bv = np.moveaxis(U.plain(base), cols.axis, -1)
    want, nok, dont = ref_columns(cols, new, c["method"], 2e-6)
    dont = nok  # column ends are decided by rounding
    K.compare(gv, bv, nok, dont, "chunked interp_hybrid_to_pressure", rtol=1e-9 if c["dtype"] != "f4" else 1e-6, scale=out_scale(c, cols), atol=tolerance(c, cols))


for _p in ("I01", "I02", "I03", "I04", "I05", "I06"):
    ASSUMPTIONS[_p] = ["pressure is monotonic along every generated column (the documented meaning of hybrid levels)"]
ASSUMPTIONS["I06"] = ["longitudes of cyclic grids lie within one turn", "targets on a grid line next to a missing cell are left unjudged"]
