"""X07-X09, X11: ways of calling - argument passing, threads, warnings, quantities with units."""
import sys
import threading
import warnings

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, HarnessError, Skip, Violation, facet
from ..recipes import RECIPES, snap
from .crosscut import Pool, describe, in_child, quiet

REQ = object()
MANDATORY = np.array([1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1], "f4") * np.float32(100)
NAN = float("nan")


def _sig(text):
    """'a b c=1' -> [(name, default)]"""
    out = []
    for w in text.split():
        n, _, d = w.partition("=")
        out.append((n, eval(d, {"nan": NAN, "MANDATORY": MANDATORY}) if d else REQ))  # noqa: S307 - constants of this file
    return out


# The documented parameters, in their documented order, with their documented defaults.
PARAMS = {k: _sig(v) for k, v in {
    "dewtemp": "temperature relative_humidity",
    "heat_index": "temperature relative_humidity alternate_coeffs=False",
    "relhum": "temperature mixing_ratio pressure", "relhum_ice": "temperature mixing_ratio pressure", "relhum_water": "temperature mixing_ratio pressure",
    "max_daylight": "jday lat", "psychrometric_constant": "pressure",
    "saturation_vapor_pressure": "temperature tfill=nan", "actual_saturation_vapor_pressure": "tdew tfill=nan", "saturation_vapor_pressure_slope": "temperature tfill=nan",
    "delta_pressure": "pressure_lev surface_pressure pressure_top=None",
    "pressure_at_hybrid_levels": "psfc hya hyb p0=100000.0", "delta_pressure_hybrid": "ps hya hyb p0=100000.0",
    "interp_hybrid_to_pressure": "data ps hyam hybm p0=100000.0 new_levels=MANDATORY lev_dim=None method='linear' extrapolate=False variable=None t_bot=None phi_sfc=None",
    "interp_sigma_to_hybrid": "data sig_coords ps hyam hybm p0=100000.0 lev_dim=None method='linear'",
    "interp_multidim": "data_in lat_out lon_out lat_in=None lon_in=None cyclic=False missing_val=None method='linear' fill_value=nan",
    "calendar_average": "dset freq time_dim=None keep_attrs=None", "climate_anomaly": "dset freq time_dim=None keep_attrs=None",
    "climatology_average": "dset freq custom_seasons=None time_dim=None keep_attrs=None", "month_to_season": "dset season time_coord_name=None keep_attrs=None",
    "fourier_low_pass": "signal frequency cutoff_frequency_low time_axis=0", "fourier_high_pass": "signal frequency cutoff_frequency_high time_axis=0",
    "fourier_band_pass": "signal frequency cutoff_frequency_low cutoff_frequency_high time_axis=0",
    "fourier_band_block": "signal frequency cutoff_frequency_low cutoff_frequency_high time_axis=0",
    "gradient": "data lon=None lat=None",
    "decomposition": "data scale theta phi max_harm=23", "recomposition": "data theta phi max_harm=23", "scale_voronoi": "theta phi",
    "nmse": "observed modeled", "pearson_r": "a b dim=None weights=None skipna=False keep_attrs=False axis=None",
    "eofunc_eofs": "data neofs=1 time_dim=0 eofscaling=0 weights=None center=True ddof=1 vfscaled=False meta=False",
    "eofunc_pcs": "data npcs=1 time_dim=0 pcscaling=0 weights=None center=True ddof=1 meta=False",
    "eofunc": "data neval", "eofunc_ts": "data evec",
    "zonal_meridional_psi": "uxds lat=(-90,90,10) meridional_wind_varname=None surface_air_pressure_varname=None plev_coordname=None hyam_coordname=None hybm_coordname=None",
}.items()}
# Other valid values of optional parameters, for calls that would otherwise leave them alone.
OTHERS = {
    "heat_index": {"alternate_coeffs": [True]}, "saturation_vapor_pressure": {"tfill": [-99.0, 0.0]}, "actual_saturation_vapor_pressure": {"tfill": [-99.0, 0.0]},
    "saturation_vapor_pressure_slope": {"tfill": [-99.0, 0.0]}, "delta_pressure": {"pressure_top": [100.0]},
    "pressure_at_hybrid_levels": {"p0": [101325.0, 1000.0]}, "delta_pressure_hybrid": {"p0": [101325.0, 1000.0]},
    "interp_hybrid_to_pressure": {"p0": [95000.0], "method": ["log"], "new_levels": [np.array([70000.0, 50000.0])]},
    "interp_sigma_to_hybrid": {"p0": [95000.0], "method": ["log"]}, "interp_multidim": {"method": ["nearest"], "fill_value": [-1.0, None], "missing_val": [-999.0]},
    "calendar_average": {"keep_attrs": [True, False], "time_dim": ["time"]}, "climate_anomaly": {"keep_attrs": [True, False], "time_dim": ["time"]},
    "climatology_average": {"keep_attrs": [True, False], "time_dim": ["time"]}, "month_to_season": {"keep_attrs": [True, False], "time_coord_name": ["time"]},
    "pearson_r": {"skipna": [True], "keep_attrs": [True]},
    "eofunc_eofs": {"neofs": [2], "eofscaling": [1, 2], "center": [False], "ddof": [0], "vfscaled": [True]},
    "eofunc_pcs": {"npcs": [2], "pcscaling": [1, 2], "center": [False], "ddof": [0]},
    "zonal_meridional_psi": {"lat": [(-60, 60, 20)]},
}


def parameters(fn):
    p = PARAMS[fn.__name__]
    if fn.__name__ in ("calendar_average", "climate_anomaly"):
        return p[:-1]  # the default of keep_attrs is not documented
    return p


def others(fn, args, kw, bits, seed):
    """Some optional arguments that the call leaves alone, with other valid values."""
    taken = [n for n, _ in PARAMS[fn.__name__]][: len(args)] + list(kw)
    out = {}
    for i, (k, vals) in enumerate(sorted(OTHERS.get(fn.__name__, {}).items())):
        if bits >> i & 1 and k not in taken and not (k == "method" and kw.get("extrapolate")):
            out[k] = vals[(seed + i) % len(vals)]
    return out


@st.composite
def calling(draw, tier="quick"):
    fn = draw(st.sampled_from(sorted(RECIPES)))
    if fn == "zonal_meridional_psi" and draw(st.integers(0, 3)):
        fn = draw(st.sampled_from(sorted(RECIPES)))
    return dict(fn=fn, kind=draw(st.integers(0, 4)), seed=draw(st.integers(0, 5000)), pos=draw(st.integers(0, 12)), explicit=draw(st.integers(0, 4095)),
                other=draw(st.integers(0, 255)))


@facet("X07", "argument passing", lambda tier: calling(tier), 1600, 20000, layouts=False,
       rule="a case counts when the two calls pass at least one argument differently: position against keyword, or explicit default against omission")
def argument_passing(case, cx):
    rec = RECIPES[case["fn"]]
    fn, args, kw = rec.build(case["seed"], rec.kinds[case["kind"] % len(rec.kinds)])
    name = fn.__name__
    params = parameters(fn)
    extra = {k: v for k, v in kw.items() if k not in dict(params)}
    given = dict(zip([n for n, _ in params], args))
    given.update({k: v for k, v in kw.items() if k in dict(params)})
    if isinstance(args[0], np.ndarray) and name in ("gradient",) and not np.isfinite(args[0]).all():
        raise Skip("missing data")
    chosen = {k: v for k, v in others(fn, args, kw, case["other"], case["seed"]).items() if k in dict(params)}
    given.update(chosen)
    cx.label(*("set:" + k for k in chosen))
    full = {n: given.get(n, d) for n, d in params}  # everything by keyword, defaults spelled out
    if any(v is REQ for v in full.values()):
        raise HarnessError(f"{name}: required argument missing from the recipe")
    # the other call: the first parameters by position, the rest by keyword, defaults omitted unless drawn
    npos = min(case["pos"], len(params))
    pos, byname, omitted = [], {}, []
    for i, (n, d) in enumerate(params):
        if i < npos:
            pos.append(full[n])
        elif n in given or d is REQ or case["explicit"] >> i & 1:
            byname[n] = full[n]
        else:
            omitted.append(n)
    cx.label("fn:" + case["fn"], f"positional:{npos}", *("omitted:" + n for n in omitted))
    cx.interesting(npos > 0 or omitted)
    a = snap(cx.call(fn, **full, **extra))
    b = snap(cx.call(fn, *pos, **byname, **extra))
    U.need(a == b, f"{case['fn']} with {npos} positional arguments and {omitted} omitted differs from the call with every documented parameter spelled out: {describe(a, b)}")


# ================================================================ X08: threads
# uxarray's zonal mean runs numba's work queue, which itself forbids concurrent use
THREADED = sorted(n for n in RECIPES if n != "zonal_meridional_psi")


@st.composite
def threads(draw, tier="quick"):
    focus = draw(st.lists(st.sampled_from(THREADED), min_size=1, max_size=2))
    kind = draw(st.integers(0, 4))
    jobs = [dict(fn=draw(st.sampled_from(focus)), kind=draw(st.sampled_from([kind, kind, draw(st.integers(0, 4))])), seed=draw(st.integers(0, 5000)),
                 other=draw(st.integers(0, 255)))
            for _ in range(draw(st.integers(2, 4)))]
    return dict(jobs=jobs, rounds=draw(st.integers(2, 6)), shared=draw(st.booleans()), switch=draw(st.sampled_from([1e-6, 1e-5, 1e-4])))


@facet("X08", "concurrent calls", lambda tier: threads(tier), 480, 6000, layouts=False,
       rule="a case counts when at least two threads call the same function with different arguments")
def concurrent_calls(case, cx):
    jobs = case["jobs"]
    cx.sut_called = True
    cx.label(f"threads:{len(jobs)}", *{"fn:" + j["fn"] for j in jobs})
    names = [j["fn"] for j in jobs]
    cx.interesting(any(a["fn"] == b["fn"] and (a["seed"], a["kind"]) != (b["seed"], b["kind"]) for i, a in enumerate(jobs) for b in jobs[:i]))

    def build(j, pool):
        rec = RECIPES[j["fn"]]
        fn, args, kw = rec.build(j["seed"], rec.kinds[j["kind"] % len(rec.kinds)])
        kw = dict(kw, **others(fn, args, kw, j["other"], j["seed"]))
        return fn, [pool(a) for a in args], {k: pool(v) for k, v in kw.items()}

    def run():
        quiet()
        pool = Pool() if case["shared"] else (lambda x: x)
        calls = [build(j, pool) for j in jobs]
        want = [snap(fn(*a, **k)) for fn, a, k in [build(j, lambda x: x) for j in jobs]]
        out = [[] for _ in jobs]
        gate = threading.Barrier(len(jobs))

        def work(i):
            fn, a, k = calls[i]
            gate.wait()
            for _ in range(case["rounds"]):
                try:
                    out[i].append(("value", snap(fn(*a, **k))))
                except Exception as e:  # noqa: BLE001
                    out[i].append(("raised", f"{type(e).__name__}: {e}"))

        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
        sys.setswitchinterval(case["switch"])
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
            stuck = [i for i, t in enumerate(ts) if t.is_alive()]
        finally:
            sys.setswitchinterval(0.005)
        bad = []
        for i, w in enumerate(want):
            if i in stuck:
                bad.append((i, "did not finish within 120 s"))
            for o in out[i]:
                if o[0] == "raised":
                    bad.append((i, o[1][:200]))
                elif o[1] != w:
                    bad.append((i, describe(w, o[1])))
        return bad

    status, bad = in_child(run)
    if status == "died":
        raise Violation(f"the process died while {names} ran in threads")
    if status == "err":
        raise HarnessError(bad)
    if bad:
        raise Violation(f"{jobs[bad[0][0]]['fn']} in a thread beside {names}: alone it gives another result: {bad[0][1]}")


# ================================================================ X09: warnings
def warned(fn, *args, **kw):
    """The warnings the library itself issues (message texts)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        fn(*args, **kw)
    return [str(x.message) for x in w if issubclass(x.category, UserWarning) or "geocat" in x.filename and not issubclass(x.category, RuntimeWarning)]


# words of every documented warning; other packages' warnings (and wording) are their own
WORDS = [["rh", "fractional"], ["limited validity"], ["not possible"], ["different dimension names"], ["custom_seasons", "ignored"], ["`dim`", "unused"],
         ["`axis`", "unused"], ["not recommended"], ["geocat-f2py"], ["deprecated", "eofunc"]]


def expect_warning(cx, wanted, words, fn, *args, **kw):
    cx.sut_called = True
    try:
        got = warned(fn, *args, **kw)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{fn.__name__} raised {type(e).__name__} on a valid input: {str(e)[:200]}") from e
    hit = [m for m in got if all(w in m for w in words)]
    if wanted:
        U.need(hit, f"{fn.__name__}: the documented warning ({' ... '.join(words)}) is missing; warnings: {got}")
    else:
        stray = [m for m in got if any(all(x in m for x in ws) for ws in WORDS)]
        U.need(not stray, f"{fn.__name__}: warning without its condition: {stray[:1]}")


DEPRECATED = ["grid_to_triple", "linint1", "linint2", "linint2pts", "moc_globe_atl", "rcm2points", "rcm2rgrid", "rgrid2rcm", "triple_to_grid"]


@st.composite
def warn_case(draw, tier="quick"):
    return dict(what=draw(st.sampled_from(["heat", "day", "day", "hybrid", "season", "pearson", "chunk", "deprecated", "eof", "none", "none"])), seed=draw(st.integers(0, 2**20)),
                flag=draw(st.booleans()), flag2=draw(st.booleans()), n=draw(st.integers(1, 4)), box=draw(st.sampled_from(["np", "xr", "list"])), edge=draw(st.integers(0, 5)))


@facet("X09", "documented warnings", lambda tier: warn_case(tier), 2400, 20000, layouts=False,
       rule="every case counts: each decides whether a documented warning has to appear, or that none may")
def documented_warnings(case, cx):
    s, n, flag = case["seed"], case["n"], case["flag"]
    what = case["what"]
    cx.label(what, f"{what}:{flag}")
    cx.interesting()

    def box(v, dims):
        return xr.DataArray(v, dims=dims[: v.ndim]) if case["box"] == "xr" else v.tolist() if case["box"] == "list" else v

    if what == "heat":
        shape = (n,) if case["flag2"] else (n, 2)
        t, rh = U.field(s, shape, 40, 110), U.field(s, shape, 0, 1, 1)
        if case["edge"] == 0:
            rh.flat[-1] = 1.0
        if not flag:  # one value above one per cent
            rh.flat[s % rh.size] = [1.0 + 1e-6, 1.5, 40.0, 100.0][s % 4]
        expect_warning(cx, flag, ["rh", "fractional"], gc.heat_index, box(t, ["a", "b"]), box(rh, ["a", "b"]), **({"alternate_coeffs": True} if case["edge"] == 1 else {}))
    elif what == "day":
        sign = np.where(U.uniform(s, n, 3) < 0.5, -1.0, 1.0)
        kind = case["edge"] % 3
        if kind == 0:
            lat, want = U.field(s, (n,), 55.001, 66, 1), ["limited validity"]
        elif kind == 1:
            lat, want = U.field(s, (n,), 66.001, 90, 1), ["not possible"]
        else:
            lat, want = U.field(s, (n,), 0, 54.99, 1), None
        if kind == 0 and case["flag2"]:
            lat[0] = 66.0
        if kind == 2 and case["flag2"]:
            lat[0] = 55.0
        lat = lat * sign
        doy = 1 + np.floor(U.uniform(s, 2, 5) * 365)
        if kind < 2 and flag:  # one latitude without any restriction
            lat, want = np.append(lat, U.field(s, (1,), -54, 54, 7)), None
        if case["box"] == "xr":
            args = [xr.DataArray(doy, dims=["doy"], coords={"doy": doy}), xr.DataArray(lat, dims=["lat"], coords={"lat": lat})]
        else:
            args = [box(doy, ["doy"]), box(lat, ["lat"])]
        cx.label(f"latitudes:{kind}:{want}")
        expect_warning(cx, want is not None, want or [], gc.max_daylight, *args)
    elif what == "hybrid":
        fn, args, kw = RECIPES["pressure_at_hybrid_levels"].build(s, "xr")
        if flag:
            args[2] = xr.DataArray(args[2].values, dims=["ilev"])
        expect_warning(cx, flag, ["different dimension names"], fn, *args, **kw)
    elif what == "season":
        freq = "season" if not flag else ["day", "month"][s % 2]
        fn, args, kw = RECIPES["climatology_average"].build(s, freq)
        kw["custom_seasons"] = ["DJF"] if freq != "season" else ["JFM", "JJA"]
        if freq != "season" and case["flag2"]:
            kw["custom_seasons"] = "DJF"
        if freq == "season":
            da = xr.DataArray(np.arange(24.0), dims=["time"], coords={"time": xr.date_range("2001-01-01", periods=24, freq="MS")})
            args = [da, freq]
        expect_warning(cx, flag, ["custom_seasons", "ignored"], fn, *args, **kw)
    elif what == "pearson":
        kind = ["np", "xr", "list", "ds"][s % 4]
        fn, args, kw = RECIPES["pearson_r"].build(s, kind)
        kw.pop("weights", None)
        kw.pop("axis", None)
        kw.pop("dim", None)
        if kind in ("np", "list"):
            kw["axis"] = 0
            if flag:
                kw["dim"] = "time"
            expect_warning(cx, flag, ["`dim`", "unused"], fn, *args, **kw)
        else:
            kw["dim"] = "time"
            if flag:
                kw["axis"] = 0
            expect_warning(cx, flag, ["`axis`", "unused"], fn, *args, **kw)
    elif what == "chunk":
        fn, args, kw = RECIPES["interp_hybrid_to_pressure"].build(s, ["linear", "log"][s % 2])
        da = args[0]
        m = da.sizes["lev"]
        chunks = {d: 1 + s % 2 for d in da.dims}
        chunks["lev"] = m if not flag else max(1, m - 1)
        args[0] = da.chunk(chunks)
        expect_warning(cx, flag, ["lev", "not recommended"], fn, *args, **kw)
    elif what == "deprecated":
        name = DEPRECATED[s % len(DEPRECATED)]
        expect_warning(cx, True, ["geocat-f2py", f"geocat.f2py.{name}"], getattr(gc, name), *[1, [2.0]][: s % 3])
    elif what == "eof":
        name = ["eofunc", "eofunc_ts"][s % 2]
        fn, args, kw = RECIPES[name].build(s, ["np", "xr"][n % 2])
        expect_warning(cx, True, ["deprecated", "eofunc_eofs" if name == "eofunc" else "eofunc_pcs"], fn, *args, **kw)
    else:
        # ordinary calls warn about nothing
        names = [x for x in sorted(RECIPES) if x not in ("eofunc", "eofunc_ts", "zonal_meridional_psi", "max_daylight")]
        name = names[s % len(names)]
        rec = RECIPES[name]
        fn, args, kw = rec.build(s, rec.kinds[(s // 64) % len(rec.kinds)])
        if name == "heat_index" and float(np.max(args[1])) <= 1:
            raise Skip("fractional humidity")
        cx.label("fn:" + name)
        expect_warning(cx, False, [], fn, *args, **kw)


# ================================================================ X11: quantities with units
_UNITS = []


def registry():
    if not _UNITS:
        import pint

        _UNITS.append(pint.UnitRegistry())
    return _UNITS[0]


UNITS = ["kelvin", "meter / second", "gram / kilogram", "dimensionless"]
PRESSURES = {"pascal": 1.0, "hectopascal": 100.0, "millibar": 100.0, "kilopascal": 1000.0}
QUANTITIES = ["interp_hybrid_to_pressure"] * 4 + ["interp_sigma_to_hybrid", "pressure_at_hybrid_levels", "calendar_average", "climatology_average",
                                                  "climate_anomaly", "month_to_season", "pearson_r", "nmse"]


@st.composite
def quantity_case(draw, tier="quick"):
    press = st.sampled_from(sorted(PRESSURES))
    return dict(fn=draw(st.sampled_from(QUANTITIES)), kind=draw(st.integers(0, 4)), seed=draw(st.integers(0, 50000)), unit=draw(st.sampled_from(UNITS)),
                ps=draw(press), p0=draw(press), levels=draw(press), with_p=draw(st.booleans()), with_data=draw(st.sampled_from([True, True, True, False])),
                order=draw(st.sampled_from(["as is", "as is", "shuffled"])))


def quantity(x, unit):
    u = registry()
    if isinstance(x, xr.Dataset):
        return x.map(lambda v: quantity(v, unit))
    if isinstance(x, xr.DataArray):
        return x.copy(data=u.Quantity(x.values, unit))
    return u.Quantity(x, unit)


def number(x):
    return np.asarray(getattr(x.data, "magnitude", x.data))


def carries(got, want, unit, what, rtol=1e-10):
    """``got`` is ``want`` times ``unit`` (None: plain numbers)."""
    U.need(type(got) is type(want), f"{what}: {type(got).__name__}")
    if isinstance(want, xr.Dataset):
        for k in want.data_vars:
            carries(got[k], want[k], unit, f"{what}[{k}]", rtol)
        return
    if unit is None:
        U.need(not hasattr(got.data, "magnitude"), f"{what}: a quantity {getattr(got.data, 'units', '')} from plain data")
        mag = got.values
    else:
        U.need(hasattr(got.data, "magnitude"), f"{what}: the unit {unit} is lost")
        U.need(got.data.units == registry().Unit(unit), f"{what}: unit {got.data.units}, data in {unit}")
        mag = got.data.magnitude
    U.need(got.dims == want.dims, f"{what}: dims {got.dims}, without units {want.dims}")
    fin = np.abs(want.values[np.isfinite(want.values)])
    U.close(mag, want.values, what, rtol, scale=fin.max() if fin.size else 1)


@facet("X11", "quantities", lambda tier: quantity_case(tier), 900, 10000, layouts=False,
       rule="a case counts when at least one argument carries a unit")
def quantities(case, cx):
    name, s, unit = case["fn"], case["seed"], case["unit"]
    rec = RECIPES[name]
    kind = rec.kinds[case["kind"] % len(rec.kinds)]
    if name in ("pressure_at_hybrid_levels", "pearson_r"):
        kind = "xr"
    fn, args, kw = rec.build(s, kind)
    cx.label("fn:" + name, "unit:" + unit)
    cx.interesting()
    u = registry()
    if name == "interp_hybrid_to_pressure":
        da, ps, a, b = args
        kw.setdefault("new_levels", np.array([90000.0, 55000.0, 70000.0, 20000.0][: 1 + s % 4]))
        lv = np.sort(np.asarray(kw["new_levels"], float))[::-1] if case["order"] == "as is" else np.asarray(kw["new_levels"])[U.perm(s, len(kw["new_levels"]))]
        p0 = [100000.0, 101325.0][s % 2]
        want = cx.call(fn, da, ps, a, b, p0, **dict(kw, new_levels=lv))
        d = quantity(da, unit) if case["with_data"] else da
        cx.label("levels:" + case["order"])
        if case["with_p"] or not case["with_data"]:
            cx.label("pressures:" + "/".join(sorted({case["ps"], case["p0"], case["levels"]})))
            f = {k: PRESSURES[case[k]] for k in ("ps", "p0", "levels")}
            got = cx.call(fn, d, quantity(ps / f["ps"], case["ps"]), a, b, u.Quantity(p0 / f["p0"], case["p0"]), **dict(kw, new_levels=u.Quantity(lv / f["levels"], case["levels"])))
            if near_edge(want, da, ps, a, b, p0, lv):
                raise Skip("a level at the very edge of a column")
            U.close(np.asarray(got["plev"].values), lv / f["levels"], "plev in the unit of the levels", 1e-12)
        else:
            got = cx.call(fn, d, ps, a, b, p0, **dict(kw, new_levels=lv))
        carries(got, want, unit if case["with_data"] else None, name, 1e-9)
    elif name == "interp_sigma_to_hybrid":
        da, sig, ps, a, b = args
        want = cx.call(fn, *args, **kw)
        if case["with_p"]:
            got = cx.call(fn, quantity(da, unit), sig, quantity(ps, "pascal"), a, b, u.Quantity(100000.0, "pascal"), **kw)
        else:
            got = cx.call(fn, quantity(da, unit), sig, ps, a, b, **kw)
        carries(got, want, unit, name)
    elif name == "pressure_at_hybrid_levels":
        ps, a, b = args
        want = cx.call(fn, ps, a, b, **kw)
        f = PRESSURES[case["ps"]]
        got = cx.call(fn, quantity(ps / f, case["ps"]), a, b, u.Quantity(kw.get("p0", 100000.0) / f, case["ps"]))
        carries(got, want / f, case["ps"], name)
    elif name in ("pearson_r", "nmse"):
        want = cx.call(fn, *args, **kw)
        got = cx.call(fn, *[quantity(x, unit) for x in args], **kw)
        if isinstance(want, xr.Dataset):
            for k in want.data_vars:
                U.close(number(got[k]), want[k].values, name, 1e-9)
        else:
            if hasattr(got.data, "units"):
                U.need(got.data.units == u.dimensionless, f"{name}: unit {got.data.units}")
            U.close(number(got), want.values, name, 1e-9)
    else:
        want = cx.call(fn, *args, **kw)
        got = cx.call(fn, quantity(args[0], unit), *args[1:], **kw)
        carries(got, want, unit, name)


def near_edge(want, da, ps, a, b, p0, lv):
    p = (a * p0 + b * ps).values.ravel()
    return any(np.abs(p - x).min() < 1e-6 * x for x in lv)
