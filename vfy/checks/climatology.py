"""C01-C06: climatologies."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import climdata as D
from .. import util as U
from ..core import ASSUMPTIONS, facet

CAL_STEPS = {
    "hour": ([5, 10, 15, 20, 30, 60, 7, 50], 3, 200),
    "day": ([30, 60, 120, 180, 240, 360, 480, 720, 1440, 300, 420, 700, 1080], 3, 260),
    "month": ([180, 360, 720, 1440, 2880, 7200, 10080, 14400, 20160, 1500, 4000], 3, 500),
    "season": ([360, 720, 1440, 2880, 7200, 10080, 14400, 20160, 5000], 3, 600),
    "year": ([720, 1440, 2880, 7200, 10080, 14400, 20160, 9000], 3, 800),
}


@st.composite
def calavg_case(draw, tier="quick"):
    freq = draw(st.sampled_from(["hour", "day", "month", "season", "year"]))
    if U.rarely(draw, 40):
        return dict(freq=freq, t=draw(D.long_series(freq)), **draw(payload_nan()))
    if freq in ("month", "season", "year") and draw(st.integers(0, 2)) == 0:
        t = draw(D.month_series(3, 66 if tier == "quick" else 400))
    else:
        steps, a, b = CAL_STEPS[freq]
        t = draw(D.step_series(steps, a, b if tier == "quick" else 4 * b))
    c = draw(payload_nan())
    return dict(freq=freq, t=t, **c)


def payload_nan():
    return D.payload(nan=True)


def result_tfirst(case, r, name):
    U.need(name in r.dims, f"result has dims {r.dims}, no {name!r}")
    return np.moveaxis(U.plain(r), r.dims.index(name), 0)


def other_dims_kept(case, da, r, name):
    U.need([d for d in r.dims if d != name] == [d for d in da.dims if d != name],
           f"dims {da.dims} became {r.dims}")
    for d in da.dims:
        if d != name:
            U.need(d in r.coords, f"coordinate {d} lost")
            U.same(r[d], da[d], f"coordinate {d}")


@facet("C01", "calendar_average", lambda tier: calavg_case(tier), 1260, 9000, weight=3,
       rule="freq x start date x step x calendar x length x layout x dtype x missing values; non-trivial when at least one period holds two samples and there are two periods")
def calavg(case, cx):
    ser = D.Series(case["t"])
    x, da = D.make(case, ser)
    want, stamps = D.ref_calendar(ser, x, case["freq"])
    cx.label(case["freq"], ser.cal, case["t"]["enc"], case["t"]["kind"], "nan" if case["nan"] else "full")
    cx.interesting(len(stamps) >= 2 and len(ser.dates) > len(stamps))
    r = D.unbox(case, cx.call(gc.calendar_average, D.boxed(case, da), case["freq"], **D.kwargs(case)))
    got = result_tfirst(case, r, case["tname"])
    D.stamp_close(r[case["tname"]].values, stamps, ser.cal, "calendar_average time")
    U.close(got, want, f"calendar_average({case['freq']})", rtol=D.tol(case), scale=np.nanmax(np.abs(x)) if not np.isnan(x).all() else 1.0)


# ---------------------------------------------------------------- climatology_average
@st.composite
def clim_series(draw, freq, tier):
    """At least a year of data, or a few bins within one calendar year."""
    big = 1 if tier == "quick" else 3
    if freq == "hour":
        t = draw(D.step_series([60, 60, 30, 120, 180], 3, 300 * big))
        return t
    if freq == "day":
        k = draw(st.integers(0, 3))
        if k == 0:
            return draw(D.step_series([1440, 720, 360], 3, 200))
        if k == 1:
            return draw(D.step_series([2880, 4320], 200, 500))
        return draw(D.step_series([1440], 360, 1500 * big))
    if freq == "month" and draw(st.booleans()):
        return draw(D.step_series([720, 1440, 2880, 7200, 20160], 3, 800 * big))
    return draw(D.month_series(3, 60 * big * big))


@st.composite
def clim_case(draw, tier="quick"):
    freq = draw(st.sampled_from(["hour", "day", "month", "month"]))
    if U.rarely(draw, 40):
        return dict(freq=freq, t=draw(D.long_series(freq)), **draw(payload_nan()))
    return dict(freq=freq, t=draw(clim_series(freq, tier)), **draw(payload_nan()))


def clim_stamp(ser, freq, key, year):
    b = {"hour": lambda: (year,) + key, "day": lambda: (year,) + key + (0,), "month": lambda: (year, key[0], 1, 0)}[freq]()
    return D.mid(ser.cal, *D.bounds(freq, ser.cal, b))


def leap_key(freq, ks):
    return freq in ("hour", "day") and any(k[:2] == (2, 29) for k in ks)


def check_clim_labels(ser, freq, ks, times):
    """Each label is the bin's midpoint in the median year (for 29 February: in a leap year of the record)."""
    import cftime

    years = sorted(a[0] for a in ser.ymdh)
    n = len(years)
    med = {years[(n - 1) // 2], years[n // 2]}
    m = (years[(n - 1) // 2] + years[n // 2]) / 2
    ok_years = {int(np.floor(m)), int(np.ceil(m))} | (med if len(med) == 1 else set())
    if leap_key(freq, ks):
        # 29 February cannot be labelled in a common year: a leap year (of the record, or the median itself) stands in
        leap = {y for y in ok_years if D.month_days(ser.cal, y, 2) == 29}
        feb29 = {a[0] for a in ser.ymdh if a[1:3] == (2, 29)}
        ok_years = leap if leap and leap <= feb29 else leap | feb29
    U.need(len(times) == len(ks), f"climatology has {len(times)} entries, expected {len(ks)} bins")
    t0 = times[0]
    y0 = t0.year if isinstance(t0, cftime.datetime) else int(str(np.datetime64(t0, "Y")))
    U.need(y0 in ok_years, f"labels are in year {y0}, expected one of {sorted(ok_years)[:4]}")
    D.stamp_close(times, [clim_stamp(ser, freq, k, y0) for k in ks], ser.cal, "climatology labels")


@facet("C02", "climatology_average", lambda tier: clim_case(tier), 600, 6000, weight=6,
       rule="freq x record x calendar x layout x dtype x missing values; non-trivial when some bin receives samples of two years")
def climavg(case, cx):
    ser = D.Series(case["t"])
    x, da = D.make(case, ser)
    ks, want = D.ref_clim(ser, x, case["freq"])
    cx.label(case["freq"], ser.cal, case["t"]["enc"], "leap-bin" if leap_key(case["freq"], ks) else "no-leap-bin",
             "nan" if case["nan"] else "full")
    cx.interesting(len({a[0] for a in ser.ymdh}) >= 2 and len(ser.dates) > len(ks))
    r = D.unbox(case, cx.call(gc.climatology_average, D.boxed(case, da), case["freq"], **D.kwargs(case)))
    got = result_tfirst(case, r, case["tname"])
    check_clim_labels(ser, case["freq"], ks, r[case["tname"]].values)
    U.close(got, want, f"climatology_average({case['freq']})", rtol=D.tol(case), scale=np.nanmax(np.abs(x)) if not np.isnan(x).all() else 1)


# ---------------------------------------------------------------- seasonal climatology
@st.composite
def season_case(draw, tier="quick"):
    t = draw(st.one_of(D.month_series(12, 60 if tier == "quick" else 240), D.step_series([1440, 2880, 7200, 10080, 14400, 20160], 60, 500)))
    if U.rarely(draw, 40):
        t = draw(D.long_series("season"))
    custom = draw(st.sampled_from(["default", "default", "list", "list", "list", "str"]))
    if custom == "list":
        custom = draw(st.lists(st.sampled_from(sorted(D.SEASONS)), min_size=1, max_size=6, unique=draw(st.integers(0, 2)) > 0))
    elif custom == "str":
        custom = draw(st.sampled_from(sorted(D.SEASONS)))
    return dict(seasons=custom, t=t, **draw(payload_nan()))


@facet("C03", "seasonal_climatology", lambda tier: season_case(tier), 850, 7000, weight=4,
       rule="season list (default, any subset/order of the 12, or one name) x record x calendar; non-trivial when a requested season sees two or more years")
def season_clim(case, cx):
    ser = D.Series(case["t"])
    x, da = D.make(case, ser)
    seasons = case["seasons"]
    names = ["DJF", "JJA", "MAM", "SON"] if seasons == "default" else [seasons] if isinstance(seasons, str) else seasons
    have = {a[1] for a in ser.ymdh}
    if any(not (set(D.SEASONS[s]) & have) for s in names):
        from ..core import Skip

        raise Skip("requested season has no data")
    want = D.ref_season_clim(ser, x, names)
    cx.label(ser.cal, case["t"]["enc"], "default" if seasons == "default" else "str" if isinstance(seasons, str) else f"list{len(names)}",
             "wraps" if set(names) & {"DJF", "NDJ"} else "plain")
    cx.interesting(len({a[0] for a in ser.ymdh}) >= 2)
    kw = D.kwargs(case)
    if seasons != "default":
        kw["custom_seasons"] = seasons
    r = D.unbox(case, cx.call(gc.climatology_average, D.boxed(case, da), "season", **kw))
    U.need("season" in r.dims, f"result dims {r.dims} lack 'season'")
    U.need(list(r["season"].values) == names, f"season coordinate {list(r['season'].values)}, expected {names}")
    U.need(set(r.dims) == (set(da.dims) - {case["tname"]}) | {"season"}, f"dims {r.dims}")
    got = U.plain(r.transpose("season", *[d for d in da.dims if d != case["tname"]]))
    U.close(got, want, "seasonal climatology", rtol=D.tol(case), scale=np.nanmax(np.abs(x)) if not np.isnan(x).all() else 1.0)


# ---------------------------------------------------------------- anomalies
@st.composite
def anom_case(draw, tier="quick"):
    freq = draw(st.sampled_from(["day", "month", "season", "year", "year"]))
    big = 1 if tier == "quick" else 3
    if freq == "day":
        t = draw(st.one_of(D.step_series([1440, 720], 3, 300), D.step_series([1440], 360, 1300 * big)))
    elif freq == "year":
        t = draw(st.one_of(D.month_series(3, 60), D.month_series(1188, 1500), D.step_series([1440, 7200, 14400], 10, 600)))
    else:
        t = draw(st.one_of(D.month_series(12, 60 * big * big), D.step_series([1440, 2880, 7200, 10080, 14400], 3 if freq == "month" else 400, 800)))
    return dict(freq=freq, t=t, **draw(payload_nan()))


def ref_anomaly(ser, x, freq):
    """anomaly per sample, and the climatology value subtracted from each."""
    if freq in ("day", "month"):
        ks, clim = D.ref_clim(ser, x, freq)
        pos = {k: i for i, k in enumerate(ks)}
        sub = np.array([clim[pos[D.clim_key(freq, a)]] for a in ser.ymdh])
    elif freq == "year":
        v, stamps = D.ref_calendar(ser, x, "year")
        pos = {s.year: i for i, s in enumerate(stamps)}
        sub = np.array([v[pos[a[0]]] for a in ser.ymdh])
    else:
        names = ["DJF", "MAM", "JJA", "SON"]
        v = D.ref_season_clim(ser, x, names)
        sub = np.array([v[(a[1] % 12) // 3] for a in ser.ymdh])
    return x - sub, sub


@facet("C04", "climate_anomaly", lambda tier: anom_case(tier), 360, 5000, weight=8,
       rule="freq x record (3 samples to 125 years) x calendar x layout; non-trivial when two samples share a bin and two bins exist")
def anomaly(case, cx):
    ser = D.Series(case["t"])
    x, da = D.make(case, ser)
    freq = case["freq"]
    if freq == "season" and {(a[1] % 12) // 3 for a in ser.ymdh} != {0, 1, 2, 3}:
        from ..core import Skip

        raise Skip("record lacks a season")
    want, sub = ref_anomaly(ser, x, freq)
    span = ser.ymdh[-1][0] - ser.ymdh[0][0]
    cx.label(freq, ser.cal, case["t"]["enc"], "century" if span >= 100 else "short")
    cx.interesting(len(ser.dates) > 3)
    r = D.unbox(case, cx.call(gc.climate_anomaly, D.boxed(case, da), freq, **D.kwargs(case)))
    U.need(r.sizes == dict(da.sizes) or dict(r.sizes) == dict(da.sizes), f"sizes {dict(r.sizes)} for input {dict(da.sizes)}")
    name = case["tname"]
    U.need(list(r[name].values) == list(da[name].values), "the time axis changed")
    got = result_tfirst(case, r.transpose(*da.dims), name)
    scale = np.nanmax(np.abs(x)) if not np.isnan(x).all() else 1.0
    U.close(got, want, f"climate_anomaly({freq})", rtol=D.tol(case), scale=scale)
    if freq in ("day", "month"):
        # independent law: anomalies of a bin average to zero
        for k, i in D.group([D.clim_key(freq, a) for a in ser.ymdh]).items():
            m = D.nanmean(got[i])
            U.close(np.nan_to_num(m), np.zeros_like(m), f"mean anomaly of bin {k}", atol=50 * D.tol(case) * scale)


# ---------------------------------------------------------------- month_to_season
@st.composite
def m2s_case(draw, tier="quick"):
    t = draw(D.month_series(12, 72 if tier == "quick" else 600, mult=12))
    if U.rarely(draw, 40):
        t["n"] = draw(st.sampled_from([1200, 1224, 1800]))
    return dict(season=draw(st.sampled_from(sorted(D.SEASONS))), t=t,
                **draw(payload_nan()))


@facet("C05", "month_to_season", lambda tier: m2s_case(tier), 1360, 8000, weight=3,
       rule="season x whole years of monthly data from any start month x calendar x stamp style; non-trivial when two years or more, or the record does not start in January")
def month_to_season(case, cx):
    ser = D.Series(case["t"])
    x, da = D.make(case, ser)
    middle = D.SEASONS[case["season"]][1]
    pos = {(a[0], a[1]): i for i, a in enumerate(ser.ymdh)}
    want, stamps = [], []
    for (y, m) in sorted(pos):
        if m == middle:
            rows = [x[pos[k]] for k in (D.add_months(y, m, -1), (y, m), D.add_months(y, m, 1)) if k in pos]
            want.append(D.nanmean(rows))
            stamps.append((y, m))
    cx.label(case["season"], ser.cal, case["t"]["enc"], "jan-start" if ser.ymdh[0][1] == 1 else "other-start")
    cx.interesting(len(stamps) >= 2 or ser.ymdh[0][1] != 1)
    kw = D.kwargs(dict(case, targ=case["targ"]), "time_coord_name")
    r = D.unbox(case, cx.call(gc.month_to_season, D.boxed(case, da), case["season"], **kw))
    name = case["tname"]
    got = result_tfirst(case, r, name)
    t = r[name]
    U.need(len(t) == len(stamps), f"{len(t)} seasons returned, expected {len(stamps)} (stamps {list(t.values)[:6]})")
    ym = list(zip(t.dt.year.values.tolist(), t.dt.month.values.tolist()))
    U.need(ym == stamps, f"season stamps {ym[:6]}, expected {stamps[:6]}")
    U.need(all(d == 1 for d in t.dt.day.values.tolist()), "season stamps are not at the start of the middle month")
    U.close(got, np.array(want), f"month_to_season({case['season']})", rtol=D.tol(case), scale=np.nanmax(np.abs(x)) if not np.isnan(x).all() else 1)


# ---------------------------------------------------------------- C06 configurations
@st.composite
def config_case(draw, tier="quick"):
    fn = draw(st.sampled_from(["calendar_average", "climatology_average", "climate_anomaly", "month_to_season"]))
    if fn == "month_to_season":
        freq = draw(st.sampled_from(sorted(D.SEASONS)))
        t = draw(D.month_series(12, 48, mult=12, years=D.YEARS))
    else:
        freq = draw(st.sampled_from(["day", "month", "season"] + (["year"] if fn != "climatology_average" else []) + (["hour"] if fn != "climate_anomaly" else [])))
        if freq == "hour":
            t = draw(D.step_series([60, 30], 24, 150, years=D.YEARS))
        elif freq == "day":
            t = draw(D.step_series([1440, 720], 20, 420, years=D.YEARS))
        else:
            t = draw(st.one_of(D.month_series(12, 48, years=D.YEARS), D.step_series([1440, 7200, 14400], 400, 600, years=D.YEARS)))
    t = dict(t, cal="proleptic_gregorian", enc="ns")
    p = draw(D.payload(nan=False))
    p.update(layout=draw(st.integers(1, len(D.LAYOUTS) - 1)), box="array", keep=draw(st.sampled_from([True, False])))
    return dict(fn=fn, freq=freq, t=t, variant=draw(st.sampled_from(["cftime", "dataset", "dataset2", "static", "transpose", "rename", "dask", "dask_time", "keep", "explicit_name"])),
                chunk=draw(st.integers(1, 40)), **p)


@facet("C06", "configurations", lambda tier: config_case(tier), 260, 4000, weight=10,
       rule="function x frequency x one configuration change (cftime dates, Dataset, two-variable Dataset, Dataset with a time-independent variable, transposed, renamed time, dask on time or space, attributes); all are non-trivial")
def configurations(case, cx):
    ser = D.Series(case["t"])
    x, da = D.make(case, ser)
    fn, freq, name, var = getattr(gc, case["fn"]), case["freq"], case["tname"], case["variant"]
    have = {(a[1] % 12) // 3 for a in ser.ymdh}
    if freq == "season" and have != {0, 1, 2, 3}:
        freq = "month"
    cx.label(case["fn"], freq, var)
    cx.interesting()
    akw = "time_coord_name" if case["fn"] == "month_to_season" else "time_dim"
    kw = {"keep_attrs": case["keep"]}
    if case["targ"]:
        kw[akw] = case["targ"]
    base = cx.call(fn, da, freq, **kw)
    U.need(isinstance(base, xr.DataArray), f"{case['fn']} returned {type(base).__name__} for a DataArray")
    tol, scale = D.tol(case), float(np.abs(x).max())

    def same(r, what, dims=None):
        r = r.transpose(*[dims[d] if dims else d for d in base.dims]) if set(r.dims) == {(dims or {}).get(d, d) for d in base.dims} else r
        U.close(r, base, f"{case['fn']}({freq}) {what}", rtol=tol, scale=scale)

    def times(r, nm, what):
        if name in base.coords and nm in r.coords and name in base.dims:
            a, b = base[name].values, r[nm].values
            D.stamp_close(a, [_cf(v) for v in b], "proleptic_gregorian", what)

    if var == "cftime":
        d2 = D.make(case, D.Series(dict(case["t"], enc="cf")))[1]
        r = cx.call(fn, d2, freq, **kw)
        same(r, "with cftime dates")
        times(r, name, "stamps with cftime dates")
    elif var == "dataset":
        r = cx.call(fn, da.to_dataset(), freq, **kw)
        U.need(isinstance(r, xr.Dataset) and "tas" in r, "Dataset in, no Dataset out")
        same(r["tas"], "within a Dataset")
        times(r, name, "stamps within a Dataset")
    elif var == "dataset2":
        other = D.make(dict(case, dtype="f8"), ser, stream=3)[1].rename("pr")
        r = cx.call(fn, xr.Dataset({"pr": other, "tas": da}), freq, **kw)
        same(r["tas"], "within a two-variable Dataset")
        r1 = cx.call(fn, other, freq, **kw)
        U.close(r["pr"].transpose(*r1.dims), r1, "second variable of a Dataset", rtol=1e-9, scale=300)
    elif var == "static":
        sea = xr.DataArray(np.arange(1.0, 4.0) * 37.5 + case["chunk"], dims=["basin"], name="oro")
        r = cx.call(fn, xr.Dataset({"oro": sea, "tas": da}), freq, **kw)
        same(r["tas"], "next to a variable without time")
        times(r, name, "stamps next to a variable without time")
        if "oro" in r and case["fn"] != "climate_anomaly":
            z = r["oro"].transpose(..., "basin").values
            U.close(z, np.broadcast_to(sea.values, z.shape), f"{case['fn']}({freq}): average of a variable without time", rtol=1e-9)
    elif var == "transpose":
        r = cx.call(fn, da.transpose(*da.dims[::-1]), freq, **kw)
        same(r, "on transposed data")
        times(r, name, "stamps on transposed data")
    elif var == "rename":
        d2 = da.rename({name: "zeit"})
        kw2 = dict(kw)
        kw2[akw] = "zeit"
        r = cx.call(fn, d2, freq, **kw2)
        same(r, "with another time name", {d: ("zeit" if d == name else d) for d in base.dims})
        times(r, "zeit", "stamps with another time name")
    elif var == "explicit_name":
        kw2 = dict(kw)
        kw2[akw] = name
        r = cx.call(fn, da, freq, **kw2)
        same(r, "with the time name given")
        times(r, name, "stamps with the time name given")
    elif var == "dask":
        r = cx.call(fn, da.chunk({d: 1 for d in da.dims if d != name}), freq, **kw)
        same(cx.call(lambda: r.compute()), "on space-chunked data")
        times(r, name, "stamps on chunked data")
    elif var == "dask_time":
        r = cx.call(fn, da.chunk({name: case["chunk"]}), freq, **kw)
        same(cx.call(lambda: r.compute()), "on time-chunked data")
        times(r, name, "stamps on chunked data")
    else:
        for keep in (True, False):
            r = cx.call(fn, da, freq, **dict(kw, keep_attrs=keep))
            same(r, f"keep_attrs={keep}")
            want = dict(da.attrs) if keep else {}
            U.need(dict(r.attrs) == want, f"{case['fn']}({freq}, keep_attrs={keep}) has attrs {dict(r.attrs)}")
            rd = cx.call(fn, da.to_dataset().assign_attrs({"title": "t"}), freq, **dict(kw, keep_attrs=keep))
            want = {"title": "t"} if keep else {}
            U.need(dict(rd.attrs) == want, f"{case['fn']}({freq}, keep_attrs={keep}) of a Dataset has attrs {dict(rd.attrs)}")
    if name in base.dims:
        other_dims_kept(case, da, base.transpose(*da.dims), name)
    if case["scalar_coord"]:
        U.need("height" in base.coords, "scalar coordinate lost")


@st.composite
def combined_case(draw, tier="quick"):
    case = dict(draw(config_case(tier)), variant="combined")
    case["gaps"] = draw(st.sampled_from([0, 0, 0.1, 0.4])) if case["fn"] != "month_to_season" else 0
    every = ["cftime", "dataset", "static", "transpose", "rename", "dask", "name", "member", "issued"]
    case["changes"] = sorted(draw(st.lists(st.sampled_from(every), min_size=2, max_size=5, unique=True)))
    return case


@facet("C06", "combined", lambda tier: combined_case(tier), 120, 4000, weight=10,
       rule="function x frequency x two to five configuration changes at once (cftime dates, in a Dataset, next to a variable without time, transposed, renamed time, chunks along all dimensions, explicit name, a further leading dimension, a second time axis that must be left alone), with and without missing samples; all are non-trivial")
def combined(case, cx):
    ser = D.Series(case["t"])
    x, da = D.make(case, ser)
    fn, freq, name, todo = getattr(gc, case["fn"]), case["freq"], case["tname"], set(case["changes"])
    if freq == "season" and {(a[1] % 12) // 3 for a in ser.ymdh} != {0, 1, 2, 3}:
        freq = "month"
    if case["gaps"]:
        da = da.where(xr.DataArray(U.uniform(case["data"], da.size, 31).reshape(da.shape) >= case["gaps"], dims=da.dims), other=np.nan)
    cx.label(case["fn"], freq, *todo)
    cx.interesting()
    akw = "time_coord_name" if case["fn"] == "month_to_season" else "time_dim"
    kw = {"keep_attrs": case["keep"]}
    if case["targ"]:
        kw[akw] = case["targ"]
    base = cx.call(fn, da, freq, **kw)
    tol, scale = D.tol(case), float(np.abs(x).max())
    d2 = da
    if "cftime" in todo:
        t2 = D.make(case, D.Series(dict(case["t"], enc="cf")))[1][name]
        d2 = d2.assign_coords({name: t2})
    if "member" in todo:
        d2 = xr.concat([d2, d2 * 0 + 1.5, -d2], dim="realm").assign_attrs(da.attrs).rename(da.name)
    if "issued" in todo:
        # forecasts issued on two dates: a second time axis, so that the one to average over has to be named
        mark = case["chunk"] % 3
        two = xr.DataArray(np.array(["1999-01-01", "1999-02-01"], "M8[ns]"), dims=["issued"], attrs=[{"axis": "T"}, {"standard_name": "time"}, {}][mark])
        d2 = xr.concat([d2, 2.5 - d2], dim="issued").assign_coords(issued=two).assign_attrs(da.attrs).rename(da.name)
    if "transpose" in todo:
        d2 = d2.transpose(*d2.dims[::-1])
    new = "zeit" if "rename" in todo else name
    if new != name:
        d2 = d2.rename({name: new})
    kw2 = dict(kw)
    if akw in kw or new != name or todo & {"name", "issued"}:
        kw2[akw] = new
    if "static" in todo:
        d2 = xr.Dataset({"oro": xr.DataArray(np.arange(3.0), dims=["basin"]), "tas": d2})
    elif "dataset" in todo:
        d2 = xr.Dataset({"tas": d2})
    if "dask" in todo:
        d2 = d2.chunk({d: case["chunk"] if d == new else 1 for d in d2.dims})
    r = cx.call(fn, d2, freq, **kw2)
    U.need(type(r) is type(d2), f"{type(d2).__name__} in, {type(r).__name__} out")
    if isinstance(r, xr.Dataset):
        r = r["tas"]
    if "dask" in todo:
        r = cx.call(lambda: r.compute())
    what = f"{case['fn']}({freq}) with {', '.join(sorted(todo))}"
    if "member" in todo:
        r = r.isel(realm=0)
    if "issued" in todo:
        U.need(r.sizes.get("issued") == 2, f"{what}: the other time axis changed")
        r = r.isel(issued=0)
    dims = [new if d == name else d for d in base.dims]
    U.need(set(r.dims) == set(dims), f"{what}: dimensions {r.dims}, expected {dims}")
    U.close(r.transpose(*dims), base, what, rtol=tol, scale=scale)
    if name in base.coords and name in base.dims:
        D.stamp_close(base[name].values, [_cf(v) for v in r[new].values], "proleptic_gregorian", what)
    for d in base.dims:
        if d != name and d in base.coords:
            U.need(d in r.coords and list(r[d].values) == list(base[d].values), f"{what}: labels of {d} changed")


def _cf(v):
    import cftime
    import pandas as pd

    if isinstance(v, cftime.datetime):
        return cftime.DatetimeProlepticGregorian(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
    p = pd.Timestamp(v)
    return cftime.DatetimeProlepticGregorian(p.year, p.month, p.day, p.hour, p.minute, p.second, p.microsecond)


for _p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    ASSUMPTIONS[_p] = ["cftime's own date arithmetic is trusted", "records have no calendar gaps (the documented precondition of uniform or one-per-month sampling)"]
