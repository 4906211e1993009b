"""Time series with explicit calendar fields, and the reference climatology model.

The reference works on Python tuples (year, month, day, hour, ...) taken from cftime
or numpy dates, plain dict binning and float64 loops; it shares nothing with the
resample/groupby machinery of the code under test.
"""
import datetime as dt

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from . import util as U

CALS = ["standard", "proleptic_gregorian", "noleap", "all_leap", "360_day", "julian"]
TYPES = {
    "standard": cftime.DatetimeGregorian, "proleptic_gregorian": cftime.DatetimeProlepticGregorian, "noleap": cftime.DatetimeNoLeap,
    "all_leap": cftime.DatetimeAllLeap, "360_day": cftime.Datetime360Day, "julian": cftime.DatetimeJulian,
}
SEASONS = {
    "DJF": (12, 1, 2), "JFM": (1, 2, 3), "FMA": (2, 3, 4), "MAM": (3, 4, 5), "AMJ": (4, 5, 6), "MJJ": (5, 6, 7),
    "JJA": (6, 7, 8), "JAS": (7, 8, 9), "ASO": (8, 9, 10), "SON": (9, 10, 11), "OND": (10, 11, 12), "NDJ": (11, 12, 1),
}
LAYOUTS = [
    dict(dims=["T"]), dict(dims=["T", "x"], sizes=[3]), dict(dims=["x", "T"], sizes=[2]),
    dict(dims=["T", "y", "x"], sizes=[2, 3]), dict(dims=["y", "T", "x"], sizes=[2, 2]), dict(dims=["y", "x", "T"], sizes=[3, 2]),
    dict(dims=["T", "y"], sizes=[1]),
]


def month_days(cal, y, m):
    if cal == "360_day":
        return 30
    n = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    if m == 2:
        if cal == "all_leap":
            n = 29
        elif cal == "julian":
            n = 29 if y % 4 == 0 else 28
        elif cal == "standard" and y <= 1582:
            n = 29 if y % 4 == 0 else 28
        elif cal in ("standard", "proleptic_gregorian"):
            n = 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28
    return n


def add_months(y, m, k):
    z = y * 12 + (m - 1) + k
    return z // 12, z % 12 + 1


class Series:
    """Dates of a time spec: .dates (cftime objects), .index (what the input carries)."""

    def __init__(self, spec):
        self.spec = spec
        cal = self.cal = spec["cal"]
        enc = spec["enc"]
        y, m, d, hh, mi = spec["start"]
        if enc != "cf" and y + (spec["n"] * spec["step"] // 525000 if spec["kind"] == "step" else spec["n"] // 12) > 2255:
            y -= 200  # keep within what nanosecond dates can express
        if spec["kind"] == "step":
            d = min(d, month_days(cal, y, m))
            t0 = TYPES[cal](y, m, d, hh, mi)
            step = dt.timedelta(minutes=spec["step"])
            self.dates = [t0 + k * step for k in range(spec["n"])]
        else:
            out = []
            for k in range(spec["n"]):
                yy, mm = add_months(y, m, k)
                nd = month_days(cal, yy, mm)
                style = spec["day"]
                if style == "first":
                    dd, h = 1, 0
                elif style == "mid":
                    dd, h = 15, 12
                elif style == "last":
                    dd, h = nd, 0
                elif style == "cesm":  # mid-month computed from bounds, hours vary
                    dd, h = 1 + nd // 2, 12 * (nd % 2)
                else:  # ragged
                    dd, h = 1 + int(U.uniform(spec["n"] * 31 + k, 1)[0] * nd), (5 * k) % 24
                out.append(TYPES[cal](yy, mm, dd, h))
            self.dates = out
        if enc == "cf":
            self.index = np.array(self.dates, dtype=object)
        else:
            self.index = np.array([to_np(x) for x in self.dates], dtype="datetime64[us]").astype(f"datetime64[{enc}]")
        self.ymdh = [(x.year, x.month, x.day, x.hour) for x in self.dates]


def to_np(x):
    return np.datetime64(
        f"{x.year:04d}-{x.month:02d}-{x.day:02d}T{x.hour:02d}:{x.minute:02d}:{x.second:02d}.{x.microsecond:06d}", "us"
    )


def make(case, ser, stream=0):
    """(time-first float64 data, DataArray)"""
    lay = LAYOUTS[case["layout"]]
    tname = case.get("tname", "time")
    dims = [tname if d == "T" else d for d in lay["dims"]]
    sizes = list(lay.get("sizes", []))
    shape = tuple(len(ser.dates) if d == "T" else sizes.pop(0) for d in lay["dims"])
    dtype = case.get("dtype", "f8")
    if dtype.startswith("i"):
        raw = np.floor(U.field(case["data"], shape, -500, 500, stream)).astype(np.dtype(dtype))
    else:
        raw = (case.get("offset", 0.0) + U.field(case["data"], shape, -20, 20, stream)).astype(np.dtype(dtype))
    if case.get("nan") and not dtype.startswith("i"):
        mask = U.uniform(case["data"], raw.size, 50 + stream).reshape(shape) < case["nan"]
        raw[mask] = np.nan
    coords = {tname: (tname, ser.index, dict(case.get("tattrs") or {}))}
    for d, n in zip(dims, shape):
        if d in ("x", "y"):
            coords[d] = (d, np.arange(n) * 2.5 + (10 if d == "y" else 0), {"units": "deg"})
    if case.get("scalar_coord"):
        coords["height"] = 2.0
    da = xr.DataArray(raw, dims=dims, coords=coords, name="tas", attrs={"units": "K", "long_name": "temperature"})
    tfirst = np.moveaxis(raw.astype(np.float64), dims.index(tname), 0)
    return tfirst, da


def mid(cal, a, b):
    """Midpoint of two (y, m, d, h) instants, as cftime."""
    p, q = TYPES[cal](*a), TYPES[cal](*b)
    return p + (q - p) / 2


def next_day(cal, y, m, d):
    return (y, m, d + 1) if d < month_days(cal, y, m) else add_months(y, m, 1) + (1,)


def season_start(y, m):
    """Start (year, month) of the DJF/MAM/JJA/SON quarter holding (y, m)."""
    return add_months(y, m, -(m % 3))


def bounds(freq, cal, ymdh):
    y, m, d, h = ymdh
    if freq == "hour":
        e = (y, m, d, h + 1) if h < 23 else next_day(cal, y, m, d) + (0,)
        return (y, m, d, h), e
    if freq == "day":
        return (y, m, d, 0), next_day(cal, y, m, d) + (0,)
    if freq == "month":
        return (y, m, 1, 0), add_months(y, m, 1) + (1, 0)
    if freq == "season":
        s = season_start(y, m)
        return s + (1, 0), add_months(*s, 3) + (1, 0)
    return (y, 1, 1, 0), (y + 1, 1, 1, 0)


def nanmean(rows):
    """Mean over axis 0 of the valid values, NaN where there are none."""
    a = np.asarray(rows, dtype=np.float64)
    ok = ~np.isnan(a)
    n = ok.sum(0)
    s = np.where(ok, a, 0.0).sum(0)
    return np.where(n > 0, s / np.maximum(n, 1), np.nan)


def wmean(rows, w):
    a = np.asarray(rows, dtype=np.float64)
    w = np.asarray(w, dtype=np.float64).reshape((-1,) + (1,) * (a.ndim - 1))
    ok = ~np.isnan(a)
    den = np.where(ok, w, 0.0).sum(0)
    num = np.where(ok, a, 0.0) * w
    return np.where(den > 0, num.sum(0) / np.where(den > 0, den, 1), np.nan)


def group(keys):
    g = {}
    for i, k in enumerate(keys):
        g.setdefault(k, []).append(i)
    return g


def monthly_means(ser, x):
    """[(y, m)], [mean]"""
    g = group([(a[0], a[1]) for a in ser.ymdh])
    ks = sorted(g)
    return ks, [nanmean(x[g[k]]) for k in ks]


def ref_calendar(ser, x, freq):
    """values (period, ...), stamps [cftime]"""
    cal = ser.cal
    if freq in ("hour", "day", "month"):
        g = group([bounds(freq, cal, a) for a in ser.ymdh])
        ks = sorted(g)
        return np.array([nanmean(x[g[k]]) for k in ks]), [mid(cal, *k) for k in ks]
    ks, mm = monthly_means(ser, x)
    g = group([bounds(freq, cal, (y, m, 1, 0)) for y, m in ks])
    per = sorted(g)
    vals = [wmean([mm[i] for i in g[k]], [month_days(cal, *ks[i]) for i in g[k]]) for k in per]
    return np.array(vals), [mid(cal, *k) for k in per]


def clim_key(freq, a):
    return {"hour": a[1:4], "day": a[1:3], "month": a[1:2], "year": a[0:1]}[freq]


def ref_clim(ser, x, freq):
    """keys, values for hour/day/month"""
    g = group([clim_key(freq, a) for a in ser.ymdh])
    ks = sorted(g)
    return ks, np.array([nanmean(x[g[k]]) for k in ks])


def ref_season_clim(ser, x, seasons):
    ks, mm = monthly_means(ser, x)
    out = []
    for s in seasons:
        i = [j for j, k in enumerate(ks) if k[1] in SEASONS[s]]
        out.append(wmean([mm[j] for j in i], [month_days(ser.cal, *ks[j]) for j in i]))
    return np.array(out)


def stamp_close(got, want, cal, what, tol_s=1.0):
    """A returned time coordinate against cftime midpoints."""
    got = np.asarray(got)
    U.need(len(got) == len(want), f"{what}: {len(got)} periods, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(g, cftime.datetime):
            U.need(_same_cal(g.calendar, cal), f"{what}: stamps are in calendar {g.calendar!r}, data in {cal!r}")
            g2 = type(w)(g.year, g.month, g.day, g.hour, g.minute, g.second, g.microsecond)
            diff = abs((g2 - w).total_seconds())
        else:
            diff = abs((np.datetime64(g).astype("datetime64[us]") - to_np(w)) / np.timedelta64(1, "s"))
        U.need(diff <= tol_s, f"{what}: stamp {i} is {g}, expected {w}")


def _same_cal(a, b):
    alias = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}
    return alias.get(a, a) == alias.get(b, b)


# ------------------------------------------------------------------ strategies
YEARS = st.one_of(
    st.sampled_from([1999, 2000, 2001, 2003, 2004, 1900, 2100, 1896, 1903, 2096]), st.integers(1700, 2240), st.integers(1950, 2050)
)
CF_YEARS = st.one_of(YEARS, st.sampled_from([2, 3, 850, 1000, 9990]), st.integers(2, 3000))


@st.composite
def calendars(draw, years=None):
    enc = draw(st.sampled_from(["ns", "ns", "cf", "cf", "us", "s"]))
    if enc == "cf":
        cal = draw(st.sampled_from(CALS))
        y = draw(years or CF_YEARS)
        if cal in ("standard",) and 1570 < y < 1595:
            y += 50
    else:
        cal, y = "proleptic_gregorian", draw(years or YEARS)
    return enc, cal, y


@st.composite
def step_series(draw, steps, nmin, nmax, years=None):
    enc, cal, y = draw(calendars(years))
    start = [y, draw(st.integers(1, 12)), draw(st.sampled_from([1, 1, 2, 15, 27, 28, 29, 30, 31])),
             draw(st.sampled_from([0, 0, 1, 6, 12, 18, 23])), draw(st.sampled_from([0, 0, 0, 30, 17]))]
    return dict(kind="step", cal=cal, enc=enc, start=start, step=draw(st.sampled_from(steps)), n=draw(st.integers(nmin, nmax)))


@st.composite
def month_series(draw, nmin=3, nmax=60, mult=1, years=None):
    enc, cal, y = draw(calendars(years))
    n = mult * draw(st.integers(-(-nmin // mult), nmax // mult))
    return dict(kind="month", cal=cal, enc=enc, start=[y, draw(st.integers(1, 12)), 1, 0, 0], n=n,
                day=draw(st.sampled_from(["first", "mid", "last", "cesm", "ragged"])))


@st.composite
def long_series(draw, freq):
    """More than a century of months, decades of days, or a year of hours."""
    enc, cal, y = draw(calendars())
    start = [y, draw(st.integers(1, 12)), 1, 0, 0]
    if freq == "hour":
        return dict(kind="step", cal=cal, enc=enc, start=start, step=draw(st.sampled_from([60, 30])), n=draw(st.sampled_from([8761, 5000])))
    if freq == "day":
        return dict(kind="step", cal=cal, enc=enc, start=start, step=1440, n=draw(st.sampled_from([3653, 11000])))
    n = draw(st.sampled_from([1201, 1212, 1500, 2405]))
    return dict(kind="month", cal=cal, enc=enc, start=start, n=n, day=draw(st.sampled_from(["first", "mid", "last"])))


@st.composite
def payload(draw, nan=False, ints=True):
    tname, targ, tattrs = draw(st.sampled_from([
        ("time", None, {}), ("time", "time", {}), ("t_ax", "t_ax", {}), ("Times", None, {"standard_name": "time"}), ("when", None, {"axis": "T"})]))
    return dict(layout=draw(st.integers(0, len(LAYOUTS) - 1)), data=draw(U.seeds), tname=tname, targ=targ, tattrs=tattrs,
                dtype=draw(st.sampled_from(["f8", "f8", "f4"] + (["i4", "i8"] if ints else []))),
                offset=draw(st.sampled_from([0.0, 280.0])), scalar_coord=draw(st.booleans()),
                box=draw(st.sampled_from(["array", "array", "dataset"])),
                keep=draw(st.sampled_from(["omit", None, True, False])),
                nan=draw(st.sampled_from([0, 0, 0.1, 0.5, 0.9])) if nan else 0)


def tol(case):
    return 3e-5 if case.get("dtype") == "f4" else 1e-9


def boxed(case, da):
    if case.get("box") == "dataset":
        return da.to_dataset().assign_attrs({"title": "case"})
    return da


def unbox(case, r):
    if case.get("box") == "dataset":
        U.need(isinstance(r, xr.Dataset), f"Dataset in, {type(r).__name__} out")
        U.need(list(r.data_vars) == ["tas"], f"variables {list(r.data_vars)} returned for ['tas']")
        return r["tas"]
    U.need(isinstance(r, xr.DataArray), f"DataArray in, {type(r).__name__} out")
    return r


def kwargs(case, name="time_dim"):
    kw = {}
    if case.get("targ"):
        kw[name] = case["targ"]
    if case.get("keep", "omit") != "omit":
        kw["keep_attrs"] = case["keep"]
    return kw
