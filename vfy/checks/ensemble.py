"""X06: members stacked along a dimension a function does not act on are processed independently."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..core import Skip, facet
from ..recipes import RANGES, RECIPES, small_uxds

# recipe -> (kinds, arguments that differ between members, how far they may differ)
WIDE, NARROW = ["other", "other", "huge", "tiny", "missing", "holes", "holes", "const", "negative"], ["other", "other", "missing", "holes", "const"]
SPEC = {}
for _n in RANGES:
    SPEC[_n] = (("xr",), "all", NARROW)
for _n in ("fourier_low_pass", "fourier_high_pass", "fourier_band_pass", "fourier_band_block"):
    SPEC[_n] = (("xr", "np"), [0], WIDE)
SPEC["calendar_average"] = (("day", "month", "season", "year"), [0], WIDE)
SPEC["climatology_average"] = (("day", "month", "season"), [0], WIDE)
SPEC["climate_anomaly"] = (("day", "month", "season", "year"), [0], WIDE)
SPEC["month_to_season"] = (("DJF", "MAM", "JJA", "ASO", "NDJ"), [0], WIDE)
SPEC["interp_hybrid_to_pressure"] = (("linear", "log"), [0, 1], NARROW)
SPEC["interp_hybrid_to_pressure extrapolate"] = (("temperature", "geopotential", "other"), [0, 1, "t_bot", "phi_sfc"], NARROW)
SPEC["interp_sigma_to_hybrid"] = (("linear", "log"), [0, 2], NARROW)
SPEC["interp_multidim"] = (("xr", "cyclic", "nearest", "missing", "missing"), [0], WIDE + ["fill"])
SPEC["pressure_at_hybrid_levels"] = (("xr",), [0], NARROW)
SPEC["delta_pressure_hybrid"] = (("xr",), [0], NARROW)
SPEC["delta_pressure"] = (("xr",), [1], NARROW[:2] + ["const"])
SPEC["nmse"] = (("xr", "ds"), [0, 1], ["other", "missing", "holes", "huge", "negative"])
SPEC["pearson_r"] = (("xr", "ds"), [0, 1], WIDE)
# arguments that are pressures: missing members excepted, they stay near their values
PRESSURE = {"interp_hybrid_to_pressure": {1}, "interp_hybrid_to_pressure extrapolate": {1, "t_bot", "phi_sfc"}, "interp_sigma_to_hybrid": {2},
            "pressure_at_hybrid_levels": {0}, "delta_pressure_hybrid": {0}, "delta_pressure": {1}}
NAMES = sorted(SPEC)


def member(x, how, s, k, gentle):
    """The argument as another member has it."""
    def f(v):
        if v.dtype.kind != "f":
            return v
        if how == "full":
            return np.where(v == -999, 1.5, v)
        if how == "missing":
            return np.full_like(v, np.nan) if not gentle else v * 0.99
        if how == "holes":
            m = U.uniform(s, v.size, 90 + k).reshape(v.shape) < 0.25
            return np.where(m, np.nan, v).astype(v.dtype) if not gentle else v * 1.01
        if how == "fill":  # the value that marks missing cells of interp_multidim, with and without one in the field itself
            m = U.uniform(s, v.size, 90 + k).reshape(v.shape) < 0.25
            return np.where(m, -999.0, np.where(v == -999, 1.5, v)).astype(v.dtype)
        if how == "const":
            return np.full_like(v, v.flat[s % v.size] if np.isfinite(v.flat[s % v.size]) else 1.0)
        if gentle or how == "other":
            return v * (1 - 0.002 * (1 + k)) if gentle else (v * (0.93 + 0.06 * U.field(s, v.shape, 0, 1, 70 + k)))
        return {"huge": v * 1e6 + 3e5, "tiny": v * 1e-7, "negative": -v - 2}[how]
    if isinstance(x, xr.Dataset):
        return x.map(lambda d: d.copy(data=f(d.values)), keep_attrs=True)
    return x.copy(data=f(x.values)) if isinstance(x, xr.DataArray) else f(x)


def stack(xs, where, labels):
    """Members along a new dimension, anywhere among the others."""
    if isinstance(xs[0], np.ndarray):
        return np.stack(xs, axis=0)
    out = xr.concat(xs, dim=xr.DataArray(labels, dims=["member"], name="member"), combine_attrs="override", coords="minimal", compat="override", join="override")

    def place(d):
        dims = [q for q in d.dims if q != "member"]
        at = where % (len(dims) + 1)
        return d.transpose(*dims[:at], "member", *dims[at:])
    if isinstance(out, xr.Dataset):
        return out.map(place, keep_attrs=True) if all("member" in v.dims for v in out.data_vars.values()) else out
    return place(out)


@st.composite
def members_case(draw, tier="quick"):
    fn = draw(st.sampled_from(NAMES))
    kinds, which, hows = SPEC[fn]
    n = draw(st.integers(2, 3 if tier == "quick" else 5))
    return dict(fn=fn, kind=draw(st.sampled_from(kinds)), seed=draw(st.integers(0, 50000)), how=[draw(st.sampled_from(hows)) for _ in range(n - 1)],
                at=draw(st.integers(0, n - 1)), where=draw(st.integers(0, 3)), labels=draw(st.sampled_from(["num", "str", "dup"])))


@facet("X06", "members", lambda tier: members_case(tier), 3000, 24000,
       rule="a public function x a field x other members (another field, all missing, constant, of another magnitude or sign) x where the extra dimension stands; counts when the members differ")
def members(case, cx):
    fn_name, s = case["fn"], case["seed"]
    rec = RECIPES[fn_name]
    fn, args, kw = rec.build(s, case["kind"])
    kinds, which, _h = SPEC[fn_name]
    which = list(range(len(args))) if which == "all" else which
    n = len(case["how"]) + 1
    if fn_name == "interp_sigma_to_hybrid" and case["labels"] == "dup":
        raise Skip("its columns are told apart by their labels")
    labels = {"num": list(np.arange(n) * 10 - 5), "str": [f"r{i}" for i in range(n)], "dup": [7] * n}[case["labels"]]
    cx.label("fn:" + fn_name, *("other:" + h for h in case["how"]))
    cx.interesting()
    hows = list(case["how"])
    hows.insert(case["at"] % n, "full" if case["kind"] == "missing" and s % 2 else None)
    runs = []
    for k, how in enumerate(hows):
        a, q = list(args), dict(kw)
        for w in which:
            box, key = (q, w) if isinstance(w, str) else (a, w)
            if how:
                box[key] = member(box[key], how, s, k, w in PRESSURE.get(fn_name, ()))
        runs.append((a, q))
    a, q = list(args), dict(kw)
    for w in which:
        box, key = (q, w) if isinstance(w, str) else (a, w)
        box[key] = stack([(r[1] if isinstance(w, str) else r[0])[w] for r in runs], case["where"], labels)
    if "fourier" in fn_name:
        if case["kind"] == "np":
            q["time_axis"] += 1
        else:
            q["time_axis"] = a[0].dims.index(args[0].dims[q["time_axis"]])
    if fn_name == "interp_multidim":  # latitude and longitude stay last
        a[0] = a[0].transpose("member", *args[0].dims) if case["where"] % 2 or args[0].ndim < 3 else a[0].transpose(args[0].dims[0], "member", *args[0].dims[1:])
    got = cx.call(fn, *a, **q)
    for k, (ra, rq) in enumerate(runs):
        want = cx.call(fn, *ra, **rq)
        what = f"{fn_name} {case['kind']}: member {k} ({hows[k] or 'the field'}) among {n}"
        first = ra[which[0]] if not isinstance(which[0], str) else rq[which[0]]
        compare(got, want, k, what, max(magnitude(want), magnitude(first)))


def scaled(x, f):
    """The argument multiplied by ``f``: one number, or one per member along a new first dimension."""
    if isinstance(x, xr.Dataset):
        return x.map(lambda d: scaled(d, f), keep_attrs=True)
    v = x.values if isinstance(x, xr.DataArray) else x
    many = np.ndim(f) == 1
    if v.dtype.kind == "f":
        v = v * (f.reshape((-1,) + (1,) * v.ndim) if many else f).astype(v.dtype)
    elif many:
        v = np.repeat(v[None], len(f), axis=0)
    if isinstance(x, xr.DataArray):
        return xr.DataArray(v, dims=(("member",) if many else ()) + x.dims, coords=x.drop_vars("member", errors="ignore").coords, attrs=x.attrs, name=x.name)
    return v


@st.composite
def crowd_case(draw, tier="quick"):
    fn = draw(st.sampled_from(NAMES))
    sizes = [70, 150] if fn in ("interp_sigma_to_hybrid", "delta_pressure") else [130, 300, 1100, 2600] + ([12000, 70000] if tier == "thorough" else [])
    return dict(fn=fn, kind=draw(st.sampled_from(SPEC[fn][0])), seed=draw(st.integers(0, 50000)), n=draw(st.sampled_from(sizes)), last=draw(st.booleans()))


@facet("X06", "many members", lambda tier: crowd_case(tier), 120, 2500, weight=6,
       rule="as 'members' with 70 to 2600 members (thorough: 70000) along the first or last dimension; the first, the last and three others are compared with the member alone; all are non-trivial")
def crowd(case, cx):
    name, s, n = case["fn"], case["seed"], case["n"]
    rec = RECIPES[name]
    fn, args, kw = rec.build(s, case["kind"])
    which = SPEC[name][1]
    which = list(range(len(args))) if which == "all" else which
    cx.label("fn:" + name, f"n{n}")
    cx.interesting()
    wide = 0.93 + 0.06 * U.uniform(s, n, 71)
    near = 1 - 0.008 * U.uniform(s, n, 72)

    def call(f, g, place):
        a, q = list(args), dict(kw)
        for w in which:
            box, key = (q, w) if isinstance(w, str) else (a, w)
            box[key] = place(scaled(box[key], g if w in PRESSURE.get(name, ()) else f))
        return a, q

    multi = name == "interp_multidim"

    def last(x):
        if isinstance(x, xr.Dataset):
            return x.map(last, keep_attrs=True)
        return x.transpose(..., "member") if isinstance(x, xr.DataArray) and case["last"] and not multi else x

    a, q = call(wide, near, last)
    if "fourier" in name:
        q["time_axis"] = q["time_axis"] + 1 if case["kind"] == "np" else a[0].dims.index(args[0].dims[q["time_axis"]])
    got = cx.call(fn, *a, **q)
    for k in sorted({0, n - 1, *(int(v) for v in U.uniform(s, 3, 73) * n)}):
        ra, rq = call(wide[k], near[k], lambda x: x)
        want = cx.call(fn, *ra, **rq)
        first = ra[which[0]] if not isinstance(which[0], str) else rq[which[0]]
        compare(got, want, k, f"{name} {case['kind']}: member {k} of {n}", max(magnitude(want), magnitude(first)))


def compare(got, want, k, what, scale):
    if isinstance(want, np.ndarray):
        return U.close(got[k], want, what, 1e-9, scale=scale)
    U.need(type(got) is type(want), f"{what}: {type(got).__name__} instead of {type(want).__name__}")
    if isinstance(want, xr.Dataset):
        U.need(set(got.data_vars) == set(want.data_vars), f"{what}: variables {sorted(map(str, got.data_vars))}")
        for v in want.data_vars:
            compare(got[v], want[v], k, f"{what}, variable {v}", scale)
        return
    U.need(set(got.dims) == set(want.dims) | {"member"}, f"{what}: dims {got.dims}, alone {want.dims}")
    one = got.isel(member=k).transpose(*want.dims)
    U.close(one, want, what, 1e-9, scale=scale)
    for c in want.coords:
        U.need(c in one.coords, f"{what}: coordinate {c} is lost")
        if want[c].dtype.kind in "fiu" and "member" not in got[c].dims and c != "hlev":  # target levels are labelled by one column
            U.close(one[c].transpose(*want[c].dims), want[c], f"{what}: coordinate {c}", 1e-12)


def magnitude(a):
    if isinstance(a, xr.Dataset):
        return max(magnitude(a[v]) for v in a.data_vars)
    v = np.abs(np.asarray(U.plain(a), float))
    v = v[np.isfinite(v)]
    return 1e-3 * float(v.max()) if v.size and v.max() > 0 else 1e-12


# ---------------------------------------------------------------- requested points
TARGETS = ["interp_hybrid_to_pressure", "interp_hybrid_to_pressure extrapolate", "interp_sigma_to_hybrid", "interp_multidim", "max_daylight", "zonal_meridional_psi",
           "pressure_at_hybrid_levels"]


@st.composite
def target_case(draw, tier="quick"):
    fn = draw(st.sampled_from(TARGETS))
    kinds = [k for k in RECIPES[fn].kinds if k not in ("list", "missing")]
    return dict(fn=fn, kind=draw(st.sampled_from(kinds)), seed=draw(st.integers(0, 50000)), pick=draw(st.lists(st.integers(0, 40), min_size=1, max_size=3, unique=True)),
                times=draw(st.sampled_from(["other", "missing"])))


@facet("X06", "requested points", lambda tier: target_case(tier), 500, 8000,
       rule="a function that evaluates at requested levels, points or days x a selection of the requests (in any order); counts when the selection leaves some out or reorders them")
def targets(case, cx):
    name, s = case["fn"], case["seed"]
    rec = RECIPES[name]
    fn, args, kw = rec.build(s, case["kind"])
    args, kw = list(args), dict(kw)
    cx.label("fn:" + name)
    what = f"{name} {case['kind']}"

    def pick(n):
        o = []
        for p in case["pick"]:
            if p % n not in o:
                o.append(p % n)
        cx.interesting(o != list(range(n)))
        return o

    if name.startswith("interp_hybrid"):
        levels = kw.get("new_levels")
        if levels is None:
            levels = np.array([100000.0, 92500, 85000, 70000, 50000, 40000, 30000, 25000, 20000, 15000, 10000, 7000, 5000, 3000, 2000, 1000])
            kw["new_levels"] = levels
        o = pick(len(levels))
        full, part = cx.call(fn, *args, **kw), cx.call(fn, *args, **dict(kw, new_levels=levels[o]))
        U.close(part, full.isel(plev=o).transpose(*part.dims), what + ": selected levels", 1e-9, scale=magnitude(full))
    elif name == "interp_sigma_to_hybrid" or name == "pressure_at_hybrid_levels":
        i, j = (3, 4) if name.startswith("interp") else (1, 2)
        o = pick(len(args[i]))
        full = cx.call(fn, *args, **kw)
        a2 = list(args)
        a2[i], a2[j] = (args[q][o] if isinstance(args[q], np.ndarray) else args[q].isel({args[q].dims[0]: o}) for q in (i, j))
        part = cx.call(fn, *a2, **kw)
        if isinstance(full, np.ndarray):
            return U.close(part, full[o], what + ": selected levels", 1e-12)
        d = "hlev" if name.startswith("interp") else "lev"
        U.close(part, full.isel({d: o}).transpose(*part.dims), what + ": selected levels", 1e-9, scale=magnitude(full))
    elif name == "interp_multidim":
        la, lo = args[1], args[2]
        oa, oo = pick(len(la)), pick(len(lo))
        full = U.plain(cx.call(fn, *args, **kw))
        a2 = list(args)
        a2[1], a2[2] = la[sorted(oa)], lo[sorted(oo)]
        part = U.plain(cx.call(fn, *a2, **kw))
        U.close(part, full[..., sorted(oa), :][..., sorted(oo)], what + ": selected points", 1e-9, scale=magnitude(full))
    elif name == "max_daylight":
        d, l = args
        od, ol = pick(len(d)), pick(len(l))
        full = cx.call(fn, d, l)
        part = cx.call(fn, d[od], l[ol])
        U.close(part, U.plain(full)[od][:, ol], what + ": selected days and latitudes", 1e-12)
        if isinstance(full, xr.DataArray):
            U.close(full["doy"], d, what + ": days", 1e-6)
            U.close(full["lat"], l, what + ": latitudes", 1e-6)
            U.close(part["doy"], d[od], what + ": days", 1e-6)
            U.close(part["lat"], l[ol], what + ": latitudes", 1e-6)
    else:
        nt, nlev = 3, 2 + s % 4
        ds = small_uxds(s, nlev, nt, bool(s % 3 == 0), case["kind"] == "hybrid")
        full = cx.call(fn, ds, **kw)
        keep = sorted(pick(nt))
        other = ds.copy(deep=True)
        for v in ("V", "PS"):
            for t in range(nt):
                if t not in keep:
                    x = other[v].values
                    x[t] = np.nan if case["times"] == "missing" and v == "V" else x[t] * 0.97
        part = cx.call(fn, other, **kw)
        U.close(part.isel(time=keep), full.isel(time=keep), what + ": other times changed", 1e-9, scale=magnitude(full))
        lats = kw["lat"]
        o = pick(len(lats))
        some = cx.call(fn, ds, **dict(kw, lat=[lats[q] for q in o]))
        d = [q for q in full.dims if q not in ("time", "lev", "plev")][0]
        U.close(some, full.isel({d: o}).transpose(*some.dims), what + ": selected latitudes", 1e-9, scale=magnitude(full))
