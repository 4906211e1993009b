"""G01: gradient on the WGS84 ellipsoid."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st
from scipy.special import ellipeinc

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, Skip, facet

A, B = 6378137.0, 6356752.3142451795


def radius(lat):
    r = np.radians(lat)
    return np.sqrt((A * np.cos(r)) ** 2 + (B * np.sin(r)) ** 2)


def arc_lat(lat):
    """Integral of the radius from the equator: an elliptic integral."""
    return A * ellipeinc(np.radians(lat), 1 - (B / A) ** 2)


def arc_lon(lon, lat):
    return radius(lat) * np.cos(np.radians(lat)) * np.radians(lon)


def steps(x):
    """Differences over neighbours: two-sided inside, one-sided at the ends (axis 0)."""
    d = np.empty_like(x)
    n = len(x)
    for i in range(n):
        lo, hi = max(i - 1, 0), min(i + 1, n - 1)
        d[i] = (x[hi] - x[lo]) / (hi - lo)
    return d


def axis_coord(draw, n, lo, hi, maxstep):
    """n strictly monotone values in [lo, hi], even or uneven, either direction."""
    step = draw(st.floats(0.01, min(maxstep, (hi - lo) / max(n - 1, 1) * 0.98)))
    gaps = [step] * (n - 1)
    if n > 16:
        gaps = (step * (0.2 + 0.8 * U.uniform(n, n - 1))).tolist()
    elif draw(st.booleans()):
        gaps = [step * draw(st.floats(0.2, 1.0)) for _ in range(n - 1)]
    x = np.concatenate([[0.0], np.cumsum(gaps)])
    start = draw(st.floats(lo, hi - float(x[-1])))
    x = x + start
    if draw(st.booleans()):
        x = x[::-1]
    return [float(v) for v in x]


@st.composite
def grad_case(draw, tier="quick"):
    big = 6 if tier == "quick" else 12
    ny, nx = draw(st.integers(2, big)), draw(st.integers(2, big))
    if draw(st.integers(0, 3)) == 0:
        nx = ny
    many = U.rarely(draw, 40)
    if many:
        ny, nx = draw(st.sampled_from([17, 40, 90, 181, 361])), draw(st.sampled_from([17, 33, 130, 257, 720]))
    whole = draw(st.integers(0, 4)) == 0 and not many
    lat = axis_coord(draw, ny, -89.0, 89.0, 40.0)
    lon = axis_coord(draw, nx, draw(st.sampled_from([-180.0, 0.0, -360.0])), 360.0, 60.0)
    if whole:
        s = draw(st.integers(1, 12))
        lat = [float(-60 + s * i) for i in range(ny)]
        lon = [float(10 + s * i) for i in range(nx)]
    warp = draw(st.sampled_from([0.0, 0.0, 0.15]))
    bent = draw(st.sampled_from(["all", "all", "inner-rows", "inner-columns", "one-row", "one-column", "one-cell", "by-row", "by-column", "lat", "lon"])) if warp else "none"
    return dict(lat=lat, lon=lon, seed=draw(U.seeds), warp=warp, bent=bent,
                ctype="f8" if warp else draw(st.sampled_from(["f8", "f8", "f8", "f4"] + (["i8"] * 3 if whole else []))),
                dtype=draw(st.sampled_from(["f8", "f8", "f4", "i8"])), form=draw(st.sampled_from(["np2", "xr2", "xr_np2"] + ([] if warp else ["np1", "xr1", "xr_np1", "xr_T", "xr_aux"]))),
                law=draw(st.sampled_from(["values", "values", "linear", "reverse", "constant", "smooth", "forms"])), hole=draw(st.integers(0, 5)) == 0)


def grid(case):
    lat, lon = np.array(case["lat"]), np.array(case["lon"])
    lon2, lat2 = np.meshgrid(lon, lat)
    if case["warp"] and case["form"] in ("np2", "xr2", "xr_np2") and case["ctype"] == "f8":
        # curvilinear, still monotone along each axis
        dy, dx = np.abs(np.diff(lat)).min(), np.abs(np.diff(lon)).min()
        e = [U.uniform(case["seed"], lat2.size, k).reshape(lat2.shape) - 0.5 for k in (8, 9)]
        keep, bent, i, j = np.ones(lat2.shape), case["bent"], case["seed"] % lat2.shape[0], case["seed"] // 7 % lat2.shape[1]
        if bent == "inner-rows":
            keep[[0, -1]] = 0
        elif bent == "inner-columns":
            keep[:, [0, -1]] = 0
        elif bent in ("one-row", "one-column", "one-cell"):     # regular elsewhere
            keep[:] = 0
            keep[i if bent != "one-column" else slice(None), j if bent != "one-row" else slice(None)] = 1
        elif bent == "by-row":
            e = [x[:, :1] for x in e]
        elif bent == "by-column":
            e = [x[:1] for x in e]
        lat2 = lat2 + case["warp"] * dy * e[0] * keep * (bent != "lon")
        lon2 = lon2 + case["warp"] * dx * e[1] * keep * (bent != "lat")
    t = case["ctype"]
    return lat.astype(t), lon.astype(t), lat2.astype(t), lon2.astype(t)


def build(case, data, g):
    """Arguments of gradient for the case's form of input."""
    lat, lon, lat2, lon2 = g
    f = case["form"]
    if f == "np1":
        return (data, lon, lat), {}
    if f == "np2":
        return (data,), dict(lon=lon2, lat=lat2)
    if f == "xr2":
        return (xr.DataArray(data, dims=["x", "y"], coords=dict(lon=(("x", "y"), lon2), lat=(("x", "y"), lat2)), name="q"),), {}
    if f == "xr_np1":
        return (xr.DataArray(data, dims=["lat", "lon"]),), dict(lon=xr.DataArray(lon, dims=["lon"]), lat=xr.DataArray(lat, dims=["lat"]))
    if f == "xr_np2":
        return (xr.DataArray(data),), dict(lon=lon2, lat=lat2)
    da = xr.DataArray(data, dims=["lat", "lon"], coords=dict(lat=lat, lon=lon), name="q", attrs={"units": "K"})
    if f == "xr_T":
        da = da.transpose("lon", "lat")
    if f == "xr_aux":
        da = da.assign_coords(time=5, level=("lat", np.arange(len(lat))))
    return (da,), {}


@facet("G01", "gradient", lambda tier: grad_case(tier), 2000, 30000,
       rule="latitude/longitude axes (even, uneven, descending, single precision, integer) or curvilinear grids x data x form of input x law; non-trivial when the data vary and the grid has an interior point")
def gradient(case, cx):
    g = grid(case)
    lat, lon, lat2, lon2 = g
    f = U.field(case["seed"], lat2.shape, -20, 20)
    law = case["law"]
    if law == "constant":
        f = np.full(lat2.shape, 7.0)
    if law == "smooth":
        f = 3 * np.sin(np.radians(lat2.astype(float))) + np.cos(np.radians(lon2.astype(float))) * 2
    if case["dtype"] == "i8" and law != "smooth":
        f = np.round(f * 10)
    if law != "smooth":
        f = f.astype(case["dtype"])
    if case["hole"] and f.dtype.kind == "f":
        f[case["seed"] % f.shape[0], case["seed"] // 7 % f.shape[1]] = np.nan
    cx.label(case["form"], law, "coord-" + case["ctype"], "data-" + case["dtype"], "hole" if case["hole"] else "full")
    cx.interesting(law != "constant" and max(f.shape) > 2)

    def run(c, data, gg):
        a, kw = build(c, data, gg)
        r = cx.call(gc.gradient, *a, **kw)
        U.need(isinstance(r, (list, tuple)) and len(r) == 2, f"gradient returned {type(r).__name__}")
        return r

    r = run(case, f, g)
    la, lo = lat2.astype(float), lon2.astype(float)
    ff = f.astype(float)
    with np.errstate(all="ignore"):
        want0 = steps(ff) / steps(arc_lat(la))
        want1 = (steps(ff.T) / steps(arc_lon(lo, la).T)).T
    # rounding of nearly equal positions limits the distances
    d0, d1 = np.abs(steps(arc_lat(la))), np.abs(steps(arc_lon(lo, la).T).T)
    rel = max(1e-9, 40 * 1e7 * 2.3e-16 / d0.min(), 40 * 4e7 * 2.3e-16 / d1.min())
    if f.dtype == np.float32:
        rel = max(rel, 1e-5)
    big = 40.0 if case["dtype"] != "i8" else 400.0
    s0, s1 = rel * big / d0.min(), rel * big / d1.min()
    what = f"gradient ({case['form']})"
    U.close(r[0], want0, what + " along latitude", rtol=rel, atol=s0)
    U.close(r[1], want1, what + " along longitude", rtol=rel, atol=s1)
    if case["form"].startswith("xr"):
        for k in (0, 1):
            U.need(isinstance(r[k], xr.DataArray), f"{what}: DataArray in, {type(r[k]).__name__} out")
            U.same(r[k]["lat"], lat2, what + " lat coordinate")
            U.same(r[k]["lon"], lon2, what + " lon coordinate")
    else:
        U.need(isinstance(r[0], np.ndarray) and isinstance(r[1], np.ndarray), f"{what}: array in, {type(r[0]).__name__} out")
    g0, g1 = U.plain(r[0]).astype(float), U.plain(r[1]).astype(float)
    if law == "constant":
        U.need(not np.nan_to_num(g0).any() and not np.nan_to_num(g1).any(), what + ": gradient of a constant")
    elif law == "linear":
        h = U.field(case["seed"], f.shape, -5, 5, 4)
        rh, rs = run(case, h, g), run(case, 3.0 * ff - h, g)
        U.close(rs[0], 3 * g0 - U.plain(rh[0]), what + " linearity", rtol=rel, atol=6 * s0)
        U.close(rs[1], 3 * g1 - U.plain(rh[1]), what + " linearity", rtol=rel, atol=6 * s1)
    elif law == "reverse":
        rr = run(case, f[::-1, ::-1].copy(), (lat[::-1].copy(), lon[::-1].copy(), lat2[::-1, ::-1].copy(), lon2[::-1, ::-1].copy()))
        U.close(U.plain(rr[0])[::-1, ::-1], g0, what + " with both axes reversed", rtol=rel, atol=s0)
        U.close(U.plain(rr[1])[::-1, ::-1], g1, what + " with both axes reversed", rtol=rel, atol=s1)
        rr = run(case, -f if f.dtype.kind != "u" else f, g)
        U.close(U.plain(rr[0]), -g0, what + " sign", rtol=rel, atol=s0)
    elif law == "forms":
        for other in ("np1", "np2", "xr1", "xr2", "xr_T"):
            if case["warp"] and case["form"] in ("np2", "xr2", "xr_np2") and other not in ("np2", "xr2"):
                continue
            o = run(dict(case, form=other), f, g)
            U.close(o[0], g0, what + f" as {other}", rtol=rel, atol=s0)
            U.close(o[1], g1, what + f" as {other}", rtol=rel, atol=s1)
    elif law == "smooth" and not case["warp"]:
        # converges to the true derivative: error bounded by the step
        h = float(np.radians(max(np.abs(np.diff(lat.astype(float))).max(), np.abs(np.diff(lon.astype(float))).max())))
        true0 = 3 * np.cos(np.radians(la)) / radius(la)
        true1 = -2 * np.sin(np.radians(lo)) / (radius(la) * np.cos(np.radians(la)))
        ok = ~np.isnan(g0) & ~np.isnan(g1)
        e0 = np.abs(g0 - true0)[ok] * A
        e1 = (np.abs(g1 - true1) * radius(la) * np.cos(np.radians(la)))[ok]
        U.need((e0 <= 2.5 * h + 0.02).all() and (e1 <= 1.5 * h + 1e-6).all(), what + ": derivative of a smooth field")


@st.composite
def arc_case(draw, tier="quick"):
    n = draw(st.integers(1, 20))
    return dict(lat=[draw(st.one_of(st.floats(-90, 90), st.sampled_from([0.0, 90.0, -90.0, 45.0]))) for _ in range(n)],
                lon=[draw(st.floats(-360, 360)) for _ in range(n)])


@facet("G01", "arcs", lambda tier: arc_case(tier), 750, 20000, rule="latitudes from pole to pole and longitudes; every case is non-trivial")
def arcs(case, cx):
    lat, lon = np.array(case["lat"]), np.array(case["lon"])
    if not hasattr(gc, "_arc_lat_wgs84"):
        raise Skip("the helpers are not exported any more")
    cx.interesting()
    for box in (lambda v: v, lambda v: xr.DataArray(v, dims=["p"])):
        U.close(cx.call(gc._rad_lat_wgs84, box(lat)), radius(lat), "radius", rtol=1e-12)
        U.close(cx.call(gc._arc_lat_wgs84, box(lat)), arc_lat(lat), "meridian arc", rtol=1e-11, atol=1e-6)
        U.close(cx.call(gc._arc_lon_wgs84, box(lon), box(lat)), arc_lon(lon, lat), "parallel arc", rtol=1e-10, atol=1e-6)


ASSUMPTIONS["G01"] = ["two-dimensional fields ordered latitude, longitude, within 89 degrees of the equator",
                      "distances use the ellipsoid radius the documentation defines: sqrt(a^2 cos^2 + b^2 sin^2)"]
