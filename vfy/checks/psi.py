"""M08 (zonal_meridional_psi) and U01 (variable lookup)."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..coldata import MANDATORY, interp_column
from ..core import ASSUMPTIONS, Skip, WARMUPS, facet, probe
from .meteorology import ref_dp

A, G = 6378137.0, 9.80665


def make_grid(lonb, latb, order=None):
    """Quadrilaterals between meridians lonb (closed around the globe) and node latitudes latb."""
    import uxarray as ux

    nl, nb = len(lonb), len(latb)
    conn = np.array([[j * nl + i, j * nl + (i + 1) % nl, (j + 1) * nl + (i + 1) % nl, (j + 1) * nl + i] for j in range(nb - 1) for i in range(nl)])
    if order is not None:
        conn = conn[order]
    return ux.Grid.from_topology(node_lon=np.tile(lonb, nb).astype(float), node_lat=np.repeat(latb, nl).astype(float), face_node_connectivity=conn, fill_value=-1)


def warm():
    """Compile uxarray's zonal mean once, before the workers are forked."""
    import uxarray as ux

    g = make_grid(np.arange(0, 360, 60.0), np.array([-40.0, 0.0, 40.0]))
    d = ux.UxDataset(xr.Dataset({"V": (("time", "plev", "n_face"), np.ones((1, 2, 12)))}), uxgrid=g)
    d["V"].zonal_mean(lat=[-20.0])
    d["V"].isel(plev=0).zonal_mean(lat=[-20.0])


WARMUPS["M08"] = WARMUPS["U01"] = warm


@st.composite
def psi_case(draw, tier="quick"):
    big = tier == "thorough"
    nl = draw(st.integers(8, 14 if big else 10))
    nb = draw(st.integers(2, 6))
    nlev = draw(st.integers(2, 12 if big else 7))
    return dict(
        lonw=draw(st.lists(st.floats(0.6, 1.0), min_size=nl, max_size=nl)), lon0=draw(st.sampled_from([0.0, 0.0, 17.5, -180.0, 5.0])),
        bands=draw(st.lists(st.floats(0.9, 1.1), min_size=nb, max_size=nb)), south=draw(st.sampled_from([-78.0, -60.0, -40.0])), shuffle=draw(st.booleans()),
        nt=draw(st.integers(1, 3)), nlev=nlev, gaps=draw(st.lists(st.floats(0.05, 1.0), min_size=nlev, max_size=nlev)), desc=draw(st.booleans()),
        seed=draw(U.seeds), relief=draw(st.sampled_from([0.0, 0.1, 0.5, 0.8])), low=draw(st.booleans()),
        lat=draw(st.sampled_from(["list", "list", "array", "scalar", "tuple"])), pick=draw(U.seeds), latorder=draw(st.booleans()),
        law=draw(st.sampled_from(["value", "value", "linear", "zero", "rotate", "times", "reverse", "alias"])), datetime=draw(st.booleans()),
        naming=draw(st.integers(0, 7)), vdims=draw(st.integers(0, 2)), holes=draw(st.integers(0, 4)) == 0, hybrid=draw(st.integers(0, 3)) == 0,
    )


VN = ["V", "v", "vs", "meridional_wind", "MERIDIONAL_WIND", "Vs"]
PN = ["ps", "PS", "p_surface", "surface_pressure", "pressure_surface", "Ps"]
LN = ["plev", "pressure_lev", "pressure_levels", "PLEV"]


def geometry(case):
    w = np.array(case["lonw"])
    w = 360 * w / w.sum()
    lonb = case["lon0"] + np.concatenate([[0], np.cumsum(w)[:-1]])
    nb = len(case["bands"])
    span = min(150.0, 78.0 - case["south"], 26.0 * nb)
    b = np.array(case["bands"])
    latb = case["south"] + np.concatenate([[0], np.cumsum(span * b / b.sum())])
    # great-circle edges bulge towards the poles: skip the shifted neighbourhood of the edges
    bulge = np.degrees(np.arctan(np.abs(np.tan(np.radians(latb))) / np.cos(np.radians(w.max() / 2)))) - np.abs(latb)
    return w, lonb, latb, bulge


def ref_psi(v, ps, plev, lats):
    """v (time, lev, lat), ps (time, lat) zonal means; integral without the cos(lat) factor."""
    asc = plev[0] < plev[-1]
    p = list(plev) if asc else list(plev[::-1])
    out = np.empty((v.shape[0], len(p), v.shape[2]))
    for t in range(v.shape[0]):
        for j in range(v.shape[2]):
            dp = ref_dp([float(x) for x in p], float(ps[t, j]), float(p[0]))
            col = v[t, :, j] if asc else v[t, ::-1, j]
            tot = 0.0
            for k in range(len(p)):
                term = col[k] * dp[k]
                tot += 0.0 if math.isnan(term) else term
                out[t, k if asc else len(p) - 1 - k, j] = tot
    return out * 2 * np.pi * A / G


def variants(x, lats):
    """The documented factor cos(lat) and the recorded finding (degrees taken as radians)."""
    return x * np.cos(np.radians(lats)), x * np.cos(lats)


def either(got, x, lats, what, scale):
    right, known = variants(x, lats)
    try:
        U.close(got, known, what, rtol=1e-9, scale=scale)
    except Exception as first:
        try:
            U.close(got, right, what, rtol=1e-9, scale=scale)
        except Exception:
            raise first


@facet("M08", "psi", lambda tier: psi_case(tier), 400, 6000,
       rule="global bands of quadrilaterals of uneven width (faces in any order) x winds on pressure or hybrid levels in either order x surface pressure relief x latitudes x naming; non-trivial when the zonal-mean surface lies within the levels or there are two or more times")
def psi(case, cx):
    import uxarray as ux

    w, lonb, latb, bulge = geometry(case)
    nl, nb, nt, nlev, s = len(w), len(latb) - 1, case["nt"], case["nlev"], case["seed"]
    lo, hi = latb[:-1] + bulge[:-1] * (latb[:-1] > 0) + 0.5, latb[1:] - bulge[1:] * (latb[1:] < 0) - 0.5
    if (hi - lo < 1).any():
        raise Skip("bands too narrow")
    # arcs of the lower edge in the north, of the upper edge in the south bulge into the band
    rows = np.arange(nb)
    frac = U.uniform(case["pick"], nb, 3)
    lats = lo + (hi - lo) * frac
    if case["lat"] == "scalar":
        rows = rows[case["pick"] % nb:][:1]
    elif case["lat"] == "tuple":
        step = float(np.diff(latb).mean())
        start = float(np.round((lo[0] + hi[0]) / 2, 3))
        step = float(np.round(step, 3))
        cand = start + step * np.arange(nb)
        if ((cand < lo) | (cand > hi)).any():
            raise Skip("steps do not fit the bands")
        lats = cand
    elif case["latorder"]:
        rows = rows[::-1]
    lats = lats[rows]
    hyb = case["hybrid"]
    plev = 2000.0 + 98000 * np.cumsum(case["gaps"]) / np.sum(case["gaps"])
    if case["desc"]:
        plev = plev[::-1].copy()
    v = U.field(s, (nt, nlev, nb, nl), -20, 20) + 3
    if case["law"] == "zero":
        v = v * 0
    ps = 101500 - case["relief"] * 80000 * U.field(s, (nt, nb, nl), 0, 1, 4)
    if hyb:
        ps = 101500 - 0.3 * (101500 - ps)
    ps = np.maximum(ps, plev.min() * 1.01)
    holes = case["holes"] and not hyb
    if holes:
        v[U.uniform(s, v.size, 6).reshape(v.shape) < 0.03] = np.nan
    order = U.perm(s, nb * nl) if case["shuffle"] else np.arange(nb * nl)
    k = case["naming"]
    vn, pn, ln = VN[k % len(VN)], PN[(k * 2 + s) % len(PN)], LN[(k * 3) % len(LN)]
    kw = {}
    va, pa = {}, {}
    if k == 6:
        vn, va = "wind_xyz", {"standard_name": "northward_wind"}
        pn, pa = "bottom", {"standard_name": "surface_air_pressure"}
    if k == 7:
        vn, pn, ln = "q1", "q2", "q3"
        kw = dict(meridional_wind_varname=vn, surface_air_pressure_varname=pn)
        if not hyb:
            kw["plev_coordname"] = ln
    elif k == 5:
        vn, va = "wind_xyz", {"long_name": "Meridional wind"}
        pn, pa = "bottom", {"long_name": "Surface pressure"}
    if hyb:
        ln = "lev"
        eta = plev / 100000.0
        hb = eta ** 2 * 0.9
        ha = eta - hb
    time = np.datetime64("2001-01-16", "ns") + np.arange(nt) * np.timedelta64(30, "D") if case["datetime"] else np.arange(nt) * 1.5
    want_lat = lats

    def arg():
        if case["lat"] == "scalar":
            return float(lats[0])
        if case["lat"] == "tuple":
            return (start, start + step * (nb - 1), step)
        return lats.copy() if case["lat"] == "array" else [float(x) for x in lats]

    def data(v, ps, lonb=lonb, order=order):
        n = v.shape[0]
        co = {"time": time[:n]}
        vd = [("time", ln, "n_face"), (ln, "time", "n_face"), ("time", "n_face", ln)][case["vdims"] if not hyb else 0]
        x = xr.DataArray(v.reshape(v.shape[:2] + (-1,))[..., order], dims=("time", ln, "n_face")).transpose(*vd)
        d = {vn: (vd, x.values, va), pn: (("time", "n_face"), ps.reshape(n, -1)[:, order], pa)}
        if hyb:
            co[ln] = (ln, plev / 100, {"positive": "down"})
            d.update(hyam=(ln, ha), hybm=(ln, hb))
        else:
            co[ln] = (ln, plev, {"units": "Pa"})
        return ux.UxDataset(xr.Dataset(d, coords=co), uxgrid=make_grid(lonb, latb, order))

    out = np.array(MANDATORY) * 100.0 if hyb else plev

    def run(v, ps, fn=gc.zonal_meridional_psi, **g):
        r = cx.call(fn, data(v, ps, **g), lat=arg(), **kw)
        U.need(isinstance(r, xr.DataArray), f"returned {type(r).__name__}")
        U.need(set(r.dims) == {"time", "plev", "latitudes"}, f"dims {r.dims}")
        U.close(r["latitudes"], want_lat, "latitudes", rtol=1e-9, atol=1e-9)
        U.close(r["plev"], out, "plev", rtol=1e-12)
        U.same(r["time"], time[: v.shape[0]], "time")
        U.need(r.attrs.get("units") == "kg/s" and r.attrs.get("long_name") == "zonal mean meridional streamfunction", f"attrs {r.attrs}")
        return U.plain(r.transpose("time", "plev", "latitudes")).astype(float)

    # reference
    vz, pz = v, ps
    if hyb:
        vz = np.empty((nt, len(out), nb, nl))
        loose = np.zeros(vz.shape, bool)
        for i in np.ndindex(nt, nb, nl):
            pc = ha * 100000.0 + hb * ps[i]
            a = np.argsort(pc)
            val, _nan_ok, dont = interp_column(pc[a], v[i[0], :, i[1], i[2]][a], out, "linear")
            vz[i[0], :, i[1], i[2]] = val
            loose[i[0], :, i[1], i[2]] = np.asarray(_nan_ok, bool) | np.asarray(dont, bool)
        if loose.any():
            raise Skip("a level on the edge of a column")
    zv = (vz * w).sum(-1)[:, :, rows] / 360.0
    zp = (ps * w).sum(-1)[:, rows] / 360.0
    edges = np.sort(out)
    mids = (edges[1:] + edges[:-1]) / 2
    if (np.abs(zp[..., None] - mids) < 1e-6 * zp[..., None]).any() or (zp <= out.min()).any():
        raise Skip("surface on a layer boundary")
    want = ref_psi(zv, zp, out, lats)
    scale = 2 * np.pi * A / G * 20 * 1e5
    if np.isnan(vz).any():
        # uxarray overestimates the bounds of a few faces at the equator, and a face that
        # is only thought to touch the latitude enters with weight 0, NaN included
        bd = np.degrees(np.asarray(make_grid(lonb, latb).bounds.values)[:, 0])
        top = np.repeat(latb[1:] + bulge[1:] * (latb[1:] > 0) + 1e-6, nl)
        bottom = np.repeat(latb[:-1] - bulge[:-1] * (latb[:-1] < 0) - 1e-6, nl)
        if (bd[:, 1] > top).any() or (bd[:, 0] < bottom).any():
            raise Skip("face bounds overestimated by uxarray")
    cx.label("hybrid" if hyb else "pressure", case["lat"], case["law"], "desc" if case["desc"] else "asc", f"naming{k}", "shuffled" if case["shuffle"] else "ordered", "holes" if holes else "full")
    cx.interesting((zp.min() < out.max()) or nt > 1)
    r = run(v, ps)
    either(r, want, lats, "stream function", scale)
    law = case["law"]
    tol = dict(rtol=1e-8, scale=scale)
    if law == "linear":
        v2 = U.field(s, v.shape, -10, 10, 9)
        U.close(run(2 * v - v2, ps), 2 * r - run(np.where(np.isnan(v), 0, v2), ps), "linearity in the wind", **tol) if not holes and not hyb else None
        U.close(run(-3 * v, ps), -3 * r, "scaled wind", **tol)
    elif law == "zero" and not holes:
        U.need((r == 0).all(), "psi of zero wind is not zero")
    elif law == "rotate":
        m = s % nl
        U.close(run(np.roll(v, m, -1), np.roll(ps, m, -1), lonb=case["lon0"] + 33.0 + np.concatenate([[0], np.cumsum(np.roll(w, m))[:-1]])), r, "psi of the rotated planet", **tol)
    elif law == "times":
        t = s % nt
        full = time[t:t + 1]
        one = cx.call(gc.zonal_meridional_psi, data(v, ps).isel(time=[t]), lat=arg(), **kw)
        U.same(one["time"], full, "time of one step")
        U.close(one.transpose("time", "plev", "latitudes"), r[t:t + 1], "psi of one time alone", **tol)
    elif law == "alias":
        U.close(run(v, ps, gc.zonal_mpsi), r, "zonal_mpsi", rtol=0)
    elif law == "reverse" and not hyb:
        # the order of the levels does not matter
        plev_r = plev[::-1].copy()
        d = data(v[:, ::-1], ps).assign_coords({ln: (ln, plev_r, {"units": "Pa"})})
        q = cx.call(gc.zonal_meridional_psi, d, lat=arg(), **kw)
        U.close(q.transpose("time", "plev", "latitudes").values[:, ::-1], r, "psi with the levels in the other order", **tol)


@probe("M08", "psi-cos-degrees")
def cos_degrees():
    import uxarray as ux

    g = make_grid(np.arange(0, 360, 45.0), np.array([-60.0, -20.0, 20.0]))
    p = np.array([20000.0, 50000.0, 90000.0])
    d = ux.UxDataset(xr.Dataset({"V": (("time", "plev", "n_face"), np.ones((1, 3, 16))), "PS": (("time", "n_face"), np.full((1, 16), 95000.0))},
                                coords={"plev": p, "time": [0]}), uxgrid=g)
    lat = np.array([-40.0, 5.0])
    r = gc.zonal_meridional_psi(d, lat=lat).transpose("time", "plev", "latitudes").values
    x = ref_psi(np.ones((1, 3, 2)), np.full((1, 2), 95000.0), p, lat)
    right, known = variants(x, lat)
    if np.allclose(r, right, rtol=1e-9):
        return None
    return "known" if np.allclose(r, known, rtol=1e-9) else f"got {r}, expected {right}"


# ---------------------------------------------------------------- U01 lookup
ROLES = {
    "wind": dict(std="northward_wind", long="Meridional wind", names=["V", "vs", "meridional_wind"]),
    "ps": dict(std="surface_air_pressure", long="Surface pressure", names=["ps", "p_surface", "surface_pressure", "pressure_surface"]),
}


def spellings(x, sep="_"):
    return [x, x.lower(), x.upper(), x.capitalize(), sep.join(q.capitalize() for q in x.split(sep))]


STD, LONG = ("std", "std-name"), ("long", "long-name")
# other quantities, whose names and attributes merely resemble the ones looked for
NEAR = {
    "wind": [dict(standard_name="northward_wind_speed"), dict(standard_name="eastward_northward_wind"), dict(long_name="Meridional wind stress"),
             dict(long_name="Mean Meridional wind"), dict(long_name="Meridional"), dict(standard_name=""), dict(long_name="Zonal wind"), "VT", "vsx", "meridional_wind_stress", "v_"],
    "ps": [dict(standard_name="surface_air_pressure_anomaly"), dict(standard_name="mean_surface_air_pressure"), dict(long_name="Surface pressure tendency"),
           dict(long_name="Mean Surface pressure"), dict(long_name="Surface"), dict(standard_name="air_pressure_at_mean_sea_level"), dict(long_name=""), "psl", "p_surface_old", "surface_pressure_2", "sps"],
}


@st.composite
def lookup_case(draw, tier="quick"):
    c = {}
    for role, d in ROLES.items():
        c[role] = dict(
            kinds=draw(st.lists(st.sampled_from(["std", "long", "name", "name", "none", "decoy", "decoy", "std-name", "long-name"]), min_size=1, max_size=4)),
            pick=draw(st.lists(st.integers(0, 30), min_size=4, max_size=4)), order=draw(U.seeds), explicit=draw(st.integers(0, 5)) == 0)
    c["seed"] = draw(U.seeds)
    c["plevs"] = draw(st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True))
    return c


@facet("U01", "lookup", lambda tier: lookup_case(tier), 1000, 4000,
       rule="datasets with several candidate wind and surface-pressure variables, recognisable by standard name or long name (as attribute or as name), listed name (in any documented spelling), by something that only resembles one of these (which must not be used) or not at all; non-trivial with two or more candidates for a role")
def lookup(case, cx):
    import uxarray as ux

    s = case["seed"]
    nt, nf = 1, 16
    plev = np.array([20000.0, 50000.0, 90000.0])
    variables, expect, kind_of = [], {}, {}
    kw = {}
    for ri, (role, d) in enumerate(ROLES.items()):
        c = case[role]
        got = {}
        cand = []
        for j, kind in enumerate(c["kinds"]):
            pick = c["pick"][j]
            at, nm = {}, f"{role}_cand{j}"
            if kind == "std":
                at = {"standard_name": spellings(d["std"])[pick % 5]}
            elif kind == "long":
                at = {"long_name": (spellings(d["long"], " ") + [d["long"].replace(" ", "_")])[pick % 6]}
            elif kind == "std-name":
                nm = spellings(d["std"])[pick % 5]
            elif kind == "long-name":
                nm = (spellings(d["long"], " ") + [d["long"].replace(" ", "_")])[pick % 6]
            elif kind == "decoy":
                near = NEAR[role][pick % len(NEAR[role])]
                at, nm = (at, near) if isinstance(near, str) else (dict(near), nm)
            elif kind == "name":
                i = pick % len(d["names"])
                nm = spellings(d["names"][i])[(pick // 7) % 5]
                if nm in (d["long"].replace(" ", "_"), "_".join(q.capitalize() for q in d["long"].split(" "))):
                    nm = nm.lower()     # otherwise the name is a spelling of the long name as well
            if nm in got:
                continue
            got[nm] = 1
            cand.append((nm, kind, at))
        perm = U.perm(c["order"], len(cand))
        cand = [cand[i] for i in perm]
        listed = [x for n in d["names"] for x in spellings(n)]
        # variables are examined in the order of the dataset, names in the order listed
        best = next((n for n, k, _ in cand if k in STD), None) or next((n for n, k, _ in cand if k in LONG), None) or next((x for x in listed if any(x == n for n, k, _ in cand if k == "name")), None)
        if c["explicit"] and cand:
            best = cand[c["order"] % len(cand)][0]
            kw["meridional_wind_varname" if role == "wind" else "surface_air_pressure_varname"] = best
        expect[role] = best
        variables.extend((role, i, n, a) for i, (n, _k, a) in enumerate(cand))
        kind_of.update((n, k) for n, k, _a in cand)
    ambiguous = {n for _r, _i, n, _a in variables}
    if len(ambiguous) != len(variables):
        raise Skip("same name twice")
    # a surface pressure name spelled like a listed wind name cannot happen; names are disjoint
    data, val = {}, {}
    for role, i, n, a in variables:
        x = 3.0 + i + U.uniform(s, 1, i)[0]
        val[n] = x
        if role == "wind":
            data[n] = (("time", "plev", "n_face"), np.full((nt, 3, nf), x), a)
        else:
            val[n] = 80000.0 + 3000 * x
            data[n] = (("time", "n_face"), np.full((nt, nf), val[n]), a)
    keys = list(data)
    keys = [keys[i] for i in U.perm(s, len(keys))]
    pos = {n: keys.index(n) for n in keys}
    for role, d in ROLES.items():
        if expect[role] is None or (f"{'meridional_wind' if role == 'wind' else 'surface_air_pressure'}_varname") in kw:
            continue
        mine = [n for n in keys if any(n == x[2] and x[0] == role for x in variables)]
        first = lambda kinds: next((n for n in mine if kind_of[n] in kinds), None)
        expect[role] = first(STD) or first(LONG) or expect[role]
    g = make_grid(np.arange(0, 360, 45.0), np.array([-60.0, -20.0, 20.0]))
    ds = ux.UxDataset(xr.Dataset({k: data[k] for k in keys}, coords={"plev": plev, "time": [0]}), uxgrid=g)
    lat = np.array([-40.0])
    cx.label(*(f"{r}-{k}" for r in ROLES for k in set(case[r]["kinds"])))
    cx.interesting(sum(r == "wind" for r, *_ in variables) > 1 or sum(r == "ps" for r, *_ in variables) > 1)
    if expect["wind"] is None or expect["ps"] is None:
        cx.label("missing")
        cx.expect_raises(KeyError, gc.zonal_meridional_psi, ds, lat=lat, **kw)
        return
    r = cx.call(gc.zonal_meridional_psi, ds, lat=lat, **kw).transpose("time", "plev", "latitudes").values
    x = ref_psi(np.full((1, 3, 1), val[expect["wind"]]), np.full((1, 1), val[expect["ps"]]), plev, lat)
    either(r, x, lat, f"psi of {expect['wind']} over {expect['ps']}", float(np.abs(x).max()))


ASSUMPTIONS["M08"] = [
    "the factor cos(latitude) is accepted in degrees-as-radians form too (recorded finding psi-cos-degrees), every other factor is fixed",
    "latitudes lie inside one row of faces, where the exact zonal mean is the mean weighted with the face widths",
    "levels without wind (below ground, or missing) add nothing to the integral",
]
