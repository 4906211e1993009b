"""T01-T03: nmse, pearson_r, EOF analysis."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, Skip, facet


# ---------------------------------------------------------------- T01 nmse
NAMES = [("lat", "lon", "plain"), ("latitude", "longitude", "plain"), ("yc", "xc", "standard_name"), ("ny", "nx", "units"), ("lat", "lon", "attrs")]


@st.composite
def nmse_case(draw, tier="quick"):
    ny, nx = draw(st.integers(2, 6 if tier == "quick" else 15)), draw(st.integers(2, 6 if tier == "quick" else 15))
    extra = draw(st.lists(st.integers(1, 3), max_size=2))
    if U.rarely(draw, 30):
        ny, nx, extra = draw(st.sampled_from([18, 45, 91, 181])), draw(st.sampled_from([2, 36, 150, 360])), draw(st.sampled_from([[], [2], [30], [3, 5]]))
    step = draw(st.one_of(st.floats(0.5, 180.0 / ny * 0.95), st.sampled_from([1.0, 2.5, 10.0]).filter(lambda s: s * (ny - 1) < 170)))
    lat0 = draw(st.one_of(st.floats(-89, 89 - step * (ny - 1)), st.just(-step * (ny - 1) / 2)))
    return dict(
        ny=ny, nx=nx, extra=extra, lat0=lat0, dlat=step, poles=draw(st.integers(0, 4)) == 0, dlon=draw(st.sampled_from([1.0, 30.0, 2.5, 0.7])),
        lon0=draw(st.sampled_from([0.0, -180.0, 100.0])), desc=draw(st.booleans()), names=draw(st.integers(0, len(NAMES) - 1)),
        mesh=draw(st.integers(0, 3)) == 0, meshT=draw(st.booleans()), perm=draw(U.seeds), perm2=draw(U.seeds), seed=draw(U.seeds),
        holes=draw(st.sampled_from(["none", "obs", "mod", "both", "both", "inf-free-slice"])), ds=draw(st.integers(0, 4)) == 0,
        law=draw(st.sampled_from(["value", "value", "equal", "mean", "affine", "slices", "swap-missing"])), dtype=draw(st.sampled_from(["f8", "f8", "f4", "i8"])),
        offset=draw(st.sampled_from([0.0, 0.0, 280.0])), aux=draw(st.booleans()),
        ugap=draw(st.sampled_from([0.0, 0.2])),
    )


def nmse_grid(case):
    lat = case["lat0"] + case["dlat"] * np.arange(case["ny"])
    if case["poles"]:
        lat = np.linspace(-90, 90, case["ny"])
    if case["desc"]:
        lat = lat[::-1]
    lon = case["lon0"] + case["dlon"] * np.arange(case["nx"])
    return lat, lon


def nmse_da(case, v, perm):
    """DataArray of v (extra..., ny, nx) with the case's coordinates, dimensions permuted."""
    lat, lon = nmse_grid(case)
    ln, xn, how = NAMES[case["names"]]
    e = [f"e{i}" for i in range(len(case["extra"]))]
    sa = {"standard_name": "latitude"} if how == "standard_name" else {"units": "degrees_north"} if how == "units" else {"units": "degrees_north", "standard_name": "latitude"} if how == "attrs" else {}
    so = {"standard_name": "longitude"} if how == "standard_name" else {"units": "degrees_east"} if how == "units" else {"units": "degrees_east", "standard_name": "longitude"} if how == "attrs" else {}
    if case["mesh"]:
        dims = e + ["j", "i"]
        lo2, la2 = np.meshgrid(lon, lat)
        d2 = ("j", "i")
        if case["meshT"]:
            d2, lo2, la2 = ("i", "j"), lo2.T, la2.T
        coords = {ln: (d2, la2, sa), xn: (d2, lo2, so)}
    else:
        dims = e + [ln, xn]
        coords = {ln: ((ln,), lat, sa), xn: ((xn,), lon, so)}
    for k, s in zip(e, case["extra"]):
        coords[k] = np.arange(s) * 10
    da = xr.DataArray(v, dims=dims, coords=coords, name="t", attrs={"units": "K"})
    return da.transpose(*[dims[i] for i in U.perm(perm, len(dims))])


def ref_nmse(o, m, lat):
    """Over the last two axes."""
    w = np.cos(np.radians(lat))[:, None] * np.ones(o.shape[-1])
    ok = ~(np.isnan(o) | np.isnan(m))
    w = np.where(ok, w, 0.0)
    o, m = np.where(ok, o, 0.0), np.where(ok, m, 0.0)
    with np.errstate(all="ignore"):
        ob = (w * o).sum((-2, -1)) / w.sum((-2, -1))
        return (w * (m - o) ** 2).sum((-2, -1)) / (w * (o - ob[..., None, None]) ** 2).sum((-2, -1)), ob, w


@facet("T01", "nmse", lambda tier: nmse_case(tier), 650, 12000,
       rule="evenly spaced grids (either direction, with poles, curvilinear coordinates, CF names) x extra dimensions in any order x missing values in either field x law; non-trivial when the fields differ and some point is missing or there is an extra dimension")
def nmse(case, cx):
    lat, lon = nmse_grid(case)
    shape = tuple(case["extra"]) + (case["ny"], case["nx"])
    o = U.field(case["seed"], shape, -5, 5) + case["offset"]
    m = U.field(case["seed"], shape, -5, 5, 1) + case["offset"]
    t = case["dtype"]
    o, m = (np.round(o), np.round(m)) if t == "i8" else (o.astype(t), m.astype(t)) if t == "f4" else (o, m)
    h = case["holes"]
    if h in ("obs", "both"):
        o[U.uniform(case["seed"], o.size, 4).reshape(shape) < 0.2] = np.nan
    if h in ("mod", "both"):
        m[U.uniform(case["seed"], o.size, 5).reshape(shape) < 0.2] = np.nan
    if h == "inf-free-slice" and case["extra"]:
        o[(0,) * len(case["extra"])] = np.nan
    if t == "i8" and h == "none":
        o, m = o.astype(int), m.astype(int)
    law = case["law"]
    if law == "equal":
        m = o.copy()
    of, mf = o.astype(float), m.astype(float)
    want, ob, w = ref_nmse(of, mf, lat)
    den = (w * (np.where(np.isnan(of), 0, of) - ob[..., None, None]) ** 2).sum((-2, -1))
    total = w.sum((-2, -1))
    if (den[total > 0] < 1e-6 * total[total > 0]).any():
        raise Skip("constant observations")
    if law == "mean":
        if t == "i8":
            m = m.astype(float)
        m = np.where(np.isnan(m), np.nan, np.broadcast_to(ref_nmse(of, mf, lat)[1][..., None, None], shape)).astype(m.dtype if m.dtype.kind == "f" else float)
    cx.label(law, h, "mesh" if case["mesh"] else "axes", NAMES[case["names"]][2], t, "dataset" if case["ds"] else "array", f"extra{len(case['extra'])}")
    cx.interesting(law != "equal" and (h != "none" or bool(case["extra"])))
    tol = dict(rtol=3e-3, atol=1e-4) if t == "f4" else dict(rtol=1e-7, atol=1e-11)
    order = [f"e{i}" for i in range(len(case["extra"]))]

    def run(a, b):
        A, B = nmse_da(case, a, case["perm"]), nmse_da(case, b, case["perm2"])
        if case["ds"]:
            # the second variable lacks points the first has
            gap = np.where(U.uniform(case["seed"], a.size, 14).reshape(a.shape) < case["ugap"], np.nan, 0.0)
            gap2 = np.where(U.uniform(case["seed"], a.size, 15).reshape(a.shape) < case["ugap"], np.nan, 0.0)
            u = [nmse_da(case, v * 2.0 + 1 + g, pm) for v, g, pm in ((a, gap, case["perm"]), (b, gap2, case["perm2"]))]
            q = [{"t": A, "u": u[0]}, {"t": B, "u": u[1]}]
            if case["seed"] % 2:
                q = [dict(reversed(list(v.items()))) for v in q]
            q = [xr.Dataset(v) for v in q]
            r = cx.call(gc.nmse, *q)
            U.need(isinstance(r, xr.Dataset) and set(r.data_vars) == {"t", "u"}, "nmse of Datasets: variables")
            tt, uu = r["t"], r["u"]
            if "variable" in tt.dims:
                tt, uu = tt.sel(variable="t"), uu.sel(variable="u")
            ua, ub = a.astype(float) * 2 + 1 + gap, b.astype(float) * 2 + 1 + gap2
            uw, um, ww = ref_nmse(ua, ub, lat)
            dn = (ww * (np.where(np.isnan(ua), 0, ua) - um[..., None, None]) ** 2).sum((-2, -1))
            sure = np.isnan(uw) | (dn > 1e-4 * ww.sum((-2, -1)))
            uu = np.asarray(uu.transpose(*order).values, float)
            U.need(uu.shape == uw.shape, f"second variable of a Dataset: shape {uu.shape}")
            U.close(uu[sure], uw[sure], "second variable of a Dataset", rtol=max(tol["rtol"], 1e-6), atol=1e-4 if t == "f4" else 1e-9)
            r = tt
        else:
            r = cx.call(gc.nmse, A, B)
            U.need(isinstance(r, xr.DataArray), f"nmse returned {type(r).__name__}")
        U.need(set(r.dims) == set(order), f"nmse dims {r.dims}, expected {order}")
        return np.asarray(r.transpose(*order).values, float)

    r = run(o, m)
    want, ob, w = ref_nmse(of, m.astype(float), lat)
    U.close(r, want, f"nmse ({law})", **tol)
    valid = total > 0
    if law == "equal":
        U.need((r[valid] == 0).all(), "nmse of equal fields is not zero")
    elif law == "mean":
        U.close(r[valid], np.ones(r.shape)[valid], "nmse of the weighted mean", rtol=1e-3 if t == "f4" else 1e-6)
    elif law == "affine" and t == "f8":
        U.close(run(3.5 * o - 20, 3.5 * m - 20), r, "nmse of rescaled fields", rtol=1e-6, atol=1e-9)
    elif law == "slices" and case["extra"]:
        k = case["seed"] % case["extra"][0]
        one = dict(case, extra=case["extra"][1:], ds=False)
        a = cx.call(gc.nmse, nmse_da(one, o[k], case["perm"]), nmse_da(one, m[k], case["perm2"]))
        U.close(a.transpose(*[f"e{i}" for i in range(len(one["extra"]))]), r[k], "nmse of one slice", **tol)
    elif law == "swap-missing" and o.dtype.kind == "f" and m.dtype.kind == "f":
        # a point missing in one field is missing in both
        hole = np.isnan(o) | np.isnan(m)
        o2, m2 = np.where(hole, np.where(np.isnan(o), np.nan, o), o), np.where(hole, np.nan, m)
        U.close(run(o2, m2), r, "nmse with the same points missing in both", **tol)


# ---------------------------------------------------------------- T02 pearson_r
@st.composite
def pearson_case(draw, tier="quick"):
    nd = draw(st.integers(1, 3))
    big = 6 if tier == "quick" else 14
    shape = [draw(st.integers(2, big)) for _ in range(nd)]
    if U.rarely(draw, 30):
        shape[draw(st.integers(0, nd - 1))] = draw(st.sampled_from([33, 200, 1500]))
    box = draw(st.sampled_from(["np", "np", "list", "xr", "xr", "ds", "dask"]))
    over = draw(st.sampled_from(["all", "one", "one"] + (["two"] if nd > 2 else [])))
    axis = draw(st.integers(0, nd - 1))
    if (over == "one" or nd == 1) and shape[axis] < 7:
        shape[axis] = draw(st.sampled_from([3, 4, 6, 8, 12, 17]))
    return dict(shape=shape, box=box, over=over, axis=axis, neg=draw(st.booleans()), weights=draw(st.sampled_from(["no", "yes", "yes", "equal", "zeros", "wide"])),
                holes=draw(st.sampled_from(["no", "no", "a", "both"])), skipna=draw(st.booleans()), seed=draw(U.seeds), keep=draw(st.booleans()), perm=draw(U.seeds),
                law=draw(st.sampled_from(["value", "value", "symmetric", "self", "negate", "affine", "equal-weights", "lines", "permute"])), offset=draw(st.sampled_from([0.0, 0.0, 300.0])))


def ref_pearson(a, b, w, axes, skipna):
    ok = ~(np.isnan(a) | np.isnan(b))
    if skipna:
        w = np.where(ok, w, 0.0)
        a, b = np.where(ok, a, 0.0), np.where(ok, b, 0.0)
    with np.errstate(all="ignore"):
        tot = w.sum(axes, keepdims=True)
        am, bm = a - (w * a).sum(axes, keepdims=True) / tot, b - (w * b).sum(axes, keepdims=True) / tot
        return (w * am * bm).sum(axes) / np.sqrt((w * am * am).sum(axes) * (w * bm * bm).sum(axes))


@facet("T02", "pearson_r", lambda tier: pearson_case(tier), 2500, 40000,
       rule="arrays x container x reduced dimensions x weights x missing values x skipna x law; non-trivial with three or more samples per correlation")
def pearson(case, cx):
    shape, nd, box, s = tuple(case["shape"]), len(case["shape"]), case["box"], case["seed"]
    array = box in ("np", "list")
    over = "one" if array and case["over"] == "two" else case["over"]
    ax = case["axis"]
    axes = tuple(range(nd)) if over == "all" else (ax,) if over == "one" else tuple(sorted({ax, (ax + 1) % nd}))
    n = int(np.prod([shape[i] for i in axes]))
    a, b = U.field(s, shape, -5, 5) + case["offset"], U.field(s, shape, -5, 5, 1) - case["offset"]
    b = b + 0.6 * a * (1 if s % 2 else -1)
    if case["law"] == "self":
        b = a.copy()
    if case["holes"] != "no":
        a[U.uniform(s, a.size, 4).reshape(shape) < [0.05, 0.15][s % 2]] = np.nan
        if case["holes"] == "both":
            b[U.uniform(s, a.size, 5).reshape(shape) < [0.05, 0.15][s % 2]] = np.nan
    if case["law"] == "self":
        b = a.copy()
    wk = case["weights"]
    # labelled weights follow the reduced dimensions, those of arrays the whole array
    wshape = shape if array else tuple(shape[i] for i in axes)
    w = None if wk == "no" else np.full(wshape, 2.5) if wk == "equal" else U.field(s, wshape, 0.2, 3, 7)
    if wk == "wide":  # weights over many orders of magnitude
        w = 10.0 ** U.field(s, wshape, -9, 3, 7)
    if w is not None:
        w = w * 10.0 ** [0, 0, 0, -6, -14, 12][s % 6]   # a common factor of the weights means nothing
    if wk == "zeros":
        w = np.where(U.uniform(s, w.size, 8).reshape(wshape) < 0.2, 0.0, w)
    wfull = np.ones(shape) if w is None else w if array else np.broadcast_to(w.reshape([shape[i] if i in axes else 1 for i in range(nd)]), shape)
    ok = ~(np.isnan(a) | np.isnan(b)) & (wfull > 0)
    if case["skipna"]:
        if (ok.sum(axes) < 3).any() or n < 3:
            raise Skip("too few samples")
    elif (((wfull > 0).sum(axes)) < 3).any():
        raise Skip("too few samples")
    dims = ["time", "y", "x"][:nd]
    cx.label(box, over, "weights-" + wk, case["law"], "holes-" + case["holes"], "skipna" if case["skipna"] else "keepna")
    cx.interesting(n >= 3)

    def run(a, b, w=w, box=box):
        kw = {"skipna": True} if case["skipna"] else {}
        if w is not None:
            kw["weights"] = w
        if box in ("np", "list"):
            if over != "all":
                kw["axis"] = ax - nd if case["neg"] else ax
            f = (lambda v: v.tolist()) if box == "list" else (lambda v: v)
            if w is not None:
                kw["weights"] = f(w)
            r = cx.call(gc.pearson_r, f(a), f(b), **kw)
            U.need(r is not None and not isinstance(r, (xr.DataArray, xr.Dataset)), f"pearson_r of arrays returned {type(r).__name__}")
            return np.asarray(r, float)
        co = {d: np.arange(k) * 3 for d, k in zip(dims, shape)}
        A, B = (xr.DataArray(v, dims=dims, coords=co, attrs={"units": u}, name=u) for v, u in ((a, "a"), (b, "b")))
        B = B.transpose(*[dims[i] for i in U.perm(case["perm"], nd)])
        if box == "dask":
            ck = {d: (-1 if i in axes else 1) for i, d in enumerate(dims)}
            A, B = A.chunk(ck), B.chunk(ck)
        red = [dims[i] for i in axes]
        if over != "all":
            kw["dim"] = red[0] if over == "one" else red
        if w is not None:
            kw["weights"] = xr.DataArray(w, dims=red, coords={d: co[d] for d in red})
        if case["keep"]:
            kw["keep_attrs"] = True
        if box == "ds":
            r = cx.call(gc.pearson_r, xr.Dataset({"u": A, "v": A * 2}), xr.Dataset({"u": B, "v": -B}), **kw)
            U.need(isinstance(r, xr.Dataset) and set(r.data_vars) == {"u", "v"}, f"pearson_r of Datasets returned {type(r).__name__}")
            U.close(-r["v"], r["u"], "second variable of the Dataset", rtol=1e-9, atol=1e-9)
            r = r["u"]
        else:
            r = cx.call(gc.pearson_r, A, B, **kw)
        U.need(isinstance(r, xr.DataArray), f"pearson_r of DataArrays returned {type(r).__name__}")
        left = [d for d in dims if d not in red]
        U.need(set(r.dims) == set(left), f"dims {r.dims}, expected {left}")
        U.need(r.attrs == (A.attrs if case["keep"] else {}), f"attrs {r.attrs} with keep_attrs={case['keep']}")
        for d in left:
            U.same(r[d], co[d], f"coordinate {d}")
        return np.asarray(r.transpose(*left).values, float)

    tol = dict(rtol=1e-8, atol=1e-9) if not case["offset"] else dict(rtol=1e-6, atol=1e-8)
    r = run(a, b)
    want = ref_pearson(a, b, wfull, axes, case["skipna"])
    U.close(r, np.clip(want, -1, 1), f"pearson_r ({box}, {over})", **tol)
    U.need((np.abs(r[~np.isnan(r)]) <= 1).all(), "correlation outside [-1, 1]")
    law = case["law"]
    if law == "symmetric":
        U.close(run(b, a), r, "pearson_r with the arguments exchanged", **tol)
    elif law == "self":
        U.close(r[~np.isnan(r)], np.ones(np.sum(~np.isnan(r))), "correlation with itself", rtol=1e-9)
    elif law == "negate":
        U.close(run(a, -b), -r, "pearson_r with one argument negated", **tol)
    elif law == "affine":
        U.close(run(3 * a + 7, 0.5 * b - 2), r, "pearson_r of rescaled arguments", **tol)
    elif law == "equal-weights" and w is None:
        U.close(run(a, b, np.full(wshape, 1.7)), r, "pearson_r with equal weights", **tol)
    elif law == "lines" and over == "one" and nd > 1:
        k = s % shape[(ax + 1) % nd]
        other = (ax + 1) % nd
        sub = dict(case, shape=[shape[ax]], axis=0, over="one", box="np", law="value")
        ia = np.moveaxis(a, (ax, other), (0, 1))[:, k].reshape(shape[ax], -1)[:, 0]
        ib = np.moveaxis(b, (ax, other), (0, 1))[:, k].reshape(shape[ax], -1)[:, 0]
        iw = np.moveaxis(wfull, (ax, other), (0, 1))[:, k].reshape(shape[ax], -1)[:, 0]
        one = cx.call(gc.pearson_r, ia, ib, skipna=case["skipna"], **({} if w is None else {"weights": iw.copy()}))
        idx = [0] * (nd - 1)
        rest = [i for i in range(nd) if i != ax]
        idx[rest.index(other)] = k
        U.close(np.asarray(one, float), np.asarray(r[tuple(idx)]), "pearson_r of one line", **tol)
    elif law == "permute":
        o = U.perm(s, shape[ax])
        if ax in axes:
            ww = None if w is None else np.take(w, o, ax if array else axes.index(ax))
            U.close(run(np.take(a, o, ax), np.take(b, o, ax), ww), r, "pearson_r of permuted samples", **tol)


# ---------------------------------------------------------------- T03 EOF analysis
@st.composite
def eof_case(draw, tier="quick"):
    big = 6 if tier == "quick" else 12
    nt = draw(st.integers(2, 8 if tier == "quick" else 20))
    space = draw(st.lists(st.integers(1, big), min_size=1, max_size=3 if tier == "thorough" else 2))
    if int(np.prod(space)) == 1 and draw(st.integers(0, 9)):
        space = [draw(st.integers(2, big))] + space[1:]
    if U.rarely(draw, 30):
        nt, space = draw(st.sampled_from([[3, [20, 20]], [40, [8, 9]], [130, [5]], [60, [61]], [25, [26]], [400, [3]], [12, [40, 50]]]))
    box = draw(st.sampled_from(["np", "np", "xr", "xr", "list"]))
    ax = 0 if box == "xr" else draw(st.integers(0, len(space)))
    return dict(nt=nt, space=space, box=box, axis=ax, neg=draw(st.booleans()), n=draw(st.one_of(st.none(), st.integers(1, 4), st.sampled_from([11, 30]))),
                seed=draw(U.seeds), holes=draw(st.integers(0, 2)) == 0, center=draw(st.sampled_from([True, True, True, False])), ddof=draw(st.sampled_from([1, 1, 0])),
                weights=draw(st.sampled_from(["no", "no", "full", "row"])), escale=draw(st.sampled_from([0, 0, 1, 2])), pscale=draw(st.sampled_from([0, 0, 1, 2])),
                vf=draw(st.booleans()), meta=draw(st.booleans()), td=draw(st.integers(0, 2)), aux=draw(st.booleans()), datetime=draw(st.booleans()))


@facet("T03", "eof", lambda tier: eof_case(tier), 1800, 15000,
       rule="space-time data x position of time x container x number of modes x missing points x weights x centring x ddof x scalings; non-trivial with two or more modes in the data")
def eof(case, cx):
    nt, sp, s = case["nt"], tuple(case["space"]), case["seed"]
    x = U.field(s, (nt,) + sp, -5, 5) * (1 + U.uniform(s, int(np.prod(sp)), 3).reshape(sp))
    hole = np.zeros(sp, bool)
    if case["holes"] and int(np.prod(sp)) > 1:
        hole = U.uniform(s, hole.size, 4).reshape(sp) < 0.3
        hole.reshape(-1)[0] = False
        gone = np.broadcast_to(hole, x.shape)
        if case["center"] and s % 2:
            # a point is missing when any of its times is (documented for centred data)
            gone = gone & (U.uniform(s, x.size, 9).reshape(x.shape) < 0.4)
            hole = gone.any(0)
        x[gone] = np.nan
    w = None
    if case["weights"] == "full":
        w = U.field(s, sp, 0.5, 2, 5)
    elif case["weights"] == "row":
        w = U.field(s, sp[:1] + (1,) * (len(sp) - 1), 0.5, 2, 6)
    ddof = case["ddof"]
    if nt - ddof < 1:
        raise Skip("one sample")
    valid = ~hole.reshape(-1)
    if valid.sum() < 2:
        raise Skip("one point: rejected by the eofs package")
    X = x.reshape(nt, -1)[:, valid]
    if w is not None:
        X = X * np.broadcast_to(w, sp).reshape(-1)[valid]
    if case["center"]:
        X = X - X.mean(0)
    sv = np.linalg.svd(X, compute_uv=False)
    lam = sv ** 2 / (nt - ddof)
    modes = len(lam)
    rank = int((sv > 1e-8 * max(sv[0], 1e-300)).sum())
    if sv[0] < 1e-6:
        raise Skip("constant data")
    n = case["n"] or modes + 2
    k = min(n, modes)
    ke = min(k, rank)       # modes with a variance: the scalings divide by it
    ax = case["axis"]
    cx.label(case["box"], f"axis{ax}", "weights-" + case["weights"], "holes" if hole.any() else "full", "centred" if case["center"] else "raw", f"scale{case['escale']}{case['pscale']}",
             "meta" if case["meta"] else "plain", "all-modes" if k == modes else "leading")
    cx.interesting(rank >= 2)
    kw = dict(center=case["center"], ddof=ddof)
    names = ["p", "q", "r"][: len(sp)]
    if w is not None:
        kw["weights"] = xr.DataArray(w, dims=names) if case["box"] == "xr" and w.shape == sp and s % 3 == 0 else w
    if case["box"] == "xr":
        t = np.datetime64("2001-01-31", "ns") + np.arange(nt) * np.timedelta64(30, "D") if case["datetime"] else np.arange(nt) * 2.0
        co = {"time": t, **{d: np.arange(m) * 5 for d, m in zip(names, sp)}}
        if case["aux"]:
            co.update(area=(tuple(names), np.ones(sp)), month=("time", np.arange(nt)), ref=3.0)
        arg = xr.DataArray(x, dims=["time"] + names, coords=co, name="sst", attrs={"units": "K", "n": 1})
        kw["meta"] = case["meta"]
        if case["td"]:
            kw["time_dim"] = case["td"] % (1 + len(sp))       # documented as ignored
    else:
        a = np.moveaxis(x, 0, ax)
        arg = a.tolist() if case["box"] == "list" else a
        if ax or case["td"] == 1:
            kw["time_dim"] = ax - a.ndim if case["neg"] and ax else ax
    e = cx.call(gc.eofunc_eofs, arg, neofs=n, eofscaling=case["escale"], vfscaled=case["vf"], **kw)
    p = cx.call(gc.eofunc_pcs, arg, npcs=n, pcscaling=case["pscale"], **kw)
    U.need(isinstance(e, xr.DataArray) and isinstance(p, xr.DataArray), "EOFs and PCs are DataArrays")
    U.need(e.shape == (k,) + sp, f"EOF shape {e.shape}, expected {(k,) + sp}")
    U.need(p.shape == (k, nt) and p.dims == ("pc", "time"), f"PC shape {p.shape} dims {p.dims}, expected {(k, nt)}")
    U.need(e.dims[0] == "eof" and "time" not in e.dims, f"EOF dims {e.dims}")
    scale = float(lam[0])
    tot = float(lam.sum())
    at = e.attrs
    U.close(at["eigenvalues"], lam[:k], "eigenvalues", rtol=1e-8, scale=scale)
    U.close(at["varianceFraction"], lam[:k] / tot, "variance fractions", rtol=1e-8, scale=1.0)
    U.close(np.asarray(at["totalAnomalyVariance"]), np.asarray(tot), "total variance", rtol=1e-9)
    north = lam[:k] * math.sqrt(2 / nt) / (tot if case["vf"] else 1)
    U.close(at["northTest"], north, "North test", rtol=1e-8, scale=float(north[0]))
    E, P = U.plain(e).reshape(k, -1).astype(float), U.plain(p).astype(float)
    U.need(np.isnan(E[:, ~valid]).all(), "EOFs defined where data are missing")
    E = E[:, valid][:ke]
    P = P[:ke]
    U.need(not np.isnan(E).any() and not np.isnan(P).any(), "missing values in EOFs or PCs")
    sd = np.sqrt(lam[:ke])
    # undo the scalings
    E0 = E * sd[:, None] if case["escale"] == 1 else E / sd[:, None] if case["escale"] == 2 else E
    P0 = P * sd[:, None] if case["pscale"] == 1 else P / sd[:, None] if case["pscale"] == 2 else P
    U.close(E0 @ E0.T, np.eye(ke), "EOFs orthonormal", atol=1e-7)
    U.close(P0, E0 @ X.T, "PCs as projections of the anomalies on the EOFs", rtol=1e-6, scale=float(np.abs(X).max()) * 3)
    U.close(P0 @ P0.T / (nt - ddof), np.diag(lam[:ke]), "covariance of the PCs", rtol=1e-7, scale=scale)
    if k >= rank:
        U.close(P0.T @ E0, X, "anomalies from PCs and EOFs", rtol=1e-7, scale=float(np.abs(X).max()))
    C = X.T @ X / (nt - ddof)
    U.close(E0 @ C, E0 * lam[:ke, None], "EOFs as eigenvectors of the covariance", rtol=1e-6, scale=scale)
    if case["box"] == "xr" and case["meta"]:
        U.need(e.dims == ("eof",) + tuple(names), f"EOF dims {e.dims}")
        U.need("time" not in e.coords and "month" not in e.coords, "EOFs carry time coordinates")
        for d in names + (["area"] if case["aux"] else []):
            U.same(e[d], arg[d], f"EOF coordinate {d}")
        U.same(p["time"], arg["time"], "PC time coordinate")
        U.need(e.attrs.get("units") == "K" and p.attrs.get("units") == "K", "metadata not copied")
    elif case["box"] == "xr":
        U.need("units" not in e.attrs and "units" not in p.attrs, "metadata copied without meta")
    if case["box"] == "xr":
        U.need(arg.attrs == {"units": "K", "n": 1}, f"input attributes became {arg.attrs}")


ASSUMPTIONS["T01"] = ["observations not constant (the metric is a ratio to their variance)"]
ASSUMPTIONS["T02"] = ["three or more valid samples per correlation; weights given along the reduced dimensions (labelled) or for every element (arrays)"]
ASSUMPTIONS["T03"] = ["two or more points with data (the eofs package rejects one)", "eigenvectors are compared through the relations that define them, so ordering within equal eigenvalues and signs are free"]
