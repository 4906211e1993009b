"""S01, S02: spherical harmonics and Voronoi weights."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, cKDTree
from scipy.special import lpmv

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, Skip, facet, probe


def pairs(L):
    return [(n, m) for n in range(L + 1) for m in range(n + 1)]


def harmonic(n, m, lon, colat):
    """Orthonormal Y_n^m with the Condon-Shortley phase."""
    norm = math.sqrt((2 * n + 1) / (4 * math.pi) * math.exp(math.lgamma(n - m + 1) - math.lgamma(n + m + 1)))
    return norm * lpmv(m, n, np.cos(colat)) * np.exp(1j * m * lon)


@st.composite
def harm_case(draw, tier="quick"):
    top = 7 if tier == "quick" else 23
    L = draw(st.integers(0, top))
    if U.rarely(draw, 40):
        L = draw(st.sampled_from([12, 23, 23, 27]))
    lmax = draw(st.integers(0, L))       # band limit of the data
    return dict(L=L, lmax=lmax, nlat=L + 1 + draw(st.integers(0, 3)), nlon=2 * L + 1 + draw(st.integers(0, 3)), seed=draw(U.seeds),
                lon0=draw(st.sampled_from([0.0, 0.3, -3.14])), flip=draw(st.booleans()), lonrev=draw(st.booleans()),
                wscale=draw(st.sampled_from([1.0, 1.0, 1 / (4 * math.pi), 5.1e14, 1e-9, 1e-20, 1e20])),
                size=draw(st.sampled_from([1.0, 1.0, 1e-18, 1e15])),
                box=draw(st.sampled_from(["np", "xr", "xr", "dask", "xr_np", "xr_T"])), one=draw(st.integers(0, 3)) == 0,
                law=draw(st.sampled_from(["round", "round", "linear", "truncate", "orthogonal", "any-field"])))


def grid(case):
    """Gauss-Legendre latitudes x even longitudes: exact for the band-limited products."""
    x, w = np.polynomial.legendre.leggauss(case["nlat"])
    colat = np.arccos(x)[:: 1 if case["flip"] else -1]
    w = w[:: 1 if case["flip"] else -1]
    k = case["nlon"]
    lon = case["lon0"] + 2 * np.pi * np.arange(k) / k
    if case["lonrev"]:
        lon = lon[::-1]
    th, ph = np.meshgrid(lon, colat)
    return th, ph, np.outer(w, np.full(k, 2 * np.pi / k))


def coefs(case, stream=0):
    """Coefficients up to lmax, zeros up to L; those with m=0 are real."""
    p = pairs(case["L"])
    c = U.field(case["seed"], (len(p),), -3, 3, stream) + 1j * U.field(case["seed"], (len(p),), -3, 3, stream + 1)
    if case["one"]:
        keep = np.zeros(len(p))
        keep[case["seed"] % len(p)] = 1
        c = c * keep
    n, m = np.array(p).T
    c = np.where(m == 0, c.real + 0j, c)
    return np.where(n <= case["lmax"], c, 0)


def field_of(case, c, th, ph):
    """Sum of Re(a) Re(Y) + Im(a) Im(Y)."""
    out = np.zeros(th.shape)
    for (n, m), a in zip(pairs(case["L"]), c):
        y = harmonic(n, m, th, ph)
        out += y.real * a.real + y.imag * a.imag
    return out


def x2(a):
    return xr.DataArray(a, dims=["lat", "lon"], coords={"lat": np.arange(a.shape[0]), "lon": np.arange(a.shape[1]) * 2.0})


def boxes(case, *arrs):
    b = case["box"]
    if b == "np":
        return arrs
    if b == "xr_np":
        return (x2(arrs[0]),) + arrs[1:]
    out = [x2(a) for a in arrs]
    if b == "xr_T":
        return [o.transpose("lon", "lat") for o in out]
    return [o.chunk({"lat": 2, "lon": 3}) for o in out] if b == "dask" else out


def decompose(case, cx, f, sc, th, ph, L=None):
    L = case["L"] if L is None else L
    z = case["size"]
    r = cx.call(gc.decomposition, *boxes(case, f if z == 1 else f * z, sc, th, ph), L)
    r = r if z == 1 else r / z
    if case["box"] != "np":
        U.need(isinstance(r, xr.DataArray) and r.dims == ("harmonic",), f"decomposition of a DataArray gave {type(r).__name__} {getattr(r, 'dims', '')}")
    else:
        U.need(isinstance(r, np.ndarray), f"decomposition of an array gave {type(r).__name__}")
    U.need(U.plain(r).shape == (len(pairs(L)),), f"{U.plain(r).shape} coefficients for max_harm={L}")
    return r


def recompose(case, cx, c, th, ph, L=None):
    L = case["L"] if L is None else L
    b, z = case["box"], case["size"]
    if b in ("np", "xr_np"):
        r = cx.call(gc.recomposition, U.plain(c) * z, th, ph, L)
        U.need(isinstance(r, np.ndarray), f"recomposition of an array gave {type(r).__name__}")
        return r / z
    c = c if isinstance(c, xr.DataArray) else xr.DataArray(c, dims=["h" if case["seed"] % 2 else "harmonic"])
    if b == "dask" and c.chunks is None:
        c = c.chunk(2)
    t, p = boxes(case, th, ph)
    r = cx.call(gc.recomposition, c if z == 1 else c * z, t, p, L) / z
    U.need(isinstance(r, xr.DataArray) and r.dims == t.dims, f"recomposition gave {type(r).__name__} {getattr(r, 'dims', '')}, expected {t.dims}")
    return r.transpose("lat", "lon")


def cclose(got, want, what, scale):
    g, w = U.plain(got), np.asarray(want)
    U.close(g.real, w.real, what + " (real part)", rtol=1e-8, scale=scale)
    if np.iscomplexobj(w):
        U.close(g.imag, w.imag, what + " (imaginary part)", rtol=1e-8, scale=scale)


@facet("S01", "transform", lambda tier: harm_case(tier), 1500, 6000,
       rule="coefficient sets of band limit 0..max_harm x Gauss-Legendre grids (either latitude order, longitude origin and direction) x weight scale x size of the numbers x container x law; non-trivial with degree 1 or more")
def transform(case, cx):
    th, ph, w = grid(case)
    sc = w * case["wscale"]
    c = coefs(case)
    f = field_of(case, c, th, ph)
    scale = max(1.0, float(np.abs(f).max()))
    cx.label(case["box"], case["law"], f"L{case['L']}")
    cx.interesting(case["L"] >= 1)
    law = case["law"]
    if law == "round":
        back = recompose(case, cx, c, th, ph)
        U.close(back, f, "recomposition", rtol=1e-8, scale=scale)
        d = decompose(case, cx, f, sc, th, ph)
        cclose(d, c, "decomposition of a recomposed field", scale)
        U.close(recompose(case, cx, d, th, ph), f, "recomposition of a decomposed field", rtol=1e-8, scale=scale)
    elif law == "linear":
        c2 = coefs(dict(case, one=False), 5)
        g = field_of(case, c2, th, ph)
        cclose(decompose(case, cx, 2 * f - 3 * g, sc, th, ph), 2 * c - 3 * c2, "decomposition of a combination", 10 * scale)
        U.close(recompose(case, cx, 2 * c - 3 * c2, th, ph), 2 * f - 3 * g, "recomposition of a combination", rtol=1e-8, scale=10 * scale)
    elif law == "truncate":
        # fewer harmonics: the leading coefficients unchanged
        low = case["lmax"] if case["lmax"] < case["L"] else max(case["L"] - 1, 0)
        cclose(decompose(case, cx, f, sc, th, ph, low), c[: len(pairs(low))], "truncated decomposition", scale)
        if case["L"] == 23:
            r = cx.call(gc.decomposition, *boxes(case, f, sc, th, ph))
            cclose(r, c, "default max_harm", scale)
    elif law == "orthogonal":
        k = case["seed"] % len(pairs(case["L"]))
        n, m = pairs(case["L"])[k]
        for part in ("real", "imag") if m else ("real",):
            e = np.zeros(len(pairs(case["L"])), complex)
            e[k] = 1 if part == "real" else 1j
            y = harmonic(n, m, th, ph)
            cclose(decompose(case, cx, y.real if part == "real" else y.imag, sc, th, ph), e, f"harmonic {n},{m} {part}", 1.0)
    else:
        # any field: the weighted projections onto each harmonic
        g = U.field(case["seed"], th.shape, -4, 4, 9)
        if case["seed"] % 5 == 0:
            g = np.round(g).astype(int)
        want = [(2 if m else 1) * 4 * np.pi / sc.sum() * (g * sc * harmonic(n, m, th, ph)).sum() for n, m in pairs(case["L"])]
        cclose(decompose(case, cx, g, sc, th, ph), np.array(want), "projection of any field", 10.0)


@st.composite
def harm_large(draw, tier="quick"):
    case = draw(harm_case("quick"))
    big = draw(st.booleans())   # many points or many harmonics
    L = draw(st.sampled_from([3, 23] if big else [32, 40]))
    return dict(case, L=L, lmax=draw(st.sampled_from([L, L // 2])), nlat=max(L + 1, draw(st.integers(40, 70)) if big else 0), nlon=max(2 * L + 1, draw(st.integers(80, 150)) if big else 0))


@facet("S01", "large", lambda tier: harm_large(tier), 24, 400, weight=20,
       rule="as 'transform' on grids of up to 70 x 150 points and up to 861 harmonics; all are non-trivial")
def large(case, cx):
    transform(case, cx)


# ---------------------------------------------------------------- Voronoi
@st.composite
def voronoi_case(draw, tier="quick"):
    ny, nx = draw(st.integers(2, 5 if tier == "quick" else 10)), draw(st.integers(2, 6 if tier == "quick" else 12))
    if U.rarely(draw, 40):
        ny, nx = draw(st.sampled_from([(8, 16), (15, 20), (18, 36)]))
    return dict(ny=ny, nx=nx, kind=draw(st.sampled_from(["random", "random", "grid", "gauss", "clustered", "close"])), sep=draw(st.sampled_from([3e-6, 1e-5, 1e-4, 1e-3, 1e-2])), seed=draw(U.seeds),
                box=draw(st.sampled_from(["np", "xr"])), law=draw(st.sampled_from(["areas", "areas", "permute", "rotate", "symmetric"])))


def points(case):
    ny, nx, s = case["ny"], case["nx"], case["seed"]
    k = case["kind"]
    if k in ("grid", "gauss"):
        ny, nx = max(ny, 2), max(nx, 3)
        lon = 2 * np.pi * np.arange(nx) / nx
        col = np.pi * (np.arange(ny) + 0.5) / ny if k == "grid" else np.arccos(np.polynomial.legendre.leggauss(ny)[0])
        th, ph = np.meshgrid(lon, col)
        return th, ph
    n = ny * nx
    z = U.gauss(s, (n, 3), 3)
    if k == "clustered":
        z = z * np.array([1, 1, 0.3])
        z[: n // 2] = z[: n // 2] * 0.2 + np.array([1.0, 0.5, 0.2])
    z /= np.linalg.norm(z, axis=1)[:, None]
    if k == "close":
        z[-1] = z[0] + case["sep"] * np.cross(z[0], z[1])
        z[-1] /= np.linalg.norm(z[-1])
    th, ph = np.arctan2(z[:, 0], z[:, 1]), np.arccos(z[:, 2])
    return th.reshape(ny, nx), ph.reshape(ny, nx)


def xyz(th, ph):
    return np.stack([np.sin(ph) * np.cos(th), np.sin(ph) * np.sin(th), np.cos(ph)], -1).reshape(-1, 3)


def cell_areas(p):
    """Cell areas from the convex hull: each facet's circumcentre joined to its corners and edge mid-points."""
    hull = ConvexHull(p)
    out = np.zeros(len(p))

    def tri(a, b, c):
        num = np.dot(a, np.cross(b, c))
        return 2 * math.atan2(num, 1 + np.dot(a, b) + np.dot(b, c) + np.dot(c, a))

    for f, eq in zip(hull.simplices, hull.equations):
        o = eq[:3] / np.linalg.norm(eq[:3])
        v = p[f]
        if np.dot(np.cross(v[1] - v[0], v[2] - v[0]), o) < 0:
            f = f[[0, 2, 1]]
            v = p[f]
        for i in range(3):
            j = (i + 1) % 3
            mid = v[i] + v[j]
            nm = np.linalg.norm(mid)
            if nm < 1e-9:
                raise Skip("antipodal neighbours")
            mid = mid / nm
            out[f[i]] += tri(v[i], mid, o)
            out[f[j]] += tri(mid, v[j], o)
    return out


def cell_areas_fast(p):
    """The same for all facets at once."""
    hull = ConvexHull(p)
    o = hull.equations[:, :3] / np.linalg.norm(hull.equations[:, :3], axis=1)[:, None]
    f = hull.simplices.copy()
    v = p[f]
    back = (np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0]) * o).sum(-1) < 0
    f[back] = f[back][:, [0, 2, 1]]
    v = p[f]
    out = np.zeros(len(p))

    def tri(a, b, c):
        d = lambda x, y: (x * y).sum(-1)
        return 2 * np.arctan2(d(a, np.cross(b, c)), 1 + d(a, b) + d(b, c) + d(c, a))

    for i in range(3):
        j = (i + 1) % 3
        mid = v[:, i] + v[:, j]
        mid /= np.linalg.norm(mid, axis=1)[:, None]
        np.add.at(out, f[:, i], tri(v[:, i], mid, o))
        np.add.at(out, f[:, j], tri(mid, v[:, j], o))
    return out


@facet("S02", "voronoi", lambda tier: voronoi_case(tier), 1200, 12000,
       rule="point sets (random, clustered, with a close pair, latitude-longitude, Gaussian) x container x law; non-trivial with unequal cells")
def voronoi(case, cx):
    th, ph = points(case)
    p = xyz(th, ph)
    if len(p) < 4:
        raise Skip("fewer than four points")
    d = np.linalg.norm(p[:, None] - p[None], axis=-1) + 9 * np.eye(len(p))
    if d.min() < 2e-6:
        raise Skip("points coincide")
    if np.linalg.svd(p - p.mean(0), compute_uv=False)[-1] < 1e-2:
        raise Skip("points in one plane")
    hull = ConvexHull(p)
    if (hull.equations[:, 3] > -0.05).any():
        raise Skip("the points do not surround the centre")
    want = cell_areas(p).reshape(th.shape)
    cx.label(case["kind"], case["box"], case["law"])
    cx.interesting(np.ptp(want) > 1e-6)

    def run(t, q):
        if case["box"] == "xr":
            r = cx.call(gc.scale_voronoi, x2(t), x2(q))
            # a bare array here is a recorded finding, see the probe
            U.need(isinstance(r, np.ndarray) or r.dims == ("lat", "lon"), f"scale_voronoi of DataArrays gave {type(r).__name__}")
        else:
            r = cx.call(gc.scale_voronoi, t, q)
            U.need(isinstance(r, np.ndarray), f"scale_voronoi of arrays gave {type(r).__name__}")
        return U.plain(r)

    r = run(th, ph)
    U.close(r, want, "Voronoi areas", rtol=1e-6, atol=1e-6)
    U.close(np.array([r.sum()]), np.array([4 * np.pi]), "sum of the weights", rtol=1e-9)
    U.need((r > 0).all(), "weights not positive")
    law = case["law"]
    if law == "permute":
        o = U.perm(case["seed"], r.size)
        U.close(run(th.reshape(-1)[o].reshape(th.shape), ph.reshape(-1)[o].reshape(th.shape)).reshape(-1), r.reshape(-1)[o], "weights of permuted points", rtol=1e-7, atol=1e-8)
    elif law == "rotate":
        q, _ = np.linalg.qr(U.gauss(case["seed"], (3, 3), 8))
        z = p @ q.T
        U.close(run(np.arctan2(z[:, 1], z[:, 0]).reshape(th.shape), np.arccos(np.clip(z[:, 2], -1, 1)).reshape(th.shape)), r, "weights of rotated points", rtol=1e-6, atol=1e-7)
    elif law == "symmetric" and case["kind"] in ("grid", "gauss"):
        U.close(r, np.broadcast_to(r[:, :1], r.shape), "weights along a latitude", rtol=1e-7)
        U.close(r[::-1], r, "weights of opposite latitudes", rtol=1e-7)


@st.composite
def voronoi_large(draw, tier="quick"):
    ny, nx = draw(st.sampled_from([(40, 26), (36, 72), (45, 90), (64, 80)] + ([(90, 180), (128, 256)] if tier == "thorough" else [])))
    return dict(ny=ny, nx=nx, kind=draw(st.sampled_from(["random", "random", "gauss", "clustered"])), sep=1e-3, seed=draw(U.seeds), box=draw(st.sampled_from(["np", "xr"])))


@facet("S02", "many points", lambda tier: voronoi_large(tier), 50, 300, weight=30,
       rule="1040 to 5120 (thorough: 32768) points, random, clustered or Gaussian; all are non-trivial")
def voronoi_many(case, cx):
    th, ph = points(case)
    p = xyz(th, ph)
    if cKDTree(p).query(p, k=2)[0][:, 1].min() < 2e-5:
        raise Skip("points coincide")
    cx.label(case["kind"], case["box"], f"n{len(p)}")
    cx.interesting()
    a = (x2(th), x2(ph)) if case["box"] == "xr" else (th, ph)
    r = U.plain(cx.call(gc.scale_voronoi, *a))
    want = cell_areas_fast(p).reshape(th.shape)
    U.close(r, want, "Voronoi areas", rtol=2e-6, atol=1e-10)
    U.close(np.array([r.sum()]), np.array([4 * np.pi]), "sum of the weights", rtol=1e-9)


@probe("S02", "voronoi-type")
def voronoi_type():
    th, ph = np.meshgrid(2 * np.pi * np.arange(4) / 4, np.pi * (np.arange(3) + 0.5) / 3)
    try:
        r = gc.scale_voronoi(x2(th), x2(ph))
    except Exception as e:  # noqa: BLE001
        return f"scale_voronoi raised {type(e).__name__}"
    return None if isinstance(r, xr.DataArray) else "known" if isinstance(r, np.ndarray) else type(r).__name__


ASSUMPTIONS["S01"] = ["theta, phi and scale are given in the dimension order of the data"]
ASSUMPTIONS["S02"] = ["at least four distinct points that surround the centre of the sphere"]
