"""Hybrid-sigma columns: generated data sets and per-column reference arithmetic."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from . import util as U

MANDATORY = [1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]
NAMES = ["time", "lat", "lon"]


@st.composite
def column_case(draw, tier="quick", max_lev=9, min_lev=2, dtypes=("f8", "f8", "f4", "i4")):
    nd = draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
    dims = draw(st.permutations(["lev"] + NAMES[3 - nd:]))
    return dict(
        dims=list(dims), sizes={d: draw(st.integers(1, 3 if tier == "quick" else 4)) for d in NAMES},
        nlev=draw(st.integers(min_lev, max_lev if tier == "quick" else 3 * max_lev)), seed=draw(U.seeds),
        ps_perm=draw(st.integers(0, 5)), lev_name=draw(st.sampled_from(["lev", "lev", "k", "hybrid"])),
        flip=draw(st.booleans()), p0=draw(st.sampled_from([100000.0, 100000.0, 101325.0, 1000.0, 1.0])),
        pure=draw(st.sampled_from(["mix", "mix", "sigma", "pressure"])), dtype=draw(st.sampled_from(dtypes)),
        coords=draw(st.booleans()), hcoords=draw(st.booleans()), desc=draw(st.booleans()), aux=draw(st.booleans()),
        relief=draw(st.sampled_from([0.0, 0.05, 0.4])), field=draw(st.sampled_from(["warm", "warm", "wind", "tiny", "big"])),
    )


@st.composite
def large(draw, base):
    """The same case with many levels, many columns or both."""
    c = draw(base)
    k = draw(st.sampled_from(["levels", "columns", "columns", "both", "both"]))
    s = draw(U.seeds)
    u = U.uniform(s, 4)
    if k != "columns":
        c["nlev"] = [32, 60, 91][int(u[0] * 3)]
        if "nhyb" in c:
            c["nhyb"] = [20, 50, 70][int(u[1] * 3)]
    if k != "levels":
        if len(c["dims"]) < 2:
            c["dims"] = ["lev", "lat", "lon"]
        # about this many columns in all
        others = [d for d in c["dims"] if d != "lev"]
        n = ([300, 1100, 2500] if k == "columns" else [60, 400, 700])[int(u[2] * 3)]
        side = int(round(n ** (1 / len(others)))) + int(u[3] * 3)
        c["sizes"] = {d: side + i for i, d in enumerate(NAMES)}
    return dict(c, large=k)


class Columns:
    """data, ps, hyam, hybm as DataArrays plus plain column-first arrays."""

    def __init__(self, c, stream=0, hyb_levels=None):
        self.c = c
        nlev = c["nlev"]
        self.lev = c["lev_name"]
        steps = 0.05 + U.uniform(c["seed"], nlev + 1, 11)
        eta = np.cumsum(steps)
        eta = 0.002 + (0.996 - 0.002) * (eta - eta[0]) / (eta[-1] - eta[0])
        eta = eta[:nlev] if stream % 2 == 0 else eta[1:]
        self.a, self.b = self.ab(eta, c)
        if c["flip"]:
            self.a, self.b, eta = self.a[::-1].copy(), self.b[::-1].copy(), eta[::-1].copy()
        self.levcoord = eta * 1000.0
        self.odims = [d for d in c["dims"] if d != "lev"]
        self.oshape = tuple(c["sizes"][d] for d in self.odims)
        self.dims = [self.lev if d == "lev" else d for d in c["dims"]]
        self.axis = c["dims"].index("lev")
        ps0 = c["p0"] * (1.02 - c["relief"] * U.field(c["seed"], self.oshape, 0, 1, 12))
        self.psv = np.asarray(ps0)
        # values (other dims first, level last)
        raw = 250 + 15 * U.gauss(c["seed"], self.oshape + (nlev,), 13)
        # temperatures; numbers of both signs; very small and very large ones
        field = c.get("field", "warm")
        if field == "tiny" and c["dtype"].startswith("i"):
            field = "warm"
        raw = {"warm": raw, "wind": raw - 250, "tiny": (raw - 200) * 1e-8, "big": raw * 2e4}[field]
        self.scale = {"warm": 300, "wind": 60, "tiny": 1e-6, "big": 6e6}[field]
        if c["dtype"].startswith("i"):
            raw = np.round(raw)
        self.v = raw.astype(c["dtype"])
        if c.get("nan") and not c["dtype"].startswith("i"):
            m = U.uniform(c["seed"], self.v.size, 14).reshape(self.v.shape) < c["nan"]
            self.v[m] = np.nan
        self.p = self.a * c["p0"] + self.b * self.psv[..., None]

    @staticmethod
    def ab(eta, c):
        """a + b = eta, both making p monotonic in eta for any ps above half the reference."""
        if c["pure"] == "sigma":
            b = eta.copy()
        elif c["pure"] == "pressure":
            b = 0 * eta
        else:
            f = U.uniform(c["seed"], len(eta), 15)
            f[0] = 0
            b = np.cumsum(f * np.diff(eta, prepend=0))
        return eta - b, b

    def coords_for(self, d):
        n = self.c["sizes"][d]
        v = {"time": np.arange(n) + 1.0, "lat": -30.0 + 12.5 * np.arange(n), "lon": 5.0 + 40 * np.arange(n)}[d]
        if self.c["desc"] and d == "lat":
            v = v[::-1].copy()
        return v

    def oc(self):
        return {d: (d, self.coords_for(d), {"units": d}) for d in self.odims} if self.c["coords"] else {}

    def data(self, levattrs=None):
        c = self.c
        co = self.oc()
        co[self.lev] = (self.lev, self.levcoord, dict(levattrs or {}))
        if c["aux"]:
            co["date"] = 20200101
            co["layer"] = (self.lev, np.arange(c["nlev"]))
            if self.odims:
                co["cell"] = (self.odims[0], np.arange(self.oshape[0]) * 7)
        v = np.moveaxis(self.v, -1, self.axis)
        return xr.DataArray(v.copy(), dims=self.dims, coords=co, name="T", attrs={"units": "K", "long_name": "temp"})

    def flat(self, v, name, perm=None):
        """A DataArray over the non-level dimensions, dimensions permuted."""
        import itertools

        da = xr.DataArray(np.array(v), dims=self.odims, coords=self.oc(), name=name, attrs={"units": "Pa"})
        orders = list(itertools.permutations(self.odims))
        return da.transpose(*orders[(self.c["ps_perm"] if perm is None else perm) % len(orders)])

    def ps(self):
        return self.flat(self.psv, "PS")

    def coef(self, v, name):
        co = {self.lev: self.levcoord} if self.c["hcoords"] else {}
        return xr.DataArray(v.copy(), dims=[self.lev], coords=co, name=name)

    def hyam(self):
        return self.coef(self.a, "hyam")

    def hybm(self):
        return self.coef(self.b, "hybm")


def interp_column(p, y, x, method, end=1e-9):
    """Values at x, and a mask of 'either of these is fine' positions.

    Returns (value, nan_ok, dontcare): value is NaN outside the column; nan_ok marks
    targets numerically on an end level; dontcare marks targets numerically on a
    level next to a missing sample.
    """
    o = np.argsort(p)
    p, y = p[o], y[o].astype(float)
    out, nan_ok, dont = [], [], []
    for t in x:
        lo, hi = t < p[0] * (1 - end), t > p[-1] * (1 + end)
        ends = abs(t - p[0]) <= end * p[0] or abs(t - p[-1]) <= end * p[-1]
        if lo or hi:
            out.append(math.nan)
        else:
            tt = min(max(t, p[0]), p[-1])
            k = min(max(int(np.searchsorted(p, tt, "left")), 1), len(p) - 1)
            if method == "linear":
                w = (tt - p[k - 1]) / (p[k] - p[k - 1])
            else:
                w = (math.log(tt) - math.log(p[k - 1])) / (math.log(p[k]) - math.log(p[k - 1]))
            out.append((1 - w) * y[k - 1] + w * y[k])
            on = np.nonzero(np.abs(p - tt) <= end * p)[0]
            if len(on):
                i = int(on[0])
                near = y[max(i - 1, 0): i + 2]
                if np.isnan(near).any():
                    dont.append(True)
                    nan_ok.append(ends)
                    continue
        dont.append(False)
        nan_ok.append(ends)
    return np.array(out), np.array(nan_ok, bool), np.array(dont, bool)


def compare(got, want, nan_ok, dont, what, rtol, scale, atol=0.0):
    """Comparison that allows NaN or the end value on a column end."""
    got, want = np.asarray(got, float).copy(), np.asarray(want, float).copy()
    U.need(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    fix = dont | (nan_ok & np.isnan(got))
    want[fix] = got[fix]
    got[fix & np.isnan(got)] = 0
    want[fix & np.isnan(want)] = 0
    U.close(got, want, what, rtol=rtol, scale=scale, atol=atol)


RD, G = 287.04, 9.80616
GAMMA = 0.0065


def extrap_temperature(t_bot, p, p_bot, ps, phi):
    a = GAMMA * RD / G
    ts = t_bot * (1 + a * (ps / p_bot - 1))
    h = phi / G
    t0 = ts + GAMMA * h
    lp = math.log(p / ps)
    if h < 2000:
        y = a * lp
    else:
        tpl = min(t0, 298.0)
        tp = tpl if h > 2500 else 0.002 * ((2500 - h) * t0 + (h - 2000) * tpl)
        y = 0.0 if tp < ts else RD * (tp - ts) / phi * lp
    return ts * (1 + y + y * y / 2 + y**3 / 6)


def extrap_height(t_bot, p, p_bot, ps, phi):
    a = GAMMA * RD / G
    ts = t_bot * (1 + a * (ps / p_bot - 1))
    h = phi / G
    t0 = ts + GAMMA * h
    if ts <= 290.5 and t0 > 290.5:
        a = RD / phi * (290.5 - ts)
    elif ts > 290.5 and t0 > 290.5:
        a, ts = 0.0, 0.5 * (290.5 + ts)
    if ts < 255:
        ts = 0.5 * (ts + 255)
    lp = math.log(p / ps)
    y = a * lp
    return h - RD * ts / G * lp * (1 + y / 2 + y * y / 6)
