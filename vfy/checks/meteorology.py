"""M01-M07, M09: meteorological functions."""
import math

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, Skip, facet

# Saturation vapour pressure over ice/water, 1e-1 Pa, one entry per kelvin from 173.16 K
# (the table published with NCL's relhum).
TABLE = [
    0.01403, 0.01719, 0.02101, 0.02561, 0.03117, 0.03784, 0.04584, 0.05542, 0.06685, 0.08049, 0.09672, 0.1160,
    0.1388, 0.1658, 0.1977, 0.2353, 0.2796, 0.3316, 0.3925, 0.4638, 0.5472, 0.6444, 0.7577, 0.8894, 1.042,
    1.220, 1.425, 1.662, 1.936, 2.252, 2.615, 3.032, 3.511, 4.060, 4.688, 5.406, 6.225, 7.159, 8.223, 9.432,
    10.80, 12.36, 14.13, 16.12, 18.38, 20.92, 23.80, 27.03, 30.67, 34.76, 39.35, 44.49, 50.26, 56.71, 63.93,
    71.98, 80.97, 90.98, 102.1, 114.5, 128.3, 143.6, 160.6, 179.4, 200.2, 223.3, 248.8, 276.9, 307.9, 342.1,
    379.8, 421.3, 466.9, 517.0, 572.0, 632.3, 698.5, 770.9, 850.2, 937.0, 1032.0, 1146.6, 1272.0, 1408.1,
    1556.7, 1716.9, 1890.3, 2077.6, 2279.6, 2496.7, 2729.8, 2980.0, 3247.8, 3534.1, 3839.8, 4164.8, 4510.5,
    4876.9, 5265.1, 5675.2, 6107.8, 6566.2, 7054.7, 7575.3, 8129.4, 8719.2, 9346.50, 10013.0, 10722.0, 11474.0,
    12272.0, 13119.0, 14017.0, 14969.0, 15977.0, 17044.0, 18173.0, 19367.0, 20630.0, 21964.0, 23373.0, 24861.0,
    26430.0, 28086.0, 29831.0, 31671.0, 33608.0, 35649.0, 37796.0, 40055.0, 42430.0, 44927.0, 47551.0, 50307.0,
    53200.0, 56236.0, 59422.0, 62762.0, 66264.0, 69934.0, 73777.0, 77802.0, 82015.0, 86423.0, 91034.0, 95855.0,
    100890.0, 106160.0, 111660.0, 117400.0, 123400.0, 129650.0, 136170.0, 142980.0, 150070.0, 157460.0,
    165160.0, 173180.0, 181530.0, 190220.0, 199260.0, 208670.0, 218450.0, 228610.0, 239180.0, 250160.0,
    261560.0, 273400.0, 285700.0, 298450.0, 311690.0, 325420.0, 339650.0, 354410.0, 369710.0, 385560.0,
    401980.0, 418980.0, 436590.0, 454810.0, 473670.0, 493170.0, 513350.0, 534220.0, 555800.0, 578090.0,
    601130.0, 624940.0, 649530.0, 674920.0, 701130.0, 728190.0, 756110.0, 784920.0, 814630.0, 845280.0,
    876880.0, 909450.0, 943020.0, 977610.0, 1013250.0, 1049940.0, 1087740.0, 1087740.0,
]


# ---------------------------------------------------------------- scalar references
def ref_dewtemp(t, rh):
    gcx = 461.5 / (1000 * 4.186)
    lhv = (597.3 - 0.57 * (t - 273)) / gcx
    return t * lhv / (lhv - t * math.log(rh * 0.01))


C_STD = (-42.379, 2.04901523, 10.14333127, -0.22475541, -0.00683783, -0.05481717, 0.00122874, 0.00085282, -0.00000199)
C_ALT = (0.363445176, 0.988622465, 4.777114035, -0.114037667, -0.000850208, -0.020716198, 0.000687678, 0.000274954, 0.0)


def ref_heat(t, rh, alt=False, forced=None):
    """forced True/False: as if the regression threshold were (not) reached."""
    c, crit = (C_ALT, 70.0) if alt else (C_STD, 79.0)
    simple = (61 + (t - 68) * 1.2 + rh * 0.094 + t) / 2
    if t < 40:
        simple = t
    use = simple >= crit if forced is None else forced
    if not use:
        return simple
    hi = (c[0] + c[1] * t + c[2] * rh + c[3] * t * rh + c[4] * t * t + c[5] * rh * rh + c[6] * t * t * rh
          + c[7] * t * rh * rh + c[8] * t * t * rh * rh)
    if rh <= 13 and 80 <= t <= 112:
        hi -= (13 - rh) / 4 * math.sqrt(abs(17 - abs(t - 95)) / 17)
    if rh > 85 and 80 <= t <= 87:
        hi += (rh - 85) / 10 * (87 - t) / 5
    return hi


def ref_relhum(t, w, p):
    t = min(max(t, 173.16), 375.16)
    k = min(int(t - 173.16), len(TABLE) - 2)
    f = t - (173.16 + k)
    es = 0.1 * ((1 - f) * TABLE[k] + f * TABLE[k + 1])
    return max(100 * w * (p - 0.378 * es) / (0.622 * es), 0.0001)


def _rh(es, w, p):
    return 100 * w / (0.622 * es / (p * 0.01 - 0.378 * es))


def ref_ice(t, w, p):
    c = t - 273.15
    return _rh(6.1128 * math.exp(22.571 * c / (c + 273.71)), w, p)


def ref_water(t, w, p):
    return _rh(6.1128 * math.exp(17.269 * (t - 273.15) / (t - 35.86)), w, p)


def celsius(f):
    return (f - 32) * 5 / 9


def ref_svp(f, tfill=math.nan):
    c = celsius(f)
    return 0.6108 * math.exp(17.27 * c / (c + 237.3)) if c > 0 else tfill


def ref_slope(f, tfill=math.nan):
    c = celsius(f)
    return 4096 * ref_svp(f) / (c + 237.3) ** 2 if c > 0 else tfill


def near(*v):
    """Values at and next to regime boundaries."""
    return st.sampled_from([x for b in v for x in (b, math.nextafter(b, -1e9), math.nextafter(b, 1e9), b - 0.25, b + 0.25)])


def rng(a, b, *marks):
    base = st.one_of(st.floats(a, b, allow_nan=False), st.integers(math.ceil(a), math.floor(b)).map(float) if b - a > 2 else st.floats(a, b))
    if not marks:
        return base
    return st.one_of(base, near(*marks).filter(lambda x: a <= x <= b))


def wide(usual, a, b):
    """Mostly the usual range, sometimes beyond."""
    return st.one_of(usual, usual, st.floats(a, b))


MIXING = st.one_of(st.just(0.0), st.floats(1e-8, 0.05), st.floats(1e-8, 0.05), st.floats(0.05, 1.0))
FUNCS = {
    "dewtemp": (gc.dewtemp, ref_dewtemp, [wide(rng(200, 330), 120, 450), st.one_of(rng(0.5, 100, 100), st.floats(1e-4, 0.5), st.floats(100, 140))]),
    "heat_index": (gc.heat_index, ref_heat, [wide(rng(-40, 130, 40, 79, 80, 87, 95, 112), -150, 220), rng(0, 100, 13, 85, 0, 100)]),
    "relhum": (gc.relhum, ref_relhum, [rng(150, 400, 173.16, 375.16, 273.16, 253.16), MIXING, wide(rng(2000, 110000), 1, 3000)]),
    "relhum_ice": (gc.relhum_ice, ref_ice, [wide(rng(180, 280), 100, 330), MIXING, wide(rng(20000, 110000), 1, 20000)]),
    "relhum_water": (gc.relhum_water, ref_water, [wide(rng(230, 320), 150, 380), MIXING, wide(rng(40000, 110000), 1, 40000)]),
    "saturation_vapor_pressure": (gc.saturation_vapor_pressure, ref_svp, [wide(rng(-60, 150, 32), -300, 400)]),
    "actual_saturation_vapor_pressure": (gc.actual_saturation_vapor_pressure, ref_svp, [wide(rng(-60, 150, 32), -300, 400)]),
    "saturation_vapor_pressure_slope": (gc.saturation_vapor_pressure_slope, ref_slope, [wide(rng(-60, 150, 32), -300, 400)]),
    "psychrometric_constant": (gc.psychrometric_constant, lambda p: 0.66474e-3 * p, [wide(rng(1, 120), 0.001, 1200)]),
}
STRICT = {"heat_index", "relhum_ice", "relhum_water"}     # all arguments of one type
BOXES = ["np", "xr", "xr", "list", "scalar", "np0", "dask", "xr_named"]


def shapes(n):
    out = [(n,), (n, 1), (1, n)]
    if n % 2 == 0:
        out += [(2, n // 2), (n // 2, 2)]
    if n % 4 == 0:
        out += [(2, 2, n // 4)]
    return out


@st.composite
def point_case(draw, names, tier="quick", boxes=None):
    name = draw(st.sampled_from(names))
    cols = FUNCS[name][2]
    n = draw(st.sampled_from([1, 2, 3, 4, 6, 8] if tier == "quick" else [1, 2, 4, 7, 12, 16]))
    vals = [[draw(c) for c in cols] for _ in range(n)]
    if name == "heat_index" and draw(st.booleans()):
        # where two regimes meet: boundary temperatures with humidities of either adjustment
        vals = [[draw(st.sampled_from([40.0, 79.0, 80.0, 80.0, 87.0, 112.0, 113.0, 79.5, 86.5, 88.0])), draw(st.one_of(st.sampled_from([0.0, 13.0, 85.0, 100.0, 12.5, 85.5]), st.floats(0, 13), st.floats(85, 100)))]
                for _ in range(n)]
    if draw(st.integers(0, 4)) == 0:
        # every element in the regime of the first
        vals = [vals[0][:1] + v[1:] for v in vals]
    box = draw(st.sampled_from(boxes or BOXES))
    many = 0
    if box in ("scalar", "np0"):
        vals = vals[:1]
    elif U.rarely(draw, 30):
        many = draw(st.sampled_from([65, 130, 1025, 4100, 20011] if tier == "quick" else [65, 130, 1025, 4100, 20011, 140000]))
    c = dict(many=many, fn=name, vals=vals, box=box, shape=draw(st.integers(0, 5)), dtype=draw(st.sampled_from(["f8", "f8", "f8", "f4", "int"])))
    if name == "heat_index":
        c["alt"] = draw(st.booleans())
    if "vapor" in name:
        c["tfill"] = draw(st.sampled_from([None, None, -999.0, 0.0]))
    return c


def arrays(case):
    """float64 columns (as the function sees them) in the case's shape."""
    v = np.array(case["vals"], dtype=float)
    if case.get("many"):
        # the same values over and over, in no order
        v = v[(U.uniform(case["shape"] + 1, case["many"]) * len(v)).astype(int)]
    n = len(v)
    shp = shapes(n)[case["shape"] % len(shapes(n))]
    dt = case["dtype"]
    if dt == "int":
        v[:, 0] = np.round(v[:, 0])
        if case["fn"] == "heat_index":
            v = np.round(v)
    cols = [v[:, k].reshape(shp) for k in range(v.shape[1])]
    if dt == "f4":
        cols = [c.astype("f4") for c in cols]
    elif dt == "int":
        cols = [c.astype("i8") if k == 0 or case["fn"] == "heat_index" else c for k, c in enumerate(cols)]
    return cols


DIMS = ("a", "b", "c")


def boxed(case, cols, coords=True):
    box = case["box"]
    if box == "list":
        return [c.tolist() for c in cols]
    if box == "scalar":
        v = [c.reshape(-1)[0].item() for c in cols]
        return [float(x) for x in v] if case["fn"] in STRICT and len({type(x) for x in v}) > 1 else v
    if box == "np0":
        return [np.array(c.reshape(-1)[0]) for c in cols]
    if box == "np":
        return cols
    dims = DIMS[: cols[0].ndim]
    co = {d: np.arange(s) * 1.5 for d, s in zip(dims, cols[0].shape)} if coords else {}
    out = [xr.DataArray(c, dims=dims, coords=co, name=f"v{k}", attrs={"k": k} if box == "xr_named" else {}) for k, c in enumerate(cols)]
    return [o.chunk({d: max(1, o.sizes[d] // 4) for d in dims}) for o in out] if box == "dask" else out


def extra(case):
    kw = {}
    if case.get("alt"):
        kw["alternate_coeffs"] = True
    if case.get("tfill") is not None:
        kw["tfill"] = case["tfill"]
    return kw


def reference(case, cols):
    """Expected values and a second admissible value where a threshold is decided by rounding."""
    ref = FUNCS[case["fn"]][1]
    flat = [c.reshape(-1).astype(float) for c in cols]
    want, other = [], []
    for row in zip(*flat):
        row = [float(x) for x in row]
        if case["fn"] == "heat_index":
            a = ref(*row, case["alt"])
            crit = 70.0 if case["alt"] else 79.0
            s = ref(*row, case["alt"], False)
            slack = 1e-4 if case["dtype"] == "f4" else 1e-9
            b = ref(*row, case["alt"], not (s >= crit)) if abs(s - crit) < slack else a
        elif "tfill" in case:
            t = math.nan if case["tfill"] is None else case["tfill"]
            a = b = ref(row[0], t)
        else:
            a = b = ref(*row)
        want.append(a)
        other.append(b)
    return np.array(want).reshape(cols[0].shape), np.array(other).reshape(cols[0].shape)


def tolerances(case):
    if case["dtype"] != "f4":
        return dict(rtol=1e-10, atol=1e-9 if case["fn"] == "heat_index" else 0.0)
    if case["fn"] == "heat_index":
        return dict(rtol=2e-5, atol=2e-2)
    return dict(rtol=2e-3 if case["fn"].startswith("relhum") else 2e-4, atol=1e-6)


def judge(case, got, want, other, what):
    g = np.asarray(got, dtype=float)
    U.need(g.shape == want.shape, f"{what}: shape {g.shape}, expected {want.shape}")
    tol = tolerances(case)
    if case["fn"].startswith("relhum"):
        # pressure against 0.378 of the saturation pressure: each term is rounded
        v = np.array(case["vals"], dtype=float)[:, 1].max()
        tol["atol"] += tol["rtol"] * 122 * v
    with np.errstate(invalid="ignore"):
        alt = abs(g - other) <= tol["atol"] + tol["rtol"] * abs(other)
    U.close(g, np.where(alt, g, want), what, **tol)


def kind_ok(case, r, what):
    box = case["box"]
    if box in ("xr", "xr_named", "dask"):
        U.need(isinstance(r, xr.DataArray), f"{what}: DataArray in, {type(r).__name__} out")
    else:
        U.need(not isinstance(r, (xr.DataArray, xr.Dataset)), f"{what}: {box} in, {type(r).__name__} out")


def run_point(case, cx):
    cols = arrays(case)
    args = boxed(case, cols)
    want, other = reference(case, cols)
    if case["box"] in ("scalar", "np0"):
        want, other = want.reshape(()), other.reshape(())
    r = cx.call(FUNCS[case["fn"]][0], *args, **extra(case))
    what = f"{case['fn']} ({case['box']}, {case['dtype']})"
    kind_ok(case, r, what)
    judge(case, U.plain(r), want, other, what)
    return cols, args, r, want


def register(prop, names, quick, thorough, rule, post=None):
    @facet(prop, "formula", lambda tier, names=names: point_case(names, tier), quick, thorough, rule=rule)
    def formula(case, cx):
        cx.label(case["fn"], case["box"], case["dtype"])
        cx.interesting(len(case["vals"]) >= 1)
        cols, args, r, want = run_point(case, cx)
        if post:
            post(case, cx, cols, r, want)


def post_dew(case, cx, cols, r, want):
    t, rh = (c.astype(float) for c in cols)
    g = np.asarray(U.plain(r), float).reshape(t.shape)
    U.need((g <= t * (1 + 1e-6))[rh <= 100].all(), "dew point above the temperature")
    sat = rh == 100
    U.close(g[sat], t[sat], "dew point at saturation", rtol=1e-6)


def post_heat(case, cx, cols, r, want):
    t, rh = (c.astype(float) for c in cols)
    simple = np.array([ref_heat(a, b, case["alt"], False) for a, b in zip(t.ravel(), rh.ravel())])
    crit = 70 if case["alt"] else 79
    cx.label("alt" if case["alt"] else "std", *(["regression"] if (simple >= crit).any() else []), *(["simple"] if (simple < crit).any() else []),
             *(["dry"] if ((simple >= crit) & (rh.ravel() <= 13) & (t.ravel() >= 80) & (t.ravel() <= 112)).any() else []),
             *(["wet"] if ((simple >= crit) & (rh.ravel() > 85) & (t.ravel() >= 80) & (t.ravel() <= 87)).any() else []))


def post_relhum(case, cx, cols, r, want):
    """Increasing in mixing ratio and pressure."""
    if case["box"] != "np" or case["dtype"] != "f8":
        return
    t, w, p = cols
    more = gc.relhum(t, w + 0.001, p)
    U.need((np.asarray(more) >= np.asarray(r)).all(), "relhum decreases with mixing ratio")
    more = gc.relhum(t, w, p + 500.0)
    U.need((np.asarray(more) >= np.asarray(r)).all(), "relhum decreases with pressure")


register("M01", ["dewtemp"], 6000, 40000, "lists of (temperature, humidity) x container x shape x dtype; every case is non-trivial", post_dew)
register("M02", ["heat_index"], 4500, 60000, "lists of (temperature, humidity) incl. both sides of every regime boundary x coefficients x container x shape; every case is non-trivial", post_heat)
register("M03", ["relhum"], 4200, 40000, "lists of (temperature, mixing ratio, pressure) incl. beyond the table x container x shape; every case is non-trivial", post_relhum)
register("M04", ["relhum_ice", "relhum_water"], 6300, 40000, "lists of (temperature, mixing ratio, pressure) x function x container x shape; every case is non-trivial")


def post_fao(case, cx, cols, r, want):
    if case["fn"].endswith("slope") and case["dtype"] == "f8" and case["box"] == "np" and case.get("tfill") is None:
        f = cols[0].reshape(-1)
        f = f[f > 33]
        if len(f):
            h = 1e-3
            num = (gc.saturation_vapor_pressure(f + h) - gc.saturation_vapor_pressure(f - h)) / (2 * h * 5 / 9)
            U.close(gc.saturation_vapor_pressure_slope(f), num, "slope as the derivative of the saturation curve", rtol=1e-3)


register("M05", ["saturation_vapor_pressure", "actual_saturation_vapor_pressure", "saturation_vapor_pressure_slope", "psychrometric_constant"],
         6400, 40000, "lists of temperatures (both sides of freezing) or pressures x function x fill value x container x shape; every case is non-trivial", post_fao)


# ---------------------------------------------------------------- M09 element-wise laws
@st.composite
def elementwise_case(draw, tier="quick"):
    c = draw(point_case(sorted(FUNCS), tier, ["np", "xr", "list", "dask"]))
    c["dtype"] = draw(st.sampled_from(["f8", "f8", "f4"]))
    c.pop("tfill", None)
    return dict(c, rel=draw(st.sampled_from(["single", "permute", "nan", "nan", "boxes", "join"])), seed=draw(U.seeds))


@facet("M09", "elementwise", lambda tier: elementwise_case(tier), 2100, 30000,
       rule="function x values x relation (each element alone, permutation, missing element, other container, split in two calls); non-trivial with two or more elements")
def elementwise(case, cx):
    fn = FUNCS[case["fn"]][0]
    cols = arrays(case)
    n = cols[0].size
    kw = extra(case)
    cx.label(case["fn"], case["box"], case["rel"])
    cx.interesting(n >= 2)
    tol = tolerances(case)
    if case["dtype"] == "f8":
        tol = dict(rtol=1e-12, atol=1e-12)

    def call(cs, box=case["box"]):
        return np.asarray(U.plain(cx.call(fn, *boxed(dict(case, box=box), cs), **kw)), dtype=float)

    whole = cx.call(fn, *boxed(case, cols), **kw)
    base = np.asarray(U.plain(whole), dtype=float)
    U.need(base.shape == cols[0].shape, f"{case['fn']}: shape {base.shape} for input {cols[0].shape}")
    what = f"{case['fn']} ({case['box']}) {case['rel']}"
    if case["rel"] == "single":
        for i in range(n) if n <= 16 else sorted({0, n - 1, case["seed"] % n, case["seed"] // 3 % n}):
            # what comes back for a part of the input describes itself as what comes back for the whole
            part = cx.call(fn, *boxed(case, [c.reshape(-1)[i: i + 1] for c in cols]), **kw)
            U.need(type(part) is type(whole), f"{what}: {type(part).__name__} for one element, {type(whole).__name__} for {n}")
            U.need(getattr(part, "attrs", None) == getattr(whole, "attrs", None) and getattr(part, "name", None) == getattr(whole, "name", None),
                   f"{what}: the attributes or the name depend on the values")
            one = call([c.reshape(-1)[i: i + 1] for c in cols], "np")
            U.close(one, base.reshape(-1)[i: i + 1], what, **tol)
            sc = np.asarray(cx.call(fn, *[c.reshape(-1)[i].item() for c in cols], **kw), float).reshape(1)
            if case["dtype"] == "f8":
                U.close(sc, base.reshape(-1)[i: i + 1], what + " as a scalar", **tol)
    elif case["rel"] == "permute":
        o = U.perm(case["seed"], n)
        r = call([c.reshape(-1)[o] for c in cols])
        U.close(r, base.reshape(-1)[o], what, **tol)
    elif case["rel"] == "nan":
        m = U.uniform(case["seed"], n, 3) < 0.4
        m[case["seed"] % n] = True
        k = case["seed"] % len(cols)
        m = m.reshape(cols[0].shape)
        cs = [c.astype(float) if case["dtype"] == "f8" else c.copy() for c in cols]
        cs[k] = np.where(m, np.array(np.nan, cs[k].dtype), cs[k])
        cx.label(f"nan-arg{k}")
        r = call(cs)
        if case["fn"] == "heat_index" and k == 1:
            # below 40 F the heat index is the temperature, humidity known or not
            cold = m & (cols[0] < 40)
            U.need((np.isnan(r[cold]) | (r[cold] == cols[0][cold])).all(), what + " below 40 F")
            m, r, base = m & ~cold, np.where(cold, 0.0, r), np.where(cold, 0.0, base)
        U.close(r, np.where(m, np.nan, base), what, **tol)
    elif case["rel"] == "boxes":
        for b in ("np", "xr", "list", "dask"):
            t2 = dict(rtol=1e-4, atol=1e-3) if case["dtype"] == "f4" and (b == "list") != (case["box"] == "list") else tol
            if case["dtype"] == "f4" and (case["fn"] == "heat_index" or case["fn"].startswith("relhum")):
                t2 = dict(rtol=2e-3, atol=2e-2)
                if case["fn"] == "heat_index" and _edge(case, cols):
                    continue
            U.close(call(cols, b), base, what + f" vs {b}", **t2)
    else:
        if n >= 2:
            h = n // 2
            a, b = call([c.reshape(-1)[:h] for c in cols]), call([c.reshape(-1)[h:] for c in cols])
            U.close(np.concatenate([a, b]), base.reshape(-1), what, **tol)


def _edge(case, cols):
    s = [ref_heat(float(a), float(b), case.get("alt", False), False) for a, b in zip(cols[0].ravel(), cols[1].ravel())]
    return any(abs(x - (70 if case.get("alt") else 79)) < 1e-3 for x in s)


# ---------------------------------------------------------------- M06 day length
@st.composite
def day_case(draw, tier="quick"):
    big = 8 if tier == "quick" else 40
    days = draw(st.lists(st.one_of(st.integers(1, 366).map(float), st.floats(1, 366)), min_size=1, max_size=big))
    lats = draw(st.lists(st.one_of(st.floats(-66, 66), st.floats(-89, 89), st.sampled_from([0.0, 23.45, -23.45, 55.0, -66.0, 66.0, 67.5, -80.0])), min_size=1, max_size=big))
    if U.rarely(draw, 40):
        days = [float(d) for d in range(1, 367)]
        lats = [round(-66 + 132 * i / 160, 3) for i in range(161)]
    return dict(days=days, lats=lats, boxd=draw(st.sampled_from(["np", "xr", "list", "scalar", "npint"])),
                boxl=draw(st.sampled_from(["np", "xr", "list", "scalar"])))


def box1(v, box, dim):
    if box == "list":
        return list(v)
    if box == "scalar":
        return v[0]
    if box == "xr":
        return xr.DataArray(np.array(v), dims=[dim], coords={dim: np.array(v)})
    return np.array(v)


@facet("M06", "max_daylight", lambda tier: day_case(tier), 3000, 20000,
       rule="day lists x latitude lists within 66 degrees x container of each; non-trivial with a non-equatorial latitude")
def daylight(case, cx):
    days, lats = list(case["days"]), list(case["lats"])
    if case["boxd"] == "npint":
        days = [int(round(d)) for d in days]
    if case["boxd"] == "scalar":
        days = days[:1]
    if case["boxl"] == "scalar":
        lats = lats[:1]
    cx.label(case["boxd"], case["boxl"])
    cx.interesting(any(abs(x) > 1 for x in lats))
    if case["boxd"] == "xr" and case["boxl"] != "xr":
        case = dict(case, boxl="np")
        lats = list(case["lats"])
    r = cx.call(gc.max_daylight, box1(days, case["boxd"], "doy"), box1(lats, case["boxl"], "lat"))
    if case["boxd"] == "xr":
        U.need(isinstance(r, xr.DataArray) and r.dims == ("doy", "lat"), f"dims {getattr(r, 'dims', None)}")
        U.close(r["doy"], np.array(days), "doy coordinate", rtol=1e-6)
        U.close(r["lat"], np.array(lats), "lat coordinate", rtol=1e-6, atol=1e-30)
    g = U.plain(r).astype(float)
    want = np.empty((len(days), len(lats)))
    near = np.zeros(want.shape, bool)
    f4 = case["boxd"] in ("list", "scalar", "xr") or case["boxl"] in ("list", "scalar", "xr")   # computed in single precision
    for i, d in enumerate(days):
        dec = 0.409 * math.sin(2 * math.pi / 365 * d - 1.39)
        for j, la in enumerate(lats):
            c = -math.tan(math.radians(la)) * math.tan(dec)
            # polar day and night: the formula has no value
            want[i, j] = 24 / math.pi * math.acos(c) if abs(c) < (0.999 if f4 else 1.0) else math.nan
            near[i, j] = abs(c) > 0.99
    ok = ~np.isnan(want)
    if (np.abs(lats) > 66).any():
        cx.label("polar")
    U.need(g.shape == want.shape, f"shape {g.shape} instead of {want.shape}")
    U.close(g[ok & ~near], want[ok & ~near], "max_daylight", rtol=2e-3 if f4 else 1e-7)
    U.close(g[ok & near], want[ok & near], "max_daylight near polar day or night", atol=0.1 if f4 else 1e-5)
    U.need((g[ok] >= 0).all() and (g[ok] <= 24.0001).all(), "day length outside 0-24 h")
    bad = ~ok & ~(np.isnan(g) | ((g >= 0) & (g <= 24.0001)))
    U.need(not bad.any(), "polar day or night: day length outside 0-24 h")
    r2 = U.plain(cx.call(gc.max_daylight, np.array(days, float), -np.array(lats, float))).astype(float)
    U.close((g + r2)[ok & ~near], np.full_like(g, 24.0)[ok & ~near], "day lengths of opposite latitudes", rtol=2e-3 if f4 else 1e-9)


# ---------------------------------------------------------------- M07 delta_pressure
@st.composite
def dp_case(draw, tier="quick"):
    n = draw(st.integers(2, 8 if tier == "quick" else 30))
    gaps = draw(st.lists(st.floats(0.01, 1.0), min_size=n, max_size=n))
    many = []
    if U.rarely(draw, 25):
        many = [draw(st.sampled_from([n, 33, 70, 140])), draw(st.sampled_from([1, 1, 40, 200])), draw(U.seeds)]
    return dict(
        gaps=gaps, many=many, unit=draw(st.sampled_from([100.0, 1.0, 0.001])), desc=draw(st.booleans()), top=draw(st.sampled_from(["none", "zero", "below"])),
        ps=draw(st.lists(st.floats(0.0, 1.3), min_size=1, max_size=6)), hit=draw(st.booleans()),
        boxp=draw(st.sampled_from(["np", "xr", "list", "int"])), boxs=draw(st.sampled_from(["scalar", "np", "np2", "xr", "xr2", "xr0"])),
    )


def ref_dp(p, ps, top):
    """Ascending levels; layers bounded by mid-points, the surface and the top."""
    n = len(p)
    edges = [top] + [(p[i] + p[i + 1]) / 2 for i in range(n - 1)]
    out = [math.nan] * n
    active = [i for i in range(n) if i == 0 or edges[i] < ps]
    for i in active:
        lower = ps if i == active[-1] else edges[i + 1]
        out[i] = lower - edges[i]
    return out


@facet("M07", "delta_pressure", lambda tier: dp_case(tier), 3000, 30000,
       rule="level sets of 2-8 levels in either order x surface pressures from the top to below the lowest level x top pressure x containers; non-trivial when some surface cuts through the levels")
def delta_pressure(case, cx):
    if case.get("many"):
        k, cols, s = case["many"]
        case = dict(case, gaps=(0.01 + U.uniform(s, k)).tolist(), ps=(case["ps"] + (1.3 * U.uniform(s, cols, 1)).tolist()))
    p = 5.0 + 990 * np.cumsum(case["gaps"]) / np.sum(case["gaps"])
    unit = case["unit"]
    if case["boxp"] == "int":
        unit = 100.0
    p = p * unit
    if case["boxp"] == "int":
        p = np.unique(np.round(p)).astype(int)
        if len(p) < 2:
            raise Skip("levels coincide")
    pa = np.sort(p)
    top = None if case["top"] == "none" else 0.0 if case["top"] == "zero" else 0.4 * float(pa[0])
    t = float(pa[0]) if top is None else top
    ps = [t + f * (float(pa[-1]) - t) for f in case["ps"]]
    if case["hit"]:
        ps[0] = float((pa[-1] + pa[-2]) / 2)
    ps = [x for x in ps if x > t] or [float(pa[-1])]
    lev = pa[::-1].copy() if case["desc"] else pa
    want = np.array([ref_dp([float(x) for x in pa], x, t) for x in ps])
    if case["desc"]:
        want = want[:, ::-1]
    boxs = case["boxs"]
    shape = (len(ps),)
    if boxs in ("np2", "xr2"):
        ps = ps + ps[:1] if len(ps) % 2 else ps
        want = np.array([ref_dp([float(x) for x in pa], x, t) for x in ps])
        want = want[:, ::-1] if case["desc"] else want
        shape = (2, len(ps) // 2)
    arg = {"np": lambda: np.array(lev), "int": lambda: np.array(lev), "list": lambda: [float(x) for x in lev],
           "xr": lambda: xr.DataArray(np.array(lev), dims=["plev"], coords={"plev": lev}, attrs={"units": "Pa"})}[case["boxp"]]()
    if boxs == "scalar":
        s, w = ps[0], want[0]
    elif boxs == "xr0":
        s, w = xr.DataArray(ps[0]), want[0]
    elif boxs in ("np", "np2"):
        s, w = np.array(ps).reshape(shape), want.reshape(shape + (-1,))
    else:
        dims = ["time", "x"][: len(shape)]
        s = xr.DataArray(np.array(ps).reshape(shape), dims=dims, coords={d: np.arange(k) * 2 for d, k in zip(dims, shape)}, attrs={"units": "Pa"})
        w = want.reshape(shape + (-1,))
    cut = any(pa[0] < x < (pa[-1] + pa[-2]) / 2 for x in ps)
    cx.label(case["boxp"], boxs, "desc" if case["desc"] else "asc", case["top"], "first-layer" if any(x < (pa[0] + pa[1]) / 2 for x in ps) else "deeper")
    cx.interesting(cut)
    for fn in (gc.delta_pressure, gc.dpres_plev):
        r = cx.call(fn, arg, s) if top is None else cx.call(fn, arg, s, top)
        U.close(r, w, fn.__name__, rtol=1e-10, scale=float(pa[-1]))
        if boxs.startswith("xr"):
            U.need(isinstance(r, xr.DataArray) and r.dims == tuple(s.dims) + ("lev",), f"{type(r).__name__} {getattr(r, 'dims', '')}")
            U.same(r["lev"], np.array(lev), "lev coordinate")
            for d in s.dims:
                U.same(r[d], s[d], f"coordinate {d}")
    g = np.asarray(U.plain(r), float).reshape(-1, len(pa))
    flat = [ps[0]] if boxs in ("scalar", "xr0") else ps
    U.close(np.nansum(g, axis=1), np.array(flat) - t, "sum of the layers", rtol=1e-9, scale=float(pa[-1]))
    U.need((g[~np.isnan(g)] >= -1e-9 * pa[-1]).all(), "negative layer thickness")


ASSUMPTIONS["M02"] = ["within 1e-9 F of the regression threshold either formula is accepted"]
ASSUMPTIONS["M06"] = ["days of polar day or night (the formula has no value) may be NaN or any length within 0-24 h", "latitudes within 89 degrees"]
