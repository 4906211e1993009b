"""X12: the unit a field is expressed in (a factor, an offset) only changes the unit of the result."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import util as U
from ..core import ASSUMPTIONS, Skip, facet
from ..recipes import RECIPES
from .numbers import gap, signed

FIELD = ("calendar_average", "climatology_average", "climate_anomaly", "month_to_season", "fourier_low_pass", "fourier_high_pass",
         "fourier_band_pass", "fourier_band_block", "interp_hybrid_to_pressure", "interp_sigma_to_hybrid", "gradient", "decomposition",
         "recomposition", "eofunc_eofs", "eofunc_pcs", "eofunc", "eofunc_ts", "psychrometric_constant")
# function -> [(arguments scaled together, power of the factor in the result)]
FACTOR = {n: [((0,), 1)] for n in FIELD}
FACTOR.update({
    "interp_multidim": [((0, "missing_val"), 1)], "relhum_ice": [((1,), 1)], "relhum_water": [((1,), 1)], "nmse": [((0, 1), 0)],
    "pearson_r": [((0,), 0), ((1,), 0), ((0, 1), 0), (("weights",), 0)], "delta_pressure": [((0, 1, "pressure_top"), 1)],
    "pressure_at_hybrid_levels": [((0, "p0"), 1)], "delta_pressure_hybrid": [((0, "p0"), 1)], "zonal_meridional_psi": [((0,), 1)],
    "scale_voronoi": [],
})
FACTOR["interp_hybrid_to_pressure"] = [((0,), 1), ((1, "p0", "new_levels"), 0)]
FACTOR["interp_sigma_to_hybrid"] = [((0,), 1), ((2, "p0"), 0)]
FACTOR["interp_hybrid_to_pressure extrapolate"] = [((0,), 1), ((1, "p0", "new_levels"), 0)]     # variable 'other' only
FACTOR["decomposition"] = [((0,), 1), ((1,), 0)]
for _n in ("eofunc_eofs", "eofunc_pcs"):
    FACTOR[_n] = [((0,), None), (("weights",), None)]
FACTOR["eofunc"] = [((0,), 0)]
FACTOR = {k: v for k, v in FACTOR.items() if v}
# function -> (arguments shifted together, share of the offset in the result)
OFFSET = {
    "calendar_average": ((0,), 1), "climatology_average": ((0,), 1), "climate_anomaly": ((0,), 0), "month_to_season": ((0,), 1), "gradient": ((0,), 0),
    "interp_hybrid_to_pressure": ((0,), 1), "interp_hybrid_to_pressure extrapolate": ((0,), 1), "interp_sigma_to_hybrid": ((0,), 1), "interp_multidim": ((0, "missing_val"), 1),
    "nmse": ((0, 1), 0), "pearson_r": ((0,), 0), "eofunc_eofs": ((0,), 0), "eofunc_pcs": ((0,), 0), "eofunc": ((0,), 0), "eofunc_ts": ((0,), 0),
}
NAMES = sorted(FACTOR)
WEIGHTED = [n for n in NAMES for _ in FACTOR[n]]
P0 = {"interp_hybrid_to_pressure": "p0", "interp_hybrid_to_pressure extrapolate": "p0", "interp_sigma_to_hybrid": "p0", "pressure_at_hybrid_levels": "p0", "delta_pressure_hybrid": "p0"}


def change(x, f):
    """``x`` with ``f`` applied to its numbers (of a Dataset: to every variable that is a field)."""
    if hasattr(x, "uxgrid"):
        out = x.copy(deep=True)
        out["V"].values[...] = f(np.array(out["V"].values))
        return out
    if isinstance(x, xr.Dataset):
        return x.map(lambda v: change(v, f), keep_attrs=True)
    if isinstance(x, xr.DataArray):
        out = x.copy(data=f(x.values))
        if x.name in x.dims or x.dims == ("plev",) and "plev" in x.coords:     # levels that carry themselves as labels
            out = out.assign_coords({d: out.values for d in x.dims})
        return out
    if isinstance(x, list):
        return f(np.array(x, float)).tolist()
    return f(x)


@st.composite
def scale_case(draw, tier="quick"):
    return dict(fn=draw(st.sampled_from(WEIGHTED)), kind=draw(st.integers(0, 4)), seed=draw(st.integers(0, 50000)), which=draw(st.integers(0, 3)),
                what=draw(st.sampled_from(["factor", "factor", "factor", "sign", "offset"])), power=draw(st.sampled_from([-60, -47, -33, -20, -7, -1, 4, 17, 33, 60])),
                offset=draw(st.sampled_from([1.0, -273.15, 1e4, -5e5, 1e-3])))


@facet("X12", "units", lambda tier: scale_case(tier), 5200, 60000,
       rule="one call of a function that is linear, homogeneous or invariant in an argument, repeated with that argument times a power of two, negated or shifted; every case counts")
def units(case, cx):
    name = case["fn"]
    rec = RECIPES[name]
    kind = rec.kinds[case["kind"] % len(rec.kinds)]
    fn, args, kw = rec.build(case["seed"], kind)
    args, kw = list(args), dict(kw)
    what = case["what"]
    if name.endswith("extrapolate"):
        kw["variable"] = "other"
    if name in P0:
        kw.setdefault("p0", 100000.0)
    if name == "interp_hybrid_to_pressure":
        kw.setdefault("new_levels", np.array([90000.0, 50000.0, 20000.0]))
    if name == "delta_pressure":
        kw.setdefault("pressure_top", None)
    if what == "offset" and name not in OFFSET:
        what = "factor"
    options = [o for o in FACTOR[name] if any((kw.get(k) if isinstance(k, str) else args[k] if k < len(args) else None) is not None for k in o[0])]
    choice, power = options[case["which"] % len(options)]
    if what == "offset":
        choice, power = OFFSET[name]
    elif what == "sign" and (name in ("delta_pressure", "pressure_at_hybrid_levels", "delta_pressure_hybrid", "relhum_ice", "relhum_water", "psychrometric_constant")
                             or choice not in ((0,), (0, 1), (0, "missing_val"))):
        what = "factor"
    keys = [k for k in choice if (k in kw if isinstance(k, str) else k < len(args)) and (kw[k] if isinstance(k, str) else args[k]) is not None]
    if not keys:
        raise Skip("the argument is not given")
    c = -1.0 if what == "sign" else 2.0 ** case["power"]
    if what == "offset":
        data = np.concatenate([np.abs(finite(kw[k] if isinstance(k, str) else args[k])) for k in keys])
        size = float(data.max()) if data.size else 1.0
    f = (lambda v: v + case["offset"]) if what == "offset" else (lambda v: v * c)
    eof = name.startswith("eof")
    if eof and gap(args[0], 0) < 1e-3:
        raise Skip("modes are not separated")
    a = [change(x, f) if i in keys else x for i, x in enumerate(args)]
    q = {k: change(v, f) if k in keys else v for k, v in kw.items()}
    cx.label("fn:" + name, what, "scaled:" + ",".join(map(str, keys)), kind)
    cx.interesting()
    want, got = cx.call(fn, *args, **kw), cx.call(fn, *a, **q)
    if power is None:
        power = eof_power(name, kw, keys, case)
    if eof:
        signs(dict(case, what=what), want, got)
        want, got = signed(want), signed(got)
    text = f"{name} {kind} with arguments {keys} " + (f"shifted by {case['offset']}" if what == "offset" else f"times {c}")
    if what == "offset":
        add, mul = case["offset"] * power, 1.0
        room = (abs(case["offset"]) + size) / size * 1e-12
    else:
        add, mul, room = 0.0, c ** power, 1e-12
        if what == "sign" and name == "pearson_r":
            mul = -1.0 if len(choice) == 1 else 1.0
        elif what == "sign" and eof:
            mul = 1.0       # modes are compared up to sign
    if mul == 0 or not np.isfinite(mul):
        raise Skip("factor out of range")
    compare(got, want, mul, add, text, room * (1e3 if eof or name in ("nmse", "pearson_r") else 10))


def finite(x):
    if isinstance(x, xr.Dataset):
        return np.concatenate([finite(v) for v in x.data_vars.values()])
    v = np.atleast_1d(np.asarray(getattr(x, "values", x), float)).ravel()
    return v[np.isfinite(v)]


def eof_power(name, kw, keys, case):
    """Power of the factor of the data (or the weights) in the result, by the documented scaling."""
    if name == "eofunc_eofs":
        # 0 as they are; 1 divided by the square root of the eigenvalue; 2 multiplied by it
        return {0: 0, 1: -1, 2: 1}[kw.get("eofscaling", 0)]
    return {0: 1, 1: 0, 2: 2}[kw.get("pcscaling", 0)]


def signs(case, want, got):
    """Attributes of the EOFs: eigenvalues and variance go with the square, fractions do not change."""
    if case["fn"] not in ("eofunc_eofs", "eofunc"):
        return
    c2 = 1.0 if case["what"] != "factor" else 4.0 ** case["power"]
    for k in ("eigenvalues", "northTest", "totalAnomalyVariance"):
        w = np.asarray(want.attrs[k], float) * c2
        U.close(got.attrs[k], w, f"attribute {k} of scaled data", rtol=1e-6, scale=float(np.abs(w).max()))
    U.close(got.attrs["varianceFraction"], want.attrs["varianceFraction"], "varianceFraction of scaled data", rtol=1e-6, scale=1.0)


def compare(got, want, mul, add, what, room):
    U.need(type(got) is type(want), f"{what}: {type(got).__name__}, {type(want).__name__} before")
    if isinstance(want, xr.Dataset):
        U.need(list(got.data_vars) == list(want.data_vars), f"{what}: variables {list(got.data_vars)}")
        for k in want.data_vars:
            compare(got[k], want[k], mul, add, f"{what}[{k}]", room)
        return
    if isinstance(want, (list, tuple)) and not np.isscalar(want[0]):
        for i, (g, w) in enumerate(zip(got, want)):
            compare(g, w, mul, add, f"{what}[{i}]", room)
        return
    if isinstance(want, xr.DataArray):
        U.need(got.dims == want.dims and set(got.coords) == set(want.coords), f"{what}: dims {got.dims}, coords {sorted(map(str, got.coords))}")
    g, w = U.plain(got), U.plain(want)
    if w.dtype.kind == "c":
        g, w = np.stack([g.real, g.imag]), np.stack([w.real, w.imag])
    g, w = (np.asarray(g, float) - add) / mul, np.asarray(w, float)
    fin = np.abs(w[np.isfinite(w)])
    U.close(g, w, what, room, atol=room * (fin.max() if fin.size else 1.0))


ASSUMPTIONS["X12"] = ["factors are powers of two (exact in floating point) of up to 2**60 either way, offsets up to 5e5: overflow, underflow and total cancellation are out of scope",
                      "EOF modes are compared up to sign and only when the singular values are separated"]
