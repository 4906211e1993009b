"""X01-X05: properties that quantify over every public function."""
import os
import pickle
import random
import sys
import warnings

import dask
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

import geocat.comp as gc

from .. import util as U
from ..core import ASSUMPTIONS, HarnessError, Skip, Violation, WARMUPS, facet, probe
from ..recipes import POINT_ATTRS, RANGES, RECIPES, small_uxds, snap, vary

NAMES = sorted(RECIPES)


# ================================================================ X01: histories of calls
def in_child(fn):
    """The pickled result of ``fn()`` run in a forked child: the child's state dies with it."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = fn()
            data = pickle.dumps(("ok", out))
        except BaseException as e:  # noqa: BLE001
            import traceback

            data = pickle.dumps(("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return "died", None
    return pickle.loads(data)


def library_state():
    return {
        "numpy error state": dict(np.geterr()), "numpy print options": repr(np.get_printoptions()),
        "xarray options": {k: repr(v) for k, v in xr.get_options().items()}, "dask config": flat(dask.config.config),
        "numpy random state": snap(np.random.get_state()[1]), "random state": hash(random.getstate()),
        "environment": dict(os.environ), "working directory": os.getcwd(),
        "pandas options": (pd.get_option("display.max_rows"), pd.get_option("display.precision")),
        "warning filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
    }


def flat(d, path=""):
    out = {}
    for k, v in d.items():
        out.update(flat(v, f"{path}{k}.") if isinstance(v, dict) else {path + str(k): repr(v)})
    return out


def state_changes(a, b):
    out = []
    for k in a:
        if isinstance(a[k], dict):
            # a lazily imported package may add its own section of defaults
            top = {q.split(".")[0] for q in a[k]}
            new = [q for q in b[k] if q not in a[k] and (k != "dask config" or q.split(".")[0] in top or "." not in q)]
            out += [(k, q, a[k].get(q), b[k].get(q)) for q in list(a[k]) + new if a[k].get(q) != b[k].get(q)]
        elif k == "warning filters":
            # imports may register filters for their own warnings; a blanket filter changes the user's settings
            out += [(k, f) for f in b[k] if f not in a[k] and f[1] == "None" and f[3] == "None" and f[2] in ("Warning", "RuntimeWarning", "UserWarning", "DeprecationWarning", "FutureWarning")]
            out += [(k, "lost", f) for f in a[k] if f not in b[k]]
        elif a[k] != b[k]:
            out.append((k, str(a[k])[:100], str(b[k])[:100]))
    return out


class Pool:
    """Equal arguments become the same object, as when a user passes one array to several functions."""

    def __init__(self):
        self.seen = {}

    def __call__(self, x):
        if not isinstance(x, (xr.DataArray, xr.Dataset, np.ndarray, list, dict)):
            return x
        # equal memory layout too: sums in another order differ in the last bits
        k = pickle.dumps((snap(x), getattr(getattr(x, "values", x) if isinstance(x, xr.DataArray) else x, "strides", None)))
        return self.seen.setdefault(k, x)


def build(step):
    rec = RECIPES[step["fn"]]
    fn, args, kw = rec.build(step["seed"], rec.kinds[step["kind"] % len(rec.kinds)])
    args, kw = vary(list(args), dict(kw), step["vary"])
    return fn, args, kw


def result_snap(step, fn, args, kw):
    try:
        return ("value", snap(fn(*args, **kw)))
    except Exception as e:  # noqa: BLE001 - compared with the fresh call
        return ("raised", type(e).__name__, str(e))


def overwritten(x, new, undo):
    """``x`` with the values of ``new`` written into its memory, when it has the same form."""
    a, b = (v.values if isinstance(v, xr.DataArray) else v for v in (x, new))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.flags.writeable and a is not b:
        undo.append((a, a.copy()))
        a[...] = b
        return x
    return new


def arguments(s, pool):
    """The arguments of a step; ``undo`` restores the user's arrays that were overwritten for it."""
    fn, args, kw = build(s)
    undo = []
    if s.get("inplace") and s["vary"] in (1, 2, 3, 4, 5):
        # the user's own arrays, overwritten with other values before the call
        _fn, args0, kw0 = build(dict(s, vary=0))
        return fn, [overwritten(pool(a), b, undo) for a, b in zip(args0, args)], {k: overwritten(pool(kw0[k]), b, undo) for k, b in kw.items()}, undo
    return fn, [pool(a) for a in args], {k: pool(v) for k, v in kw.items()}, undo


def scribble(x):
    """What a user may do with a result: overwrite it."""
    if isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
    elif isinstance(x, xr.Dataset):
        for v in x.variables.values():
            scribble_var(v)
        x.attrs.clear()
    elif isinstance(x, xr.DataArray):
        for v in [x.variable] + [c.variable for c in x.coords.values()]:
            scribble_var(v)
        x.attrs.clear()
    elif isinstance(x, np.ndarray):
        fill(x)


def scribble_var(v):
    for a in list(v.attrs.values()):
        if isinstance(a, (np.ndarray, xr.DataArray)):
            scribble(a)
        elif isinstance(a, list):
            a.clear()
    v.attrs.clear()
    v.attrs["scribbled"] = True
    if isinstance(v._data, np.ndarray):
        fill(v._data)


def fill(a):
    if a.flags.writeable and a.size:
        if a.dtype.kind in "fiuc":
            a[...] = 77
        elif a.dtype.kind == "b":
            a[...] = ~a


def quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


@st.composite
def history(draw, tier="quick"):
    focus = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2))
    pool = draw(st.lists(st.integers(0, 5000), min_size=1, max_size=2))
    steps = []
    for _ in range(draw(st.integers(2, 5 if tier == "quick" else 9))):
        steps.append(dict(
            fn=draw(st.sampled_from(focus + [draw(st.sampled_from(NAMES))] if draw(st.integers(0, 2)) == 0 else focus)),
            kind=draw(st.integers(0, 4)), seed=draw(st.sampled_from(pool)), vary=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6])),
            inplace=draw(st.sampled_from([False, False, True])), scribble=draw(st.sampled_from([False, False, True])),
        ))
    return dict(steps=steps)


@st.composite
def quiet_call(draw, tier="quick"):
    return dict(fn=draw(st.sampled_from(NAMES)), kind=draw(st.integers(0, 4)), seed=draw(st.integers(0, 10**6)), lazy=draw(st.booleans()),
                error=draw(st.integers(0, 9)) == 0, filters=draw(st.sampled_from(["default", "ignore", "always", "error-last"])), options=draw(st.booleans()))


@facet("X01", "library state", lambda tier: quiet_call(tier), 600, 6000, layouts=False,
       rule="one call, repeated after everything it imports is loaded, under several warning filters and library options, with plain or chunked arrays; every filter and option must be the same afterwards; all are non-trivial")
def state_after(case, cx):
    s = dict(case, vary=3 if case["error"] else 0)
    cx.label(case["fn"], "chunked" if case["lazy"] else "plain", case["filters"])
    cx.interesting()
    cx.sut_called = True

    def lazy(x):
        return x.chunk() if case["lazy"] and isinstance(x, xr.DataArray) and x.ndim > 1 and not hasattr(x, "uxgrid") else x

    def one():
        fn, args, kw = build(s)
        try:
            r = fn(*[lazy(a) for a in args], **{k: lazy(v) for k, v in kw.items()})
            r.compute() if case["lazy"] and hasattr(r, "compute") else None
        except Exception:  # noqa: BLE001 - what it returns is not the point here
            return

    def run():
        quiet()
        with warnings.catch_warnings():
            one()
        warnings.resetwarnings()
        if case["filters"] == "error-last":
            warnings.filterwarnings("error", "no such warning", append=True)
        elif case["filters"] != "default":
            warnings.simplefilter(case["filters"])
        if case["options"]:
            np.seterr(divide="ignore", over="raise", under="warn")
            np.set_printoptions(precision=4)
            xr.set_options(keep_attrs=True, display_width=70)
        before = library_state()
        one()
        now = library_state()
        return [(k, [v for v in now[k] if v not in before[k]] if isinstance(now[k], list) else describe(before[k], now[k])) for k in before if before[k] != now[k]]

    status, out = in_child(run)
    if status != "ok":
        raise Violation("the process died during the call") if status == "died" else HarnessError(str(out))
    U.need(not out, f"{case['fn']} changed the library state: {out}")


@facet("X01", "histories", lambda tier: history(tier), 640, 8000, layouts=False,
       rule="a history counts when it makes at least two calls of one function, with different argument values or an overwritten result in between")
def histories(case, cx):
    steps = case["steps"]
    cx.label(*{"fn:" + s["fn"] for s in steps})
    cx.sut_called = True

    def sequence():
        quiet()
        out = []
        pool = Pool()
        state = library_state()
        for i, s in enumerate(steps):
            fn, args, kw, undo = arguments(s, pool)
            before = snap([args, kw])
            extra = None
            try:
                r = fn(*args, **kw)
                res = ("value", snap(r))
            except Exception as e:  # noqa: BLE001
                r, res = None, ("raised", type(e).__name__, str(e))
            changed = None
            if snap([args, kw]) != before:
                changed = describe(before, snap([args, kw]))
            now = library_state()
            extra = state_changes(state, now)
            state = now
            out.append((res, changed, extra))
            for dst, val in undo:
                dst[...] = val
            if s["scribble"] and r is not None:
                scribble(r)
                pool = Pool()  # a result may be a view of an argument: go on with fresh arguments
        return out

    def alone(s):
        def f():
            quiet()
            fn, args, kw, _undo = arguments(s, lambda x: x)
            return result_snap(s, fn, args, kw)

        return f

    status, out = in_child(sequence)
    if status == "died":
        raise Violation("the process died during the sequence of calls")
    if status == "err":
        raise HarnessError(out)
    seen = {}
    fresh = {}
    for i, (s, (res, changed, extra)) in enumerate(zip(steps, out)):
        if changed:
            raise Violation(f"call {i + 1}, {s['fn']}: an argument was modified: {changed}")
        if extra:
            raise Violation(f"call {i + 1}, {s['fn']}: changed the library state: {extra}")
        key = (s["fn"], s["kind"], s["seed"], s["vary"], bool(s.get("inplace")))
        if key not in fresh:
            st_, fresh[key] = in_child(alone(s))
            if st_ != "ok":
                raise HarnessError(str(fresh[key]))
        if fresh[key][0] == "raised" and s["vary"] < 3:
            raise Violation(f"{s['fn']} raised {fresh[key][1]}: {fresh[key][2][:200]} on a valid input")
        if res != fresh[key]:
            raise Violation(f"call {i + 1}, {s['fn']}: the result differs from the same call in a fresh process: {describe(fresh[key], res)}")
        if s["fn"] in seen:
            a = seen[s["fn"]]
            cx.interesting(any(x["scribble"] for x in steps[:i]) or any(k != key for k in a))
        seen.setdefault(s["fn"], set()).add(key)


def describe(a, b, path=""):
    """Where two snapshots differ."""
    if type(a) is not type(b):
        return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if a.get(k) != b.get(k):
                if k not in a or k not in b:
                    return f"{path}[{k}]: {'appeared' if k in b else 'vanished'}"
                return describe(a[k], b[k], f"{path}[{k}]")
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"
        if len(a) == 4 and a[0] == "np" and a[1:3] == b[1:3]:
            return f"{path}: {np.frombuffer(a[3], a[1])[:6]} -> {np.frombuffer(b[3], b[1])[:6]}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return describe(x, y, f"{path}.{i}")
    return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"


# ================================================================ X04: dask
LAZY = [n for n in NAMES if RECIPES[n].lazy]


def is_xr(x):
    return isinstance(x, (xr.DataArray, xr.Dataset))


def layout(s, n, mode):
    """Chunk sizes summing to n."""
    if mode == "one" or n <= 1:
        return (n,)
    if mode == "single":
        return (1,) * n
    cut = [i for i, u in zip(range(1, n), U.uniform(s, n, 77)) if u < (0.015 if n > 40 else 0.4)]
    edges = [0] + cut + [n]
    return tuple(b - a for a, b in zip(edges, edges[1:]))


def chunked(x, dims, s, mode):
    ch = {}
    for i, d in enumerate(x.dims):
        if dims != "all" and d not in dims:
            ch[d] = x.sizes[d]
        else:
            m = mode if not (mode == "single" and x.sizes[d] > 40) else "random"
            ch[d] = layout(s + i, x.sizes[d], m)
    return x.chunk(ch)


def backed(r):
    """Whether every data variable of a result is a dask collection."""
    if isinstance(r, xr.Dataset):
        return all(backed(v) for v in r.data_vars.values())
    return hasattr(r, "data") and hasattr(r.data, "dask")


def equal_objects(got, want, what, rtol=1e-9):
    """Same container, variables, dimension order, coordinates, attributes and (to rounding) values."""
    U.need(type(got) is type(want), f"{what}: returns {type(got).__name__}, in memory {type(want).__name__}")
    if isinstance(want, xr.Dataset):
        U.need(list(got.data_vars) == list(want.data_vars), f"{what}: variables {list(got.data_vars)}, in memory {list(want.data_vars)}")
        for k in want.data_vars:
            equal_objects(got[k], want[k], f"{what}[{k}]", rtol)
        return
    if isinstance(want, (list, tuple)):
        U.need(len(got) == len(want), f"{what}: {len(got)} results instead of {len(want)}")
        for i, (g, w) in enumerate(zip(got, want)):
            equal_objects(g, w, f"{what}[{i}]", rtol)
        return
    if isinstance(want, xr.DataArray):
        U.need(got.dims == want.dims, f"{what}: dims {got.dims}, in memory {want.dims}")
        U.need(set(got.coords) == set(want.coords), f"{what}: coords {sorted(map(str, got.coords))}, in memory {sorted(map(str, want.coords))}")
        for c in want.coords:
            U.need(got[c].dims == want[c].dims and snap(np.asarray(got[c].values)) == snap(np.asarray(want[c].values)), f"{what}: coordinate {c} differs: {got[c].values} / {want[c].values}")
        U.need(set(got.attrs) == set(want.attrs), f"{what}: attributes {sorted(got.attrs)}, in memory {sorted(want.attrs)}")
        U.need(got.name == want.name, f"{what}: name {got.name!r}, in memory {want.name!r}")
    w = U.plain(want)
    if w.dtype.kind == "c":
        U.close(U.plain(got).real, w.real, what, rtol, scale=np.abs(w).max() if w.size else 1)
        U.close(U.plain(got).imag, w.imag, what, rtol, scale=np.abs(w).max() if w.size else 1)
        return
    fin = np.abs(w[np.isfinite(w)]) if w.dtype.kind == "f" else np.abs(w.ravel())
    U.close(got, want, what, rtol, scale=fin.max() if fin.size else 1)


@st.composite
def dask_case(draw, tier="quick"):
    fn = draw(st.sampled_from(LAZY))
    rec = RECIPES[fn]
    kinds = [i for i, k in enumerate(rec.kinds) if k not in ("np", "list", "scalar")]
    return dict(fn=fn, kind=draw(st.sampled_from(kinds)), seed=draw(st.integers(0, 100000)), which=draw(st.integers(1, 15)), cs=draw(U.seeds),
                mode=draw(st.sampled_from(["random", "random", "one", "single"])), sched=draw(st.sampled_from(["synchronous", "threads"])))


@facet("X04", "chunkings", lambda tier: dask_case(tier), 1600, 30000,
       rule="a case counts when some argument is split into at least two blocks")
def chunkings(case, cx):
    rec = RECIPES[case["fn"]]
    kind = rec.kinds[case["kind"]]
    fn, args, kw = rec.build(case["seed"], kind)
    cx.label("fn:" + case["fn"], "mode:" + case["mode"])
    want = cx.call(fn, *args, **kw)
    args, kw = list(args), dict(kw)
    cand = [k for k in rec.chunk if is_xr(args[k] if isinstance(k, int) else kw.get(k))]
    use = [k for i, k in enumerate(cand) if case["which"] >> i & 1] or cand[:1]
    blocks = 1
    for k in use:
        box, key = (args, k) if isinstance(k, int) else (kw, k)
        box[key] = chunked(box[key], rec.chunk[k], case["cs"] + 13 * (k if isinstance(k, int) else len(k)), case["mode"])
        sizes = box[key].chunksizes if hasattr(box[key], "chunksizes") else {}
        blocks = max([blocks] + [len(c) for c in sizes.values()])
    cx.interesting(blocks > 1)
    cx.label("args:%d" % len(use), "blocks>1" if blocks > 1 else "blocks=1")
    with dask.config.set(scheduler=case["sched"]):
        got = cx.call(fn, *args, **kw)
        if 0 in use and (rec.lazy is True or kind in rec.lazy):
            U.need(backed(got), f"{case['fn']}: the result of dask-backed inputs is not dask-backed")
        got = cx.call(lambda: got.compute() if hasattr(got, "compute") else got)
    equal_objects(got, want, case["fn"] + " on chunked input")


# ================================================================ X05: dimensions and coordinates
@st.composite
def point_case(draw, tier="quick"):
    fn = draw(st.sampled_from(sorted(RANGES)))
    nd = draw(st.integers(1, 3 if tier == "quick" else 4))
    na = len(RANGES[fn])
    return dict(fn=fn, nd=nd, n=draw(st.integers(2, 4)), orders=[draw(st.permutations(range(nd))) for _ in range(na)], seed=draw(U.seeds),
                aux=draw(st.sampled_from(["all", "first", "none"])), dask=draw(st.sampled_from([False, False, False, True])),
                kw=draw(st.booleans()), names=draw(st.permutations(["time", "y", "x", "lev"])),
                part=draw(st.sampled_from([None, None, (0.0, 0.15), (0.85, 1.0), (0.4, 0.6), (0.2, 0.2)])))


@facet("X05", "pointwise", lambda tier: point_case(tier), 1080, 16000,
       rule="a case counts when an argument has two or more dimensions in another order than the first argument, or auxiliary coordinates are present")
def pointwise(case, cx):
    name, nd, s = case["fn"], case["nd"], case["seed"]
    dims = [str(d) for d in case["names"][:nd]]
    shape = (case["n"],) * nd
    # all elements in one part of the range (one regime of the formulas), or all over it
    lo, hi = case["part"] or (0.0, 1.0)
    cols = [U.field(s, shape, a + lo * (b - a), a + hi * (b - a), i) for i, (a, b) in enumerate(RANGES[name])]
    co = {d: (d, U.field(s, (case["n"],), 0, 9, 50 + i)) for i, d in enumerate(dims)}
    co["member"] = 3
    co["label"] = (dims[-1], np.arange(case["n"]) * 7)
    if nd > 1:
        co["area"] = ((dims[0], dims[1]), U.field(s, shape[:2], 0, 1, 60))
    args = []
    for i, c in enumerate(cols):
        use = co if case["aux"] == "all" or (case["aux"] == "first" and i == 0) else {k: v for k, v in co.items() if k in dims}
        da = xr.DataArray(c, dims=dims, coords=use, name=f"in{i}", attrs={"units": f"u{i}", "arg": i})
        args.append(da.transpose(*[dims[j] for j in case["orders"][i]]))
        if case["dask"]:
            args[-1] = args[-1].chunk({d: 1 for d in dims})
    kw = {}
    if case["kw"] and name == "heat_index":
        kw["alternate_coeffs"] = True
    if case["kw"] and "vapor" in name:
        kw["tfill"] = -99.0
    cx.label("fn:" + name, f"{nd}d", "aux:" + case["aux"], "one regime" if case["part"] else "all regimes")
    cx.interesting(any(o != case["orders"][0] for o in case["orders"]) or (case["aux"] != "none"))
    got = cx.call(getattr(gc, name), *args, **kw)
    U.need(isinstance(got, xr.DataArray), f"{name}: returns {type(got).__name__} for DataArrays")
    first = args[0]
    U.need(set(got.dims) == set(dims), f"{name}: dims {got.dims}, input {first.dims}")
    if all(a.dims == first.dims for a in args):
        U.need(got.dims == first.dims, f"{name}: dims {got.dims}, input {first.dims}")
    for c in first.coords:
        U.need(c in got.coords, f"{name}: coordinate {c} is lost")
        a, b = got[c], first[c]
        U.need(a.dims == b.dims or set(a.dims) == set(b.dims), f"{name}: coordinate {c} has dims {a.dims}, input {b.dims}")
        U.same(a.transpose(*b.dims), b, f"{name}: coordinate {c}")
    U.need(set(got.coords) == set(first.coords), f"{name}: coordinates {sorted(map(str, got.coords))}, input {sorted(map(str, first.coords))}")
    for k, v in POINT_ATTRS.get(name, {}).items():
        U.need(got.attrs.get(k) == v, f"{name}: attribute {k} is {got.attrs.get(k)!r}, documented {v!r}")
    want = cx.call(getattr(gc, name), *cols, **kw)
    U.close(got.transpose(*dims), want, f"{name}: values along the coordinates", 1e-12, scale=1e-9)


@st.composite
def field_case(draw, tier="quick"):
    return dict(fn=draw(st.sampled_from(["fourier_low_pass", "fourier_high_pass", "fourier_band_pass", "fourier_band_block", "climate_anomaly"])),
                kind=draw(st.integers(0, 3)), seed=draw(st.integers(0, 50000)), attrs=draw(st.booleans()))


@facet("X05", "fields", lambda tier: field_case(tier), 360, 4000, rule="a case counts when the field has two or more dimensions")
def fields(case, cx):
    rec = RECIPES[case["fn"]]
    kind = "xr" if "fourier" in case["fn"] else rec.kinds[case["kind"]]
    fn, args, kw = rec.build(case["seed"], kind)
    x = args[0]
    if kind != "xr" and case["attrs"]:
        kw = dict(kw, keep_attrs=True)
    if kind != "xr" and isinstance(x, xr.DataArray):
        x = x.assign_coords({d: (d, np.arange(x.sizes[d]) * 3.0) for d in x.dims if d != "time"}).assign_coords(member=4)
        x = x.assign_coords({"tag": (d, np.arange(x.sizes[d])) for d in x.dims if d != "time"})
        args = [x] + list(args[1:])
    cx.label("fn:" + case["fn"])
    got = cx.call(fn, *args, **kw)
    cx.interesting(len(x.dims) > 1)
    U.need(type(got) is type(x), f"{case['fn']}: returns {type(got).__name__}")
    for v in list(x.data_vars) if isinstance(x, xr.Dataset) else [None]:
        g, w = (got, x) if v is None else (got[v], x[v])
        U.need(set(g.dims) == set(w.dims), f"{case['fn']}: dims {g.dims}, input {w.dims}")
        U.need(g.dims == w.dims or kind != "xr", f"{case['fn']}: dims {g.dims}, input {w.dims}")
        for c in w.coords:
            U.need(c in g.coords, f"{case['fn']}: coordinate {c} is lost")
            # grouping repeats scalar coordinates along time
            wc = np.broadcast_to(w[c].values, g[c].shape) if w[c].ndim == 0 else w[c].values
            U.need(np.array_equal(np.asarray(g[c].values), np.asarray(wc)), f"{case['fn']}: coordinate {c} changed")
        extra = {"season"} if case["fn"] == "climate_anomaly" else set()  # the bins of a seasonal anomaly
        U.need(set(g.coords) - extra == set(w.coords), f"{case['fn']}: coordinates {sorted(map(str, g.coords))}")
        U.need(g.name == w.name or kind != "xr", f"{case['fn']}: name {g.name!r}, input {w.name!r}")
    U.need(snap(dict(got.attrs)) == snap(dict(x.attrs)), f"{case['fn']}: attributes {got.attrs}, input {x.attrs}")


@st.composite
def reduce_case(draw, tier="quick"):
    return dict(fn=draw(st.sampled_from(["nmse", "pearson_r"])), sizes=[draw(st.integers(1, 3)), draw(st.integers(2, 4)), draw(st.integers(3, 5))],
                oa=draw(st.permutations([0, 1, 2])), ob=draw(st.permutations([0, 1, 2])), seed=draw(U.seeds), dim=draw(st.sampled_from([["lat"], ["lon"], ["lat", "lon"], ["lon", "time"]])),
                ds=draw(st.booleans()))


@facet("X05", "reductions", lambda tier: reduce_case(tier), 290, 4000, rule="a case counts when the two fields have their dimensions in different orders")
def reductions(case, cx):
    nt, ny, nx = case["sizes"]
    s = case["seed"]
    dims = ["time", "lat", "lon"]
    co = {"time": np.arange(nt) * 2.0, "lat": np.linspace(-50, 60, ny), "lon": np.arange(nx) * 40.0}
    a, b = (xr.DataArray(U.field(s, (nt, ny, nx), 1, 9, k), dims=dims, coords=co, name="v") for k in (0, 1))
    pa, pb = a.transpose(*[dims[i] for i in case["oa"]]), b.transpose(*[dims[i] for i in case["ob"]])
    if case["ds"]:
        a, b, pa, pb = (x.to_dataset(name="v") for x in (a, b, pa, pb))
    kw = {"dim": case["dim"]} if case["fn"] == "pearson_r" else {}
    cx.label("fn:" + case["fn"], "ds" if case["ds"] else "da")
    cx.interesting(case["oa"] != case["ob"])
    fn = getattr(gc, case["fn"])
    got, want = cx.call(fn, pa, pb, **kw), cx.call(fn, a, b, **kw)
    if case["ds"]:
        got, want = got["v"], want["v"]
    left = [d for d in dims if d not in (case["dim"] if kw else ["lat", "lon"])]
    U.need(set(want.dims) - {"variable"} == set(left), f"{case['fn']}: dims {want.dims}, expected {left}")
    U.need(set(got.dims) == set(want.dims), f"{case['fn']}: dims {got.dims}, expected {want.dims}")
    for d in left:
        U.same(got[d], co[d], f"{case['fn']}: coordinate {d}")
    U.close(got.transpose(*want.dims), want, f"{case['fn']}: with dimensions in another order", 1e-9, scale=1)


# ================================================================ X03: alternative entry points
FLAGS = {"low": dict(low_pass=True), "high": dict(high_pass=True), "band": dict(band_pass=True), "block": dict(band_block=True)}
WRAP = {"low": "fourier_low_pass", "high": "fourier_high_pass", "band": "fourier_band_pass", "block": "fourier_band_block"}


@st.composite
def alias_case(draw, tier="quick"):
    what = draw(st.sampled_from(["fourier", "fourier", "eofunc", "eofunc_ts", "dpres_plev", "export"]))
    return dict(what=what, seed=draw(U.seeds), small=draw(st.integers(0, 60)), kind=draw(st.sampled_from(sorted(FLAGS))), box=draw(st.sampled_from(["np", "xr", "list"])),
                opt=draw(st.integers(0, 7)), fn=draw(st.sampled_from(NAMES)))


def equal_snaps(a, b):
    """Equal up to rounding: the calls compared may run on arrays of different memory order."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal_snaps(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        if a and a[0] in ("np", "np0") and b and a[0] == b[0]:
            x, y = (np.frombuffer(v[-1], v[1]) for v in (a, b))
            if a[2:-1] != b[2:-1] or x.dtype.newbyteorder("=") != y.dtype.newbyteorder("="):
                return False
            if x.dtype.kind not in "fc":
                return np.array_equal(x, y)
            n = np.nanmax(np.abs(y), initial=0.0)
            return bool(np.allclose(x, y, rtol=1e-9 if y.itemsize > 4 else 1e-4, atol=(1e-12 if y.itemsize > 4 else 1e-6) * (n if np.isfinite(n) else 0), equal_nan=True))
        return len(a) == len(b) and all(equal_snaps(x, y) for x, y in zip(a, b))
    return a == b


def identical(got, want, what):
    if not equal_snaps(snap(got), snap(want)):
        raise Violation(f"{what}: {describe(snap(want), snap(got))}")


@facet("X03", "aliases", lambda tier: alias_case(tier), 1800, 12000, rule="every case compares two entry points on generated arguments; all count")
def aliases(case, cx):
    s, what, n = case["seed"], case["what"], case["small"]
    cx.label(what)
    cx.interesting()
    if what == "fourier":
        rec = RECIPES[WRAP[case["kind"]]]
        fn, args, kw = rec.build(s % 100000, case["box"])
        cx.label(case["kind"], case["box"])
        sig, freq, cuts = args[0], args[1], [c * (1 + case["opt"] / 3) for c in args[2:]]
        full = dict(kw, **FLAGS[case["kind"]])
        if case["kind"] != "high":
            full["cutoff_frequency_low"] = cuts[0]
        if case["kind"] != "low":
            full["cutoff_frequency_high"] = cuts[-1]
        want = cx.call(gc.fourier_filter, sig, freq, **full)
        if case["opt"] % 2:
            got = cx.call(fn, sig, freq, *cuts, kw["time_axis"])
        else:
            names = {"low": ["cutoff_frequency_low"], "high": ["cutoff_frequency_high"]}.get(case["kind"], ["cutoff_frequency_low", "cutoff_frequency_high"])
            got = cx.call(fn, signal=sig, frequency=freq, time_axis=kw["time_axis"], **dict(zip(names, cuts)))
        identical(got, want, WRAP[case["kind"]])
    elif what in ("eofunc", "eofunc_ts"):
        shape = [2 + n % 4, 2 + n % 3, 3 + n % 2][: 2 + case["opt"] % 2]
        x = U.field(s, tuple(shape), -4, 4)
        data = xr.DataArray(x, dims=["p", "q", "r"][: x.ndim], attrs={"u": 1}) if case["box"] == "xr" else x.tolist() if case["box"] == "list" else x
        neof = 1 + n % 2
        td = [None, 0, 1, x.ndim - 1][n % 4]
        if x.shape[-1 if td is None else td] < 2:
            raise Skip("one time")
        kw = {} if td is None else {"time_dim": td}
        eff = x.ndim - 1 if td is None else td
        cx.label(f"time_dim:{td}")
        if what == "eofunc":
            got = cx.call(gc.eofunc, data, neof, **kw)
            want = cx.call(gc.eofunc_eofs, x, neofs=neof, time_dim=eff)
        else:
            evec = np.zeros((neof,) + tuple(np.delete(x.shape, eff)))
            if case["opt"] > 3:
                evec = xr.DataArray(evec)
            got = cx.call(gc.eofunc_ts, data, evec, **kw)
            want = cx.call(gc.eofunc_pcs, x, npcs=neof, time_dim=eff)
        identical(got, want, what)
    elif what == "dpres_plev":
        rec = RECIPES["delta_pressure"]
        fn, args, kw = rec.build(s % 100000, rec.kinds[n % len(rec.kinds)])
        top = float(np.min(args[0])) * [0.3, 1.0, 0.0, 0.0][n // 6 % 4]
        if case["opt"] > 4:
            kw, args2 = {}, list(args) + [top]
        elif case["opt"] > 2:
            kw, args2 = {"pressure_top": top}, list(args)
        else:
            args2 = list(args)
        identical(cx.call(gc.dpres_plev, *args2, **kw), cx.call(gc.delta_pressure, *args2, **kw), "dpres_plev")
    else:
        import importlib

        name = case["fn"].split()[0]
        cx.label("export:" + name)
        mod = importlib.import_module(MODULE[name])
        if not hasattr(mod, name):
            raise Skip("not in its module")
        rec = RECIPES[case["fn"]]
        fn, args, kw = rec.build(s % 100000, rec.kinds[n % len(rec.kinds)])
        identical(cx.call(fn, *args, **kw), cx.call(getattr(mod, name), *args, **kw), name)


MODULE = {n.split()[0]: "geocat.comp." + m for m, ns in {
    "climatologies": ["calendar_average", "climatology_average", "climate_anomaly", "month_to_season"], "fourier_filters": list(WRAP.values()), "gradient": ["gradient"],
    "interpolation": ["interp_hybrid_to_pressure", "interp_sigma_to_hybrid", "interp_multidim", "pressure_at_hybrid_levels", "delta_pressure_hybrid"],
    "meteorology": list(RANGES) + ["max_daylight", "delta_pressure", "zonal_meridional_psi"], "spherical": ["decomposition", "recomposition", "scale_voronoi"],
    "stats": ["nmse", "pearson_r", "eofunc", "eofunc_ts", "eofunc_eofs", "eofunc_pcs"]}.items() for n in ns}

GONE = ["grid_to_triple", "linint1", "linint2", "linint2pts", "moc_globe_atl", "rcm2points", "rcm2rgrid", "rgrid2rcm", "triple_to_grid"]


@facet("X03", "removed", lambda tier: st.fixed_dictionaries(dict(fn=st.sampled_from(GONE), n=st.integers(0, 4), kw=st.integers(0, 2), seed=U.seeds)), 120, 1000,
       rule="every case counts: a removed function called with generated arguments")
def removed(case, cx):
    args = [U.field(case["seed"], (2, 3), -1, 1, i) for i in range(case["n"])]
    kw = {f"k{i}": i for i in range(case["kw"])}
    fn = getattr(gc, case["fn"])
    cx.interesting()
    cx.label(case["fn"])
    cx.sut_called = True
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = fn(*args, **kw)
    U.need(r is None, f"{case['fn']} returns {type(r).__name__}")
    U.need(any(case["fn"] in str(x.message) and "geocat.f2py" in str(x.message) for x in w), f"{case['fn']} does not announce its replacement: {[str(x.message) for x in w]}")


@facet("X03", "zonal_mpsi", lambda tier: st.fixed_dictionaries(dict(
    seed=U.seeds, nlev=st.integers(2, 5), nt=st.integers(1, 2), desc=st.booleans(), hybrid=st.booleans(), explicit=st.integers(0, 31),
    lat=st.sampled_from([[-40.0, 10.0], [5.0], [-10.0, 30.0, 45.0]]))), 60, 800, rule="every case counts: a generated unstructured dataset through both entry points")
def zonal_mpsi(case, cx):
    ds = small_uxds(case["seed"], case["nlev"], case["nt"], case["desc"], case["hybrid"])
    e = case["explicit"]
    kw = dict(lat=case["lat"])
    # a decoy shows whether a name was passed on
    ds["wind2"] = ds["V"] * 3 + 1
    ds["press2"] = ds["PS"] * 1.1
    if e & 1:
        kw["meridional_wind_varname"] = "wind2"
    if e & 2:
        kw["surface_air_pressure_varname"] = "press2"
    if e & 4 and not case["hybrid"]:
        kw["plev_coordname"] = "plev"
    if case["hybrid"]:
        ds["ha2"], ds["hb2"] = ds["hyam"] * 0.95, ds["hybm"] * 1.0
        if e & 8:
            kw["hyam_coordname"] = "ha2"
        if e & 16:
            kw["hybm_coordname"] = "hb2"
    cx.interesting()
    cx.label("hybrid" if case["hybrid"] else "pressure", f"names:{bin(e).count('1')}")
    identical(cx.call(gc.zonal_mpsi, ds, **kw), cx.call(gc.zonal_meridional_psi, ds, **kw), "zonal_mpsi")


def _warm():
    from .psi import warm

    warm()


WARMUPS["X03"] = WARMUPS["X02"] = WARMUPS["X01"] = _warm
