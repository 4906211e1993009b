"""Property runner: facets, generated cases, oracles, shrinking, evidence.

A *facet* is one executable statement of (part of) a property:

* ``strategy(tier)`` - a hypothesis strategy that yields a JSON-able ``case``;
* ``run(case, cx)``  - builds the arrays described by the case, calls the code
  under test through ``cx.call`` and compares with an independent oracle;
* ``nontrivial(case)`` through ``cx.interesting()``.

The case is the only source of variation, so the case *is* the replay file.
"""
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

import numpy as np

from . import bootstrap

QUICK, THOROUGH = "quick", "thorough"


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case is outside the property's domain; counted, never silently."""


class HarnessError(Exception):
    pass


LAYOUTS = (os.environ.get("VFY_LAYOUTS") or "plain,plain,fortran,strided,reversed,readonly,bigendian").split(",")


def _memory(a, how):
    """The same array (values, shape, dtype) stored differently in memory."""
    if how == "fortran":
        return np.asfortranarray(a) if a.ndim else a
    if how == "strided" and a.ndim:
        b = np.empty(tuple(2 * n for n in a.shape), a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed" and a.ndim:
        flip = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[flip])[flip]
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == "bigendian" and a.ndim > 1 and a.dtype.kind in "fi":  # pandas takes no big-endian coordinates
        return a.astype(a.dtype.newbyteorder(">"))
    return a


def relayout(x, key):
    """Arrays, DataArrays and containers of them in a memory layout drawn from ``key``."""
    import xarray as xr

    if isinstance(x, np.ndarray) and type(x) is np.ndarray and x.dtype.kind in "fiubc":
        return _memory(x, LAYOUTS[key % len(LAYOUTS)])
    if type(x) is xr.DataArray and isinstance(x.variable._data, np.ndarray) and x.dtype.kind in "fiubc":
        return x.copy(data=_memory(x.variable._data, LAYOUTS[key % len(LAYOUTS)]))
    if type(x) is xr.Dataset:
        return x.assign({k: v.copy(data=_memory(v.variable._data, LAYOUTS[(key + i) % len(LAYOUTS)])) for i, (k, v) in enumerate(x.data_vars.items())
                         if isinstance(v.variable._data, np.ndarray) and v.dtype.kind in "fiubc"})
    return x


class Context:
    """Per-case bookkeeping handed to a facet."""

    layout_key = None  # set: arrays reach the code under test in varying memory layouts

    def __init__(self):
        self.sut_called = False
        self.classes = []
        self.nontrivial = False

    def call(self, fn, *args, **kwargs):
        """Call the code under test on a *valid* input: any exception breaks the property."""
        self.sut_called = True
        if self.layout_key is not None:
            k = self.layout_key
            self.layout_key += 1
            args = [relayout(a, (k * 31 + i * 7) // 3) for i, a in enumerate(args)]
            kwargs = {n: relayout(a, (k * 17 + len(n)) // 3) for n, a in kwargs.items()}
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args, **kwargs)
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"
            raise Violation(
                f"{getattr(fn, '__name__', fn)} raised {type(e).__name__} on a valid input: {str(e)[:300]} (at {where})"
            ) from e

    def expect_raises(self, exc, fn, *args, **kwargs):
        """The call must raise one of ``exc`` and must not return."""
        self.sut_called = True
        name = getattr(fn, "__name__", str(fn))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn(*args, **kwargs)
        except exc:
            return
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{name} raised {type(e).__name__} ({str(e)[:200]}) instead of {exc}") from e
        raise Violation(f"{name} accepted an invalid input and returned {type(r).__name__}")

    def label(self, *names):
        self.classes.extend(str(n) for n in names)

    def interesting(self, flag=True):
        if flag:
            self.nontrivial = True

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg)


class Facet:
    def __init__(self, prop, name, strategy, run, quick, thorough, rule, weight=1.0, shards=None, layouts=True):
        self.layouts = layouts
        self.prop, self.name = prop, name
        self.strategy, self.run = strategy, run
        self.n = {QUICK: quick, THOROUGH: thorough}
        self.rule, self.weight, self.shards = rule, weight, shards


FACETS = {}      # property -> [Facet]
PROBES = {}      # property -> [(finding id, fn)]
ASSUMPTIONS = {}  # property -> [str]
WARMUPS = {}     # property -> fn, run once before the workers are forked (compilers, caches)


def facet(prop, name, strategy, quick, thorough=None, rule="", weight=1.0, shards=None, layouts=True):
    """Register ``run(case, cx)`` as a facet of a property (or several)."""

    def deco(run):
        for p in [prop] if isinstance(prop, str) else prop:
            FACETS.setdefault(p, []).append(
                Facet(p, name, strategy, run, quick, thorough or quick * 20, rule, weight, shards, layouts)
            )
        return run

    return deco


def probe(prop, finding):
    """Register a reproducer of a known finding.

    ``fn()`` returns None when the property holds on the recorded input,
    'known' when it fails exactly as recorded, or a message for any other failure.
    """

    def deco(fn):
        PROBES.setdefault(prop, []).append((finding, fn))
        return fn

    return deco


# ---------------------------------------------------------------- running one case
def execute(fct, case):
    """Returns (status, message, cx) with status ok / skip / violation / harness."""
    cx = Context()
    if fct.layouts:
        cx.layout_key = int(_key(case)[:8], 16)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fct.run(case, cx)
        return "ok", "", cx
    except Skip as e:
        return "skip", str(e), cx
    except Violation as e:
        return "violation", str(e), cx
    except HarnessError:
        return "harness", traceback.format_exc(), cx
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if cx.sut_called:
            # the code under test answered with something malformed
            last = traceback.extract_tb(e.__traceback__)[-1]
            return (
                "violation",
                f"malformed result: {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(last.filename)}:{last.lineno})",
                cx,
            )
        return "harness", tb, cx


def _key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


class _Stop(Exception):
    pass


def run_shard(fct, tier, seed, n, deadline, out):
    """Generate and run ``n`` cases of one facet in this process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    stats = dict(
        facet=fct.name, evaluations=0, skipped=0, timed_out=0, keys=set(), classes={}, samples=[], failure=None,
        harness=None,
    )
    first_fail = {}
    trace = os.environ.get("VFY_TRACE")
    shrink_limit = 25.0 if tier == QUICK else 120.0

    def body(case):
        now = time.monotonic()
        if now > deadline or (first_fail and now - first_fail["t"] > shrink_limit):
            stats["timed_out"] += 1
            return
        if trace:
            with open(f"{trace}.{os.getpid()}", "a") as fh:
                fh.write(json.dumps(case, default=str) + "\n")
        status, msg, cx = execute(fct, case)
        if status == "harness":
            stats["harness"] = dict(case=case, trace=msg)
            raise _Stop()
        if status == "skip":
            stats["skipped"] += 1
            return
        stats["evaluations"] += 1
        for c in set(cx.classes):
            stats["classes"][c] = stats["classes"].get(c, 0) + 1
        if cx.nontrivial:
            k = _key(case)
            if k not in stats["keys"]:
                stats["keys"].add(k)
                if len(stats["samples"]) < 2 and len(stats["keys"]) % 7 == 3:
                    stats["samples"].append(case)
        if status == "violation":
            size = len(json.dumps(case, default=str))
            f = stats["failure"]
            if not first_fail:
                first_fail.update(t=now, case=case, msg=msg)
            if f is None or size <= f["size"]:
                stats["failure"] = dict(case=case, msg=msg, size=size, first=first_fail["case"])
            raise Violation(msg)

    s = settings(
        max_examples=n, deadline=None, database=None, derandomize=False,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet,
    )
    test = hseed(seed)(s(given(fct.strategy(tier))(body)))
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except hypothesis.errors.HypothesisException as e:
        # Flaky etc.: a recorded failure stands on its own, anything else is our error.
        if stats["failure"] is None:
            stats["harness"] = dict(case=None, trace=traceback.format_exc())
        else:
            stats["failure"]["note"] = f"{type(e).__name__}: outcome depends on earlier calls"
    except BaseException:  # noqa: BLE001
        if stats["failure"] is None:
            stats["harness"] = dict(case=None, trace=traceback.format_exc())
    stats["keys"] = list(stats["keys"])
    out.append(stats)


def _worker(tasks, conn, deadline):
    res = []
    for fct, tier, seed, n in tasks:
        t = time.monotonic()
        run_shard(fct, tier, seed, n, deadline, res)
        res[-1]["secs"] = time.monotonic() - t
    conn.send(res)
    conn.close()
    os._exit(0)


def derive(seed, *parts):
    h = hashlib.sha256(("|".join(map(str, (seed,) + parts))).encode()).digest()
    return int.from_bytes(h[:6], "big")


def known_findings():
    path = os.path.join(bootstrap.ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["id"]: e for e in data["findings"]}


def run_check(prop, tier, seed, scale=1.0, only=None, jobs=None):
    """Run every facet of a property; returns the process exit code."""
    t0 = time.monotonic()
    facets = [f for f in FACETS.get(prop, []) if only is None or f.name == only]
    if not facets:
        print(f"no facets for {prop}", file=sys.stderr)
        return 2
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    budget = 420.0 if tier == QUICK else 13 * 60.0 if tier == THOROUGH else 60
    deadline = t0 + budget
    if prop in WARMUPS:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                WARMUPS[prop]()
        except Exception as e:  # noqa: BLE001 - the generated cases will tell
            print(f"  warm-up: {type(e).__name__}: {str(e)[:200]}")
        deadline = time.monotonic() + budget
    # ---- probes of recorded findings
    kf = known_findings()
    probe_fail = []
    for fid, fn in PROBES.get(prop, []):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = fn()
            except Exception as e:  # noqa: BLE001
                r = f"{type(e).__name__} raised on the recorded input: {str(e)[:200]}"
        if r == "known":
            if fid in kf:
                print(f"KNOWN-FINDING: property={prop} {kf[fid]['what']}")
            else:
                probe_fail.append((fid, "fails as described by this probe, and is not a listed finding"))
        elif r is not None:
            probe_fail.append((fid, r))
    # ---- generated cases
    tasks = [[] for _ in range(jobs)]
    load = [0.0] * jobs
    units = []
    for f in facets:
        n = max(1, int(f.n[tier] * scale))
        shards = f.shards or max(1, min(jobs, n // 12 or 1))
        per = -(-n // shards)
        for s in range(shards):
            units.append((f.weight * per, f, tier, derive(seed, prop, f.name, s), per))
    units.sort(key=lambda u: -u[0])
    for w, f, ti, sd, per in units:
        i = load.index(min(load))
        load[i] += w
        tasks[i].append((f, ti, sd, per))
    ctx = mp.get_context("fork")
    procs = []
    for t in tasks:
        if not t:
            continue
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(t, b, deadline))
        p.start()
        b.close()
        procs.append((p, a, t))
    results, dead = [], []
    for p, a, t in procs:
        try:
            results.extend(a.recv())
            p.join()
        except EOFError:
            p.join()
            dead.append(([x[0].name for x in t], p.exitcode))
    # ---- report
    by = {}
    harness = [r["harness"] for r in results if r["harness"]]
    failures = []
    for r in results:
        d = by.setdefault(r["facet"], dict(evaluations=0, distinct=set(), skipped=0, timed_out=0, classes={}, samples=[], secs=0.0))
        d["evaluations"] += r["evaluations"]
        d["skipped"] += r["skipped"]
        d["timed_out"] += r["timed_out"]
        d["secs"] += r["secs"]
        d["distinct"].update(r["keys"])
        for c, k in r["classes"].items():
            d["classes"][c] = d["classes"].get(c, 0) + k
        if len(d["samples"]) < 2:
            d["samples"].extend(r["samples"][: 2 - len(d["samples"])])
        if r["failure"]:
            failures.append((r["facet"], r["failure"]))
    rdir = os.path.join(bootstrap.ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    nviol = 0
    failures.sort(key=lambda x: (x[0], x[1]["size"]))
    for name, f in failures:
        if name in seen:
            continue
        seen.add(name)
        nviol += 1
        path = os.path.join(rdir, f"{prop}-{name}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, facet=name, case=f["case"], message=f["msg"], first_case=f["first"],
                           note=f.get("note"), seed=seed, tier=tier), fh, indent=1, default=str)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  facet={name}: {f['msg']}")
    for fid, msg in probe_fail:
        nviol += 1
        path = os.path.join(rdir, f"{prop}-probe-{fid}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, probe=fid, message=msg), fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  probe={fid}: {msg}")
    wall = time.monotonic() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in by.values()),
            distinct_nontrivial=sum(len(d["distinct"]) for d in by.values()),
            rule="cases are hypothesis-generated JSON descriptions, one per evaluation; distinct by content hash. "
            + " | ".join(f"{f.name}: {f.rule}" for f in facets),
            samples=[dict(facet=k, case=c) for k, d in sorted(by.items()) for c in d["samples"]][:24],
            facets={k: dict(evaluations=d["evaluations"], distinct_nontrivial=len(d["distinct"]), out_of_domain=d["skipped"],
                            not_run_time_limit=d["timed_out"], cpu_s=round(d["secs"], 1),
                            classes=dict(sorted(d["classes"].items()))) for k, d in sorted(by.items())},
            probes=len(PROBES.get(prop, [])),
        ),
        assumptions=ASSUMPTIONS.get(prop, []),
        wall_s=round(wall, 2), violations=nviol,
    )
    edir = os.path.join(bootstrap.ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, f".{prop}.json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(edir, f"{prop}.json"))
    for k, d in sorted(by.items()):
        print(f"  {prop}/{k}: {d['evaluations']} cases, {len(d['distinct'])} distinct non-trivial, {d['skipped']} out of domain,"
              f" {d['timed_out']} not run, {d['secs']:.1f} cpu-s")
    if harness or dead:
        for h in harness[:3]:
            print("HARNESS ERROR", json.dumps(h["case"], default=str)[:500], file=sys.stderr)
            print(h["trace"], file=sys.stderr)
        for d in dead:
            print("WORKER DIED while running", d, file=sys.stderr)
        if not nviol:
            return 2
    print(f"{prop} {tier}: {'VIOLATED' if nviol else 'held'} in {wall:.1f}s")
    return 1 if nviol else 0


def replay(path):
    """Re-run a saved case, without the generator."""
    with open(path) as f:
        r = json.load(f)
    prop = r["property"]
    if "probe" in r:
        for fid, fn in PROBES.get(prop, []):
            if fid == r["probe"]:
                out = fn()
                print(f"probe {fid}: {out}")
                return 0 if out is None else 1
        return 2
    for f in FACETS.get(prop, []):
        if f.name == r["facet"]:
            status, msg, _ = execute(f, r["case"])
            print(f"{prop}/{f.name}: {status} {msg}")
            if status == "violation":
                print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
            return {"ok": 0, "skip": 0, "violation": 1}.get(status, 2)
    return 2
