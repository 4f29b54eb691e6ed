"""C07 - calls have no side effects and no memory.

Explicit search over histories.  A step is (operation, inputs, afterwards): inputs A or B,
afterwards "keep" (the caller keeps the result, which must not change later) or "scribble"
(the caller overwrites the values and attributes of the result, on private inputs).  Every
history starts in a process forked from a parent that has imported momlevel but never called
it, and every extension of a history runs in a fork of the process that has executed it.
"""

import copy
import gc
import json
import os
import pickle
import random
import sys
import time
import traceback
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from mc import ops
from mc.core import NPROC, Scenario, digest

INPUTS = {}
DIGEST = {}
BASE = {}
SECONDS = list(ops.OPS) + list(ops.PLAIN)


# ------------------------------------------------------------------ the world around us
def world():
    import dask

    rs = np.random.get_state()
    return {
        "numpy error handling": repr(np.geterr()),
        "numpy random state": repr((rs[1].tolist(), rs[2:])),
        "random state": hash(random.getstate()),
        "xarray options": repr(sorted(xr.get_options().items(), key=str)),
        "warning filters": repr([f[:1] + f[2:3] for f in warnings.filters]),
        "environment": repr(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "dask configuration": repr(dask.config.config),
        "pandas options": repr([(k, pd.get_option(k)) for k in ("mode.chained_assignment", "display.precision", "compute.use_bottleneck")]),
        "print options": repr(sorted(np.get_printoptions().items())),
    }


ENVIRON = {}


def env(fn):
    ENVIRON["env_" + fn.__name__] = fn
    return fn


@env
def seed():
    np.random.seed(12345)
    random.seed(7)


@env
def quiet():
    np.seterr(all="ignore")


@env
def directory():
    os.chdir("/")


@env
def zone():
    os.environ["TZ"] = "Asia/Tokyo"
    time.tzset()


@env
def printing():
    np.set_printoptions(precision=2, threshold=3)
    pd.set_option("display.precision", 2)


@env
def threads():
    import dask

    dask.config.set(scheduler="threads")


@env
def loud():
    warnings.resetwarnings()
    warnings.simplefilter("default")
    sys.stderr = open(os.devnull, "w")


# ----------------------------------------------------------------------------- steps
def scribble(r, depth=0):
    if isinstance(r, (list, tuple)):
        for x in r:
            scribble(x)
        if isinstance(r, list):
            r.clear()
    elif isinstance(r, dict):
        r.clear()
        r["junk"] = "junk"
    elif isinstance(r, xr.Dataset):
        for n in list(r.variables):
            scribble_variable(r[n].variable if n not in r.dims else r.variables[n])
        r.attrs["junk"] = "junk"
    elif isinstance(r, xr.DataArray):
        scribble_variable(r.variable)
        for n in r.coords:
            scribble_variable(r.coords[n].variable)
    elif isinstance(r, pd.DataFrame):
        for i in range(r.shape[1]):
            col = r.columns[i]
            r[col] = "junk"
    elif isinstance(r, np.ndarray) and r.dtype.kind == "f":
        r[...] = -777.0


def scribble_variable(v):
    d = v._data
    if isinstance(d, np.ndarray):
        try:
            if d.dtype.kind == "f":
                d[...] = -777.0
            elif d.dtype.kind in "iu":
                d[...] = 7
        except ValueError:
            pass  # read-only view
    for k in list(v.attrs):
        if isinstance(v.attrs[k], (list, dict)):
            v.attrs[k].clear()
    v.attrs.clear()
    v.attrs["junk"] = "junk"
    v.encoding.clear()
    v.encoding["junk"] = 1


def private(which):
    return copy.deepcopy(INPUTS[which])


def check_inputs(which, name):
    for k, v in INPUTS[which].items():
        if digest(v) != DIGEST[which][k]:
            return f"{name} changed its input {k!r}"
    return None


def step(s, held):
    """Execute one step in this process.  Returns None or what is wrong."""
    name, which, after = s
    if name in ENVIRON:
        ENVIRON[name]()
        return None
    before = world()
    if after == "scribble":
        I = private(which)
        got = ops.run(name, I)
    else:
        got = ops.run(name, INPUTS[which])
    now = world()
    for k in before:
        if before[k] != now[k]:
            return f"{name} changed the {k} of the process"
    want = BASE[name, which]
    if got[0] != want[0]:
        return f"{name} on {which}: {got!r:.300} instead of {want!r:.300}"
    d = ops.differ(got[1], want[1])
    if d:
        return f"{name} on {which}: {d}"
    bad = check_inputs(which, name)
    if bad:
        return bad
    for h_name, h_res, h_dig in held:
        if digest(h_res) != h_dig:
            return f"{name} changed the result that {h_name} had returned"
    if after == "scribble":
        if got[0] == "ok":
            scribble(got[1])
    elif got[0] == "ok":
        held.append((name, got[1], digest(got[1])))
    return None


def in_child(fn):
    """Run fn() in a fork; returns its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:  # noqa: BLE001
                out = ("err", traceback.format_exc(limit=-5))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ("err", "child died")
    return pickle.loads(data)


def history(steps):
    """Execute a whole history here; None or what is wrong at which step."""
    held = []
    for i, s in enumerate(steps):
        bad = step(s, held)
        if bad:
            return i, bad
    return None


def prepare():
    for w in ("A", "B"):
        INPUTS[w] = ops.inputs(w)
        DIGEST[w] = {k: digest(v) for k, v in INPUTS[w].items()}
    gc.collect()
    gc.freeze()
    world()
    problems = []
    for name in ops.EVERY:
        for w in ("A", "B"):

            def once():
                r = ops.run(name, INPUTS[w])
                return r, check_inputs(w, name)

            k, r = in_child(once)
            if k != "ok":
                raise RuntimeError(f"baseline of {name}: {r}")
            BASE[name, w] = r[0]
            if r[1]:
                problems.append(([(name, w, "keep")], r[1]))
            if name in ops.FAILING and r[0][0] != "raised" or name not in ops.FAILING and r[0][0] != "ok":
                problems.append(([(name, w, "keep")], f"{name}: {r[0]!r:.300}"))
    return problems


def successors(first, tier):
    name = first[0]
    out = []
    if tier == "thorough":
        return [(n, w, "keep") for n in SECONDS for w in ("A", "B")] + [(n, "A", "keep") for n in ops.FAILING]
    if first[2] == "scribble" or name in ENVIRON or name in ops.FAILING:
        out = [(n, "A", "keep") for n in SECONDS]
    else:
        out = [(name, "A", "keep"), (name, "B", "keep")]
    return out


def firsts(tier):
    out = []
    for n in ops.EVERY:
        if n in ops.FAILING:
            out.append((n, "B", "keep"))
            if tier == "thorough":
                out.append((n, "A", "keep"))
            continue
        out.append((n, "B", "scribble"))
        out.append((n, "A", "keep"))
        if tier == "thorough":
            out += [(n, "A", "scribble"), (n, "B", "keep")]
    out += [(n, "", "") for n in ENVIRON]
    return out


class Histories:
    """All histories up to the depth bound."""

    name = "histories"
    bound = {"quick": 2, "thorough": 3}

    def custom(self, stats, extra, tier, knowns, left):
        t0 = time.time()
        problems = prepare()
        depth = self.bound[tier]
        queue = firsts(tier)
        pipes = []
        for w in range(NPROC):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for p, _ in pipes:
                    p.close()
                code = 0
                try:
                    out = self.worker(queue[w::NPROC], depth, tier, t0 + left)
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(out, f)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(wr)
            pipes.append((os.fdopen(r, "rb"), pid))
        counts = {}
        complete = True
        for f, pid in pipes:
            data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError("a worker died")
            n, bad, done = pickle.loads(data)
            for k, v in n.items():
                counts[k] = counts.get(k, 0) + v
            problems += bad
            complete &= done
        stats.complete &= complete
        stats.executions += sum(counts.values())
        stats.calls += counts.get(1, 0) + counts.get(2, 0) + counts.get(3, 0) + len(BASE)
        stats.checks += 14 * sum(counts.values()) + len(BASE)
        stats.states |= {("history", s) for s in range(sum(counts.values()))}
        stats.levels["histories"] = counts
        extra["histories_per_length"] = {str(k): v for k, v in counts.items()}
        extra["alphabet"] = {
            "operations": len(ops.OPS) + len(ops.PLAIN),
            "failing calls": len(ops.FAILING),
            "changes of environment": len(ENVIRON),
            "inputs": 2,
            "afterwards": ["keep", "scribble over the result"],
        }
        stats.samples += [
            {"history": [list(s) for s in h]}
            for h in ([queue[0]], [queue[0], successors(queue[0], tier)[0]], [queue[-1], successors(queue[-1], tier)[-1]])
        ]
        problems.sort(key=lambda p: (len(p[0]), p[0]))
        return [
            (
                len(h),
                self,
                dict(prefix=[list(s) for s in h], points=[(f"call {i + 1}", 0, 1, False, repr(s)) for i, s in enumerate(h)], violation=msg),
            )
            for h, msg in problems[:20]
        ]

    def worker(self, mine, depth, tier, deadline):
        counts, bad, done = {}, [], True

        def extend(hist, held):
            """In the process that has executed hist: run every extension in a fork."""
            out, n = [], {}
            for s in successors(hist[-1], tier):
                if time.time() > deadline:
                    return n, out, False
                h = hist + [s]

                def child():
                    mineheld = list(held)
                    b = step(s, mineheld)
                    if b or len(h) >= depth or s[0] in ops.FAILING:
                        return {len(h): 1}, ([(h, b)] if b else []), True
                    m, o, d = extend(h, mineheld)
                    m[len(h)] = m.get(len(h), 0) + 1
                    return m, o, d

                k, r = in_child(child)
                if k != "ok":
                    out.append((h, f"history did not finish: {r}"))
                    continue
                for key, v in r[0].items():
                    n[key] = n.get(key, 0) + v
                out += r[1]
                if not r[2] or len(out) > 5:
                    return n, out, r[2]
            return n, out, True

        for s in mine:

            def child():
                held = []
                b = step(s, held)
                if b:
                    return {1: 1}, [([s], b)], True
                n, out, d = extend([s], held)
                n[1] = n.get(1, 0) + 1
                return n, out, d

            k, r = in_child(child)
            if k != "ok":
                bad.append(([s], f"history did not finish: {r}"))
                continue
            for key, v in r[0].items():
                counts[key] = counts.get(key, 0) + v
            bad += r[1]
            done &= r[2]
            if len(bad) > 5 or time.time() > deadline:
                done = done and time.time() <= deadline
                break
        return counts, bad, done

    def replay(self, rec, knowns):
        problems = prepare()
        h = [tuple(s) for s in rec["prefix"]]
        k, r = in_child(lambda: history(h))
        for p in problems:
            print("fresh call:", p)
        print(json.dumps(h), "->", k, r)
        return 1 if problems or k != "ok" or r else 0


GROUPS = [
    ("steric", "thermosteric", "halosteric", "reference", "masso", "volo", "rhoga"),
    ("rho", "alpha", "beta", "pdens", "n2", "stability", "wave", "rossby", "spice", "barometer", "dz"),
    ("vorticity", "potential", "coriolis", "dz"),
    ("annual", "cycle", "monthly", "steric"),
    ("trend", "broadcast", "detrend", "factors"),
    ("seasonal", "deseason", "detrend"),
]


def group(name):
    return {i for i, g in enumerate(GROUPS) if name.split("_")[0] in g}


class Neighbours:
    """Histories of calls that are almost the same.

    Every operation on inputs A, then on inputs that differ from A in one respect only (the
    calendar, the year, the values, the levels, the place, what is missing, the length, the
    attributes), then on A again, and the other way round; and every two related operations on
    the very same inputs.  Something remembered under a key that is too coarse shows up here.
    """

    name = "neighbours"
    bound = {"quick": 3, "thorough": 3}

    def custom(self, stats, extra, tier, knowns, left):
        t0 = time.time()
        if not BASE:
            prepare()
        for w in ops.NEIGHBOURS:
            if w not in INPUTS:
                INPUTS[w] = ops.inputs(w)
                DIGEST[w] = {k: digest(v) for k, v in INPUTS[w].items()}
        jobs = [(n, w) for n in SECONDS for w in ops.NEIGHBOURS]
        jobs += [(a, b) for a in ops.OPS for b in ops.OPS if a != b and group(a) & group(b)]
        pipes = []
        for k in range(NPROC):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    out = [(j, self.job(*j)) for j in jobs[k::NPROC] if time.time() < t0 + left]
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(out, f)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(wr)
            pipes.append((os.fdopen(r, "rb"), pid))
        bad, done, calls = [], 0, 0
        for f, pid in pipes:
            data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError("a worker died")
            for j, (n, c, problems) in pickle.loads(data):
                done += n
                calls += c
                bad += problems
                stats.states.add(("neighbours", j))
        stats.complete &= len([s for s in stats.states if s[0] == "neighbours"]) == len(jobs)
        stats.executions += done
        stats.calls += calls
        stats.checks += 14 * done
        stats.levels["neighbours"] = {"histories": done}
        extra["neighbouring_inputs"] = {k: ops.WHICH[k] for k in ops.NEIGHBOURS}
        bad.sort(key=lambda p: (len(p[0]), p[0]))
        return [
            (
                len(h),
                self,
                dict(prefix=[list(s) for s in h], points=[(f"call {i + 1}", 0, 1, False, repr(s)) for i, s in enumerate(h)], violation=msg),
            )
            for h, msg in bad[:20]
        ]

    def plans(self, name, other):
        if other in ops.NEIGHBOURS:
            a, x = (name, "A", "keep"), (name, other, "keep")
            return [[a, x, a], [x, a]]
        return [[(name, "A", "keep"), (other, "A", "keep")]]

    def job(self, name, other):
        bad, calls = [], 0
        if other in ops.NEIGHBOURS:
            k, r = in_child(lambda: ops.run(name, INPUTS[other]))
            calls += 1
            if k != "ok":
                return 1, calls, [([(name, other, "keep")], f"did not finish: {r}")]
            BASE[name, other] = r
        plans = self.plans(name, other)
        for h in plans:
            k, r = in_child(lambda: history(h))
            calls += len(h)
            if k != "ok":
                bad.append((h, f"history did not finish: {r}"))
            elif r:
                bad.append((h[: r[0] + 1], r[1]))
        return len(plans), calls, bad

    def replay(self, rec, knowns):
        prepare()
        h = [tuple(s) for s in rec["prefix"]]
        for name, w, _ in h:
            if w in ops.NEIGHBOURS:
                INPUTS[w] = ops.inputs(w)
                DIGEST[w] = {k: digest(v) for k, v in INPUTS[w].items()}
                BASE[name, w] = in_child(lambda: ops.run(name, INPUTS[w]))[1]
        k, r = in_child(lambda: history(h))
        print(json.dumps(h), "->", k, r)
        return 1 if k != "ok" or r else 0


def lazily(which):
    from mc.props import c06

    I = INPUTS[which]
    return {
        k: c06.chunked(v, {d: tuple([2] * (n // 2) + [1] * (n % 2)) for d, n in v.sizes.items() if d not in ("time", "z_l")}, coords=False)
        if c06.xarray(v) else v
        for k, v in I.items()
    }  # fmt: skip


def raw(name, J):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        return ops.EVERY[name](J, ops.IDENTITY)


def deferred(ch):
    """A result that is not yet computed belongs to its call too: whatever is called between the
    call and its computation does not matter."""
    if not BASE:
        prepare()
    name = ch.free("operation", list(ops.OPS))
    between = ch.free("in between", ["the same on B", "the same on B, also not yet computed", "everything on B", "everything that fails"])
    ch.state(name, between)
    ch.calls += 2

    def work():
        before = world()
        a = raw(name, lazily("A"))
        b = None
        if between == "the same on B":
            ops.run(name, INPUTS["B"])
        elif between == "everything on B":
            for n in SECONDS:
                ops.run(n, INPUTS["B"])
        elif between == "everything that fails":
            for n in ops.FAILING:
                ops.run(n, INPUTS["B"])
        else:
            b = raw(name, lazily("B"))
            d = ops.differ(ops.load(b), BASE[name, "B"][1])
            if d:
                return "on B: " + d
        d = ops.differ(ops.load(a), BASE[name, "A"][1])
        if d:
            return d
        if b is not None and (d := ops.differ(ops.load(b), BASE[name, "B"][1])):
            return "on B, computed again: " + d
        now = world()
        return next((f"the {k} of the process has changed" for k in before if before[k] != now[k]), None)

    k, r = in_child(work)
    if k != "ok":
        raise RuntimeError(r)
    ch.equal(f"{name}, computed after other calls", r, None)
    ch.outcomes.add((name, between))


def overwrite(dst, src):
    """Give the arrays of dst, in place, the values of the arrays of src."""
    n = 0
    for k in dst:
        a, b = dst[k], src[k]
        pairs = []
        if isinstance(a, xr.Dataset):
            pairs = [(a.variables[v], b.variables[v]) for v in a.variables]
        elif isinstance(a, xr.DataArray):
            pairs = [(a.variable, b.variable)]
            pairs += [(a.coords[c].variable, b.coords[c].variable) for c in a.coords if c not in a.dims]
        elif isinstance(a, pd.DataFrame):
            for c in a.columns:
                if a[c].dtype.kind == "f":
                    a[c] = b[c].values
                    n += 1
        for x, y in pairs:
            if isinstance(x._data, np.ndarray) and x.dtype.kind == "f" and x.shape == y.shape:
                x._data[...] = y.values
                n += 1
    return n


def changed_in_place(ch):
    """Call, change the values in place, call again: the second call sees the new values."""
    name = ch.free("operation", SECONDS)
    how = ch.free("change", ["to values", "to B and back"])
    J = ops.inputs("A")
    if how == "to values":
        new = ops.inputs("values")
    else:
        new = ops.inputs("A")
        overwrite(J, ops.inputs("values"))
    ch.state(name, how)
    ch.calls += 3
    ops.run(name, J)
    if not overwrite(J, new):
        raise RuntimeError("nothing to change")
    got = ops.run(name, J)
    want = in_child(lambda: ops.run(name, copy.deepcopy(J)))
    if want[0] != "ok":
        raise RuntimeError(want[1])
    want = want[1]
    ch.equal(f"{name}: outcome", got[0], want[0])
    ch.equal(f"{name} after its input was changed in place", ops.differ(got[1], want[1]), None)
    same = ops.run(name, copy.deepcopy(J))
    ch.equal(f"{name} on a copy", ops.differ(same[1], want[1]), None)


def tables(ch):
    """The table of locations is the one in the file now, whatever was there before."""
    import shutil
    import tempfile

    from momlevel import tidegauge

    one = pd.DataFrame({"name": ["a", "b"], "lat": [-60.0, 20.0], "lon": [-180.0, 0.0]})
    other = pd.DataFrame({"name": ["a", "c"], "lat": [-20.0, 60.0], "lon": [60.0, 120.0]})
    contents = {"one": one, "other": other, "shorter": one[:1], "renamed": one.rename(columns={"name": "PSMSL_site"})}
    broken = {"no latitude": one.drop(columns="lat"), "empty": None}
    seq = [ch.free(f"contents {i}", [*contents, *broken]) for i in range(3)]
    touch = ch.free("same time stamp", [True, False])
    I = ops.inputs("A")
    d = tempfile.mkdtemp(prefix="mc-")
    place, around = os.getcwd(), world()
    try:
        path = os.path.join(d, "g.csv")
        ch.state(seq, touch)
        for i, c in enumerate(seq):
            if c in broken:
                open(path, "w").close()
                if broken[c] is not None:
                    broken[c].to_csv(path, index=False)
                ch.rejects(f"table {i}: {c}", tidegauge.extract_tidegauge, I["tide"], csv=path)
                changed = [k for k in ("working directory", "environment") if around[k] != world()[k]]
                ch.equal("changed by the call that failed", changed, [])
                continue
            contents[c].to_csv(path, index=False)
            if touch:
                os.utime(path, (1e9, 1e9))
            got = ch.call(tidegauge.extract_tidegauge, I["tide"], csv=path)
            fresh = os.path.join(d, f"fresh{i}.csv")
            contents[c].to_csv(fresh, index=False)
            want = ch.call(tidegauge.extract_tidegauge, I["tide"], csv=fresh)
            ch.equal(f"table {i}: {c}", ops.differ(got, want), None)
            ch.equal("gauges", len(got.data_vars), len(contents[c]))
    finally:
        os.chdir(place)
        shutil.rmtree(d, ignore_errors=True)


SCENARIOS = [Scenario(changed_in_place, 0), Scenario(tables, 0), Histories(), Neighbours(), Scenario(deferred, 0)]
ASSUMPTIONS = [
    "operations and inputs of mc/ops.py, failing calls included",
    "a process forked from one that has only imported momlevel stands for a fresh interpreter",
    "results agree to 1e-9 relative (they are bitwise equal in practice); inputs bitwise",
]
