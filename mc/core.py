"""Stateless explorer: exhaustive, deviation-bounded enumeration of executions.

A *scenario* is a Python function that closes the system: it asks the explorer for every
nondeterministic choice (operation, option, input shape, calendar, missing-value pattern,
chunking, schedule, ...), drives the real momlevel code with what was chosen, and compares
every observation with a reference model.  Each call to ``pick`` is a choice point whose
first option is the default; taking any other option is one deviation.  ``free`` is a choice
point that costs nothing (always enumerated completely).  The explorer runs, for each bound
0, 1, ..., B in turn, *every* execution with that many deviations; the first counterexample
therefore has the fewest deviations.
"""

import collections
import hashlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

import numpy as np
import xarray as xr

NPROC = int(os.environ.get("VERIF_PROCS", os.cpu_count() or 8))


class Violation(Exception):
    pass


class Divergence(Exception):
    """Replaying a prefix did not meet the recorded choice points: explorer error."""


class Pruned(Exception):
    """The chosen combination is outside the domain (counted, never checked)."""


# --------------------------------------------------------------------- digests
def digest(obj, _depth=0):
    h = hashlib.blake2b(digest_size=10)
    _feed(h, obj)
    return h.hexdigest()


def _feed(h, o):
    if isinstance(o, xr.DataArray):
        h.update(b"DA" + repr(o.name).encode())
        _feed(h, o.variable)
        for k in sorted(o.coords, key=str):
            h.update(str(k).encode())
            _feed(h, o.coords[k].variable)
    elif isinstance(o, xr.Dataset):
        h.update(b"DS")
        for k in sorted(o.variables, key=str):
            h.update(str(k).encode() + (b"c" if k in o.coords else b"d"))
            _feed(h, o.variables[k])
        _feed(h, o.attrs)
    elif isinstance(o, xr.Variable):
        h.update(b"V" + repr(o.dims).encode())
        _feed(h, o.values)
        _feed(h, o.attrs)
        _feed(h, dict(o.encoding))
    elif isinstance(o, np.ndarray):
        h.update(repr((o.dtype.str, o.shape)).encode())
        if o.dtype == object:
            h.update(repr(o.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, dict):
        h.update(b"{")
        for k in sorted(o, key=repr):
            h.update(repr(k).encode())
            _feed(h, o[k])
        h.update(b"}")
    elif isinstance(o, (list, tuple)):
        h.update(b"[" if isinstance(o, list) else b"(")
        for x in o:
            _feed(h, x)
            h.update(b",")
        h.update(b"]")
    elif hasattr(o, "to_dict") and hasattr(o, "columns"):  # DataFrame
        h.update(repr(list(o.columns)).encode())
        h.update(repr(o.index.tolist()).encode())
        for c in range(o.shape[1]):
            h.update(repr(o.iloc[:, c].tolist()).encode())
    elif isinstance(o, BaseException):
        h.update(("EXC:" + type(o).__name__).encode())
    else:
        h.update(repr(o).encode())


def short(o, n=400):
    s = repr(o)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------------- choices
class Ch:
    def __init__(self, prefix=(), names=None, knowns=(), tier="quick"):
        self.prefix = list(prefix)
        self.names = names
        self.points = []  # (name, n_options, index, free, label)
        self.calls = 0
        self.checks = 0
        self.states = set()
        self.outcomes = set()
        self.known_hits = set()
        self.knowns = set(knowns)
        self.tier = tier

    # -- choice points
    def _choose(self, name, options, free):
        i = len(self.points)
        options = list(options)
        if not options:
            raise Divergence(f"no options at {name}")
        if i < len(self.prefix):
            k = self.prefix[i]
            if not 0 <= k < len(options):
                raise Divergence(f"choice {i} ({name}): {k} of {len(options)}")
            if self.names is not None and i < len(self.names):
                if self.names[i] != name:
                    raise Divergence(f"choice {i}: {name} recorded as {self.names[i]}")
        else:
            k = 0
        self.points.append((name, len(options), k, free, short(options[k], 80)))
        return options[k]

    def pick(self, name, options):
        return self._choose(name, options, False)

    def free(self, name, options):
        return self._choose(name, options, True)

    def trace(self):
        return {p[0]: p[4] for p in self.points}

    def prune(self):
        raise Pruned()

    # -- driving the real code
    def call(self, fn, *a, **k):
        """Run real code that the property requires to return a value."""
        self.calls += 1
        try:
            r = fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            raise Violation(
                f"{getattr(fn, '__name__', fn)} raised {type(e).__name__}: {e}\n"
                + traceback.format_exc(limit=-4)
            ) from None
        return r

    def attempt(self, fn, *a, **k):
        """Run real code; return ('ok', value) or ('raised', exception)."""
        self.calls += 1
        try:
            return ("ok", fn(*a, **k))
        except Exception as e:  # noqa: BLE001
            return ("raised", e)

    def rejects(self, what, fn, *a, **k):
        self.checks += 1
        kind, r = self.attempt(fn, *a, **k)
        self.outcomes.add(digest((what, kind)))
        if kind != "raised":
            raise Violation(f"{what}: expected an error, got {short(r)}")
        return r

    # -- observations
    def state(self, *objs):
        self.states.add(digest(objs))

    def true(self, what, cond, detail=""):
        self.checks += 1
        if not bool(cond):
            raise Violation(f"{what} {detail}")

    def equal(self, what, got, want):
        self.checks += 1
        self.outcomes.add(digest((what, got)))
        if not (got == want):
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")

    def close(self, what, got, want, rtol=1e-9, atol=0.0, known=None):
        """Elementwise agreement (NaN matches NaN).  ``known=(id, faulty_values)`` names a
        listed finding whose *exact* faulty behaviour is accepted and reported as such."""
        self.checks += 1
        got = np.asarray(got)
        want = np.asarray(want)
        self.outcomes.add(digest((what, got)))
        bad = mismatch(got, want, rtol, atol)
        if bad is None:
            return
        if known is not None and known[0] in self.knowns:
            if mismatch(got, np.asarray(known[1]), rtol, atol) is None:
                self.known_hits.add(known[0])
                return
        raise Violation(f"{what}: {bad}")

    def field(self, what, got, want, dims, rtol=1e-9, atol=0.0, known=None):
        """`got` is a DataArray that must have exactly the dims `dims` (any order)."""
        if not isinstance(got, xr.DataArray):
            raise Violation(f"{what}: expected a DataArray, got {type(got)}")
        if set(got.dims) != set(dims):
            raise Violation(f"{what}: dims {got.dims}, expected {tuple(dims)}")
        self.close(what, got.transpose(*dims).values, want, rtol, atol, known)

    def known(self, kid, what):
        """A listed finding showed its exact signature (checked by the caller)."""
        self.checks += 1
        if kid in self.knowns:
            self.known_hits.add(kid)
        else:
            raise Violation(what)


def mismatch(got, want, rtol, atol):
    if got.shape != want.shape:
        return f"shape {got.shape}, expected {want.shape}"
    try:
        g = got.astype(float)
        w = want.astype(float)
    except (TypeError, ValueError):
        if got.tolist() == want.tolist():
            return None
        return f"got {short(got.tolist())}, expected {short(want.tolist())}"
    with np.errstate(all="ignore"):
        ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w))
        ok |= g == w
    if ok.all():
        return None
    if g.ndim == 0:
        return f"got {g!r}, expected {w!r}"
    i = tuple(int(x) for x in np.argwhere(~ok)[0])
    return (
        f"{int((~ok).sum())} of {ok.size} elements differ; first at {i}: "
        f"got {g[i]!r}, expected {w[i]!r}"
    )


# -------------------------------------------------------------------- execution
class Scenario:
    def __init__(self, fn, quick, thorough=None):
        self.fn = fn
        self.name = fn.__name__
        cap = int(os.environ.get("VERIF_BOUND", "99"))  # lowered by tools/mutate.py only
        self.bound = {"quick": min(cap, quick), "thorough": min(cap, quick if thorough is None else thorough)}


def execute(scn, prefix, knowns, tier, names=None):
    ch = Ch(prefix, names, knowns, tier)
    viol = None
    pruned = False
    try:
        with np.errstate(all="ignore"):
            scn.fn(ch)
    except Violation as v:
        viol = str(v)
    except Pruned:
        pruned = True
    except (Divergence, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # an observation the code should have offered is not there
        viol = f"observation failed: {type(e).__name__}: {e}\n" + traceback.format_exc(
            limit=-6
        )
    return dict(
        prefix=list(prefix),
        points=ch.points,
        calls=ch.calls,
        checks=ch.checks,
        states=ch.states,
        outcomes=ch.outcomes,
        known=ch.known_hits,
        violation=viol,
        pruned=pruned,
    )


_CTX = {}
_LOG = []


def _work(job):
    sidx, prefixes = job
    scn = _CTX["scenarios"][sidx]
    out = []
    for p in prefixes:
        r = execute(scn, p, _CTX["knowns"], _CTX["tier"])
        _LOG.append((scn.name, list(p)))
        if r["violation"]:
            r["log"] = list(_LOG)
        out.append(r)
    return sidx, out


def _quiet():
    """What the code under test prints is not part of the report."""
    sys.stdout = open(os.devnull, "w")


class Stats:
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.calls = 0
        self.checks = 0
        self.states = set()
        self.outcomes = set()
        self.nodes = 0
        self.known = set()
        self.levels = {}
        self.samples = []
        self.complete = True

    def add(self, scn, r, cost):
        self.executions += 1
        self.pruned += r["pruned"]
        self.calls += r["calls"]
        self.checks += r["checks"]
        self.states |= {(scn.name, s) for s in r["states"]}
        self.outcomes |= {(scn.name, s) for s in r["outcomes"]}
        self.nodes += max(0, len(r["points"]) - len(r["prefix"])) + bool(r["prefix"])
        self.known |= r["known"]
        k = self.levels.setdefault(scn.name, {})
        k[cost] = k.get(cost, 0) + 1


def explore(scenarios, tier, knowns, budget_s):
    """Explore every scenario up to its bound.  Returns (stats, violations)."""
    _CTX.update(scenarios=scenarios, knowns=knowns, tier=tier)
    stats = Stats()
    violations = []
    t0 = time.time()
    ctx = mp.get_context("fork")
    level = {i: [[]] for i in range(len(scenarios))}
    maxb = max(s.bound[tier] for s in scenarios)
    with ctx.Pool(NPROC, initializer=_quiet) as pool:
        for cost in range(maxb + 1):
            queue = collections.deque()
            for i, ps in level.items():
                if cost <= scenarios[i].bound[tier]:
                    queue.extend((i, p) for p in ps)
            nxt = {i: [] for i in level}
            pending = collections.deque()
            while queue or pending:
                while queue and len(pending) < 4 * NPROC:
                    n = max(1, min(24, math.ceil(len(queue) / (NPROC * 3))))
                    i = queue[0][0]
                    batch = []
                    while queue and len(batch) < n and queue[0][0] == i:
                        batch.append(queue.popleft()[1])
                    pending.append(pool.apply_async(_work, ((i, batch),)))
                i, results = pending.popleft().get()
                scn = scenarios[i]
                for r in results:
                    stats.add(scn, r, cost)
                    if len(stats.samples) < 3 or (
                        len(stats.samples) < 8 and stats.executions % 997 == 0
                    ):
                        stats.samples.append(
                            {
                                "scenario": scn.name,
                                "deviations": cost,
                                "choices": {p[0]: p[4] for p in r["points"]},
                                "real_calls": r["calls"],
                                "observations_compared": r["checks"],
                            }
                        )
                    if r["violation"]:
                        violations.append((cost, scn, r))
                    choices = [p[2] for p in r["points"]]
                    for d in range(len(r["prefix"]), len(choices)):
                        _, n, _, free, _ = r["points"][d]
                        for alt in range(1, n):
                            child = choices[:d] + [alt]
                            if free:
                                queue.append((i, child))
                            elif cost < scn.bound[tier]:
                                nxt[i].append(child)
                if time.time() - t0 > budget_s:
                    stats.complete = False
                    pool.terminate()
                    return stats, violations
                if len(violations) > 20:
                    break
            if violations:
                pool.terminate()
                return stats, violations
            level = nxt
    return stats, violations


def run_fresh(scn, prefix, knowns, tier):
    """Execute once in a process forked from the (unexercised) parent."""
    ctx = mp.get_context("fork")
    rx, tx = ctx.Pipe(False)

    def body():
        try:
            r = execute(scn, prefix, knowns, tier)
            tx.send(("ok", r))
        except BaseException as e:  # noqa: BLE001
            tx.send(("err", repr(e)))
        tx.close()
        os._exit(0)

    p = ctx.Process(target=body)
    p.start()
    out = rx.recv() if rx.poll(300) else ("err", "timeout")
    p.join(5)
    if p.is_alive():
        p.kill()
    return out


def dump_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)
