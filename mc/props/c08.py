"""C08 - concurrent calls from several threads do not interfere.

A controlled scheduler runs two real threads one at a time.  Scheduling points are the source
lines executed inside momlevel (library code runs atomically between them).  A schedule is a
list of (thread, number of lines); the last entry of each thread runs it to the end.  Every
schedule runs in a fork of a process that has imported momlevel but never called it, so
first-call initialisation is exposed as well.

Independence: every operation is also executed alone, and after every line the state that two
threads could share (module globals, default arguments, function and class attributes of
momlevel, the inputs, the process environment) is compared with what it was before the call.
An operation that never writes such state commutes with every other one at every point, so
its cross pairs need no interleaving; pairs with a writer are all explored.
"""

import json
import multiprocessing as mp
import os
import pickle
import sys
import threading
import time
import traceback
import types

from mc import ops, target
from mc.core import NPROC, digest
from mc.props import c07
from mc.props.c07 import BASE, DIGEST, INPUTS, in_child

NAMES = list(ops.OPS) + list(ops.PLAIN)
SRC = os.path.join(target.SRC, "momlevel")
STUCK = 5.0


class Thread:
    def __init__(self, name, which, opcodes=False):
        self.name, self.which = name, which
        self.limit = 0
        self.count = 0
        self.done = False
        self.out = None
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.opcodes = opcodes
        self.t = threading.Thread(target=self.body, daemon=True)
        self.t.start()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            if self.count == self.limit:
                self.back.release()
                self.go.acquire()
            self.count += 1
        return self.local

    def body(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.out = ("ok", ops.load(ops.EVERY[self.name](INPUTS[self.which], ops.IDENTITY)))
        except Exception as e:  # noqa: BLE001
            self.out = ("raised", type(e).__name__ + ": " + str(e)[:200])
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def run(self, lines):
        """Let the thread execute that many more lines (None: to the end).
        False if it neither finished nor reached the point (it waits for the other one)."""
        if self.done:
            return True
        self.limit = -1 if lines is None else self.count + lines
        self.go.release()
        return self.back.acquire(timeout=STUCK)


def schedule(a, b, plan, opcodes=False):
    """Execute one schedule; None or what is wrong."""
    sys.stdout = open(os.devnull, "w")
    place = os.getcwd(), dict(os.environ)
    th = [Thread(*a, opcodes), Thread(*b, opcodes)]
    blocked = set()
    for i, n in plan:
        if i in blocked:
            if not th[i].back.acquire(timeout=STUCK):
                continue
            blocked.discard(i)
        if not th[i].run(n):
            blocked.add(i)
    for _ in range(8):  # a blocked thread needs the other one to go on
        for i in (0, 1):
            if th[i].done:
                continue
            if i in blocked:
                if not th[i].back.acquire(timeout=STUCK):
                    continue
                blocked.discard(i)
            if not th[i].run(None):
                blocked.add(i)
        if th[0].done and th[1].done:
            break
    else:
        return "the two calls wait for each other"
    for t in th:
        want = BASE[t.name, t.which]
        if t.out[0] != want[0]:
            return f"{t.name} on {t.which}: {t.out!r:.300} instead of {want!r:.300}"
        d = ops.differ(t.out[1], want[1])
        if d:
            return f"{t.name} on {t.which}: {d}"
    if os.getcwd() != place[0]:
        return f"the working directory is {os.getcwd()} afterwards"
    if dict(os.environ) != place[1]:
        return "the environment has changed"
    for w in {a[1], b[1]}:
        for k, v in INPUTS[w].items():
            if digest(v) != DIGEST[w][k]:
                return f"input {k!r} of {w} has changed"
    # whatever the two have left behind must not matter to a third call
    n, w = a
    if a == b:
        return None
    got = ops.run(n, INPUTS[w])
    d = got[0] != BASE[n, w][0] and repr(got)[:300] or ops.differ(got[1], BASE[n, w][1])
    if d:
        return f"afterwards, {n} on {w}: {d}"
    return None


# --------------------------------------------------------------- what can be shared
SIMPLE = (int, float, str, bytes, bool, type(None), complex)


def shared():
    """Digest of everything in momlevel that outlives a call."""
    seen = {}
    out = []

    def feed(x, path, depth=0):
        if isinstance(x, SIMPLE):
            out.append((path, repr(x)))
            return
        if id(x) in seen or depth > 6:
            return
        seen[id(x)] = x
        if isinstance(x, types.ModuleType):
            if getattr(x, "__name__", "").startswith("momlevel"):
                for k, v in list(vars(x).items()):
                    if not (k.startswith("__") and k.endswith("__")) and not isinstance(v, types.ModuleType):
                        feed(v, f"{path}.{k}", depth)
        elif isinstance(x, types.FunctionType):
            if str(getattr(x, "__module__", "")).startswith("momlevel"):
                feed(x.__defaults__ or (), path + ".defaults", depth + 1)
                feed(x.__kwdefaults__ or {}, path + ".kwdefaults", depth + 1)
                feed(vars(x), path + ".vars", depth + 1)
                for i, c in enumerate(x.__closure__ or ()):
                    try:
                        feed(c.cell_contents, f"{path}.cell{i}", depth + 1)
                    except ValueError:
                        out.append((f"{path}.cell{i}", "empty"))
        elif isinstance(x, type):
            if str(getattr(x, "__module__", "")).startswith("momlevel"):
                for k, v in list(vars(x).items()):
                    feed(v, f"{path}.{k}", depth + 1)
        elif isinstance(x, dict):
            for k in list(x):
                feed(x[k], f"{path}[{k!r:.60}]", depth + 1)
            out.append((path, len(x)))
        elif isinstance(x, (list, tuple, set, frozenset)):
            for i, v in enumerate(list(x)):
                feed(v, f"{path}[{i}]", depth + 1)
            out.append((path, len(x)))
        elif hasattr(x, "cache_info"):
            out.append((path, repr(x.cache_info())))
            feed(getattr(x, "__wrapped__", None), path + ".wrapped", depth + 1)
        elif str(type(x).__module__).startswith("momlevel"):
            feed(getattr(x, "__dict__", {}), path + ".dict", depth + 1)
        else:
            try:
                out.append((path, digest(x) if type(x).__module__.split(".")[0] in ("numpy", "xarray", "pandas") else id(x)))
            except Exception:  # noqa: BLE001
                out.append((path, id(x)))

    for n in sorted(m for m in sys.modules if m == "momlevel" or m.startswith("momlevel.")):
        feed(sys.modules[n], n)
    return dict(out)


def direct(frame):
    """Called from here through momlevel alone."""
    while frame.f_code.co_filename.startswith(SRC):
        frame = frame.f_back
    return frame.f_code.co_filename.startswith(os.path.dirname(ops.__file__))


def alone(name):
    """Run it alone; number of lines, of opcodes, and what it writes that others could see."""
    sys.stdout = open(os.devnull, "w")
    before = shared()
    env = c07.world()
    used = INPUTS["A"]
    lines = [0]
    places = []
    visits = {}
    writes = {}
    dirty = []  # points at which the state is not what it was before the call

    def local(frame, event, arg):
        if event == "line":
            places.append(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
            lines[0] += 1
            visits[places[-1]] = visits.get(places[-1], 0) + 1
            if visits[places[-1]] <= 12:
                look(frame)
        return local

    def look(frame):
        sys.settrace(None)
        try:
            now = shared()
            at = 0
            for k in now.keys() | before.keys():
                if now.get(k) != before.get(k):
                    at = -1
                    writes.setdefault(k, [lines[0], frame and f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"])
            # (inside library callbacks the library's own contexts are active)
            for k, v in c07.world().items() if frame is None or direct(frame) else ():
                if env[k] != v:
                    at = -1
                    writes.setdefault("process " + k, [lines[0], ""])
            for k, v in used.items():
                if digest(v) != DIGEST["A"][k]:
                    at = -1
                    writes.setdefault("input " + k, [lines[0], ""])
            if at == -1:
                dirty.append(lines[0] - 1)
        finally:
            sys.settrace(trace)

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(SRC) else None

    sys.settrace(trace)
    try:
        ops.load(ops.EVERY[name](used, ops.IDENTITY))
    finally:
        sys.settrace(None)
    look(None)
    sys.settrace(None)
    return lines[0], writes, places, dirty


def opcodes(name):
    sys.stdout = open(os.devnull, "w")
    n = [0]

    def local(frame, event, arg):
        n[0] += event == "opcode"
        return local

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return local

    sys.settrace(trace)
    try:
        ops.load(ops.EVERY[name](INPUTS["A"], ops.IDENTITY))
    finally:
        sys.settrace(None)
    return n[0]


# ---------------------------------------------------------------------- exploration
def parallel(jobs, work, deadline):
    """work(job) in forks of forks; returns [(job, result)] and whether all were done."""
    pipes = []
    bad = mp.get_context("fork").Value("i", 0)  # counterexamples found by any worker
    for w in range(NPROC):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                out, done = [], True
                for j in jobs[w::NPROC]:
                    if time.time() > deadline or bad.value > 3:
                        done = False
                        break
                    k, res = in_child(lambda: work(j))
                    out.append((j, (k, res)))
                    if k == "err" or isinstance(res, str):
                        with bad.get_lock():
                            bad.value += 1
                with os.fdopen(wr, "wb") as f:
                    pickle.dump((out, done), f)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        pipes.append((os.fdopen(r, "rb"), pid))
    out, complete = [], True
    for f, pid in pipes:
        data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("a worker died")
        o, d = pickle.loads(data)
        out += o
        complete &= d
    return out, complete


class Schedules:
    name = "schedules"
    bound = {"quick": 1, "thorough": 2}

    def custom(self, stats, extra, tier, knowns, left):
        t0 = time.time()
        c07.prepare()
        shared()
        deadline = t0 + left
        res, ok = parallel(NAMES, alone, deadline)
        size, writers, problems, where, dirty = {}, {}, [], {}, {}
        for n, (k, r) in res:
            if k != "ok":
                raise RuntimeError(f"{n} alone: {r}")
            size[n] = r[0]
            where[n] = r[2]
            dirty[n] = set(r[3])
            if r[1]:
                writers[n] = r[1]
        jobs = []
        for b in ("B", "A"):
            met = {}
            for n in NAMES:
                todo = range(size[n] + 1)
                if tier == "quick" and n not in writers:
                    # each source line: its first visit, in up to two operations (one)
                    todo, here = [0], set()
                    for k, p in enumerate(where[n]):
                        if p not in here and met.get(p, 0) < (2 if b == "B" else 1):
                            todo.append(k)
                            met[p] = met.get(p, 0) + 1
                        here.add(p)
                for k in todo:
                    jobs.append(((n, "A"), (n, b), [(0, k), (1, None), (0, None)], False))
        # whoever writes shared state meets every other operation at every point
        for n in writers:
            for m in NAMES:
                if m != n:
                    for k in range(size[n] + 1):
                        jobs.append(((n, "A"), (m, "A"), [(0, k), (1, None), (0, None)], False))
                    if m not in writers:
                        for k in range(size[m] + 1):
                            jobs.append(((n, "A"), (m, "A"), [(1, k), (0, None), (1, None)], False))
        # two calls that change the process: both stopped while the change is in place
        early = set()
        for n in writers:
            if any(k.startswith("process") for k in writers[n]):
                stops = sorted(dirty[n])[:3] + sorted(dirty[n])[3:][-3:]
                for k in stops:
                    for j in stops:
                        jobs.append(((n, "A"), (n, "B"), [(0, k), (1, j), (0, None), (1, None)], False))
                        early.add((n, k, j))
        if tier == "thorough":
            for n in NAMES:
                for k in range(1, size[n] + 1):
                    for j in range(1, size[n] + 1):
                        jobs.append(((n, "A"), (n, "B"), [(0, k), (1, j), (0, None), (1, None)], False))
                for m in NAMES:
                    if m != n and n not in writers and m not in writers:
                        for k in range(1, size[n] + 1):
                            jobs.append(((n, "A"), (m, "A"), [(0, k), (1, None), (0, None)], False))
            nop, _ = parallel(NAMES, opcodes, deadline)
            for n, (k, r) in nop:
                if k == "ok" and r <= 3000:
                    for q in range(1, r + 1):
                        jobs.append(((n, "A"), (n, "B"), [(0, q), (1, None), (0, None)], True))

        def rank(j):
            """Two calls of one writer, a call while a writer has its change in place, two calls of
            one operation, two writers of the same thing, the rest."""
            (n, _), (m, _) = j[:2]
            if len(j[2]) == 4 and n == m and (n, j[2][0][1], j[2][1][1]) in early:
                return -1, 0, 0
            w = set(writers.get(n, ())), set(writers.get(m, ()))
            kind = 0 if n == m and n in writers else 1 if n == m else 2 if w[0] & w[1] else 3
            if kind == 3 and j[2][0][0] == 0 and j[2][0][1] in dirty[n]:
                # stopped while the state is not as it was: the first few such points
                kind = 0 if sum(k < j[2][0][1] for k in dirty[n]) < 3 else 2
            return kind, len(j[2]), size[n] + size[m]

        jobs.sort(key=rank)
        # the same schedule twice: the scheduler itself must be deterministic
        probe = jobs[: 3]
        res, ok = parallel(probe + jobs, lambda j: schedule(*j), deadline)
        for j, (k, r) in res:
            if k != "ok":
                problems.append((j, f"schedule did not finish: {r}"))
            elif r:
                problems.append((j, r))
        stats.complete &= ok
        stats.executions += len(res)
        stats.calls += 3 * len(res) + len(NAMES)
        stats.checks += 8 * len(res)
        stats.states |= {("schedule", digest(j)) for j, _ in res}
        stats.levels["schedules"] = {
            0: sum(1 for j, _ in res if j[2][0][1] == 0),
            1: sum(1 for j, _ in res if j[2][0][1] and len(j[2]) == 3),
            2: sum(1 for j, _ in res if len(j[2]) == 4),
        }
        extra["schedules"] = len(res)
        extra["preemption_bound"] = self.bound[tier]
        extra["scheduling_points_per_operation"] = size
        extra["operations_that_write_shared_state"] = writers
        extra["independence"] = (
            "shared state compared after every line of every operation run alone; "
            f"{len(NAMES) - len(writers)} of {len(NAMES)} operations write none and commute with everything"
        )
        stats.samples += [{"schedule": j} for j in (jobs[0], jobs[len(jobs) // 2], jobs[-1])]
        problems.sort(key=lambda p: (len(p[0][2]), p[0][3], p[0][2][0][1]))
        return [
            (
                len(j[2]) - 2,
                self,
                dict(
                    prefix=[list(j[0]), list(j[1]), [list(s) for s in j[2]], j[3]],
                    points=[(f"thread {i}", 0, 1, False, repr(j[i])) for i in (0, 1)] + [("schedule", 0, 1, False, repr(j[2]))],
                    violation=msg,
                ),
            )
            for j, msg in problems[:20]
        ]

    def replay(self, rec, knowns):
        c07.prepare()
        a, b, plan, op = rec["prefix"]
        bad = 0
        for _ in range(2):
            k, r = in_child(lambda: schedule(tuple(a), tuple(b), [tuple(s) for s in plan], op))
            print(json.dumps(rec["prefix"]), "->", k, r)
            bad |= k != "ok" or bool(r)
        return int(bad)


SCENARIOS = [Schedules()]
QUICK_BUDGET = 300
ASSUMPTIONS = [
    "two threads, one call each; scheduling points at source lines of momlevel (thorough: also bytecodes)",
    "library code (numpy, xarray, xgcm, scipy) runs atomically between scheduling points",
    "a process forked from one that has only imported momlevel stands for a fresh interpreter",
]
