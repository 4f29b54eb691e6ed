"""C06 - chunking (dask) never changes a result and does not force computation."""

import itertools

import dask.array
import xarray as xr

from mc import ops
from mc.core import Scenario
from mc.props.c05 import Watch  # noqa: F401
from mc.props.c05 import baseline, inputs, xarray

# dask itself refuses to differentiate along short chunks (an error, not a result)
GRADIENT = {"n2", "n2_linear", "n2_patm", "stability"}
EAGER = {"spice_"}  # computed at once
# here also a horizontal field is data
DATA = ("rho", "alpha", "beta", "pdens", "broadcast", "trend", "detrend", "rossby", "coriolis", "barometer", "vorticity", "potential")
DIMS = ["time", "z_l", "yh", "xh", "yq", "xq"]


def compositions(n, tier="thorough"):
    """All ways of cutting n into consecutive pieces (n > 6: regular and lopsided ones)."""
    if n <= 6:
        out = []
        for bits in itertools.product((0, 1), repeat=n - 1):
            c, k = [], 1
            for b in bits:
                if b:
                    c.append(k)
                    k = 0
                k += 1
            out.append(tuple(c + [k]))
        return out
    out = [(n,)]
    for k in sorted({1, 2, 3, 5, 7, 11, 12, 13, n // 2, n - 1, 31, 100, 365} & set(range(1, n))):
        out.append(tuple([k] * (n // k) + ([n % k] if n % k else [])))
    out += [(1, n - 1), (1, n - 2, 1), (n // 3, 1, n - n // 3 - 1)]
    if tier == "quick":
        out = [(n,), (1,) * n, tuple([5] * (n // 5) + ([n % 5] if n % 5 else [])), (n // 2, n - n // 2), (1, n - 1)]
    return list(dict.fromkeys(out))


def sizes(I, used):
    s = {}
    for k in used:
        if xarray(I[k]):
            for d, n in I[k].sizes.items():
                if d in DIMS:
                    s.setdefault(d, n)
    return s


TOUCHED = {}  # variable -> blocks of it computed so far


def probe(block, what):
    TOUCHED[what] = TOUCHED.get(what, 0) + 1
    return block


def chunked(v, c, only=None, coords=True):
    def cut(x):
        y = x.chunk({d: c[d] if sum(c[d]) == x.sizes[d] else -1 for d in x.dims if d in c})
        d = y.data
        return y.copy(data=d.map_blocks(probe, what=x.dims, dtype=d.dtype, meta=d._meta))

    if isinstance(v, xr.DataArray):
        out = v
        if only in (None, ""):
            out = v.copy(data=cut(v.variable).data)
        for n in v.coords:
            if n not in v.dims and v[n].ndim and v[n].dtype != object and (only == n or (only is None and coords)):
                out = out.assign_coords({n: cut(v[n].variable)})
        return out
    out = v.copy()
    for n in v.variables:
        if n in v.dims or not v[n].ndim or v[n].dtype == object:
            continue
        if only is None and (coords or n in v.data_vars) or only == n:
            w = cut(v[n].variable)
            w.encoding = dict(v[n].encoding)
            if n in v.coords:
                out = out.assign_coords({n: w})
            else:
                out[n] = w
    return out


def lazy(r):
    if isinstance(r, (tuple, list)):
        return [lazy(x) for x in r]
    if isinstance(r, xr.Dataset):
        return {n: lazy(r[n]) for n in r.data_vars}
    if isinstance(r, xr.DataArray):
        return isinstance(r.variable._data, dask.array.Array)
    return None


def flat(x):
    if isinstance(x, dict):
        x = list(x.values())
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def go(ch, name, J, used, c, everything):
    import contextlib
    import io

    base, _ = baseline(name)
    before = [lazy(J[k]) for k in used if xarray(J[k])]
    ch.calls += 1
    kind = "ok"
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            TOUCHED.clear()
            raw = ops.OPS[name](J, ops.IDENTITY)
            early = dict(TOUCHED)
            got = ops.load(raw)
        except Exception as e:  # noqa: BLE001
            kind, got = "raised", f"{type(e).__name__}: {e}"
    if kind == "raised" and name in GRADIENT and len(c.get("z_l", "")) > 1 and min(c["z_l"]) < 3:
        ch.outcomes.add((name, "refused"))
        return
    ch.equal("outcome", (kind, got if kind == "raised" else ""), ("ok", ""))
    d = ops.differ(got, base[1], attrs=True)
    ch.true("same result from chunked input", not d, d)
    if name not in EAGER:
        if not name.startswith(DATA):
            # (the range of the 2-D depth, the total of the cell area and the places of grid
            # points may be read at once)
            early = {k: v for k, v in early.items() if len(set(k) & {"time", "z_l"})}
        ch.true("nothing read before it is asked for", not early, f"{name} computed {early}")
    after = [lazy(J[k]) for k in used if xarray(J[k])]
    ch.true("input still lazy", before == after)
    if everything and name not in EAGER and name != "rhoga":
        L = flat(lazy(raw))
        if name in ("steric_referenced", "thermosteric_global"):
            L = flat(lazy(raw[0]))  # the supplied reference is returned as it was
        ch.true("lazy result", all(L), lazy(raw))
    ch.outcomes.add((name, str(sorted(c.items()))))


def everything(ch):
    """All inputs chunked the same way along each dimension."""
    name = ch.free("operation", list(ops.OPS))
    _, used = baseline(name)
    I = inputs()
    c = {d: ch.pick(f"chunks of {d}", compositions(n, ch.tier)) for d, n in sorted(sizes(I, used).items())}
    coords = ch.pick("chunked coordinates", [False, True])
    J = {k: chunked(v, c, coords=coords) if xarray(v) else v for k, v in I.items() if k in used}
    ch.state(name, c, coords)
    go(ch, name, J, used, c, True)


def one(ch):
    """A single array chunked, everything else in memory."""
    name = ch.free("operation", list(ops.OPS))
    _, used = baseline(name)
    I = inputs()
    each = []
    for k in used:
        v = I[k]
        if not xarray(v):
            continue
        if isinstance(v, xr.DataArray):
            each.append((k, ""))
        for n in v.variables if isinstance(v, xr.Dataset) else v.coords:
            if n not in v.dims and v[n].ndim and v[n].dtype != object:
                each.append((k, n))
    if not each:
        return
    k, n = ch.free("chunked array", each)
    s = sizes(I, used)
    v = I[k] if not n else I[k][n]
    cut = ch.free("cut along", ["nothing", "everything"] + [d for d in v.dims if d in s])
    c = {d: (1,) * m if cut in ("everything", d) else (m,) for d, m in s.items()}
    J = {q: chunked(v, c, only=n) if q == k else v for q, v in I.items() if q in used}
    ch.state(name, k, n, c)
    go(ch, name, J, used, c, False)


SCENARIOS = [Scenario(everything, 2, 6), Scenario(one, 0)]
ASSUMPTIONS = [
    "operations and inputs of mc/ops.py; dask runs them with its synchronous scheduler",
    "dimensions up to 6: every composition into chunks; longer: regular and lopsided ones",
    "dask refuses to differentiate along vertical short chunks; such an error is accepted for the stratification functions",
]
