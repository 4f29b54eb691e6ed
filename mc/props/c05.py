"""C05 - names and order of dimensions and variables do not change any value."""

import itertools

import cftime
import numpy as np
import xarray as xr

from mc import ops
from mc.core import Scenario
from mc.props import c13

NAMES = [
    "time", "z_l", "z_i", "yh", "xh", "yq", "xq",
    "thetao", "so", "volcello", "areacello", "deptho",
    "uo", "vo", "dxCu", "dyCv", "areacello_bu", "Coriolis", "geolon", "geolat",
]  # fmt: skip
DIMS = NAMES[:7]
GROUPS = [DIMS, NAMES[7:18], NAMES[18:]]
SHORT = {k: "abcdefghijklmnopqrstuv"[i] * 2 for i, k in enumerate(NAMES)}


class Watch(dict):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)


_base = {}
_used = {}
_in = {}


def inputs(which="A"):
    if which not in _in:
        _in[which] = ops.inputs(which)
    return _in[which]


def baseline(name, which="A"):
    key = name, which
    if key not in _base:
        w = Watch(inputs(which))
        _base[key] = ops.run(name, w)
        _used[key] = [k for k in w if k in w.seen]
    return _base[key], _used[key]


def xarray(v):
    return isinstance(v, (xr.DataArray, xr.Dataset))


def has(v, n):
    return n in v.dims or n in v.coords or (isinstance(v, xr.Dataset) and n in v.variables)


def renamed_inputs(I, m):
    out = {}
    for k, v in I.items():
        if xarray(v):
            mm = {a: b for a, b in m.items() if has(v, a)}
            if k == "ref":  # a reference state always has the standard variable names
                mm = {a: b for a, b in mm.items() if a not in ops.VARS}
            v = v.rename(mm) if mm else v
        out[k] = v
    return out


def renamed_back(r, m):
    inv = {b: a for a, b in m.items()}
    if isinstance(r, (tuple, list)):
        return type(r)(renamed_back(x, m) for x in r)
    if not isinstance(r, (xr.DataArray, xr.Dataset)):
        return r
    # (data variables of results always have the standard names)
    r = r.rename({a: b for a, b in inv.items() if a in r.dims or a in r.coords})
    return r.rename(None) if isinstance(r, xr.DataArray) else r


def dims_of(r):
    if isinstance(r, (tuple, list)):
        return set().union(set(), *(dims_of(x) for x in r))
    return set(r.dims) if isinstance(r, (xr.DataArray, xr.Dataset)) else set()


def same(ch, name, got, base):
    ch.equal("outcome", got[0], base[0])
    ch.true("unaffected result", not (d := ops.differ(got[1], base[1], attrs=False, order=False)), d)


def renamed(ch):
    name = ch.free("operation", list(ops.OPS))
    base, used = baseline(name)
    I = inputs()
    here = [n for n in NAMES if any(has(I[k], n) for k in used if xarray(I[k]))]
    style = ch.free("new names", ["suffix", "short", "all", "all but one", "taken from each other"])
    static = ch.pick("kept as coordinates", ["nothing", "areacello", "deptho", "volcello"])
    if static != "nothing" and ("steric" not in name or static not in here or style == "taken from each other"):
        ch.prune()
    if style == "all":
        chosen = here
    elif style == "all but one":
        if not here:
            return
        keep = ch.free("kept name", here)
        chosen = [n for n in here if n != keep]
    elif style == "suffix":
        chosen = [n for n in here if ch.pick(f"rename {n}", [False, True])]
    elif style == "short":
        if not here:
            return
        chosen = [ch.free("name", here)]
        other = ch.free("called", ["*", "depth_l", "nv_i", "Z", "lat", "_*", "LEV2", "bnds", "n"])
    else:
        pairs = list(itertools.combinations(here, 2))
        if not pairs:
            return
        chosen = ch.free("two names", pairs)
    if style in ("suffix", "all", "all but one"):
        m = {n: n + "_new" for n in chosen}
    elif style == "short":
        m = {n: other.replace("*", SHORT[n]) for n in chosen}
    else:  # a default name in the wrong role
        group = [next(i for i, g in enumerate(GROUPS) if n in g) for n in chosen]
        if len(set(group)) > 1:
            return  # dimensions are not called like variables
        if "time" in chosen and "steric" in name:
            return  # a reference state has no coordinate called "time" (validate_dataset)
        m = {n: chosen[(i + 1) % len(chosen)] for i, n in enumerate(chosen)}
    ch.state(name, m)
    ch.calls += 1
    J = renamed_inputs(I, m)
    if static != "nothing":
        J["ds"] = J["ds"].set_coords(m.get(static, static))
    got = ops.run(name, J, ops.Names(m))
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (base[0], ""))
    new = dims_of(got[1])
    want = {m.get(d, d) for d in dims_of(base[1])}
    ch.equal("dimensions of the result", sorted(new), sorted(want))
    back = renamed_back(got[1], m)
    if static != "nothing":
        back = type(back)(x.reset_coords(static, drop=True) if static in x.coords and static not in y else x for x, y in zip(back, base[1]))
    d = ops.differ(back, base[1], attrs=False, order=False)
    ch.true("same values under other names", not d, d)
    ch.outcomes.add((name, str(sorted(m))))


# a reference state holds no coordinate called "time" (validate_dataset), so data that still
# carry one are refused by the operations that take their reference from the data
OWN_REFERENCE = {n for n in ops.OPS if "steric" in n} - {"steric_referenced", "thermosteric_global"}


class Said(ops.Names):
    """Names handed over also where they are the default ones."""

    def __init__(self, mapping, keys, variables, order):
        super().__init__(mapping)
        self.keys, self.said, self.order = keys, variables, order

    def arg(self, **kw):
        return {a: self[k] for a, k in kw.items()}

    def coords(self):
        m = {"t": "time", "z": "z_l", "zbounds": "z_i", "x": "xh", "y": "yh"}
        m = {a: self[k] for a, k in m.items() if a in self.keys or self[k] != k}
        return {"coord_names": dict(list(m.items())[:: self.order])}

    def variables(self, names):
        m = {self[k]: k for k in names if k in self.said or self[k] != k}
        return {"varname_map": dict(list(m.items())[:: self.order])}

    def grid(self):
        m = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}
        return {"coord_dict": {a: self[k] for a, k in list(m.items())[:: self.order]}}


def said(ch):
    """Naming an axis or a variable that has its default name anyway changes nothing."""
    name = ch.free("operation", list(ops.OPS))
    base, used = baseline(name)
    I = inputs()
    here = [n for n in NAMES if any(has(I[k], n) for k in used if xarray(I[k]))]
    keys = [k for k in ("t", "z", "zbounds", "x", "y") if ch.pick(f"without {k}", [True, False])]
    vs = [v for v in ops.VARS if ch.pick(f"without {v}", [True, False])]
    order = ch.pick("order of the names", [1, -1])
    other = ch.pick("renamed", ["nothing"] + here)
    m = {} if other == "nothing" else {other: other + "_new"}
    ch.state(name, keys, vs, order, m)
    ch.calls += 1
    got = ops.run(name, renamed_inputs(I, m), Said(m, keys, vs, order))
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (base[0], ""))
    d = ops.differ(renamed_back(got[1], m), base[1], attrs=False, order=False)
    ch.true("same values when the names are given", not d, d)
    ch.outcomes.add((name, str(keys), str(vs)))


def decoy(ch):
    """The default name of a renamed dimension is still there: on an unrelated scalar
    coordinate or variable, or on another dimension."""
    name = ch.free("operation", list(ops.OPS))
    base, used = baseline(name)
    I = inputs()
    here = [n for n in DIMS if any(has(I[k], n) for k in used if xarray(I[k]))]
    if not here:
        return
    old = ch.free("name", here)
    if old == "time" and name in OWN_REFERENCE:
        return
    kind = ch.free("now the name of", ["scalar number", "scalar date", "all", "all dates"])
    what = here if kind.startswith("all") else [old]
    m = {n: n + "_new" for n in what}
    J = renamed_inputs(I, m)
    value = cftime.DatetimeNoLeap(1850, 7, 1) if "date" in kind else -3.0
    for k in used:
        if xarray(I[k]) and old in I[k].dims:
            J[k] = J[k].assign_coords({old: value})
    ch.state(name, m, kind)
    ch.calls += 1
    got = ops.run(name, J, ops.Names(m))
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (base[0], ""))
    ch.equal(
        "dimensions of the result",
        sorted(dims_of(got[1])),
        sorted({m.get(d, d) for d in dims_of(base[1])}),
    )
    d = ops.differ(
        renamed_back(dropped(got[1], old), m),
        dropped(base[1], old),
        attrs=False, order=False, coords=False,
    )
    ch.true("same values next to an unrelated coordinate", not d, d)
    ch.outcomes.add((name, old, kind))


def dropped(r, n):
    if isinstance(r, (tuple, list)):
        return type(r)(dropped(x, n) for x in r)
    if not isinstance(r, (xr.DataArray, xr.Dataset)):
        return r
    return r.drop_vars(n, errors="ignore")


def arrays(I, used):
    for k in used:
        v = I[k]
        if not xarray(v):
            continue
        if isinstance(v, xr.DataArray) and v.ndim > 1:
            yield k, None, v.dims
        for n in v.variables if isinstance(v, xr.Dataset) else v.coords:
            if v[n].ndim > 1:
                yield k, n, v[n].dims


def reorder(I, k, n, p):
    v = I[k].copy()
    if n is None:
        v = v.transpose(*p)
    elif n in v.coords:
        v = v.assign_coords({n: v[n].variable.transpose(*p)})
    else:
        v[n] = v[n].transpose(*p)
    I[k] = v


def contiguous(v):
    """The same thing with its values laid out in memory in the new order."""
    if isinstance(v, xr.DataArray):
        return v.copy(data=np.ascontiguousarray(v.values))
    return v


def permuted(ch):
    name = ch.free("operation", list(ops.OPS))
    base, used = baseline(name)
    I = dict(inputs())
    every = ch.pick("all arrays", ["as they are"] + ["".join(p) for p in itertools.permutations("tzyx")][1:])
    if every != "as they are":
        rank = {d: every.index(c) for d, c in dict(time="t", z_l="z", yh="y", xh="x", yq="y", xq="x").items()}
        for k, n, dims in arrays(inputs(), used):
            reorder(I, k, n, sorted(dims, key=lambda d: rank.get(d, 9)))
    for k, n, dims in arrays(inputs(), used):
        p = ch.pick(f"order of {k}.{n}", [None] + list(itertools.permutations(dims)))
        if p:
            reorder(I, k, n, p)
    ch.state(name, [I[k] for k in used if xarray(I[k])])
    ch.calls += 1
    got = ops.run(name, I)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (base[0], ""))
    d = ops.differ(got[1], base[1], attrs=False, order=False)
    if d and name in ("n2_adjusted", "wave_speed") and I["n2"].dims[0] != "z_l":
        # listed: the surface is taken to be index 0 of the first dimension
        v = I["n2"].values
        ax = I["n2"].dims.index("z_l")
        want = I["n2"].copy(data=c13.adjusted_listed(v, ax))
        if name == "wave_speed":
            want = (np.sqrt(want) * I["dz"]).sum("z_l") / np.pi
            want = want.where(I["n2"][0].notnull())
        if not ops.differ(got[1].rename("q"), want.rename("q"), attrs=False, order=False):
            ch.known("ORDER-N2", d)
            return
    ch.true("same values in another order", not d, d)
    ch.outcomes.add((name, str(every)))


SCENARIOS = [Scenario(renamed, 2, 4), Scenario(said, 1, 3), Scenario(decoy, 0), Scenario(permuted, 1, 2)]
ASSUMPTIONS = [
    "operations and inputs of mc/ops.py (55 operations, every function with naming arguments)",
    "agreement to 1e-9: the order of summation may change",
]
