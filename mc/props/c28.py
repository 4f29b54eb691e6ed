"""C28 - every point, column or series is computed on its own."""

import itertools

import numpy as np
import xarray as xr

from mc import ops
from mc.core import Scenario
from mc.ocean import OCEAN_AREA
from mc.props.c05 import baseline, inputs, xarray

YX = ("yh", "xh")
TYX = ("time", "yh", "xh")
ALL = ("time", "z_l", "yh", "xh")
# the dimensions along which an operation works point by point
ALONG = dict(
    steric_local=YX, thermosteric_local=YX, halosteric_local=YX, steric_annual=YX, steric_linear=YX,
    steric_referenced=TYX, thermosteric_global=("time",),
    reference_first=YX, reference_last=YX,
    rho_wright=ALL, rho_linear=ALL, alpha_wright=ALL, beta_wright=ALL, alpha_linear=ALL, beta_linear=ALL,
    pdens=ALL, spice_=ALL, masso=("time",), dz=YX, dz_fraction=YX,
    n2=TYX, n2_linear=TYX, n2_patm=TYX, stability=TYX, n2_adjusted=YX, wave_speed=YX, rossby=YX, barometer=YX, coriolis=("yh",),
    vorticity=("time",), potential_vorticity=("time",), potential_vorticity_cm=("time", "yq", "xq"),
    annual_ds=YX, annual_da=YX, cycle_mean=YX, cycle_std=YX, cycle_max=("xh",), monthly=YX, monthly_ds=YX,
    trend_yr=YX, trend_ns=YX, broadcast=YX, broadcast_zero=YX, detrend_remove=YX, detrend_correct=YX,
    seasonal=("xh",), deseason_residuals=YX, deseason_model=YX, deseason_coeff=YX, gauges=("time",),
)  # fmt: skip
FITTED = ("trend_yr", "trend_ns", "detrend_remove", "detrend_correct", "seasonal", "deseason_residuals", "deseason_model", "deseason_coeff")
# what is a total, or the caller's own
TOTALS = ("volo", "masso", "rhoga", "areacello", "reference_height")


def arrangements(n):
    """Every non-empty subset in every order; for long dimensions, a spread of them."""
    if n <= 4:
        out = [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]
        return [p for p in out if p != tuple(range(n))]
    out = [(k,) for k in range(n)]
    out += [tuple(range(n))[::-1], tuple(range(0, n, 2)), tuple(range(1, n, 3)), tuple(range(n // 2)), (n - 1, 0)]
    out += [tuple((5 * k + 2) % n for k in range(n // 2))]
    return [p for p in out if len(set(p)) == len(p)]


def picked(v, dim, idx):
    if isinstance(v, xr.Dataset) and "areacello" in v and dim in v.areacello.dims:
        v = v.isel({dim: idx})
        v["areacello"] = v["areacello"] * (OCEAN_AREA / v["areacello"].sum())
        return v
    return v.isel({dim: idx}) if dim in v.dims else v


def chosen(r, dim, idx):
    """The same selection from a result."""
    if isinstance(r, (tuple, list)):
        return type(r)(chosen(x, dim, idx) for x in r)
    return r.isel({dim: idx}) if dim in r.dims else r


def without_totals(r, name, used=None):
    """Without what is a total, or a running number where the input has no coordinate."""
    if isinstance(r, (tuple, list)):
        return type(r)(without_totals(x, name, used) for x in r)
    if used is not None:
        r = r.drop_vars([c for c in r.coords if c in ALL and not any(c in v.coords for v in used)])
    if isinstance(r, xr.Dataset) and ("steric" in name or "reference" in name):
        return r.drop_vars(TOTALS, errors="ignore")
    return r


def subsets(ch):
    """Selecting points in any order, then calculating, is calculating, then selecting."""
    name = ch.free("operation", list(ALONG))
    which = ch.pick("inputs", ["A", "missing", "B"])
    base, used = baseline(name, which)
    I = inputs(which)
    J = {k: I[k] for k in used}
    want = base[1]
    ch.equal("outcome", base[0], "ok")
    for dim in ALONG[name]:
        sizes = {J[k].sizes[dim] for k in used if xarray(J[k]) and dim in J[k].dims}
        if not sizes:
            continue
        n = max(sizes)
        assert sizes <= {n}, (name, dim, sizes)
        idx = ch.pick(f"selection along {dim}", [None] + arrangements(n))
        if idx is None:
            continue
        J = {k: picked(v, dim, list(idx)) if xarray(v) else v for k, v in J.items()}
        want = chosen(want, dim, list(idx))
    ch.state(name, which, [v for v in J.values() if xarray(v)])
    ch.calls += 1
    if name == "thermosteric_global":
        J["ref"] = I["ref"]
    got = ops.run(name, J)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), ("ok", ""))
    arrays = [v for v in J.values() if xarray(v)]
    d = ops.differ(without_totals(got[1], name, arrays), without_totals(want, name, arrays), attrs=False)
    ch.true("the points selected do as they do among the others", not d, d)
    ch.outcomes.add((name, which))


def disturbed(ch):
    """Other values at one point change nothing anywhere else."""
    name = ch.free("operation", [n for n in ALONG if set(ALONG[n]) & {"yh", "xh", "yq", "xq"}])
    dims = [d for d in ALONG[name] if d != "time" and d != "z_l"]
    base, used = baseline(name)
    I = inputs()
    sizes = {}
    for k in used:
        if xarray(I[k]):
            sizes.update({d: I[k].sizes[d] for d in dims if d in I[k].dims})
    at = {d: ch.free(f"point along {d}", list(range(n))) for d, n in sizes.items()}
    kind = ch.free("other values", ["missing", "larger", "opposite", "fill value", "tiny", "infinite"])
    if kind == "infinite" and name in FITTED:
        ch.prune()  # several series go through one least-squares solution
    J = {}
    touched = 0
    for k in used:
        v = I[k]
        if not xarray(v):
            J[k] = v
            continue
        v = v.copy(deep=True)
        each = [v] if isinstance(v, xr.DataArray) else [v[n] for n in v.data_vars]
        for a in each:
            here = {d: i for d, i in at.items() if d in a.dims}
            if not here or set(here) != set(at) or a.dtype.kind != "f" or a.name == "areacello":
                continue
            q = a.values
            i = tuple(here.get(d, slice(None)) for d in a.dims)
            if kind == "missing":
                q[i] = np.nan
            elif kind == "larger":
                q[i] = q[i] * 1.5 + 1.0
            elif kind == "opposite":
                if a.name == "deptho":
                    continue  # depths are not negative
                q[i] = -q[i]
            elif kind == "tiny":
                q[i] = 1e-30
            elif kind == "infinite":  # a single value of those at the point
                own = np.array(q[i])
                own.flat[own.size // 2] = np.inf
                q[i] = own
            else:
                q[i] = 1e20
            touched += 1
        J[k] = v
    if not touched:
        ch.prune()
    ch.state(name, at, kind)
    ch.calls += 1
    got = ops.run(name, J)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), ("ok", ""))
    rest = got[1], base[1]

    def elsewhere(r):
        """Everything but the point: its own values are put to zero."""
        if isinstance(r, (tuple, list)):
            return type(r)(elsewhere(x) for x in r)
        if isinstance(r, xr.Dataset):
            return r.map(elsewhere, keep_attrs=True)
        if all(d in r.dims for d in at):
            keep = xr.ones_like(r, dtype=bool)
            keep[at] = False
            return r.where(keep, 0.0)
        return r

    a, b = (elsewhere(without_totals(x, name)) for x in rest)
    d = ops.differ(a, b, attrs=False)
    ch.true("nothing changes elsewhere", not d, d)
    ch.outcomes.add((name, kind))


def alone(ch):
    """One point keeps its values whatever all the others become."""
    name = ch.free("operation", [n for n in ALONG if set(ALONG[n]) & {"yh", "xh", "yq", "xq"}])
    dims = [d for d in ALONG[name] if d != "time" and d != "z_l"]
    base, used = baseline(name)
    I = inputs()
    sizes = {}
    for k in used:
        if xarray(I[k]):
            sizes.update({d: I[k].sizes[d] for d in dims if d in I[k].dims})
    at = {d: ch.free(f"point along {d}", list(range(n))) for d, n in sizes.items()}
    kind = ch.free("the others", ["missing", "tiny", "zero", "fill value", "hundredth", "hundredfold", "alike"])
    own_scale = ch.free("the point itself", [1.0, 0.01, 100.0])
    if own_scale != 1.0 and kind != {0.01: "hundredth", 100.0: "hundredfold"}[own_scale]:
        ch.prune()
    J, first = {}, {}
    touched = 0
    for k in used:
        v = I[k]
        if not xarray(v):
            J[k] = first[k] = v
            continue
        v = v.copy(deep=True)
        if own_scale != 1.0:
            for a in [v] if isinstance(v, xr.DataArray) else [v[n] for n in v.data_vars]:
                if set(at) <= set(a.dims) and a.dtype.kind == "f" and a.name != "areacello":
                    a.values[tuple(at.get(d, slice(None)) for d in a.dims)] *= own_scale
            first[k] = v.copy(deep=True)
        each = [v] if isinstance(v, xr.DataArray) else [v[n] for n in v.data_vars]
        for a in each:
            here = {d: i for d, i in at.items() if d in a.dims}
            if not here or set(here) != set(at) or a.dtype.kind != "f" or a.name == "areacello":
                continue
            i = tuple(here.get(d, slice(None)) for d in a.dims)
            q = a.values
            own = q[i].copy()
            if kind == "alike":
                n = tuple(slice(None) if d not in here else None for d in a.dims)
                q[...] = own[n]
            elif kind in ("hundredth", "hundredfold"):
                q *= 0.01 if kind == "hundredth" else 100.0
            else:
                q[...] = {"missing": np.nan, "tiny": 1e-30, "zero": 0.0, "fill value": 1e20}[kind]
            q[i] = own
            touched += 1
        J[k] = v
    if not touched:
        ch.prune()
    ch.state(name, at, kind, own_scale)
    ch.calls += 1
    if own_scale != 1.0:
        base = ops.run(name, first)
    got = ops.run(name, J)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), ("ok", ""))

    def here(r):
        if isinstance(r, (tuple, list)):
            return type(r)(here(x) for x in r)
        if isinstance(r, xr.Dataset):
            return r.map(here, keep_attrs=True)
        return r.isel({d: [i] for d, i in at.items()}) if all(d in r.dims for d in at) else xr.zeros_like(r, dtype=float) if r.dtype.kind == "f" else r

    a, b = (here(without_totals(x, name)) for x in (got[1], base[1]))
    d = ops.differ(a, b, attrs=False)
    ch.true("the point is as it was", not d, d)
    ch.outcomes.add((name, kind))


SCENARIOS = [Scenario(subsets, 2, 4), Scenario(disturbed, 0), Scenario(alone, 0)]
ASSUMPTIONS = [
    "operations and inputs of mc/ops.py; dimensions of up to 4 points: every subset in every order, longer ones a spread",
    "totals (volume, mass, mean density, area) are not local and not compared",
]
