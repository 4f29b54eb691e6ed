"""C24 - validation accepts exactly the datasets that meet the requirements."""

import contextlib
import io
import warnings

import numpy as np
import xarray as xr

import momlevel
from momlevel import util
from mc.core import Scenario
from mc.ocean import OCEAN_AREA, ocean, pattern

DIMS = ("time", "z_l", "yh", "xh", "extra", "more")
SIZE = {"time": 2, "z_l": 2, "yh": 2, "xh": 2, "extra": 2, "more": 1}
AREA = [1.0, 1.0199, 0.9801, 1.0201, 0.9799, 1.5, 0.5, 0.0, -1.0, 1.412]


def var(rank, salt, short=()):
    d = {0: (), 1: ("yh",), 2: ("yh", "xh"), 3: ("z_l", "yh", "xh"), 4: DIMS[:4], 5: DIMS[:5]}[rank]
    return xr.DataArray(pattern(tuple(1 if k in short else SIZE[k] for k in d), 1.0, 2.0, salt), dims=d)


def area_ok(factor):
    return abs(factor - 1.0) < 0.02


def area(rank, factor, short=()):
    a = var(rank, 4, short)
    return a / a.sum() * OCEAN_AREA * factor


def judged(ch, ds, valid, area_bad, strict, **kw):
    """Run the validator and compare its verdict with ours."""
    out = io.StringIO()
    with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(out):
        warnings.simplefilter("always")
        if valid and not (strict and area_bad):
            r = ch.call(util.validate_dataset, ds, strict=strict, **kw)
            ch.equal("returns nothing", r, None)
        else:
            ch.rejects("invalid dataset", util.validate_dataset, ds, strict=strict, **kw)
    said = [w for w in rec if "areacello" in str(w.message)]
    if strict or not area_bad:
        ch.equal("area warnings", len(said), 0)
    else:
        ch.true("area warning", len(said) >= 1)


def inputs(ch):
    strict = ch.free("strict", [True, False])
    ranks = {}
    for k, good in (("thetao", 4), ("so", 4), ("volcello", 4), ("areacello", 2), ("deptho", 2)):
        options = [good] + [r for r in (None, 0, 1, 2, 3, 4, 5) if r != good]
        ranks[k] = ch.pick(k, options)
    add = ch.pick("further variables", ["none", "list, there", "list, missing", "name, there", "name, missing", "one of two", "empty list", "deptho", "a bare dimension", "bare dimension and name", "a coordinate"])
    f = ch.pick("area factor", AREA)
    coord = ch.pick("held as coordinate", ["none", "areacello", "deptho", "volcello"])
    nan = ch.pick("land in area", [False, True])
    tname = ch.pick("time name", ["time", "T"])
    short = ch.pick("dimensions of length one", [(), ("time",), ("z_l",), ("yh", "xh"), ("time", "z_l", "yh", "xh")])
    ds = xr.Dataset()
    for k, r in ranks.items():
        if r is None:
            continue
        ds[k] = area(r, f, short) if k == "areacello" else var(r, 1, short)
    if nan and ranks["areacello"] == 2 and "yh" not in short:
        a = ds["areacello"].values.copy()
        keep = a.sum()
        a[0, 0] = np.nan
        a *= keep / np.nansum(a) if np.nansum(a) else 1.0
        ds["areacello"] = (("yh", "xh"), a)
    ds["z_i"] = ("z_i", np.arange(3.0))
    ds["here"] = ((), 1.0)
    ds["on_bare"] = ("bare", np.arange(2.0))  # a dimension no variable is named after
    ds = ds.assign_coords(place=("bare", [1.0, 2.0]))
    if coord != "none":
        if coord not in ds:
            ch.prune()
        ds = ds.set_coords(coord)
    if tname != "time" and "time" in ds.dims:
        ds = ds.rename_dims({"time": tname})
    arg = {
        "none": None,
        "list, there": ["z_i", "here"],
        "list, missing": ["nope"],
        "name, there": "here",
        "name, missing": "nope",
        "one of two": ["here", "nope"],
        "empty list": [],
        "deptho": ["z_i", "deptho"],
        "a bare dimension": ["bare"],
        "bare dimension and name": ["here", "bare"],
        "a coordinate": ["place"],
    }[add]
    valid = all(ranks[k] == 4 for k in ("thetao", "so", "volcello")) and ranks["areacello"] == 2
    valid = valid and ranks["deptho"] in (None, 2)
    if add in ("list, missing", "name, missing", "one of two", "a bare dimension", "bare dimension and name"):
        valid = False
    if add == "deptho" and ranks["deptho"] is None:
        valid = False
    bad = ranks["areacello"] is not None and not area_ok(f)
    ch.state(ranks, add, f, coord, nan, tname)
    kw = {} if arg is None else {"additional_vars": arg}
    judged(ch, ds, valid, bad, strict, **kw)


def references(ch):
    strict = ch.free("strict", [True, False])
    ranks = {}
    want = dict(thetao=3, so=3, volcello=3, areacello=2, deptho=2, rho=3, volo=0, masso=0, rhoga=0)
    for k, good in want.items():
        ranks[k] = ch.pick(k, ([None, 2, 1, 3] if k == "deptho" else [good] + [r for r in (None, 0, 1, 2, 3, 4) if r != good]))
    f = ch.pick("area factor", AREA)
    time = ch.pick("time", ["none", "scalar coordinate", "Time", "TIME", "1-d coordinate", "data variable", "times", "T", "a dimension only"])
    short = ch.pick("dimensions of length one", [(), ("z_l",), ("yh",), ("time", "z_l", "yh", "xh")])
    coord = ch.pick("held as coordinate", ["none", "areacello", "deptho", "volcello", "rho", "rhoga"])
    if "time" in short and time == "1-d coordinate":
        ch.prune()
    ds = xr.Dataset()
    for k, r in ranks.items():
        if r is not None:
            ds[k] = area(r, f, short) if k == "areacello" else var(r, 3, short)
    if coord != "none":
        if coord not in ds:
            ch.prune()
        ds = ds.set_coords(coord)
    bad_time = False
    if "time" in ds.dims and time in ("scalar coordinate", "data variable"):
        ch.prune()
    if time == "scalar coordinate":
        ds, bad_time = ds.assign_coords(time=1.0), True
    elif time in ("Time", "TIME"):
        ds, bad_time = ds.assign_coords({time: 1.0}), True
    elif time == "1-d coordinate":
        ds, bad_time = ds.assign_coords(time=("time", [1.0, 2.0])), True
    elif time == "data variable":
        ds["time"] = ((), 1.0)
    elif time in ("times", "T"):
        ds = ds.assign_coords({time: 1.0})
    elif time == "a dimension only":
        ds["other"] = ("time", np.zeros(1 if "time" in short else 2))
    valid = not bad_time and all(
        ranks[k] == good or (k == "deptho" and ranks[k] is None) for k, good in want.items()
    )
    bad = ranks["areacello"] is not None and not area_ok(f)
    ch.state(ranks, f, time, coord)
    judged(ch, ds, valid, bad, strict, reference=True)


def areas(ch):
    ref = ch.free("expected area", [None, 1.0e10, 5.1e14])
    tol = ch.free("tolerance", [None, 0.001, 0.1, 0.5])
    off = ch.free("relative error", [0.0, 5e-4, 9.9e-4, 1.1e-3, 0.0199, 0.0201, 0.09, 0.11, 0.49, 0.51, 1.0, 2.0])
    sign = ch.free("sign", [1, -1])
    shape = ch.free("shape", [(2, 2), (1, 1), (3, 5), (40,)])
    d = ("yh", "xh")[: len(shape)]
    a = xr.DataArray(pattern(shape, 1.0, 3.0, 1), dims=d)
    a = a / a.sum() * (ref or OCEAN_AREA) * (1 + sign * off)
    kw = {}
    if ref:
        kw["reference"] = ref
    if tol:
        kw["tolerance"] = tol
    ch.state(ref, tol, off, sign, shape)
    got = ch.call(util.validate_areacello, a, **kw)
    ch.equal("plausible area", got, off < (tol or 0.02))


def steric_requirements(ch):
    """steric refuses what the validator refuses, and names it does not know."""
    domain = ch.free("domain", ["local", "global"])
    variant = ch.free("variant", ["steric", "thermosteric", "halosteric", "Steric", "", None, "thermo", "salinity"])
    fault = ch.pick(
        "fault",
        ["none", "thetao", "so", "volcello", "areacello", "deptho", "z_i", "rank of so", "area", "ref thetao", "ref rho", "ref rank", "ref time", "ref not a dataset", "ref volo", "ref masso", "ref rhoga"],
    )
    strict = ch.pick("strict", [True, False])
    eos = ch.pick("equation of state", ["Wright", "TEOS", "", "density"])
    ds, arr = ocean(nt=2, nz=2)
    ref = momlevel.reference.setup_reference_state(ds)
    kw = {}
    bad = variant not in ("steric", "thermosteric", "halosteric") or eos != "Wright"
    if fault in ("thetao", "so", "volcello", "areacello"):
        ds, bad = ds.drop_vars(fault), True
    elif fault in ("deptho", "z_i"):
        ds = ds.drop_vars(fault)
        bad = bad or domain == "local"
    elif fault == "rank of so":
        ds["so"] = ds["so"].isel(time=0, drop=True)
        bad = True
    elif fault == "area":
        ds["areacello"] = ds["areacello"] * 1.4
        bad = bad or strict
    elif fault in ("ref thetao", "ref rho", "ref volo", "ref masso", "ref rhoga"):
        kw["reference"] = ref.drop_vars(fault[4:])
        bad = True
    elif fault == "ref rank":
        ref["rho"] = ref["rho"].isel(z_l=0, drop=True)
        kw["reference"] = ref
        bad = True
    elif fault == "ref time":
        kw["reference"] = ref.assign_coords(time=1.0)
        bad = True
    elif fault == "ref not a dataset":
        kw["reference"] = ref["rho"]
        bad = True
    ch.state(domain, variant, fault, strict, eos)
    kw.update(strict=strict, variant=variant, domain=domain, equation_of_state=eos)
    with contextlib.redirect_stdout(io.StringIO()):
        if bad:
            ch.rejects("invalid request", momlevel.steric, ds, **kw)
        else:
            res, _ = ch.call(momlevel.steric, ds, **kw)
            ch.true("result", variant in res)


SCENARIOS = [
    Scenario(inputs, 2, 4),
    Scenario(references, 2, 4),
    Scenario(areas, 0),
    Scenario(steric_requirements, 2, 3),
]
ASSUMPTIONS = ["area errors within 1e-4 of the tolerance itself are not tried"]
