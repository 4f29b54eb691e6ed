"""C02 - global steric height: (V0/A) ln(rho0 / rho(t))."""

import numpy as np
import xarray as xr

from mc import model
from mc.core import Scenario
from mc.ocean import ocean
from mc.props.c01 import SIZES
from mc.props.common import (
    PATM,
    VARIANTS,
    annual_mean,
    atmosphere,
    check_coords,
    handmade_reference,
    reference_dataset,
    run_variant,
)


def global_height(ch):
    variant = ch.free("variant", VARIANTS)
    eos = ch.free("eos", ["Wright", "linear"])
    how = ch.pick("entry", ["wrapper", "keyword"])
    annual = ch.pick("annual", [None, ("noleap", 1981, 1), ("standard", 1999, 2)])
    if annual:
        nt, time = 12 * annual[2], (annual[0], annual[1])
    else:
        nt = ch.pick("nt", [2, 1, 3, 5])
        time = ch.pick("time axis", ["number", "reversed", ("noleap", 1999)])
    nz = ch.pick("nz", [3, 1, 2, 6])
    ny, nx = ch.pick("ny,nx", [(2, 2), (1, 1), (1, 3), (3, 1), (4, 3)])
    values = ch.pick("values", ["mixed", "polar", "fresh", "hot", "tiny", "wide", "zero"])
    zgrid = ch.pick("zgrid", ["uneven", "even", "thin", "hadal", "offset"])
    land = ch.pick("land", ["none", "column", "bottom", "cavity", "one wet"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    if dtype == "i8" and land != "none":
        ch.prune()
    area = ch.pick("area", ["uneven", "even", "masked"])
    patm = ch.pick("patm", PATM)
    refkind = ch.pick("reference", ["auto", "own", "handmade", "inconsistent"])
    extras = ch.pick("deptho and z_i", ["both", "neither"])
    coords2d = ch.pick("coords2d", [False, True])
    order = ch.pick("dim order", ["tzyx", "xyzt", "zxty"])
    rhozero = ch.pick("rhozero", [None, 1000.0])
    strict = ch.pick("strict", [True, False])
    vol = ch.pick("volcello", ["as T", "missing more", "changing", "zero"])

    verbose = ch.pick("verbose", [False, True])
    scalar = ch.pick("scalar coordinate", [False, True])
    levels = ch.pick("levels", ["middle", "high", "low", "whole"])
    static = ch.pick("grid stored as", ["f8", "f4", "i8"])
    bare = ch.pick("no horizontal coordinates", [False, True])
    if static == "i8" and (land != "none" or area == "masked" or vol != "as T"):
        ch.prune()

    ds, a = ocean(
        nt, nz, ny, nx, values, "partial", zgrid, land, area, dtype, time, coords2d,
        levels=levels, static=static, bare=bare,
    )
    T, S, V, A = a["T"], a["S"], a["V"], a["A"]
    if area == "masked":
        if ny * nx < 2:
            ch.prune()
        A[0, 0] = np.nan
        A = A / np.nansum(A) * 3.6111092e14
        ds["areacello"] = ds["areacello"].copy(data=A)
    if vol == "missing more":
        V[:, -1, -1, 0] = np.nan
    elif vol == "changing":
        V[1:] *= 3.0
    elif vol == "zero":
        V[:, -1, 0, -1] = 0.0
    if vol != "as T":
        ds["volcello"] = ds["volcello"].copy(data=V)
    if not strict:
        A = A * 2.0
        ds["areacello"] = ds["areacello"] * 2.0
    if scalar:
        ds = ds.assign_coords(member=7)
    if extras == "neither":
        ds = ds.drop_vars(["deptho", "z_i"])
    kw, p, now = atmosphere(ch, patm, ds, nt, ny, nx, refkind)
    if rhozero:
        kw["rhozero"] = rhozero  # plays no part globally
    if not strict:
        kw["strict"] = False
    if annual:
        kw["annual"] = True
    if verbose:
        kw["verbose"] = True
    if refkind == "auto":
        ref = model.reference_state(eos, T, S, V, a["z_l"], p)
    elif refkind == "own":
        if nt < 2:
            ch.prune()
        ref = model.reference_state(eos, T, S, V, a["z_l"], p, index=1)
        kw["reference"] = reference_dataset(ref, A, ds)
    else:
        ref, A = handmade_reference(a, eos, p, consistent=refkind == "handmade")
        if not strict:
            A = A * 2.0
        kw["reference"] = reference_dataset(ref, A, ds)
    if not ref["volo"] > 0:
        ch.prune()  # no ocean at all
    if order != "tzyx":
        names = dict(t="time", z="z_l", y="yh", x="xh")
        ds = ds.transpose(*[names[c] for c in order], ...)
    ch.state(ds, repr(sorted(kw)), eos, variant)
    res, _ = run_variant(
        ch, variant, how, ds, equation_of_state=eos, domain="global", **kw
    )
    dens = model.density(eos)
    pp = np.broadcast_to(a["z_l"][:, None, None] * 1.0e4 + now, T.shape)
    height = ref["volo"] / np.nansum(A)
    want = np.empty(nt)
    for t in range(nt):
        tt = ref["T"] if variant == "halosteric" else T[t]
        ss = ref["S"] if variant == "thermosteric" else S[t]
        mean = np.nansum(dens(tt, ss, pp[t]) * ref["vol"]) / ref["volo"]
        want[t] = height * np.log(ref["rhoga"] / mean)
    if annual:
        yrs = [t.year for t in a["time"]]
        want = annual_mean(want, yrs, [t.month for t in a["time"]], annual[0])
    tol = height * (2e-6 if dtype == "f4" else 1e-12)
    # volumes in single precision are summed in single precision, but masses are not
    rel = 3e-6 if static == "f4" else 1e-9
    ch.field("height", res[variant], want, ("time",), rel, tol)
    rh = res["reference_height"]
    ch.close("reference height", rh.values, np.full(rh.shape, height), rel)
    ch.equal("result variables", set(res.data_vars), {"reference_height", variant})
    if annual:
        ch.equal(
            "time",
            [model.ymdh(t) for t in res["time"].values],
            [model.mid_of_year(y, annual[0]) for y in sorted(set(yrs))],
        )
    else:
        check_coords(ch, "height", res[variant], ds, ("time",))


def large_grids(ch):
    nt, nz, ny, nx = ch.free("t,z,y,x", SIZES)
    variant = ch.free("variant", VARIANTS)
    eos = ch.pick("eos", ["Wright", "linear"])
    values = ch.pick("values", ["mixed", "polar", "hot"])
    land = ch.pick("land", ["none", "column", "bottom"])
    ds, a = ocean(nt, nz, ny, nx, values, "partial", "deep", land)
    ch.state(ds, variant, eos)
    res, _ = run_variant(
        ch, variant, "wrapper", ds, equation_of_state=eos, domain="global"
    )
    ref = model.reference_state(eos, a["T"], a["S"], a["V"], a["z_l"], 101325.0)
    if not ref["volo"] > 0:
        ch.prune()
    g, height = model.steric_global(
        eos, a["T"], a["S"], a["z_l"], 101325.0, ref, a["A"], variant
    )
    ch.field("height", res[variant], g, ("time",), 1e-9, 1e-12 * height)
    ch.close("reference height", res["reference_height"], height, 1e-11)


SCENARIOS = [Scenario(global_height, 2, 3), Scenario(large_grids, 1, 2)]
ASSUMPTIONS = [
    "all option pairs on grids up to 24 x 6 x 4 x 3, long axes (up to 130 times, 90 levels, "
    "140 points) with one option changed; missing temperature/salinity only where volume is missing"
]
