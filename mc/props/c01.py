"""C01 - local steric / thermosteric / halosteric height."""

import numpy as np
import xarray as xr

from mc import model
from mc.core import Scenario
from mc.ocean import ocean
from mc.props.common import (
    PATM,
    VARIANTS,
    annual_mean,
    atmosphere,
    check_coords,
    handmade_reference,
    reference_dataset,
    run_variant,
)


def punched(ref, hole):
    """The reference, one of its fields missing in one cell."""
    if hole != "nothing":
        ref[hole] = ref[hole].astype(float).copy()
        ref[hole][ref[hole].shape[0] // 2, -1, 0] = np.nan
    return ref


def local_height(ch):
    variant = ch.free("variant", VARIANTS)
    eos = ch.free("eos", ["Wright", "linear"])
    how = ch.pick("entry", ["wrapper", "keyword"])
    annual = ch.pick("annual", [None, ("noleap", 1981, 1), ("julian", 1983, 2)])
    if annual:
        nt, time = 12 * annual[2], (annual[0], annual[1])
    else:
        nt = ch.pick("nt", [2, 1, 3, 4])
        time = ch.pick("time axis", ["number", "reversed", ("noleap", 1999)])
    nz = ch.pick("nz", [3, 1, 2, 5])
    ny, nx = ch.pick("ny,nx", [(2, 2), (1, 1), (1, 3), (3, 1), (2, 3)])
    values = ch.pick("values", ["mixed", "polar", "fresh", "hot", "tiny", "wide", "zero"])
    depth = ch.pick(
        "depth", ["partial", "full", "below", "interfaces", "zero", "nan", "shallow"]
    )
    zgrid = ch.pick("zgrid", ["uneven", "even", "thin", "hadal", "offset"])
    land = ch.pick("land", ["none", "column", "bottom", "cavity", "one wet"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    if dtype == "i8" and land != "none":
        ch.prune()
    patm = ch.pick("patm", PATM)
    rhozero = ch.pick("rhozero", [None, 1025.0, 1000.0, 1026.37])
    refkind = ch.pick("reference", ["auto", "own", "handmade", "inconsistent"])
    coords2d = ch.pick("coords2d", [False, True])
    order = ch.pick("dim order", ["tzyx", "xyzt", "zxty"])
    enc = ch.pick("encoding", [None, "float64"])
    strict = ch.pick("strict", [True, False])
    vol = ch.pick("volcello", ["as T", "missing more", "missing later", "zero"])
    late = ch.pick("missing value at a later time", [False, True])
    verbose = ch.pick("verbose", [False, True])
    scalar = ch.pick("scalar coordinate", [False, True])
    levels = ch.pick("levels", ["middle", "high", "low", "whole"])
    static = ch.pick("grid stored as", ["f8", "f4", "i8"])
    bare = ch.pick("no horizontal coordinates", [False, True])
    hole = ch.pick("missing in the reference", ["nothing", "T", "S", "rho", "vol"])
    if static == "i8" and (land != "none" or depth == "nan" or vol != "as T"):
        ch.prune()

    ds, a = ocean(
        nt, nz, ny, nx, values, depth, zgrid, land, dtype=dtype, time=time, coords2d=coords2d,
        levels=levels, static=static, bare=bare,
    )
    T, S, V = a["T"], a["S"], a["V"]
    if vol == "missing more":  # volume missing where temperature is there
        V[:, -1, -1, 0] = np.nan
    elif vol == "missing later":  # only the reference time matters
        V[1:, :, 0, 0] = np.nan
    elif vol == "zero":  # a vanished layer is not a missing one
        V[:, -1, 0, -1] = 0.0
    if vol != "as T":
        ds["volcello"] = ds["volcello"].copy(data=V)
    if late:
        if dtype == "i8" or nt < 2:
            ch.prune()
        T[-1, 0, -1, -1] = np.nan
        ds["thetao"] = ds["thetao"].copy(data=T.astype(dtype))
        T = ds["thetao"].values.astype(float)
    if scalar:
        ds = ds.assign_coords(member=7)
    if not strict:
        ds["areacello"] = ds["areacello"] * 0.5
        a["A"] = a["A"] * 0.5
    kw, p, now = atmosphere(ch, patm, ds, nt, ny, nx, refkind)
    rz = 1035.0
    if rhozero is not None:
        rz = kw["rhozero"] = rhozero
    if enc:
        kw["dtype"] = enc
    if not strict:
        kw["strict"] = False
    if annual:
        kw["annual"] = True
    if verbose:
        kw["verbose"] = True
    if refkind == "auto":
        if hole != "nothing":
            ch.prune()
        ref = model.reference_state(eos, T, S, V, a["z_l"], p)
    elif refkind == "own":
        if nt < 2:
            ch.prune()
        ref = punched(model.reference_state(eos, T, S, V, a["z_l"], p, index=1), hole)
        kw["reference"] = reference_dataset(ref, a["A"], ds)
    else:
        ref, A = handmade_reference(a, eos, p, consistent=refkind == "handmade")
        ref = punched(ref, hole)
        if not strict:
            A = A * 0.5
        kw["reference"] = reference_dataset(ref, A, ds)
    if order != "tzyx":
        names = dict(t="time", z="z_l", y="yh", x="xh")
        ds = ds.transpose(*[names[c] for c in order], ...)
    ch.state(ds, repr(sorted(kw)), eos, variant)
    res, _ = run_variant(ch, variant, how, ds, equation_of_state=eos, **kw)
    h, dr = model.steric_local(
        eos, T, S, a["z_l"], a["z_i"], a["D"], now, rz, ref, variant
    )
    if annual:
        yrs = [t.year for t in a["time"]]
        mon = [t.month for t in a["time"]]
        h = annual_mean(h, yrs, mon, annual[0])
        dr = annual_mean(dr, yrs, mon, annual[0])
    # rounding of two ~1e3 densities; float32 input is computed in float32
    tol = 2e-3 if dtype == "f4" else 1e-9
    col = float(np.nanmax(np.minimum(np.nan_to_num(a["D"]), a["z_i"][-1]))) + 1.0
    ch.field("delta_rho", res["delta_rho"], dr, ("time", "z_l", "yh", "xh"), 1e-9, tol)
    ch.field("height", res[variant], h, ("time", "yh", "xh"), 1e-9, 2 * tol * col / 1e3)
    ch.equal("result variables", set(res.data_vars), {"delta_rho", variant})
    check_coords(ch, "height", res[variant], ds, ("yh", "xh"))
    check_coords(ch, "delta_rho", res["delta_rho"], ds, ("yh", "xh", "z_l"))
    if annual:
        ch.equal(
            "time",
            [model.ymdh(t) for t in res["time"].values],
            [model.mid_of_year(y, annual[0]) for y in sorted(set(yrs))],
        )
    else:
        check_coords(ch, "height", res[variant], ds, ("time",))


SIZES = [
    (2, 75, 1, 2),
    (2, 90, 2, 1),
    (70, 2, 1, 1),
    (130, 1, 1, 2),
    (2, 2, 1, 140),
    (2, 2, 110, 1),
    (2, 1, 19, 23),
    (25, 8, 3, 2),
]


def large_grids(ch):
    """Long axes, one or two at a time: nothing depends on how many points there are."""
    nt, nz, ny, nx = ch.free("t,z,y,x", SIZES)
    variant = ch.free("variant", VARIANTS)
    eos = ch.pick("eos", ["Wright", "linear"])
    values = ch.pick("values", ["mixed", "polar", "hot"])
    depth = ch.pick("depth", ["partial", "full", "nan", "interfaces"])
    land = ch.pick("land", ["none", "column", "bottom"])
    ds, a = ocean(nt, nz, ny, nx, values, depth, "deep", land)
    ch.state(ds, variant, eos)
    res, _ = run_variant(ch, variant, "wrapper", ds, equation_of_state=eos)
    ref = model.reference_state(eos, a["T"], a["S"], a["V"], a["z_l"], 101325.0)
    h, dr = model.steric_local(
        eos, a["T"], a["S"], a["z_l"], a["z_i"], a["D"], 101325.0, 1035.0, ref, variant
    )
    ch.field("delta_rho", res["delta_rho"], dr, ("time", "z_l", "yh", "xh"), 1e-9, 1e-9)
    ch.field("height", res[variant], h, ("time", "yh", "xh"), 1e-9, 1e-8)


def linear_eos_adds_up(ch):
    """With a linear equation of state the two components sum to the total, exactly."""
    import momlevel

    nt = ch.free("nt", [1, 2, 3])
    nz = ch.free("nz", [1, 2, 4])
    ny, nx = ch.free("ny,nx", [(1, 1), (2, 2), (3, 2)])
    values = ch.free("values", ["mixed", "polar", "fresh", "hot"])
    land = ch.free("land", ["none", "column", "cavity"])
    ds, a = ocean(nt, nz, ny, nx, values, land=land)
    ch.state(ds)
    out = {}
    for v in VARIANTS:
        res, _ = run_variant(ch, v, "wrapper", ds, equation_of_state="linear")
        out[v] = res[v].transpose("time", "yh", "xh").values
    ch.close(
        "thermosteric + halosteric",
        out["thermosteric"] + out["halosteric"],
        out["steric"],
        1e-9,
        1e-8,
    )


def sign_of_response(ch):
    """Uniform warming raises, cooling lowers; freshening raises, salinifying lowers."""
    eos = ch.free("eos", ["Wright", "linear"])
    dT = ch.free("dT", [1.0, -1.0, 0.0])
    dS = ch.free("dS", [0.0, 0.5, -0.5])
    base_t = ch.free("T", [5.0, 15.0, 28.0])
    base_s = ch.free("S", [33.0, 36.0])
    nz = ch.free("nz", [1, 3])
    ds, a = ocean(2, nz, 2, 2, depth="full")
    T = np.empty((2, nz, 2, 2))
    S = np.empty_like(T)
    T[0], T[1] = base_t, base_t + dT
    S[0], S[1] = base_s, base_s + dS
    ds["thetao"] = ds["thetao"].copy(data=T)
    ds["so"] = ds["so"].copy(data=S)
    ch.state(ds)
    for v, want in (
        ("thermosteric", np.sign(dT)),
        ("halosteric", -np.sign(dS)),
    ):
        res, _ = run_variant(ch, v, "wrapper", ds, equation_of_state=eos)
        h = res[v].transpose("time", "yh", "xh").values
        ch.equal(f"sign of {v}", set(np.sign(np.round(h[1], 12)).ravel()), {want})
        ch.equal(f"{v} at the reference", set(np.round(h[0], 12).ravel()), {0.0})


SCENARIOS = [
    Scenario(local_height, 2, 3),
    Scenario(large_grids, 1, 2),
    Scenario(linear_eos_adds_up, 0),
    Scenario(sign_of_response, 0),
]
ASSUMPTIONS = [
    "all option pairs on grids up to 24 x 5 x 3 x 3, long axes (up to 130 times, 90 levels, "
    "140 points) with one option changed; temperature, salinity and volume from seven value ranges",
    "float64 agreement to 1e-9 kg m-3, float32 input to 2e-3 kg m-3",
]
