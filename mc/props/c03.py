"""C03 - the reference state, its consistency, and change relative to itself."""

import io
import os
import tempfile

import numpy as np
import xarray as xr

import momlevel
from momlevel import derived
from momlevel.reference import setup_reference_state
from mc import model
from mc.core import Scenario
from mc.ocean import ocean
from mc.props.common import PATM, VARIANTS, atmosphere, check_coords, run_variant

VARS = {"thetao", "so", "volcello", "rho", "volo", "masso", "rhoga", "areacello"}


def check_reference(ch, what, ref, want, A, ds):
    ch.equal(f"{what} variables", set(ref.data_vars), VARS)
    gone = sorted(n for n in ref.variables if n in ds.variables and "time" in ds[n].dims and n in ds.coords)
    ch.true(f"{what} has no time", not gone, gone)
    d3 = ("z_l", "yh", "xh")
    f4 = ref["thetao"].dtype == np.float32
    ch.field(f"{what} thetao", ref["thetao"], want["T"], d3, 0.0)
    ch.field(f"{what} so", ref["so"], want["S"], d3, 0.0)
    ch.field(f"{what} volcello", ref["volcello"], want["vol"], d3, 0.0)
    ch.field(f"{what} areacello", ref["areacello"], A, d3[1:], 0.0)
    r = 2e-6 if f4 else 1e-11
    ch.field(f"{what} rho", ref["rho"], want["rho"], d3, r)
    ch.field(f"{what} masso", ref["masso"], want["masso"], (), r)
    v = 2e-6 if ref["volcello"].dtype == np.float32 else 1e-11  # a sum in single precision
    ch.field(f"{what} volo", ref["volo"], want["volo"], (), v)
    ch.field(f"{what} rhoga", ref["rhoga"], want["rhoga"], (), max(r, v))
    ga = float(ref["rhoga"])
    rho = ref["rho"].values[~np.isnan(ref["volcello"].values)]
    if not np.isnan(rho).any():
        ch.true(
            f"{what}: mean density within the range of densities",
            rho.min() * (1 - 1e-6) <= ga <= rho.max() * (1 + 1e-6),
            ga,
        )
    check_coords(ch, what, ref, ds, d3)


def reference_fields(ch):
    eos = ch.free("eos", ["Wright", "linear"])
    nt = ch.pick("nt", [3, 1, 2, 6, 40])
    index = ch.pick("time_index", [None, 0, 1, -1, 2, 5, 29, -3])
    if index is not None and not -nt <= index < nt:
        ch.prune()
    nz = ch.pick("nz", [3, 1, 2, 6, 60])
    ny, nx = ch.pick("ny,nx", [(2, 2), (1, 1), (1, 3), (3, 1), (4, 3), (1, 60)])
    values = ch.pick("values", ["mixed", "polar", "fresh", "hot", "tiny", "wide", "zero"])
    zgrid = ch.pick("zgrid", ["uneven", "even", "thin", "hadal", "offset"])
    land = ch.pick("land", ["none", "column", "bottom", "cavity", "one wet"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    if dtype == "i8" and land != "none":
        ch.prune()
    patm = ch.pick("patm", [p for p in PATM if "time" not in str(p)])
    time = ch.pick("time axis", ["number", "reversed", ("julian", 1999)])
    coords2d = ch.pick("coords2d", [False, True])
    order = ch.pick("dim order", ["tzyx", "xyzt", "zxty"])
    vol = ch.pick("volcello", ["as T", "missing more", "missing at other times", "zero"])
    scalar = ch.pick("scalar coordinate", [False, True])
    levels = ch.pick("levels", ["middle", "high", "low", "whole"])
    static = ch.pick("grid stored as", ["f8", "f4", "i8"])
    bare = ch.pick("no horizontal coordinates", [False, True])
    more = ch.pick("further coordinate along time", [False, True])
    nil = ch.pick("cells of no area", [False, True])
    hole = ch.pick("missing where there is volume", ["nothing", "T", "S"])
    if hole != "nothing" and dtype == "i8":
        ch.prune()
    if static == "i8" and (land != "none" or vol != "as T"):
        ch.prune()
    ds, a = ocean(
        nt, nz, ny, nx, values, "partial", zgrid if nz < 7 else "deep", land, dtype=dtype, time=time, coords2d=coords2d,
        levels=levels, static=static, bare=bare,
    )
    if nil:
        a["A"] = a["A"].copy()
        a["A"][-1, 0] = 0.0
        if not a["A"].any():
            ch.prune()
        ds["areacello"] = ds["areacello"].copy(data=a["A"].astype(ds["areacello"].dtype))
    V = a["V"]
    i = 0 if index is None else index
    if vol == "missing more":
        V[:, -1, -1, 0] = np.nan
    elif vol == "missing at other times":
        for t in range(nt):
            if t != i % nt:
                V[t, :, 0, 0] = np.nan
    elif vol == "zero":
        V[:, -1, 0, -1] = 0.0
    if vol != "as T":
        ds["volcello"] = ds["volcello"].copy(data=V)
    if hole != "nothing":
        a[hole] = a[hole].astype(float).copy()
        a[hole][i, nz // 2, -1, -1] = np.nan
        name = {"T": "thetao", "S": "so"}[hole]
        ds[name] = ds[name].copy(data=a[hole].astype(dtype))
    if scalar:
        ds = ds.assign_coords(member=7)
    if more:
        ds = ds.assign_coords(month=("time", np.arange(nt) % 12 + 1))
    kw, p, _ = atmosphere(ch, patm, ds, nt, ny, nx, "auto")
    kind = ch.pick("index stored as", ["int", "int64", "int32"])
    if index is not None:
        kw["time_index"] = index if kind == "int" else np.dtype(kind).type(index)
    elif kind != "int":
        ch.prune()
    if order != "tzyx":
        names = dict(t="time", z="z_l", y="yh", x="xh")
        ds = ds.transpose(*[names[c] for c in order], ...)
    want = model.reference_state(eos, a["T"], a["S"], V, a["z_l"], p, i)
    if not want["volo"] > 0:
        ch.prune()
    ch.state(ds, repr(kw), eos)
    ref = ch.call(setup_reference_state, ds, eos=eos, **kw)
    check_reference(ch, "reference", ref, want, a["A"], ds)


def later_times(ch):
    """Long records and late reference times, with values missing there, before or everywhere."""
    eos = ch.free("eos", ["Wright", "linear"])
    nt = ch.free("nt", [13, 25, 40, 130])
    index = ch.free("time_index", [12, 24, -1, -13, 99])
    hole = ch.free("missing", ["nothing", "T", "S", "V", "T and S"])
    when = ch.free("missing at", ["the reference", "the first time", "every other time", "all times"])
    dup = ch.free("time axis", ["number", "every time twice", "all the same", "none"])
    if not -nt <= index < nt or (hole == "nothing" and when != "all times"):
        ch.prune()
    ds, a = ocean(nt, 2, 1, 2)
    i = index % nt
    at = {"the reference": i, "the first time": 0, "every other time": [t for t in range(nt) if t != i], "all times": slice(None)}[when]
    for k, n in (("T", "thetao"), ("S", "so"), ("V", "volcello")):
        if k in hole and hole != "nothing":
            a[k][at, 1, 0, 0] = np.nan
            ds[n] = ds[n].copy(data=a[k])
    if dup == "none":
        ds = ds.drop_vars("time")
    elif dup != "number":
        ds = ds.assign_coords(time=np.arange(nt) // (2 if dup == "every time twice" else nt))
    want = model.reference_state(eos, a["T"], a["S"], a["V"], a["z_l"], 101325.0, i)
    ch.state(ds, eos, index)
    ref = ch.call(setup_reference_state, ds, eos=eos, time_index=index)
    check_reference(ch, "reference", ref, want, a["A"], ds)


def no_such_time(ch):
    """A time level the data do not have is an error, not another level."""
    eos = ch.free("eos", ["Wright", "linear"])
    nt = ch.free("nt", [1, 2, 3, 12])
    over = ch.free("beyond", [0, 1, 2, 7, 12])
    side = ch.free("side", ["after", "before"])
    land = ch.free("land", ["none", "column"])
    ds, a = ocean(nt, 2, 2, 2, land=land)
    index = nt + over if side == "after" else -nt - 1 - over
    ch.state(ds, eos, index)
    ch.rejects("no such time", setup_reference_state, ds, eos=eos, time_index=index)


def reuse_and_zero(ch):
    """Change relative to a time level is zero at that level; the returned reference is the
    one used, and handing it back (also through a file) changes nothing."""
    variant = ch.free("variant", VARIANTS)
    eos = ch.free("eos", ["Wright", "linear"])
    domain = ch.free("domain", ["local", "global"])
    nt = ch.pick("nt", [3, 1, 2])
    nz = ch.pick("nz", [2, 1, 4])
    ny, nx = ch.pick("ny,nx", [(2, 2), (1, 1), (3, 2)])
    values = ch.pick("values", ["mixed", "polar", "fresh", "hot", "tiny"])
    land = ch.pick("land", ["none", "column", "bottom", "cavity", "one wet"])
    patm = ch.pick("patm", [101325.0, 0.0, 2.0e5])
    index = ch.pick("time_index", [0, 1, -1, 2])
    if not -nt <= index < nt:
        ch.prune()
    via = ch.pick("reference travels", ["in memory", "netcdf", "copy"])
    coords2d = ch.pick("coords2d", [False, True])
    ds, a = ocean(nt, nz, ny, nx, values, land=land, coords2d=coords2d)
    want = model.reference_state(eos, a["T"], a["S"], a["V"], a["z_l"], patm, index)
    if not want["volo"] > 0:
        ch.prune()
    kw = dict(equation_of_state=eos, domain=domain, patm=patm)
    ch.state(ds, repr(kw), index)
    if index == 0:
        res1, ref1 = run_variant(ch, variant, "wrapper", ds, **kw)
        check_reference(ch, "returned reference", ref1, want, a["A"], ds)
    else:
        ref1 = ch.call(setup_reference_state, ds, patm=patm, eos=eos, time_index=index)
        res1 = None
    if via == "netcdf":
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "ref.nc")
            ref1.to_netcdf(f)
            ref2 = xr.load_dataset(f)
    elif via == "copy":
        ref2 = ref1.copy(deep=True)
    else:
        ref2 = ref1
    res2, ref3 = run_variant(ch, variant, "wrapper", ds, reference=ref2, **kw)
    if res1 is not None:
        for v in res1.data_vars:
            ch.close(f"{v} with the reference handed back", res2[v], res1[v], 0.0, 0.0)
    for v in VARS:
        ch.close(f"reference {v} comes back unchanged", ref3[v], ref1[v], 0.0, 0.0)
    at = res2[variant].isel(time=index)
    vals = at.values[~np.isnan(at.values)] if at.ndim else np.array([float(at)])
    scale = 1.0 if domain == "local" else float(ref1["volo"] / ref1["areacello"].sum())
    ch.close("change at the reference time", vals, np.zeros_like(vals), 0.0, 1e-9 * scale)
    wet = ~np.isnan(want["vol"][0])
    if domain == "local":
        ch.equal("wet columns", (~np.isnan(at.values)).tolist(), wet.tolist())


SCENARIOS = [Scenario(reference_fields, 2, 3), Scenario(later_times, 0), Scenario(no_such_time, 0), Scenario(reuse_and_zero, 2, 3)]
ASSUMPTIONS = ["grids up to 6 x 6 x 4 x 3, axes of 40 times, 60 levels or 60 points; patm scalar, a row, a column or a (y, x) field"]
