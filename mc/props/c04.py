"""C04 - land and missing cells: every mask of a small grid."""

import math

import numpy as np

from momlevel import derived
from mc import model
from mc.core import Scenario
from mc.ocean import ocean
from mc.props.common import VARIANTS, run_variant


def every_land_mask(ch):
    """All 256 masks of a 2 x 2 x 2 grid, for each variant and domain."""
    variant = ch.free("variant", VARIANTS)
    mask = ch.free("mask", list(range(255)))  # 255 = no ocean
    domain = ch.free("domain", ["local", "global"])
    eos = ch.pick("eos", ["Wright", "linear"])
    depth = ch.pick("depth", ["full", "partial", "nan", "zero"])
    where = ch.pick("masked fields", ["T, S and volume", "volume only"])
    ds, a = ocean(2, 2, 2, 2, depth=depth, land=mask if where != "volume only" else "none")
    V = a["V"]
    m = np.array([(mask >> b) & 1 for b in range(8)], bool).reshape(2, 2, 2)
    V[:, m] = np.nan
    ds["volcello"] = ds["volcello"].copy(data=V)
    ch.state(ds, variant, domain, eos)
    res, ref = run_variant(
        ch, variant, "wrapper", ds, equation_of_state=eos, domain=domain
    )
    want = model.reference_state(eos, a["T"], a["S"], V, a["z_l"], 101325.0)
    ch.field("volo", ref["volo"], want["volo"], (), 1e-12)
    ch.field("masso", ref["masso"], want["masso"], (), 1e-11)
    ch.field("rhoga", ref["rhoga"], want["rhoga"], (), 1e-11)
    if domain == "local":
        h, dr = model.steric_local(
            eos, a["T"], a["S"], a["z_l"], a["z_i"], a["D"], 101325.0, 1035.0, want, variant
        )
        ch.field("height", res[variant], h, ("time", "yh", "xh"), 1e-9, 1e-8)
        ch.field(
            "delta_rho", res["delta_rho"], dr, ("time", "z_l", "yh", "xh"), 1e-9, 1e-9
        )
    else:
        g, _ = model.steric_global(
            eos, a["T"], a["S"], a["z_l"], 101325.0, want, a["A"], variant
        )
        scale = want["volo"] / a["A"].sum()
        ch.field("height", res[variant], g, ("time",), 1e-9, 1e-12 * scale)


def missing_in_time(ch):
    """Any subset of the cells of one column missing at one later time: they drop out of
    that time only, and no other column or time notices."""
    variant = ch.free("variant", VARIANTS)
    bits = ch.free("missing T (2 levels x 2 columns)", list(range(16)))
    sbits = ch.free("missing S", [0, 1, 2, 4, 8, 15])
    when = ch.free("time", [1, 2])
    eos = ch.pick("eos", ["Wright", "linear"])
    ds, a = ocean(3, 2, 1, 2, depth="full")
    T, S = a["T"], a["S"]
    T[when].ravel()[[b for b in range(4) if bits >> b & 1]] = np.nan
    S[when].ravel()[[b for b in range(4) if sbits >> b & 1]] = np.nan
    ds["thetao"] = ds["thetao"].copy(data=T)
    ds["so"] = ds["so"].copy(data=S)
    ch.state(ds, variant, eos)
    ref = model.reference_state(eos, T, S, a["V"], a["z_l"], 101325.0)
    res, _ = run_variant(ch, variant, "wrapper", ds, equation_of_state=eos)
    h, dr = model.steric_local(
        eos, T, S, a["z_l"], a["z_i"], a["D"], 101325.0, 1035.0, ref, variant
    )
    ch.field("height", res[variant], h, ("time", "yh", "xh"), 1e-9, 1e-8)
    ch.field("delta_rho", res["delta_rho"], dr, ("time", "z_l", "yh", "xh"), 1e-9, 1e-9)


def missing_in_time_globally(ch):
    """The same for the global mean: the other times do not notice."""
    variant = ch.free("variant", VARIANTS)
    bits = ch.free("missing T (2 levels x 2 columns)", list(range(1, 16)))
    sbits = ch.free("missing S", [0, 1, 15])
    when = ch.free("time", [1, 2])
    eos = ch.pick("eos", ["Wright", "linear"])
    ds, a = ocean(3, 2, 1, 2, depth="full")
    T, S = a["T"], a["S"]
    T[when].ravel()[[b for b in range(4) if bits >> b & 1]] = np.nan
    S[when].ravel()[[b for b in range(4) if sbits >> b & 1]] = np.nan
    ds["thetao"] = ds["thetao"].copy(data=T)
    ds["so"] = ds["so"].copy(data=S)
    ch.state(ds, variant, eos)
    ref = model.reference_state(eos, T, S, a["V"], a["z_l"], 101325.0)
    res, got = run_variant(
        ch, variant, "wrapper", ds, equation_of_state=eos, domain="global"
    )
    other = [t for t in range(3) if t != when]
    g, height = model.steric_global(
        eos, T[other], S[other], a["z_l"], 101325.0, ref, a["A"], variant
    )
    have = res[variant].isel(time=other)
    ch.field("height at the other times", have, g, ("time",), 1e-9, 1e-12 * height)
    ch.field("volo", got["volo"], ref["volo"], (), 1e-12)
    ch.field("masso", got["masso"], ref["masso"], (), 1e-11)


def every_column(ch):
    """One column of three levels: every pattern of missing reference volume, and of
    temperature and salinity missing at the reference and at the later time."""
    vbits = ch.free("volume", list(range(8)))
    t0 = ch.free("T at the reference", list(range(8)))
    t1 = ch.free("T later", list(range(8)))
    sbits = ch.free("S (both)", [0, 2, 7])
    variant = ch.pick("variant", VARIANTS)
    depth = ch.pick("depth", ["full", "partial", "shallow"])
    ds, a = ocean(2, 3, 1, 2, depth=depth)
    T, S, V = a["T"], a["S"], a["V"]
    for k in range(3):
        if vbits >> k & 1:
            V[:, k, 0, 0] = np.nan
        if t0 >> k & 1:
            T[0, k, 0, 0] = np.nan
        if t1 >> k & 1:
            T[1, k, 0, 0] = np.nan
        if sbits >> k & 1:
            S[:, k, 0, 0] = np.nan
    for n, v in (("thetao", T), ("so", S), ("volcello", V)):
        ds[n] = ds[n].copy(data=v)
    ch.state(ds, variant)
    ref = model.reference_state("Wright", T, S, V, a["z_l"], 101325.0)
    res, got = run_variant(ch, variant, "wrapper", ds)
    h, dr = model.steric_local(
        "Wright", T, S, a["z_l"], a["z_i"], a["D"], 101325.0, 1035.0, ref, variant
    )
    ch.field("height", res[variant], h, ("time", "yh", "xh"), 1e-9, 1e-8)
    ch.field("delta_rho", res["delta_rho"], dr, ("time", "z_l", "yh", "xh"), 1e-9, 1e-9)
    ch.field("volo", got["volo"], ref["volo"], (), 1e-12)
    ch.field("masso", got["masso"], ref["masso"], (), 1e-11)


def vanished(ch):
    """Cells of a small grid with volume, without volume (zero) or missing: every pattern. A cell
    without volume is water all the same; only a missing one is land."""
    variant = ch.free("variant", VARIANTS)
    domain = ch.free("domain", ["local", "global"])
    cells = [ch.free(f"cell {k}", ["volume", "zero", "missing"]) for k in range(4)]
    when = ch.free("zero", ["always", "at the reference"])
    if "zero" not in cells or (when != "always" and domain == "global"):
        ch.prune()
    ds, a = ocean(2, 2, 1, 3, depth="full")
    V = a["V"]
    for k, c in enumerate(cells):
        V[:, k // 2, 0, k % 2] = np.nan if c == "missing" else V[:, k // 2, 0, k % 2]
        if c == "zero":
            V[0 if when != "always" else slice(None), k // 2, 0, k % 2] = 0.0
    ds["volcello"] = ds["volcello"].copy(data=V)
    ch.state(ds, variant, domain)
    ref = model.reference_state("Wright", a["T"], a["S"], V, a["z_l"], 101325.0)
    res, got = run_variant(ch, variant, "wrapper", ds, domain=domain)
    if domain == "local":
        h, dr = model.steric_local("Wright", a["T"], a["S"], a["z_l"], a["z_i"], a["D"], 101325.0, 1035.0, ref, variant)
        ch.field("height", res[variant], h, ("time", "yh", "xh"), 1e-9, 1e-8)
        ch.field("delta_rho", res["delta_rho"], dr, ("time", "z_l", "yh", "xh"), 1e-9, 1e-9)
    else:
        g, height = model.steric_global("Wright", a["T"], a["S"], a["z_l"], 101325.0, ref, a["A"], variant)
        ch.field("height", res[variant], g, ("time",), 1e-9, 1e-12 * height)
    ch.field("volo", got["volo"], ref["volo"], (), 1e-12)
    ch.field("masso", got["masso"], ref["masso"], (), 1e-11)
    ch.field("rhoga", got["rhoga"], ref["rhoga"], (), 1e-11)


def totals_skip_missing(ch):
    """Total volume, total mass and mean density over every subset of missing cells."""
    shape = ch.free("z,y,x", [(1, 1, 2), (2, 1, 2), (2, 2, 2)])
    n = int(np.prod(shape))
    rbits = ch.free("missing rho", list(range(2**n)))
    vbits = ch.free("missing volume", [0, 1, 2**n - 1, (2**n - 1) // 3, 2 ** (n - 1)])
    timed = ch.free("time dimension", ["none", "rho", "both", "volume"])
    tname = ch.pick("time name", ["time", "T"])
    import xarray as xr
    from mc.ocean import pattern

    dims = ("z_l", "yh", "xh")
    rho = pattern(shape, 1000.0, 1050.0, 1)
    vol = pattern(shape, 1.0, 2.0e12, 2)
    rho.ravel()[[b for b in range(n) if rbits >> b & 1]] = np.nan
    vol.ravel()[[b for b in range(n) if vbits >> b & 1]] = np.nan
    rho_t = np.stack([rho, rho + 1.0, rho * 1.5]) if timed in ("rho", "both") else rho
    vol_t = np.stack([vol, vol * 2, vol + 3]) if timed in ("both", "volume") else vol
    R = xr.DataArray(rho_t, dims=((tname,) if rho_t.ndim == 4 else ()) + dims)
    V = xr.DataArray(vol_t, dims=((tname,) if vol_t.ndim == 4 else ()) + dims)
    ch.state(R, V)
    volo = ch.call(derived.calc_volo, xr.DataArray(vol, dims=dims))
    ch.field(
        "volume", volo, math.fsum(v for v in vol.ravel() if not np.isnan(v)), (), 1e-12
    )
    kw = {} if tname == "time" else {"tcoord": tname}
    m = ch.call(derived.calc_masso, R, V, **kw)
    prod = rho_t * vol_t
    if timed == "none":
        want = math.fsum(v for v in prod.ravel() if not np.isnan(v))
        ch.field("mass", m, want, (), 1e-12)
    else:
        prod = np.broadcast_to(prod, (3,) + shape)
        want = [math.fsum(v for v in q.ravel() if not np.isnan(v)) for q in prod]
        ch.field("mass", m, want, (tname,), 1e-12)
    if float(volo) > 0:
        ga = ch.call(derived.calc_rhoga, m, volo)
        ch.close("mean density", ga, np.asarray(want) / float(volo), 1e-12)


SCENARIOS = [
    Scenario(every_land_mask, 1, 3),
    Scenario(missing_in_time, 1, 1),
    Scenario(missing_in_time_globally, 1, 1),
    Scenario(every_column, 0, 2),
    Scenario(vanished, 0),
    Scenario(totals_skip_missing, 1, 1),
]
ASSUMPTIONS = ["every mask of a 2 x 2 x 2 grid with at least one ocean cell"]
