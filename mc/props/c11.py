"""C11 - layer thickness with partial cells, tops and bottoms."""

import numpy as np
import xarray as xr

from momlevel import derived
from mc import model
from mc.core import Scenario

GRIDS = [
    [0.0, 5.0, 10.0, 20.0, 50.0, 100.0],
    [0.0, 10.0],
    [0.0, 1.0, 3.0],
    [0.0, 100.0, 101.0, 1000.0],
    [2.0, 4.0, 10.0],  # does not start at the surface
    [0.0, 5.0, 5.0, 12.5],  # a vanished layer
    [0.0, 0.25, 0.5, 1.75, 4.0, 4.5, 7.0, 12.0],
]


def lattice(zi):
    """Every interface, every midpoint, just around them, zero and beyond."""
    out = {0.0}
    for a, b in zip(zi[:-1], zi[1:]):
        out |= {a, b, 0.5 * (a + b), a + 0.25 * (b - a), a + 0.875 * (b - a)}
    out |= {zi[-1] * 1.5, zi[-1] * 10}
    return sorted(out)


def depth_field(zi, shape):
    vals = lattice(zi) + [np.nan]
    if shape == "1 x 1":
        return None
    n = len(vals)
    if shape == "row":
        return np.array(vals)[None, :]
    if shape == "column":
        return np.array(vals)[:, None]
    if n % 2:
        vals.append(zi[-1] * 0.3)
    return np.array(vals).reshape(2, -1)


def levels_of(zi):
    zi = np.asarray(zi)
    return 0.5 * (zi[1:] + zi[:-1])


def every_range(ch):
    """Every top and bottom of the lattice against every depth of the lattice."""
    g = ch.free("grid", list(range(len(GRIDS))))
    zi = GRIDS[g]
    lat = lattice(zi)
    if ch.tier == "quick" and len(zi) > 6:
        lat = lat[::2]
    top = ch.free("top", [None] + lat)
    bottom = ch.free("bottom", [None] + lat)
    fraction = ch.free("fraction", [False, True])
    shape = ch.pick("shape", ["2 rows", "row", "column"])
    names = ch.pick("names", [("z_l", "z_i", "yh", "xh"), ("lev", "ilev", "j", "i")])
    order = ch.pick("depth order", ["yx", "xy"])
    dtype = ch.pick("dtype", ["f8", "f4"])
    scalar = ch.pick("scalar coordinate", [False, True])
    ltype = ch.pick("type of the levels", ["f8", "f4", "i8"])
    itype = ch.pick("type of the interfaces", ["f8", "f4", "i8", "i4"])
    if itype[0] == "i" and any(z != int(z) for z in zi):
        ch.prune()
    D = depth_field(zi, shape)
    zl, zin, y, x = names
    D_ = D.astype(dtype).astype(float)
    lev = np.ceil(levels_of(zi)).astype(int) if ltype == "i8" else levels_of(zi).astype(ltype)
    levels = xr.DataArray(lev, dims=zl, coords={zl: lev}, name=zl)
    inter = xr.DataArray(np.array(zi).astype(itype), dims=zin, coords={zin: np.array(zi).astype(itype)}, name=zin)
    depth = xr.DataArray(
        D.astype(dtype), dims=(y, x), coords={y: np.arange(D.shape[0]), x: np.arange(D.shape[1])}
    )
    if scalar:
        depth = depth.assign_coords(member=3)
    if order == "xy":
        depth = depth.transpose(x, y)
    kw = {}
    if top is not None:
        kw["top"] = top
    if bottom is not None:
        kw["bottom"] = bottom
    if fraction:
        kw["fraction"] = True
    ch.state(levels, inter, depth, repr(kw))
    got = ch.call(derived.calc_dz, levels, inter, depth, **kw)
    args = (zi, D_, top or 0.0, bottom, fraction)
    want = model.layer_thickness(*args)
    r = 1e-6 if "f4" in (dtype, ltype, itype) else 1e-12
    listed = ("DZ-TOP", model.layer_thickness_listed(*args))
    ch.field("thickness", got, want, (zl, y, x), r, r * zi[-1], known=listed)
    if not fraction:
        v = got.transpose(zl, y, x).values
        ch.true("never negative, never missing", (v >= 0).all())
        full = np.diff(zi)[:, None, None]
        ch.true("never thicker than the layer", (v <= full * (1 + 1e-6)).all())
    ch.equal("level labels", list(got[zl].values), list(levels.values))


def consecutive_ranges_tile(ch):
    """Adjacent depth ranges that meet at an interface add up to the whole."""
    g = ch.free("grid", list(range(len(GRIDS))))
    zi = GRIDS[g]
    cut = ch.free("cut at interface", zi[1:-1] or [zi[-1]])
    D = depth_field(zi, "2 rows")
    levels = xr.DataArray(levels_of(zi), dims="z_l", coords={"z_l": levels_of(zi)})
    inter = xr.DataArray(np.array(zi), dims="z_i", coords={"z_i": np.array(zi)})
    depth = xr.DataArray(D, dims=("yh", "xh"))
    ch.state(g, cut)
    a = ch.call(derived.calc_dz, levels, inter, depth, bottom=cut)
    b = ch.call(derived.calc_dz, levels, inter, depth, top=cut)
    whole = ch.call(derived.calc_dz, levels, inter, depth)
    ch.close("upper + lower", (a + b).values, whole.values, 1e-12, 1e-12)
    col = np.clip(np.nan_to_num(D), zi[0], zi[-1]) - zi[0]
    ch.close("column height", whole.sum("z_l").values, np.maximum(col, 0), 1e-12, 1e-12)


def refuses_negative(ch):
    which = ch.free("negative", ["depth", "levels", "interfaces"])
    pos = ch.free("position", [0, 1, 2, 3])
    by = ch.free("value", [-1.0, -1e-9, -5000.0, -np.inf])
    nan = ch.free("missing depth elsewhere", [False, True])
    zi = np.array([0.0, 5.0, 10.0, 20.0, 50.0])
    zl = levels_of(zi)
    D = np.array([[10.0, 30.0], [0.0, 50.0]])
    if nan:
        D.flat[(pos + 1) % 4] = np.nan
    {"depth": D.ravel(), "levels": zl, "interfaces": zi}[which][pos] = by
    ch.state(which, pos, by, nan)
    ch.rejects(
        "negative " + which,
        derived.calc_dz,
        xr.DataArray(zl, dims="z_l", coords={"z_l": zl}),
        xr.DataArray(zi, dims="z_i", coords={"z_i": zi}),
        xr.DataArray(D, dims=("yh", "xh")),
    )


def many_layers(ch):
    """A model-like grid: many layers, many columns."""
    nz = ch.free("layers", [35, 75, 120])
    zi = list(np.cumsum([0.0] + [2.0 + 0.75 * k for k in range(nz)]))
    mid = zi[nz // 2]
    top = ch.free("top", [None, 0.0, zi[1], 0.5 * (zi[3] + zi[4]), mid, zi[-2] + 0.5, zi[-1], zi[-1] + 10.0])
    bottom = ch.free("bottom", [None, zi[2], zi[5] + 0.25, mid, mid + 0.5, zi[-1], zi[-1] * 2])
    fraction = ch.free("fraction", [False, True])
    vals = np.array(lattice(zi) + [np.nan])
    vals = vals[: len(vals) // 6 * 6].reshape(6, -1)
    levels = xr.DataArray(levels_of(zi), dims="z_l", coords={"z_l": levels_of(zi)}, name="z_l")
    inter = xr.DataArray(np.array(zi), dims="z_i", coords={"z_i": np.array(zi)}, name="z_i")
    depth = xr.DataArray(vals, dims=("yh", "xh"))
    kw = dict(fraction=fraction)
    if top is not None:
        kw["top"] = top
    if bottom is not None:
        kw["bottom"] = bottom
    ch.state(nz, repr(kw))
    got = ch.call(derived.calc_dz, levels, inter, depth, **kw)
    d = np.nan_to_num(vals)
    d = d if bottom is None else np.minimum(d, bottom)
    lo = np.array(zi[:-1])[:, None, None]
    hi = np.array(zi[1:])[:, None, None]
    t = top or 0.0
    want = np.maximum(0.0, np.minimum(hi, d) - np.maximum(lo, t))
    listed = np.minimum(np.minimum(np.maximum(0.0, d - lo), hi - lo), np.maximum(0.0, hi - t))
    if fraction:
        want, listed = (np.where(v == 0, np.nan, v / (hi - lo)) for v in (want, listed))
    ch.field("thickness", got, want, ("z_l", "yh", "xh"), 1e-12, 1e-12 * zi[-1], known=("DZ-TOP", listed))


def slivers(ch):
    """Cells that are almost empty or almost full, and layers of every thickness."""
    zi = ch.free("grid", [(0.0, 5.0, 10.0, 20.0), (0.0, 1e-3, 2e-3, 5.0), (0.0, 2000.0, 2000.0005, 9000.0), (0.0, 1e-6, 1.0)])
    zi = list(zi)
    eps = ch.free("sliver", [1e-9, 1e-6, 1e-4, 5e-3, 0.05])
    fraction = ch.free("fraction", [False, True])
    bottom = ch.free("bottom", ["none", "sliver below", "sliver above", "bottom"])
    at = ch.free("interface", list(range(len(zi))))
    vals = sorted({max(0.0, z + s * eps) for z in zi for s in (-1, 0, 1)})
    levels = xr.DataArray(levels_of(zi), dims="z_l", coords={"z_l": levels_of(zi)}, name="z_l")
    inter = xr.DataArray(np.array(zi), dims="z_i", coords={"z_i": np.array(zi)}, name="z_i")
    D = np.array([vals, vals[::-1]])
    kw = {"fraction": True} if fraction else {}
    b = {"none": None, "sliver below": zi[at] + eps, "sliver above": zi[at] - eps, "bottom": zi[at]}[bottom]
    if b is not None:
        if b < 0:
            ch.prune()
        kw["bottom"] = b
    ch.state(zi, eps, repr(kw))
    got = ch.call(derived.calc_dz, levels, inter, xr.DataArray(D, dims=("yh", "xh")), **kw)
    want = model.layer_thickness(zi, D, 0.0, b, fraction)
    ulp = 1e-15 * zi[-1]
    ch.field("thickness", got, want, ("z_l", "yh", "xh"), 1e-12, ulp / min(np.diff(zi)) if fraction else ulp)


SCENARIOS = [
    Scenario(slivers, 0),
    Scenario(every_range, 1, 3),
    Scenario(many_layers, 0),
    Scenario(consecutive_ranges_tile, 0),
    Scenario(refuses_negative, 0),
]
ASSUMPTIONS = [
    "seven interface grids up to 7 layers and three with 35 to 120; depth, top and bottom at every interface, quarter, "
    "mid and 7/8 point of every layer, zero and beyond the grid"
]
