"""Pieces shared by the steric scenarios."""

import numpy as np
import xarray as xr

import momlevel
from mc import model
from mc.ocean import ocean, pattern, OCEAN_AREA

VARIANTS = ["steric", "thermosteric", "halosteric"]


def run_variant(ch, variant, how, ds, **kw):
    """All the ways a user can ask for the same thing."""
    if how == "wrapper":
        fn = {
            "steric": momlevel.steric,
            "thermosteric": momlevel.thermosteric,
            "halosteric": momlevel.halosteric,
        }[variant]
        return ch.call(fn, ds, **kw)
    return ch.call(momlevel.steric, ds, variant=variant, **kw)


def handmade_reference(arr, eos, patm, salt=40, consistent=True):
    """A reference dataset built without momlevel; arr supplies shape and grid."""
    nz, ny, nx = arr["T"].shape[1:]
    ds, a = ocean(nt=1, nz=nz, ny=ny, nx=nx, salt=salt)
    ref = model.reference_state(eos, a["T"], a["S"], a["V"], arr["z_l"], patm)
    if not consistent:
        ref["rho"] = pattern((nz, ny, nx), 1020.0, 1040.0, 77)
        ref["rhoga"] = 1029.5
        ref["volo"] = ref["volo"] * 1.25
        ref["masso"] = 1.0
    return ref, a["A"] * 1.01  # not the area of the data, though close enough to be valid


def reference_dataset(ref, A, ds):
    dims = ("z_l", "yh", "xh")
    out = xr.Dataset(coords={d: ds[d] for d in dims})
    out["thetao"] = (dims, ref["T"])
    out["so"] = (dims, ref["S"])
    out["volcello"] = (dims, ref["vol"])
    out["rho"] = (dims, ref["rho"])
    out["areacello"] = (dims[1:], A)
    for k in ("volo", "masso", "rhoga"):
        out[k] = ((), ref[k])
    return out


def annual_mean(values, years, months, calendar):
    """values (t, ...): day-weighted mean per year, ignoring missing months."""
    out = []
    for y in sorted(set(years)):
        sel = [k for k, yy in enumerate(years) if yy == y]
        w = np.array([model.month_days(y, months[k], calendar) for k in sel], float)
        v = values[sel]
        w = w.reshape((-1,) + (1,) * (v.ndim - 1))
        ok = ~np.isnan(v)
        num = np.where(ok, v * w, 0.0).sum(0)
        den = np.where(ok, w, 0.0).sum(0)
        with np.errstate(all="ignore"):
            out.append(np.where(den > 0, num / np.where(den > 0, den, 1.0), np.nan))
    return np.array(out)


def check_coords(ch, what, got, ds, dims):
    for d in dims:
        ch.equal(f"{what} coordinate {d}", list(got[d].values), list(ds[d].values))


PATM = [
    "default", 0.0, 2.0e5, "field", "row", "column", "integer", "numpy",
    "in time", "in time and space",
]  # fmt: skip


def atmosphere(ch, kind, ds, nt, ny, nx, refkind):
    """Keyword arguments and (static, at each time) pressure, broadcastable to t,z,y,x."""
    kw = {}
    p = 101325.0
    now = None
    if kind == "field":
        p = 9.0e4 + 1.0e4 * np.arange(ny * nx).reshape(ny, nx)
        kw["patm"] = xr.DataArray(p, dims=("yh", "xh"), coords={"yh": ds.yh, "xh": ds.xh})
    elif kind == "row":
        p = 9.0e4 + 1.0e6 * np.arange(nx).reshape(1, nx)
        kw["patm"] = xr.DataArray(p[0], dims="xh")
    elif kind == "column":
        p = 9.0e4 + 1.0e6 * np.arange(ny).reshape(ny, 1)
        kw["patm"] = xr.DataArray(p[:, 0], dims="yh", coords={"yh": ds.yh})
    elif kind == "integer":
        p = kw["patm"] = 100000
    elif kind == "numpy":
        p = kw["patm"] = np.float64(1.5e6)
    elif kind == "in time":
        now = (9.0e4 + 1.0e6 * np.arange(nt)).reshape(nt, 1, 1, 1)
        kw["patm"] = xr.DataArray(now[:, 0, 0, 0], dims="time", coords={"time": ds.time})
    elif kind == "in time and space":
        now = (9.0e4 + 1.0e6 * np.arange(nt * ny * nx)).reshape(nt, 1, ny, nx)
        kw["patm"] = xr.DataArray(now[:, 0], dims=("time", "yh", "xh"))
    elif kind != "default":
        p = kw["patm"] = kind
    if now is not None and refkind == "auto":
        ch.prune()  # the reference would have to have one pressure
    return kw, p, p if now is None else now


SPACES = [
    (("z_l", 3), ("yh", 2), ("xh", 2)),
    (("ens", 2), ("z_l", 3), ("yh", 1), ("xh", 2)),
    (("run", 1), ("ens", 2), ("z_l", 2), ("yh", 3), ("xh", 1)),
    (("lon", 4), ("lat", 3)),
    (("site", 12),),
]


def any_rank(ch, v, labels, name="a", tname="time"):
    """(t, 12) series laid out over one to five more dimensions, time anywhere.

    Returns the array and the way back: result -> (leading, 12).
    """
    space = ch.free("other dimensions", SPACES)
    at = ch.free("time position", list(range(6)))
    marked = ch.free("coordinates", ["none", "all", "some"])
    if at > len(space):
        ch.prune()
    dims = [d for d, _ in space]
    cs = {tname: labels}
    for k, (d, n) in enumerate(space):
        if marked == "all" or (marked == "some" and k % 2 == 0):
            cs[d] = 10.0 * (k + 1) - 3.0 * np.arange(n)
    if marked == "all" and len(space) > 1:
        a, b = space[-2:]
        cs["geo"] = ((a[0], b[0]), pattern((a[1], b[1]), 0.0, 9.0, 2))
    da = xr.DataArray(v.reshape((len(v),) + tuple(n for _, n in space)), dims=[tname] + dims, coords=cs, name=name)
    order = dims[:at] + [tname] + dims[at:]

    def back(r, lead=tname):
        if set(r.dims) != set(dims) | ({lead} if lead else set()):
            ch.true("dimensions", False, str(r.dims))
        for d in dims:
            if d in cs:
                ch.equal(f"coordinate {d}", list(r[d].values), list(cs[d]))
        r = r.transpose(*([lead] if lead else []), *dims).values
        return r.reshape((-1, 12) if lead else 12)

    return da.transpose(*order), back


# ------------------------------------------------------------ datasets of mixed contents
MIXED = {
    "field": lambda t, v: (("time", "y", "x"), v.reshape(len(t), 2, 3)),
    "turned": lambda t, v: (("x", "time"), v[:, :3].T + 1.0),
    "line": lambda t, v: (("time",), v[:, 0] * 2.0),
    "whole": lambda t, v: (("time",), np.round(v[:, 1]).astype("i8")),
    "number": lambda t, v: ((), 3.5),
    "row": lambda t, v: (("q",), np.array([3.0, 7.0])),
    "map": lambda t, v: (("y", "x"), v[0].reshape(2, 3)),
    "block": lambda t, v: (("z", "y", "x"), v[:2].reshape(2, 2, 3)),
    "more": lambda t, v: (("w", "z", "y", "x"), v[:2].reshape(1, 2, 2, 3)),
    "counts": lambda t, v: (("q",), np.array([2, 4])),
}


def mixture(ch, t, v):
    """A dataset of any of these variables, at least one of them along time."""
    import xarray as xr

    there = [k for k in MIXED if ch.free(k, [True, False])]
    if not any("time" in MIXED[k](t, v)[0] for k in there):
        ch.prune()
    return there, xr.Dataset({k: MIXED[k](t, v) for k in there}, coords={"time": t})
