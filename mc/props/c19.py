"""C19 - linear detrending."""

import numpy as np
import xarray as xr

from momlevel import trend, util
from mc.core import Scenario
from mc.ocean import pattern
from mc.props.c18 import LAYOUTS, build, fits
from mc.props.common import any_rank
from mc.props.timeaxis import AXES, axis

UNITS = ["m", None, "yr-1", "kg m-2 s-1", "m s-1", "ns-1", "1", "W m-1 K-1"]


def expected(x, v, mode):
    m, line = fits(x, v)
    if mode == "remove":
        return v - line, line
    el = np.array([float(q) for q in x])
    return v - m[None] * el.reshape((-1,) + (1,) * (v.ndim - 1)), line


def detrended(ch):
    kind = ch.free("axis", AXES)
    mode = ch.free("mode", ["remove", "correct"])
    entry = ch.pick("entry", ["trend", "util"])
    dim = ch.pick("dimension", ["time", "z", "T"])
    nt = ch.pick("length", [9, 2, 3, 4, 40, 400])
    spacing = ch.pick("spacing", ["month", "day", "year", "uneven", "hour"])
    layout = ch.pick("layout", list(LAYOUTS))
    nan = ch.pick("missing", ["none", "one", "ends", "column", "scattered", "two left"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    units = ch.pick("units attribute", UNITS)
    start = ch.pick("start year", [1981, 1, 1900, 2199])
    form = ch.pick("object", ["DataArray", "Dataset"])
    scalar = ch.pick("scalar coordinate", [False, True])
    named = ch.pick("named", ["zos", "another name", "nothing"])
    if nan != "none" and (dtype == "i8" or nt < 9):
        ch.prune()
    if start == 1 and kind == "datetime64":
        ch.prune()
    if nt == 400 and spacing in ("year", "uneven"):
        ch.prune()  # beyond what 64-bit nanoseconds hold
    if start == 1 and dtype == "f4":
        ch.prune()  # slope times 2000 years cannot be held in four bytes
    da, v, x = build(ch, kind, dim, nt, spacing, layout, nan, dtype, start)
    da.attrs = {"long_name": "sea level"}
    if units is not None:
        da.attrs["units"] = units
    attrs = dict(da.attrs)
    if named != "zos":
        if form != "DataArray":
            ch.prune()
        da = da.rename("thetao" if named == "another name" else None)
    if scalar:
        da = da.assign_coords(member=3)
    fn = trend.linear_detrend if entry == "trend" else util.linear_detrend
    kw = {} if dim == "time" else {"dim": dim}
    if mode != "remove":
        kw["mode"] = mode
    static = xr.DataArray([1.0, 2.5, 9.0], dims="x", attrs={"units": "m"})
    if form == "Dataset":
        obj = xr.Dataset({"zos": da, "twice": da * 2.0 + 1.0, "static": static})
    else:
        obj = da
    ch.state(obj, mode)
    if ch.pick("arguments", ["by keyword", "by position"]) == "by position":
        got = ch.call(fn, obj, dim, 1, mode)
    else:
        got = ch.call(fn, obj, **kw)
    if layout == "t":
        v = v[:, 0, 1]
    want, line = expected(x, v, mode)
    sd = () if layout == "t" else ("y", "x")
    r = 3e-4 if dtype == "f4" else 1e-7
    a = r * (400 if dtype == "i8" else 10)
    if dtype == "f4" and mode == "correct":
        el = [abs(float(x[0])), abs(float(x[-1]))]
        a *= max(1.0, 10 * max(el) / float(abs(x[-1] - x[0])))
    elif mode == "correct":
        a += 1e-9 * float(np.nanmax(np.abs(want)))
    res = got if form == "DataArray" else got["zos"]
    ch.field("detrended", res, want, (dim,) + sd, r, a)
    ch.equal("name", res.name, da.name)
    for k, q in attrs.items():
        ch.equal(f"attribute {k}", res.attrs.get(k), q)
    ch.equal("axis", list(res[dim].values), list(da[dim].values))
    ch.equal("coordinates", set(res.coords), set(da.coords))
    if form == "Dataset":
        ch.equal("variables", set(got.data_vars), {"zos", "twice", "static"})
        ch.true("variable without the dimension passes through", got["static"].identical(obj["static"]))
        w2, _ = expected(x, (da * 2.0 + 1.0).transpose(dim, *sd).values.astype(float), mode)
        ch.field("second variable", got["twice"], w2, (dim,) + sd, r, 4 * a + 1e-6)
    # no trend is left
    if dtype == "f8" and spacing != "hour":
        again, _ = fits(x, res.transpose(dim, *sd).values.astype(float))
        span = float(abs(x[-1] - x[0]))
        scale = 1e-7 + 1e-9 * float(np.nanmax(np.abs(want)))
        ch.close("no trend left", again * span, np.where(np.isnan(again), np.nan, 0.0), 0, scale)


def every_missing_subset(ch):
    kind = ch.free("axis", AXES)
    mode = ch.free("mode", ["remove", "correct"])
    n = 7
    labels, x = axis(kind, n, "uneven", 1999)
    keep = [b for b in range(1 << n) if bin(b).count("1") >= 2]
    base = pattern((n,), -1.0, 2.0, 3)
    v = np.array([[base[k] if (b >> k) & 1 else np.nan for b in keep] for k in range(n)])
    da = xr.DataArray(v, dims=("time", "c"), coords={"time": labels}, name="a")
    ch.state(da)
    got = ch.call(trend.linear_detrend, da, mode=mode)
    want, _ = expected(x, v, mode)
    ch.field("detrended", got, want, ("time", "c"), 1e-6, 1e-6)


def line_invariance(ch):
    """Adding a line to a record does not change its residual; a line has none."""
    kind = ch.free("axis", AXES)
    c = ch.free("constant", [0.0, 100.0, -3.0])
    s = ch.free("rise over the record", [0.0, 1.0, -50.0])
    da, v, x = build(ch, kind, "time", 9, "uneven", "tyx", "scattered", "f8")
    el = np.array([float(q - x[0]) for q in x]) / float(x[-1] - x[0])
    ch.state(kind, c, s)
    line = xr.DataArray(c + s * el, dims="time", coords={"time": da["time"]})
    a = ch.call(trend.linear_detrend, da)
    b = ch.call(trend.linear_detrend, (da + line).rename("zos"))
    ch.field("residual", b, a.transpose("time", "y", "x").values, ("time", "y", "x"), 1e-7, 1e-7)
    z = ch.call(trend.linear_detrend, line.rename("q"))
    ch.field("residual of a line", z, np.zeros(9), ("time",), 0, 1e-7)
    z = ch.call(trend.linear_detrend, a)
    ch.field("twice is once", z, a.transpose("time", "y", "x").values, ("time", "y", "x"), 1e-7, 1e-7)


def nothing_to_detrend(ch):
    """Variables without the dimension pass through, whatever coordinates they carry."""
    value = ch.free("scalar coordinate", ["none", "number", "date", "text"])
    mode = ch.free("mode", ["remove", "correct"])
    dim = ch.free("dimension", ["time", "z"])
    n = ch.free("variables", [0, 1, 2])
    dtype = ch.free("dtype", ["f8", "i8", "bool", "str"])
    mixed = ch.free("next to", ["nothing", "a record"])
    labels, x = axis("noleap", 9, "month", 1999)
    data = {"f8": [1.0, np.nan], "i8": [1, 2], "bool": [True, False], "str": ["a", "b"]}[dtype]
    ds = xr.Dataset({f"v{k}": ("x", data, {"units": "m"}) for k in range(n)}, coords={"x": [5.0, 6.0]})
    if mixed == "a record":
        if value != "none":
            ch.prune()
        ds["zos"] = ((dim,), pattern((9,), 0.0, 1.0, 3))
        ds = ds.assign_coords({dim: labels, "member": 3})
    elif value != "none":
        ds = ds.assign_coords({dim: {"number": 3.0, "date": labels[0], "text": "then"}[value]})
    ch.state(ds, mode)
    kw = {} if dim == "time" else {"dim": dim}
    got = ch.call(trend.linear_detrend, ds, mode=mode, **kw)
    ch.equal("variables", set(got.data_vars), set(ds.data_vars))
    for k in range(n):
        ch.true("passes through", got[f"v{k}"].variable.identical(ds[f"v{k}"].variable), got[f"v{k}"])
    if mixed == "a record":
        want, _ = expected(x, ds["zos"].values, mode)
        ch.field("detrended", got["zos"], want, (dim,), 1e-7, 1e-7)


def refused(ch):
    mode = ch.free("mode", ["remove", "correct", "Remove", "", None, "removed"])
    order = ch.free("order", [1, 0, 2, 3, -1, 1.5, 0.5, 1 + 1e-6, None, "linear"])
    form = ch.free("object", ["DataArray", "Dataset", "numpy", "list"])
    da, v, x = build(ch, "noleap", "time", 9, "month", "tyx", "none", "f8")
    obj = {"DataArray": da, "Dataset": da.to_dataset(), "numpy": v, "list": [1.0, 2.0]}[form]
    ch.state(mode, order, form)
    if mode in ("remove", "correct") and order == 1 and form in ("DataArray", "Dataset"):
        ch.call(trend.linear_detrend, obj, order=order, mode=mode)
    else:
        ch.rejects("bad request", trend.linear_detrend, obj, order=order, mode=mode)


def many_points(ch):
    kind = ch.free("axis", AXES)
    size = ch.free("points", [(20, 30), (1, 700), (45, 90)])
    mode = ch.free("mode", ["remove", "correct"])
    scale = ch.free("magnitude", [1.0, 1e-8, 1e7])
    nt = 12
    labels, x = axis(kind, nt, "uneven", 1993)
    ny, nx = size
    v = pattern((nt, ny, nx), -2.0, 3.0, 5)
    k = np.arange(nt)[:, None, None] + 3 * np.arange(ny)[None, :, None] + 5 * np.arange(nx)[None, None, :]
    v = np.where(k % 4 == 1, np.nan, v) * scale
    da = xr.DataArray(v, dims=("time", "y", "x"), coords={"time": labels}, name="a", attrs={"units": "m"})
    ch.state(da, mode)
    got = ch.call(trend.linear_detrend, da, mode=mode)
    x0, span = x[0], float(x[-1] - x[0])
    el = np.array([float(q - x0) for q in x]) / span
    ok = ~np.isnan(v)
    e, w = np.where(ok, el[:, None, None], 0.0), np.where(ok, v, 0.0)
    em, wm = e.sum(0) / ok.sum(0), w.sum(0) / ok.sum(0)
    m = np.where(ok, (e - em) * (w - wm), 0.0).sum(0) / np.where(ok, (e - em) ** 2, 0.0).sum(0)
    if mode == "remove":
        want = v - wm - m * (el[:, None, None] - em)
        far = 1.0
    else:
        whole = np.array([float(q) for q in x]) / span
        want = v - m * whole[:, None, None]
        far = 1.0 + float(np.max(np.abs(whole)))
    ch.field("detrended", got, want, ("time", "y", "x"), 1e-7, 1e-8 * scale * far)


def any_rank_detrended(ch):
    """Arrays of two to six dimensions, time anywhere, alone and in a dataset."""
    kind = ch.free("axis", ["number", "noleap", "datetime64"])
    mode = ch.free("mode", ["remove", "correct"])
    form = ch.free("object", ["DataArray", "Dataset"])
    labels, x = axis(kind, 9, "uneven", 1993)
    v = pattern((9, 12), -2.0, 3.0, 5) + np.linspace(0, 1, 9)[:, None] * np.arange(12)
    v[4, 5] = v[0, 7] = np.nan
    da, back = any_rank(ch, v, labels)
    obj = da if form == "DataArray" else xr.Dataset({"a": da, "line": ("time", v[:, 1]), "still": ("q", [3.0, 4.0])})
    ch.state(obj, mode)
    got = ch.call(trend.linear_detrend, obj, mode=mode)
    want, _ = expected(np.asarray(x), v, mode)
    tol = 1e-7 + 1e-9 * float(np.nanmax(np.abs(want)))
    ch.close("detrended", back(got if form == "DataArray" else got["a"]), want, 1e-7, tol)
    if form == "Dataset":
        ch.field("another variable", got["line"], want[:, 1], ("time",), 1e-7, tol)
        ch.close("static variable", got["still"].values, [3.0, 4.0], 0.0)


SCENARIOS = [
    Scenario(many_points, 0),
    Scenario(detrended, 2, 3),
    Scenario(every_missing_subset, 0),
    Scenario(line_invariance, 0),
    Scenario(nothing_to_detrend, 0),
    Scenario(refused, 0),
    Scenario(any_rank_detrended, 0),
]
ASSUMPTIONS = [
    "axes: numeric, cftime in every calendar, datetime64, increasing; at least two non-missing "
    "values per series (or none)",
]
