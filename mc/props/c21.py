"""C21 - deseason."""

import numpy as np
import xarray as xr

from momlevel import trend
from mc import model
from mc.core import Scenario
from mc.ocean import pattern
from mc.props.common import any_rank
from mc.props.timeaxis import CALENDARS, cal_of, days, stamp
from mc.props.c20 import BASIS, design, project

LABELS = ["constant", "trend", "sin_annual", "cos_annual", "sin_semiannual", "cos_semiannual"]


def decimal(q, cal):
    """Decimal years since the first day: every day counts one over the length of its year."""
    t = [0.0]
    for y, _, _ in q[:-1]:
        t.append(t[-1] + 1.0 / model.year_days(y, cal))
    return np.array(t)


def compositions(n):
    """Every way to cut n into chunks."""
    out = []
    for bits in range(1 << (n - 1)):
        c, run = [], 1
        for k in range(n - 1):
            if (bits >> k) & 1:
                c.append(run)
                run = 1
            else:
                run += 1
        out.append(tuple(c + [run]))
    return out


def record(q, cal, kind, tname, layout, dtype, signal="mixed"):
    n = len(q)
    D = design(decimal(q, cal))
    v = pattern((n, 2, 3), -1.0, 1.0, 11)
    for k in range(6):
        v[:, k // 3, k % 3] += 3.0 * D[:, k]
    if signal != "mixed":
        v = np.repeat(D[:, BASIS.index(signal)], 6).reshape(n, 2, 3) * np.arange(1.0, 7.0).reshape(2, 3)
    if dtype == "i8":
        v = np.round(v * 100)
    v = v.astype(dtype)
    lab = np.array([stamp(y, m, d, kind, 12) for y, m, d in q], dtype=object)
    sd = {"t": (), "tx": ("x",), "xt": ("x",)}.get(layout, ("y", "x"))
    sel = {"t": (slice(None), 0, 1), "tx": (slice(None), 1), "xt": (slice(None), 1)}.get(layout, (slice(None),))
    v = v[sel]
    cs = {tname: lab}
    if "x" in sd:
        cs["x"] = [30.0, 10.0, 20.0]
    da = xr.DataArray(v, dims=(tname,) + sd, coords=cs, name="zos")
    da.attrs = {"units": "m", "long_name": "sea level", "standard_name": "ssh"}
    dims = {"tyx": (tname, "y", "x"), "yxt": ("y", "x", tname), "ytx": ("y", tname, "x"), "xt": ("x", tname)}
    return da.transpose(*dims.get(layout, (tname,) + sd)), v.astype(float), D, sd


def deseasoned(ch):
    kind = ch.free("calendar", CALENDARS)
    fmt = ch.free("output", ["residuals", "model", "coeff", None])
    start = ch.pick("first day", [(1999, 1, 1), (2000, 1, 1), (2003, 7, 9), (1899, 12, 30), (3, 2, 28), (2000, 2, 29), (1499, 6, 1), (1500, 1, 1), (2099, 11, 5)])
    n = ch.pick("days", [731, 366, 1500, 500, 365, 367, 4000])
    layout = ch.pick("layout", ["tyx", "t", "yxt", "ytx", "tx", "xt"])
    tname = ch.pick("time name", ["time", "T"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    signal = ch.pick("signal", ["mixed"] + BASIS)
    chunk = ch.pick("chunks", [None, "one", "time", "x", "y", "all"])
    nan = ch.pick("missing", ["none", "one point"])
    attrs = ch.pick("attributes", ["all", "none"])
    memory = ch.pick("memory", ["C", "F", "reversed", "strided"])
    cal = cal_of(kind)
    if start[1:] == (2, 29) and not model.is_leap(start[0], cal):
        start = (start[0], 3, 1)
    q = days(start, n, cal)
    da, v, D, sd = record(q, cal, kind, tname, layout, dtype, signal)
    if attrs == "none":
        da.attrs = {}
    if memory == "F":
        da = da.copy(data=np.asfortranarray(da.values))
    elif memory == "reversed":
        da = da.copy(data=np.ascontiguousarray(da.values[..., ::-1])[..., ::-1])
    elif memory == "strided":
        da = da.copy(data=np.repeat(da.values, 2, axis=-1)[..., ::2])
    want = project(D, v)
    if nan != "none":
        if dtype == "i8" or layout == "t":
            ch.prune()
        da = da.copy(deep=True)
        da[{tname: n // 2, **{d: 1 for d in sd}}] = np.nan
        v = da.transpose(tname, *sd).values.astype(float)
    if chunk:
        spec = {"one": -1, "time": {tname: 97}, "x": {"x": 1}, "y": {"y": 1}, "all": 1}[chunk]
        if chunk == "all":
            spec = {tname: 200, **{d: 1 for d in sd}}
        if isinstance(spec, dict) and not set(spec) <= set(da.dims):
            ch.prune()
        da = da.chunk(spec)
    ch.state(da, fmt)
    kw = {} if tname == "time" else {"tdim": tname}
    if fmt:
        kw["output_format"] = fmt
    got = ch.call(trend.deseason, da, **kw)
    ch.true("lazy in, lazy out", (got.chunks is not None) == (chunk is not None))
    ch.true("argument left as it was", not attrs == "all" or "processing" not in da.attrs)
    r = 1e-4 if dtype == "f4" else 1e-7
    a = r * (600 if dtype == "i8" else 8)
    ok = np.ones(v.shape[1:], bool) if nan == "none" else ~np.isnan(v).any(axis=0)
    if fmt == "coeff":
        ch.equal("labels", list(got["coeff"].values), LABELS)
        ch.equal("dims", set(got.dims), {"coeff"} | set(sd))
        c = got.transpose("coeff", *sd)
        total = sum(
            D[:, k].reshape((-1,) + (1,) * len(sd)) * c.sel(coeff=LABELS[k]).values for k in range(6)
        )
        ch.close("coefficients give the model", np.where(ok, total, 0), np.where(ok, want, 0), r, a)
        ch.true("no units on mixed coefficients", "units" not in got.attrs)
    else:
        w = want if fmt == "model" else v - want
        ch.equal("dims", set(got.dims), {tname} | set(sd))
        g = got.transpose(tname, *sd).values
        ch.close(fmt or "residuals", np.where(ok, g, 0), np.where(ok, w, 0), r, a)
        ch.equal("axis", list(got[tname].values), list(da[tname].values))
        ch.equal("units", got.attrs.get("units"), "m" if attrs == "all" else None)
    if "x" in sd:
        ch.equal("x", list(got["x"].values), [30.0, 10.0, 20.0])


def every_chunking(ch):
    """Every way to cut the two spatial dimensions, with the time axis whole or cut."""
    cx = ch.free("x chunks", compositions(3))
    cy = ch.free("y chunks", compositions(2))
    ct = ch.free("time chunks", [(400,), (200, 200), (399, 1), (1, 399), (100, 150, 150)])
    layout = ch.free("layout", ["tyx", "yxt", "ytx"])
    fmt = ch.free("output", ["residuals", "model", "coeff"])
    q = days((1999, 6, 1), 400, "standard")
    da, v, D, sd = record(q, "standard", "standard", "time", layout, "f8")
    base = ch.call(trend.deseason, da, output_format=fmt)
    ch.state(cx, cy, ct, layout)
    got = ch.call(trend.deseason, da.chunk({"x": cx, "y": cy, "time": ct}), output_format=fmt)
    ch.true("stays lazy", got.chunks is not None)
    ch.equal("dims", got.dims, base.dims)
    ch.close("values", got.values, base.values, 1e-9, 1e-9)


def identity(ch):
    """residual + model == input, and any multiple of a basis signal leaves nothing."""
    kind = ch.free("calendar", CALENDARS)
    which = ch.free("signal", BASIS)
    start = ch.free("first day", [(1999, 1, 1), (2000, 3, 1), (1903, 12, 31), (1896, 1, 1)])
    cal = cal_of(kind)
    if cal == "360_day" and start[2] > 30:
        start = (start[0], start[1], 30)
    q = days(start, 900, cal)
    da, v, D, sd = record(q, cal, kind, "time", "tyx", "f8")
    s = xr.DataArray(5.0 * D[:, BASIS.index(which)], dims="time", coords={"time": da["time"]})
    ch.state(da)
    r0 = ch.call(trend.deseason, da)
    m0 = ch.call(trend.deseason, da, output_format="model")
    ch.field("residual plus model", r0 + m0, v, ("time", "y", "x"), 1e-9, 1e-9)
    r1 = ch.call(trend.deseason, da + s)
    ch.field("residual", r1, r0.transpose("time", "y", "x").values, ("time", "y", "x"), 1e-7, 1e-7)
    r2 = ch.call(trend.deseason, s)
    ch.close("nothing left", r2.values, np.zeros(900), 0, 1e-7)


def refused(ch):
    fmt = ch.free("output", ["residuals", "Residuals", "", None, "coefficients", "models"])
    tdim = ch.free("time dimension", ["time", "t", "Time"])
    lazy = ch.free("lazy", [False, True])
    obj = ch.free("object", ["DataArray", "numpy", "Dataset"])
    q = days((1999, 1, 1), 400, "noleap")
    da, v, D, sd = record(q, "noleap", "noleap", "time", "tyx", "f8")
    if lazy:
        da = da.chunk({"x": 1})
    ch.state(fmt, tdim, lazy, obj)
    o = {"DataArray": da, "numpy": v, "Dataset": da.to_dataset()}[obj]
    if fmt == "residuals" and tdim == "time" and obj == "DataArray":
        ch.call(trend.deseason, o, tdim=tdim, output_format=fmt)
    else:
        ch.rejects("bad request", trend.deseason, o, tdim=tdim, output_format=fmt)


def many_points(ch):
    kind = ch.free("calendar", CALENDARS)
    size = ch.free("points", [(1, 1), (20, 30), (1, 300)])
    fmt = ch.free("output", ["residuals", "model", "coeff"])
    scale = ch.free("magnitude", [1.0, 1e-8, 1e7])
    cal = cal_of(kind)
    q = days((1998, 11, 3), 400, cal)
    D = design(decimal(q, cal))
    v = (pattern((400,) + size, -1.0, 1.0, 11) + 3.0 * D[:, 2, None, None] + 5.0) * scale
    lab = np.array([stamp(y, m, d, kind, 12) for y, m, d in q], dtype=object)
    da = xr.DataArray(v, dims=("time", "y", "x"), coords={"time": lab}, name="a")
    ch.state(kind, size, fmt, scale)
    got = ch.call(trend.deseason, da, output_format=fmt)
    c, *_ = np.linalg.lstsq(D, v.reshape(400, -1), rcond=None)
    if fmt == "coeff":
        ch.field("coefficients", got, c.reshape((6,) + size), ("coeff", "y", "x"), 1e-6, 1e-6 * scale)
    else:
        m = (D @ c).reshape(v.shape)
        ch.field(fmt, got, m if fmt == "model" else v - m, ("time", "y", "x"), 1e-7, 1e-7 * scale)


def any_rank_deseasoned(ch):
    """Arrays of two to six dimensions, time anywhere, in memory and lazy."""
    fmt = ch.free("output", ["residuals", "model", "coeff"])
    lazy = ch.free("lazy", [False, True])
    q = days((1998, 11, 3), 400, "noleap")
    D = design(decimal(q, "noleap"))
    v = pattern((400, 12), -1.0, 1.0, 11) + D[:, 2, None] * np.arange(12)
    lab = np.array([stamp(y, m, d, "noleap", 12) for y, m, d in q], dtype=object)
    da, back = any_rank(ch, v, lab)
    if lazy:
        da = da.chunk({d: 1 for d in da.dims if d != "time"})
    ch.state(da, fmt)
    got = ch.call(trend.deseason, da, output_format=fmt)
    c, *_ = np.linalg.lstsq(D, v, rcond=None)
    if fmt == "coeff":
        ch.close("coefficients", back(got, "coeff"), c, 1e-6, 1e-7)
    else:
        ch.close(fmt, back(got), D @ c if fmt == "model" else v - D @ c, 1e-7, 1e-7)


def long_records(ch):
    kind = ch.free("calendar", CALENDARS[:6])
    n = ch.free("days", [3700, 11000, 40000])
    fmt = ch.free("output", ["residuals", "model", "coeff"])
    lazy = ch.free("lazy", [False, True])
    cal = cal_of(kind)
    q = days((1871, 3, 1), n, cal)
    D = design(decimal(q, cal))
    v = np.stack([pattern((n,), -1.0, 1.0, 11) + D @ np.arange(6.0), 5.0 * D[:, 1]], 1)
    lab = np.array([stamp(y, m, d, kind, 12) for y, m, d in q], dtype=object)
    da = xr.DataArray(v, dims=("time", "x"), coords={"time": lab}, name="a")
    if lazy:
        da = da.chunk({"time": 3000})
    ch.state(kind, n, fmt, lazy)
    got = ch.call(trend.deseason, da, output_format=fmt)
    c, *_ = np.linalg.lstsq(D, v, rcond=None)
    if fmt == "coeff":
        ch.field("coefficients", got, c, ("coeff", "x"), 1e-8, 1e-8)
    else:
        ch.field(fmt, got, D @ c if fmt == "model" else v - D @ c, ("time", "x"), 1e-8, 1e-8)


SCENARIOS = [
    Scenario(long_records, 0),
    Scenario(many_points, 0),
    Scenario(deseasoned, 2, 3),
    Scenario(every_chunking, 0),
    Scenario(identity, 0),
    Scenario(refused, 0),
    Scenario(any_rank_deseasoned, 0),
]
ASSUMPTIONS = [
    "cftime axes in nine calendar names, 365 to 1500 consecutive days; a point with a missing "
    "value is not fitted (only its isolation from the others is checked)",
]
