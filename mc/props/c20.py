"""C20 - the seasonal model."""

import numpy as np
import xarray as xr

from momlevel import trend
from mc.core import Scenario
from mc.ocean import pattern
from mc.props.common import any_rank
from mc.props.timeaxis import CALENDARS, cal_of, day_of_year, days, months, stamp

KINDS = CALENDARS + ["datetime64"]
BASIS = ["constant", "trend", "sin1", "cos1", "sin2", "cos2"]


def samples(kind, sampling, start, n):
    """[(y, m, d, hour)]"""
    cal = cal_of(kind)
    y0, m0, d0 = start
    if sampling == "daily":
        return [(*q, 0) for q in days(start, n, cal)]
    if sampling == "noon":
        return [(*q, 12) for q in days(start, n, cal)]
    if sampling == "6-hourly":
        q = days(start, n // 4 + 1, cal)
        return [(*q[k // 4], 6 * (k % 4)) for k in range(n)]
    if sampling == "monthly":
        return [(y, m, d0, 12) for y, m in months(y0, m0, n)]
    if sampling == "uneven":
        q = days(start, 12 * n, cal)
        return [(*q[(k * 11) + (k % 5)], (k * 5) % 24) for k in range(n)]
    raise KeyError(sampling)


def labels(kind, q):
    if kind == "datetime64":
        return np.array([f"{y:04d}-{m:02d}-{d:02d}T{h:02d}" for y, m, d, h in q], dtype="datetime64[ns]")
    return np.array([stamp(y, m, d, kind, h) for y, m, d, h in q], dtype=object)


def decimal(q, kind):
    cal = cal_of(kind)
    return np.array([y + (day_of_year(y, m, d, cal) - 1 + h / 24.0) / 365.0 for y, m, d, h in q])


def design(t):
    f = t - np.floor(t[0])
    w = 2 * np.pi
    return np.stack(
        [np.ones(len(t)), f - f.mean(), np.sin(w * f), np.cos(w * f), np.sin(2 * w * f), np.cos(2 * w * f)],
        axis=1,
    )


def project(D, v):
    """Least squares fit of the columns of v (t, ...)."""
    flat = v.reshape(len(D), -1)
    c, *_ = np.linalg.lstsq(D, flat, rcond=None)
    return (D @ c).reshape(v.shape)


def seasonal(ch):
    kind = ch.free("calendar", KINDS)
    sampling = ch.free("sampling", ["monthly", "daily", "noon", "6-hourly", "uneven"])
    start = ch.pick("start", [(1999, 1, 15), (2000, 3, 1), (1896, 12, 31), (2003, 7, 9), (4, 2, 27)])
    length = ch.pick("length", ["two years", "long", "just over a year", "one year"])
    layout = ch.pick("layout", ["tyx", "t", "yxt", "ytx", "tx"])
    tname = ch.pick("time name", ["time", "T", "day"])
    signal = ch.pick("signal", ["mixed"] + BASIS)
    coords = ch.pick("coordinates", ["dims", "none", "scalar", "2-d", "text"])
    nan = ch.pick("missing", ["none", "one point"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    attrs = ch.pick("attributes", ["all", "none"])
    want_model = ch.pick("model wanted", [True, False])
    backward = ch.pick("runs backward", [False, True])
    if start[0] == 4 and kind == "datetime64":
        ch.prune()
    if sampling == "monthly" and start[2] > 28:
        start = (start[0], start[1], 28)
    if kind == "360_day" and start[2] == 31:
        start = (start[0], start[1], 30)
    n = {
        "monthly": (24, 60, 15, 12),
        "daily": (730, 1500, 400, 365),
        "noon": (730, 1500, 400, 360),
        "6-hourly": (2920, 4000, 1600, 1460),
        "uneven": (66, 130, 36, 33),
    }[sampling][["two years", "long", "just over a year", "one year"].index(length)]
    q = samples(kind, sampling, start, n)
    if backward:
        q = q[::-1]
    t = decimal(q, kind)
    D = design(t)
    v = pattern((n, 2, 3), -1.0, 1.0, 11)
    for k in range(6):
        v[:, k // 3, k % 3] += 3.0 * D[:, k]
    if signal != "mixed":
        v = np.repeat(D[:, BASIS.index(signal)], 6).reshape(n, 2, 3) * np.arange(1.0, 7.0).reshape(2, 3)
    if dtype == "i8":
        v = np.round(v * 100)
    v = v.astype(dtype).astype(float)
    want = project(D, v)
    if nan == "one point":
        if dtype == "i8":
            ch.prune()
        v[n // 2, 1, 1] = np.nan
    lab = labels(kind, q)
    sd = {"t": (), "tx": ("x",)}.get(layout, ("y", "x"))
    sel = {"t": (slice(None), 0, 1), "tx": (slice(None), 1)}.get(layout, (slice(None),))
    vv, ww = v[sel], want[sel]
    cs = {tname: lab}
    if coords != "none":
        if "x" in sd:
            cs["x"] = ["a", "b", "c"] if coords == "text" else [30.0, 10.0, 20.0]
        if "y" in sd:
            cs["y"] = [-5.0, 5.0]
    if coords == "scalar":
        cs["lev"] = 0.5
    if coords == "2-d" and layout in ("tyx", "yxt", "ytx"):
        cs["geolon"] = (("y", "x"), pattern((2, 3), 0.0, 9.0, 2))
    da = xr.DataArray(vv.astype(dtype), dims=(tname,) + sd, coords=cs, name="zos")
    if attrs == "all":
        da.attrs = {"units": "m", "long_name": "sea level", "standard_name": "ssh"}
    dims = {"tyx": (tname, "y", "x"), "yxt": ("y", "x", tname), "ytx": ("y", tname, "x")}.get(layout, (tname,) + sd)
    da = da.transpose(*dims)
    ch.state(da)
    kw = {} if tname == "time" else {"tcoord": tname}
    r = 1e-4 if dtype == "f4" else 1e-7
    a = r * (600 if dtype == "i8" else 8)
    bad = np.isnan(vv).any(axis=0) if nan != "none" else None
    ok = np.ones(vv.shape, bool) if bad is None else np.broadcast_to(~bad, vv.shape)

    def cmp(what, got, w):
        if set(got.dims) != set((tname,) + sd):
            ch.true(what + " dims", False, str(got.dims))
        g = got.transpose(tname, *sd).values
        ch.close(what, np.where(ok, g, 0.0), np.where(ok, w, 0.0), r, a)

    if want_model:
        m, res = ch.call(trend.seasonal_model, da, return_model=True, **kw)
        cmp("model", m, ww)
        cmp("residual", res, vv - ww)
        g = (m + res).transpose(tname, *sd).values
        ch.close("model plus residual is the input", np.where(ok, g, 0), np.where(ok, vv, 0), r, a)
        names = ("ssh_smodel", "ssh_sresid") if attrs == "all" else ("smodel", "sresid")
        ch.equal("names", (m.attrs["standard_name"], res.attrs["standard_name"]), names)
        ch.equal("units", (m.attrs["units"], res.attrs["units"]), ("m", "m") if attrs == "all" else ("", ""))
    else:
        res = ch.call(trend.seasonal_model, da, **kw)
        cmp("residual", res, vv - ww)
    ch.equal("axis", list(res[tname].values), list(da[tname].values))
    if coords not in ("none",) and "x" in sd:
        ch.equal("x", list(res["x"].values), list(da["x"].values))


def basis_only(ch):
    """Each basis signal, alone and added to a record, in every calendar."""
    kind = ch.free("calendar", KINDS)
    sampling = ch.free("sampling", ["monthly", "daily", "uneven"])
    which = ch.free("signal", BASIS)
    start = ch.free("start", [(1999, 1, 1), (2000, 2, 28), (1904, 6, 15)])
    q = samples(kind, sampling, start, {"monthly": 40, "daily": 800, "uneven": 70}[sampling])
    D = design(decimal(q, kind))
    s = 7.0 * D[:, BASIS.index(which)]
    base = pattern((len(q),), -1.0, 1.0, 3)
    da = xr.DataArray(
        np.stack([s, base, base + s], 1), dims=("time", "x"), coords={"time": labels(kind, q)}, name="a"
    )
    ch.state(da)
    res = ch.call(trend.seasonal_model, da).transpose("time", "x").values
    ch.close("a basis signal leaves nothing", res[:, 0], np.zeros(len(q)), 0, 1e-7)
    ch.close("adding it changes no residual", res[:, 2], res[:, 1], 1e-7, 1e-7)


def short_records(ch):
    """Less than a year of samples still has one least squares fit."""
    kind = ch.free("calendar", KINDS)
    sampling = ch.free("sampling", ["daily", "6-hourly", "uneven"])
    n = ch.free("days", [90, 150, 200, 270, 330, 364, 380])
    start = ch.free("start", [(1999, 1, 1), (2000, 2, 28), (1904, 9, 15)])
    n = {"daily": n, "6-hourly": 4 * n, "uneven": n // 11}[sampling]
    q = samples(kind, sampling, start, n)
    D = design(decimal(q, kind))
    v = np.concatenate([7.0 * D, pattern((n, 3), -1.0, 1.0, 3)], 1)
    da = xr.DataArray(v, dims=("time", "x"), coords={"time": labels(kind, q)}, name="a")
    ch.state(da)
    m, res = ch.call(trend.seasonal_model, da, return_model=True)
    want = project(D, v)
    ch.field("model", m, want, ("time", "x"), 1e-6, 1e-6)
    ch.field("residual", res, v - want, ("time", "x"), 1e-6, 1e-6)


def many_points(ch):
    kind = ch.free("calendar", KINDS)
    sampling = ch.free("sampling", ["monthly", "daily", "uneven"])
    size = ch.free("points", [(20, 30), (1, 700), (45, 90)])
    scale = ch.free("magnitude", [1.0, 1e-8, 1e7])
    level = ch.free("level", [0.0, 1e3])
    q = samples(kind, sampling, (1999, 5, 1), {"monthly": 40, "daily": 400, "uneven": 50}[sampling])
    D = design(decimal(q, kind))
    n = len(q)
    v = (pattern((n,) + size, -1.0, 1.0, 11) + 3.0 * D[:, 2, None, None] + level) * scale
    ch.state(kind, sampling, size, scale, level)
    da = xr.DataArray(v, dims=("time", "y", "x"), coords={"time": labels(kind, q)}, name="a")
    m, res = ch.call(trend.seasonal_model, da, return_model=True)
    want = project(D, v)
    tol = 1e-7 * scale * (1 + level * 1e-1)
    ch.field("model", m, want, ("time", "y", "x"), 1e-7, tol)
    ch.field("residual", res, v - want, ("time", "y", "x"), 1e-7, tol)


def any_rank_seasonal(ch):
    """Arrays of two to six dimensions, time anywhere."""
    sampling = ch.free("sampling", ["monthly", "daily"])
    q = samples("noleap", sampling, (1999, 5, 1), {"monthly": 40, "daily": 400}[sampling])
    D = design(decimal(q, "noleap"))
    v = pattern((len(q), 12), -1.0, 1.0, 11) + D[:, 2, None] * np.arange(12)
    da, back = any_rank(ch, v, labels("noleap", q))
    ch.state(da)
    m, res = ch.call(trend.seasonal_model, da, return_model=True)
    want = project(D, v)
    ch.close("model", back(m), want, 1e-7, 1e-7)
    ch.close("residual", back(res), v - want, 1e-7, 1e-7)


def long_records(ch):
    kind = ch.free("calendar", KINDS)
    sampling, n = ch.free("sampling", [("monthly", 1800), ("daily", 3700), ("daily", 12000), ("noon", 36000), ("6-hourly", 20000)])
    q = samples(kind, sampling, (1871, 3, 1), n)
    D = design(decimal(q, kind))
    v = np.stack([pattern((n,), -1.0, 1.0, 11) + D @ np.arange(6.0), 5.0 * D[:, 1]], 1)
    da = xr.DataArray(v, dims=("time", "x"), coords={"time": labels(kind, q)}, name="a")
    ch.state(kind, sampling, n)
    m, res = ch.call(trend.seasonal_model, da, return_model=True)
    want = project(D, v)
    ch.field("model", m, want, ("time", "x"), 1e-8, 1e-8)
    ch.field("residual", res, v - want, ("time", "x"), 1e-8, 1e-8)


SCENARIOS = [Scenario(long_records, 0), Scenario(seasonal, 2, 3), Scenario(basis_only, 0), Scenario(short_records, 0), Scenario(many_points, 0), Scenario(any_rank_seasonal, 0)]
ASSUMPTIONS = [
    "ten axis kinds, monthly to 6-hourly and uneven sampling of 90 days to 5 years; a point with a "
    "missing value is not fitted (only its isolation from the others is checked)",
]
