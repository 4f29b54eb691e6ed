"""C18 - linear trends, unit conversion, broadcasting."""

import datetime
from fractions import Fraction

import numpy as np
import xarray as xr

import momlevel
from momlevel import trend
from mc import model
from mc.core import Scenario
from mc.ocean import pattern
from mc.props.common import any_rank
from mc.props.timeaxis import AXES, UNITS, DAY_NS, axis, cal_of, elapsed_ns

LAYOUTS = {
    "tyx": ("t", "y", "x"),
    "t": ("t",),
    "yxt": ("y", "x", "t"),
    "ytx": ("y", "t", "x"),
}


def unit_ns(u, dpm=30.417, dpy=365.0):
    return {
        "ns": 1.0,
        "s": 1e9,
        "min": 60e9,
        "hr": 3600e9,
        "day": 86400e9,
        "mon": 86400e9 * dpm,
        "yr": 86400e9 * dpy,
    }[u]


def build(ch, kind, dim, nt, spacing, layout, nan, dtype, start=1981):
    labels, x = axis(kind, nt, spacing, start)
    v = pattern((nt, 2, 3), -2.0, 3.0, 5)
    ramp = np.linspace(0.0, 4.0, nt)
    v = v + ramp[:, None, None] * np.array([[1.0, -1.0, 0.0], [2.0, 0.5, -3.0]])
    if dtype == "i8":
        v = np.round(v * 10)
    if nan == "one":
        v[nt // 2, 0, 1] = np.nan
    elif nan == "ends":
        v[0, 0, 0] = np.nan
        v[-1, 1, 2] = np.nan
    elif nan == "column":
        v[:, 1, 0] = np.nan
    elif nan == "scattered":
        for k in range(nt):
            v[k, k % 2, (k * 2) % 3] = np.nan
    elif nan == "two left":
        v[1:-1, 0, 0] = np.nan
    v = v.astype(dtype)
    dims = tuple(dim if d == "t" else d for d in LAYOUTS[layout])
    if layout == "t":
        da = xr.DataArray(v[:, 0, 1], dims=(dim,), coords={dim: labels}, name="zos")
    else:
        da = xr.DataArray(
            v, dims=(dim, "y", "x"), coords={dim: labels, "x": [5.0, 6.0, 7.0]}, name="zos"
        )
    return da.transpose(*dims), v.astype(float), np.asarray(x)


def fits(x, v):
    """slope per unit of x and fitted line, pointwise, (t, ...)."""
    flat = v.reshape(len(x), -1)
    m = np.empty(flat.shape[1])
    line = np.empty_like(flat)
    xx = np.asarray(x, dtype=np.longdouble)
    x0 = xx.mean()
    for k in range(flat.shape[1]):
        s, b = model.line_fit(xx - x0, flat[:, k])
        m[k] = s
        line[:, k] = s * (xx - x0) + b
    return m.reshape(v.shape[1:]), line.reshape(v.shape)


def trends(ch):
    kind = ch.free("axis", AXES)
    unit = ch.free("time unit", [None] + UNITS)
    dim = ch.pick("dimension", ["time", "z", "T"])
    nt = ch.pick("length", [9, 2, 3, 4, 40, 400])
    spacing = ch.pick("spacing", ["month", "day", "year", "uneven", "hour"])
    layout = ch.pick("layout", list(LAYOUTS))
    nan = ch.pick("missing", ["none", "one", "ends", "column", "scattered", "two left"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    order = ch.pick("direction", ["up", "down"])
    units = ch.pick("units attribute", ["m", None, "kg m-2 s-1", "1"])
    start = ch.pick("start year", [1981, 1, 1900, 2199])
    if nan != "none" and (dtype == "i8" or nt < 9):
        ch.prune()
    if start == 1 and kind == "datetime64":
        ch.prune()
    if nt == 400 and spacing in ("year", "uneven"):
        ch.prune()  # beyond what 64-bit nanoseconds hold
    da, v, x = build(ch, kind, dim, nt, spacing, layout, nan, dtype, start)
    if order == "down":
        da = da.isel({dim: slice(None, None, -1)})
    da.attrs = {"long_name": "sea level"}
    if units is not None:
        da.attrs["units"] = units
    ch.state(da, unit)
    kw = {} if dim == "time" else {"dim": dim}
    if unit is not None:
        kw["time_units"] = unit
    ds = ch.call(trend.calc_linear_trend, da, **kw)
    m, line = fits(x, v)
    timed = kind != "number"
    per = unit_ns(unit or "ns") if timed else 1.0
    m = m * per
    if layout == "t":
        m, line = m[0, 1], line[:, 0, 1]
    sd = () if layout == "t" else ("y", "x")
    r = 2e-4 if dtype == "f4" else 1e-7
    span = float(abs(x[-1] - x[0])) / per
    ch.equal("variables", set(ds.data_vars), {"zos_slope", "zos_intercept"})
    ch.true("no coordinates of its own", set(ds.coords) <= set(da.coords) | set(da.dims), f"{list(ds.coords)}")
    ch.field("slope", ds["zos_slope"], m, sd, r, r * (40.0 if dtype == "i8" else 4.0) / span)
    if timed:
        got = ds["zos_slope"].attrs.get("units", "").split()
        ch.equal("slope units", got, (units.split() if units else []) + [f"{unit or 'ns'}-1"])
    ch.equal("long name", ds["zos_slope"].attrs.get("long_name"), "sea level")
    # slope and intercept together are the line (the slope put back on the axis)
    if order == "up":
        s = ds["zos_slope"].assign_attrs(units=f"{unit or 'ns'}-1")
        got = ch.call(trend.broadcast_trend, s, da[dim]) + ds["zos_intercept"]
        ch.field("fitted line", got, line, (dim,) + sd, r, r * (400 if dtype == "i8" else 40))
    if layout != "t":
        ch.equal("x", list(ds["x"].values), [5.0, 6.0, 7.0])


def every_missing_subset(ch):
    """Every subset of missing values of a short series with two or more left."""
    kind = ch.free("axis", AXES)
    spacing = ch.free("spacing", ["month", "uneven"])
    n = 7
    labels, x = axis(kind, n, spacing, 1999)
    keep = [b for b in range(1 << n) if bin(b).count("1") >= 2]
    base = pattern((n,), -1.0, 2.0, 3)
    v = np.array([[base[k] if (b >> k) & 1 else np.nan for b in keep] for k in range(n)])
    da = xr.DataArray(v, dims=("time", "c"), coords={"time": labels}, name="a")
    ch.state(da)
    ds = ch.call(trend.calc_linear_trend, da)
    m, line = fits(np.asarray(x), v)
    ch.field("slope", ds["a_slope"], m, ("c",), 1e-7, 1e-7 / float(x[-1] - x[0]))
    got = ch.call(
        trend.broadcast_trend, ds["a_slope"].assign_attrs(units="ns-1"), da["time"]
    ) + ds["a_intercept"]
    ch.field("line", got, line, ("time", "c"), 1e-7, 1e-7)


def every_missing_subset_alone(ch):
    """The same series one at a time, without any other dimension."""
    kind = ch.free("axis", AXES)
    n = 6
    labels, x = axis(kind, n, "uneven", 1999)
    base = pattern((n,), -1.0, 2.0, 3)
    b = ch.free("present", [b for b in range(1 << n) if bin(b).count("1") >= 2])
    v = np.array([base[k] if (b >> k) & 1 else np.nan for k in range(n)])
    da = xr.DataArray(v, dims=("time",), coords={"time": labels}, name="a")
    ch.state(da)
    ds = ch.call(trend.calc_linear_trend, da)
    m, line = fits(np.asarray(x), v[:, None])
    ch.field("slope", ds["a_slope"], m[0], (), 1e-7, 1e-7 / float(x[-1] - x[0]))
    got = ch.call(
        trend.broadcast_trend, ds["a_slope"].assign_attrs(units="ns-1"), da["time"]
    ) + ds["a_intercept"]
    ch.field("line", got, line[:, 0], ("time",), 1e-7, 1e-7)


def conversion(ch):
    """Every pair (and through every third unit) against exact rational arithmetic."""
    a = ch.free("from", UNITS)
    b = ch.free("to", UNITS)
    dpm = ch.free("days per month", [None, 30.0, 30.5, 31.0])
    dpy = ch.free("days per year", [None, 360.0, 365.25, 366.0])
    kw = {}
    if dpm:
        kw["days_per_month"] = dpm
    if dpy:
        kw["days_per_year"] = dpy
    ch.state(a, b, dpm, dpy)
    day = Fraction(86400 * 10**9)
    ns = {
        "ns": Fraction(1),
        "s": Fraction(10**9),
        "min": Fraction(60 * 10**9),
        "hr": Fraction(3600 * 10**9),
        "day": day,
        "mon": day * Fraction(str(dpm or 30.417)),
        "yr": day * Fraction(str(dpy or 365.0)),
    }
    f = trend.time_conversion_factor
    got = ch.call(f, a, b, **kw)
    ch.close("factor", got, float(ns[a] / ns[b]), 1e-12)
    ch.close("reciprocal", got * ch.call(f, b, a, **kw), 1.0, 1e-12)
    for c in UNITS:
        two = ch.call(f, a, c, **kw) * ch.call(f, c, b, **kw)
        ch.close(f"through {c}", two, got, 1e-12)


def unknown_units(ch):
    bad = ch.free("unit", ["yrs", "", "NS", "year", "ms", None, "Yr", "seconds"])
    where = ch.free("where", ["from", "to", "trend", "broadcast"])
    ch.state(str(bad), where)
    f = trend.time_conversion_factor
    da, v, x = build(ch, "noleap", "time", 9, "month", "tyx", "none", "f8")
    if where == "from":
        ch.rejects("unknown unit", f, bad, "yr")
    elif where == "to":
        ch.rejects("unknown unit", f, "yr", bad)
    elif where == "trend":
        if bad is None:
            ch.prune()
        ch.rejects("unknown unit", trend.calc_linear_trend, da, time_units=bad)
    else:
        if bad in (None, ""):
            ch.prune()
        s = xr.DataArray(1.0, attrs={"units": f"m {bad}-1"})
        ch.rejects("unknown unit", trend.broadcast_trend, s, da["time"])


def broadcast(ch):
    kind = ch.free("axis", AXES)
    unit = ch.free("slope unit", UNITS + ["unstated", "no attribute"])
    zero = ch.free("relative to the first point", [False, True])
    dim = ch.pick("dimension", ["time", "T", "lev"])
    spacing = ch.pick("spacing", ["month", "day", "uneven", "year"])
    nt = ch.pick("length", [5, 1, 2, 40])
    other = ch.pick("other units", ["m", "", "kg m-2", "degC"])
    slope_dims = ch.pick("slope", ["yx", "scalar", "x"])
    start = ch.pick("start year", [1981, 1, 1900, 1969])
    coord = ch.pick("axis object", ["coordinate", "variable"])
    sign = ch.pick("slopes", ["as given", "opposite", "none"])
    if start == 1 and kind == "datetime64":
        ch.prune()
    labels, x = axis(kind, nt, spacing, start)
    tc = xr.DataArray(labels, dims=dim, coords={dim: labels}, name=dim)
    if coord == "variable":
        tc = tc.rename("something")
    per = unit_ns(unit) if unit in UNITS else 1.0
    m = pattern((2, 3), -3.0, 3.0, 8) * {"as given": 1.0, "opposite": -1.0, "none": 0.0}[sign]
    if kind == "number":
        per_x = 1.0
    else:
        per_x = per
        if unit not in UNITS:
            m = m * 1e-16
    if slope_dims == "scalar":
        s = xr.DataArray(m[0, 0], name="s")
        mm, sd = m[0, 0], ()
    elif slope_dims == "x":
        s = xr.DataArray(m[0], dims="x", name="s")
        mm, sd = m[0], ("x",)
    else:
        s = xr.DataArray(m, dims=("y", "x"), name="s")
        mm, sd = m, ("y", "x")
    if unit == "unstated":
        s.attrs["units"] = other
    elif unit != "no attribute":
        s.attrs["units"] = f"{other} {unit}-1".strip()
    ch.state(tc, s, zero)
    kw = {"subtract_time_zero": True} if zero else {}
    got = ch.call(trend.broadcast_trend, s, tc, **kw)
    el = np.array([float(q) for q in (np.asarray(x) - (x[0] if zero else 0))]) / per_x
    want = el.reshape((-1,) + (1,) * len(sd)) * mm
    scale = 3.0 * (abs(float(x[0])) + abs(float(x[-1]))) / per_x
    if kind != "number" and unit not in UNITS:
        scale *= 1e-16
    ch.field("line", got, want, (dim,) + sd, 1e-10, 1e-13 * scale + 1e-30)
    if zero:
        ch.close("starts at zero", got.isel({dim: 0}).values, np.zeros(np.shape(mm)))
    ch.equal("axis", list(got[dim].values), list(tc[dim].values))


def ill_defined(ch):
    case = ch.free("case", ["two inverse units", "slope not labelled", "axis not labelled", "2-d axis"])
    labels, x = axis("noleap", 4, "month", 1999)
    tc = xr.DataArray(labels, dims="time", coords={"time": labels}, name="time")
    s = xr.DataArray(1.0, attrs={"units": "m yr-1"})
    ch.state(case)
    if case == "two inverse units":
        s.attrs["units"] = "m s-1 yr-1"
        ch.rejects(case, trend.broadcast_trend, s, tc)
    elif case == "slope not labelled":
        ch.rejects(case, trend.broadcast_trend, 1.0, tc)
    elif case == "axis not labelled":
        ch.rejects(case, trend.broadcast_trend, s, labels)
    else:
        ch.rejects(case, trend.broadcast_trend, s, xr.DataArray(np.zeros((2, 2)), dims=("a", "b")))


def unit_invariance(ch):
    """The same record fitted in any two units gives the same line."""
    kind = ch.free("axis", [a for a in AXES if a != "number"])
    u1 = ch.free("first unit", UNITS)
    u2 = ch.free("second unit", UNITS)
    da, v, x = build(ch, kind, "time", 9, "month", "tyx", "one", "f8")
    da.attrs["units"] = "m"
    ch.state(kind, u1, u2)
    a = ch.call(momlevel.trend.calc_linear_trend, da, time_units=u1)
    b = ch.call(momlevel.trend.calc_linear_trend, da, time_units=u2)
    f = ch.call(trend.time_conversion_factor, u2, u1)
    ch.close("slopes", b["zos_slope"].values, a["zos_slope"].values * f, 1e-9)
    ch.close("intercepts", b["zos_intercept"].values, a["zos_intercept"].values, 1e-9)
    la = ch.call(trend.broadcast_trend, a["zos_slope"], da["time"], True)
    lb = ch.call(trend.broadcast_trend, b["zos_slope"], da["time"], True)
    ch.close("lines", lb.values, la.values, 1e-9, 1e-9)


def many_points(ch):
    """Every point of a larger map is fitted on its own, whatever is missing at the others."""
    kind = ch.free("axis", AXES)
    size = ch.free("points", [(1, 1), (20, 30), (1, 700), (45, 90)])
    unit = ch.free("time unit", [None, "s", "yr"])
    scale = ch.free("magnitude", [1.0, 1e-8, 1e7])
    offset = ch.free("level", [0.0, 1e3])
    nt = 12
    labels, x = axis(kind, nt, "uneven", 1993)
    ny, nx = size
    v = pattern((nt, ny, nx), -2.0, 3.0, 5)
    k = np.arange(nt)[:, None, None] + 3 * np.arange(ny)[None, :, None] + 5 * np.arange(nx)[None, None, :]
    v = np.where(k % 4 == 1, np.nan, v)  # a different quarter missing at each point
    v = (v + offset) * scale
    da = xr.DataArray(v, dims=("time", "y", "x"), coords={"time": labels}, name="a", attrs={"units": "m"})
    ch.state(da, unit)
    ds = ch.call(trend.calc_linear_trend, da, **({"time_units": unit} if unit else {}))
    # closed form, every point at once
    el = np.array([float(q - x[0]) for q in x]) / float(x[-1] - x[0])
    ok = ~np.isnan(v)
    n = ok.sum(0)
    e = np.where(ok, el[:, None, None], 0.0)
    w = np.where(ok, v, 0.0)
    em, wm = e.sum(0) / n, w.sum(0) / n
    m = (np.where(ok, (e - em) * (w - wm), 0.0)).sum(0) / (np.where(ok, (e - em) ** 2, 0.0)).sum(0)
    per = unit_ns(unit or "ns") if kind != "number" else 1.0
    ch.field("slope", ds["a_slope"], m / float(x[-1] - x[0]) * per, ("y", "x"), 1e-7, 1e-7 * scale * per / float(x[-1] - x[0]))
    s = ds["a_slope"].assign_attrs(units=f"{unit or 'ns'}-1")
    got = ch.call(trend.broadcast_trend, s, da["time"]) + ds["a_intercept"]
    line = (wm - m * em)[None] + m[None] * el[:, None, None]
    ch.field("line", got, line, ("time", "y", "x"), 1e-7, 1e-6 * scale * (1 + offset * 1e-2))


def any_rank_trend(ch):
    """Arrays of two to six dimensions, time anywhere."""
    kind = ch.free("axis", ["number", "noleap", "datetime64"])
    missing = ch.free("missing", [False, True])
    labels, x = axis(kind, 9, "uneven", 1993)
    v = pattern((9, 12), -2.0, 3.0, 5) + np.linspace(0, 1, 9)[:, None] * np.arange(12)
    if missing:
        v[4, 5] = v[0, 7] = np.nan
    da, back = any_rank(ch, v, labels)
    ch.state(da)
    ds = ch.call(trend.calc_linear_trend, da, time_units="yr")
    m, line = fits(np.asarray(x), v)
    per = unit_ns("yr") if kind != "number" else 1.0
    ch.close("slope", back(ds["a_slope"], None), m * per, 1e-7)
    s = ds["a_slope"].assign_attrs(units="m yr-1" if kind != "number" else "m")
    got = ch.call(trend.broadcast_trend, s, da["time"]) + ds["a_intercept"]
    ch.close("line", back(got), line, 1e-7, 1e-6)
    zero = ch.call(trend.broadcast_trend, s, da["time"], subtract_time_zero=True)
    el = np.array([float(q - x[0]) for q in x])[:, None]
    ch.close("rise", back(zero), el * m[None], 1e-7, 1e-6)


def far_from_zero(ch):
    """Axes whose labels are large compared with what they span."""
    kappa = ch.free("offset over span", [0.0, 1e2, 1e4, 1e6, 1e8, 1e9])
    sign = ch.free("sign", [1.0, -1.0])
    span = ch.free("span", [1.0, 1e-3, 40.0, 1e6])
    n = ch.free("length", [3, 12, 200])
    exact = ch.free("residuals", [False, True])
    if exact and kappa > 1e4:
        ch.prune()
    k = np.arange(n) if n < 200 else np.arange(n) ** 2
    x = sign * kappa * span + span * k / k[-1]
    m = np.array([1.0, -2.0, 0.5]) / span
    v = (x - x[0])[:, None] * m + np.array([0.0, 1.0, -3.0])
    if exact:
        v = v + pattern((n, 3), -1.0, 1.0, 5)
    da = xr.DataArray(v, dims=("time", "p"), coords={"time": x}, name="a")
    ch.state(da)
    ds = ch.call(trend.calc_linear_trend, da)
    want, line = fits(x, v)
    tol = 1e-12 + (2e-14 * kappa**2 if exact else 2e-13 * kappa)
    ch.field("slope", ds["a_slope"], want, ("p",), tol, tol / span)


def seconds(ch):
    """Records of seconds and minutes, centuries from the epoch."""
    kind = ch.free("axis", [a for a in AXES if a != "number"])
    step = ch.free("step in seconds", [1, 10, 60, 600])
    year = ch.free("year", [1700, 1970, 2024, 2240])
    unit = ch.free("time unit", [None, "s", "hr", "yr"])
    n = 30
    cal = cal_of(kind)
    lab, x = axis(kind, 1, "day", year)
    if kind == "datetime64":
        lab = lab[0] + np.arange(n) * np.timedelta64(step, "s")
    else:
        lab = np.array([lab[0] + datetime.timedelta(seconds=step * k) for k in range(n)], dtype=object)
    el = np.arange(n) * float(step)
    v = el[:, None] / el[-1] * np.array([1.0, -2.0, 0.5]) + 1.0
    da = xr.DataArray(v, dims=("time", "p"), coords={"time": lab}, name="a", attrs={"units": "m"})
    ch.state(kind, step, year, unit)
    ds = ch.call(trend.calc_linear_trend, da, **({"time_units": unit} if unit else {}))
    per = unit_ns(unit or "ns") / 1e9
    kappa = abs(float(x[0])) / 1e9 / el[-1]
    tol = 1e-9 + 2e-13 * kappa
    ch.field("slope", ds["a_slope"], np.array([1.0, -2.0, 0.5]) / el[-1] * per, ("p",), tol, 0.0)


def long_records(ch):
    kind = ch.free("axis", AXES)
    spacing = ch.free("spacing", ["day", "month", "hour"])
    n = {"day": 12000, "month": 1500, "hour": 20000}[spacing]
    unit = ch.free("time unit", [None, "yr"])
    missing = ch.free("missing", [False, True])
    labels, x = axis(kind, n, spacing, 1901)
    v = pattern((n, 3), -2.0, 3.0, 5) + np.linspace(0.0, 4.0, n)[:, None] * np.array([1.0, -1.0, 0.0])
    if missing:
        v[::7, 1] = np.nan
        v[: n // 2, 2] = np.nan
    da = xr.DataArray(v, dims=("time", "p"), coords={"time": labels}, name="a", attrs={"units": "m"})
    ch.state(kind, spacing, unit, missing)
    ds = ch.call(trend.calc_linear_trend, da, **({"time_units": unit} if unit else {}))
    m, line = fits(np.asarray(x), v)
    per = unit_ns(unit or "ns") if kind != "number" else 1.0
    span = float(x[-1] - x[0]) / per
    ch.field("slope", ds["a_slope"], m * per, ("p",), 1e-7, 1e-7 / span)
    s = ds["a_slope"].assign_attrs(units=f"{unit or 'ns'}-1")
    got = ch.call(trend.broadcast_trend, s, da["time"]) + ds["a_intercept"]
    ch.field("line", got, line, ("time", "p"), 1e-7, 1e-6)


SCENARIOS = [
    Scenario(far_from_zero, 0),
    Scenario(seconds, 0),
    Scenario(long_records, 0),
    Scenario(trends, 2, 3),
    Scenario(many_points, 0),
    Scenario(every_missing_subset, 0),
    Scenario(every_missing_subset_alone, 0),
    Scenario(conversion, 0),
    Scenario(unknown_units, 0),
    Scenario(broadcast, 2, 4),
    Scenario(ill_defined, 0),
    Scenario(unit_invariance, 0),
    Scenario(any_rank_trend, 0),
]
ASSUMPTIONS = [
    "axes: numeric, cftime in every calendar, datetime64; hourly to yearly and uneven spacing; "
    "at least two distinct non-missing points per series (or none)",
    "an increasing axis for broadcasting (xarray refuses others)",
]
