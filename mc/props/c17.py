"""C17 - monthly averages and the annual cycle."""

import datetime

import numpy as np
import xarray as xr

from momlevel import util
from mc import model
from mc.core import Scenario
from mc.ocean import pattern
from mc.props.c16 import cal_name
from mc.props.common import any_rank, mixture
from mc.props.timeaxis import CALENDARS, days, middle_year, months, stamp

FUNCS = ["mean", "min", "max", "std"]


def nan_stat(v, func):
    """Statistic over axis 0 ignoring missing values."""
    out = np.full(v.shape[1:], np.nan)
    for i in np.ndindex(out.shape):
        c = v[(slice(None),) + i]
        c = c[~np.isnan(c)]
        if len(c):
            if func == "mean":
                out[i] = c.sum() / len(c)
            elif func == "std":
                out[i] = np.sqrt(((c - c.mean()) ** 2).sum() / len(c))
            else:
                out[i] = min(c) if func == "min" else max(c)
    return out


def wrap(ch, base, t, form, layout, tname, dtype, scalar, other=None):
    nt = len(t)
    v = base.astype(dtype)
    dims = {"tyx": (tname, "y", "x"), "t": (tname,), "yxt": ("y", "x", tname), "ytx": ("y", tname, "x")}[layout]
    std = (tname,) if layout == "t" else (tname, "y", "x")
    src = v[:, 0, 1] if layout == "t" else v
    da = xr.DataArray(src, dims=std, coords={tname: t}, name="a").transpose(*dims)
    if layout != "t":
        da = da.assign_coords(x=[10.0, 20.0], y=[1.0, 2.0])
    if scalar:
        da = da.assign_coords(member=4)
    if other:
        da = da.assign_coords({other[0]: 4 if not other[1] else (tname, np.arange(nt) % 5)})
    if form == "Dataset":
        obj = xr.Dataset({"a": da, "b": da * 2.0 + 1.0})
        obj["bounds"] = ((tname,), np.array(t, dtype=object))
        obj["length"] = ((tname,), np.array([datetime.timedelta(days=30)] * nt, dtype="timedelta64[ns]"))
    else:
        obj = da
    return obj, std


def common(ch):
    form = ch.pick("object", ["DataArray", "Dataset"])
    layout = ch.pick("layout", ["tyx", "t", "yxt", "ytx"])
    tname = ch.pick("time name", ["time", "T"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    scalar = ch.pick("scalar coordinate", [False, True])
    nan = ch.pick("missing", ["none", "scattered", "block"])
    if dtype == "i8" and nan != "none":
        ch.prune()
    name = ch.pick("coordinate called", ["none", "year", "month", "season", "dayofyear"])
    along = ch.pick("which runs along", ["nothing", "time"])
    if name == "none" and along != "nothing":
        ch.prune()
    other = None if name == "none" else (name, along == "time")
    return form, layout, tname, dtype, scalar, nan, other


def field(nt, nan, dtype):
    base = pattern((nt, 2, 2), -5.0, 30.0, 1)
    if dtype == "i8":
        base = np.round(base)
    if nan == "scattered":
        base.flat[::5] = np.nan
    elif nan == "block":
        base[3:40, 0, 1] = np.nan
    return base.astype(dtype).astype(float)


def monthly(ch):
    _monthly(ch, ch.free)


def monthly_pairs(ch):
    _monthly(ch, ch.pick)


def _monthly(ch, choose):
    cal = choose("calendar", CALENDARS)
    start = choose(
        "start",
        [(1999, 1, 1), (1999, 11, 20), (2000, 2, 1), (1900, 1, 31 if cal != "360_day" else 30),
         (2001, 12, 30), (4, 2, 28), (999, 12, 1), (2003, 7, 1)],
    )
    n = ch.pick("days", [75, 1, 28, 29, 31, 366, 800, 4000])
    order = ch.pick("order in time", ["forward", "backward"])
    gap = ch.pick("gap", [False, True])
    hour = ch.pick("hour of the stamps", [12, 0, 23])
    form, layout, tname, dtype, scalar, nan, other = common(ch)
    ymd = days(start, n, cal_name(cal))
    if gap:  # drop some days, and all of the second month
        m2 = [q for q in dict.fromkeys((y, m) for y, m, _ in ymd)][1:2]
        ymd = [q for k, q in enumerate(ymd) if (q[0], q[1]) not in m2 and k % 9 != 4]
        if not ymd:
            ch.prune()
    if order == "backward":
        ymd = ymd[::-1]
    t = [stamp(y, m, d, cal, hour) for y, m, d in ymd]
    base = field(len(t), nan, dtype)
    obj, std = wrap(ch, base, t, form, layout, tname, dtype, scalar, other)
    kw = {} if tname == "time" else {"tcoord": tname}
    ch.state(obj, cal)
    got = ch.call(util.monthly_average, obj, **kw)
    present = sorted({(y, m) for y, m, _ in ymd})
    want = np.array(
        [nan_stat(base[[k for k, q in enumerate(ymd) if q[:2] == ym]], "mean") for ym in present]
    )
    if layout == "t":
        want = want[:, 0, 1]
    res = got if form == "DataArray" else got["a"]
    r, a = (1e-5, 1e-4) if dtype == "f4" else (1e-12, 1e-12)
    ch.field("monthly mean", res, want, std, r, a)
    ch.equal(
        "mid-month stamps",
        [model.ymdh(x) for x in got[tname].values],
        [model.mid_of_month(y, m, cal_name(cal)) for y, m in present],
    )
    ch.equal("calendar", got[tname].values[0].calendar, t[0].calendar)
    if form == "Dataset":
        ch.equal("variables", set(got.data_vars), {"a", "b"})
        ch.field("second variable", got["b"], want * 2 + 1, std, r, 3 * a)
    if layout != "t":
        ch.equal("x", list(got["x"].values), [10.0, 20.0])


def cycle(ch):
    _cycle(ch, ch.free)


def cycle_pairs(ch):
    _cycle(ch, ch.pick)


def _cycle(ch, choose):
    cal = choose("calendar", CALENDARS)
    func = choose("func", [None] + FUNCS)
    year = ch.pick("first year", [1999, 1981, 2000, 1896, 1, 999])
    start = ch.pick("first month", [1, 7, 12])
    n = ch.pick("months", [24, 12, 18, 60, 37, 360, "daily"])
    axis = ch.pick("time_axis_year", [None, 2000, 1900, 1, 850, "1999", 2004.0])
    form, layout, tname, dtype, scalar, nan, other = common(ch)
    c = cal_name(cal)
    if n == "daily":
        ymd = days((year, start, 1), 400, c)
    else:
        ymd = [(y, m, 15) for y, m in months(year, start, n)]
    t = [stamp(*q, cal) for q in ymd]
    base = field(len(t), nan, dtype)
    obj, std = wrap(ch, base, t, form, layout, tname, dtype, scalar, other)
    kw = {} if tname == "time" else {"tcoord": tname}
    if func is not None:
        kw["func"] = func
    if axis is not None:
        kw["time_axis_year"] = axis
    ch.state(obj, cal, repr(kw))
    got = ch.call(util.annual_cycle, obj, **kw)
    want = np.array(
        [nan_stat(base[[k for k, q in enumerate(ymd) if q[1] == m]], func or "mean") for m in range(1, 13)]
    )
    if layout == "t":
        want = want[:, 0, 1]
    res = got if form == "DataArray" else got["a"]
    r, a = (1e-5, 1e-4) if dtype == "f4" else (1e-12, 1e-12)
    ch.field("annual cycle", res, want, std, r, a)
    y = middle_year(ymd[0], ymd[-1], c) if axis is None else int(float(axis))
    ch.equal(
        "mid-month stamps",
        [model.ymdh(x) for x in got[tname].values],
        [model.mid_of_month(y, m, c) for m in range(1, 13)],
    )
    ch.equal("calendar", got[tname].values[0].calendar, t[0].calendar)
    if form == "Dataset":
        ch.equal("variables", set(got.data_vars), {"a", "b"})
        second = want * 2 if func == "std" else want * 2 + 1
        ch.field("second variable", got["b"], second, std, r, 3 * a)


def unknown_statistic(ch):
    func = ch.free("func", ["median", "", "Mean", "sum", None, "avg", 3])
    form = ch.free("object", ["DataArray", "Dataset"])
    t = [stamp(y, m, 15, "noleap") for y, m in months(2000, 1, 12)]
    da = xr.DataArray(np.arange(12.0), dims="time", coords={"time": t}, name="a")
    ch.state(func, form)
    ch.rejects(f"func={func!r}", util.annual_cycle, da if form == "DataArray" else da.to_dataset(), func=func)


def chained(ch):
    """Daily -> monthly -> annual equals the plain mean of all days (no missing values)."""
    cal = ch.free("calendar", CALENDARS)
    year = ch.free("year", [1999, 2000, 1900, 4])
    ny = ch.free("years", [1, 2])
    c = cal_name(cal)
    n = sum(model.year_days(year + k, c) for k in range(ny))
    ymd = days((year, 1, 1), n, c)
    t = [stamp(*q, cal, 12) for q in ymd]
    v = pattern((n,), 0.0, 10.0, 3)
    da = xr.DataArray(v, dims="time", coords={"time": t}, name="a")
    ch.state(da, cal)
    got = ch.call(util.annual_average, ch.call(util.monthly_average, da))
    want = [v[[k for k, q in enumerate(ymd) if q[0] == year + y]].mean() for y in range(ny)]
    ch.field("annual mean of monthly means", got, want, ("time",), 1e-12)


def sampling(ch):
    """Any sampling interval, and values of any size."""
    what = ch.free("function", ["monthly", "mean", "max"])
    cal = ch.free("calendar", ["noleap", "gregorian", "360_day"])
    step = ch.free("hours between values", [6, 12, 24, 72, 120, 17, 730])
    scale = ch.free("size of the values", [1.0, 1e-9, 1e9])
    n = 420 * 24 // step
    one = stamp(2003, 11, 3, cal, 0)
    t = [one + datetime.timedelta(hours=step * k) for k in range(n)]
    v = (pattern((n,), -5.0, 30.0, 1) + 1.0) * scale
    da = xr.DataArray(v, dims="time", coords={"time": t}, name="a")
    ch.state(what, cal, step, scale)
    if what == "monthly":
        got = ch.call(util.monthly_average, da)
        there = sorted({(x.year, x.month) for x in t})
        groups = [[k for k, x in enumerate(t) if (x.year, x.month) == q] for q in there]
        ch.equal(
            "mid-month stamps",
            [model.ymdh(x) for x in got["time"].values],
            [model.mid_of_month(y, m, cal_name(cal)) for y, m in there],
        )
    else:
        got = ch.call(util.annual_cycle, da, func=what)
        groups = [[k for k, x in enumerate(t) if x.month == m] for m in range(1, 13)]
    want = [v[g].max() if what == "max" else v[g].mean() for g in groups]
    ch.field(what, got, want, ("time",), 1e-12, 1e-13 * 30 * scale)


def any_rank_monthly(ch):
    """Arrays of two to six dimensions, time anywhere, alone and in a dataset."""
    what = ch.free("function", ["monthly", "mean", "std", "max", "min"])
    form = ch.free("object", ["DataArray", "Dataset"])
    ymd = days((1999, 1, 20), 70, "noleap") if what == "monthly" else [(y, m, 15) for y, m in months(1999, 1, 36)]
    t = [stamp(*q, "noleap") for q in ymd]
    v = pattern((len(t), 12), -5.0, 30.0, 1)
    v[3, 5] = np.nan
    da, back = any_rank(ch, v, t)
    obj = da if form == "DataArray" else xr.Dataset({"a": da, "line": ("time", v[:, 0])})
    ch.state(obj, what)
    if what == "monthly":
        got = ch.call(util.monthly_average, obj)
        groups = [[k for k, q in enumerate(ymd) if q[:2] == ym] for ym in sorted({q[:2] for q in ymd})]
    else:
        got = ch.call(util.annual_cycle, obj, func=what)
        groups = [[k for k, q in enumerate(ymd) if q[1] == m] for m in range(1, 13)]
    want = np.array([nan_stat(v[g], "mean" if what == "monthly" else what) for g in groups])
    ch.close(what, back(got if form == "DataArray" else got["a"]), want, 1e-12, 1e-12)
    if form == "Dataset":
        ch.field("another variable", got["line"], want[:, 0], ("time",), 1e-12)


def mixtures(ch):
    """Every collection of variables with and without time, of any rank."""
    what = ch.free("function", ["cycle", "monthly"])
    if what == "cycle":
        t = [stamp(y, m, 15, "noleap") for y, m in months(1999, 1, 24)]
    else:
        t = [stamp(y, m, d, "noleap") for y, m, d in days((1999, 12, 25), 14, "noleap")]
    n = len(t)
    v = pattern((n, 6), -5.0, 30.0, 1)
    there, ds = mixture(ch, t, v)
    ch.state(what, there)
    got = ch.call(util.annual_cycle if what == "cycle" else util.monthly_average, ds)
    groups = [[k for k in range(n) if t[k].month == m] for m in (range(1, 13) if what == "cycle" else (12, 1))]
    for k in there:
        x = ds[k]
        if "time" in x.dims:
            d = ("time",) + tuple(i for i in x.dims if i != "time")
            w = x.transpose(*d).values.astype(float)
            ch.field(f"mean of {k}", got[k], np.array([w[g].mean(0) for g in groups]), d, 1e-12, 1e-12)
    ch.true("nothing new", set(got.data_vars) <= set(there), sorted(got.data_vars))


SCENARIOS = [
    Scenario(mixtures, 0),
    Scenario(monthly, 1, 2),
    Scenario(monthly_pairs, 2, 3),
    Scenario(cycle, 1, 2),
    Scenario(cycle_pairs, 2, 3),
    Scenario(unknown_statistic, 0),
    Scenario(chained, 0),
    Scenario(sampling, 0),
    Scenario(any_rank_monthly, 0),
]
ASSUMPTIONS = ["daily records of up to 4000 days; monthly records of 12 to 360 months covering every calendar month"]
