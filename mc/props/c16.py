"""C16 - annual averages."""

import datetime

import numpy as np
import xarray as xr

from momlevel import util
from mc import model
from mc.core import Scenario
from mc.ocean import pattern
from mc.props.common import annual_mean, any_rank, mixture
from mc.props.timeaxis import CALENDARS, YEARS, months, stamp


def cal_name(c):
    return {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}.get(c, c)


def yearly(ch):
    _yearly(ch, ch.free)


def yearly_pairs(ch):
    _yearly(ch, ch.pick)


def _yearly(ch, choose):
    cal = choose("calendar", CALENDARS)
    year = choose("first year", YEARS)
    ny = ch.pick("years", [2, 1, 3, 5, 11, 40])
    gap = ch.pick("gap between years", [1, 2])
    day = ch.pick("day of the stamps", [15, 1, 28, 30])
    form = ch.pick("object", ["DataArray", "Dataset"])
    layout = ch.pick("layout", ["tyx", "t", "yxt", "ytx"])
    tname = ch.pick("time name", ["time", "T"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8", "bool"])
    order = ch.pick("order in time", ["forward", "backward", "shuffled"])
    nan = ch.pick("missing", ["none", "one month", "a whole year", "scattered"])
    scalar = ch.pick("scalar coordinate", [False, True])
    scale = ch.pick("magnitude", [1.0, 1e15, 1e-15])
    other = ch.pick("coordinate called", ["none", "year", "month", "season", "dayofyear", "days_in_month"])
    along = ch.pick("which runs along", ["nothing", "time"])
    if other == "none" and along != "nothing":
        ch.prune()
    if day == 30 and cal != "360_day":
        ch.prune()
    if dtype == "bool" and form == "DataArray":
        ch.prune()
    ym = []
    for k in range(ny):
        ym += months(year + k * gap, 1, 12)
    nt = len(ym)
    idx = list(range(nt))
    if order == "backward":
        idx = idx[::-1]
    elif order == "shuffled":
        idx = [(k * 7) % nt for k in range(nt)] if nt % 7 else idx[1:] + idx[:1]
    ym = [ym[k] for k in idx]
    t = [stamp(y, m, day, cal) for y, m in ym]
    base = pattern((nt, 2, 3), -5.0, 30.0, 1) * scale
    if dtype == "i8":
        base = np.round(base)
    if dtype == "bool":
        base = (base > 0).astype(float)
    if nan != "none":
        if dtype in ("i8", "bool"):
            ch.prune()
        if nan == "one month":
            base[5] = np.nan
        elif nan == "a whole year":
            base[[k for k, q in enumerate(ym) if q[0] == year], 0, 0] = np.nan
        else:
            base.flat[::5] = np.nan
    v = base.astype(dtype)
    dims = {"tyx": (tname, "y", "x"), "t": (tname,), "yxt": ("y", "x", tname), "ytx": ("y", tname, "x")}[layout]
    src = v[:, 0, 1] if layout == "t" else v
    std = (tname,) if layout == "t" else (tname, "y", "x")
    da = xr.DataArray(
        src, dims=std, coords={tname: t}, name="a", attrs={"units": "m", "long_name": "A"}
    ).transpose(*dims)
    da[tname].attrs["axis"] = "T"
    if layout != "t":
        da = da.assign_coords(x=("x", [10.0, 20.0, 30.0], {"units": "deg"}), y=[1.0, 2.0])
    if scalar:
        da = da.assign_coords(member=4)
    if other != "none":
        da = da.assign_coords({other: 4 if along == "nothing" else (tname, np.arange(nt) % 5)})
    kw = {} if tname == "time" else {"tcoord": tname}
    if form == "Dataset":
        obj = xr.Dataset({"a": da, "b": da.astype(float) * 2.0 + 1.0}, attrs={"title": "x"})
        obj["bounds"] = ((tname,), np.array(t, dtype=object))
        obj["length"] = ((tname,), np.array([datetime.timedelta(days=30)] * nt, dtype="timedelta64[ns]"))
        obj["static"] = (("q",), np.array([3.0, 7.0]))
    else:
        obj = da
    ch.state(obj, cal)
    got = ch.call(util.annual_average, obj, **kw)
    yrs, mon = [q[0] for q in ym], [q[1] for q in ym]
    want = annual_mean(base.astype("f4" if dtype == "f4" else "f8").astype(float), yrs, mon, cal_name(cal))
    if layout == "t":
        want = want[:, 0, 1]
    r = 1e-5 if dtype == "f4" else 1e-12
    a = r * 40 * scale
    res = got if form == "DataArray" else got["a"]
    ch.field("annual mean", res, want, std, r, a)
    ch.equal("time is the leading dimension", res.dims[0], tname)
    stamps = [model.ymdh(x) for x in got[tname].values]
    ch.equal("mid-year stamps", stamps, [model.mid_of_year(y, cal_name(cal)) for y in sorted(set(yrs))])
    ch.equal("calendar", got[tname].values[0].calendar, t[0].calendar)
    ch.equal("attributes", dict(res.attrs), {"units": "m", "long_name": "A"})
    ch.equal("time attributes", dict(got[tname].attrs), {"axis": "T"})
    if layout != "t":
        ch.equal("x", list(got["x"].values), [10.0, 20.0, 30.0])
        ch.equal("x attributes", dict(got["x"].attrs), {"units": "deg"})
    if form == "Dataset":
        ch.equal("variables", set(got.data_vars), {"a", "b", "static"})
        ch.field("second variable", got["b"], want * 2 + 1, std, r, 2 * a + 1e-9)
        s = got["static"].transpose(..., "q").values
        ch.close("static variable", s, np.broadcast_to([3.0, 7.0], s.shape), 1e-12)
        ch.equal("dataset attributes", dict(got.attrs), {"title": "x"})


def every_missing_subset(ch):
    """All 4096 subsets of missing months, at once, in each calendar."""
    cal = ch.free("calendar", CALENDARS)
    year = ch.free("year", [1999, 2000, 1900, 4])
    form = ch.free("object", ["DataArray", "Dataset"])
    ym = months(year, 1, 12)
    t = [stamp(y, m, 15, cal) for y, m in ym]
    bits = np.arange(4096)
    v = np.array([[float(3 * m + 1) for _ in bits] for m in range(12)])
    for m in range(12):
        v[m, (bits >> m) & 1 == 1] = np.nan
    da = xr.DataArray(v, dims=("time", "x"), coords={"time": t}, name="a")
    obj = da if form == "DataArray" else da.to_dataset()
    ch.state(obj, cal)
    got = ch.call(util.annual_average, obj)
    got = got if form == "DataArray" else got["a"]
    want = annual_mean(v, [q[0] for q in ym], [q[1] for q in ym], cal_name(cal))
    ch.field("annual mean", got, want, ("time", "x"), 1e-12)


def incomplete_years(ch):
    """Every start month and length: accepted exactly when all years are complete."""
    cal = ch.free("calendar", ["noleap", "360_day", "standard"])
    start = ch.free("start month", list(range(1, 13)))
    n = ch.free("length", list(range(1, 27)))
    form = ch.free("object", ["DataArray", "Dataset"])
    ym = months(1999, start, n)
    t = [stamp(y, m, 15, cal) for y, m in ym]
    da = xr.DataArray(np.arange(n) * 1.0, dims="time", coords={"time": t}, name="a")
    obj = da if form == "DataArray" else da.to_dataset()
    ch.state(cal, start, n)
    if start == 1 and n % 12 == 0:
        got = ch.call(util.annual_average, obj)
        ch.equal("years", got.sizes["time"], n // 12)
    else:
        ch.rejects("incomplete year", util.annual_average, obj)


def months_per_year(ch):
    """Up to three years with any number of values each: accepted exactly when all have twelve."""
    cal = ch.free("calendar", ["noleap", "360_day", "standard"])
    form = ch.free("object", ["DataArray", "Dataset"])
    count = [ch.free(f"values in year {k}", [0, 1, 6, 11, 12, 13, 24, 36]) for k in range(3)]
    gone = ch.free("left out", ["first", "middle", "last"])
    t = []
    for k, n in enumerate(count):
        y = [stamp(1999 + k, m, d, cal) for d in (3, 15, 27) for m in range(1, 13)]
        if n <= 12:
            y = y[12:24]
            while len(y) > n:
                y.pop({"first": 0, "middle": len(y) // 2, "last": -1}[gone])
        t += sorted(y[:n])
    if not t or (gone != "first" and min(count) >= 12):
        ch.prune()
    v = np.arange(len(t)) * 1.0
    da = xr.DataArray(v, dims="time", coords={"time": t}, name="a")
    obj = da if form == "DataArray" else da.to_dataset()
    ch.state(cal, count, gone, form)
    if set(count) <= {0, 12}:
        got = ch.call(util.annual_average, obj)
        ch.equal("years", [x.year for x in got["time"].values], [1999 + k for k in range(3) if count[k]])
    else:
        ch.rejects("a year without exactly twelve months", util.annual_average, obj)


def linearity(ch):
    """A constant stays constant; repeated years give the same mean."""
    cal = ch.free("calendar", CALENDARS)
    c = ch.free("constant", [0.0, 1.0, -273.15, 1e20])
    ny = ch.free("years", [1, 2, 4])
    ym = months(2000, 1, 12 * ny)
    t = [stamp(y, m, 15, cal) for y, m in ym]
    ch.state(cal, c, ny)
    da = xr.DataArray(np.full(12 * ny, c), dims="time", coords={"time": t}, name="a")
    ch.close("constant", ch.call(util.annual_average, da).values, np.full(ny, c), 1e-13)


def any_rank_yearly(ch):
    """Arrays of two to six dimensions, time anywhere, alone and in a dataset."""
    form = ch.free("object", ["DataArray", "Dataset"])
    cal = ch.free("calendar", ["noleap", "standard"])
    ym = months(1999, 1, 24)
    t = [stamp(y, m, 15, cal) for y, m in ym]
    v = pattern((24, 12), -5.0, 30.0, 1)
    v[3, 5] = np.nan
    da, back = any_rank(ch, v, t)
    obj = da if form == "DataArray" else xr.Dataset({"a": da, "line": ("time", v[:, 0])})
    ch.state(obj, cal)
    got = ch.call(util.annual_average, obj)
    yrs, mon = [q[0] for q in ym], [q[1] for q in ym]
    want = annual_mean(v, yrs, mon, cal)
    ch.close("annual mean", back(got if form == "DataArray" else got["a"]), want, 1e-12, 1e-12)
    if form == "Dataset":
        ch.field("another variable", got["line"], want[:, 0], ("time",), 1e-12)
    ch.equal("stamps", [model.ymdh(x) for x in got["time"].values], [model.mid_of_year(y, cal) for y in (1999, 2000)])


def mixtures(ch):
    """Every collection of variables with and without time, of any rank."""
    ym = months(1999, 1, 24)
    t = [stamp(y, m, 15, "standard") for y, m in ym]
    v = pattern((24, 6), -5.0, 30.0, 1)
    there, ds = mixture(ch, t, v)
    ch.state(there)
    got = ch.call(util.annual_average, ds)
    ch.equal("variables", sorted(got.data_vars), sorted(there))
    yrs, mon = [q[0] for q in ym], [q[1] for q in ym]
    for k in there:
        x = ds[k]
        if "time" in x.dims:
            d = ("time",) + tuple(i for i in x.dims if i != "time")
            ch.field(f"mean of {k}", got[k], annual_mean(x.transpose(*d).values.astype(float), yrs, mon, "standard"), d, 1e-12, 1e-12)
        else:
            y = got[k].transpose(..., *x.dims).values
            ch.close(f"{k}, which does not change", y, np.broadcast_to(x.values, y.shape), 1e-12)


def long_records(ch):
    """More than a century of months, on a few points or many."""
    cal = ch.free("calendar", CALENDARS)
    ny = ch.free("years", [101, 165, 300])
    size = ch.free("points", [1, 3, 500])
    form = ch.free("object", ["DataArray", "Dataset"])
    dtype = ch.free("dtype", ["f8", "f4"])
    ym = months(1850, 1, 12 * ny)
    t = [stamp(y, m, 15, cal) for y, m in ym]
    v = pattern((12 * ny, size), -5.0, 30.0, 1).astype(dtype)
    v[100:130, 0] = np.nan
    v[::7, size // 2] = np.nan
    da = xr.DataArray(v, dims=("time", "x"), coords={"time": t}, name="a", attrs={"units": "m"})
    ch.state(cal, ny, size, form, dtype)
    got = ch.call(util.annual_average, da if form == "DataArray" else da.to_dataset())
    got = got if form == "DataArray" else got["a"]
    want = annual_mean(v.astype(float), [q[0] for q in ym], [q[1] for q in ym], cal_name(cal))
    r = 1e-5 if dtype == "f4" else 1e-12
    ch.field("annual mean", got, want, ("time", "x"), r, 40 * r)
    ch.equal("stamps", [model.ymdh(x) for x in got["time"].values], [model.mid_of_year(1850 + k, cal_name(cal)) for k in range(ny)])


SCENARIOS = [
    Scenario(long_records, 0),
    Scenario(yearly, 1, 2),
    Scenario(yearly_pairs, 2, 3),
    Scenario(every_missing_subset, 0),
    Scenario(incomplete_years, 0),
    Scenario(months_per_year, 0),
    Scenario(linearity, 0),
    Scenario(any_rank_yearly, 0),
    Scenario(mixtures, 0),
]
ASSUMPTIONS = [
    "nine calendar names, first years 1, 4, 100, 999, 1600, 1896, 1900, 1981, 1999, 2000, 2100 "
    "(1582, the year of the calendar reform, excluded); up to 40 years"
]
