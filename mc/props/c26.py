"""C26 - synthetic test data is valid, reproducible and true to its calendar."""

import datetime as dt

import numpy as np

import momlevel
from momlevel import test_data, util
from momlevel.test_data import time as tdtime
from momlevel.test_data import tripolar
from mc import model
from mc.core import Scenario, digest
from mc.props.timeaxis import CALENDARS, days, months

YEARS = [1981, 1999, 1600, 1700, 1896, 1900, 2000, 2096, 2100, 1004, 3000, 9000]
EARLY = [1, 4, 100, 850, 999]


def at(t):
    return (t.year, t.month, t.day, t.hour, t.minute, t.second)


def stub_times(freq, year, n, cal):
    """Expected (start, middle, end, days) of every step."""
    if freq == "MS":
        edges = [(y, m, 1) for y, m in months(year, 1, 12 * n + 1)]
        length = [model.month_days(y, m, cal) for y, m, _ in edges[:-1]]
    else:
        total = sum(model.year_days(y, cal) for y in range(year, year + n))
        edges = days((year, 1, 1), total + 1, cal)
        length = [1] * total
    out = []
    for a, b, k in zip(edges, edges[1:], length):
        half = k * 12  # hours
        mid = (a[0], a[1], a[2] + half // 24, half % 24, 0, 0)
        out.append((a + (0, 0, 0), mid, b + (0, 0, 0), k))
    return out


def check_axis(ch, ds, freq, year, n, cal):
    want = stub_times(freq, year, n, cal)
    ch.equal("steps", len(ds["time"]), len(want))
    ch.equal("times", [at(t) for t in ds["time"].values], [w[1] for w in want])
    ch.equal("first bounds", [at(t) for t in ds["time_bnds"].values[:, 0]], [w[0] for w in want])
    ch.equal("second bounds", [at(t) for t in ds["time_bnds"].values[:, 1]], [w[2] for w in want])
    ch.equal("average_T1", [at(t) for t in ds["average_T1"].values], [w[0] for w in want])
    ch.equal("average_T2", [at(t) for t in ds["average_T2"].values], [w[2] for w in want])
    d = [x / dt.timedelta(days=1) if isinstance(x, dt.timedelta) else x / np.timedelta64(1, "D") for x in ds["average_DT"].values]
    ch.equal("durations", [float(x) for x in d], [float(w[3]) for w in want])
    ch.equal("calendar", ds["time"].attrs.get("calendar_type"), cal)


def early(ch, year, fn, *a, **k):
    """Years before 1000 are listed as failing."""
    kind, r = ch.attempt(fn, *a, **k)
    if kind == "raised" and year < 1000 and isinstance(r, ValueError) and f"{year}-01-01" in str(r):
        ch.known("YEAR-DIGITS", f"start_year={year}: {r}")
        return None
    if kind == "raised":
        ch.call(fn, *a, **k)
    return r


def stub(ch):
    cal = ch.free("calendar", CALENDARS)
    year = ch.free("start year", YEARS + EARLY)
    freq = ch.free("frequency", ["MS", "D"])
    n = ch.free("years", [1, 2, 5] if freq == "MS" else [1, 2])
    ch.state(cal, year, freq, n)
    ds = early(ch, year, tdtime.generate_time_stub, start_year=year, nyears=n, calendar=cal, frequency=freq)
    if ds is not None:
        check_axis(ch, ds, freq, year, n, cal)


def frequencies(ch):
    f = ch.free("frequency", ["M", "h", "", "YS", "ms", "d", None])
    fn = ch.free("function", [tdtime.generate_time_stub, test_data.generate_test_data_time])
    ch.state(f, fn.__name__)
    e = ch.rejects("unsupported frequency", fn, frequency=f)
    ch.true("reason", isinstance(e, ValueError))


def daily(ch):
    cal = ch.free("calendar", CALENDARS)
    year = ch.free("start year", YEARS + EARLY)
    n = ch.free("years", [0, 1, 2, 3, 5, 9])
    ch.state(cal, year, n)
    got = ch.call(tdtime.generate_daily_timeaxis, start_year=year, nyears=n, calendar=cal)
    total = sum(model.year_days(y, cal) for y in range(year, year + n))
    want = days((year, 1, 1), total, cal)
    ch.equal("days", [at(t) for t in got], [w + (0, 0, 0) for w in want])


def months_of_data(ch):
    cal = ch.pick("calendar", CALENDARS)
    year = ch.pick("start year", YEARS + EARLY[:2])
    n = ch.pick("years", [1, 0, 2, 5])
    seed = ch.pick("seed", [123, 0, 1, 7, 2**31])
    which = ch.free("generator", ["generate_test_data", "generate_test_data_uv", "generate_test_data_time", "time D"])
    freq = "D" if which == "time D" else "MS"
    kw = dict(start_year=year, nyears=n, calendar=cal, seed=seed)
    if which == "time D":
        kw["frequency"] = "D"
    fn = getattr(test_data, "generate_test_data_time" if which == "time D" else which)
    if n == 0 and fn is test_data.generate_test_data_time:
        return
    ch.state(cal, year, n, seed, which)
    a = early(ch, year, fn, **kw) if n else ch.call(fn, **kw)
    if a is None:
        return
    b = ch.call(fn, **kw)
    ch.equal("same call, same data", digest(a), digest(b))
    other = ch.call(fn, **{**kw, "seed": seed + 1})
    probe = {"generate_test_data": "thetao", "generate_test_data_uv": "uo"}.get(which, "var_a")
    ch.true("the seed matters", not np.array_equal(a[probe].values, other[probe].values))
    if n:
        check_axis(ch, a, freq, year, n, cal)
        nt = len(stub_times(freq, year, n, cal))
    else:
        ch.equal("numbered times", a["time"].values.tolist(), [1.0, 2.0, 3.0, 4.0, 5.0])
        nt = 5
    if which == "generate_test_data":
        util.validate_dataset(a, additional_vars=["deptho", "z_i"])
        for v in ("thetao", "so", "volcello"):
            ch.equal(f"shape of {v}", a[v].sizes, {"time": nt, "z_l": 5, "yh": 5, "xh": 5})
            ch.true(f"finite {v}", np.isfinite(a[v].values).all())
        ch.equal("levels between interfaces", a["z_l"].values.tolist(), (0.5 * (a["z_i"].values[1:] + a["z_i"].values[:-1])).tolist())
        ch.true("depths", (a["deptho"].values >= 0).all() and (a["deptho"].values <= a["z_i"].values[-1]).all())
        ch.close("ocean area", float(a["areacello"].sum()), 3.6111092e14, 1e-12)
        if nt <= 24:
            ch.true("usable", "steric" in ch.call(momlevel.steric, a)[0])
    elif which == "generate_test_data_uv":
        ch.equal("shape of uo", dict(a["uo"].sizes), {"time": nt, "z_l": 5, "yh": 5, "xq": 5})
        ch.equal("shape of vo", dict(a["vo"].sizes), {"time": nt, "z_l": 5, "yq": 5, "xh": 5})
        ch.close("area", float(a["areacello_bu"].sum()), 3.6111092e14, 1e-12)
        ch.true("vorticity", np.isfinite(ch.call(momlevel.derived.calc_rel_vort, a).values).any())
    else:
        for v in ("var_a", "var_b"):
            ch.equal(f"shape of {v}", dict(a[v].sizes), {"time": nt, "lat": 5, "lon": 5})
            ch.true(f"finite {v}", np.isfinite(a[v].values).all())
        if n and freq == "MS":
            r = ch.call(util.annual_average, a[["var_a"]])
            ch.equal("years", len(r["time"]), n)


def grids(ch):
    seed = ch.free("seed", [123, 0, 5, 99])
    point = ch.free("point", ["h", "u", "v", "c"])
    deptho = ch.free("depth", [True, False])
    ch.state(seed, point, deptho)
    a = ch.call(tripolar.xy_fields, point=point, seed=seed)
    b = ch.call(tripolar.xy_fields, point=point, seed=seed)
    ch.equal("reproducible", digest(a), digest(b))
    x = {"h": "xh", "u": "xq", "v": "xh", "c": "xq"}[point]
    y = {"h": "yh", "u": "yh", "v": "yq", "c": "yq"}[point]
    s = {"h": "", "u": "_u", "v": "_v", "c": "_c"}[point]
    area = {"h": "areacello", "u": "areacello_cu", "v": "areacello_cv", "c": "areacello_bu"}[point]
    ch.equal("dimensions", dict(a.sizes), {x: 5, y: 5})
    ch.equal("variables", set(a.data_vars), {"geolon" + s, "geolat" + s, area})
    ch.close("total area", float(a[area].sum()), 3.6111092e14, 1e-12)
    ch.true("positive areas", (a[area].values > 0).all())
    lo, la = a["geolon" + s].transpose(y, x).values, a["geolat" + s].transpose(y, x).values
    ch.close("longitudes", lo, np.tile(36.0 + 72.0 * np.arange(5), (5, 1)), 1e-12)
    ch.close("latitudes", la, np.tile((-72.0 + 36.0 * np.arange(5))[:, None], (1, 5)), 1e-12)
    z = ch.call(tripolar.zlevel_fields, include_deptho=deptho, seed=seed)
    ch.equal("reproducible levels", digest(z), digest(ch.call(tripolar.zlevel_fields, include_deptho=deptho, seed=seed)))
    ch.equal("depth field", "deptho" in z, deptho)
    if deptho:
        ch.true("depth within grid", (z["deptho"].values >= 0).all() and (z["deptho"].values <= z["z_i"].values[-1]).all())
    d = ch.call(test_data.generate_test_data_dz, seed=seed)
    ch.equal("reproducible columns", digest(d), digest(ch.call(test_data.generate_test_data_dz, seed=seed)))
    t = ch.call(momlevel.derived.calc_dz, d.z_l, d.z_i, d.deptho)
    ch.close("columns add up to the depth", t.sum("z_l").values, np.nan_to_num(d.deptho.values), 1e-12, 1e-9)


SCENARIOS = [
    Scenario(stub, 0),
    Scenario(frequencies, 0),
    Scenario(daily, 0),
    Scenario(months_of_data, 2, 4),
    Scenario(grids, 0),
]
ASSUMPTIONS = ["start years listed in mc/props/c26.py; the reform of October 1582 is not part of any axis"]
