"""C23 - tide gauge extraction."""

import itertools
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from momlevel import tidegauge
from mc import model, target
from mc.core import Scenario
from mc.ocean import pattern
from mc.props.c22 import sphere

PERMS = [("t", "y", "x"), ("y", "x", "t"), ("x", "y", "t"), ("t", "x", "y"), ("x", "t", "y"), ("y", "t", "x")]
GAUGES = [
    ("ALPHA", 40.02, -70.1),
    ("BRAVO", 41.4, -69.2),
    ("CHARLIE", 42.1, -68.0),
    ("DELTA", 45.0, -60.0),
    ("ECHO", 40.6, 291.0),
    ("FOXTROT", 41.0, -71.5),
]


def grid(kind, ny, nx):
    la = 40.0 + np.arange(ny) * 1.0
    lo = -70.0 + np.arange(nx) * 1.0
    gx, gy = np.meshgrid(lo, la)
    if kind == "curved":
        gy = gy + 0.2 * np.arange(nx)[None, :]
        gx = gx - 0.15 * np.arange(ny)[:, None]
    return la, lo, gy, gx


def great_circle(y, x, la, lo, r=6378.0):
    y, x, la, lo = np.deg2rad(y), np.deg2rad(x), np.deg2rad(la), np.deg2rad(lo)
    h = np.sin((la - y) / 2) ** 2 + np.cos(y) * np.cos(la) * np.sin((lo - x) / 2) ** 2
    return 2 * r * np.arcsin(np.sqrt(np.minimum(1.0, h)))


def nearest(gy, gx, ok, lat, lon):
    """distance and the set of nearest valid points."""
    best, pts = None, []
    for j, i in np.argwhere(ok):
        d = model.haversine_km(lat, lon, gy[j, i], gx[j, i])
        if best is None or d < best - 1e-9:
            best, pts = d, [(j, i)]
        elif abs(d - best) <= 1e-9:
            pts.append((j, i))
    return best, pts


def compare(ch, got, vals, gy, gx, ok, gauges, threshold, dims, attrs, labels, tname="time"):
    want = {}
    for name, lat, lon in gauges:
        d, pts = nearest(gy, gx, ok, lat, lon)
        if threshold is None or d <= threshold:
            want[name] = (lat, lon, d, pts)
    ch.equal("gauges found", sorted(got.data_vars), sorted(want))
    for name, (lat, lon, d, pts) in want.items():
        g = got[name]
        ch.equal(f"dims of {name}", g.dims, (tname,))
        hit = [p for p in pts if np.array_equal(g.values, vals[:, p[0], p[1]], equal_nan=True)]
        ch.checks += 1
        ch.true(
            f"series of {name}", hit, f"got {g.values}, nearest points {pts} have {[vals[:, j, i] for j, i in pts]}"
        )
        ch.outcomes.add((name, str(hit[0])))
        ch.true("distance", abs(g.attrs["distance"] - d) <= 1e-6 * (1 + d), f"{name}: {g.attrs['distance']} vs {d}")
        ch.equal("real coordinates", tuple(map(float, g.attrs["real_coords"])), (float(lat), float(lon)))
        dv = dict(zip(g.attrs["dims"], g.attrs["dim_vals"]))
        mc_ = tuple(map(float, g.attrs["model_coords"]))
        ch.true(
            "mapping in the attributes",
            any(
                float(dv[dims[0]]) == float(labels[0][j])
                and float(dv[dims[1]]) == float(labels[1][i])
                and mc_ == (float(gy[j, i]), float(gx[j, i]))
                for j, i in hit
            ),
            f"{name}: {g.attrs['dims']} {g.attrs['dim_vals']} {mc_}",
        )
        for k, v in attrs.items():
            ch.equal(f"attribute {k}", g.attrs.get(k), v)


def write_csv(ch, gauges, column="name", extra=True, file="g.csv"):
    d = tempfile.mkdtemp(prefix="momlevel-c23-")
    df = pd.DataFrame({column: [g[0] for g in gauges], "lat": [g[1] for g in gauges], "lon": [g[2] for g in gauges]})
    if extra:
        df["PSMSLID"] = [7 + k for k in range(len(gauges))]
    df.to_csv(os.path.join(d, file), index=False)
    return d


def extraction(ch):
    curve = ch.free("grid", ["curved", "regular"])
    perm = ch.free("array layout", PERMS)
    xorder = ch.pick("x coordinate layout", ["yx", "xy"])
    yorder = ch.pick("y coordinate layout", ["yx", "xy"])
    morder = ch.pick("mask layout", ["yx", "xy"])
    mask = ch.pick("mask", ["some", "none", "nan", "one", "bool", "int", "part"])
    form = ch.pick("coordinates", ["names", "arrays", "1-d names", "1-d arrays", "other names"])
    dims = ch.pick("dimension names", [("yh", "xh"), ("lat", "lon"), ("j", "i")])
    index = ch.pick("dimension coordinates", [True, False])
    thr = ch.pick("threshold", [None, 60.0, 150.0, 10.0, 0.0])
    size = ch.pick("size", [(3, 4), (2, 2), (1, 3), (3, 1), (4, 3)])
    extra = ch.pick("scalar coordinate", [False, True])
    column = ch.pick("name column", ["name", "PSMSL_site"])
    rows = ch.pick("gauge order", ["forward", "backward"])
    tname = ch.pick("time name", ["time", "T"])
    mname = ch.pick("mask name", ["wet", "mask", None])
    clash = ch.pick("attributes", ["plain", "of an extracted series"])
    blank = ch.pick("coordinates on land", ["given", "missing"])
    quiet = ch.pick("warnings", ["default", "on", "off"])
    lazy = ch.pick("lazy", [False, True])
    file = ch.pick("file", ["g.csv", "sites.txt", "gauges", "G.CSV", "us", "global.csv", "a path object"])
    content = ch.pick("values", ["numbers", "a point without", "every other missing", "nothing but missing", "zeros", "integers", "single", "infinite"])
    ny, nx = size
    la, lo, gy, gx = grid(curve, ny, nx)
    one_d = form.startswith("1-d")
    if one_d and (not index or curve == "curved"):
        ch.prune()
    if blank == "missing" and (one_d or mask == "none"):
        ch.prune()
    yd, xd = dims
    vals = pattern((3, ny, nx), 0.0, 1.0, 6) + np.arange(ny * nx).reshape(ny, nx)
    if content == "a point without":
        vals[:, 0, 0] = np.nan
        vals[:, -1, -1] = np.nan
    elif content == "every other missing":
        vals.ravel()[::2] = np.nan
    elif content == "nothing but missing":
        vals[:] = np.nan
    elif content == "zeros":
        vals[:] = 0.0
    elif content == "integers":
        vals = np.round(vals * 7).astype(int)
    elif content == "single":
        vals = vals.astype("f4")
    elif content == "infinite":
        vals[1] = np.inf
    if one_d:
        labels = (la, lo)
    elif index:
        labels = (np.arange(ny) * 10.0 + 0.1, np.arange(nx) * 3.0 - 7.7)
    else:
        labels = (np.arange(ny), np.arange(nx))
    cs = {tname: np.arange(3) * 1.5}
    if index:
        cs[yd], cs[xd] = labels
    da = xr.DataArray(vals, dims=(tname, yd, xd), coords=cs, name="zos", attrs={"units": "m", "long_name": "ssh"})
    ok = np.ones((ny, nx), bool)
    if mask in ("some", "nan", "bool", "int", "part"):
        ok = (np.arange(ny * nx) % 3 != 1).reshape(ny, nx)
    elif mask == "one":
        ok[:] = False
        ok[-1, 0] = True
    if blank == "missing":
        gx, gy = np.where(ok, gx, np.nan), np.where(ok, gy, np.nan)
    xn, yn = ("geolon", "geolat") if form != "other names" else ("TLON", "TLAT")
    base = {k: v for k, v in cs.items() if k in (yd, xd)}
    X = xr.DataArray(gx, dims=(yd, xd), coords=base, name=xn)
    Y = xr.DataArray(gy, dims=(yd, xd), coords=base, name=yn)
    X = X if xorder == "yx" else X.transpose()
    Y = Y if yorder == "yx" else Y.transpose()
    kw = {}
    if form in ("names", "other names"):
        da = da.assign_coords({xn: X, yn: Y})
        if form == "other names":
            kw.update(xcoord=xn, ycoord=yn)
    elif form == "arrays":
        kw.update(xcoord=X, ycoord=Y)
    elif form == "1-d names":
        kw.update(xcoord=xd, ycoord=yd)
    else:
        kw.update(xcoord=da[xd], ycoord=da[yd])
    if mask != "none":
        m = ok.astype(float)
        if mask == "nan":
            m = np.where(ok, 1.0, np.nan)
        elif mask == "part":  # only cells that are all water count
            m = np.where(ok, 1.0, np.resize([0.5, 2.0, -1.0, 0.999], ok.shape))
        elif mask in ("bool", "int"):
            m = ok.astype(mask)
        M = xr.DataArray(m, dims=(yd, xd), coords=base, name=mname)
        kw["mask"] = M if morder == "yx" else M.transpose()
    if extra:
        da = da.assign_coords(member=2)
    if clash != "plain":  # the mapping of this extraction counts
        da.attrs.update(
            name="OLD", distance=-1.0, dims=("a", "b"), dim_vals=(0, 0), model_coords=(9.0, 9.0), real_coords=(8.0, 8.0)
        )
    da = da.transpose(*[{"t": tname, "y": yd, "x": xd}[d] for d in perm])
    if thr is not None:
        kw["threshold"] = thr
    if quiet != "default":
        kw["disable_warning"] = quiet == "off"
    if lazy:
        da = da.chunk({xd: 1})
    gauges = GAUGES if rows == "forward" else GAUGES[::-1]
    path = file != "a path object"
    file = file if path else "p.csv"
    d = write_csv(ch, gauges, column, file=file)
    try:
        ch.state(da, sorted(kw), ok, thr, file, path)
        where = os.path.join(d, file) if path else pathlib.Path(d, file)
        got = ch.call(tidegauge.extract_tidegauge, da, csv=where, **kw)
    finally:
        shutil.rmtree(d)
    compare(ch, got, vals, gy, gx, ok, gauges, thr, dims, {"units": "m", "long_name": "ssh"}, labels, tname)


NAMES = [
    ["Bay, North", "Bay, South", "Bay", "Bay (old)", "Bay; East", "Bay\tWest"],
    ["alpha", "ALPHA", "Alpha", "aLPHA", "alpha ", " alpha"],
    ["A/B", "A.B", "A-B", "A_B", "A B", "A'B"],
    ["Saint-Malo", "Þórshöfn", "Île d'Yeu", "釜山", "São Tomé", "O’Neill"],
    ["zos", "geolon", "geolat", "wet", "lat", "name"],
    ["x" * 200 + str(k) for k in range(6)],
    ["1st", "2.5", "-3", "1e5", "0x10", "7 "],
    ["TRUE", "none", "No", "Inf", "on", "y"],
]


def gauge_names(ch):
    """The name of a gauge is whatever the table says, letter for letter."""
    names = ch.free("names", NAMES)
    perm = ch.free("array layout", PERMS)
    thr = ch.free("threshold", [None, 150.0])
    rows = ch.free("gauge order", [1, -1])
    column = ch.free("name column", ["name", "PSMSL_site"])
    la, lo, gy, gx = grid("curved", 3, 4)
    vals = pattern((3, 3, 4), 0.0, 1.0, 6) + np.arange(12).reshape(3, 4)
    cs = {"yh": np.arange(3) * 10.0, "xh": np.arange(4) * 3.0 - 7.7}
    da = xr.DataArray(vals, dims=("time", "yh", "xh"), coords=cs, name="zos", attrs={"units": "m"})
    da = da.assign_coords(geolon=(("yh", "xh"), gx), geolat=(("yh", "xh"), gy))
    da = da.transpose(*[{"t": "time", "y": "yh", "x": "xh"}[d] for d in perm])
    gauges = [(n,) + g[1:] for n, g in zip(names, GAUGES)][::rows]
    ch.state(names, perm, thr, rows, column)
    d = write_csv(ch, gauges, column)
    try:
        got = ch.call(tidegauge.extract_tidegauge, da, csv=os.path.join(d, "g.csv"), **({} if thr is None else {"threshold": thr}))
    finally:
        shutil.rmtree(d)
    compare(ch, got, vals, gy, gx, np.ones((3, 4), bool), gauges, thr, ("yh", "xh"), {"units": "m"}, (cs["yh"], cs["xh"]))
    for n in got.data_vars:
        ch.equal("name attribute", got[n].attrs["name"], n)


def every_mask(ch):
    """Every mask of a 2x3 grid in both orders."""
    bits = ch.free("mask", list(range(1, 64)))
    morder = ch.free("mask layout", ["yx", "xy"])
    perm = ch.free("array layout", [PERMS[0], PERMS[4]])
    la, lo, gy, gx = grid("curved", 2, 3)
    ok = np.array([(bits >> k) & 1 for k in range(6)], bool).reshape(2, 3)
    vals = pattern((3, 2, 3), 0.0, 1.0, 6)
    cs = {"yh": [5.0, 6.0], "xh": [1.0, 2.0, 3.0]}
    X = xr.DataArray(gx, dims=("yh", "xh"), coords=cs, name="geolon")
    Y = xr.DataArray(gy, dims=("yh", "xh"), coords=cs, name="geolat")
    da = xr.DataArray(vals, dims=("time", "yh", "xh"), coords={**cs, "time": [0, 1, 2]}, name="z")
    da = da.assign_coords(geolon=X, geolat=Y)
    M = xr.DataArray(ok.astype(float), dims=("yh", "xh"), coords=cs, name="wet")
    M = M if morder == "yx" else M.transpose()
    da = da.transpose(*[{"t": "time", "y": "yh", "x": "xh"}[d] for d in perm])
    ch.state(bits, morder)
    d = write_csv(ch, GAUGES)
    try:
        got = ch.call(tidegauge.extract_tidegauge, da, csv=os.path.join(d, "g.csv"), mask=M)
    finally:
        shutil.rmtree(d)
    compare(ch, got, vals, gy, gx, ok, GAUGES, None, ("yh", "xh"), {}, (cs["yh"], cs["xh"]))


def builtin_lists(ch):
    """The lists that come with the package, on a coarse global grid."""
    which = ch.free("list", [None, "us", "global"])
    conv = ch.free("longitudes", ["-180..180", "0..360", "-300..60"])
    thr = ch.free("threshold", [None, 300.0, 1500.0])
    form = ch.free("coordinates", ["2-d", "1-d"])
    lo0 = {"-180..180": -175.0, "0..360": 5.0, "-300..60": -295.0}[conv]
    la = np.arange(-85.0, 90.0, 17.0)
    lo = lo0 + np.arange(18) * 20.0
    gx, gy = np.meshgrid(lo, la)
    vals = pattern((2,) + gx.shape, 0.0, 1.0, 2)
    da = xr.DataArray(vals, dims=("time", "lat", "lon"), coords={"lat": la, "lon": lo}, name="z")
    kw = {} if which is None else {"csv": which}
    if thr:
        kw["threshold"] = thr
    if form == "1-d":
        kw.update(xcoord="lon", ycoord="lat")
    else:
        da = da.assign_coords(geolon=(("lat", "lon"), gx), geolat=(("lat", "lon"), gy))
    df = pd.read_csv(
        os.path.join(target.SRC, "momlevel/resources", f"{which or 'us'}_tide_gauges.csv"), encoding="utf-8-sig"
    )
    seen = {}
    for n, y, x in zip(df["PSMSL_site"], df["lat"], df["lon"]):
        seen.setdefault(n, []).append((y, x))
    gauges = [(n, *p[0]) for n, p in seen.items() if len(p) == 1]
    twice = {n for n, p in seen.items() if len(p) > 1}
    ch.state(which, conv, thr, form)
    got = ch.call(tidegauge.extract_tidegauge, da, **kw)
    got = got.drop_vars([n for n in twice if n in got])
    ok = np.ones(gx.shape, bool)
    compare(ch, got, vals, gy, gx, ok, gauges, thr, ("lat", "lon"), {}, (la, lo))


def refused(ch):
    case = ch.free(
        "case",
        ["fine", "numpy array", "no such x", "no such y", "x is a list", "y is a number", "mask is numpy", "ranks differ", "dims differ", "no such file", "dataset"],
    )
    la, lo, gy, gx = grid("curved", 2, 3)
    da = xr.DataArray(np.zeros((2, 2, 3)), dims=("time", "yh", "xh"), coords={"yh": [1.0, 2.0], "xh": [1.0, 2.0, 3.0]}, name="z")
    da = da.assign_coords(geolon=(("yh", "xh"), gx), geolat=(("yh", "xh"), gy))
    kw = dict(
        {
            "no such x": dict(xcoord="nope"),
            "no such y": dict(ycoord="nope"),
            "x is a list": dict(xcoord=[1.0, 2.0, 3.0]),
            "y is a number": dict(ycoord=3.0),
            "mask is numpy": dict(mask=np.ones((2, 3))),
            "ranks differ": dict(xcoord="xh"),
            "dims differ": dict(ycoord=xr.DataArray(gy, dims=("a", "b"), name="geolat")),
            "no such file": dict(csv="/nonexistent/file.csv"),
        }.get(case, {})
    )
    obj = da.values if case == "numpy array" else da.to_dataset() if case == "dataset" else da
    ch.state(case)
    if case == "fine":
        ch.call(tidegauge.extract_tidegauge, obj)
    else:
        ch.rejects(case, tidegauge.extract_tidegauge, obj, **kw)


def many_gauges(ch):
    """A model-size grid and a few hundred gauges."""
    curve = ch.free("grid", ["-300..60", "-180..180", "0..360", "wrapped", "fold"])
    size = ch.free("size", [(45, 90), (6, 400)])
    perm = ch.free("array layout", [PERMS[0], PERMS[2], PERMS[4]])
    mask = ch.free("mask", ["none", "some", "few"])
    thr = ch.free("threshold", [None, 250.0])
    morder = ch.free("mask layout", ["yx", "xy"])
    ny, nx = size
    gy, gx = sphere(curve, ny, nx)
    j, i = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    ok = {"none": np.ones((ny, nx), bool), "some": ((i * 7 // nx) % 2 == 0) | ((j * 5 // ny) % 3 == 0), "few": (i * ny + j) % 211 == 5}[mask]
    if mask == "none" and morder == "xy":
        ch.prune()
    vals = pattern((3, ny, nx), 0.0, 1.0, 6) + (j * nx + i)
    cs = {"yh": np.arange(ny) * 0.7 - 60.0, "xh": np.arange(nx) * 1.3 - 299.0}
    X = xr.DataArray(gx, dims=("yh", "xh"), coords=cs, name="geolon")
    Y = xr.DataArray(gy, dims=("yh", "xh"), coords=cs, name="geolat")
    da = xr.DataArray(vals, dims=("time", "yh", "xh"), coords={**cs, "time": [0, 1, 2]}, name="z")
    da = da.assign_coords(geolon=X, geolat=Y)
    da = da.transpose(*[{"t": "time", "y": "yh", "x": "xh"}[d] for d in perm])
    M = xr.DataArray(ok.astype(float), dims=("yh", "xh"), coords=cs, name="wet")
    kw = {} if mask == "none" else {"mask": M if morder == "yx" else M.transpose()}
    if thr:
        kw["threshold"] = thr
    gauges = [
        (f"STATION {a} {b}", -85.3 + 13.1 * a, -179.6 + 17.3 * b) for a in range(14) for b in range(21)
    ]
    ch.state(curve, size, perm, mask, thr, morder)
    d = write_csv(ch, gauges)
    try:
        got = ch.call(tidegauge.extract_tidegauge, da, csv=os.path.join(d, "g.csv"), **kw)
    finally:
        shutil.rmtree(d)
    la, lo = gy[ok], gx[ok]
    jj, ii = j[ok], i[ok]
    found = 0
    for name, y, x in gauges:
        dist = great_circle(y, x, la, lo)
        best = dist.min()
        if thr is not None and abs(best - thr) < 1e-6:
            continue
        ch.true(f"{name} present or not", (name in got) == (thr is None or best <= thr), f"distance {best}")
        if name not in got:
            continue
        found += 1
        near = np.flatnonzero(dist <= best + 1e-6)
        g = got[name]
        ch.true(
            f"series of {name}",
            g.dims == ("time",) and any(np.array_equal(g.values, vals[:, jj[k], ii[k]]) for k in near),
            f"got {g.values}, want one of {[(jj[k], ii[k]) for k in near]}",
        )
        ch.true("distance", abs(g.attrs["distance"] - best) <= 1e-6 * (1 + best))
    ch.true("nothing else", len(got.data_vars) - found <= 1)


def more_dimensions(ch):
    """Dimensions other than the horizontal ones stay, in every order."""
    order = ch.free("layout", list(itertools.permutations(["time", "z_l", "yh", "xh"])) + list(itertools.permutations(["yh", "xh"])))
    masked = ch.free("mask", [False, True])
    la, lo, gy, gx = grid("curved", 2, 3)
    vals = pattern((3, 2, 2, 3), 0.0, 1.0, 6)
    cs = {"yh": [5.0, 6.0], "xh": [1.0, 2.0, 3.0]}
    ok = np.ones((2, 3), bool)
    if masked:
        ok[0, 1] = ok[1, 2] = False
    da = xr.DataArray(vals, dims=("time", "z_l", "yh", "xh"), coords={**cs, "z_l": [2.0, 9.0]}, name="z")
    da = da.assign_coords(geolon=(("yh", "xh"), gx), geolat=(("yh", "xh"), gy))
    if len(order) == 2:
        da = da.isel(time=0, z_l=0)
    da = da.transpose(*order)
    kw = {"mask": xr.DataArray(ok.astype(float), dims=("yh", "xh"), coords=cs)} if masked else {}
    ch.state(order, masked)
    d = write_csv(ch, GAUGES)
    try:
        got = ch.call(tidegauge.extract_tidegauge, da, csv=os.path.join(d, "g.csv"), **kw)
    finally:
        shutil.rmtree(d)
    ch.equal("gauges", sorted(got.data_vars), sorted(g[0] for g in GAUGES))
    rest = tuple(q for q in order if q not in ("yh", "xh"))
    for name, y, x in GAUGES:
        _, pts = nearest(gy, gx, ok, y, x)
        g = got[name]
        ch.equal("dims", g.dims, rest)
        want = [da.isel(yh=a, xh=b).values for a, b in pts]
        ch.true(f"values of {name}", any(np.array_equal(g.values, w) for w in want), f"{g.values} vs {want}")


SCENARIOS = [
    Scenario(many_gauges, 0),
    Scenario(more_dimensions, 0),
    Scenario(gauge_names, 0),
    Scenario(extraction, 2, 3),
    Scenario(every_mask, 0),
    Scenario(builtin_lists, 0),
    Scenario(refused, 0),
]
ASSUMPTIONS = [
    "grids up to 4x3 (18x11 for the built-in lists), six gauges; a gauge name listed twice in the "
    "package's own table is not compared; 1-D coordinates are dimension coordinates",
]
