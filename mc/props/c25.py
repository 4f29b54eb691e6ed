"""C25 - cell areas and tiled coordinates."""

import math
import warnings

import numpy as np
import xarray as xr

from momlevel import util
from mc.core import Scenario

R0 = 6371.0e3


def cell(lat, dlat, dlon, r):
    lo = max(-90.0, lat - abs(dlat) / 2)
    hi = min(90.0, lat + abs(dlat) / 2)
    return r * r * math.radians(abs(dlon)) * (math.sin(math.radians(hi)) - math.sin(math.radians(lo)))


def given(values, form, dim, dtype):
    v = np.array(values, dtype=dtype)
    if form == "DataArray":
        return xr.DataArray(v, dims=dim, coords={dim: v}, name=dim, attrs={"units": "degrees"})
    if form == "renamed":  # the name differs from the dimension
        return xr.DataArray(v, dims=dim, coords={dim: v}, name="other_" + dim)
    if form == "list":
        return list(v)
    return v


def global_grids(ch):
    """Every global regular grid of the list, whichever way its axes run."""
    ny = ch.free("rows", [2, 3, 4, 5, 9, 18, 19, 37, 45, 180, 181])
    nx = ch.free("columns", [2, 3, 8, 36, 360])
    poles = ch.free("first row", ["half a cell from the pole", "on the pole"])
    up = ch.free("latitudes", ["south to north", "north to south"])
    east = ch.free("longitudes", ["eastward", "westward"])
    origin = ch.pick("first longitude", [0.0, -180.0, 0.5, -299.75])
    form = ch.pick("form", ["DataArray", "numpy", "list", "renamed", "mixed"])
    r = ch.pick("radius", [None, 6378.0e3, 1.0])
    dtype = ch.pick("dtype", ["f8", "i8", "i4", "i2"])
    if ny * nx > 66000:
        ch.prune()
    if poles == "on the pole":
        dlat = 180.0 / (ny - 1)
        lat = [-90.0 + k * dlat for k in range(ny)]
    else:
        dlat = 180.0 / ny
        lat = [-90.0 + (k + 0.5) * dlat for k in range(ny)]
    dlon = 360.0 / nx
    lon = [origin + k * dlon for k in range(nx)]
    if up != "south to north":
        lat = lat[::-1]
    if east != "eastward":
        lon = lon[::-1]
    if dtype != "f8" and not all(float(q).is_integer() for q in lat + lon):
        ch.prune()
    fy, fx = (form, form) if form != "mixed" else ("DataArray", "numpy")
    ch.state(ny, nx, poles, up, east, origin, form, r, dtype)
    kw = {} if r is None else {"r_earth": r}
    got = ch.call(util.standard_grid_cell_area, given(lat, fy, "lat", dtype), given(lon, fx, "lon", dtype), **kw)
    r = r or R0
    want = np.repeat(np.array([[cell(y, dlat, dlon, r)] for y in lat]), nx, axis=1)
    labelled = form in ("DataArray", "renamed")
    ch.true("labelled in, labelled out", isinstance(got, xr.DataArray) == labelled)
    if labelled:
        ch.field("areas", got, want, ("lat", "lon"), 1e-9)
        ch.equal("latitudes", list(got["lat"].values), lat)
        ch.equal("longitudes", list(got["lon"].values), lon)
        ch.equal("units", got.attrs.get("units"), "m2")
    else:
        ch.close("areas", np.asarray(got), want, 1e-9)
    ch.close("sum", float(np.sum(np.asarray(got))), 4 * math.pi * r * r, 1e-9)


def regional_grids(ch):
    dlat = ch.free("row spacing", [0.25, 1.0, 2.5, -1.0, -0.1, 10.0, 0.01, -0.01, 70.0])
    dlon = ch.free("column spacing", [0.25, 1.0, -2.0, 5.0, 0.01, 170.0, -200.0, 240.0])
    lat0 = ch.free("first latitude", [-80.0, -0.5, 0.0, 33.3, 60.0])
    n = ch.free("size", [(2, 2), (3, 2), (2, 7), (6, 3), (150, 2), (2, 300), (1100, 3)])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    names = ch.pick("names", [("lat", "lon"), ("y", "x"), ("yh", "xh")])
    form = ch.pick("form", ["DataArray", "numpy"])
    if dtype == "i8" and not all(float(q).is_integer() for q in (dlat, dlon, lat0)):
        ch.prune()
    if dtype == "f4" and 0.01 in (abs(dlat), dlon):
        ch.prune()  # not resolved in single precision
    lat = [lat0 + k * dlat for k in range(n[0])]
    if max(lat) > 89.0 or min(lat) < -89.0:
        ch.prune()
    lon = [10.0 + k * dlon for k in range(n[1])]
    ch.state(dlat, dlon, lat0, n, dtype, names, form)
    got = ch.call(
        util.standard_grid_cell_area, given(lat, form, names[0], dtype), given(lon, form, names[1], dtype)
    )
    want = np.repeat(np.array([[cell(y, dlat, dlon, R0)] for y in lat]), n[1], axis=1)
    t = 1e-3 if dtype == "f4" else 1e-9
    if form == "DataArray":
        ch.field("areas", got, want, names, t)
    else:
        ch.close("areas", got, want, t)


def tiled(ch):
    ny = ch.free("rows", [1, 2, 3, 7])
    nx = ch.free("columns", [1, 2, 3, 7])
    names = ch.free("names", [("yh", "xh"), ("lat", "lon"), ("y", "x")])
    warn = ch.free("warn", [None, True, False])
    order = ch.pick("order", ["up", "down"])
    dtype = ch.pick("dtype", ["f8", "f4", "i8"])
    x0 = ch.pick("x range", [100, -300, -185, -3, 175, 355, 500, 100000])
    y0 = ch.pick("y range", [-5, -93, 85, 60000])
    x = np.array([(k * 7) % 11 + x0 for k in range(nx)], dtype)
    y = np.array([k * 3 + y0 for k in range(ny)], dtype)
    if order == "down":
        x, y = x[::-1], y[::-1]
    X = xr.DataArray(x, dims=names[1], coords={names[1]: x}, name=names[1])
    Y = xr.DataArray(y, dims=names[0], coords={names[0]: y}, name=names[0])
    ch.state(X, Y, warn)
    kw = {} if warn is None else {"warn": warn}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        lon, lat = ch.call(util.tile_nominal_coords, X, Y, **kw)
    ch.equal("warned", len([w for w in rec if "1-D" in str(w.message)]), 0 if warn is False else 1)
    ch.field("longitude", lon, np.array([[float(x[i]) for i in range(nx)] for j in range(ny)]), names)
    ch.field("latitude", lat, np.array([[float(y[j]) for i in range(nx)] for j in range(ny)]), names)
    ch.equal("names", (lon.name, lat.name), ("geolon", "geolat"))
    for r in (lon, lat):
        ch.equal("x labels", list(r[names[1]].values), list(x))
        ch.equal("y labels", list(r[names[0]].values), list(y))


def tiled_refused(ch):
    which = ch.free("which", ["x", "y"])
    what = ch.free("given", ["numpy", "list", "number"])
    X = xr.DataArray([1.0, 2.0], dims="x", coords={"x": [1.0, 2.0]}, name="x")
    Y = X.rename("y").rename({"x": "y"})
    bad = {"numpy": np.arange(2.0), "list": [1.0, 2.0], "number": 3.0}[what]
    ch.state(which, what)
    a = (bad, Y) if which == "x" else (X, bad)
    ch.rejects("coordinates must be labelled", util.tile_nominal_coords, *a)


SCENARIOS = [
    Scenario(global_grids, 2, 3),
    Scenario(regional_grids, 2, 3),
    Scenario(tiled, 1, 2),
    Scenario(tiled_refused, 0),
]
ASSUMPTIONS = ["regular axes of at least two points; at most 40000 cells"]
