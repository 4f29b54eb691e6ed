"""Small, sharp inputs: ocean datasets with every shape, mask and spelling we enumerate."""

import cftime
import numpy as np
import xarray as xr

OCEAN_AREA = 3.6111092e14
_G = 0.6180339887498949


def weyl(n, salt=0):
    """n distinct, deterministic numbers in (0, 1)."""
    k = np.arange(1, n + 1) + 17 * salt
    return (k * _G) % 1.0


def pattern(shape, lo, hi, salt=0):
    n = int(np.prod(shape)) if len(shape) else 1
    return (lo + (hi - lo) * weyl(n, salt)).reshape(shape)


VALUES = {
    # name: (T lo, T hi, S lo, S hi)
    "mixed": (-1.5, 28.0, 31.0, 37.0),
    "polar": (-2.5, 0.5, 30.0, 34.9),
    "fresh": (0.0, 25.0, 0.0, 4.0),
    "hot": (29.0, 40.0, 36.0, 42.0),
    "tiny": (9.9999, 10.0001, 34.9999, 35.0001),
    "zero": (0.0, 0.0, 0.0, 0.0),
    "wide": (-10.0, 50.0, 0.0, 60.0),
}

ZGRID = {
    "uneven": [0.0, 5.0, 15.0, 185.0, 1815.0, 6185.0, 7000.0],
    "even": [0.0, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0],
    "thin": [0.0, 0.5, 1.0, 2.0, 2.5, 3.0, 9.0],
    "hadal": [0.0, 4000.0, 9000.0, 10500.0, 12000.0, 15000.0, 20000.0],
    "offset": [4.0, 9.0, 20.0, 500.0, 501.0, 3000.0, 3001.0],
}


# many levels: stretched like an ocean model's
_DEEP = list(np.cumsum([0.0] + [2.0 * 1.055**k for k in range(90)]))
ZGRID["deep"] = _DEEP


def depths(kind, z_i, ny, nx):
    """Bathymetry on the given interfaces."""
    bot = float(z_i[-1])
    n = ny * nx
    if kind == "partial":
        v = [0.0 + bot * w for w in weyl(n, 5)]
    elif kind == "full":
        v = [bot] * n
    elif kind == "below":
        v = [bot * (1.5 + k) for k in range(n)]
    elif kind == "interfaces":
        v = [float(z_i[k % len(z_i)]) for k in range(1, n + 1)]
    elif kind == "zero":
        v = [0.0 if k % 2 else bot * 0.6 for k in range(n)]
    elif kind == "nan":
        v = [np.nan if k % 2 == 0 else bot * 0.7 for k in range(n)]
    elif kind == "shallow":
        v = [float(z_i[1]) * w for w in weyl(n, 9)]
    else:
        raise KeyError(kind)
    return np.array(v).reshape(ny, nx)


def cf_months(year, nmonths, calendar):
    out = []
    y, m = year, 1
    for _ in range(nmonths):
        out.append(cftime.datetime(y, m, 15, calendar=calendar))
        m += 1
        if m == 13:
            y, m = y + 1, 1
    return out


def ocean(
    nt=2,
    nz=3,
    ny=2,
    nx=2,
    values="mixed",
    depth="partial",
    zgrid="uneven",
    land="none",
    area="uneven",
    dtype="f8",
    time="number",
    coords2d=False,
    salt=0,
    levels="middle",
    static="f8",
    bare=False,
):
    """A valid (t, z, y, x) dataset.  Returns (dataset, dict of float64 numpy arrays)."""
    z_i = np.array(ZGRID[zgrid][: nz + 1])
    w = {"middle": 0.5, "high": 0.3, "low": 0.8, "whole": 0.5}[levels]
    z_l = z_i[:-1] + w * (z_i[1:] - z_i[:-1])
    if levels == "whole":
        z_l = np.ceil(z_l).astype(int)
    tl, th, sl, sh = VALUES[values]
    shp = (nt, nz, ny, nx)
    T = pattern(shp, tl, th, salt + 1)
    S = pattern(shp, sl, sh, salt + 2)
    V = pattern(shp, 800.0, 1200.0, salt + 3)
    A = np.ones((ny, nx)) if area == "even" else pattern((ny, nx), 70.0, 130.0, salt + 4)
    A = A / A.sum() * OCEAN_AREA
    D = depths(depth, z_i, ny, nx)
    m = land_mask(land, nz, ny, nx)
    if static != "f8":  # how the grid itself is stored
        V, A, D = (np.round(F).astype(static) for F in (V, A, D))
    if static == "i8":
        assert not m.any() and not np.isnan(D).any()
    for F in (T, S, V):
        if m.any():
            F[:, m] = np.nan
    if dtype in ("i8",):
        T = np.round(T)
        S = np.round(S)
        assert not m.any()
    dt = {"f8": "f8", "f4": "f4", "i8": "i8"}[dtype]
    T = T.astype(dt)
    S = S.astype(dt)
    if time == "number":
        tc = np.arange(1.0, nt + 1)
    elif time == "reversed":
        tc = np.arange(nt, 0, -1.0)
    else:
        cal, year = time
        tc = cf_months(year, nt, cal)
    ds = xr.Dataset()
    ds["time"] = xr.DataArray(tc, dims="time", attrs={"long_name": "time", "axis": "T"})
    ds["z_i"] = xr.DataArray(z_i, dims="z_i", attrs={"units": "m", "long_name": "zi"})
    ds["z_l"] = xr.DataArray(z_l, dims="z_l", attrs={"units": "m", "long_name": "zl"})
    ds["yh"] = xr.DataArray(np.arange(ny) * 10.0 + 5, dims="yh", attrs={"axis": "Y"})
    ds["xh"] = xr.DataArray(np.arange(nx) * 20.0 - 30, dims="xh", attrs={"axis": "X"})
    dims = ("time", "z_l", "yh", "xh")
    ds["thetao"] = xr.DataArray(T, dims=dims, attrs={"units": "degC", "long_name": "T"})
    ds["so"] = xr.DataArray(S, dims=dims, attrs={"units": "psu", "long_name": "S"})
    ds["volcello"] = xr.DataArray(V, dims=dims, attrs={"units": "m3"})
    ds["areacello"] = xr.DataArray(A, dims=dims[2:], attrs={"units": "m2"})
    ds["deptho"] = xr.DataArray(D, dims=dims[2:], attrs={"units": "m"})
    ds.attrs = {"title": "ocean"}
    if bare:
        ds = ds.drop_vars(["yh", "xh"])
    if coords2d:
        gx, gy = np.meshgrid(np.arange(nx) * 20.0 - 30, np.arange(ny) * 10.0 + 5)
        ds = ds.assign_coords(geolon=(dims[2:], gx + 0.5), geolat=(dims[2:], gy - 0.5))
    arr = dict(
        T=T.astype(float),
        S=S.astype(float),
        V=V if static == "f8" else V.astype(float),
        A=A if static == "f8" else A.astype(float),
        D=D if static == "f8" else D.astype(float),
        z_i=z_i,
        z_l=z_l.astype(float),
        time=list(tc),
    )
    return ds, arr


def land_mask(kind, nz, ny, nx):
    """True = land, (z, y, x)."""
    m = np.zeros((nz, ny, nx), bool)
    if kind == "none":
        return m
    if isinstance(kind, int):  # every mask: bit pattern
        return np.array([(kind >> b) & 1 for b in range(m.size)], bool).reshape(m.shape)
    if kind == "column":
        m[:, 0, 0] = True
    elif kind == "bottom":
        m[-1, -1, -1] = True
        m[nz // 2 :, 0, -1] = True
    elif kind == "cavity":  # surface missing, deeper cells wet
        m[0, 0, 0] = True
    elif kind == "one wet":
        m[:] = True
        m[:, -1, -1] = False
    else:
        raise KeyError(kind)
    return m


def identical(a, b):
    """Same type, names, dims, coords, attrs, encoding, dtype and bits."""
    from mc.core import digest

    return digest(a) == digest(b)
