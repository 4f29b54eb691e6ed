"""C13 - adjusted stratification, wave speed, Rossby radius."""

import itertools

import numpy as np
import xarray as xr

from momlevel import derived
from mc.core import Scenario
from mc.ocean import pattern

ALPHABET = [4.0e-4, 2.5e-6, 0.0, -1.0e-5, np.nan]


def adjust(col):
    """One column, top down."""
    out, last = [], None
    for v in col:
        if np.isnan(v):
            out.append(np.nan)
            continue
        if v > 0:
            last = v
        out.append(1.0e-8 if last is None else last)
    return out


def adjusted(n2, axis):
    return np.apply_along_axis(adjust, axis, n2)


def adjusted_listed(n2, axis):
    """Finding N2-SURFACE: the 1e-8 goes to index 0 of the *first* dimension."""
    a = np.where(n2 <= 0, np.nan, n2)
    a[0] = np.where(np.isnan(a[0]), 1.0e-8, a[0])

    def ffill(c):
        out, last = [], np.nan
        for v in c:
            if not np.isnan(v):
                last = v
            out.append(last)
        return out

    a = np.apply_along_axis(ffill, axis, a)
    return np.where(np.isnan(n2), np.nan, a)


def columns(nz):
    """(z, n): every column over the alphabet."""
    return np.array(list(itertools.product(ALPHABET, repeat=nz))).T


def arrange(cols, layout, z):
    nz, n = cols.shape
    if layout == "zx":
        return cols, (z, "xh")
    if layout == "zyx":
        return cols.reshape(nz, 5, -1), (z, "yh", "xh")
    if layout == "xz":
        return np.ascontiguousarray(cols.T), ("xh", z)
    if layout == "yxz":
        return np.moveaxis(cols.reshape(nz, 5, -1), 0, -1), ("yh", "xh", z)
    if layout == "tzyx":
        v = cols.reshape(nz, 5, -1, 1) if nz == 1 else cols.reshape(nz, 5, 5, -1)
        return np.moveaxis(v, 0, 1), ("time", z, "yh", "xh")
    raise KeyError(layout)


def every_column(ch):
    nz = ch.free("nz", [1, 2, 3, 4] if ch.tier == "quick" else [1, 2, 3, 4, 5])
    layout = ch.free("layout", ["zyx", "zx", "xz", "yxz", "tzyx"])
    name = ch.pick("vertical name", ["z_l", "lev"])
    coord = ch.pick("coordinate", [True, False])
    attrs = ch.pick("attributes", [{}, {"units": "s-2", "comment": "x"}])
    dtype = ch.pick("dtype", ["f8", "f4"])
    scale = ch.pick("scale", [1.0, 1e-6, 1e6])
    if nz == 1 and layout == "tzyx":
        ch.prune()
    v, dims = arrange(columns(nz) * scale, layout, name)
    v = v.astype(dtype)
    n2 = xr.DataArray(v, dims=dims, attrs=dict(attrs))
    if coord:
        n2 = n2.assign_coords({name: np.arange(nz) * 10.0 + 5})
    kw = {} if name == "z_l" else {"zcoord": name}
    ch.state(n2)
    got = ch.call(derived.adjust_negative_n2, n2, **kw)
    ax = dims.index(name)
    f = v.astype(float)
    known = None
    if ax != 0:
        known = ("N2-SURFACE", adjusted_listed(f, ax))
    ch.field("adjusted", got, adjusted(f, ax), dims, 1e-6 if dtype == "f4" else 0.0, 0.0, known)


def single_column(ch):
    """A lone profile (one-dimensional input)."""
    nz = ch.free("nz", [1, 2, 3, 4])
    k = ch.free("column", list(range(5**3)))
    if k >= 5**nz:
        ch.prune()
    v = columns(nz)[:, k if nz < 4 else k * 5 + 2]
    n2 = xr.DataArray(v, dims="z_l")
    ch.state(n2)
    got = ch.call(derived.adjust_negative_n2, n2)
    ch.field("adjusted", got, np.array(adjust(v)), ("z_l",), 0.0)


def from_profiles(ch):
    """calc_n2(adjust_negative=True) is the adjustment of calc_n2."""
    eos = ch.free("eos", ["Wright", "linear"])
    nz = ch.free("nz", [3, 4, 5])
    layout = ch.free("layout", ["zyx", "zx", "tzyx"])
    name = ch.free("vertical name", ["z_l", "lev"])
    salt = ch.free("pattern", [0, 10, 20])
    shp = {"zyx": (nz, 3, 4), "zx": (nz, 12), "tzyx": (2, nz, 2, 3)}[layout]
    dims = {"zyx": (name, "yh", "xh"), "zx": (name, "xh"), "tzyx": ("time", name, "yh", "xh")}[layout]
    z = np.array([2.5, 10.0, 30.0, 120.0, 700.0])[:nz]
    T = xr.DataArray(pattern(shp, 0.0, 25.0, salt + 1), dims=dims, coords={name: z})
    S = xr.DataArray(pattern(shp, 30.0, 38.0, salt + 2), dims=dims, coords={name: z})
    kw = {"eos": eos}
    if name != "z_l":
        kw["zcoord"] = name
    ch.state(T, S, eos)
    raw = ch.call(derived.calc_n2, T, S, **kw)
    adj = ch.call(derived.calc_n2, T, S, adjust_negative=True, **kw)
    raw, adj = raw.transpose(*dims), adj.transpose(*dims)
    ax = dims.index(name)
    known = ("N2-SURFACE", adjusted_listed(raw.values, ax)) if ax else None
    ch.field("adjusted N2", adj, adjusted(raw.values, ax), dims, 0.0, 0.0, known)


def wave_speed(ch):
    nz = ch.free("nz", [1, 2, 3, 4])
    layout = ch.free("layout", ["zyx", "zx", "tzyx"])
    name = ch.pick("vertical name", ["z_l", "lev"])
    dzk = ch.pick("dz", ["full", "partial", "profile", "zero", "missing"])
    order = ch.pick("dz order", ["same", "reversed"])
    coord = ch.pick("coordinate", [True, False])
    thick = ch.pick("thickness", [1.0, 1e-7, 1e-4, 1e4])
    weak = ch.pick("stratification", [1.0, 1e-9, 1e3])
    if nz == 1 and layout == "tzyx":
        ch.prune()
    v, dims = arrange(columns(nz) * weak, layout, name)
    n2 = xr.DataArray(v, dims=dims)
    sdims = tuple(d for d in dims if d != "time")
    sshape = tuple(v.shape[dims.index(d)] for d in sdims)
    if dzk == "profile":
        sdims, sshape = (name,), (nz,)
    d = pattern(sshape, 1.0, 500.0, 4) * thick
    if thick == 1e4 and nz > 1:
        d[0] = 1e-6
    if dzk == "partial":
        d[-1] *= 0.1
    elif dzk == "zero":
        d[-1] = 0.0
    elif dzk == "missing":
        d[-1] = np.nan
    dz = xr.DataArray(d, dims=sdims)
    if coord:
        c = {name: np.arange(nz) * 10.0 + 5}
        n2, dz = n2.assign_coords(c), dz.assign_coords(c)
    if order == "reversed":
        dz = dz.transpose()
    kw = {} if name == "z_l" else {"zcoord": name}
    ch.state(n2, dz)
    got = ch.call(derived.calc_wave_speed, n2, dz, **kw)
    ax = dims.index(name)
    out = tuple(x for x in dims if x != name)
    D = np.broadcast_to(d.reshape([nz] + [1] * (len(out))) if dzk == "profile" else
                        (d if layout != "tzyx" else d[None]), v.shape) if dzk != "profile" else None
    if D is None:
        shape = [1] * v.ndim
        shape[ax] = nz
        D = np.broadcast_to(d.reshape(shape), v.shape)

    def integral(a):
        return np.nansum(np.sqrt(a) * D, axis=ax) / np.pi

    want = np.where(np.isnan(np.take(v, 0, ax)), np.nan, integral(adjusted(v, ax)))
    if set(got.dims) == set(dims) and layout == "tzyx":
        # finding WAVE-4D: masked with the first *time*, so every level is repeated
        full = integral(adjusted_listed(v, ax))  # (t, y, x)
        faulty = np.where(np.isnan(v[0])[None], np.nan, full[:, None])
        ok = np.array_equal(
            np.nan_to_num(got.transpose(*dims).values, nan=-1.0),
            np.nan_to_num(faulty, nan=-1.0),
        ) or np.allclose(got.transpose(*dims).values, faulty, rtol=1e-10, equal_nan=True)
        ch.true("result for time-dependent input", ok, "neither right nor the listed finding")
        ch.known("WAVE-4D", "wave speed of a (time, z, y, x) field keeps the z dimension")
        return
    ch.field("wave speed", got, want, out, 1e-10)


def rossby(ch):
    cd = ch.pick("wave speed dims", [("yh", "xh"), ("time", "yh", "xh"), ("xh", "yh"), ()])
    fd = ch.pick("f dims", [("yh", "xh"), ("yh",), ("xh", "yh"), ()])
    sign = ch.free("hemisphere", ["both", "north", "south", "equator"])
    nan = ch.pick("missing", [False, True])
    name = ch.pick("name", [None, "c1"])
    size = {"time": 2, "yh": 3, "xh": 4}
    c = pattern(tuple(size[d] for d in cd), 0.0, 4.0, 1)
    f = pattern(tuple(size[d] for d in fd), 1e-6, 1.4e-4, 2)
    if sign == "south":
        f = -f
    elif sign == "both" and f.size > 1:
        f = f * np.where(np.arange(f.size).reshape(f.shape) % 2, 1, -1)
    elif sign == "equator" and f.size > 1:
        f.flat[0] = 0.0
    if nan and c.size > 1:
        c.flat[::3] = np.nan
    C = xr.DataArray(c, dims=cd, name=name)
    Fv = xr.DataArray(f, dims=fd, name=name)
    ch.state(C, Fv)
    got = ch.call(derived.calc_rossby_rd, C, Fv)
    out = [d for d in ("time", "yh", "xh") if d in cd or d in fd]

    def b(v, dims):
        idx = [dims.index(d) for d in out if d in dims]
        return v.transpose(idx).reshape([size[d] if d in dims else 1 for d in out])

    want = b(c, cd) / np.abs(b(f, fd))
    ch.field("radius", got, np.broadcast_to(want, [size[d] for d in out]), out, 1e-12)


def long_columns(ch):
    """Long gaps: the positive value may lie arbitrarily far above."""
    nz = ch.free("nz", [40, 120])
    fn = ch.free("function", ["adjust", "wave speed"])
    layout = ch.free("layout", ["zyx", "zx"])
    first = ch.free("first positive level", [0, 1, 7, 30, None])
    again = ch.free("second positive level", [None, 12, 35])
    nan = ch.free("sea floor", [None, 20, 1])
    ncol = 24
    v = -pattern((nz, ncol), 1e-8, 1e-4, 1)
    if first is not None:
        v[first, ::2] = 3.0e-5
    if again is not None:
        v[again] = pattern((ncol,), 1e-7, 1e-3, 2)
    if nan is not None:
        v[nan:, ::3] = np.nan
    f = v.reshape(nz, 4, -1) if layout == "zyx" else v
    dims = ("z_l", "yh", "xh") if layout == "zyx" else ("z_l", "xh")
    n2 = xr.DataArray(f, dims=dims)
    ch.state(n2, fn)
    want = adjusted(f, 0)
    if fn == "adjust":
        ch.field("adjusted", ch.call(derived.adjust_negative_n2, n2), want, dims, 0.0)
        return
    d = pattern(f.shape, 1.0, 200.0, 4) * np.where(np.arange(f.size).reshape(f.shape) % 7, 1.0, 1e-6)
    got = ch.call(derived.calc_wave_speed, n2, xr.DataArray(d, dims=dims))
    want = np.where(np.isnan(f[0]), np.nan, np.nansum(np.sqrt(want) * d, axis=0) / np.pi)
    ch.field("wave speed", got, want, dims[1:], 1e-10)


SCENARIOS = [
    Scenario(every_column, 4, 5),
    Scenario(single_column, 0),
    Scenario(from_profiles, 0),
    Scenario(wave_speed, 4, 4),
    Scenario(rossby, 4, 4),
    Scenario(long_columns, 0),
]
ASSUMPTIONS = [
    "every column of up to 4 (thorough: 5) levels over {large, small, zero, negative, missing}; "
    "columns of 40 and 120 levels with one or two positive values"
]
