"""C14 - relative and potential vorticity on the staggered grid, Coriolis parameter."""

import math

import numpy as np
import xarray as xr

from momlevel import derived, util
from mc.core import Scenario
from mc.ocean import pattern

DEF = dict(u="uo", v="vo", dx="dxCu", dy="dyCv", area="areacello_bu")
ALT = dict(u="U", v="V", dx="DX", dy="DY", area="A")
CD = dict(xcenter="xh", ycenter="yh", xcorner="xq", ycorner="yq")
ALTC = dict(xcenter="lon", ycenter="lat", xcorner="lonq", ycorner="latq")


def diff(f, axis, symmetric):
    """Centre -> corner difference along axis, zero beyond the edge."""
    f = np.moveaxis(f, axis, -1)
    z = np.zeros(f.shape[:-1] + (1,))
    if symmetric:
        g = np.concatenate([z, f, z], -1)
    else:
        g = np.concatenate([f, z], -1)
    return np.moveaxis(g[..., 1:] - g[..., :-1], -1, axis)


def mean(f, axis, symmetric):
    f = np.moveaxis(f, axis, -1)
    z = np.zeros(f.shape[:-1] + (1,))
    g = np.concatenate([z, f, z], -1) if symmetric else np.concatenate([f, z], -1)
    return np.moveaxis(0.5 * (g[..., 1:] + g[..., :-1]), -1, axis)


def build(ny, nx, sym, extra, c, kind, salt=0):
    """u (.., y, xq), v (.., yq, x) and metrics."""
    nyq, nxq = (ny + 1, nx + 1) if sym else (ny, nx)
    if kind == "impulses":  # one unit impulse per time: every u point, then every v point
        n = ny * nxq + nyq * nx
        u = np.zeros((n, ny, nxq))
        v = np.zeros((n, nyq, nx))
        for k in range(ny * nxq):
            u[k].flat[k] = 1.0
        for k in range(nyq * nx):
            v[ny * nxq + k].flat[k] = 1.0
        ed = ("time",)
    else:
        es = {"none": (), "t": (2,), "tz": (2, 3)}[extra]
        ed = {"none": (), "t": ("time",), "tz": ("time", "z_l")}[extra]
        u = pattern(es + (ny, nxq), -0.5, 0.5, salt + 1)
        v = pattern(es + (nyq, nx), -0.5, 0.5, salt + 2)
        if kind == "land":
            u[..., 0, 0] = np.nan
            v[..., -1, -1] = np.nan
    X, Y, XQ, YQ = c["xcenter"], c["ycenter"], c["xcorner"], c["ycorner"]
    dx = pattern((ny, nxq), 1e3, 5e4, salt + 3)
    dy = pattern((nyq, nx), 1e3, 5e4, salt + 4)
    A = pattern((nyq, nxq), 1e8, 1e9, salt + 5)
    coords = {
        X: np.arange(nx) * 1.0,
        Y: np.arange(ny) * 1.0,
        XQ: np.arange(nxq) + (-0.5 if sym else 0.5),
        YQ: np.arange(nyq) + (-0.5 if sym else 0.5),
    }
    return u, v, dx, dy, A, ed, coords


def vorticity(ch):
    ny, nx = ch.free("ny,nx", [(2, 2), (1, 1), (1, 3), (3, 1), (3, 2), (5, 4), (33, 2), (2, 40), (19, 17)])
    sym = ch.free("symmetric", [False, True])
    kind = ch.free("field", ["dense", "impulses", "land"])
    extra = ch.pick("extra dims", ["tz", "none", "t"])
    names = ch.pick("names", ["default", "passed", "renamed"])
    cnames = ch.pick("coordinate names", ["default", "passed", "renamed"])
    order = ch.pick("dim order", ["as built", "reversed"])
    if kind == "impulses" and ny * nx > 60:
        ch.prune()
    others = ch.pick("other variables", [False, True])
    c = ALTC if cnames == "renamed" else CD
    vm = ALT if names == "renamed" else DEF
    u, v, dx, dy, A, ed, coords = build(ny, nx, sym, extra, c, kind)
    X, Y, XQ, YQ = c["xcenter"], c["ycenter"], c["xcorner"], c["ycorner"]
    ds = xr.Dataset(
        {
            vm["u"]: (ed + (Y, XQ), u),
            vm["v"]: (ed + (YQ, X), v),
            vm["dx"]: ((Y, XQ), dx),
            vm["dy"]: ((YQ, X), dy),
            vm["area"]: ((YQ, XQ), A),
        },
        coords=coords,
    )
    if others:
        ds["ssh"] = ((Y, X), np.ones((ny, nx)))
    if order == "reversed":
        ds = ds.transpose(*list(ds.dims)[::-1])
    kw = {}
    if names != "default":
        kw["varname_map"] = dict(vm)
    if cnames != "default":
        kw["coord_dict"] = dict(c)
    if sym:
        kw["symmetric"] = True
    ch.state(ds, repr(sorted(kw)))
    got = ch.call(derived.calc_rel_vort, ds, **kw)
    want = (diff(v * dy, -1, sym) - diff(u * dx, -2, sym)) / A
    ch.field("vorticity", got, want, ed + (YQ, XQ), 1e-11, 1e-18)


def missing_input(ch):
    drop = ch.free("dropped", list(range(1, 32)))
    names = ch.free("names", ["default", "renamed"])
    vm = ALT if names == "renamed" else DEF
    u, v, dx, dy, A, ed, coords = build(2, 2, False, "none", CD, "dense")
    ds = xr.Dataset(
        {
            vm["u"]: (("yh", "xq"), u),
            vm["v"]: (("yq", "xh"), v),
            vm["dx"]: (("yh", "xq"), dx),
            vm["dy"]: (("yq", "xh"), dy),
            vm["area"]: (("yq", "xq"), A),
        },
        coords=coords,
    )
    gone = [n for k, n in enumerate(vm.values()) if drop >> k & 1]
    kw = {} if names == "default" else {"varname_map": vm}
    ch.state(drop, names)
    e = ch.rejects(f"without {gone}", derived.calc_rel_vort, ds.drop_vars(gone), **kw)
    ch.true("a ValueError", isinstance(e, ValueError), repr(e))


def potential(ch):
    ny, nx = ch.free("ny,nx", [(2, 2), (1, 1), (1, 3), (3, 2), (4, 4), (25, 31)])
    sym = ch.free("symmetric", [False, True])
    where = ch.free("N2", ["corners", "centres"])
    units = ch.free("units", [None, "m", "cm", "km", "", "CM", None])
    extra = ch.pick("extra dims", ["tz", "none", "t"])
    g = ch.pick("gravity", [None, 9.81, 10, -9.8, 1.0])
    cnames = ch.pick("coordinate names", ["default", "passed", "renamed"])
    order = ch.pick("dim order", ["as built", "reversed"])
    impulse = ch.pick("N2 field", ["dense", "impulse", "land"])
    gone = ch.pick("missing", ["nothing", "f", "zeta"])
    c = ALTC if cnames == "renamed" else CD
    X, Y, XQ, YQ = c["xcenter"], c["ycenter"], c["xcorner"], c["ycorner"]
    _, _, _, _, _, ed, coords = build(ny, nx, sym, extra, c, "dense")
    es = {"none": (), "t": (2,), "tz": (2, 3)}[extra]
    nyq, nxq = (ny + 1, nx + 1) if sym else (ny, nx)
    n2 = pattern(es + (ny, nx), -1e-5, 4e-4, 1)
    if impulse == "impulse":
        n2 = np.zeros_like(n2)
        n2[..., ny // 2, nx // 2] = 1.0
    elif impulse == "land":
        n2[..., 0, 0] = np.nan
    if where == "corners":
        zs, zd, fd = es + (nyq, nxq), ed + (YQ, XQ), (YQ, XQ)
    else:
        zs, zd, fd = es + (ny, nx), ed + (Y, X), (Y, X)
    zeta = pattern(zs, -1e-4, 1e-4, 2)
    f = pattern(zs[-2:], -1.4e-4, 1.4e-4, 3)
    if gone == "f":
        f[-1, 0] = np.nan
    elif gone == "zeta":
        zeta[..., -1, 0] = np.nan
    mk = lambda v, d: xr.DataArray(v, dims=d, coords={k: coords[k] for k in d if k in coords})  # noqa: E731
    Z, Fc, N = mk(zeta, zd), mk(f, fd), mk(n2, ed + (Y, X))
    if order == "reversed":
        Z, Fc, N = Z.transpose(), Fc.transpose(), N.transpose()
    kw = {}
    if units is not None:
        kw["units"] = units
    if g is not None:
        kw["gravity"] = g
    if cnames != "default":
        kw["coord_dict"] = dict(c)
    if sym:
        kw["symmetric"] = True
    if where == "centres":
        kw["interp_n2"] = False
    ch.state(Z, Fc, N, repr(kw))
    if units not in (None, "m", "cm"):
        ch.rejects(f"units {units!r}", derived.calc_pv, Z, Fc, N, **kw)
        return
    got = ch.call(derived.calc_pv, Z, Fc, N, **kw)
    nn = mean(mean(n2, -1, sym), -2, sym) if where == "corners" else n2
    want = (zeta + f) * nn / (9.8 if g is None else g)
    if units == "cm":
        want = np.abs(want) * 1e12
    ch.field("potential vorticity", got, want, zd, 1e-11, 1e-25)


def coriolis(ch):
    layout = ch.free("layout", ["1-d", "2-d", "0-d"])
    dt = ch.free("dtype", ["f8", "f4", "i8"])
    name = ch.free("name", ["geolat", None])
    step = ch.free("step", [1, 7, 15])
    lat = np.arange(-90, 91, step).astype(dt)
    if dt != "i8":
        lat = np.concatenate([lat, np.array([0.5, -0.5, 89.99, np.nan])]).astype(dt)
    if layout == "2-d":
        lat = np.stack([lat, lat[::-1]])
        L = xr.DataArray(lat, dims=("y", "x"), name=name)
    elif layout == "0-d":
        lat = lat[3]
        L = xr.DataArray(lat, name=name)
    else:
        L = xr.DataArray(lat, dims=("y",), name=name)
    ch.state(L)
    got = ch.call(derived.calc_coriolis, L)
    want = np.vectorize(lambda d: 4 * math.pi / 86400.0 * math.sin(math.radians(d)), otypes=[float])(lat.astype(float))
    ch.field("f", got, want, L.dims, 1e-6 if dt == "f4" else 1e-12, 1e-11 if dt == "f4" else 1e-19)
    ch.equal("name", got.name, None)


SCENARIOS = [
    Scenario(vorticity, 3, 5),
    Scenario(missing_input, 0),
    Scenario(potential, 2, 3),
    Scenario(coriolis, 0),
]
ASSUMPTIONS = ["grids up to 33 x 40; unit impulses at every velocity point of each grid"]
