"""C12 - buoyancy frequency and stability angle."""

import itertools

import numpy as np
import xarray as xr

from momlevel import derived
from mc import model
from mc.core import Scenario
from mc.ocean import pattern

LEVELS = {
    "uneven": [2.5, 10.0, 30.0, 120.0, 700.0, 2500.0],
    "even": [5.0, 15.0, 25.0, 35.0, 45.0, 55.0],
    "deep": [1000.0, 3000.0, 4500.0, 5500.0, 6000.0, 6200.0],
    "descending": [2500.0, 700.0, 120.0, 30.0, 10.0, 2.5],
}
ALPHA_T = [2.0, 10.0, 25.0]
ALPHA_S = [33.0, 35.5]


def columns(nz, values, nan):
    """(z, n): every profile over the alphabet (nz <= 3), or deterministic ones."""
    if values == "alphabet":
        pairs = list(itertools.product(ALPHA_T, ALPHA_S))
        prof = list(itertools.product(pairs, repeat=min(nz, 3)))
        T = np.array([[q[0] for q in p] for p in prof]).T
        S = np.array([[q[1] for q in p] for p in prof]).T
        if nz > 3:
            extra = nz - 3
            T = np.concatenate([T, pattern((extra, T.shape[1]), 0.0, 25.0, 3)])
            S = np.concatenate([S, pattern((extra, S.shape[1]), 32.0, 37.0, 4)])
    elif values == "balanced":  # equal contributions under the linear equation of state
        T = np.round(pattern((nz, 24), 8.0, 30.0, 5) * 16) / 16
        S = T / 4
    elif values.startswith("weak"):  # nearly homogeneous water
        eps = {"weak": 1e-3, "weaker": 1e-5}[values]
        T = 4.0 + eps * pattern((nz, 24), -1.0, 1.0, 5)
        S = 34.5 + eps * pattern((nz, 24), -1.0, 1.0, 6)
    else:
        lo = {"polar": (-2.0, 1.0), "warm": (10.0, 30.0), "fresh": (0.0, 20.0)}[values]
        T = pattern((nz, 24), *lo, 5)
        S = pattern((nz, 24), 0.0 if values == "fresh" else 30.0, 5.0 if values == "fresh" else 38.0, 6)
    if nan == "bottom":
        T[-1, ::2] = np.nan
        S[-1, ::2] = np.nan
    elif nan == "column":
        T[:, 0] = np.nan
        S[:, 0] = np.nan
    elif nan == "top":
        T[0, ::3] = np.nan
    elif nan == "salt":
        S[0, ::3] = np.nan
        S[-1, 1::3] = np.nan
    elif nan == "within":
        T[nz // 2, ::3] = np.nan
        S[nz // 2, 1::3] = np.nan
    return T, S


def lay(T, layout, levels, zname):
    """Arrange (z, n) columns into the layout; returns DataArray and dims."""
    nz, n = T.shape
    if layout == "z":
        v, d = T[:, n // 2], (zname,)
    elif layout == "zx":
        v, d = T, (zname, "xh")
    elif layout == "xz":
        v, d = T.T, ("xh", zname)
    elif layout == "zyx":
        v, d = T.reshape(nz, 2, -1), (zname, "yh", "xh")
    elif layout == "tzyx":
        v = np.moveaxis(T.reshape(nz, 2, 2, -1), 0, 1)
        d = ("time", zname, "yh", "xh")
    else:
        v = np.moveaxis(T.reshape(nz, 2, 2, -1), 0, -1)
        d = ("time", "yh", "xh", zname)
    return xr.DataArray(v, dims=d, coords={zname: levels})


def oracle(eos, T, S, z, patm, g):
    """T, S: (n, z)."""
    a, b = model.alpha_beta(eos, T, S, z * 1.0e4 + patm)
    return g * (a * model.gradient(T, z) - b * model.gradient(S, z)), a, b


def setup(ch):
    eos = ch.free("eos", ["Wright", "linear"])
    nz = ch.pick("nz", [4, 3, 6])
    lname = ch.pick("levels", ["uneven", "even", "deep", "descending"])
    values = ch.pick("values", ["alphabet", "polar", "warm", "fresh", "weak", "weaker", "balanced"])
    nan = ch.pick("missing", ["none", "bottom", "column", "top", "salt", "within"])
    layout = ch.pick("layout", ["zyx", "z", "zx", "xz", "tzyx", "tyxz"])
    zname = ch.pick("vertical name", ["z_l", "lev"])
    dtype = ch.pick("dtype", ["f8", "f4"])
    z = np.array(LEVELS[lname][:nz])
    if lname == "descending":
        z = np.array(LEVELS[lname][-nz:])
    T, S = columns(nz, values, nan)
    T, S = T.astype(dtype), S.astype(dtype)
    return eos, z, T, S, layout, zname, dtype, lname


def flat(da, zname, nz):
    """(columns, z) in the order of `lay`."""
    d = [x for x in ("time", "yh", "xh") if x in da.dims] + [zname]
    return da.transpose(*d).values.reshape(-1, nz)


def frequency(ch):
    eos, z, T, S, layout, zname, dtype, lname = setup(ch)
    nz = len(z)
    g = ch.pick("gravity", [None, -9.8, -9.81, -10, 9.8])
    patm = ch.pick("patm", [None, 0.0, 2.0e5, "field", "nearly even field"])
    t, s = lay(T, layout, z, zname), lay(S, layout, z, zname)
    kw = {"eos": eos}
    if zname != "z_l":
        kw["zcoord"] = zname
    if g is not None:
        kw["gravity"] = g
    pa = 101325.0
    if patm in ("field", "nearly even field"):
        if layout not in ("zyx",):
            ch.prune()
        f = pattern((t.sizes["yh"], t.sizes["xh"]), *((9.0e4, 1.1e5) if patm == "field" else (101300.0, 101500.0)), 8)
        kw["patm"] = xr.DataArray(f, dims=("yh", "xh"))
        pa = f.reshape(-1)[:, None]
    elif patm is not None:
        pa = kw["patm"] = patm
    out, zz = zname, z
    ch.state(t, s, repr(sorted(kw)), str(g), str(patm))
    got = ch.call(derived.calc_n2, t, s, **kw)
    tt, ss = flat(t, zname, nz).astype(float), flat(s, zname, nz).astype(float)
    want, a, b = oracle(eos, tt, ss, zz, pa, -9.8 if g is None else g)
    ch.equal("dims", set(got.dims), set(t.dims) - {zname} | {out})
    r, atol = (2e-3, 1e-6) if dtype == "f4" else (1e-8, 1e-15)
    ch.close("N2", flat(got, out, len(zz)), want, r, atol)
    ch.equal("vertical labels", list(got[out].values), list(zz))


def angle(ch):
    eos, z, T, S, layout, zname, dtype, lname = setup(ch)
    if dtype == "f4":
        ch.prune()  # ratios of float32 differences are not comparable
    nz = len(z)
    pres = ch.pick("pressure", ["depth", "number", "full"])
    t, s = lay(T, layout, z, zname), lay(S, layout, z, zname)
    kw = {"eos": eos}
    if zname != "z_l":
        kw["zcoord"] = zname
    if pres == "depth":
        p = xr.DataArray(z * 1.0e4 + 101325.0, dims=zname, coords={zname: z})
        pp = z * 1.0e4 + 101325.0
    elif pres == "number":
        p, pp = 2.0e7, 2.0e7
    else:
        p = t.fillna(0.0) * 1.0e6 + 1.0e5
        pp = flat(p, zname, nz)
    ch.state(t, s, repr(pres), eos)
    got = ch.call(derived.calc_stability_angle, t, s, p, **kw)
    tt, ss = flat(t, zname, nz), flat(s, zname, nz)
    a, b = model.alpha_beta(eos, tt, ss, pp)
    dt, dsal = model.gradient(tt, z), model.gradient(ss, z)
    with np.errstate(all="ignore"):
        R = (b * dsal) / (a * dt)
        want = np.degrees(np.arctan((1 + R) / (1 - R)))
        # the ratio is ill-conditioned where the temperature gradient (nearly) vanishes
        # or the two contributions cancel
        noise = 4e-15 / np.abs(np.diff(z)).min()
        nt, ns = noise * np.abs(tt), noise * np.abs(ss)
        skip = (np.abs(dt) < 1e3 * nt) | (np.abs(1 - R) < 1e-7)
        skip |= np.abs(a * nt) + np.abs(b * ns) > 1e-8 * np.hypot(a * dt, b * dsal)
        even = (np.abs(1 - R) < 1e-9) & (np.abs(dt) >= 1e5 * nt) & (np.abs(dsal) >= 1e5 * ns)
    v = flat(got, zname, nz)
    ch.equal("dims", set(got.dims), set(t.dims))
    ch.close("right angle where both contributions are equal", np.abs(v[even]), np.full(int(even.sum()), 90.0), 0.0, 1e-3)
    nan = np.isnan(tt + ss + dt + dsal)
    ch.true("missing exactly where inputs are", (np.isnan(v) == nan)[~skip].all())
    ch.true("within +-90 degrees", (np.abs(v[~np.isnan(v)]) <= 90.0).all())
    ch.close("angle", np.where(skip, 0.0, v), np.where(skip, 0.0, want), 1e-6, 1e-6)
    ch.equal("name", got.name, "tu_angle")


def independent_columns(ch):
    """Each profile alone gives what it gives among others."""
    fn = ch.free("function", ["n2", "angle"])
    eos = ch.free("eos", ["Wright", "linear"])
    k = ch.free("profile", list(range(0, 216, 9)))
    z = np.array(LEVELS["uneven"][:3])
    T, S = columns(3, "alphabet", "none")
    p = xr.DataArray(z * 1.0e4, dims="z_l", coords={"z_l": z})
    ch.state(fn, eos, k)
    both = lay(T, "zx", z, "z_l"), lay(S, "zx", z, "z_l")
    one = both[0].isel(xh=k), both[1].isel(xh=k)
    if fn == "n2":
        a = ch.call(derived.calc_n2, *one, eos=eos)
        b = ch.call(derived.calc_n2, *both, eos=eos)
    else:
        a = ch.call(derived.calc_stability_angle, *one, p, eos=eos)
        b = ch.call(derived.calc_stability_angle, *both, p, eos=eos)
    ch.close("profile alone and among others", a.values, b.isel(xh=k).values, 1e-12, 1e-18)


def frequency_on_interfaces(ch):
    """The option to compute on cell edges: both fields are interpolated linearly to the
    given interfaces (missing beyond the outermost centres), then as before."""
    eos, z, T, S, layout, zname, dtype, lname = setup(ch)
    if lname == "descending" or dtype == "f4":
        ch.prune()
    nz = len(z)
    kind = ch.pick("interfaces", ["between", "inside", "centres", "beyond"])
    iname = ch.pick("interface name", ["z_i", "ilev"])
    g = ch.pick("gravity", [None, -10])
    patm = ch.pick("patm", [None, 0.0])
    mid = 0.5 * (z[1:] + z[:-1])
    zi = {
        "between": np.concatenate([[z[0]], mid, [z[-1]]]),
        "inside": np.linspace(z[0], z[-1], 7)[1:-1],
        "centres": z.copy(),
        "beyond": np.concatenate([[0.0], mid, [2 * z[-1]]]),
    }[kind]
    t, s = lay(T, layout, z, zname), lay(S, layout, z, zname)
    t.name, s.name = "thetao", "so"
    kw = {"eos": eos}
    if zname != "z_l":
        kw["zcoord"] = zname
    if g is not None:
        kw["gravity"] = g
    if patm is not None:
        kw["patm"] = patm
    inter = xr.DataArray(zi, dims=iname, coords={iname: zi}, name=iname)
    ch.state(t, s, inter, repr(sorted(kw)))
    got = ch.call(derived.calc_n2, t, s, interfaces=inter, **kw)
    ch.equal("dims", set(got.dims), set(t.dims) - {zname} | {iname})

    def at(f):
        out = np.full((f.shape[0], len(zi)), np.nan)
        for n, p in enumerate(zi):
            for k in range(nz - 1):
                a, b = z[k], z[k + 1]
                if p == a:
                    out[:, n] = f[:, k]
                elif p == b:
                    out[:, n] = f[:, k + 1]
                elif a < p < b:
                    w = (p - a) / (b - a)
                    out[:, n] = f[:, k] * (1 - w) + f[:, k + 1] * w
        return out

    tt, ss = at(flat(t, zname, nz)), at(flat(s, zname, nz))
    want, _, _ = oracle(eos, tt, ss, zi, 101325.0 if patm is None else patm, -9.8 if g is None else g)
    got_v = flat(got, iname, len(zi))
    if kind == "centres":  # interpolating at a centre next to a missing one may lose it
        got_v = np.where(np.isnan(got_v) & np.isnan(flat(t, zname, nz) + flat(s, zname, nz)).any(1, keepdims=True), want, got_v)
    ch.close("N2", got_v, want, 1e-8, 1e-12)
    ch.equal("vertical labels", list(got[iname].values), list(zi))


def many_points(ch):
    """Long columns, many columns."""
    fn = ch.free("function", ["n2", "angle"])
    eos = ch.free("eos", ["Wright", "linear"])
    nz, n = ch.free("levels, columns", [(75, 4), (120, 2), (12, 300)])
    layout = ch.free("layout", ["zyx", "zx", "tzyx", "tyxz"])
    if layout[0] == "t" and n % 4 or layout == "zyx" and n % 2:
        ch.prune()
    z = np.cumsum(1.0 + 0.5 * np.arange(nz))
    T = np.sort(pattern((nz, n), -1.5, 28.0, 5), axis=0)[::-1]
    S = np.sort(pattern((nz, n), 31.0, 37.0, 6), axis=0)
    t, s = lay(T, layout, z, "z_l"), lay(S, layout, z, "z_l")
    ch.state(t, s, fn, eos)
    pp = z * 1.0e4 + 101325.0
    want, a, b = oracle(eos, flat(t, "z_l", nz), flat(s, "z_l", nz), z, 101325.0, -9.8)
    if fn == "n2":
        got = ch.call(derived.calc_n2, t, s, eos=eos)
    else:
        p = xr.DataArray(pp, dims="z_l", coords={"z_l": z})
        got = ch.call(derived.calc_stability_angle, t, s, p, eos=eos)
        R = b * model.gradient(flat(s, "z_l", nz), z) / (a * model.gradient(flat(t, "z_l", nz), z))
        want = np.degrees(np.arctan((1 + R) / (1 - R)))
    ch.close(fn, flat(got, "z_l", nz), want, 1e-7, 1e-12)


SCENARIOS = [
    Scenario(frequency, 3, 5),
    Scenario(angle, 3, 5),
    Scenario(frequency_on_interfaces, 2, 4),
    Scenario(independent_columns, 0),
    Scenario(many_points, 0),
]
ASSUMPTIONS = [
    "profiles of 3 to 6 levels (and 12, 75, 120); all 216 three-level profiles over 3 temperatures x 2 salinities",
    "the angle is not compared where the temperature gradient vanishes or the ratio is 1",
    "numba is not installed here: for the option to compute on interfaces xgcm's own "
    "interpolation code runs undecorated, as plain Python",
]
