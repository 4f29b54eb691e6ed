"""C09 - equations of state against exact rational arithmetic."""

from fractions import Fraction as F

import numpy as np
import xarray as xr

from momlevel import eos as E
from mc import model
from mc.core import Scenario

TS = ["-30", "-4", "-2.5", "-2", "-1.8", "-1", "-0.5", "0", "0.25", "1", "2", "3.98", "5", "7.5", "10",
      "12.3", "15", "18.75", "20", "25", "28", "30", "31.5", "35", "40", "47.5", "80"]
SS = ["0", "0.001", "0.5", "1", "5", "10", "20", "28", "31", "33", "34", "34.7", "35", "35.5", "36",
      "38", "40", "42", "50", "120"]
PS = ["0", "50000", "101325", "100000", "1000000", "5101325", "10000000", "20101325", "40000000",
      "60101325", "75000000", "110000000", "150000000",
      "250000000", "1000000000", "-20000"]
FN = ["density", "drho_dtemp", "drho_dsal", "alpha", "beta"]
_mem = {}


def exact(eos, T, S, p):
    """The five quantities at one point, as exact rationals rounded once."""
    k = (eos, T, S, p)
    if k not in _mem:
        t, s, q = F(T), F(S), F(p)
        rho = model.density(eos)(t, s, q, F)
        dt, dsal = (model.wright_derivs if eos == "wright" else model.linear_derivs)(
            t, s, q, F
        )
        _mem[k] = dict(
            density=float(rho),
            drho_dtemp=float(dt),
            drho_dsal=float(dsal),
            alpha=float(-dt / rho),
            beta=float(dsal / rho),
        )
    return _mem[k]


# rounding of the analytic derivative: a difference of terms of order one
TOL = {
    "density": (1e-13, 0.0),
    "drho_dtemp": (1e-10, 1e-13),
    "drho_dsal": (1e-11, 0.0),
    "alpha": (1e-10, 1e-16),
    "beta": (1e-11, 0.0),
}


def run(ch, eos, fn, T, S, p):
    return ch.call(getattr(getattr(E, eos), fn), T, S, p)


def lattice_points(ch):
    """Each (T, S) of the lattice at all pressures, as scalars and as a vector."""
    eos = ch.free("eos", ["wright", "linear"])
    T = ch.free("T", TS)
    S = ch.free("S", SS)
    form = ch.pick("form", ["float", "int", "np.float64", "0-d"])
    if form == "int" and not (float(T).is_integer() and float(S).is_integer()):
        ch.prune()
    conv = {
        "float": float,
        "int": lambda v: int(float(v)),
        "np.float64": lambda v: np.float64(v),
        "0-d": lambda v: np.array(float(v)),
    }[form]
    ch.state(eos, T, S, form)
    for fn in FN:
        r, a = TOL[fn]
        want = [exact(eos, T, S, p)[fn] for p in PS]
        got = [float(run(ch, eos, fn, conv(T), conv(S), conv(p))) for p in PS]
        ch.close(f"{eos}.{fn}(T={T}, S={S})", got, want, r, a)
        if form == "float":
            pv = np.array([float(p) for p in PS])
            v = run(ch, eos, fn, np.full(len(PS), float(T)), np.full(len(PS), float(S)), pv)
            if eos == "linear" and fn.startswith("drho"):
                v = np.broadcast_to(v, pv.shape)  # a constant is fine
            ch.close(f"{eos}.{fn} over pressures", v, want, r, a)


def whole_arrays(ch):
    """The whole lattice at once, in every container, dtype and memory order."""
    eos = ch.free("eos", ["wright", "linear"])
    fn = ch.free("function", FN)
    dt = ch.pick("T dtype", ["f8", "f4", "i8", "i4"])
    ds = ch.pick("S dtype", ["f8", "f4", "i8", "i2"])
    dp = ch.pick("p dtype", ["f8", "f4", "i8"])
    box = ch.pick("container", ["ndarray", "fortran", "DataArray", "1-d", "broadcast"])
    size = ch.pick("size", ["lattice", "one", "two", "many"])
    nan = ch.pick("missing", ["none", "T", "S", "p"])
    tt, ss, pp = TS, SS, PS
    if dt[0] == "i":
        tt = [t for t in TS if float(t).is_integer()]
    if ds[0] == "i":
        ss = [s for s in SS if float(s).is_integer()]
    if size == "one":
        tt, ss, pp = tt[-4:-3], ss[-1:], pp[2:3]
    elif size == "two":
        tt, ss, pp = tt[:2], ss[:1], pp[:1]
    if nan == "T" and dt[0] == "i" or nan == "S" and ds[0] == "i" or nan == "p" and dp[0] == "i":
        ch.prune()
    t = np.array([float(x) for x in tt]).astype(dt)[:, None, None]
    s = np.array([float(x) for x in ss]).astype(ds)[None, :, None]
    p = np.array([float(x) for x in pp]).astype(dp)[None, None, :]
    want = np.array([[[exact(eos, a, b, c)[fn] for c in pp] for b in ss] for a in tt])
    shp = want.shape
    T, S, P = (np.array(np.broadcast_to(v, shp)) for v in (t, s, p))
    hole = np.zeros(shp, bool)
    hole.flat[:: 3] = True
    if nan == "T":
        T[hole] = np.nan
    elif nan == "S":
        S[hole] = np.nan
    elif nan == "p":
        P[hole] = np.nan
    if size == "many":
        T, S, P, want, hole = (np.concatenate([v] * 5) for v in (T, S, P, want, hole))
        shp = want.shape
    if nan != "none" and not (eos == "linear" and (nan == "p" or fn.startswith("drho"))):
        want = np.where(hole, np.nan, want)
    if box == "fortran":
        T, S, P = (np.asfortranarray(v) for v in (T, S, P))
    elif box == "1-d":
        T, S, P = (v.ravel() for v in (T, S, P))
    elif box == "DataArray":
        T, S, P = (xr.DataArray(v, dims=("a", "b", "c")) for v in (T, S, P))
    elif box == "broadcast":
        if nan != "none" or size == "many":
            ch.prune()
        T, S, P = t, s, p
        if eos == "linear":
            want = want[:, :, :1]  # pressure plays no part, not even in the shape
    ch.state(eos, fn, np.asarray(T), np.asarray(S), np.asarray(P), box)
    got = run(ch, eos, fn, T, S, P)
    got = np.asarray(got, dtype=float)
    if eos == "linear" and fn.startswith("drho"):
        got = np.broadcast_to(got, want.shape)
    r, a = TOL[fn]
    if "f4" in (dt, ds, dp):
        r, a = {
            "density": (3e-6, 0),
            "drho_dtemp": (2e-3, 1e-4),
            "drho_dsal": (2e-3, 0),
            "alpha": (2e-3, 1e-7),
            "beta": (2e-3, 0),
        }[fn]
    ch.close(f"{eos}.{fn}", got.reshape(want.shape), want, r, a)


def linear_reference_density(ch):
    T = ch.free("T", TS)
    S = ch.free("S", SS)
    ref = ch.free("rho_ref", [None, 0.0, 1.0, 1000.0, 1035.0, 1027.5, 1035])
    p = ch.free("p", [None, 0.0, 2.0e7])
    arr = ch.free("array", [False, True])
    t, s = float(T), float(S)
    if arr:
        t, s = np.array([t, t + 1]), np.array([s, s])
    ch.state(T, S, ref, p, arr)
    kw = {} if ref is None else {"rho_ref": ref}
    if p is not None:
        kw["p"] = p
    want = 1000.0 - 0.2 * np.asarray(t) + 0.8 * np.asarray(s) - (ref or 0.0)
    ch.close("linear density", ch.call(E.linear.density, t, s, **kw), want, 1e-13, 1e-12)
    ch.close("drho_dtemp", ch.call(E.linear.drho_dtemp), -0.2, 1e-15)
    ch.close("drho_dsal", ch.call(E.linear.drho_dsal), 0.8, 1e-15)


def derivatives_are_derivatives(ch):
    """Centred differences of the code's own density converge to its derivatives."""
    eos = ch.free("eos", ["wright", "linear"])
    T = float(ch.free("T", TS[::2]))
    S = float(ch.free("S", SS[1::2]))
    p = float(ch.free("p", PS[::2]))
    ch.state(eos, T, S, p)
    h = 1e-3
    d = lambda t, s: ch.call(getattr(E, eos).density, t, s, p)  # noqa: E731
    ch.close(
        "drho/dT", run(ch, eos, "drho_dtemp", T, S, p), (d(T + h, S) - d(T - h, S)) / 2 / h,
        1e-5, 1e-8,
    )
    ch.close(
        "drho/dS", run(ch, eos, "drho_dsal", T, S, p), (d(T, S + h) - d(T, S - h)) / 2 / h,
        1e-5, 1e-8,
    )


SCENARIOS = [
    Scenario(lattice_points, 1, 1),
    Scenario(whole_arrays, 2, 4),
    Scenario(linear_reference_density, 0),
    Scenario(derivatives_are_derivatives, 0),
]
ASSUMPTIONS = [
    "lattice of 27 temperatures (-30..80), 20 salinities (0..120), 16 pressures (-2e4..1e9 Pa); "
    "expected values in exact rational arithmetic"
]
