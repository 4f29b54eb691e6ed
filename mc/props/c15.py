"""C15 - spiciness: the Flament (2002) polynomial in exact arithmetic."""

from fractions import Fraction as F

import numpy as np
import xarray as xr

from momlevel import derived, spice
from mc.core import Scenario

B = [
    ["0", "7.7442e-1", "-5.85e-3", "-9.84e-4", "-2.06e-4"],
    ["5.1655e-2", "2.034e-3", "-2.742e-4", "-8.5e-6", "1.36e-5"],
    ["6.64783e-3", "-2.4681e-4", "-1.428e-5", "3.337e-5", "7.894e-6"],
    ["-5.4023e-5", "7.326e-6", "7.0036e-6", "-3.0412e-6", "-1.0853e-6"],
    ["3.949e-7", "-3.029e-8", "-3.8209e-7", "1.0012e-7", "4.7133e-8"],
    ["-6.36e-10", "-1.309e-9", "6.048e-9", "-1.1409e-9", "-6.676e-10"],
]
BF = [[F(x) for x in row] for row in B]
TS = ["-2.5", "-1.8", "-1", "0", "0.5", "1", "4", "7.25", "10", "15", "20", "25.5", "30", "35", "40", "-20", "60"]
SS = ["0", "2", "10", "25", "30", "33", "34.5", "34.999", "35", "35.001", "35.5", "37", "40", "42", "47", "60", "100", "-0.5", "-5"]
_mem = {}


def exact(T, S):
    if (T, S) not in _mem:
        t, s = F(T), F(S) - 35
        terms = [BF[i][j] * t**i * s**j for i in range(6) for j in range(5)]
        _mem[(T, S)] = (float(sum(terms)), float(sum(abs(x) for x in terms)))
    return _mem[(T, S)]


def lattice_points(ch):
    T = ch.free("T", TS)
    S = ch.free("S", SS)
    form = ch.free("form", ["float", "int", "mixed", "array", "np.float64", "labelled"])
    if form in ("int", "mixed") and not float(T).is_integer():
        ch.prune()
    if form == "int" and not float(S).is_integer():
        ch.prune()
    t, s = float(T), float(S)
    if form in ("int", "mixed"):
        t = int(t)
    if form == "int":
        s = int(s)
    want, size = exact(T, S)
    ch.state(T, S, form)
    if form == "array":
        got = ch.call(spice.flament.spice, np.array([t]), np.array([s]))
    elif form == "np.float64":
        got = ch.call(spice.flament.spice, np.float64(t), np.float64(s))
    elif form == "labelled":
        got = ch.call(derived.calc_spice, xr.DataArray([t], dims="x"), xr.DataArray([s], dims="x"))
    else:
        got = ch.call(spice.flament.spice, t, s)
    ch.close(f"spice(T={T}, S={S})", np.ravel(np.asarray(got)), [want], 1e-13, 1e-14 * size + 1e-13)


def arrays(ch):
    shape = ch.free("shape", [(210,), (15, 14), (14, 15), (2, 105), (2, 3, 35), (2, 3, 5, 7), (1, 210), (210, 1), (1,), (1, 1, 1), (5040,), (3, 40, 42)])
    entry = ch.free("entry", ["labelled", "array"])
    dt = ch.pick("T dtype", ["f8", "f4", "i8"])
    ds = ch.pick("S dtype", ["f8", "f4", "i8"])
    order = ch.pick("memory", ["C", "F", "strided"])
    sdims = ch.pick("S dims", ["same", "reversed"])
    nan = ch.pick("missing", ["none", "T", "S", "all"])
    coords = ch.pick("coordinates", [True, False])
    pts = [(a, b) for a in TS[:15] for b in SS[:14]]
    if dt[0] == "i":
        pts = [(str(round(float(a))), b) for a, b in pts]
    if ds[0] == "i":
        pts = [(a, str(round(float(b)))) for a, b in pts]
    n = int(np.prod(shape))
    while n > len(pts):
        pts = pts + pts
    pts = pts[:n] if n > 1 else pts[77:78]
    T = np.array([float(a) for a, _ in pts]).astype(dt).reshape(shape)
    S = np.array([float(b) for _, b in pts]).astype(ds).reshape(shape)
    want = np.array([exact(*p)[0] for p in pts]).reshape(shape)
    size = np.array([exact(*p)[1] for p in pts]).reshape(shape)
    hole = np.zeros(shape, bool)
    hole.flat[::4] = True
    if nan == "all":
        hole[:] = True
    if nan in ("T", "all"):
        if dt[0] == "i":
            ch.prune()
        T[hole] = np.nan
    elif nan == "S":
        if ds[0] == "i":
            ch.prune()
        S[hole] = np.nan
    if nan != "none":
        want = np.where(hole, np.nan, want)
    if order == "F":
        T, S = np.asfortranarray(T), np.asfortranarray(S)
    elif order == "strided":
        T = np.repeat(T, 2, axis=-1)[..., ::2]
        S = np.repeat(S, 2, axis=-1)[..., ::2]
    ch.state(T, S, entry, order)
    r = 1e-5 if "f4" in (dt, ds) else 1e-13
    a = float(np.max(size)) * (1e-6 if "f4" in (dt, ds) else 1e-14) + 1e-13
    if entry == "array":
        if sdims == "reversed":
            ch.prune()
        got = ch.call(spice.flament.spice, T, S)
        ch.close("spice", got, want, r, a)
    else:
        dims = ("time", "z_l", "yh", "xh")[-len(shape):]
        c = {d: np.arange(k) * 2.0 for d, k in zip(dims, shape)} if coords else None
        t, s = xr.DataArray(T, dims=dims, coords=c), xr.DataArray(S, dims=dims, coords=c)
        if sdims == "reversed":
            s = s.transpose()
        got = ch.call(derived.calc_spice, t, s)
        ch.field("spice", got, want, dims, r, a)


def shapes_must_agree(ch):
    a = ch.free("T shape", [(4,), (2, 2), (1, 4), (4, 1), (2, 2, 1), (8,)])
    b = ch.free("S shape", [(4,), (2, 2), (1, 4), (4, 1), (2, 2, 1), (8,), (1,)])
    T, S = np.full(a, 10.0), np.full(b, 34.0)
    ch.state(a, b)
    if a == b:
        got = ch.call(spice.flament.spice, T, S)
        ch.close("spice", got, np.full(a, exact("10", "34")[0]), 1e-12)
    else:
        ch.rejects(f"shapes {a} and {b}", spice.flament.spice, T, S)


SCENARIOS = [Scenario(lattice_points, 0), Scenario(arrays, 4, 6), Scenario(shapes_must_agree, 0)]
ASSUMPTIONS = ["lattice of 17 temperatures x 19 salinities; arrays of up to 5040 points, 1 to 4 dimensions"]
