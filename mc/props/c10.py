"""C10 - density front ends, dispatch by name, potential density, inverse barometer."""

import itertools

import numpy as np
import xarray as xr

import momlevel
from momlevel import derived, util, eos as E
from mc import model
from mc.core import Scenario
from mc.ocean import pattern

SIZE = {"time": 2, "z_l": 3, "yh": 2, "xh": 2}
DIMS = tuple(SIZE)
LAYOUTS = [
    DIMS,
    DIMS[::-1],
    ("z_l", "time", "xh", "yh"),
    ("z_l", "yh", "xh"),
    ("time", "yh", "xh"),
    ("z_l",),
    ("xh", "z_l"),
    (),
]
ORACLE = {
    "rho": lambda e, t, s, p: model.density(e)(t, s, p),
    "alpha": lambda e, t, s, p: model.alpha_beta(e, t, s, p)[0],
    "beta": lambda e, t, s, p: model.alpha_beta(e, t, s, p)[1],
}
FUNC = {
    "rho": derived.calc_rho,
    "alpha": derived.calc_alpha,
    "beta": derived.calc_beta,
}
COORD = {
    "time": np.arange(1.0, 3.0),
    "z_l": np.array([2.5, 10.0, 100.0]),
    "yh": np.array([-5.0, 5.0]),
    "xh": np.array([10.0, 30.0]),
}


def make(dims, lo, hi, salt, dtype="f8", labelled=True, holes=False):
    v = pattern(tuple(SIZE[d] for d in dims), lo, hi, salt)
    if dtype[0] == "i":
        v = np.round(v)
    v = v.astype(dtype)
    if holes and v.size > 1:
        v = v.astype(float)
        v.flat[::3] = np.nan
    return xr.DataArray(v, dims=dims, coords={d: COORD[d] for d in dims} if labelled else None)


def full(a, dims):
    """Broadcast by name to `dims` in plain numpy."""
    if not isinstance(a, xr.DataArray):
        return np.asarray(a, float)
    idx = [a.dims.index(d) for d in dims if d in a.dims]
    v = a.values.transpose(idx).astype(float)
    shape = [SIZE[d] if d in a.dims else 1 for d in dims]
    return v.reshape(shape)


def front_ends(ch):
    what = ch.free("function", ["rho", "alpha", "beta"])
    e = ch.free("eos", ["Wright", "linear", None])
    td = ch.pick("T dims", LAYOUTS)
    sd = ch.pick("S dims", LAYOUTS)
    pd_ = ch.pick("p dims", [("z_l",), "number", "int"] + LAYOUTS[:5] + [("time",), ("xh", "yh")])
    dt = ch.pick("T dtype", ["f8", "f4", "i8"])
    holes = ch.pick("missing values", ["none", "T", "S"])
    labelled = ch.pick("coordinates", [True, False])
    tr = ch.pick("T range", [(-1.0, 28.0), (-90.0, -2.0), (40.0, 350.0), (-1e-3, 1e-3)])
    sr = ch.pick("S range", [(31.0, 37.0), (-4.0, 0.9), (45.0, 500.0), (1e-4, 1e-3)])
    T = make(td, *tr, 1, dt, labelled, holes == "T")
    S = make(sd, *sr, 2, "f8", labelled, holes == "S")
    if pd_ == "number":
        P = 2.0e7
    elif pd_ == "int":
        P = 101325
    else:
        P = make(pd_, 1.0e5, 6.0e7, 3, "f8", labelled)
        if (e == "linear") and not set(pd_) <= set(td) | set(sd):
            ch.prune()  # a pressure-free formula cannot grow pressure's dimensions
    ch.state(T, S, P, what, e)
    kw = {} if e is None else {"eos": e}
    got = ch.call(FUNC[what], T, S, P, **kw)
    dims = [d for d in DIMS if d in td or d in sd or (not isinstance(P, (int, float)) and d in P.dims)]
    want = ORACLE[what](e or "wright", full(T, dims), full(S, dims), full(P, dims))
    if what != "rho" and e == "linear":
        want = want + 0 * (full(T, dims) + full(S, dims))
    want = np.broadcast_to(want, [SIZE[d] for d in dims])
    r, a = (3e-3, 1e-7) if dt == "f4" else (1e-9, 1e-16)
    ch.field(f"calc_{what}", got, want, dims, r, a)
    if labelled:
        for d in dims:
            ch.equal(f"coordinate {d}", list(got[d].values), list(COORD[d]))


def every_spelling(ch):
    """All 2 x 64 letter cases of the two names, for every front end."""
    name = ch.free("name", ["wright", "linear"])
    case = ch.free("case", list(range(64)))
    e = "".join(c.upper() if case >> k & 1 else c for k, c in enumerate(name))
    T, S = make(("z_l",), 0.0, 25.0, 1), make(("z_l",), 33.0, 36.0, 2)
    P = make(("z_l",), 1.0e5, 4.0e7, 3)
    ch.state(e)
    for what in ORACLE:
        want = ORACLE[what](name, T.values, S.values, P.values)
        ch.field(what, ch.call(FUNC[what], T, S, P, eos=e), want, ("z_l",), 1e-9)
    for f in ("density", "drho_dtemp", "drho_dsal", "alpha", "beta"):
        got = ch.call(util.eos_func_from_str, e, func_name=f)
        ch.true("function resolved", got is getattr(getattr(E, name), f), (e, f, got))
    ch.true(
        "default is density",
        ch.call(util.eos_func_from_str, e) is getattr(E, name).density,
    )
    pd_ = ch.call(derived.calc_pdens, T, S, eos=e)
    ch.field("pdens", pd_, model.density(name)(T.values, S.values, 101325.0), ("z_l",), 1e-9)
    ib = ch.call(momlevel.inverse_barometer, T, S, P, equation_of_state=e)
    want = -P.values / (model.density(name)(T.values, S.values, P.values) * 9.8)
    ch.field("ibh", ib, want, ("z_l",), 1e-9)


def refusals(ch):
    bad = ch.free("eos", ["", "eos", "Wright97", "wrigh", "wright ", " linear", "teos10", "jmd95",
                          "density", "__name__", None, 3, ["Wright"]])
    fn = ch.free("function", ["rho", "alpha", "beta", "pdens", "ib", "n2", "angle"])
    T, S = make(("z_l",), 0.0, 25.0, 1), make(("z_l",), 33.0, 36.0, 2)
    P = make(("z_l",), 1.0e5, 4.0e7, 3)
    ch.state(bad, fn)
    call = {
        "rho": lambda: derived.calc_rho(T, S, P, eos=bad),
        "alpha": lambda: derived.calc_alpha(T, S, P, eos=bad),
        "beta": lambda: derived.calc_beta(T, S, P, eos=bad),
        "pdens": lambda: derived.calc_pdens(T, S, eos=bad),
        "ib": lambda: momlevel.inverse_barometer(T, S, P, equation_of_state=bad),
        "n2": lambda: derived.calc_n2(T, S, eos=bad),
        "angle": lambda: derived.calc_stability_angle(T, S, P, eos=bad),
    }[fn]
    ch.rejects(f"{fn} with equation of state {bad!r}", call)


def potential_density(ch):
    e = ch.free("eos", ["Wright", "linear", None])
    level = ch.free("level", [None, 0.0, 0, 1.0, 10.0, 1000, 2000.0, 4000.0, 7499.0, 7500.0,
                              7500.0001, 8000, -1e-6, -10, np.nan, 0.25, 0.999,
                              1234.567, np.float32(1500.5), np.int64(3000), np.float64(99.9)])
    patm = ch.pick("patm", [None, 0.0, 101325, 2.0e5, "field", "in time", 0.5])
    td = ch.pick("T dims", LAYOUTS)
    sd = ch.pick("S dims", ["same"] + LAYOUTS)
    sd = td if sd == "same" else sd
    T = make(td, -1.0, 28.0, 1)
    S = make(sd, 31.0, 37.0, 2)
    kw = {}
    pa = 101325.0
    if patm == "field":
        if not {"yh", "xh"} <= set(td) | set(sd):
            ch.prune()
        kw["patm"] = make(("yh", "xh"), 9e4, 1.1e5, 7)
        pa = kw["patm"]
    elif patm == "in time":
        if "time" not in td and "time" not in sd:
            ch.prune()
        pa = kw["patm"] = make(("time",), 9e4, 9e6, 7)
    elif patm is not None:
        pa = kw["patm"] = patm
    if e is not None:
        kw["eos"] = e
    if level is not None:
        kw["level"] = level
    lv = 0.0 if level is None else level
    ch.state(T, S, repr(kw))
    if not 0.0 <= lv <= 7500.0:
        ch.rejects(f"level {lv}", derived.calc_pdens, T, S, **kw)
        return
    got = ch.call(derived.calc_pdens, T, S, **kw)
    dims = [d for d in DIMS if d in td or d in sd]
    want = model.density(e or "wright")(
        full(T, dims), full(S, dims), lv * 1.0e4 + full(pa, dims)
    )
    ch.field("potential density", got, np.broadcast_to(want, [SIZE[d] for d in dims]), dims, 1e-10)


def barometer(ch):
    e = ch.free("eos", ["Wright", "linear", None])
    lay = [("time", "yh", "xh"), ("xh", "yh", "time"), ("yh", "xh"), ("time",), ()]
    td = ch.pick("tos dims", lay)
    sd = ch.pick("sos dims", lay)
    pdm = ch.pick("pso dims", lay)
    g = ch.pick("gravity", [None, 9.8, 9.81, 9.80665, 1.0, -9.8, 10, 1e-3, 274.0])
    dt = ch.pick("dtype", ["f8", "f4", "i8"])
    holes = ch.pick("missing", ["none", "tos", "pso"])
    prange = ch.pick("pressure range", [(9.0e4, 1.06e5), (0.0, 10.0), (-2000.0, 2000.0), (1.0e6, 5.0e7)])
    if e == "linear" and not set(pdm) <= set(td) | set(sd):
        ch.prune()
    T = make(td, -1.0, 30.0, 1, dt, True, holes == "tos")
    S = make(sd, 30.0, 38.0, 2)
    P = make(pdm, *prange, 3, "f8", True, holes == "pso")
    kw = {} if g is None else {"gravity": g}
    if e:
        kw["equation_of_state"] = e
    ch.state(T, S, P, repr(kw))
    got = ch.call(momlevel.inverse_barometer, T, S, P, **kw)
    dims = [d for d in DIMS if d in td or d in sd or d in pdm]
    p = full(P, dims)
    want = -p / (model.density(e or "wright")(full(T, dims), full(S, dims), p) * (g or 9.8))
    want = np.broadcast_to(want, [SIZE[d] for d in dims])
    ch.field("ibh", got, want, dims, 3e-6 if dt == "f4" else 1e-10)
    ch.equal("name", got.name, "ibh")


def labels_must_agree(ch):
    """Arrays on different coordinate labels are never silently combined."""
    fn = ch.free("function", ["rho", "alpha", "beta", "spice", "pdens", "ib"])
    which = ch.free("argument", [0, 1, 2])
    how = ch.free("mismatch", ["shifted", "partly", "reversed", "size", "slightly", "last bit", "one of them"])
    far = ch.free("labels", ["near", "far"])
    args = [make(("z_l",), 0.0, 25.0, 1), make(("z_l",), 33.0, 36.0, 2), make(("z_l",), 1e5, 4e7, 3)]
    if far == "far":
        args = [q.assign_coords(z_l=q.z_l + 5.0e5) for q in args]
    a = args[which]
    args[which] = {
        "slightly": lambda: a.assign_coords(z_l=a.z_l * (1 + 1e-6)),
        "last bit": lambda: a.assign_coords(z_l=np.nextafter(a.z_l.values, np.inf)),
        "one of them": lambda: a.assign_coords(z_l=a.z_l + [0.0, 0.0, 1e-3]),
        "shifted": lambda: a.assign_coords(z_l=a.z_l + 1.0),
        "partly": lambda: a.assign_coords(z_l=a.z_l + [0.0, 0.0, 1.0]),
        "reversed": lambda: a[::-1],
        "size": lambda: a[:2],
    }[how]()
    if fn in ("spice", "pdens") and which == 2:
        ch.prune()
    ch.state(fn, which, how, far)
    f = {"spice": derived.calc_spice, "pdens": derived.calc_pdens, "ib": momlevel.inverse_barometer}.get(fn) or FUNC[fn]
    ch.rejects("mismatched labels", f, *(args[:2] if fn in ("spice", "pdens") else args))


def many_points(ch):
    """Large arrays, in every front end."""
    fn = ch.free("function", ["rho", "alpha", "beta", "pdens", "ib"])
    e = ch.free("eos", ["Wright", "linear"])
    shape = ch.free("shape", [(5000,), (70, 80), (3, 40, 5, 11)])
    dims = ("time", "z_l", "yh", "xh")[-len(shape):]
    T = xr.DataArray(pattern(shape, -2.0, 31.0, 1), dims=dims)
    S = xr.DataArray(pattern(shape, 5.0, 41.0, 2), dims=dims)
    P = xr.DataArray(pattern(shape, 9.0e4, 7.0e7, 3), dims=dims)
    ch.state(fn, e, shape)
    t, s, p = T.values, S.values, P.values
    dens = model.density(e)
    if fn == "pdens":
        got, want = ch.call(derived.calc_pdens, T, S, level=1500.0, eos=e), dens(t, s, 1.5e7 + 101325.0)
    elif fn == "ib":
        got = ch.call(momlevel.inverse_barometer, T, S, P, equation_of_state=e)
        want = -p / (dens(t, s, p) * 9.8)
    else:
        got, want = ch.call(FUNC[fn], T, S, P, eos=e), ORACLE[fn](e, t, s, p)
    ch.field(fn, got, np.broadcast_to(want, shape), dims, 1e-9, 1e-16)


SCENARIOS = [
    Scenario(front_ends, 3, 5),
    Scenario(every_spelling, 0),
    Scenario(refusals, 0),
    Scenario(potential_density, 3, 3),
    Scenario(barometer, 3, 5),
    Scenario(labels_must_agree, 0),
    Scenario(many_points, 0),
]
ASSUMPTIONS = [
    "2 x 3 x 2 x 2 arrays in eight layouts per argument, and arrays of 5000 to 6600 points",
    "with the linear equation of state, pressure has no dimension that temperature and salinity lack",
]
