"""C29 - only the values matter, not how they are stored, accompanied or passed."""

import contextlib
import io

import numpy as np
import xarray as xr

import momlevel
from momlevel import derived, dynamic, eos, reference, tidegauge, trend, util
from mc import ops
from mc.core import Scenario
from mc.props.c05 import baseline, inputs, xarray

STORAGE = ["big-endian", "column-major", "reversed", "strided", "read-only", "offset", "swapped", "rotated"]


def stored(q, how):
    if how == "big-endian":
        return q.astype(q.dtype.newbyteorder(">"))
    if how == "column-major":
        return np.asfortranarray(q)
    if how == "swapped":  # the last two axes change places in memory
        return np.swapaxes(np.swapaxes(q, -1, -2).copy(), -1, -2) if q.ndim > 1 else q.copy()
    if how == "rotated":  # the first axis runs fastest, the others in order
        return np.moveaxis(np.moveaxis(q, 0, -1).copy(), -1, 0)
    if how == "reversed":
        return np.ascontiguousarray(q[..., ::-1])[..., ::-1]
    if how == "strided":
        return np.repeat(q, 2, axis=-1)[..., ::2]
    if how == "offset":  # not aligned to its own size
        raw = np.empty(q.nbytes + 1, np.uint8)
        out = raw[1:].view(q.dtype).reshape(q.shape)
        out[...] = q
        return out
    q = q.copy()
    q.flags.writeable = False
    return q


def arrays(v):
    """Names of the numeric arrays inside; '' is the array itself."""
    if isinstance(v, xr.DataArray):
        yield from [""] if v.ndim and v.dtype.kind in "fi" else []
    for n in v.variables if isinstance(v, xr.Dataset) else v.coords:
        if n not in v.dims and v[n].ndim and v[n].dtype.kind in "fi":
            yield n


def put(v, n, q):
    if n == "":
        return v.copy(data=q)
    if n in v.coords:
        return v.assign_coords({n: v[n].variable.copy(data=q)})
    return v.assign({n: v[n].copy(data=q)})


def storage(ch):
    """Byte order, memory layout, alignment, write protection: of everything or of one array."""
    name = ch.free("operation", list(ops.OPS))
    base, used = baseline(name)
    I = inputs()
    how = ch.free("storage", STORAGE)
    each = [(k, n) for k in used if xarray(I[k]) for n in arrays(I[k])]
    if not each:
        return
    only = ch.free("arrays", ["all"] + each)
    J = {k: I[k] for k in used}
    for k, n in each if only == "all" else [only]:
        q = J[k].values if n == "" else J[k][n].values
        J[k] = put(J[k], n, stored(q, how))
    ch.state(name, how, only)
    ch.calls += 1
    got = ops.run(name, J)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (base[0], ""))
    d = ops.differ(got[1], base[1])
    ch.true("same result", not d, d)
    ch.outcomes.add((name, how))


EXTRAS = ["variable", "text variable", "many variables", "scalar coordinate", "text coordinate", "2-d coordinate", "attributes", "encoding"]


def occurring(a):
    """Two values that occur in the data."""
    q = a.values.ravel()
    q = q[np.isfinite(q)] if q.dtype.kind == "f" else q[:0]
    return (float(q[0]), float(q[q.size // 2])) if q.size else (10.0, 5.0)


def accompany(v, what):
    """The same data in more company."""
    whole = isinstance(v, xr.Dataset)
    if what == "variable" and whole:
        d = list(v.dims)[:1]
        return v.assign(zz_other=(d, np.arange(float(v.sizes[d[0]]))), aa_other=((), 4.0)) if d else v
    if what == "text variable" and whole:
        return v.assign(zz_text=("zz_char", np.array(["a", "b"])), zz_flag=((), True))
    if what == "many variables" and whole:
        return v.assign({f"zz{k}": ("zz_dim", np.arange(3.0) + k) for k in range(30)})
    if what == "scalar coordinate":
        return v.assign_coords(zz_member=3, zz_height=2.0)
    if what == "text coordinate":
        return v.assign_coords(zz_label="here")
    if what == "2-d coordinate" and len(v.dims) > 1:
        d = [x for x in v.dims if x not in ("time", "T")][:2]
        return v.assign_coords(zz_map=(d, np.ones([v.sizes[x] for x in d]))) if len(d) == 2 else v
    if what == "attributes":
        v = v.copy()
        for a in [v] if not whole else [v[n] for n in v.variables]:
            x, y = occurring(a)
            a.attrs = {**a.attrs, "missing_value": x, "valid_max": y, "valid_range": [y, y], "comment": "c", "_FillValue": y, "scale_factor": 2.0}
        return v
    if what == "encoding":
        v = v.copy()
        for a in [v] if not whole else [v[n] for n in v.variables]:
            x, y = occurring(a)
            a.encoding = {**a.encoding, "scale_factor": 2.0, "add_offset": 5.0, "_FillValue": x, "missing_value": y, "source": "f.nc"}
        return v
    return v


def company(ch):
    """Unrelated variables, coordinates, attributes and encodings change no value."""
    name = ch.free("operation", list(ops.OPS))
    base, used = baseline(name)
    I = inputs()
    what = [w for w in EXTRAS if ch.pick(f"with {w}", [False, True])]
    J = {k: I[k] for k in used}
    for w in what:
        J = {k: accompany(v, w) if xarray(v) else v for k, v in J.items()}
    if "vorticity" in name and "2-d coordinate" in what:
        ch.prune()  # (the map would sit on one of the two staggered grids)
    if "text variable" in what and name.split("_")[0] in ("annual", "cycle", "monthly", "detrend"):
        ch.prune()  # these work on every variable, and text has no average
    ch.state(name, what)
    ch.calls += 1
    got = ops.run(name, J)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (base[0], ""))
    d = ops.differ(common(got[1], base[1]), base[1], attrs=False, coords=False)
    ch.true("same values", not d, d)
    ch.outcomes.add((name, str(what)))


UNITS = ["K", "degF", "cm", "km", "dbar", "hPa", "kg kg-1", "%", "degrees_west", "days since 1900-01-01", "", "radian", "mm", "m-1", "g kg-1", "degC", "Sv", "1"]


def annotated(ch):
    """What an array says about its units, direction or axis changes no value."""
    name = ch.free("operation", [n for n in [*ops.OPS, *ops.PLAIN] if not n.startswith("broadcast")])
    base, used = baseline(name)
    I = inputs()
    unit = ch.free("units", UNITS)
    where = ch.free("said by", ["everything", "data", "coordinates"])
    up = ch.pick("direction", ["not given", "up", "down"])
    J = {}
    for k in used:
        v = I[k]
        if not xarray(v):
            J[k] = v
            continue
        v = v.copy()
        names = list(v.variables) if isinstance(v, xr.Dataset) else [None] + list(v.coords)
        for n in names:
            c = n is not None and n in v.coords
            if where == "data" and c or where == "coordinates" and not c:
                continue
            a = v if n is None else v[n]
            if a.dtype.kind == "O":
                continue
            a.attrs = {**a.attrs, "units": unit}
            if up != "not given":
                a.attrs.update(positive=up, axis="Z", standard_name="depth", cartesian_axis="Z")
        J[k] = v
    ch.state(name, unit, where, up)
    ch.calls += 1
    got = ops.run(name, J)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (base[0], ""))
    d = ops.differ(got[1], base[1], attrs=False)
    ch.true("same values", not d, d)
    ch.outcomes.add((name, unit, where))


def common(r, base):
    if isinstance(r, (tuple, list)):
        return type(r)(common(x, y) for x, y in zip(r, base))
    if isinstance(r, xr.Dataset):
        return r.drop_vars([n for n in r.data_vars if n.startswith(("zz", "aa_other"))])
    return r


def integers(ch):
    """Integer arrays give what the same numbers give as floating point."""
    name = ch.free("operation", list(ops.OPS))
    kind = ch.free("type", ["i8", "i4", ">i4"])
    base, used = baseline(name, "wet")
    I = inputs("wet")
    each = []
    info = np.iinfo(kind)
    for k in used:
        if not xarray(I[k]):
            continue
        for n in arrays(I[k]):
            q = I[k].values if n == "" else I[k][n].values
            top = np.abs(q).max() if np.isfinite(q).all() else np.inf
            if 3.0 < top <= info.max:
                each.append((k, n))
    if not each:
        ch.prune()
    only = ch.free("arrays", ["all"] + (each if len(each) > 1 else []))
    J, F = {k: I[k] for k in used}, {k: I[k] for k in used}
    for k, n in each if only == "all" else [only]:
        q = np.round(J[k].values if n == "" else J[k][n].values)
        J[k], F[k] = put(J[k], n, q.astype(kind)), put(F[k], n, q.astype(float))
    ch.state(name, kind, only)
    ch.calls += 2
    want, got = ops.run(name, F), ops.run(name, J)
    ch.equal("outcome", (got[0], got[1] if got[0] == "raised" else ""), (want[0], want[1] if want[0] == "raised" else ""))
    if want[0] == "raised":
        return
    d = ops.differ(got[1], want[1], attrs=False)
    ch.true("same values from integers", not d, d)
    ch.outcomes.add((name, kind))


def calls():
    """Every public function with all its documented parameters, in order:
    (name, value used here, documented default or REQUIRED)."""
    I = inputs()
    R = REQUIRED
    ds, ref, uv, n2, dz = I["ds"], I["ref"], I["uv"], I["n2"], I["dz"]
    T, S, p = ds["thetao"], ds["so"], ds["z_l"] * 1.0e4
    a = I["args"]
    nds = I["nds"]
    nref = ref.rename(z_l="lev")
    steric = [
        ("dset", nds, R), ("reference", nref, None), ("coord_names", a["coord_names"], None),
        ("varname_map", a["varname_map"], None), ("rhozero", 1020.0, 1035.0), ("patm", 5.0e4, 101325.0),
        ("equation_of_state", "linear", "Wright"), ("variant", "halosteric", "steric"), ("domain", "global", "local"),
        ("dtype", "float64", "float32"), ("strict", False, True), ("annual", False, False), ("verbose", True, False),
    ]  # fmt: skip
    plain = [("dset", ds, R)] + [q if q[0] != "annual" else ("annual", True, False) for q in steric[1:]]
    plain = [(n, None if n in ("reference", "coord_names", "varname_map") else v, d) for n, v, d in plain]
    plain[0] = ("dset", ds, R)
    rest = [q for q in steric if q[0] != "variant"]
    u = uv
    nuv = I["nuv"]
    nn2 = n2.rename(z_l="lev")
    mon, ser, day = I["mon"]["a"], I["ser"], I["day"]
    tmon, tser, tday = (x.rename(time="t") for x in (mon, ser, day))
    X = I["tide"].rename(geolon="lo", geolat="la")
    num = [("T", 11.0, R), ("S", 34.0, R), ("p", 3.0e7, R)]
    out = {
        "steric": (momlevel.steric, steric),
        "steric annual": (momlevel.steric, plain),
        "thermosteric": (momlevel.thermosteric, rest[:7]),
        "halosteric": (momlevel.halosteric, rest[:7]),
        "setup_reference_state": (
            reference.setup_reference_state,
            [("dset", nds.rename(a["varname_map"]), R), ("patm", 5.0e4, 101325.0), ("eos", "linear", "Wright"), ("coord_names", a["coord_names"], None), ("time_index", 1, 0)],
        ),
        "calc_rho": (derived.calc_rho, [("thetao", T, R), ("so", S, R), ("pres", p, R), ("eos", "linear", "Wright")]),
        "calc_alpha": (derived.calc_alpha, [("thetao", T, R), ("so", S, R), ("pres", p, R), ("eos", "linear", "Wright")]),
        "calc_beta": (derived.calc_beta, [("thetao", T, R), ("so", S, R), ("pres", p, R), ("eos", "linear", "Wright")]),
        "calc_pdens": (derived.calc_pdens, [("thetao", T, R), ("so", S, R), ("level", 700.0, 0.0), ("patm", 5.0e4, 101325), ("eos", "linear", "Wright")]),
        "calc_masso": (derived.calc_masso, [("rho", T.rename(time="t"), R), ("volcello", ds.volcello.rename(time="t"), R), ("tcoord", "t", "time")]),
        "calc_volo": (derived.calc_volo, [("volcello", ref.volcello, R)]),
        "calc_rhoga": (derived.calc_rhoga, [("masso", ref.masso, R), ("volo", ref.volo, R)]),
        "calc_dz": (derived.calc_dz, [("levels", ds.z_l, R), ("interfaces", ds.z_i, R), ("depth", ds.deptho, R), ("top", 3.0, 0.0), ("bottom", 900.0, None), ("fraction", True, False)]),
        "calc_n2": (
            derived.calc_n2,
            [("thetao", T.rename(z_l="lev"), R), ("so", S.rename(z_l="lev"), R), ("eos", "linear", "Wright"), ("gravity", -9.7, -9.8), ("patm", 4.0e4, 101325.0), ("zcoord", "lev", "z_l"), ("interfaces", None, None), ("adjust_negative", False, False)],
        ),
        "calc_n2 adjusted": (
            derived.calc_n2,
            [("thetao", T.isel(time=0), R), ("so", S.isel(time=0), R), ("eos", "linear", "Wright"), ("gravity", -9.7, -9.8), ("patm", 4.0e4, 101325.0), ("zcoord", "z_l", "z_l"), ("interfaces", None, None), ("adjust_negative", True, False)],
        ),
        "adjust_negative_n2": (derived.adjust_negative_n2, [("n2", nn2, R), ("zcoord", "lev", "z_l")]),
        "calc_wave_speed": (derived.calc_wave_speed, [("n2", nn2, R), ("dz", dz.rename(z_l="lev"), R), ("zcoord", "lev", "z_l")]),
        "calc_rossby_rd": (derived.calc_rossby_rd, [("wave_speed", I["tos"], R), ("coriolis", I["sos"], R)]),
        "calc_stability_angle": (
            derived.calc_stability_angle,
            [("thetao", T.rename(z_l="lev"), R), ("so", S.rename(z_l="lev"), R), ("pres", p.rename(z_l="lev"), R), ("eos", "linear", "Wright"), ("zcoord", "lev", "z_l")],
        ),
        "calc_spice": (derived.calc_spice, [("thetao", T, R), ("so", S, R)]),
        "calc_coriolis": (derived.calc_coriolis, [("lat", I["lat"], R)]),
        "calc_rel_vort": (derived.calc_rel_vort, [("dset", nuv, R), ("varname_map", a["flow"], None), ("coord_dict", a["grid"], None), ("symmetric", False, False)]),
        "calc_pv": (
            derived.calc_pv,
            [("zeta", nuv.zeta, R), ("coriolis", nuv.Coriolis, R), ("n2", nuv.n2, R), ("gravity", 9.7, 9.8), ("coord_dict", a["grid"], None), ("symmetric", False, False), ("units", "cm", "m"), ("interp_n2", True, True)],
        ),
        "inverse_barometer": (momlevel.inverse_barometer, [("tos", I["tos"], R), ("sos", I["sos"], R), ("pso", I["pso"], R), ("gravity", 9.7, 9.8), ("equation_of_state", "linear", "Wright")]),
        "broadcast_trend": (trend.broadcast_trend, [("slope", I["slope"], R), ("dim_arr", ser.time, R), ("subtract_time_zero", True, False)]),
        "time_conversion_factor": (trend.time_conversion_factor, [("src", "yr", R), ("dst", "mon", R), ("days_per_month", 30.0, 30.417), ("days_per_year", 360.0, 365.0)]),
        "calc_linear_trend": (trend.calc_linear_trend, [("arr", tser, R), ("dim", "t", "time"), ("time_units", "mon", None)]),
        "linear_detrend": (trend.linear_detrend, [("xobj", tser, R), ("dim", "t", "time"), ("order", 1, 1), ("mode", "correct", "remove")]),
        "util.linear_detrend": (util.linear_detrend, [("xobj", tser, R), ("dim", "t", "time"), ("order", 1, 1), ("mode", "correct", "remove")]),
        "seasonal_model": (trend.seasonal_model, [("da_timeseries", tmon.fillna(1.0), R), ("tcoord", "t", "time"), ("return_model", True, False)]),
        "deseason": (trend.deseason, [("arr", tday, R), ("tdim", "t", "time"), ("output_format", "coeff", "residuals")]),
        "annual_average": (util.annual_average, [("xobj", tmon, R), ("tcoord", "t", "time")]),
        "monthly_average": (util.monthly_average, [("xobj", tday, R), ("tcoord", "t", "time")]),
        "annual_cycle": (util.annual_cycle, [("xobj", tmon, R), ("tcoord", "t", "time"), ("func", "std", "mean"), ("time_axis_year", 1950, None)]),
        "default_coords": (util.default_coords, [("coord_names", a["coord_names"], None)]),
        "eos_func_from_str": (util.eos_func_from_str, [("eos_str", "linear", R), ("func_name", "beta", "density")]),
        "geolocate_points": (
            util.geolocate_points,
            [("df_model", I["dfm"].rename(columns={"geolat": "y", "geolon": "x"}), R), ("df_locs", I["dfl"].rename(columns={"lat": "b", "lon": "a"}), R), ("threshold", 1500.0, None), ("model_coords", ("y", "x"), ("geolat", "geolon")), ("rad_earth", 6000.0, 6.378e03), ("loc_coords", ("b", "a"), ("lat", "lon")), ("apply_mask", False, True), ("disable_warning", True, True)],
        ),
        "standard_grid_cell_area": (util.standard_grid_cell_area, [("lat", I["lat"], R), ("lon", I["lon"], R), ("r_earth", 1.0, 6.371e6)]),
        "tile_nominal_coords": (util.tile_nominal_coords, [("xcoord", I["lon"], R), ("ycoord", I["lat"], R), ("warn", False, True)]),
        "validate_areacello": (util.validate_areacello, [("areacello", ds.areacello, R), ("reference", 3.0e14, 3.6111092e14), ("tolerance", 0.3, 0.02)]),
        "validate_dataset": (util.validate_dataset, [("dset", ref, R), ("reference", True, False), ("strict", False, True), ("additional_vars", ["rho"], None)]),
        "extract_tidegauge": (
            tidegauge.extract_tidegauge,
            [("arr", X, R), ("xcoord", "lo", "geolon"), ("ycoord", "la", "geolat"), ("csv", "global", "us"), ("mask", I["wet"], None), ("threshold", 3000.0, None), ("disable_warning", True, True)],
        ),
        "spice": (momlevel.spice.flament.spice, [("thetao", np.array([3.0, 4.0]), R), ("so", np.array([33.0, 35.0]), R)]),
        "linear.density": (eos.linear.density, num[:2] + [("p", 3.0e7, None), ("rho_ref", 1000.0, None)]),
        "linear.drho_dtemp": (eos.linear.drho_dtemp, [(n, v, None) for n, v, _ in num]),
        "linear.drho_dsal": (eos.linear.drho_dsal, [(n, v, None) for n, v, _ in num]),
        "linear.alpha": (eos.linear.alpha, num),
        "linear.beta": (eos.linear.beta, num),
    }  # fmt: skip
    for f in ("density", "drho_dtemp", "drho_dsal", "alpha", "beta"):
        out[f"wright.{f}"] = (getattr(eos.wright, f), num)
    return out


REQUIRED = object()
_calls = {}


def all_calls():
    if not _calls:
        _calls.update(calls())
    return _calls


NAMES = """steric|steric annual|thermosteric|halosteric|setup_reference_state|calc_rho|calc_alpha|calc_beta|calc_pdens
calc_masso|calc_volo|calc_rhoga|calc_dz|calc_n2|calc_n2 adjusted|adjust_negative_n2|calc_wave_speed|calc_rossby_rd
calc_stability_angle|calc_spice|calc_coriolis|calc_rel_vort|calc_pv|inverse_barometer|broadcast_trend
time_conversion_factor|calc_linear_trend|linear_detrend|util.linear_detrend|seasonal_model|deseason|annual_average
monthly_average|annual_cycle|default_coords|eos_func_from_str|geolocate_points|standard_grid_cell_area
tile_nominal_coords|validate_areacello|validate_dataset|extract_tidegauge|spice|linear.density|linear.drho_dtemp
linear.drho_dsal|linear.alpha|linear.beta|wright.density|wright.drho_dtemp|wright.drho_dsal|wright.alpha|wright.beta"""
NAMES = NAMES.replace("\n", "|").split("|")


def run(ch, fn, args, kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return ops.load(ch.call(fn, *args, **kw))


def by_position(ch):
    """Any number of leading arguments by position, the rest by keyword in any direction."""
    name = ch.free("function", NAMES)
    fn, params = all_calls()[name]
    k = ch.free("by position", list(range(15)))
    back = ch.free("keywords", ["in order", "reversed"])
    if k > len(params):
        ch.prune()
    ch.state(name, k, back)
    if "steric" in name and name not in ("steric", "steric annual") and k > 6:
        ch.prune()  # the variant comes next
    if name == "validate_dataset":
        params = [q for q in params]
    rest = [(n, v) for n, v, _ in params[k:]]
    if back == "reversed":
        rest = rest[::-1]
    got = run(ch, fn, [v for _, v, _ in params[:k]], dict(rest))
    want = run(ch, fn, [], {n: v for n, v, _ in params})
    d = ops.differ(got, want, rtol=0.0, atol=0.0)
    ch.true("position or keyword", not d, d)


def documented_defaults(ch):
    """Leaving an option out is passing its documented default."""
    name = ch.free("function", [n for n in NAMES if n != "steric annual"])
    fn, params = all_calls()[name]
    options = [n for n, _, d in params if d is not REQUIRED]
    which = ch.free("option left out", list(range(13)))
    if which >= len(options):
        ch.prune()
    option = options[which]
    ch.state(name, option)
    kw = {n: v for n, v, _ in params}
    default = next(d for n, _, d in params if n == option)
    kw[option] = default
    without = {n: v for n, v in kw.items() if n != option}
    out = []
    for k in (kw, without):
        with contextlib.redirect_stdout(io.StringIO()) as said:
            try:
                out.append(("ok", ops.load(fn(**k)), said.getvalue()))
            except Exception as e:  # noqa: BLE001
                out.append(("raised", type(e).__name__, ""))
    ch.calls += 2
    ch.equal("outcome", out[1][0], out[0][0])
    ch.equal("output", out[1][2], out[0][2])
    d = ops.differ(out[1][1], out[0][1], rtol=0.0, atol=0.0)
    ch.true("default", not d, d)
    ch.outcomes.add((name, option, out[0][0]))


WHOLE = ("time_index", "time_axis_year", "order")


def numbers(ch):
    """A number is the same number as an int, a float or a numpy scalar."""
    name = ch.free("function", NAMES)
    fn, params = all_calls()[name]
    which = ch.free("parameter", list(range(15)))
    kind = ch.free("given as", ["int", "float", "float64", "int64", "int32", "0-d array"])
    given = [(n, v) for n, v, _ in params if isinstance(v, (int, float)) and not isinstance(v, bool)]
    if which >= len(given):
        ch.prune()
    n, v = given[which]
    if "int" in kind and (v != int(v) or kind == "int32" and abs(v) >= 2**31) or n in WHOLE and "int" not in kind:
        ch.prune()
    if n == "order" and kind == "0-d array" or name.startswith("time_conversion"):
        ch.prune()
    u = {"int": int, "float": float}.get(kind) or (np.asarray if kind == "0-d array" else np.dtype(kind).type)
    ch.state(name, n, kind)
    kw = {m: w for m, w, _ in params}
    want = run(ch, fn, [], kw)
    got = run(ch, fn, [], {**kw, n: u(v)})
    d = ops.differ(got, want, attrs=False)
    ch.true("same number, same result", not d, (n, d))


SCENARIOS = [
    Scenario(numbers, 0),
    Scenario(storage, 0),
    Scenario(company, 2, 4),
    Scenario(annotated, 1, 1),
    Scenario(integers, 0),
    Scenario(by_position, 0),
    Scenario(documented_defaults, 0),
]
ASSUMPTIONS = [
    "operations and inputs of mc/ops.py; arrays with missing values are not given as integers, integers have "
    "32 or 64 bits (numpy itself computes with shorter ones in single precision)",
    "parameter order and defaults as documented in the docstrings",
]
