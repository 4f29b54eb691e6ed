"""C27 - results carry correct metadata and survive a file round trip."""

import itertools
import os
import shutil
import tempfile

import numpy as np
import xarray as xr

import momlevel
from momlevel import derived, dynamic, trend, util
from mc import ops
from mc.core import Scenario, digest
from mc.ocean import ocean
from mc.props.c05 import baseline, inputs
from mc.props.common import handmade_reference, reference_dataset, run_variant

NEW_AXIS = {"cycle_mean", "cycle_std", "cycle_max", "monthly", "monthly_ds", "seasonal"}


def steric_results(ch):
    variant = ch.free("variant", ["steric", "thermosteric", "halosteric"])
    domain = ch.free("domain", ["local", "global"])
    how = ch.pick("how", ["keyword", "wrapper"])
    dtype = ch.pick("dtype", [None, "float64", "float32", "float16"])
    eos = ch.pick("eos", ["Wright", "linear"])
    annual = ch.pick("annual", [False, True])
    refkind = ch.pick("reference", ["auto", "own", "handmade"])
    c2 = ch.pick("two-dimensional coordinates", [False, True])
    bare = ch.pick("attributes of coordinates", ["all", "none", "own"])
    verbose = ch.pick("verbose", [False, True])
    file = ch.pick("file", [None, "netcdf4", "scipy"])
    nt = 24 if annual else 2
    ds, arr = ocean(nt, 3, 2, 2, time=("noleap", 1999) if annual else "number", coords2d=c2)
    for c in ds.coords:
        if bare == "none":
            ds[c].attrs = {}
        elif bare == "own":
            ds[c].attrs = {"note": f"about {c}", "n": 3}
    kw = dict(equation_of_state=eos, domain=domain)
    if dtype:
        kw["dtype"] = dtype
    if annual:
        kw["annual"] = True
    if verbose:
        kw["verbose"] = True
    if refkind == "own":
        kw["reference"] = momlevel.reference.setup_reference_state(ds, eos=eos, time_index=1)
    elif refkind == "handmade":
        ref, A = handmade_reference(arr, eos, 101325.0)
        kw["reference"] = reference_dataset(ref, A, ds)
    ch.state(variant, domain, how, dtype, eos, annual, refkind, c2, bare, file)
    import contextlib
    import io

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res, ref = run_variant(ch, variant, how, ds, **kw)
    ch.equal("silent unless asked", bool(out.getvalue().strip()), verbose)
    names = {"delta_rho", variant} if domain == "local" else {"reference_height", variant}
    ch.equal("variables", set(res.data_vars), names)
    ch.equal("units", res[variant].attrs.get("units"), "m")
    ch.equal("long name", res[variant].attrs.get("long_name"), f"{variant.capitalize()} height adjustment")
    if domain == "local":
        ch.equal("units of density", res["delta_rho"].attrs.get("units"), "kg m-3")
        ch.true("name of density", "density" in res["delta_rho"].attrs.get("long_name", ""))
    else:
        ch.equal("units of reference height", res["reference_height"].attrs.get("units"), "m")
        ch.equal("name of reference height", res["reference_height"].attrs.get("long_name"), "Reference column height")
    for v in names:
        ch.equal(f"output type of {v}", np.dtype(res[v].encoding.get("dtype")), np.dtype(dtype or "float32"))
        ch.true(f"{v} in memory keeps its precision", res[v].dtype == np.float64)
    for c in res.coords:
        if c in ds.coords:
            ch.equal(f"attributes of {c}", dict(res[c].attrs), dict(ds[c].attrs))
    if refkind == "auto":
        ch.equal("reference units", (ref["rho"].attrs.get("units"), ref["rhoga"].attrs.get("units")), ("kg m-3", "kg m-3"))
        ch.equal("reference totals", (ref["volo"].attrs.get("units"), ref["masso"].attrs.get("units")), ("m3", "kg"))
        ch.equal("temperature attributes", dict(ref["thetao"].attrs), dict(ds["thetao"].attrs))
        ch.true("equation of state named", eos in ref["rho"].attrs.get("comment", ""))
        for c in ref.coords:
            ch.equal(f"reference attributes of {c}", dict(ref[c].attrs), dict(ds[c].attrs))
    if not file or (file == "scipy" and dtype == "float16") or (file == "netcdf4" and dtype == "float16"):
        return
    scratch = tempfile.mkdtemp(prefix="momlevel_c27_")
    try:
        p = os.path.join(scratch, "r.nc")
        res.to_netcdf(p, engine=file)
        with xr.open_dataset(p, engine=file, use_cftime=True if annual else None) as f:
            back = f.load()
    finally:
        shutil.rmtree(scratch)
    tol = 1e-6 if (dtype or "float32") == "float32" else 0.0
    for v in names:
        ch.equal(f"type of {v} in the file", back[v].encoding["dtype"], np.dtype(dtype or "float32"))
        m = res[v].values
        ch.close(f"{v} from the file", back[v].transpose(*res[v].dims).values, m, tol, tol * 1e-3)
        ch.equal(f"attributes of {v} from the file", {k: back[v].attrs.get(k) for k in ("units", "long_name")}, {k: res[v].attrs.get(k) for k in ("units", "long_name")})


def fields():
    I = inputs()
    ds, uv = I["ds"], I["uv"]
    T, S, p = ds["thetao"], ds["so"], ds["z_l"] * 1e4
    out = {}
    for eos in ("Wright", "linear", "WRIGHT", "wright"):
        out[f"rho {eos}"] = (
            lambda eos=eos: derived.calc_rho(T, S, p, eos=eos),
            dict(units="kg m-3", standard_name="sea_water_density", long_name="In situ sea water density"),
            eos,
        )
        out[f"alpha {eos}"] = (
            lambda eos=eos: derived.calc_alpha(T, S, p, eos=eos),
            dict(units="degC-1", long_name="Thermal expansion coefficient"),
            eos,
        )
        out[f"beta {eos}"] = (
            lambda eos=eos: derived.calc_beta(T, S, p, eos=eos),
            dict(units="PSU-1", long_name="Haline contraction coefficient"),
            eos,
        )
        for lev in (0.0, 500.0, 2000.0, 4000.0, 1234.5):
            out[f"pdens {eos} {lev}"] = (
                lambda eos=eos, lev=lev: derived.calc_pdens(T, S, level=lev, eos=eos),
                dict(units="kg m-3", standard_name="sea_water_potential_density", long_name=f"Sea water potential density referenced to {lev} m"),
                eos,
            )
        for neg in (False, True):
            out[f"n2 {eos} {neg}"] = (
                lambda eos=eos, neg=neg: derived.calc_n2(T, S, eos=eos, adjust_negative=neg),
                dict(units="s-2", standard_name="square_of_brunt_vaisala_frequency_in_sea_water", long_name="Square of seawater buoyancy frequency"),
                "adjust" if neg else None,
            )
    out["pdens"] = (
        lambda: derived.calc_pdens(T, S),
        dict(units="kg m-3", standard_name="sea_water_potential_density", long_name="Sea water potential density referenced to 0.0 m"),
        "Wright",
    )
    out["spice"] = (lambda: derived.calc_spice(T, S), dict(units="1", long_name="Sea water spiciness"), "Flament")
    out["coriolis"] = (
        lambda: derived.calc_coriolis(I["lat"]),
        dict(units="s-1", standard_name="coriolis_parameter", long_name="Coriolis parameter"),
        None,
    )
    out["vorticity"] = (
        lambda: derived.calc_rel_vort(uv),
        dict(units="s-1", standard_name="ocean_relative_vorticity", long_name="Ocean relative vorticity"),
        None,
    )
    for u, unit in (("m", "m-1 s-1"), ("cm", "10^14 cm-1 s-1")):
        for gr in (9.8, 9.7):
            out[f"pv {u} {gr}"] = (
                lambda u=u, gr=gr: derived.calc_pv(uv["zeta"], uv["Coriolis"], uv["n2"], units=u, gravity=gr),
                dict(units=unit, long_name="Ocean potential vorticity"),
                None,
            )
    out["masso"] = (
        lambda: derived.calc_masso(S, ds["volcello"]),
        dict(units="kg", standard_name="sea_water_mass", long_name="Sea Water Mass"),
        None,
    )
    out["volo"] = (
        lambda: derived.calc_volo(I["ref"]["volcello"]),
        dict(units="m3", standard_name="sea_water_volume", long_name="Sea Water Volume"),
        None,
    )
    out["rhoga"] = (
        lambda: derived.calc_rhoga(I["ref"]["masso"], I["ref"]["volo"]),
        dict(units="kg m-3", long_name="Global Average Sea Water Density"),
        None,
    )
    out["stability"] = (lambda: derived.calc_stability_angle(T, S, p), dict(units="degrees", long_name="Stability angle"), None)
    out["rossby"] = (lambda: derived.calc_rossby_rd(I["tos"], I["sos"]), dict(units="m", long_name="Rossby radius of deformation"), None)
    out["wave speed"] = (
        lambda: derived.calc_wave_speed(I["n2"], I["dz"]),
        dict(units="m s-1", long_name="Ocean gravity wave speed of the first baroclinic mode"),
        None,
    )
    out["barometer"] = (
        lambda: dynamic.inverse_barometer(I["tos"], I["sos"], I["pso"]),
        dict(units="m", long_name="Inverse Barometer Height"),
        None,
    )
    out["cell area"] = (
        lambda: util.standard_grid_cell_area(I["lat"], I["lon"]),
        dict(units="m2", standard_name="cell_area", long_name="area of grid cell"),
        None,
    )
    n2 = I["n2"]
    out["adjusted"] = (lambda: derived.adjust_negative_n2(n2), dict(units="s-2", long_name="N2"), "adjust")
    for u in ("ns", "s", "min", "hr", "day", "mon", "yr"):
        out[f"slope {u}"] = (
            lambda u=u: trend.calc_linear_trend(I["ser"], time_units=u)["zos_slope"],
            dict(units=f"m s-1 {u}-1", long_name="sea level"),
            "lope",
        )
        out[f"intercept {u}"] = (
            lambda u=u: trend.calc_linear_trend(I["ser"], time_units=u)["zos_intercept"],
            dict(units="m s-1", long_name="sea level"),
            "ntercept",
        )
    return out


def calculated_fields(ch):
    F = fields()
    name = ch.free("field", list(F))
    fn, want, comment = F[name]
    ch.state(name)
    got = ch.call(fn)
    for k, v in want.items():
        ch.equal(f"{name}: {k}", str(got.attrs.get(k)).split(), v.split())
    if comment:
        ch.true(f"{name}: comment", comment in got.attrs.get("comment", ""), got.attrs)


def processed_fields(ch):
    """Averages, detrended and deseasoned series keep what they are and say what was done."""
    what = ch.free("attributes of the input", ["units and names", "units", "nothing", "many"])
    name = ch.free(
        "operation",
        ["annual", "annual ds", "cycle mean", "cycle std", "cycle max", "cycle min", "monthly", "monthly ds", "detrend", "correct", "detrend ds", "adjusted", "residuals", "model", "coeff", "seasonal", "seasonal model"],
    )
    I = inputs()
    attrs = {
        "units and names": dict(units="m", long_name="sea level", standard_name="ssh"),
        "units": dict(units="kg m-2"),
        "nothing": {},
        "many": dict(units="m yr-1", long_name="L", cell_methods="time: mean", n=3, comment="c"),
    }[what]
    mon, day = I["mon"]["a"].copy(), I["day"].copy()
    ser = I["ser"].copy()
    for q in (mon, day, ser):
        q.attrs = dict(attrs)
    ds = xr.Dataset({"a": mon})
    fn = {
        "annual": lambda: util.annual_average(mon),
        "annual ds": lambda: util.annual_average(ds)["a"],
        "cycle mean": lambda: util.annual_cycle(mon),
        "cycle std": lambda: util.annual_cycle(mon, func="std"),
        "cycle max": lambda: util.annual_cycle(mon, func="max"),
        "cycle min": lambda: util.annual_cycle(ds, func="min")["a"],
        "monthly": lambda: util.monthly_average(day),
        "monthly ds": lambda: util.monthly_average(day.to_dataset(name="a"))["a"],
        "detrend": lambda: trend.linear_detrend(ser),
        "correct": lambda: trend.linear_detrend(ser, mode="correct"),
        "detrend ds": lambda: trend.linear_detrend(ser.to_dataset(name="a"))["a"],
        "adjusted": lambda: derived.adjust_negative_n2(xr.DataArray([-1.0, 1.0], dims="z_l", attrs=dict(attrs))),
        "residuals": lambda: trend.deseason(day),
        "model": lambda: trend.deseason(day, output_format="model"),
        "coeff": lambda: trend.deseason(day, output_format="coeff"),
        "seasonal": lambda: trend.seasonal_model(day),
        "seasonal model": lambda: trend.seasonal_model(day, return_model=True)[0],
    }[name]
    ch.state(what, name)
    got = ch.call(fn)
    if name in ("residuals", "model", "coeff"):
        ch.equal("units", got.attrs.get("units"), attrs.get("units") if name != "coeff" else None)
        if "long_name" in attrs:
            ch.true("says what it is of", str(got.attrs.get("long_name")).startswith(attrs["long_name"]), got.attrs)
            ch.true("and what was done", got.attrs["long_name"] != attrs["long_name"], got.attrs)
        ch.true("no standard name of the original", "standard_name" not in got.attrs, got.attrs)
        ch.true("processing", {"residuals": "esidual", "model": "odel", "coeff": "oefficient"}[name] in got.attrs.get("processing", ""), got.attrs)
    elif name.startswith("seasonal"):
        ch.equal("units", got.attrs.get("units"), attrs.get("units", ""))
        sn = got.attrs.get("standard_name", "")
        ch.true("standard name", sn.startswith(attrs.get("standard_name", "")) and sn != attrs.get("standard_name"), got.attrs)
        ch.true("long name", attrs.get("long_name", "") in got.attrs.get("long_name", ""), got.attrs)
    else:
        said = {"adjusted": "comment", "detrend": "detrend_comment", "correct": "detrend_comment", "detrend ds": "detrend_comment"}.get(name)
        for k, v in attrs.items():
            if k != said:
                ch.equal(f"attribute {k}", got.attrs.get(k), v)
        if said:
            ch.true("says what was done", got.attrs.get(said, attrs.get(said)) != attrs.get(said), got.attrs)


def coordinate_attributes(ch):
    """Coordinates of results that come from the input keep their attributes."""
    name = ch.free("operation", [n for n in ops.OPS if n not in NEW_AXIS])
    which = ch.free("inputs", ["A", "B", "short", "length", "missing", "vertical", "attributes"])
    base, used = baseline(name, which)
    I = inputs(which)
    ch.state(name, which)
    ch.calls += 1
    have = {}
    for k in used:
        if k not in ("dfm", "dfl"):
            for c in I[k].coords:
                have.setdefault(c, []).append(dict(I[k][c].attrs))

    def visit(r):
        if isinstance(r, (tuple, list)):
            for x in r:
                visit(x)
        elif isinstance(r, (xr.DataArray, xr.Dataset)):
            for c in r.coords:
                if c in have:
                    ch.true(f"attributes of {c}", dict(r[c].attrs) in have[c], f"{dict(r[c].attrs)} not in {have[c]}")

    ch.equal("outcome", base[0], "ok")
    visit(base[1])


KEYS = ["chunks", "preferred_chunks", "dtype", "_FillValue"]


def encoding(ch):
    kind = ch.free("object", ["dataset", "array"])
    on = {w: ch.free(f"entries on {w}", [tuple(k for k, b in zip(KEYS, bits) if b) for bits in itertools.product((0, 1), repeat=4)]) for w in ("a",)}
    more = ch.free("entries elsewhere", [(), ("chunks", "dtype"), tuple(KEYS)])
    remove = ch.free(
        "remove", [None] + [[k for k, b in zip(KEYS, bits) if b] for bits in itertools.product((0, 1), repeat=4)] + [["nope"]]
    )
    ds = xr.Dataset(
        {"a": (("y", "x"), np.arange(4.0).reshape(2, 2), {"units": "m"}), "b": ("x", [1.0, 2.0])},
        coords={"x": [1.0, 2.0], "geo": ("y", [5.0, 6.0])},
        attrs={"title": "t"},
    )
    val = {"chunks": (1, 2), "preferred_chunks": {"y": 1}, "dtype": "float32", "_FillValue": 1e20}
    ds["a"].encoding = {k: val[k] for k in on["a"]}
    for w in ("b", "x", "geo"):
        ds[w].encoding = {k: val[k] for k in more}
    ds.encoding = {k: val[k] for k in more}
    obj = ds if kind == "dataset" else ds["a"]
    ch.state(kind, on, more, remove)
    plain = digest(obj.drop_encoding() if hasattr(obj, "drop_encoding") else obj)
    got = ch.call(util.reset_encoding, obj) if remove is None else ch.call(util.reset_encoding, obj, attrs=remove)
    gone = {"chunks", "preferred_chunks"} if remove is None else set(remove)
    ch.equal("a", dict(got.encoding if kind == "array" else got["a"].encoding), {k: val[k] for k in on["a"] if k not in gone})
    if kind == "dataset":
        for w in ("b", "x", "geo"):
            ch.equal(w, dict(got[w].encoding), {k: val[k] for k in more if k not in gone})
        ch.equal("dataset", dict(got.encoding), {k: val[k] for k in more if k not in gone})
    ch.equal("everything else", digest(got.drop_encoding() if hasattr(got, "drop_encoding") else got), plain)


def not_xarray(ch):
    x = ch.free("object", [None, 1.0, "a", {"a": 1}, np.zeros(2), [1], xr.Variable("x", [1.0])])
    ch.state(repr(x))
    e = ch.rejects("not an xarray object", util.reset_encoding, x)
    ch.true("reason", isinstance(e, ValueError))


def alphabetical(ch):
    names = ["b", "a", "Z", "_x", "a1", "time", "coordinate"]
    n = ch.free("variables", [3, 0, 1, 2, 4])
    order = ch.free("order", list(itertools.permutations(names[:n])))
    coords = ch.free("coordinates", [(), ("time",), ("coordinate", "time")])
    ds = xr.Dataset(attrs={"title": "t"})
    for i, v in enumerate(order):
        ds[v] = (("time", "y"), np.arange(4.0).reshape(2, 2) + i, {"units": str(i)})
        ds[v].encoding = {"dtype": f"f{4 + 4 * (i % 2)}"}
    for c in coords:
        ds = ds.assign_coords({c: ("time", [1.0, 2.0], {"axis": c})})
    ch.state(n, order, coords)
    got = ch.call(util.alphabetize_dataset, ds)
    ch.equal("order", list(got.data_vars), sorted(order))
    ch.equal("coordinates", set(got.coords), set(ds.coords))
    ch.equal("content", digest(got), digest(ds))


def names(ch):
    d = {}
    for k, v in (("t", "T"), ("z", "lev"), ("zbounds", "lev_bnds"), ("x", "lon"), ("y", "lat"), ("tbounds", "q")):
        if ch.free(k, [False, True]):
            d[k] = v
    ch.state(d)
    before = dict(d)
    got = ch.call(util.default_coords, d)
    ch.equal("names", tuple(got), (d.get("t", "time"), d.get("z", "z_l"), d.get("zbounds", "z_i")))
    ch.equal("argument", d, before)
    ch.equal("defaults", tuple(ch.call(util.default_coords)), ("time", "z_l", "z_i"))
    ch.equal("none", tuple(ch.call(util.default_coords, None)), ("time", "z_l", "z_i"))
    for bad in ("z_l", ["t"], ("t", "z"), 3):
        ch.rejects("not a dictionary", util.default_coords, bad)


SCENARIOS = [
    Scenario(steric_results, 3, 5),
    Scenario(calculated_fields, 0),
    Scenario(processed_fields, 0),
    Scenario(coordinate_attributes, 0),
    Scenario(encoding, 0),
    Scenario(not_xarray, 0),
    Scenario(alphabetical, 0),
    Scenario(names, 0),
]
ASSUMPTIONS = [
    "operations that build a new time axis (annual cycle, monthly average) and seasonal_model are not required to keep coordinate attributes",
    "files: netCDF4 and scipy back ends, in a scratch directory",
]
