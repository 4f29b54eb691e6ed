"""The catalogue of public operations on one set of small inputs.

Every operation is a function of (I, N): I is a dictionary of inputs, N the names in use.
With default names no naming argument is passed at all.
"""

import contextlib
import io

import numpy as np
import pandas as pd
import xarray as xr

import momlevel
from momlevel import derived, dynamic, eos, reference, test_data, tidegauge, trend, util
from mc.ocean import OCEAN_AREA, ocean, pattern
from mc.props.common import handmade_reference, reference_dataset
from mc.props.timeaxis import axis, days, months, stamp
from mc.props.c22 import frame, locations

DIMS = ["time", "z_l", "z_i", "yh", "xh", "yq", "xq"]


class Names:
    """old name -> new name of dimensions and variables."""

    def __init__(self, mapping=None):
        self.map = dict(mapping or {})

    def __getitem__(self, k):
        return self.map.get(k, k)

    def arg(self, **kw):
        """tcoord='time' -> {} under the default name, {'tcoord': new} otherwise."""
        return {a: self[k] for a, k in kw.items() if self[k] != k}

    def coords(self):
        m = {"t": "time", "z": "z_l", "zbounds": "z_i"}
        m = {a: self[k] for a, k in m.items() if self[k] != k}
        return {"coord_names": m} if m else {}

    def variables(self, names):
        m = {self[k]: k for k in names if self[k] != k}
        return {"varname_map": m} if m else {}

    def grid(self):
        m = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}
        m = {a: self[k] for a, k in m.items()}
        return {"coord_dict": m} if any(self[k] != k for k in ("xh", "yh", "xq", "yq")) else {}


# inputs A, unrelated inputs B, and inputs that equal A in all but one respect
WHICH = {
    "A": {},
    "B": dict(s=50, g=50, cal="julian", year=2003, daycal="360_day", grid="even", bottom="nan", lat="down"),
    "calendar": dict(cal="360_day", daycal="360_day"),
    "year": dict(year=2000),
    "values": dict(s=50),
    "vertical": dict(grid="even", bottom="nan"),
    "place": dict(g=50, lat="down"),
    "missing": dict(land="column", holes=True),
    "length": dict(more=12),
    "attributes": dict(units="kg"),
    "short": dict(more=-12),
    "wet": dict(land="none"),
    "size": dict(part=True),
}
NEIGHBOURS = [w for w in WHICH if w not in ("A", "B", "short", "wet")]


def inputs(which="A"):
    P = dict(s=0, g=0, cal="noleap", year=1999, daycal="standard", grid="uneven", bottom="partial", lat="up", land="bottom", holes=False, more=0, units="m")
    P.update(WHICH[which])
    s, g, cal, year, grid, bottom, more = (P[k] for k in ("s", "g", "cal", "year", "grid", "bottom", "more"))
    I = {}
    ds, arr = ocean(
        nt=24 + more, nz=4, ny=2, nx=3, depth=bottom, zgrid=grid, land=P["land"], time=(cal, year), coords2d=True, salt=s
    )
    ds["geolon"].attrs["units"] = "degrees_east"
    ds["thetao"].encoding = {"dtype": "float32", "chunks": (1, 4, 2, 3)}
    I["ds"] = ds
    ref, A = handmade_reference(arr, "wright", 101325.0, salt=40 + s)
    m = np.isnan(arr["V"][0])
    for k in ("T", "S", "vol", "rho"):
        ref[k] = np.where(m, np.nan, ref[k])
    I["ref"] = reference_dataset(ref, A, ds)
    I["patm"] = xr.DataArray(
        pattern((2, 3), 98000.0, 103000.0, s + 7), dims=("yh", "xh"), coords={"yh": ds.yh, "xh": ds.xh}
    )
    zyx = {"z_l": ds.z_l, "yh": ds.yh, "xh": ds.xh}
    n2 = pattern((4, 2, 3), -1e-5, 3e-5, s + 8)
    n2[2:, 0, 0] = np.nan
    n2[:, 1, 1] = np.nan
    I["n2"] = xr.DataArray(n2, dims=("z_l", "yh", "xh"), coords=zyx, attrs={"units": "s-2", "long_name": "N2"}, name="n2")
    I["dz"] = xr.DataArray(pattern((4, 2, 3), 1.0, 90.0, s + 9), dims=("z_l", "yh", "xh"), coords=zyx, name="dz")
    cu = {
        "xh": ("xh", np.arange(3) * 1.0, {"axis": "X"}),
        "yh": ("yh", np.arange(2) * 1.0, {"axis": "Y"}),
        "xq": ("xq", np.arange(3) + 0.5, {"axis": "X"}),
        "yq": ("yq", np.arange(2) + 0.5, {"axis": "Y"}),
        "time": ("time", [0.0, 1.0]),
    }
    uv = xr.Dataset(coords=cu)
    uv["uo"] = (("time", "yh", "xq"), pattern((2, 2, 3), -1, 1, s + 10), {"units": "m s-1"})
    uv["vo"] = (("time", "yq", "xh"), pattern((2, 2, 3), -1, 1, s + 11), {"units": "m s-1"})
    uv["dxCu"] = (("yh", "xq"), pattern((2, 3), 1e3, 2e3, s + 12))
    uv["dyCv"] = (("yq", "xh"), pattern((2, 3), 1e3, 2e3, s + 13))
    uv["areacello_bu"] = (("yq", "xq"), pattern((2, 3), 1e6, 2e6, s + 14))
    uv["Coriolis"] = (("yq", "xq"), pattern((2, 3), -1e-4, 1e-4, s + 15), {"units": "s-1"})
    uv["zeta"] = (("time", "yq", "xq"), pattern((2, 2, 3), -1e-5, 1e-5, s + 16))
    uv["n2"] = (("time", "yh", "xh"), pattern((2, 2, 3), 1e-6, 1e-4, s + 17))
    I["uv"] = uv
    t = np.array([stamp(y, mth, 15, cal) for y, mth in months(year, 1, 24 + more)], dtype=object)
    mon = xr.Dataset(coords={"time": ("time", t, {"axis": "T"}), "yh": [1.0, 2.0], "xh": ("xh", [5.0, 6.0, 7.0], {"units": "deg"})})
    mon["a"] = (("time", "yh", "xh"), pattern((24 + more, 2, 3), 0, 9, s + 18), {"units": P["units"], "long_name": "A"})
    mon["b"] = (("time", "xh"), pattern((24 + more, 3), 0, 9, s + 19), {"units": "kg m-2 s-1"})
    mon["a"].values[3, 0, 1] = np.nan
    mon["bounds"] = (("time",), t.copy())
    mon.attrs = {"title": "monthly"}
    mon["a"].encoding = {"dtype": "float32", "chunks": (1, 2, 3), "preferred_chunks": {"time": 1}}
    I["mon"] = mon
    lab, _ = axis(cal, max(5, 9 + more), "uneven", year)
    I["ser"] = xr.DataArray(
        pattern((max(5, 9 + more), 2, 3), 0, 5, s + 20),
        dims=("time", "yh", "xh"),
        coords={"time": ("time", lab, {"axis": "T"}), "xh": [5.0, 6.0, 7.0]},
        name="zos",
        attrs={"units": f"{P['units']} s-1", "long_name": "sea level"},
    )
    I["ser"].values[4, 1, 1] = np.nan
    I["serds"] = xr.Dataset({"zos": I["ser"], "static": ("xh", [1.0, 2.0, 3.0], {"units": "m"})})
    I["slope"] = xr.DataArray(pattern((2, 3), -1, 1, s + 21), dims=("yh", "xh"), attrs={"units": "m yr-1" if P["units"] == "m" else "kg day-1"}, name="s")
    q = days((year, 6, 1), 400 + more, P["daycal"])
    I["day"] = xr.DataArray(
        pattern((400 + more, 2, 2), 0, 5, s + 22),
        dims=("time", "yh", "xh"),
        coords={"time": ("time", np.array([stamp(*d, P["daycal"], 12) for d in q], dtype=object), {"axis": "T"}), "xh": [3.0, 4.0]},
        name="zos",
        attrs={"units": P["units"], "long_name": "sea level", "standard_name": "ssh"},
    )
    I["dfm"] = frame([-10.0, 10.0], [170.0, 179.0, -179.0], 61, skew=0.1 * (1 + g))
    I["dfl"] = locations([(0.0, 180.0), (9.0, 171.0 + g / 10), (-80.0, 0.0)])
    la, lo = np.arange(-60.0, 61.0, 40.0), np.arange(-180.0, 180.0, 60.0)
    gx, gy = np.meshgrid(lo, la)
    tc = {"yh": np.arange(4) * 1.0, "xh": np.arange(6) * 1.0, "time": [0.0, 1.0]}
    td = xr.DataArray(pattern((2, 4, 6), 0, 1, s + 23), dims=("time", "yh", "xh"), coords=tc, name="zos", attrs={"units": "m"})
    I["tide"] = td.assign_coords(
        geolon=(("yh", "xh"), gx + g / 50.0), geolat=(("yh", "xh"), gy + 0.3 * np.arange(6)[None, :])
    )
    I["wet"] = xr.DataArray((np.arange(24).reshape(4, 6) % 5 > 0) * 1.0, dims=("yh", "xh"), coords={k: tc[k] for k in ("yh", "xh")}, name="wet")
    I["wet"].values[0, 1] = np.nan
    la1 = {"up": np.arange(-75.0, 90.0, 30.0), "down": np.arange(70.0, -80.0, -20.0)}[P["lat"]]
    I["lat"] = xr.DataArray(la1, dims="yh", coords={"yh": la1}, name="yh", attrs={"units": "degrees"})
    lo1 = np.arange(0.0, 360.0, 60.0) + g
    I["lon"] = xr.DataArray(lo1, dims="xh", coords={"xh": lo1}, name="xh", attrs={"units": "degrees"})
    c2 = {"yh": ds.yh, "xh": ds.xh}
    I["tos"] = xr.DataArray(pattern((2, 3), 1, 25, s + 24), dims=("yh", "xh"), coords=c2, name="tos", attrs={"units": "degC"})
    I["sos"] = xr.DataArray(pattern((2, 3), 30, 36, s + 25), dims=("yh", "xh"), coords=c2, name="sos")
    I["pso"] = xr.DataArray(pattern((2, 3), 9.7e4, 1.04e5, s + 26), dims=("yh", "xh"), coords=c2, name="pso", attrs={"units": "Pa"})
    if P["holes"]:
        I["mon"]["a"].values[5:8, 1, 2] = np.nan
        I["ser"].values[2, 0, 0] = I["ser"].values[3, 0, 0] = np.nan
        I["n2"].values[3, 0, 2] = np.nan
        I["tos"].values[0, 1] = np.nan
        I["uv"]["uo"].values[1, 0, 1] = np.nan
        I["wet"].values[1, 3] = 0.0
    # things a caller may pass and keep: they are the caller's
    new = {"time": "t", "z_l": "lev", "z_i": "ilev", "thetao": "temp", "so": "salt", "deptho": "depth"}
    I["nds"] = ds.isel(time=slice(0, 3)).rename(new)
    flow = {"uo": "U", "vo": "V", "dxCu": "dx", "dyCv": "dy", "areacello_bu": "cell"}
    q = {"xh": "x", "yh": "y", "xq": "X", "yq": "Y"}
    I["nuv"] = uv.rename({**flow, **q})
    I["args"] = {
        "coord_names": {"t": "t", "z": "lev", "zbounds": "ilev"},
        "varname_map": {new[k]: k for k in ("thetao", "so", "deptho")},
        "flow": dict(u="U", v="V", dx="dx", dy="dy", area="cell"),
        "grid": dict(xcenter="x", ycenter="y", xcorner="X", ycorner="Y"),
        "encoding": ["dtype"],
        "nothing": [],
        "extra": ["deptho"],
        "some": {"z": "z_l"},
        "model_coords": ["geolat", "geolon"],
        "loc_coords": ["lat", "lon"],
    }
    if P.get("part"):
        for k, v in I.items():
            if isinstance(v, (xr.DataArray, xr.Dataset)):
                I[k] = v.isel({d: slice(None, None, 2) for d in ("xh", "xq", "x", "X") if d in v.dims})
                if isinstance(v, xr.Dataset) and "areacello" in v:
                    I[k]["areacello"] = I[k]["areacello"] * (OCEAN_AREA / I[k]["areacello"].sum())
        I["dfm"], I["dfl"] = I["dfm"].iloc[1:], I["dfl"].iloc[:2]
    return I


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


VARS = ("thetao", "so", "volcello", "areacello", "deptho")


def _st(I, N, fn=None, **kw):
    return (fn or momlevel.steric)(I["ds"], **N.coords(), **N.variables(VARS), **kw)


@op
def steric_local(I, N):
    return _st(I, N)


@op
def thermosteric_local(I, N):
    return _st(I, N, momlevel.thermosteric, dtype="float64")


@op
def halosteric_local(I, N):
    return _st(I, N, momlevel.halosteric, rhozero=1025.0)


@op
def steric_global(I, N):
    return _st(I, N, domain="global")


@op
def halosteric_global(I, N):
    return _st(I, N, variant="halosteric", domain="global")


@op
def thermosteric_global(I, N):
    return _st(I, N, momlevel.thermosteric, domain="global", reference=I["ref"])


@op
def steric_annual(I, N):
    return _st(I, N, annual=True)


@op
def steric_global_annual(I, N):
    return _st(I, N, annual=True, domain="global", equation_of_state="linear")


@op
def steric_referenced(I, N):
    return _st(I, N, reference=I["ref"])


@op
def steric_linear(I, N):
    return _st(I, N, equation_of_state="linear", patm=I["patm"])


@op
def steric_verbose(I, N):
    return _st(I, N, verbose=True, strict=False)


@op
def reference_first(I, N):
    return reference.setup_reference_state(I["ds"].rename({v: k for k, v in N.map.items() if k in VARS}), **N.coords())


@op
def reference_last(I, N):
    return reference.setup_reference_state(
        I["ds"].rename({v: k for k, v in N.map.items() if k in VARS}), eos="linear", time_index=-1, patm=I["patm"], **N.coords()
    )


def _tsp(I, N):
    d = I["ds"]
    return d[N["thetao"]], d[N["so"]], d[N["z_l"]] * 1.0e4


@op
def rho_wright(I, N):
    return derived.calc_rho(*_tsp(I, N))


@op
def rho_linear(I, N):
    return derived.calc_rho(*_tsp(I, N), eos="linear")


@op
def alpha_wright(I, N):
    return derived.calc_alpha(*_tsp(I, N))


@op
def beta_wright(I, N):
    return derived.calc_beta(*_tsp(I, N))


@op
def alpha_linear(I, N):
    return derived.calc_alpha(*_tsp(I, N), eos="LINEAR")


@op
def beta_linear(I, N):
    return derived.calc_beta(*_tsp(I, N), eos="linear")


@op
def pdens(I, N):
    return derived.calc_pdens(*_tsp(I, N)[:2], level=2000.0)


@op
def masso(I, N):
    return derived.calc_masso(I["ds"][N["so"]], I["ds"][N["volcello"]], **N.arg(tcoord="time"))


@op
def volo(I, N):
    return derived.calc_volo(I["ref"]["volcello"])


@op
def rhoga(I, N):
    return derived.calc_rhoga(I["ref"]["masso"], I["ref"]["volo"])


@op
def dz(I, N):
    d = I["ds"]
    return derived.calc_dz(d[N["z_l"]], d[N["z_i"]], d[N["deptho"]])


@op
def dz_fraction(I, N):
    d = I["ds"]
    return derived.calc_dz(d[N["z_l"]], d[N["z_i"]], d[N["deptho"]], top=5.0, bottom=150.0, fraction=True)


@op
def n2(I, N):
    return derived.calc_n2(*_tsp(I, N)[:2], **N.arg(zcoord="z_l"))


@op
def n2_linear(I, N):
    return derived.calc_n2(*_tsp(I, N)[:2], eos="linear", patm=I["patm"], gravity=-9.81, **N.arg(zcoord="z_l"))


@op
def n2_patm(I, N):
    return derived.calc_n2(*_tsp(I, N)[:2], patm=101325.0 + 0.04 * (I["patm"] - 1.0e5), **N.arg(zcoord="z_l"))


@op
def n2_adjusted(I, N):
    return derived.adjust_negative_n2(I["n2"], **N.arg(zcoord="z_l"))


@op
def wave_speed(I, N):
    return derived.calc_wave_speed(I["n2"], I["dz"], **N.arg(zcoord="z_l"))


@op
def rossby(I, N):
    return derived.calc_rossby_rd(I["tos"], I["sos"] - 33.0)


@op
def stability(I, N):
    return derived.calc_stability_angle(*_tsp(I, N), **N.arg(zcoord="z_l"))


@op
def spice_(I, N):
    return derived.calc_spice(*_tsp(I, N)[:2])


@op
def coriolis(I, N):
    return derived.calc_coriolis(I["lat"])


@op
def vorticity(I, N):
    vm = {"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
    vm = {k: N[v] for k, v in vm.items()}
    kw = {"varname_map": vm} if any(N[v] != v for v in ("uo", "vo", "dxCu", "dyCv", "areacello_bu")) else {}
    return derived.calc_rel_vort(I["uv"], **kw, **N.grid())


@op
def potential_vorticity(I, N):
    u = I["uv"]
    return derived.calc_pv(u["zeta"], u[N["Coriolis"]], u["n2"], **N.grid())


@op
def potential_vorticity_cm(I, N):
    u = I["uv"]
    return derived.calc_pv(u["zeta"], u[N["Coriolis"]], u["zeta"] * 2.0, units="cm", interp_n2=False, gravity=9.81)


@op
def barometer(I, N):
    return dynamic.inverse_barometer(I["tos"], I["sos"], I["pso"])


@op
def annual_ds(I, N):
    return util.annual_average(I["mon"], **N.arg(tcoord="time"))


@op
def annual_da(I, N):
    return util.annual_average(I["mon"]["a"], **N.arg(tcoord="time"))


@op
def cycle_mean(I, N):
    return util.annual_cycle(I["mon"], **N.arg(tcoord="time"))


@op
def cycle_std(I, N):
    return util.annual_cycle(I["mon"]["a"], func="std", time_axis_year=1950, **N.arg(tcoord="time"))


@op
def cycle_max(I, N):
    return util.annual_cycle(I["mon"]["b"], func="max", **N.arg(tcoord="time"))


@op
def monthly(I, N):
    return util.monthly_average(I["day"], **N.arg(tcoord="time"))


@op
def monthly_ds(I, N):
    return util.monthly_average(I["day"].to_dataset(), **N.arg(tcoord="time"))


@op
def trend_yr(I, N):
    return trend.calc_linear_trend(I["ser"], time_units="yr", **N.arg(dim="time"))


@op
def trend_ns(I, N):
    return trend.calc_linear_trend(I["ser"], **N.arg(dim="time"))


@op
def broadcast(I, N):
    return trend.broadcast_trend(I["slope"], I["ser"][N["time"]])


@op
def broadcast_zero(I, N):
    return trend.broadcast_trend(I["slope"], I["ser"][N["time"]], subtract_time_zero=True)


@op
def detrend_remove(I, N):
    return trend.linear_detrend(I["serds"], **N.arg(dim="time"))


@op
def detrend_correct(I, N):
    return trend.linear_detrend(I["ser"], mode="correct", **N.arg(dim="time"))


@op
def seasonal(I, N):
    return trend.seasonal_model(I["mon"]["b"], return_model=True, **N.arg(tcoord="time"))


@op
def deseason_residuals(I, N):
    return trend.deseason(I["day"], **N.arg(tdim="time"))


@op
def deseason_model(I, N):
    return trend.deseason(I["day"], output_format="model", **N.arg(tdim="time"))


@op
def deseason_coeff(I, N):
    return trend.deseason(I["day"], output_format="coeff", **N.arg(tdim="time"))


@op
def gauges(I, N):
    kw = {"xcoord": N["geolon"], "ycoord": N["geolat"]} if N["geolon"] != "geolon" or N["geolat"] != "geolat" else {}
    return tidegauge.extract_tidegauge(I["tide"], mask=I["wet"], threshold=3000.0, **kw)


# -- operations without dimension names, or that are not about arrays
PLAIN = {}


def plain(fn):
    PLAIN[fn.__name__] = fn
    return fn


def _numbers(I):
    d = I["ds"]
    return d["thetao"].values, d["so"].values, d["z_l"].values[:, None, None] * 1.0e4


@plain
def eos_wright(I, N):
    w = eos.wright
    return [f(*_numbers(I)) for f in (w.density, w.drho_dtemp, w.drho_dsal, w.alpha, w.beta)]


@plain
def eos_linear(I, N):
    w = eos.linear
    return [f(*_numbers(I)) for f in (w.density, w.drho_dtemp, w.drho_dsal, w.alpha, w.beta)]


@plain
def eos_relative(I, N):
    return eos.linear.density(*_numbers(I), rho_ref=1000.0)


@plain
def geolocate(I, N):
    return util.geolocate_points(I["dfm"], I["dfl"])


@plain
def geolocate_near(I, N):
    return util.geolocate_points(I["dfm"], I["dfl"], threshold=1500.0, apply_mask=False)


@plain
def tiled(I, N):
    return util.tile_nominal_coords(I["lon"], I["lat"], warn=False)


@plain
def cell_area(I, N):
    return util.standard_grid_cell_area(I["lat"], I["lon"])


@plain
def colormap(I, N):
    return util.get_pv_colormap()


@plain
def factors(I, N):
    f = trend.time_conversion_factor
    return [f("yr", "s"), f("mon", "day", days_per_month=30.0), f("ns", "yr", days_per_year=360.0), f("mon", "day")]


@plain
def coords(I, N):
    return [util.default_coords(), util.default_coords({"z": "lev"}), util.default_coords({"t": "T", "zbounds": "zi"})]


@plain
def alphabetized(I, N):
    return util.alphabetize_dataset(I["mon"])


@plain
def validated(I, N):
    return [util.validate_dataset(I["ds"]), util.validate_dataset(I["ref"], reference=True)]


@plain
def encoding_reset(I, N):
    c = I["mon"].copy(deep=True)  # documented to work in place: on a private copy
    for v in c.variables:
        c[v].encoding = dict(I["mon"][v].encoding)
    return util.reset_encoding(c)


@plain
def eos_numbers(I, N):
    return [
        float(eos.wright.density(18.0, 35.0, 2.0e7)),
        float(eos.wright.alpha(18.0, 35.0, 2.0e7)),
        float(eos.linear.density(18.0, 35.0, 2.0e7)),
        float(eos.linear.beta(18.0, 35.0, 2.0e7)),
    ]


@plain
def generated(I, N):
    return [test_data.generate_test_data(), test_data.generate_test_data_dz(seed=5)]


@plain
def generated_time(I, N):
    return test_data.generate_test_data_time(start_year=1999, nyears=1, calendar="julian")


# -- the same with other names: the arguments belong to the caller
def _other(I, N=None, **kw):
    a = I["args"]
    return dict(coord_names=a["coord_names"], varname_map=a["varname_map"], **kw)


@plain
def steric_named(I, N):
    return momlevel.steric(I["nds"], **_other(I))


@plain
def halosteric_global_named(I, N):
    return momlevel.halosteric(I["nds"], domain="global", **_other(I))


@plain
def thermosteric_named(I, N):
    return momlevel.thermosteric(I["nds"], reference=I["ref"].rename(z_l="lev"), **_other(I))


@plain
def steric_partly_named(I, N):
    return momlevel.steric(I["ds"].isel(time=slice(0, 2)), coord_names=I["args"]["some"])


@plain
def reference_named(I, N):
    return reference.setup_reference_state(
        I["nds"].rename(I["args"]["varname_map"]), coord_names=I["args"]["coord_names"], time_index=1
    )


@plain
def dz_missing(I, N):
    d = I["ds"]
    holes = d.deptho.where(d.deptho > float(d.deptho.median()))
    before = holes.copy(deep=True)
    z = (d.z_l.copy(deep=True), d.z_i.copy(deep=True), holes)
    out = [derived.calc_dz(*z), derived.calc_dz(*z, top=3.0, bottom=33.0, fraction=True)]
    if not (holes.identical(before) and z[0].identical(d.z_l) and z[1].identical(d.z_i)):
        raise RuntimeError("calc_dz changed its arguments")
    return out


@plain
def annual_named(I, N):
    return util.annual_average(I["mon"].rename(time="t"), tcoord="t")


@plain
def cycle_named(I, N):
    return util.annual_cycle(I["mon"].rename(time="t"), tcoord="t")


@plain
def monthly_named(I, N):
    return util.monthly_average(I["day"].rename(time="t"), tcoord="t")


@plain
def trend_named(I, N):
    return trend.calc_linear_trend(I["ser"].rename(time="t"), dim="t", time_units="mon")


@plain
def detrend_named(I, N):
    return trend.linear_detrend(I["serds"].rename(time="t"), dim="t")


@plain
def detrend_moved(I, N):
    return util.linear_detrend(I["ser"])


@plain
def seasonal_named(I, N):
    return trend.seasonal_model(I["mon"]["b"].rename(time="t"), tcoord="t")


@plain
def deseason_named(I, N):
    return trend.deseason(I["day"].rename(time="t"), tdim="t", output_format="model")


@plain
def vorticity_named(I, N):
    return derived.calc_rel_vort(I["nuv"], varname_map=I["args"]["flow"], coord_dict=I["args"]["grid"])


@plain
def vorticity_symmetric_names(I, N):
    u = I["nuv"]
    return derived.calc_pv(u["zeta"], u["Coriolis"], u["n2"], coord_dict=I["args"]["grid"])


@plain
def encoding_some(I, N):
    c = I["mon"].copy(deep=True)
    for v in c.variables:
        c[v].encoding = dict(I["mon"][v].encoding)
    a = util.reset_encoding(c["a"].copy(), attrs=I["args"]["nothing"])
    return [a, util.reset_encoding(c, attrs=I["args"]["encoding"])]


@plain
def validated_more(I, N):
    return [
        util.validate_dataset(I["ds"], additional_vars=I["args"]["extra"]),
        util.validate_dataset(I["ds"], additional_vars=I["args"]["nothing"]),
        util.validate_areacello(I["ds"].areacello),
    ]


@plain
def coords_some(I, N):
    return [util.default_coords(I["args"]["some"]), util.default_coords(I["args"]["coord_names"])]


@plain
def geolocate_listed(I, N):
    a = I["args"]
    return util.geolocate_points(I["dfm"], I["dfl"], model_coords=a["model_coords"], loc_coords=a["loc_coords"])


@plain
def gauges_listed(I, N):
    return tidegauge.extract_tidegauge(I["tide"], xcoord=I["tide"].geolon, ycoord=I["tide"].geolat)


# -- calls that fail
FAILING = {}


def failing(fn):
    FAILING[fn.__name__] = fn
    return fn


@failing
def bad_variant(I, N):
    return momlevel.steric(I["ds"], variant="nope")


@failing
def bad_eos(I, N):
    return momlevel.steric(I["ds"], equation_of_state="nope")


@failing
def bad_dataset(I, N):
    return momlevel.steric(I["ds"].drop_vars("so"))


@failing
def bad_reference(I, N):
    return momlevel.thermosteric(I["ds"], reference=I["ref"].drop_vars("rhoga"))


@failing
def bad_calendar(I, N):
    return momlevel.steric(I["ds"].isel(time=slice(0, 7)), annual=True)


@failing
def bad_year(I, N):
    return util.annual_average(I["mon"].isel(time=slice(1, None)))


@failing
def bad_cycle(I, N):
    return util.annual_cycle(I["mon"], func="nope")


@failing
def bad_detrend(I, N):
    return trend.linear_detrend(I["serds"], mode="nope")


@failing
def bad_unit(I, N):
    return trend.calc_linear_trend(I["ser"], time_units="nope")


@failing
def bad_deseason(I, N):
    return trend.deseason(I["day"], output_format="nope")


@failing
def bad_tdim(I, N):
    return trend.deseason(I["day"], tdim="nope")


@failing
def bad_depth(I, N):
    return derived.calc_dz(I["ds"].z_l, I["ds"].z_i, -I["ds"].deptho)


@failing
def bad_level(I, N):
    return derived.calc_pdens(I["ds"].thetao, I["ds"].so, level=9000.0)


@failing
def bad_pv(I, N):
    return derived.calc_pv(I["uv"].zeta, I["uv"].Coriolis, I["uv"].n2, units="nope")


@failing
def bad_flow(I, N):
    return derived.calc_rel_vort(I["uv"].drop_vars("uo"))


@failing
def bad_columns(I, N):
    return util.geolocate_points(I["dfm"].drop(columns="geolat"), I["dfl"])


@failing
def bad_gauge(I, N):
    return tidegauge.extract_tidegauge(I["tide"], xcoord="nope")


@failing
def bad_slope(I, N):
    return trend.broadcast_trend(I["slope"].assign_attrs(units="m s-1 yr-1"), I["ser"].time)


@failing
def bad_shapes(I, N):
    return derived.calc_spice(I["ds"].thetao, I["ds"].so.isel(z_l=slice(1, None)).values)


@failing
def bad_order(I, N):
    return trend.linear_detrend(I["ser"], order=2)


@failing
def bad_kind(I, N):
    return trend.linear_detrend(I["ser"].values)


@failing
def bad_names(I, N):
    return momlevel.steric(I["ds"], coord_names=["time"])


@failing
def bad_tiles(I, N):
    return util.tile_nominal_coords(I["lon"].values, I["lat"])


@failing
def bad_encoding(I, N):
    return util.reset_encoding(3)


@failing
def bad_file(I, N):
    return tidegauge.extract_tidegauge(I["tide"], csv="/nonexistent/sites.csv")


@failing
def bad_area(I, N):
    return util.validate_dataset(I["ds"].assign(areacello=I["ds"].areacello * 2))


@failing
def bad_source(I, N):
    return trend.time_conversion_factor("nope", "yr")


@failing
def bad_labels(I, N):
    return derived.calc_rho(I["ds"].thetao, I["ds"].so.assign_coords(xh=I["ds"].xh + 1000.0), 1e5)


EVERY = {**OPS, **PLAIN, **FAILING}
IDENTITY = Names()


def run(name, I, N=IDENTITY):
    """('ok', value) or ('raised', type name)."""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return ("ok", load(EVERY[name](I, N)))
        except Exception as e:  # noqa: BLE001
            return ("raised", type(e).__name__ + ": " + str(e)[:200])


def load(r):
    if isinstance(r, (tuple, list)):
        return type(r)(load(x) for x in r)
    if isinstance(r, (xr.DataArray, xr.Dataset)):
        return r.compute()
    return r


# ------------------------------------------------------------------- comparison
def differ(a, b, rtol=1e-9, atol=1e-12, attrs=True, order=True, coords=True, path="result"):
    """None, or what is different."""
    kw = dict(rtol=rtol, atol=atol, attrs=attrs, order=order, coords=coords)
    if type(a) is not type(b):
        if not (np.isscalar(a) and np.isscalar(b)):
            return f"{path}: {type(a).__name__} instead of {type(b).__name__}"
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items instead of {len(b)}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, path=f"{path}[{k}]", **kw)
            if d:
                return d
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(map(str, a))} instead of {sorted(map(str, b))}"
        for k in a:
            d = differ(a[k], b[k], path=f"{path}[{k!r}]", **kw)
            if d:
                return d
        return None
    if isinstance(a, xr.Dataset):
        if set(a.data_vars) != set(b.data_vars):
            return f"{path}: variables {sorted(a.data_vars)} instead of {sorted(b.data_vars)}"
        if coords and set(a.coords) != set(b.coords):
            return f"{path}: coordinates {sorted(a.coords)} instead of {sorted(b.coords)}"
        if attrs and differ(a.attrs, b.attrs, path=path + ".attrs", **kw):
            return differ(a.attrs, b.attrs, path=path + ".attrs", **kw)
        for k in list(a.data_vars) + (list(a.coords) if coords else []):
            d = differ(a[k].variable, b[k].variable, path=f"{path}.{k}", **kw)
            if d:
                return d
        return None
    if isinstance(a, xr.DataArray):
        if attrs and a.name != b.name:
            return f"{path}: called {a.name!r} instead of {b.name!r}"
        d = differ(a.variable, b.variable, path=path, **kw)
        if d:
            return d
        if coords:
            if set(a.coords) != set(b.coords):
                return f"{path}: coordinates {sorted(map(str, a.coords))} instead of {sorted(map(str, b.coords))}"
            for k in a.coords:
                d = differ(a.coords[k].variable, b.coords[k].variable, path=f"{path}.{k}", **kw)
                if d:
                    return d
        return None
    if isinstance(a, xr.Variable):
        if set(a.dims) != set(b.dims) or (order and a.dims != b.dims):
            return f"{path}: dims {a.dims} instead of {b.dims}"
        if a.dims != b.dims:
            a = a.transpose(*b.dims)
        d = differ(np.asarray(a.values), np.asarray(b.values), path=path, **kw)
        if d:
            return d
        if attrs:
            d = differ(dict(a.attrs), dict(b.attrs), path=path + ".attrs", **kw)
            return d or differ(dict(a.encoding), dict(b.encoding), path=path + ".encoding", **kw)
        return None
    if isinstance(a, pd.DataFrame):
        if list(a.columns) != list(b.columns) or list(a.index) != list(b.index):
            return f"{path}: table layout differs"
        for c in a.columns:
            d = differ(a[c].tolist(), b[c].tolist(), path=f"{path}.{c}", **kw)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} instead of {b.shape}"
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            x, y = a.astype(float), b.astype(float)
            with np.errstate(all="ignore"):
                ok = (np.abs(x - y) <= rtol * np.abs(y) + atol * scale(y)) | (np.isnan(x) & np.isnan(y)) | (x == y)
            if not ok.all():
                i = tuple(int(q) for q in np.argwhere(~ok)[0])
                return f"{path}: {x[i]!r} instead of {y[i]!r} at {i} ({int((~ok).sum())} values differ)"
            return None
        if a.tolist() != b.tolist():
            return f"{path}: {a.tolist()!r:.200} instead of {b.tolist()!r:.200}"
        return None
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, int, np.floating, np.integer)):
        return differ(np.array(float(a)), np.array(float(b)), path=path, **kw)
    if isinstance(a, str) and isinstance(b, str):
        if a == b or "detrend" in path:  # the comment prints whole arrays
            return None
    if a == b or (a != a and b != b):
        return None
    return f"{path}: {a!r:.200} instead of {b!r:.200}"


def scale(y):
    f = np.abs(y[np.isfinite(y)])
    return float(f.max()) if f.size else 0.0
