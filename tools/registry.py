"""The one place where the properties are written down.  `python3 tools/registry.py` writes
properties.jsonl and MANIFEST.json (a property is claimed when mc/props/<id>.py exists)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), note="", tech=""):
    assert len(title) <= 80, (pid, len(title))
    P.append(
        dict(
            id=pid,
            title=title,
            statement=" ".join(statement.split()),
            quantifier={"over": over, "text": " ".join(text.split())},
            why_tests_cant=" ".join(why.split()),
            anchors={
                "files": files,
                "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                "mechanism": [dict(name=a, where=b) for a, b in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
            note=" ".join(note.split()),
            tech=tech,
        )
    )


SRC = "src/momlevel/"

prop(
    "C01",
    "Local steric height is the depth integral of the density change",
    """For every valid dataset, steric, thermosteric and halosteric in the local domain return at
    every time and wet column -1/rhozero times the sum over levels of in-situ density change times
    the thickness of the water actually in that level (cells cut by the sea floor count partially),
    where density is evaluated at pressure 1e4 Pa per metre of depth plus the atmospheric pressure,
    and the thermosteric (halosteric) variant holds salinity (temperature) at the reference.
    The density change itself is returned too, for every cell with volume in the reference.
    With the linear equation of state the two components add up to the total.""",
    ["inputs", "configurations"],
    """every dataset shape, bathymetry, vertical grid, land mask, dtype, atmospheric pressure,
    reference density, equation of state, variant, annual flag and supplied or default reference
    within the bounds of the check""",
    """the tests compare six sums over one 5x5x5x5 random dataset with stored numbers; no partial
    cells, no land, no other pressure or reference is reached""",
    [SRC + "steric.py", SRC + "derived.py", SRC + "eos/wright.py"],
    [("density anomaly times layer thickness", "steric.steric"), ("layer thickness", "derived.calc_dz")],
    observe=["result of momlevel.steric / thermosteric / halosteric"],
)
prop(
    "C02",
    "Global steric height follows the Boussinesq expansion formula",
    """For every valid dataset, the global domain returns at every time the reference column height
    (total reference volume over total reference area) times the natural log of the reference mean
    density over the current volume-weighted mean density, using the reference cell volumes at all
    times and holding the same field fixed as the local variants do.  Bathymetry and interface depths are
    not needed and play no part, nor does the Boussinesq reference density.""",
    ["inputs", "configurations"],
    "every dataset shape, mask, cell area, dtype, pressure, equation of state, variant, annual flag and reference within the bounds",
    "one stored number per variant for one random dataset with constant layout",
    [SRC + "steric.py", SRC + "reference.py", SRC + "derived.py"],
    [("expansion coefficient", "steric.steric (domain='global')"), ("mass and volume totals", "derived.calc_masso / calc_volo")],
)
prop(
    "C03",
    "The reference state is the chosen time level, consistent and reusable",
    """The reference dataset contains temperature, salinity and volume of exactly the requested time
    level (the first by default), the density computed from them, their total volume, mass and mean
    density, and the cell area, without any time dimension or coordinate and with every spatial
    dimension kept.  Heights at the reference time are zero, and passing a returned reference back in
    (also after a round trip through a file) gives identical results.""",
    ["inputs", "histories", "configurations"],
    "every dataset shape incl. length-one dimensions, every time index incl. negative ones, mask, pressure and equation of state; every variant and domain for the reuse sequence",
    "tests check stored sums for time index 0 of one dataset, and never reuse a reference through a file or with another time index",
    [SRC + "reference.py", SRC + "steric.py", SRC + "derived.py"],
    [("time level selection", "reference.setup_reference_state"), ("totals", "derived.calc_volo / calc_masso / calc_rhoga")],
)
prop(
    "C04",
    "Land and missing cells never contribute and never contaminate",
    """A cell missing in the reference volume contributes to no height, volume, mass or mean density; a
    column that is land at the surface has missing height and every other column a finite one.  A value
    missing at one time removes just that cell at that time: no other column, time or total changes.""",
    ["inputs"],
    "every one of the land masks of a 2x2x2 grid, every subset of missing temperature and salinity cells at a later time, every subset of missing density/volume cells in the totals",
    "the test data contains no missing ocean cells at all, so no mask is exercised",
    [SRC + "steric.py", SRC + "derived.py", SRC + "reference.py"],
    [("masking by reference volume", "steric.steric"), ("sums that skip missing values", "derived.calc_masso / calc_volo")],
)
prop(
    "C05",
    "Names and order of dimensions and variables do not change any value",
    """Renaming the time, vertical, interface or horizontal coordinates or the variables, and passing the new
    names through the documented arguments, or reordering the dimensions of the input, changes no
    value of any result; the results carry the names that were given. That holds even where a default
    name is still in use for something else (another dimension, an unrelated scalar coordinate).""",
    ["inputs", "configurations"],
    "every subset of renamed coordinates and variables and every permutation of dimensions, for every public function that takes such arguments",
    "tests call nearly every function with default names and the default (time, z, y, x) order only",
    [SRC + "steric.py", SRC + "reference.py", SRC + "derived.py", SRC + "util.py", SRC + "trend.py"],
    [("coordinate name resolution", "util.default_coords"), ("named dimensions everywhere", "tcoord / zcoord / tdim arguments")],
)
prop(
    "C06",
    "Chunking (dask) never changes a result and does not force computation",
    """For every way of splitting the inputs into dask chunks along any dimension, every supported
    calculation gives the same values, dimensions and coordinates as on in-memory arrays; lazy inputs are
    left lazy, and every calculation on wholly lazy inputs, except spiciness, returns lazy results without
    having computed any block of a time- or depth-dependent field (the two-dimensional depth and cell area
    may be read for validation).""",
    ["inputs", "configurations"],
    "every composition of each small dimension into chunks, alone and combined, for steric variants, reference state, derived fields, averages, trends and seasonal models",
    "only the geolocation and deseason paths ever meet dask in practice, and no test chunks anything",
    [SRC + "steric.py", SRC + "derived.py", SRC + "util.py", SRC + "trend.py"],
    [("dask='allowed' ufuncs", "derived.calc_rho and friends"), ("rechunking the time axis", "trend.deseason")],
)
prop(
    "C07",
    "Calls have no side effects and no memory",
    """No call modifies the objects passed to it (arrays, datasets and tables with their values,
    coordinates, attributes and encoding, and the dictionaries and lists that configure it; the
    documented in-place encoding reset excepted), and the result of a call depends on its arguments
    only: after any sequence of earlier calls, successful or failed, it is identical to the result in a fresh
    interpreter.""",
    ["histories", "inputs"],
    "every sequence of public operations up to the depth bound, over two datasets each, including calls that raise",
    "tests run each function once or twice in a fixed order and never compare inputs before and after",
    [SRC + "steric.py", SRC + "trend.py", SRC + "util.py", SRC + "derived.py", SRC + "tidegauge.py"],
    [("copies before editing", "attrs handling in trend.* and util.*"), ("no module-level mutable state", "all modules")],
)
prop(
    "C08",
    "Concurrent calls from several threads do not interfere",
    """Any interleaving of two calls running in two threads, on separate or on shared inputs, gives each
    caller the result it would have got alone and leaves the shared inputs unchanged.""",
    ["schedules"],
    "every schedule of two calls with at most the stated number of preemptions at line granularity, for every ordered pair of the listed operations",
    "the tests are single threaded",
    [SRC + "steric.py", SRC + "trend.py", SRC + "util.py", SRC + "derived.py"],
    [("absence of shared mutable state", "all modules")],
)
prop(
    "C09",
    "Equations of state match their published formulae everywhere",
    """For every temperature, salinity and pressure, the Wright (1997) and the linear equation of state
    return the density of the published formula, temperature and salinity derivatives that are the
    derivatives of that density, and expansion and contraction coefficients equal to -1/rho drho/dT and
    1/rho drho/dS; for scalars and arrays, integers and floats alike.  A reference density passed to the
    linear density is subtracted from the result.""",
    ["inputs"],
    "every point of a temperature x salinity x pressure lattice (exact rational arithmetic as oracle), every container and dtype",
    "the tests check the value at one or two points only",
    [SRC + "eos/wright.py", SRC + "eos/linear.py"],
    [("rational polynomial", "eos.wright.density"), ("analytic derivatives", "eos.wright.drho_dtemp / drho_dsal")],
)
prop(
    "C10",
    "Density front ends apply the named equation of state pointwise",
    """Density, expansion and contraction coefficients and potential density of labelled arrays are the
    chosen equation of state (name in any case) applied point by point, arrays being matched by dimension
    name; an unknown name, coordinate labels that disagree, or a potential-density level outside 0 to
    7500 m is an error.  Potential
    density uses the pressure of its reference level; the inverse barometer height is
    -pressure/(density x gravity) with the surface density at that pressure.""",
    ["inputs", "configurations"],
    "every combination of which dimensions each argument carries and in which order, both equations of state in every letter case, levels, gravities and atmospheric pressures",
    "tests use one layout and default options, and check sums",
    [SRC + "derived.py", SRC + "dynamic.py", SRC + "util.py"],
    [("name lookup", "util.eos_func_from_str"), ("apply_ufunc front ends", "derived.calc_rho / calc_alpha / calc_beta / calc_pdens"), ("inverse barometer", "dynamic.inverse_barometer")],
)
prop(
    "C11",
    "Layer thickness partitions the water column",
    """For every vertical grid and bathymetry, each layer's thickness is the length of its overlap with the
    water column between the requested top and the shallower of sea floor and requested bottom, so it
    is never negative, never exceeds the layer and sums to the height of that column; missing depth is
    land (zero).  Fractions are thickness over layer height, missing for dry layers; negative depths or
    coordinates are rejected.""",
    ["inputs"],
    "every combination of interface grid, depth (at, between and beyond interfaces, zero, missing), top and bottom from a lattice that contains all interfaces and midpoints",
    "tests check five sums on one grid with one random bathymetry",
    [SRC + "derived.py"],
    [("clipping of layers", "derived.calc_dz")],
)
prop(
    "C12",
    "Stratification and stability angle follow from the local gradients",
    """Squared buoyancy frequency is gravity times (alpha dT/dz - beta dS/dz) at every point, with
    second-order vertical gradients on the given (uneven) levels and coefficients at the local pressure
    (1e4 Pa per metre plus the atmospheric pressure); on request it is interpolated to the interfaces between levels; the stability angle is the arctangent in degrees of (1+R)/(1-R), R being the ratio of the salinity
    to the temperature contribution.  Both are computed independently for every column and time.""",
    ["inputs", "configurations"],
    "every profile of a small temperature/salinity alphabet, vertical grid, layout, equation of state, pressure and gravity within the bounds",
    "tests check sums for one random dataset",
    [SRC + "derived.py"],
    [("differentiate on the vertical coordinate", "derived.calc_n2"), ("density ratio", "derived.calc_stability_angle")],
)
prop(
    "C13",
    "Unstable stratification is replaced downward; wave speed and radius follow",
    """Adjusting a squared buoyancy frequency profile keeps every positive value, replaces each other value by the
    nearest positive value above it (1e-8 if there is none) and keeps missing points missing, column by
    column.  The first-mode wave speed is the thickness-weighted sum of the square roots of the
    adjusted profile over pi, missing over land; the Rossby radius is wave speed over the
    magnitude of the Coriolis parameter.""",
    ["inputs"],
    "every column over an alphabet of positive, zero, negative and missing values up to the depth bound, every layout and vertical coordinate name",
    "tests check sums for one random dataset",
    [SRC + "derived.py"],
    [("forward fill", "derived.adjust_negative_n2"), ("vertical integral", "derived.calc_wave_speed"), ("division by |f|", "derived.calc_rossby_rd")],
)
prop(
    "C14",
    "Vorticity, potential vorticity and Coriolis are exact on the staggered grid",
    """Relative vorticity at each corner is the difference of v dy in x minus the difference of u dx in
    y over the corner area, treating values beyond the grid edge as zero, on symmetric and non-symmetric grids; potential
    vorticity is (zeta + f) N2/g with N2 averaged to the corners (or left at the centres), its centimetre
    form the magnitude scaled by 1e12; the Coriolis parameter is 2 Omega sin(latitude).  Missing
    inputs and unknown units are errors.""",
    ["inputs", "configurations"],
    "every grid shape, symmetry, extra dimension, name mapping and edge position within the bounds, unit impulses at every grid point",
    "tests check sums for one random 5x5 grid with unit spacing",
    [SRC + "derived.py", SRC + "util.py"],
    [("xgcm differences and interpolation", "derived.calc_rel_vort / calc_pv"), ("grid construction", "util.get_xgcm_grid")],
)
prop(
    "C15",
    "Spiciness is the published polynomial at every point",
    """Spiciness equals the Flament (2002) double polynomial in temperature and salinity minus 35 at every
    point of arrays of any shape and of plain numbers, point by point, missing values staying missing
    and inputs of different shape being refused by the array routine.""",
    ["inputs"],
    "every point of a temperature x salinity lattice in exact arithmetic, every array shape within the bounds",
    "tests check a handful of values",
    [SRC + "spice/flament.py", SRC + "derived.py"],
    [("coefficient table", "spice.flament.B_IJ"), ("flattened evaluation", "spice.flament.spice")],
)
prop(
    "C16",
    "Annual means weight months by their true length in the calendar",
    """For every calendar and start year, the annual mean of monthly data is, per year, point and variable, the
    average weighted by the days in each month over the months that are not missing, stamped with
    the middle of its year in the same calendar and ordered by year; variables of objects or time differences are skipped,
    attributes kept, and a year without exactly twelve months is an error.""",
    ["inputs", "configurations"],
    "every supported calendar, leap/century/early years, number of years, missing-value subset, layout, dtype and Dataset/DataArray form within the bounds",
    "tests use noleap and julian, one start year, no missing values, and check sums",
    [SRC + "util.py"],
    [("days-in-month weights", "util.annual_average"), ("mid-year stamps", "util.annual_average")],
)
prop(
    "C17",
    "Monthly means and the annual cycle group by calendar month",
    """The monthly mean of daily data is, for each month present, the plain average of its non-missing days,
    stamped mid-month in the same calendar and in order; the annual cycle is the mean, minimum, maximum or
    standard deviation over all years of each calendar month, as twelve values stamped mid-month in the
    requested year or the middle year of the data.  An unknown statistic is an error.""",
    ["inputs", "configurations"],
    "every supported calendar, leap/century/early years, start month, record length, missing-value subset, statistic and layout within the bounds",
    "tests use one calendar and complete years, and check sums",
    [SRC + "util.py"],
    [("group by year and month", "util.monthly_average / annual_cycle")],
)
prop(
    "C18",
    "Linear trends are least squares, in the units asked for",
    """The trend along a dimension is the slope and intercept of the ordinary least-squares line at every
    point, ignoring missing values; along a time axis the slope is per requested time unit (default
    nanosecond) and its units attribute says so.  Unit conversion is exact, reciprocal and transitive;
    broadcasting a trend whose units state a time unit gives slope times elapsed time whatever that unit, optionally
    relative to the first point.""",
    ["inputs", "configurations"],
    "every time unit, axis kind (numeric, cftime of every calendar, datetime64), spacing, missing-value subset, layout and dimension name within the bounds; every pair and triple of units",
    "tests check stored sums for one monthly noleap record and three units",
    [SRC + "trend.py"],
    [("polyfit", "trend.calc_linear_trend"), ("unit table", "trend.time_conversion_factor"), ("line along a dimension", "trend.broadcast_trend")],
)
prop(
    "C19",
    "Detrending removes exactly the fitted line",
    """Linear detrending returns the residual from the least-squares line at every point ("remove") or
    subtracts only slope times coordinate, keeping the magnitude ("correct"); it leaves no trend, adding any line changes no
    residual, missing values stay missing, names and attributes are kept, and dataset variables without the
    dimension pass through unchanged.  Any other mode or order is an error.""",
    ["inputs", "configurations"],
    "every axis kind, units attribute, missing-value subset, layout, dtype, mode and Dataset/DataArray form within the bounds",
    "tests check stored sums for one record",
    [SRC + "trend.py", SRC + "util.py"],
    [("subtract the fit", "trend.linear_detrend")],
)
prop(
    "C20",
    "The seasonal model is the least-squares trend plus two harmonics",
    """The seasonal model of a time series is, independently at every point, the least-squares combination of a
    constant, a linear trend and the annual and semi-annual sine and cosine of decimal time (year plus elapsed
    days of the year, hours included, over 365), and model plus residual is the input.""",
    ["inputs", "configurations"],
    "every calendar, sampling, start date, layout, time coordinate name and basis signal within the bounds",
    "tests check one stored number",
    [SRC + "trend.py"],
    [("pseudo-inverse fit", "trend.seasonal_model")],
)
prop(
    "C21",
    "Deseasoning daily data fits every point in true decimal years",
    """For daily data of any calendar, layout, dimension name and chunking, deseasoning fits at every point a constant,
    a trend and annual and semi-annual harmonics in decimal years since the first day (each day counting
    one over the length of its year): residual plus model is the input, coefficients are labelled and
    reproduce the model, and an unknown output format or missing time dimension is an error.""",
    ["inputs", "configurations"],
    "every calendar, leap pattern, start day, layout, chunking, dimension name and output format within the bounds, each basis signal alone",
    "there is no test of this function at all",
    [SRC + "trend.py"],
    [("design matrix", "trend.seasonal_cycle_model"), ("blockwise application", "trend.deseason")],
)
prop(
    "C22",
    "Locations map to the nearest valid model point on the sphere",
    """Every requested location is mapped to a valid (mask 1) model point of smallest great-circle distance,
    across the date line and near the poles, with that distance in km, that point's coordinates and its
    dimension values reported; locations farther than the threshold, and only those, are left out, and the order and
    other columns of the request are kept.  Turning the mask off makes every point a candidate.""",
    ["inputs", "configurations"],
    "every location of a latitude x longitude lattice against every small grid and every mask of it, every threshold around each distance, either longitude convention, any column names",
    "tests compare one stored table for one regional grid",
    [SRC + "util.py"],
    [("ball tree, haversine", "util.geolocate_points"), ("mask and threshold filters", "util.geolocate_points")],
)
prop(
    "C23",
    "Tide gauge extraction returns the series of the right grid point",
    """For every gauge in the chosen list, the result holds, under the gauge's name, the values of the input array at the
    nearest unmasked grid point (with the mapping in its attributes), and nothing for gauges
    beyond the threshold, whatever the order of dimensions of array, coordinates and mask, 1-D or 2-D coordinates;
    invalid inputs are errors.""",
    ["inputs", "configurations"],
    "every small grid, mask, dimension order, coordinate form, threshold and gauge list within the bounds",
    "tests use one regional grid and compare one stored result",
    [SRC + "tidegauge.py", SRC + "util.py"],
    [("coordinate frame", "tidegauge.extract_tidegauge"), ("selection by label", "tidegauge.extract_point")],
)
prop(
    "C24",
    "Validation accepts exactly the datasets that meet the requirements",
    """An input dataset is accepted exactly when it has temperature, salinity and volume with four
    dimensions, a two-dimensional cell area (and depth, if present) and any further required variables,
    and a reference exactly when its fields have three dimensions, its density, volume, mass and mean density are
    there with the right rank and no coordinate is called time; total cell area off by two percent or more is an error
    when strict and a warning otherwise.  Unknown variants are rejected.""",
    ["inputs", "configurations"],
    "every combination of present, missing and wrong-rank variables, area factors around the tolerance, strict and lenient",
    "tests check a few hand-picked broken datasets",
    [SRC + "util.py", SRC + "steric.py"],
    [("collected assertions", "util.validate_dataset"), ("tolerance", "util.validate_areacello")],
)
prop(
    "C25",
    "Grid cell areas tile the sphere and tiled coordinates match their axes",
    """The areas of a regular latitude-longitude grid are the exact spherical areas of the cells around the given centres
    (cut at the poles), whichever way the axes run, so a global grid sums to 4 pi r^2; labelled input
    gives a labelled result.  Tiled coordinates hold at (y, x) exactly the x and the y value of that
    position.""",
    ["inputs"],
    "every resolution, direction, offset and extent of a lattice of regular grids, numpy and labelled",
    "tests check one or two grids",
    [SRC + "util.py"],
    [("spherical strip formula", "util.standard_grid_cell_area"), ("meshgrid", "util.tile_nominal_coords")],
)
prop(
    "C26",
    "Synthetic test data is valid, reproducible and true to its calendar",
    """For every calendar, start year, length and seed the generated datasets are reproducible, satisfy
    the package's own validation, and have a gap-free time axis in which each point lies midway
    between its bounds and durations and bounds agree; daily axes contain every day of the requested
    years exactly once.""",
    ["inputs", "configurations"],
    "every calendar, start year around leap/century/early years, number of years, frequency and seed within the bounds",
    "the other tests use three fixed datasets and nothing checks the generators",
    [SRC + "test_data/__init__.py", SRC + "test_data/time.py", SRC + "test_data/tripolar.py"],
    [("time stub", "test_data.time.generate_time_stub"), ("daily axis", "test_data.time.generate_daily_timeaxis")],
)
prop(
    "C27",
    "Results carry correct metadata and survive a file round trip",
    """Every result names its quantity and units correctly for the variant, equation of state, level and
    unit option chosen, keeps the attributes of the coordinates, and (steric results) is encoded in the
    requested output type; encoding reset removes exactly the named entries everywhere, and alphabetizing reorders
    variables without changing any.""",
    ["inputs", "configurations"],
    "every combination of function, variant, domain, output type, equation of state and unit option; every subset of encoding entries",
    "tests check values, hardly any attribute or encoding",
    [SRC + "steric.py", SRC + "derived.py", SRC + "util.py", SRC + "dynamic.py", SRC + "trend.py"],
    [("attrs dictionaries", "all calc_* functions"), ("encoding", "steric.steric, util.reset_encoding")],
)

prop(
    "C28",
    "Every point, column and series is computed on its own",
    """A calculation that is defined point by point, column by column or series by series gives every point the
    same result whatever the other points hold and whether they are there: taking any subset of the points in
    any order before the calculation is the same as taking it from the result, and other (also missing or
    absurd) values at one point change the result at that point only.  Times are independent in the same way,
    given a reference state.""",
    ["inputs", "histories"],
    "every public operation, every subset and order of the points of each dimension it works along, every single disturbed point and kind of disturbance",
    "tests call each function once on a whole grid and compare totals",
    [SRC + "steric.py", SRC + "derived.py", SRC + "trend.py", SRC + "util.py", SRC + "dynamic.py", SRC + "tidegauge.py"],
    [("pointwise arithmetic on labelled arrays", "all calc_* functions, steric.steric"), ("stacked and vectorised fits", "trend.seasonal_model / deseason / calc_linear_trend")],
)
prop(
    "C29",
    "Only values matter, not how they are stored, accompanied or passed",
    """Byte order, memory layout, alignment and write protection of the input arrays, integers or floating point for
    the same numbers, unrelated further variables, coordinates, attributes and encodings, and passing arguments by
    position in the documented order or by keyword change no value of any result, and leaving an option out is
    passing its documented default.""",
    ["inputs", "configurations"],
    "every public operation with every storage of every single input array and of all of them, every combination of up to two kinds of company, every split of the arguments into positional and keyword ones, every option left out",
    "tests use freshly made C-ordered native float64 arrays and one way of passing the arguments",
    [SRC + "steric.py", SRC + "reference.py", SRC + "derived.py", SRC + "trend.py", SRC + "util.py", SRC + "dynamic.py", SRC + "tidegauge.py", SRC + "eos/wright.py", SRC + "eos/linear.py"],
    [("signatures", "all public functions"), ("arithmetic on the arrays as given", "all public functions")],
)

BOUNDS = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("note", "tech")}
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "mc", "props", pid.lower() + ".py")):
            tech, note = NOTES.get(pid, DEFAULT)
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"./check {pid}",
                    "thorough_cmd": f"./check {pid} --tier thorough",
                    "evidence_file": f"evidence/{pid}.json",
                    "technique": tech,
                    "level": "model_checking",
                    "level_note": note,
                }
            )
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    doc = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'from mc import target; target.load()'",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every check imports the unmodified source tree /repo/src (compiled afresh, no byte-code cache). Repairs of genuine defects are the commits starting with 'fix:'; see known_findings.json and DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


DEFAULT = (
    "explicit enumeration of all executions of the real code within a deviation bound, each observation compared with an independent reference model",
    "Exhaustive within the stated bounds (all choices up to the deviation bound; 'free' choices completely); trusts the reference model in mc/model.py and numpy/xarray. Values between the enumerated ones are not covered.",
)
NOTES = {
    "C07": (
        "explicit-state search over all operation sequences up to a depth, on the real code, with fresh-process baselines",
        "All sequences of the listed operations up to the depth bound; inputs are compared bitwise, results to 1e-9. Trusts fork as a fresh interpreter.",
    ),
    "C08": (
        "stateless model checking: all two-thread schedules of the real code up to a preemption bound under a controlled scheduler",
        "All schedules with at most the stated preemptions at source-line granularity inside momlevel; library code runs atomically between lines.",
    ),
}
if __name__ == "__main__":
    main()
