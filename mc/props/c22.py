"""C22 - nearest valid model point on the sphere."""

import warnings

import numpy as np
import pandas as pd

from momlevel import util
from mc import model
from mc.core import Scenario

# name: (lats, lons) of a small rectangular grid
GRIDS = {
    "global": ([-60.0, 0.0, 60.0], [-120.0, 0.0, 120.0]),
    "date line": ([-10.0, 10.0], [170.0, 179.0, -179.0, -170.0]),
    "date line 0-360": ([-10.0, 10.0], [170.0, 179.0, 181.0, 190.0]),
    "polar": ([80.0, 88.0, 90.0], [-180.0, -60.0, 60.0]),
    "south": ([-89.5, -70.0], [0.0, 90.0, 180.0, 270.0]),
    "regional": ([40.0, 40.1, 40.2], [-70.0, -69.9, -69.8]),
    "-300 to 60": ([-20.0, 20.0], [-299.5, -200.0, -100.0, 0.0, 59.5]),
    "tiny": ([0.0, 1e-4], [0.0, 1e-4]),
    "one point": ([12.0], [34.0]),
}
LATS = [-90.0, -89.0, -61.0, -30.5, -9.0, 0.0, 0.00004, 9.5, 40.06, 59.0, 85.0, 89.9, 90.0]
LONS = [-180.0, -179.5, -120.0, -69.86, -30.0, 0.0, 0.00007, 60.0, 100.0, 175.0, 179.9, 180.0, 200.0, 290.1, 359.9]


def frame(lats, lons, maskbits, dims=("yh", "xh"), cols=("geolat", "geolon"), skew=0.0, mask="f8"):
    rows, idx = [], []
    k = 0
    for j, la in enumerate(lats):
        for i, lo in enumerate(lons):
            y = max(-90.0, min(90.0, la + skew * i))
            m = 1.0 if maskbits is None else float((maskbits >> k) & 1)
            rows.append((lo + skew * j, y, m))
            idx.append((100.0 + j, -300.0 + i))
            k += 1
    df = pd.DataFrame(rows, columns=[cols[1], cols[0], "mask"])
    df.index = pd.MultiIndex.from_tuples(idx, names=list(dims))
    if mask == "bool":
        df["mask"] = df["mask"].astype(bool)
    elif mask == "int":
        df["mask"] = df["mask"].astype(int)
    elif mask == "nan":
        df["mask"] = df["mask"].where(df["mask"] == 1.0, np.nan)
    elif mask == "none":
        df = df.drop(columns=["mask"])
    elif mask == "fractions":
        df["mask"] = df["mask"].where(df["mask"] == 1.0, 0.5)
    return df


def locations(points, cols=("lat", "lon")):
    df = pd.DataFrame(
        {
            "name": [f"P{k}" for k in range(len(points))],
            "PSMSLID": [1000 + 7 * k for k in range(len(points))],
            cols[0]: [p[0] for p in points],
            cols[1]: [p[1] for p in points],
        }
    )
    df.index = [5 * k + 3 for k in range(len(points))]
    return df


def check_table(ch, got, dfm, cand, pts, threshold=None, radius=6378.0, cols=("geolat", "geolon")):
    """Compare a result with the brute force answer over the candidate rows."""
    la, lo = dfm[cols[0]].values, dfm[cols[1]].values
    want = []
    for k, (y, x) in enumerate(pts):
        d = [model.haversine_km(y, x, la[c], lo[c], radius) for c in cand]
        want.append(min(d))
    keep = [k for k in range(len(pts)) if threshold is None or want[k] <= threshold + 1e-7]
    drop_ok = [k for k in keep if threshold is not None and abs(want[k] - threshold) <= 1e-7]
    index = list(got.index)
    exp = [5 * k + 3 for k in keep if k not in drop_ok or 5 * k + 3 in index]
    ch.equal("locations kept, in order", index, exp)
    where = {tuple(i): c for c, i in enumerate(dfm.index)}
    for row in range(len(got)):
        k = (index[row] - 3) // 5
        r = got.iloc[row]
        tol = 1e-6 + 1e-9 * want[k] + (0.01 if want[k] > 0.499 * 2 * np.pi * radius else 0.0)
        ch.true(
            "distance is the smallest",
            abs(r["distance"] - want[k]) <= tol,
            f"location {pts[k]}: got {r['distance']}, smallest {want[k]}",
        )
        c = where.get(tuple(r["dim_vals"]))
        ch.true("a valid model point", c in cand, f"location {pts[k]} -> {r['dim_vals']}")
        d = model.haversine_km(pts[k][0], pts[k][1], la[c], lo[c], radius)
        ch.true(
            "the point is at that distance",
            abs(d - want[k]) <= tol,
            f"location {pts[k]} -> {r['dim_vals']} at {d}, nearest {want[k]}",
        )
        ch.equal("its coordinates", tuple(map(float, r["model_coords"])), (float(la[c]), float(lo[c])))
        ch.equal("the request", tuple(map(float, r["real_coords"])), (float(pts[k][0]), float(pts[k][1])))
        ch.equal("other columns", (r["name"], int(r["PSMSLID"])), (f"P{k}", 1000 + 7 * k))


def lattice(ch):
    """The whole lattice of locations against every grid."""
    grid = ch.free("grid", list(GRIDS))
    skew = ch.pick("distortion", [0.0, 0.3])
    mcols = ch.pick("model columns", [("geolat", "geolon"), ("lat", "lon"), ("y", "x")])
    lcols = ch.pick("location columns", [("lat", "lon"), ("latitude", "longitude"), ("y", "x")])
    radius = ch.pick("radius", [None, 6371.0, 1.0])
    mask = ch.pick("mask type", ["f8", "int", "bool", "nan", "none", "fractions"])
    bits = ch.pick("masked", ["no", "every other", "all but the last"])
    apply = ch.pick("apply mask", [None, True, False])
    ints = ch.pick("whole numbers", [False, True])
    dup = ch.pick("duplicate columns", [False, True])
    more = ch.pick("further columns", ["none", "text", "missing values", "nothing but missing values", "other coordinates"])
    if mask == "none" and bits != "no":
        ch.prune()
    lats, lons = GRIDS[grid]
    n = len(lats) * len(lons)
    mb = {"no": (1 << n) - 1, "every other": sum(1 << k for k in range(0, n, 2)), "all but the last": 1 << (n - 1)}[bits]
    dfm = frame(lats, lons, mb, cols=mcols, skew=skew, mask=mask)
    if dup:
        dfm = pd.concat([dfm, dfm[[mcols[0]]]], axis=1)
    if more not in ("none", "other coordinates"):
        q = {"text": "a", "missing values": 3.0}.get(more, np.nan)
        dfm["deptho"] = [np.nan if more == "missing values" and k % 3 else q for k in range(n)]
    pts = [(y, x) for y in LATS for x in LONS]
    if ints:
        pts = [(int(y), int(x)) for y, x in pts]
    dfl = locations(pts, lcols)
    if more == "other coordinates":
        if lcols == ("lat", "lon"):
            ch.prune()
        dfl["lat"], dfl["lon"], dfl["x0"] = "north", "east", 0.5  # not the ones asked for
    elif more != "none":
        dfl["note"] = [np.nan if more != "text" and k % 2 else "b" for k in range(len(pts))]
    ch.state(grid, skew, mcols, lcols, radius, mask, bits, apply, ints, dup, more)
    kw = {}
    if mcols != ("geolat", "geolon"):
        kw["model_coords"] = mcols
    if lcols != ("lat", "lon"):
        kw["loc_coords"] = lcols
    if radius:
        kw["rad_earth"] = radius
    if apply is not None:
        kw["apply_mask"] = apply
    got = ch.call(util.geolocate_points, dfm, dfl, **kw)
    cand = [k for k in range(n) if apply is False or mask == "none" or (mb >> k) & 1]
    base = frame(lats, lons, mb, cols=mcols, skew=skew, mask=mask)
    check_table(ch, got, base, set(cand), pts, None, radius or 6378.0, mcols)
    if more == "other coordinates":
        ch.true("columns kept", {"lat", "lon", "x0"} <= set(got.columns), f"{list(got.columns)}")
        ch.equal("their values", [set(got["lat"]), set(got["lon"]), set(got["x0"])], [{"north"}, {"east"}, {0.5}])


def every_mask(ch):
    """Every mask of a 2x3 grid, on and off."""
    grid = ch.free("grid", ["date line", "polar", "regional"])
    bits = ch.free("mask", list(range(1, 64)))
    apply = ch.free("apply mask", [True, False])
    lats, lons = GRIDS[grid]
    lats, lons = lats[-2:], lons[:3]
    dfm = frame(lats, lons, bits)
    pts = [(y, x) for y in [-90.0, -9.9, 9.0, 40.12, 86.0, 90.0] for x in [-180.0, -69.93, 0.0, 174.0, 180.0, 300.0]]
    ch.state(grid, bits, apply)
    got = ch.call(util.geolocate_points, dfm, locations(pts), apply_mask=apply)
    cand = {k for k in range(6) if not apply or (bits >> k) & 1}
    check_table(ch, got, dfm, cand, pts)


def thresholds(ch):
    """Thresholds at, just below and just above every distance that occurs."""
    grid = ch.free("grid", ["date line", "polar", "regional", "tiny"])
    pts = [(y, x) for y in [-60.0, 0.0, 0.00004, 40.06, 88.0] for x in [-179.9, -69.86, 0.00003, 175.0]]
    k = ch.free("at the distance of location", list(range(len(pts))))
    side = ch.free("side", ["at", "below", "above", "zero", "infinite"])
    warn = ch.free("warnings", [False, True, None])
    lats, lons = GRIDS[grid]
    n = len(lats) * len(lons)
    bits = (1 << n) - 2
    dfm = frame(lats, lons, bits)
    dfl = locations(pts)
    cand = set(range(1, n))
    full = ch.call(util.geolocate_points, dfm, dfl)
    check_table(ch, full, dfm, cand, pts)
    d = float(full["distance"].iloc[k])
    thr = {"at": d, "below": d * (1 - 1e-6) - 1e-6, "above": d * (1 + 1e-6) + 1e-6, "zero": 0.0, "infinite": np.inf}[side]
    ch.state(grid, thr, warn)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        quiet = {} if warn is None else {"disable_warning": not warn}
        got = ch.call(util.geolocate_points, dfm, dfl, threshold=thr, **quiet)
    dist = full["distance"].values
    keep = [int(full.index[q]) for q in range(len(pts)) if dist[q] <= thr]
    ch.equal("kept", [int(q) for q in got.index], keep)
    if len(got):
        check_table(ch, got, dfm, cand, pts, thr)
    named = [w for w in rec if "Unable to map" in str(w.message)]
    if warn:
        lost = [full["name"].iloc[q] for q in range(len(pts)) if not dist[q] <= thr]
        ch.equal("one warning per location left out", len(named), len(lost))
        for nme, w in zip(lost, named):
            ch.true("warning names it", f" {nme} " in str(w.message), str(w.message))
    else:
        ch.equal("no warnings", len(named), 0)


def requests(ch):
    """Few locations: none, one, repeated, any order; the arguments stay as they were."""
    pts = ch.free(
        "locations",
        [[], [(10.0, 20.0)], [(10.0, 20.0)] * 3, [(80.0, 0.0), (-80.0, 0.0), (0.0, 180.0)], [(0.0, -180.0), (0.0, 180.0)]],
    )
    thr = ch.free("threshold", [None, 1.0, 1e5])
    grid = ch.free("grid", list(GRIDS))
    if not pts:
        ch.prune()
    lats, lons = GRIDS[grid]
    dfm = frame(lats, lons, None)
    dfl = locations(pts)
    m0, l0 = dfm.copy(), dfl.copy()
    ch.state(pts, thr, grid)
    got = ch.call(util.geolocate_points, dfm, dfl, threshold=thr)
    check_table(ch, got, dfm, set(range(len(dfm))), pts, thr)
    ch.true("model table unchanged", dfm.equals(m0) and list(dfm.columns) == list(m0.columns))
    ch.true("request unchanged", dfl.equals(l0) and list(dfl.columns) == list(l0.columns))


def tables(ch):
    """The labels of the rows of either table are labels only."""
    lidx = ch.free("labels of the request", ["numbers", "all the same", "in pairs", "text", "two levels", "reversed", "missing"])
    midx = ch.free("labels of the model", ["two levels", "plain", "text", "in pairs", "all the same"])
    mask = ch.free("mask", ["none", "some"])
    thr = ch.free("threshold", [None, 1500.0])
    grid = ch.free("grid", ["date line", "polar", "regional"])
    lats, lons = GRIDS[grid]
    n = len(lats) * len(lons)
    dfm = frame(lats, lons, None if mask == "none" else sum(1 << k for k in range(0, n, 2)))
    pts = [(y, x) for y in [-60.0, 0.0, 40.06, 88.0] for x in [-179.9, -69.86, 0.0, 175.0]]
    dfl = locations(pts)
    m = len(pts)
    dfl.index = {
        "numbers": list(range(m)), "all the same": [0] * m, "in pairs": [k // 2 for k in range(m)], "text": [f"r{k % 5}" for k in range(m)],
        "two levels": pd.MultiIndex.from_arrays([[k // 4 for k in range(m)], [k % 2 for k in range(m)]]),
        "reversed": list(range(m))[::-1], "missing": [np.nan if k % 3 else float(k) for k in range(m)],
    }[lidx]  # fmt: skip
    if midx != "two levels":
        dfm.index = {"plain": list(range(n)), "text": [f"p{k}" for k in range(n)], "in pairs": [k // 2 for k in range(n)], "all the same": [3] * n}[midx]
    ch.state(lidx, midx, mask, thr, grid)
    got = ch.call(util.geolocate_points, dfm, dfl, **({} if thr is None else {"threshold": thr}))
    cand = [k for k in range(n) if mask == "none" or k % 2 == 0]
    la, lo = dfm["geolat"].values, dfm["geolon"].values
    want = []
    for k, (y, x) in enumerate(pts):
        d = min(model.haversine_km(y, x, la[c], lo[c], 6378.0) for c in cand)
        if thr is None or d <= thr:
            want.append((k, d))
    ch.equal("locations kept, in order", [int(q) for q in got["PSMSLID"]], [1000 + 7 * k for k, _ in want])
    ch.equal("their labels", [str(q) for q in got.index], [str(dfl.index[k]) for k, _ in want])
    for row, (k, d) in enumerate(want):
        r = got.iloc[row]
        ch.true("smallest distance", abs(r["distance"] - d) <= 1e-6 * (1 + d), f"{pts[k]}: {r['distance']} vs {d}")
        hit = [c for c in cand if (float(la[c]), float(lo[c])) == tuple(map(float, r["model_coords"]))]
        ch.true("a candidate", hit, f"{pts[k]} -> {r['model_coords']}")
        ch.true("at that distance", any(abs(model.haversine_km(*pts[k], la[c], lo[c], 6378.0) - d) <= 1e-6 * (1 + d) for c in hit))
        ch.true("with its labels", any(dfm.index[c] == r["dim_vals"] for c in hit), f"{r['dim_vals']}")
        ch.equal("the request", tuple(map(float, r["real_coords"])), pts[k])


def sphere(kind, ny, nx):
    """(lat, lon) of a model-like grid."""
    j, i = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    lat = -90.0 + (j + 0.5) * 180.0 / ny
    lon = (i + 0.5) * 360.0 / nx
    if kind == "-180..180":
        lon = lon - 180.0
    elif kind == "-300..60":
        lon = lon - 300.0
    elif kind == "wrapped":  # jumps from 180 to -180 within a row
        lon = (lon + 100.0) % 360.0 - 180.0
    elif kind == "fold":  # the northern rows lean over, as on a tripolar grid
        north = np.clip((lat - 50.0) / 40.0, 0.0, 1.0)
        lon = lon - 300.0 + 40.0 * north * np.sin(np.deg2rad(2 * lon))
        lat = lat - 25.0 * north**2 * np.cos(np.deg2rad(lon)) ** 2
    elif kind == "regional":
        lat, lon = 30.0 + j * 20.0 / ny, 170.0 + i * 25.0 / nx
    return lat, lon


def fine_grid(ch):
    """Grids of real size: the search tree splits, the answer is still the brute-force one."""
    kind = ch.free("grid", ["0..360", "-180..180", "-300..60", "wrapped", "fold", "regional"])
    size = ch.free("size", [(45, 90), (90, 180), (3, 500), (500, 3)])
    bits = ch.free("mask", ["all", "continents", "few", "off"])
    turn = ch.free("turns added to the request", [0, 1, -2])
    thr = ch.free("threshold", [None, 150.0])
    ny, nx = size
    lat, lon = sphere(kind, ny, nx)
    wet = np.ones((ny, nx), bool)
    j, i = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    if bits != "all":
        wet = ((i * 7 // nx) % 2 == 0) | ((j * 5 // ny) % 3 == 0)
    if bits == "few":
        wet = (i * ny + j) % 211 == 5
    dfm = pd.DataFrame({"geolat": lat.ravel(), "geolon": lon.ravel(), "mask": wet.ravel().astype(float)})
    dfm.index = pd.MultiIndex.from_arrays([j.ravel() * 0.5, i.ravel() * 2.0 - 299.0], names=["yh", "xh"])
    pts = [(y, x + 360.0 * turn) for y in LATS + [33.0, 45.5, 66.0] for x in LONS + [174.0, 188.0]]
    dfl = locations(pts)
    ch.state(kind, size, bits, turn, thr)
    kw = {"apply_mask": False} if bits == "off" else {}
    if thr:
        kw["threshold"] = thr
    got = ch.call(util.geolocate_points, dfm, dfl, **kw)
    cand = np.ones(ny * nx, bool) if bits == "off" else wet.ravel()

    def unit(la, lo):
        la, lo = np.deg2rad(la), np.deg2rad(lo)
        return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], -1)

    P = unit(np.array([q[0] for q in pts]), np.array([q[1] for q in pts]))
    M = unit(lat.ravel()[cand], lon.ravel()[cand])
    chord = np.sqrt(np.maximum(0.0, 2.0 - 2.0 * (P @ M.T)))
    near = np.argpartition(chord, min(8, M.shape[0] - 1), axis=1)[:, :9]
    best = np.array([np.min([model.haversine_km(*pts[k], lat.ravel()[cand][c], lon.ravel()[cand][c]) for c in near[k]]) for k in range(len(pts))])
    want = [k for k in range(len(pts)) if thr is None or best[k] <= thr]
    edge = {k for k in range(len(pts)) if thr is not None and abs(best[k] - thr) < 1e-6}
    index = [int(q) for q in got.index]
    ch.equal("locations kept", [q for q in index if (q - 3) // 5 not in edge], [5 * k + 3 for k in want if k not in edge])
    la, lo = lat.ravel(), lon.ravel()
    for row in range(len(got)):
        k = (index[row] - 3) // 5
        r = got.iloc[row]
        ch.true("smallest distance", abs(r["distance"] - best[k]) < 1e-5, f"{pts[k]}: got {r['distance']}, smallest {best[k]}")
        c = int(round(r["dim_vals"][0] / 0.5)) * nx + int(round((r["dim_vals"][1] + 299.0) / 2.0))
        ch.true("valid", bool(cand[c]), f"{pts[k]} -> {r['dim_vals']}")
        ch.equal("coordinates", tuple(map(float, r["model_coords"])), (float(la[c]), float(lo[c])))
        d = model.haversine_km(*pts[k], la[c], lo[c])
        ch.true("at that distance", abs(d - best[k]) < 1e-5, f"{pts[k]} -> {r['dim_vals']} at {d}, nearest {best[k]}")


SCENARIOS = [
    Scenario(fine_grid, 0),
    Scenario(lattice, 2, 3),
    Scenario(every_mask, 0),
    Scenario(thresholds, 0),
    Scenario(requests, 0),
    Scenario(tables, 0),
]
ASSUMPTIONS = [
    "13 x 15 locations including poles and date line against nine grids; ties may go either way; "
    "at least one valid model point and one location",
]
