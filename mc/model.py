"""Reference models: plain numpy / pure Python restatements of what momlevel promises.

Nothing in here imports momlevel.
"""

import math

import numpy as np

# ---------------------------------------------------------------- Wright (1997)
WA = ("7.057924e-4", "3.480336e-7", "-1.112733e-7")
WB = ("5.790749e8", "3.516535e6", "-4.002714e4", "2.084372e2", "5.944068e5", "-9.643486e3")
WC = ("1.704853e5", "7.904722e2", "-7.984422", "5.140652e-2", "-2.302158e2", "-3.079464")


def wright_terms(T, S, num=float):
    a0, a1, a2 = (num(x) for x in WA)
    b0, b1, b2, b3, b4, b5 = (num(x) for x in WB)
    c0, c1, c2, c3, c4, c5 = (num(x) for x in WC)
    al = a0 + a1 * T + a2 * S
    p0 = b0 + b1 * T + b2 * T * T + b3 * T * T * T + b4 * S + b5 * S * T
    lam = c0 + c1 * T + c2 * T * T + c3 * T * T * T + c4 * S + c5 * S * T
    d_t = (a1, b1 + 2 * b2 * T + 3 * b3 * T * T + b5 * S, c1 + 2 * c2 * T + 3 * c3 * T * T + c5 * S)
    d_s = (a2, b4 + b5 * T, c4 + c5 * T)
    return al, p0, lam, d_t, d_s


def wright_density(T, S, p, num=float):
    al, p0, lam, _, _ = wright_terms(T, S, num)
    return (p + p0) / (lam + al * (p + p0))


def wright_derivs(T, S, p, num=float):
    """(drho/dT, drho/dS), by the quotient rule on rho = P / (lam + al P)."""
    al, p0, lam, d_t, d_s = wright_terms(T, S, num)
    big = p + p0
    den = lam + al * big
    out = []
    for dal, dp0, dlam in (d_t, d_s):
        dden = dlam + dal * big + al * dp0
        out.append((dp0 * den - big * dden) / (den * den))
    return tuple(out)


def linear_density(T, S, p=None, num=float):
    return num("1000.0") + num("-0.2") * T + num("0.8") * S


def linear_derivs(T, S, p=None, num=float):
    return num("-0.2"), num("0.8")


def density(eos):
    return {"wright": wright_density, "linear": linear_density}[eos.lower()]


def alpha_beta(eos, T, S, p, num=float):
    eos = eos.lower()
    rho = density(eos)(T, S, p, num)
    dt, ds = (wright_derivs if eos == "wright" else linear_derivs)(T, S, p, num)
    return -dt / rho, ds / rho


# --------------------------------------------------------------- vertical grids
def layer_thickness(z_i, depth, top=0.0, bottom=None, fraction=False):
    """Thickness of each layer inside [top, min(depth, bottom)]; NaN depth is land."""
    depth = np.asarray(depth, dtype=float)
    nz = len(z_i) - 1
    out = np.zeros((nz,) + depth.shape)
    for idx in np.ndindex(depth.shape):
        d = depth[idx]
        d = 0.0 if np.isnan(d) else d
        if bottom is not None:
            d = min(d, bottom)
        for k in range(nz):
            lo, hi = float(z_i[k]), float(z_i[k + 1])
            out[(k,) + idx] = max(0.0, min(hi, d) - max(lo, top))
            if fraction:
                v = out[(k,) + idx]
                full = hi - lo
                out[(k,) + idx] = np.nan if (v == 0 or full == 0) else v / full
    return out


def layer_thickness_listed(z_i, depth, top=0.0, bottom=None, fraction=False):
    """The *faulty* behaviour listed as finding DZ-TOP (see known_findings.json)."""
    depth = np.asarray(depth, dtype=float)
    nz = len(z_i) - 1
    out = np.zeros((nz,) + depth.shape)
    for idx in np.ndindex(depth.shape):
        d = depth[idx]
        d = 0.0 if np.isnan(d) else d
        if bottom is not None:
            d = min(d, bottom)
        for k in range(nz):
            lo, hi = float(z_i[k]), float(z_i[k + 1])
            v = min(max(0.0, d - lo), hi - lo, max(0.0, hi - top))
            if fraction:
                v = np.nan if (v == 0 or hi == lo) else v / (hi - lo)
            out[(k,) + idx] = v
    return out


def gradient(f, z):
    """d f / d z along the last axis, second order on uneven spacing, also at the edges."""
    f = np.asarray(f, dtype=float)
    z = np.asarray(z, dtype=float)
    n = len(z)
    g = np.empty_like(f)

    def three(i0, i1, i2, at):
        a, b, c = z[i0], z[i1], z[i2]
        x = z[at]
        return (
            f[..., i0] * (2 * x - b - c) / ((a - b) * (a - c))
            + f[..., i1] * (2 * x - a - c) / ((b - a) * (b - c))
            + f[..., i2] * (2 * x - a - b) / ((c - a) * (c - b))
        )

    g[..., 0] = three(0, 1, 2, 0)
    g[..., n - 1] = three(n - 3, n - 2, n - 1, n - 1)
    for k in range(1, n - 1):
        g[..., k] = three(k - 1, k, k + 1, k)
    return g


# ------------------------------------------------------------------------ steric
def steric_local(eos, T, S, z_l, z_i, depth, patm, rhozero, ref, variant):
    """T, S: (t,z,y,x).  ref: dict(T, S, vol, rho) with (z,y,x).  -> height, drho."""
    nt, nz, ny, nx = T.shape
    rho_f = density(eos)
    p = z_l[:, None, None] * 1.0e4 + patm  # patm: scalar, (y,x) or (t,1,y,x)
    p = np.broadcast_to(p, (nt, nz, ny, nx))
    dz = layer_thickness(z_i, depth)
    h = np.full((nt, ny, nx), np.nan)
    dr = np.full((nt, nz, ny, nx), np.nan)
    for t in range(nt):
        for j in range(ny):
            for i in range(nx):
                tot = 0.0
                for k in range(nz):
                    tt = ref["T"][k, j, i] if variant == "halosteric" else T[t, k, j, i]
                    ss = ref["S"][k, j, i] if variant == "thermosteric" else S[t, k, j, i]
                    if np.isnan(ref["vol"][k, j, i]):
                        continue
                    d = rho_f(tt, ss, p[t, k, j, i]) - ref["rho"][k, j, i]
                    dr[t, k, j, i] = d
                    if not np.isnan(d):
                        tot += dz[k, j, i] * d
                if not np.isnan(ref["vol"][0, j, i]):
                    h[t, j, i] = -tot / rhozero
    return h, dr


def steric_global(eos, T, S, z_l, patm, ref, area, variant):
    nt, nz, ny, nx = T.shape
    rho_f = density(eos)
    p = np.broadcast_to(z_l[:, None, None] * 1.0e4 + patm, (nz, ny, nx))
    volo = math.fsum(v for v in ref["vol"].ravel() if not np.isnan(v))
    atot = math.fsum(v for v in np.asarray(area).ravel() if not np.isnan(v))
    out = np.empty(nt)

    def mean_density(tt, ss):
        m = rho_f(tt, ss, p) * ref["vol"]
        return math.fsum(v for v in m.ravel() if not np.isnan(v)) / volo

    r0 = mean_density(ref["T"], ref["S"]) if ref.get("rhoga") is None else ref["rhoga"]
    for t in range(nt):
        tt = ref["T"] if variant == "halosteric" else T[t]
        ss = ref["S"] if variant == "thermosteric" else S[t]
        out[t] = volo / atot * math.log(r0 / mean_density(tt, ss))
    return out, volo / atot


def reference_state(eos, T, S, vol, z_l, patm, index=0):
    T, S, vol = T[index], S[index], vol[index]
    p = np.broadcast_to(z_l[:, None, None] * 1.0e4 + patm, T.shape)
    rho = density(eos)(T, S, p)
    volo = math.fsum(v for v in vol.ravel() if not np.isnan(v))
    masso = math.fsum(v for v in (rho * vol).ravel() if not np.isnan(v))
    return dict(T=T, S=S, vol=vol, rho=rho, volo=volo, masso=masso, rhoga=masso / volo if volo else np.nan)


# ---------------------------------------------------------------------- calendar
def is_leap(year, calendar):
    if calendar in ("noleap", "365_day", "360_day"):
        return False
    if calendar in ("all_leap", "366_day"):
        return True
    if calendar == "julian":
        return year % 4 == 0
    if calendar in ("standard", "gregorian") and year <= 1582:
        return year % 4 == 0
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


def month_days(year, month, calendar):
    if calendar == "360_day":
        return 30
    if month == 2:
        return 29 if is_leap(year, calendar) else 28
    return 30 if month in (4, 6, 9, 11) else 31


def year_days(year, calendar):
    return sum(month_days(year, m, calendar) for m in range(1, 13))


def mid_of_month(year, month, calendar):
    """(year, month, day, hour) of the middle of the month."""
    half = month_days(year, month, calendar) / 2.0
    return (year, month, 1 + int(half), int(round((half - int(half)) * 24)))


def mid_of_year(year, calendar):
    half = year_days(year, calendar) / 2.0
    d = int(half)
    hour = int(round((half - d) * 24))
    m = 1
    while d >= month_days(year, m, calendar):
        d -= month_days(year, m, calendar)
        m += 1
    return (year, m, 1 + d, hour)


def ymdh(t):
    assert (t.minute, t.second, t.microsecond) == (0, 0, 0), t
    return (t.year, t.month, t.day, t.hour)


# ------------------------------------------------------------------ least squares
def line_fit(x, y):
    """Exact-ish least squares of y on x, ignoring NaN y.  Returns slope, intercept."""
    ok = ~np.isnan(y)
    x = np.asarray(x, dtype=np.longdouble)[ok]
    y = np.asarray(y, dtype=np.longdouble)[ok]
    if len(x) == 0:
        return np.nan, np.nan
    xm, ym = x.mean(), y.mean()
    den = ((x - xm) ** 2).sum()
    if den == 0:
        return np.nan, np.nan
    m = ((x - xm) * (y - ym)).sum() / den
    return float(m), float(ym - m * xm)


# -------------------------------------------------------------------- geography
def haversine_km(lat1, lon1, lat2, lon2, r=6.378e03):
    p1, p2 = math.radians(lat1), math.radians(lat2)
    dl = math.radians(lon2 - lon1)
    a = math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(dl / 2) ** 2
    return 2 * r * math.asin(min(1.0, math.sqrt(a)))
