"""Calendars and time axes (expected values never come from cftime or momlevel)."""

import cftime
import numpy as np

from mc import model

CALENDARS = [
    "noleap",
    "standard",
    "julian",
    "360_day",
    "all_leap",
    "proleptic_gregorian",
    "gregorian",
    "365_day",
    "366_day",
]
YEARS = [1981, 1999, 1896, 1900, 2000, 2100, 1, 4, 100, 999, 1600]


def stamp(y, m, d, cal, hour=0):
    return cftime.datetime(y, m, d, hour, calendar=cal)


def months(start_year, start_month, n):
    out = []
    y, m = start_year, start_month
    for _ in range(n):
        out.append((y, m))
        m += 1
        if m == 13:
            y, m = y + 1, 1
    return out


def days(start, n, cal):
    """n consecutive (y, m, d) from start=(y, m, d)."""
    y, m, d = start
    out = []
    for _ in range(n):
        out.append((y, m, d))
        d += 1
        if d > model.month_days(y, m, cal):
            d, m = 1, m + 1
            if m == 13:
                m, y = 1, y + 1
    return out


def day_of_year(y, m, d, cal):
    return sum(model.month_days(y, k, cal) for k in range(1, m)) + d


def ordinal(y, m, d, cal, y0):
    """Days since 1 January y0 (y >= y0)."""
    return sum(model.year_days(k, cal) for k in range(y0, y)) + day_of_year(y, m, d, cal) - 1


def middle_year(first, last, cal):
    y0 = first[0]
    half = (ordinal(*first, cal, y0) + ordinal(*last, cal, y0)) / 2.0
    y = y0
    while half >= model.year_days(y, cal):
        half -= model.year_days(y, cal)
        y += 1
    return y


# ---- axes for trends -------------------------------------------------------------
DAY_NS = 86400 * 10**9
UNITS = ["ns", "s", "min", "hr", "day", "mon", "yr"]
AXES = ["number", "datetime64"] + CALENDARS[:6]


def cal_of(kind):
    return {
        "datetime64": "proleptic_gregorian",
        "gregorian": "standard",
        "365_day": "noleap",
        "366_day": "all_leap",
    }.get(kind, kind)


def _length(y, cal):
    if y == 1582 and cal == "standard":
        return 355
    return model.year_days(y, cal)


def days_since_1970(y, m, d, cal):
    n = day_of_year(y, m, d, cal) - 1
    if y == 1582 and cal == "standard":
        raise ValueError(y)
    if y >= 1970:
        return n + sum(_length(k, cal) for k in range(1970, y))
    return n - sum(_length(k, cal) for k in range(y, 1970))


def elapsed_ns(q, cal):
    """Nanoseconds since 1970-01-01 of (y, m, d, hour), as an exact integer."""
    y, m, d, h = q
    return (days_since_1970(y, m, d, cal) * 24 + h) * 3600 * 10**9


def axis(kind, n, spacing, year):
    """(labels, positions): positions in ns since 1970, or the numbers themselves."""
    cal = cal_of("noleap" if kind == "number" else kind)
    if spacing == "day":
        q = [(*p, 12) for p in days((year, 1, 20), n, cal)]
    elif spacing == "month":
        q = [(y, m, 15, 12) for y, m in months(year, 2, n)]
    elif spacing == "year":
        q = [(year + k, 7, 2, 0) for k in range(n)]
    elif spacing == "hour":
        p = days((year, 2, 27), n // 8 + 1, cal)
        q = [(*p[k // 8], 3 * (k % 8)) for k in range(n)]
    else:  # uneven
        p = days((year, 2, 20), n * n + 2, cal)
        q = [(*p[k * k], (7 * k) % 24) for k in range(n)]
    if kind == "number":
        scale = {"day": 1.0, "month": 0.5, "year": 100.0, "hour": 1e-3, "uneven": 1.0}[spacing]
        pos = [(k * k if spacing == "uneven" else k) * scale - 2.5 for k in range(n)]
        return np.array(pos), np.array(pos)
    pos = [elapsed_ns(p, cal) for p in q]
    if kind == "datetime64":
        lab = np.array(
            [f"{y:04d}-{m:02d}-{d:02d}T{h:02d}:00" for y, m, d, h in q], dtype="datetime64[ns]"
        )
    else:
        # the classes that reading a file gives (xarray cannot fit along plain datetimes)
        cls = {
            "noleap": cftime.DatetimeNoLeap,
            "365_day": cftime.DatetimeNoLeap,
            "all_leap": cftime.DatetimeAllLeap,
            "366_day": cftime.DatetimeAllLeap,
            "360_day": cftime.Datetime360Day,
            "julian": cftime.DatetimeJulian,
            "standard": cftime.DatetimeGregorian,
            "gregorian": cftime.DatetimeGregorian,
            "proleptic_gregorian": cftime.DatetimeProlepticGregorian,
        }[kind]
        lab = np.array([cls(*p) for p in q], dtype=object)
    return lab, np.array([np.longdouble(p) for p in pos])
