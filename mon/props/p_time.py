"""C01 bracketing, C02 validation and shifting, C03 reading time from netCDF."""

import os
import re
from datetime import datetime, timedelta

import netCDF4 as nc4
import numpy as np

from gridded.time import OutOfTimeRangeError, Time, TimeSeriesError

from .. import gen
from ..core import prop

C01 = prop(
    "C01",
    "seeded time axes (1..1200 stamps, microsecond to multi-year spacing, list/array/Time input) queried at, next to, "
    "between and outside their stamps; a case is non-trivial if at least one query falls strictly between two stamps "
    "or outside the axis; distinct by (axis, queries)",
    ["naive datetimes, as the library documents"],
)


def _as_input(ctx, ts):
    k = ctx.r.randrange(4)
    if k == 0:
        return list(ts)
    if k == 1:
        return np.array(ts)
    if k == 2:
        return tuple(ts)
    return Time(np.array(ts))


@C01.scenario(quick=1500, needs=["out_of_range_seen", "between_stamps", "exact_stamp", "single_stamp_axis"])
def bracketing(ctx):
    ts, style = gen.time_axis(ctx)
    t = Time(_as_input(ctx, ts))
    n = len(ts)
    ctx.check(len(t) == n and list(t) == ts and t.min_time == ts[0] and t.max_time == ts[-1], "axis_contents", n=n)
    for q in gen.time_queries(ctx, ts):
        k, a = gen.bracket(ts, q)
        inside = ts[0] <= q <= ts[-1]
        ctx.check(bool(t.time_in_bounds(q)) == inside, "in_bounds", q=q, first=ts[0], last=ts[-1])
        if inside:
            t.valid_time(q)
        else:
            with ctx.expect_raises(OutOfTimeRangeError, "valid_time_no_error", q=q):
                t.valid_time(q)
        if n == 1:
            ctx.event("single_stamp_axis")
        elif q in ts:
            ctx.event("exact_stamp")
        elif inside:
            ctx.event("between_stamps")
        for ex in (False, True):
            if not inside and not ex and n > 1:
                ctx.event("out_of_range_seen")
                with ctx.expect_raises(OutOfTimeRangeError, "index_no_error", q=q):
                    t.index_of(q)
                with ctx.expect_raises(OutOfTimeRangeError, "alpha_no_error", q=q):
                    t.interp_alpha(q)
                with ctx.expect_raises(OutOfTimeRangeError, "index_no_error_kw", q=q):
                    t.index_of(q, extrapolate=False)
                continue
            i = t.index_of(q, ex) if ctx.r.random() < 0.5 else t.index_of(q, extrapolate=ex)
            al = t.interp_alpha(q, ex) if ctx.r.random() < 0.5 else t.interp_alpha(q, extrapolate=ex)
            ctx.check(int(i) == k and i == int(i), "index", got=i, want=k, q=q, n=n, style=style)
            ctx.check(0.0 <= al <= 1.0, "alpha_range", alpha=al, q=q)
            ctx.close(al, a, "alpha", rtol=1e-9, atol=1e-12, q=q, n=n, style=style)
            # the two answers must name the same instant
            if 0 < i < n:
                back = ts[i - 1] + (ts[i] - ts[i - 1]) * float(al)
                ctx.check(abs((back - q).total_seconds()) <= 2e-6 + 1e-9 * (ts[i] - ts[i - 1]).total_seconds(),
                          "bracket_names_instant", q=q, back=back)
    ctx.check(list(t) == ts, "queries_changed_axis")
    ctx.sig(style, n, ts[0], ts[-1], ctx.r.random())
    ctx.note(axis_first=ts[0], axis_last=ts[-1], n=n)


C02 = prop(
    "C02",
    "seeded axes built with combinations of origin, displacement (timedelta or hours), current and new zone offset, from "
    "list/tuple/array/Time; invalid axes made by swapping, reversing or duplicating stamps; histories of zone changes; "
    "non-trivial if at least one shift or one invalid axis is involved; distinct by (axis, shifts)",
    ["offsets are multiples of a quarter hour (real time zones)"],
)


def _hours(ctx):
    return ctx.r.choice([-12, -8, -7, -3.5, -1, 0, 0.25, 1, 5.5, 5.75, 9, 12.75, 14, ctx.r.randint(-48, 56) / 4])


def _zone_suffix(ctx):
    """a zone suffix as written in CF time units, and its offset in hours"""
    r = ctx.r
    k = r.random()
    if k < 0.25:
        return "", None
    if k < 0.4:
        return r.choice(["Z", "+00:00", " UTC", "-00:00", " Z"]), 0.0
    q = r.choice([r.randint(-48, 56), 4 * r.randint(-12, 14)])
    sign, h, m = "-" if q < 0 else "+", abs(q) // 4, abs(q) % 4 * 15
    forms = ["%s%02d:%02d" % (sign, h, m), "%s%02d%02d" % (sign, h, m), "%s%d:%02d" % (sign, h, m)]
    if m == 0:
        forms.append("%s%02d" % (sign, h))
    return r.choice(["", "", " "]) + r.choice(forms), q / 4


@C02.scenario(quick=1200, needs=["origin", "displacement", "tz_shift"])
def shifts(ctx):
    r = ctx.r
    ts, style = gen.time_axis(ctx, nmax=12, long=False)
    inp = _as_input(ctx, ts)
    kw = {}
    want = list(ts)
    if r.random() < 0.4:
        kw["origin"] = datetime(r.randint(1960, 2060), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), 0, 0,
                                r.choice([0, 0, 250]))
        d = kw["origin"] - want[0]
        want = [x + d for x in want]
        ctx.event("origin")
    tz = None
    if r.random() < 0.6:
        tz = kw["tz_offset"] = _hours(ctx)
        if r.random() < 0.6:
            new = kw["new_tz_offset"] = _hours(ctx)
            want = [x + timedelta(hours=new) - timedelta(hours=tz) for x in want]
            tz = new
            ctx.event("tz_shift")
    disp = None
    if r.random() < 0.5:
        disp = r.choice([timedelta(hours=3), timedelta(days=-400, microseconds=7), timedelta(0), 6, -2.5, timedelta(minutes=7)])
        kw["displacement"] = disp
        dd = disp if isinstance(disp, timedelta) else timedelta(hours=disp)
        want = [x + dd for x in want]
        ctx.event("displacement")
    t = Time(inp, **kw)
    ctx.check(list(t) == want, "shifted_axis", kw=kw, got=list(t)[:3], want=want[:3])
    ctx.check(t.tz_offset == tz, "tz_recorded", got=t.tz_offset, want=tz)
    ctx.check(list(inp) == ts, "caller_data_changed", kw=kw, before=ts[:3], after=list(inp)[:3], type=type(inp).__name__)
    # history of zone changes
    cur = list(want)
    for _ in range(r.randint(0, 4)):
        new = r.choice([None, _hours(ctx), _hours(ctx), _hours(ctx)])
        if new is not None and tz is not None:
            cur = [x + timedelta(hours=new) - timedelta(hours=tz) for x in cur]
        t.tz_offset = new
        tz = new
        ctx.event("tz_history_step")
        ctx.check(list(t) == cur, "tz_history", got=list(t)[:3], want=cur[:3])
        ctx.check(t.tz_offset == tz, "tz_recorded_history", got=t.tz_offset, want=tz)
    if disp is not None:
        with ctx.expect_raises(AttributeError, "displacement_twice"):
            t.displacement = timedelta(hours=1)
    else:
        dd = timedelta(minutes=r.randint(-5000, 5000))
        t.displacement = dd
        cur = [x + dd for x in cur]
        with ctx.expect_raises(AttributeError, "displacement_twice"):
            t.displacement = timedelta(hours=1)
    ctx.check(list(t) == cur, "axis_after_displacement", got=list(t)[:3], want=cur[:3])
    ctx.check(list(inp) == ts, "caller_data_changed_later", before=ts[:3], after=list(inp)[:3], type=type(inp).__name__)
    # an axis derived from this one is independent of it, both ways
    t2 = Time(t, origin=datetime(1990, 1, 1), tz_offset=0, new_tz_offset=5)
    ctx.check(list(t) == cur, "source_time_changed_by_copy", got=list(t)[:3], want=cur[:3])
    keep = list(t2)
    t.tz_offset = 0
    t.tz_offset = 3
    cur = [x + timedelta(hours=3) - timedelta(hours=0 if tz is None else tz) for x in cur]
    ctx.check(list(t) == cur, "tz_roundtrip", got=list(t)[:3], want=cur[:3])
    ctx.check(list(t2) == keep, "copy_follows_source", got=list(t2)[:3], want=keep[:3])
    arr = t.get_time_array()
    arr[0] = datetime(1900, 1, 1)
    ctx.check(list(t) == cur, "get_time_array_not_a_copy")
    # reassigning the data
    new_arr = np.array(ts)
    t.data = new_arr
    t.tz_offset = 0
    ctx.check(list(new_arr) == ts, "assigned_array_changed", after=list(new_arr)[:2], before=ts[:2])
    ctx.sig(sorted(kw.items(), key=str), ts[0], len(ts), type(inp).__name__)


@C02.scenario(quick=600, needs=["duplicate_rejected", "disorder_rejected", "valid_accepted"])
def validation(ctx):
    r = ctx.r
    ts, style = gen.time_axis(ctx, nmin=2, nmax=r.choice([2, 3, 5, 40]))
    Time(list(ts))
    ctx.event("valid_accepted")
    ctx.event("oracle_decisions")
    n = len(ts)
    bad = list(ts)
    i = r.randrange(n - 1)
    bad[i], bad[i + 1] = bad[i + 1], bad[i]
    variants = [("disorder", bad), ("disorder", ts[::-1])]
    if n > 2:
        j, k = sorted(r.sample(range(n), 2))
        far = list(ts)
        far[j], far[k] = far[k], far[j]
        mixed = r.sample(ts, n)
        variants += [("disorder", far)] + [("disorder", mixed)] * (mixed != list(ts))
    dup = list(ts)
    dup.insert(i, ts[i])
    variants.append(("duplicate", dup))
    tail = list(ts) + [ts[-1]]
    variants.append(("duplicate", tail))
    variants.append(("disorder", list(ts) + [ts[0] - gen.US]))
    variants += [("duplicate", [ts[0], ts[0]]), ("duplicate", [ts[0], ts[0], ts[1]]), ("disorder", [ts[1], ts[0]]), ("duplicate", [ts[0]] * n)]
    for kind, v in variants:
        inp = v if r.random() < 0.5 else np.array(v)
        with ctx.expect_raises(TimeSeriesError, "invalid_axis_accepted", how=kind, n=len(v), at=i):
            Time(inp)
        ctx.event(kind + "_rejected")
    with ctx.expect_raises(TypeError, "non_datetime_accepted"):
        Time([1.0, 2.0, 3.0])
    with ctx.expect_raises(ValueError, "new_tz_without_tz"):
        Time(list(ts), new_tz_offset=3)
    # equality is exactly same stamps and same offset
    a, b = Time(list(ts), tz_offset=1), Time(np.array(ts), tz_offset=1)
    ctx.check(a == b and not (a != b), "equal_axes_differ")
    c = list(ts)
    j = r.randrange(n)
    c[j] = c[j] + (gen.US if (j == n - 1 or c[j + 1] - c[j] > gen.US) else 0 * gen.US)
    if c != ts:
        ctx.check(a != Time(c, tz_offset=1), "different_axes_equal", j=j)
    ctx.check(a != Time(list(ts), tz_offset=2), "different_offset_equal")
    zs = [None, 0, -5.5, 1]
    for x in zs:
        for y in zs:
            ctx.check((Time(list(ts), tz_offset=x) == Time(list(ts), tz_offset=y)) == (x == y), "equality_by_offset", offsets=(x, y))
    ctx.check(a != Time(ts[:-1], tz_offset=1), "different_length_equal")
    ctx.sig(style, n, i, ts[0])


C03 = prop(
    "C03",
    "seeded netCDF files: units (days/hours/minutes/seconds) x epoch formats x zone suffixes x calendars x value dtypes x "
    "the ways of naming the time variable x zone overrides; non-trivial when the file carries a zone, a calendar or an override; "
    "distinct by (units, calendar, values, override)",
    ["standard, gregorian, proleptic_gregorian, noleap, all_leap and 360_day calendars (not julian)", "epochs after 1900", "timestamps compared to 1 ms"],
)

UNIT_S = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}


MONTHS = {
    "noleap": [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31],
    "all_leap": [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31],
    "360_day": [30] * 12,
}
MONTHS["365_day"], MONTHS["366_day"] = MONTHS["noleap"], MONTHS["all_leap"]


def _in_calendar(epoch, secs, cal):
    """reference arithmetic in a calendar whose years are all alike; None: no such date in python"""
    mdays = MONTHS[cal]
    n = sum(mdays)
    doy = sum(mdays[: epoch.month - 1]) + epoch.day - 1
    total_us = round(((epoch.year * n + doy) * 86400 + epoch.hour * 3600 + epoch.minute * 60 + epoch.second) * 10**6 + epoch.microsecond + secs * 10**6)
    day, rem = divmod(total_us, 86400 * 10**6)
    y, d = divmod(day, n)
    m = 0
    while d >= mdays[m]:
        d -= mdays[m]
        m += 1
    try:
        return datetime(y, m + 1, d + 1) + timedelta(microseconds=rem)
    except ValueError:
        return None


@C03.scenario(quick=500, thorough=6000, needs=["tz_in_units", "fractional_epoch", "override", "noleap", "all_leap", "360_day", "no_such_date", "by_datavar", "new_tz"])
def from_netcdf(ctx):
    r = ctx.r
    unit = r.choice(list(UNIT_S))
    epoch = datetime(r.choice([1950, 1970, 2000, 2011, 2020, 2024]), r.choice([1, 2, 3, 6, 12]), r.choice([1, 27, 28, 15]), r.choice([0, 0, 6, 23]),
                     r.choice([0, 0, 30]), 0)
    sfx, off = _zone_suffix(ctx)
    sep = r.choice(["T", " "])
    clock = epoch.strftime("%H:%M:%S")
    how = r.random()
    if how < 0.1:
        clock += r.choice([".0", ".00", ".000"])
    elif how < 0.2:
        epoch += timedelta(milliseconds=500)
        clock += r.choice([".5", ".500"])
        ctx.event("fractional_epoch")
    elif how < 0.3:
        clock = clock[:-3]
    units = "%s since %s%s%s%s" % (unit, epoch.strftime("%Y-%m-%d"), sep, clock, sfx)
    if off is not None:
        ctx.event("tz_in_units")
    cal = r.choice([None, None, "standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "all_leap", "366_day", "360_day"])
    n = r.choice([1, 2, 3, 5, 24]) if "time" not in ctx.big else r.randint(50, 400)
    dt = r.choice(["f8", "i4", "f8", "i8", "f4"])
    start = r.choice([0, 1, 58, 59, 60, 365, 800])
    step = r.choice([1, 2, 7])
    scale = UNIT_S["days"] // UNIT_S[unit] if r.random() < 0.6 else 1
    if dt == "f4":  # whole numbers that float32 holds exactly
        unit, scale = r.choice(["days", "hours"]), 1
        units = "%s since %s%s%s%s" % (unit, epoch.strftime("%Y-%m-%d"), sep, clock, sfx)
    vals = (start + step * np.arange(n)) * scale
    if dt == "f8" and r.random() < 0.5:
        vals = vals + 0.25
    secs = [float(v) * UNIT_S[unit] for v in vals]
    if cal in MONTHS:
        ctx.event({365: "noleap", 366: "all_leap", 360: "360_day"}[sum(MONTHS[cal])])
        want = [_in_calendar(epoch, s, cal) for s in secs]
        if r.random() < 0.2:
            cal = cal.capitalize()
    else:
        want = [epoch + timedelta(seconds=s) for s in secs]
    path = os.path.join(ctx.tmp(), "t.nc")
    how = r.choice(["varname", "datavar_name", "datavar_obj", "attr"])
    tname = r.choice(["time", "ocean_time", "time", "bulk_time2"])
    if how in ("varname", "attr") and r.random() < 0.5:
        tname = r.choice(["t", "record", "ocean_t"])  # only an attribute or the caller can tell
    with nc4.Dataset(path, "w") as ds:
        if r.random() < 0.4:  # another axis in the same file
            ctx.event("two_axes")
            ds.createDimension("wind_time", 2)
            v = ds.createVariable("wind_time", "f8", ("wind_time",))
            v[:] = [5, 9]
            v.units = "hours since 1999-01-01 00:00:00"
            w = ds.createVariable("wind", "f8", ("wind_time",))
            w[:] = 0
            w.time = "wind_time"
        ds.createDimension(tname, n)
        ds.createDimension("x", 3)
        v = ds.createVariable(tname, dt, (tname,))
        v[:] = vals
        v.units = units
        if cal:
            v.calendar = cal
        d = ds.createVariable("temp", "f8", (tname, "x"))
        d[:] = 0
        e = ds.createVariable("other", "f8", (tname, "x"))
        e[:] = 0
        e.time = tname
        st = ds.createVariable("static", "f8", ("x",))
        st[:] = 0
        sc = ds.createVariable("scalar", "f8", ())
        sc[:] = 0
    if None in want:
        ctx.event("no_such_date")
        with ctx.expect_raises(ValueError, "impossible_date_read", calendar=cal):
            Time.from_netCDF(filename=path, varname=tname)
        ctx.sig("no_such_date", units, cal, vals.tolist())
        return
    kw = {}
    ds = None
    if how == "varname":
        kw.update(filename=path, varname=tname)
    elif how == "datavar_name":
        kw.update(filename=path, datavar="temp")
        ctx.event("by_datavar")
    elif how == "attr":
        kw.update(filename=path, datavar="other")
        ctx.event("by_datavar")
    else:
        ds = nc4.Dataset(path)
        kw.update(dataset=ds, datavar=ds["temp"])
        ctx.event("by_datavar")
    tz = off if off is not None else 0
    ov = r.random()
    if ov < 0.15:
        kw["tz_offset"] = r.choice(["Naive", "naive", "NAIVE"])
        tz = None
        ctx.event("override")
    elif ov < 0.4:
        tz = kw["tz_offset"] = _hours(ctx)
        ctx.event("override")
    if tz is not None and r.random() < 0.4:
        new = kw["new_tz_offset"] = _hours(ctx)
        want = [x + timedelta(hours=new) - timedelta(hours=tz) for x in want]
        old_tz, tz = tz, new
        ctx.event("new_tz")
    if r.random() < 0.15:
        org = datetime(r.choice([1980, 2030]), 2, 3, r.randint(0, 23), r.choice([0, 17]))
        kw["origin"] = org
        k = org - (want[0] if "new_tz_offset" not in kw else want[0] - timedelta(hours=kw["new_tz_offset"]) + timedelta(hours=old_tz))
        want = [x + k for x in want]
        ctx.event("origin")
    if r.random() < 0.2:
        kw["displacement"] = timedelta(hours=r.randint(-100, 100))
        want = [x + kw["displacement"] for x in want]
    if r.random() < 0.2:
        kw["tz_offset_name"] = "my zone"
    try:
        t = Time.from_netCDF(**kw)
        ctx.check(len(t) == n, "number_of_stamps", got=len(t), want=n)
        err = max(abs((a - b).total_seconds()) for a, b in zip(t, want))
        ctx.check(err < 1e-3, "stamps", err=err, units=units, calendar=cal, got=list(t)[:3], want=want[:3], how=how)
        ctx.check(t.tz_offset == tz, "tz_offset", got=t.tz_offset, want=tz, units=units, how=how)
        if "tz_offset_name" in kw:
            ctx.check(t.tz_offset_name == "my zone", "tz_name")
        elif tz is not None and "new_tz_offset" not in kw and t.tz_offset_name not in ("UTC", "GMT"):
            mm = re.fullmatch(r"([+-])(\d\d):(\d\d)", t.tz_offset_name)
            named = mm and (int(mm[2]) + int(mm[3]) / 60) * (-1 if mm[1] == "-" else 1)
            ctx.check(named == tz, "tz_name_of_offset", got=t.tz_offset_name, want=tz, units=units)
        elif tz is not None and "new_tz_offset" not in kw:
            ctx.check(tz == 0, "tz_name_of_offset", got=t.tz_offset_name, want=tz, units=units)
        ctx.check(all(isinstance(x, datetime) for x in t), "stamp_type", types=[type(x).__name__ for x in t][:2])
        if how == "datavar_obj":
            for nm in ("static", "scalar"):
                c = Time.from_netCDF(dataset=ds, datavar=nm)
                ok = len(c) == 1 and c.interp_alpha(datetime(1900, 1, 1)) == 0.0 and c.index_of(datetime(2100, 1, 1)) == 0
                ctx.check(ok, "static_variable_is_constant_in_time", var=nm)
    finally:
        if ds is not None:
            ds.close()
    ctx.sig(units, cal, dt, n, start, step, scale, how, sorted(k for k in kw), tz, str(kw.get('displacement')))
    ctx.note(units=units, calendar=cal)
