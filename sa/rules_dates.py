"""C26: ordering files by time, and the gaps found on the way"""
from .pev import Obj, Unknown, Wrong
from .q import exc_name
from .rule import rule
from .rules_mpi import attempt
from .rules_names import Names
from .terms import mk

PATHS = ("__get_time_info__", "__check_date_alignment__", "__check_date_alignment_in_file__")
# months of these calendars, and what a number in these units means
MONTHS = {"360_day": [30] * 12, "noleap": [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], "all_leap": [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]}
UNITS = {"days since 1-1-1 0:0:0": (1.0, 0.0), "days since 0005-01-01": (1.0, 4.0), "hours since 0003-01-01": (1 / 24.0, 2.0)}


def days(units, cal, x):
    scale, years = UNITS[units]
    return x * scale + years * sum(MONTHS[cal])


def number(units, cal, d):
    """the day number in these units"""
    scale, years = UNITS[units]
    return (d - years * sum(MONTHS[cal])) / scale


def calendar_date(d, cal):
    year = sum(MONTHS[cal])
    y, rest = divmod(d, year)
    m = 0
    while rest >= MONTHS[cal][m]:
        rest -= MONTHS[cal][m]
        m += 1
    day = int(rest)
    h = int(round((rest - day) * 24 * 60)) // 60
    return int(y) + 1, m + 1, day + 1, h


def day_of(y, m, cal):
    """the day number of the first of a month"""
    return (y - 1) * sum(MONTHS[cal]) + sum(MONTHS[cal][:m - 1])



def dated(d, cal):
    y, m, day, h = calendar_date(d, cal)
    text = "DATE %d %d %d %d" % (y, m, day, h)
    tt = lambda: Obj("struct_time", label=text, tm_year=y, tm_mon=m, tm_mday=day, tm_hour=h, __getitem__=lambda i: (y, m, day, h, 0, 0, 0, 0, 0)[i])
    return Obj("datetime", label=text, year=y, month=m, day=day, hour=h, __str__=text, timetuple=tt)


def known(f):
    def g(*a, **k):
        if not all(isinstance(x, (int, float)) for x in list(a) + list(k.values())):
            raise Unknown("%r" % (a,))
        return f(*a, **k)
    return g


def isclose(a, b, rtol=1e-05, atol=1e-08, rel_tol=None, abs_tol=0.0):
    if rel_tol is not None:
        return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
    return abs(a - b) <= atol + rtol * abs(b)


def library():
    def num2date(x, u, calendar=None, **kw):
        u, calendar = units_of(u, calendar)
        if not isinstance(x, (int, float)):
            raise Unknown("date of %r" % (x,))
        return dated(days(u, calendar, x), calendar)

    def units_of(u, calendar):
        if isinstance(u, Obj) and u.kind == "Unit":
            u, calendar = u.fields["label"], u.fields["calendar"]
        if calendar is None:
            calendar = "all_leap"          # not the calendar the values were written in
        if u in UNITS and calendar in ("standard", "gregorian", "proleptic_gregorian", "julian", "365_day", "366_day", "all_leap"):
            return u, calendar
        if u not in UNITS or calendar not in MONTHS:
            raise Unknown("units %r %r" % (u, calendar))
        return u, calendar

    def unit(u, calendar=None):
        u, calendar = units_of(u, calendar)
        me = Obj("Unit", label=u, calendar=calendar, __str__=u)

        def convert(x, other, **kw):
            if not isinstance(other, Obj):
                other = unit(other, calendar)
            if other.fields["calendar"] != calendar:
                raise Wrong("conversion between calendars")
            if not isinstance(x, (int, float)):
                raise Unknown("conversion of %r" % (x,))
            return number(other.fields["label"], calendar, days(u, calendar, x))
        me.fields["convert"] = convert
        me.fields["num2date"] = lambda x: dated(days(u, calendar, x), calendar)
        return me

    def parse(s, *a, **k):
        if not (isinstance(s, str) and s.startswith("DATE ")):
            raise Unknown("parsing %r" % (s,))
        y, m, d, h = [int(x) for x in s.split()[1:]]
        tt = lambda: Obj("struct_time", label=s, tm_year=y, tm_mon=m, tm_mday=d, tm_hour=h, __getitem__=lambda i: (y, m, d, h, 0, 0, 0, 0, 0)[i])
        return Obj("datetime", label=s, year=y, month=m, day=d, hour=h, __str__=s, timetuple=tt)
    return {"num2date": num2date, "Unit": unit, "parse": parse, "abs": known(abs), "fabs": known(abs), "absolute": known(abs), "round": known(round), "isclose": known(isclose),
            "print": lambda *a, **k: None}


def array(values):
    """a column of times, or pairs of bounds"""
    a = Obj("array", label="times", size=len(values), shape=(len(values),))

    def get(i):
        if isinstance(i, tuple):
            i = i + (slice(None),) * (2 - len(i)) if values and isinstance(values[0], tuple) else i
            rows = values[i[0]]
            if len(i) == 1:
                return array(rows) if isinstance(i[0], slice) else rows
            if isinstance(i[0], slice):
                cols = [r[i[1]] for r in rows]
                return array(cols)
            return rows[i[1]] if not isinstance(i[1], slice) else array(list(rows[i[1]]))
        try:
            v = values[i]
        except IndexError:
            raise Wrong("index out of range")
        return array(v) if isinstance(i, slice) else array(list(v)) if isinstance(v, tuple) else v
    a.fields["__getitem__"] = get
    a.fields["__len__"] = len(values)
    a.fields["values"] = values
    return a


class Times(Names):
    limit = 60

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t not in env and t.op in ("len", "nonempty"):
            v = self.ev(t.args[0], env)
            if isinstance(v, Obj) and "__len__" in v.fields:
                return v.fields["__len__"] if t.op == "len" else v.fields["__len__"] > 0
        return super().ev(t, env)


def returned(r, w):
    """('value', v) or ('raises', name)"""
    for e in sorted((e for e in r.events if e.kind in ("return", "raise") and e.fn is r.fn), key=lambda e: e.seq):
        for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
            return ("raises", exc_name(e.val)) if e.kind == "raise" else ("value", w.ev(e.val, x) if e.val is not None else None)
    return "value", w.ev(r.value)


def axis(kind, cal, start, n, gap=None):
    """(lower bounds in days, upper bounds) of n steps from a start; a gap before step number gap"""
    lo, hi = [], []
    if kind == "mon":
        y, m = start
        for k in range(n):
            if gap is not None and k == gap[0]:
                m += gap[1]
            y, m = y + (m - 1) // 12, (m - 1) % 12 + 1
            y2, m2 = (y, m + 1) if m < 12 else (y + 1, 1)
            lo.append(float(day_of(y, m, cal)))
            hi.append(float(day_of(y2, m2, cal)))
            m += 1
        return lo, hi
    step = {"day": 1.0, "5day": 5.0, "6hour": 0.25, "year": float(sum(MONTHS[cal]))}[kind]
    d = start
    for k in range(n):
        if gap is not None and k == gap[0]:
            d += gap[1] * step
        lo.append(d)
        d += step
        hi.append(d)
    return lo, hi


def content(units, cal, lo, hi, bounds):
    """an open file with this time axis"""
    num = lambda d: number(units, cal, d)
    vs = {"time": array([num(x) for x in lo] if not bounds else [num((x + y) / 2) for x, y in zip(lo, hi)])}
    att = {"units": units, "calendar": cal}
    if bounds:
        vs["tb"] = array([(num(x), num(y)) for x, y in zip(lo, hi)])
        att["bounds"] = "tb"
    io = Obj("port", label="port", get_var_info=lambda f, v: ("d", ("time",), dict(att)) if v == "time" else Wrong)
    return Obj("file", label="file", variables=vs), io


def pieces(ctx):
    if "dates" not in ctx.cache:
        out = {}
        for n in PATHS:
            fn = ctx.p.func("mapdates." + n)
            out[n] = (fn, ctx.run(fn))
        ctx.cache["dates"] = out
    return ctx.cache["dates"]


def world(r, values):
    names = [a.arg for a in r.fn.node.args.args]
    if len(names) < len(values):
        raise Unknown("parameters of %s" % r.fn.name)
    return Times(r.an, {mk("arg", n): v for n, v in zip(names, values)}, calls=library())


def described(ctx, units, cal, lo, hi, bounds):
    fn, r = pieces(ctx)["__get_time_info__"]
    k, v = returned(r, world(r, content(units, cal, lo, hi, bounds)))
    if k == "raises" or not isinstance(v, tuple) or len(v) != 2 or not isinstance(v[1], dict):
        raise Wrong("%s" % (v,))
    return v


KINDS = ("6hour", "day", "5day", "mon", "year")
START = {"mon": (6, 11)}


def status(ctx, name, *values):
    fn, r = pieces(ctx)[name]
    k, v = returned(r, world(r, values))
    if k == "raises":
        raise Wrong("%s" % v)
    return v


@rule("C26", "description", 60)
def description(ctx):
    """For every kind of step, both calendars, both units, with and without bounds: the number of times, units and calendar of the file are described as they are,
    and the first and the last step in one common unit, so that files order by their description."""
    fn, r = pieces(ctx)["__get_time_info__"]
    for kind in KINDS:
        for cal in ("360_day", "noleap"):
            for units in sorted(UNITS)[1:]:
                for bounds in (False, True):
                    key = "%s %s %s%s" % (kind, cal, units.split()[0], " bounds" if bounds else "")

                    def run():
                        s = START.get(kind, 6.0 * sum(MONTHS[cal]))
                        lo, hi = axis(kind, cal, s, 4)
                        ave, d = described(ctx, units, cal, lo, hi, bounds)
                        lo2, hi2 = axis(kind, cal, (s[0], s[1] + 4) if kind == "mon" else hi[-1], 3)
                        ave2, d2 = described(ctx, sorted(UNITS)[2 if units == sorted(UNITS)[1] else 1], cal, lo2, hi2, bounds)
                        ctx.check(key + " count", d.get("cnt") == 4 and d2.get("cnt") == 3, "%s steps are counted as %s" % ((4, 3), (d.get("cnt"), d2.get("cnt"))), ctx.place(fn))
                        ctx.check(key + " order", ave < ave2, "the later file comes first", ctx.place(fn))
                        ctx.check(key + " units", d.get("units") == units and d.get("calendar") == cal, "described in %s %s" % (d.get("units"), d.get("calendar")), ctx.place(fn))
                    attempt(ctx, key, run, ctx.place(fn))


@rule("C26", "inside", 60)
def inside(ctx):
    """A description of an axis without gaps passes the check inside the file; one with a gap (or steps that overlap) at any place does not."""
    fn, r = pieces(ctx)["__check_date_alignment_in_file__"]
    for kind in KINDS:
        for cal in ("360_day", "noleap"):
            for units in sorted(UNITS)[1:]:
                for bounds in (False, True):
                    s = START.get(kind, 6.0 * sum(MONTHS[cal]))
                    # a number with a scale is exact for steps of whole hours only in one direction
                    for gap in (None, (1, 1), (3, 1), (4, 2), (3, -1)) + (((3, 12), (3, 24)) if kind == "mon" else ()):
                        if kind == "mon" and gap and not bounds and gap[0] == 2:
                            continue
                        key = "%s %s %s%s %s" % (kind, cal, units.split()[0], " bounds" if bounds else "", "gap %s of %s" % gap if gap else "contiguous")

                        def run():
                            lo, hi = axis(kind, cal, s, 5, gap)
                            ave, d = described(ctx, units, cal, lo, hi, bounds)
                            v = status(ctx, "__check_date_alignment_in_file__", d)
                            if gap is None:
                                return ctx.check(key, v == 0, "no gap, but the status is %r" % (v,), ctx.place(fn))
                            ctx.check(key, isinstance(v, int) and v != 0, "a gap gives the status %r" % (v,), ctx.place(fn))
                        attempt(ctx, key, run, ctx.place(fn))


@rule("C26", "between", 60)
def between(ctx):
    """Descriptions of contiguous files pass the check between files, whatever their units; those of files with a gap or an overlap anywhere do not."""
    fn, r = pieces(ctx)["__check_date_alignment__"]
    for kind in KINDS:
        for cal in ("360_day", "noleap"):
            for bounds in (False, True):
                for where in (None, (4, 1), (8, 1), (8, -1)) + (((4, 12), (8, 24)) if kind == "mon" else ((4, 0.5), (8, 4), (4, 365))):
                    key = "%s %s%s %s" % (kind, cal, " bounds" if bounds else "", "gap %s of %s" % where if where else "contiguous")

                    def run():
                        s = START.get(kind, 6.0 * sum(MONTHS[cal]))
                        lo, hi = axis(kind, cal, s, 12, where)
                        us = sorted(UNITS)[1:] + sorted(UNITS)[1:2]
                        infos = {}
                        for k in range(3):
                            infos[float(k), k] = described(ctx, us[k], cal, lo[4 * k:4 * k + 4], hi[4 * k:4 * k + 4], bounds)[1]
                        v = status(ctx, "__check_date_alignment__", sorted(infos), infos)
                        if where is None:
                            return ctx.check(key, v == 0, "no gap, but the status is %r" % (v,), ctx.place(fn))
                        ctx.check(key, isinstance(v, int) and v != 0, "a gap between files gives the status %r" % (v,), ctx.place(fn))
                    attempt(ctx, key, run, ctx.place(fn))


class Order(Times):
    """the descriptions are numbered in the order in which they are stored"""

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t not in env and t.op == "len" and t.args[0].op == "alloc":
            pos = [self.files.index(v) for k, v in env.items() if getattr(k, "op", None) == "elem" and k.args[0] is self.source]
            recs = self.an.recs.get(t.args[0], ())
            # one entry is added in each pass under a key that contains the number of those before
            if len(pos) == 1 and len(recs) == 1 and recs[0].op in ("set", "append") and tuple(recs[0].loops) == (self.source,):
                return pos[0]
        return super().ev(t, env)


SCENES = (("one", [5.0]), ("in order", [1.0, 2.0, 3.0]), ("reversed", [3.0, 2.0, 1.0]), ("mixed", [2.0, 3.0, 1.0]), ("same mean", [2.0, 1.0, 2.0]), ("two", [2.0, 1.0]))


@rule("C26", "ordering", 30)
def ordering(ctx):
    """Every file is listed once, in the order of the means, with its own count; the checks inside and between files are applied to all of them, and whatever
    they find is the status."""
    fn = ctx.p.func("mapdates.get_files_in_order")
    r = ctx.run(fn, opaque=PATHS + ("init_climIO", "open_file", "close_file"))
    ps = [a.arg for a in fn.node.args.args]
    place = ctx.place(fn)
    for scene, means in SCENES:
        n = len(means)
        for alignment in (True, False):
            for fault in (None,) + tuple(range(n)) + (("between",) if n > 1 else ()):
                key = "%s%s%s" % (scene, "" if alignment else " unchecked", "" if fault is None else " fault between" if fault == "between" else " fault in %d" % fault)

                def run():
                    files = ["/d%d/f%d.nc" % (k, k) for k in range(n)]
                    infos = {f: {"cnt": 10 + k, "time": f} for k, f in enumerate(files)}
                    asked, pairs = [], []

                    def info(f, io=None):
                        if not isinstance(f, Obj):
                            raise Unknown("describing %r" % (f,))
                        return means[files.index(f.fields["label"])], infos[f.fields["label"]]

                    def in_file(d):
                        f = [f for f in files if infos[f] is d]
                        if not f:
                            raise Unknown("checking %r" % (d,))
                        asked.append(f[0])
                        return 1 if isinstance(fault, int) and files.index(f[0]) == fault else 0

                    def between(keys, d):
                        if not isinstance(d, dict) or not isinstance(keys, (list, tuple)):
                            raise Unknown("checking %r" % (keys,))
                        pairs.append([next((f for f in files if infos[f] is d[k]), None) for k in keys])
                        return 1 if fault == "between" else 0
                    opened = {f: Obj("file", label=f) for f in files}

                    def open_file(*a):
                        f = [x for x in a if isinstance(x, str)]
                        if len(f) != 1 or f[0] not in opened:
                            raise Unknown("opening %r" % (a,))
                        return opened[f[0]]
                    port = Obj("port", label="port", open_file=open_file, close_file=lambda f: None)
                    calls = {"__get_time_info__": info, "__check_date_alignment_in_file__": in_file, "__check_date_alignment__": between,
                             "init_climIO": lambda *a, **k: port, "basename": lambda f: f.split("/")[-1], "Dataset": lambda f, *a: opened[f],
                             "sorted": lambda x, **k: sorted(x), "print": lambda *a, **k: None, "NetCDF4PyPort": lambda *a, **k: port}
                    w = Order(r.an, {mk("arg", ps[0]): files, mk("arg", ps[1]): alignment}, calls=calls)
                    w.files, w.source = files, mk("arg", ps[0])
                    for e in r.events:
                        if e.kind == "setitem" and e.obj is not None and e.obj.op != "alloc":
                            for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                                d = w.ev(e.obj, x)
                                if not isinstance(d, dict):
                                    raise Unknown("item of %r" % (d,))
                                d[w.ev(e.name, x) if hasattr(e.name, "op") else e.name] = w.ev(e.val, x)
                    asked.clear(), pairs.clear()
                    k, v = returned(r, w)
                    if k == "raises" or not isinstance(v, tuple) or len(v) != 3:
                        return ctx.bad(key, "returns %r" % (v,), place)
                    names, counts, st = v
                    if fault == "between" or isinstance(fault, int) and alignment:
                        return ctx.check(key, isinstance(st, int) and st != 0, "the status is %r" % (st,), place)
                    if st != 0:
                        return ctx.bad(key, "the status is %r" % (st,), place)
                    want = sorted(range(n), key=lambda i: means[i])
                    ctx.check(key + " files", sorted(names) == ["f%d.nc" % i for i in range(n)], "listed are %s" % (names,), place)
                    ctx.check(key + " order", [means[int(x[1])] for x in names] == sorted(means), "the order is %s" % (names,), place)
                    ctx.check(key + " counts", list(counts) == [10 + int(x[1]) for x in names], "the counts of %s are %s" % (names, counts), place)
                    if alignment:
                        ctx.check(key + " inside", set(asked) == set(files), "checked inside are %s" % (asked,), place)
                    if n > 1:
                        ok = pairs and all([means[files.index(f)] for f in p] == [means[i] for i in want] and sorted(p) == files for p in pairs)
                        ctx.check(key + " between", bool(ok), "checked between are %s" % (pairs,), place)
                attempt(ctx, key, run, place)
