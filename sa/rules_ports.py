"""C25: the two I/O ports fulfil one contract"""
import ast

from .pev import Obj, Tok, Unknown, Wrong
from .q import exc_name
from .rule import rule
from .rules_dates import Times, returned
from .rules_mpi import attempt
from .terms import mk

SELF = mk("self")
PORTS = {"Nio": "PyNioPort", "netCDF4": "NetCDF4PyPort"}


def io_module(ctx):
    return [m for n, m in ctx.p.modules.items() if n.endswith("climIO")][0]


def port(ctx, lib):
    return ctx.p.cls("climIO." + PORTS[lib])


def public(c):
    return {n: f for n, f in c.methods.items() if not n.startswith("_")}


@rule("C25", "signatures", 9)
def signatures(ctx):
    """Both ports define the same public operations, with the same parameters and defaults."""
    a, b = [public(port(ctx, lib)) for lib in PORTS]
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            ctx.bad(n, "only one of the ports has %s" % n, ctx.place((a.get(n) or b.get(n))))
            continue
        sig = [(ast.unparse(f.node.args)) for f in (a[n], b[n])]
        ctx.check(n, sig[0] == sig[1], "%s takes (%s) in one port and (%s) in the other" % (n, sig[0], sig[1]), ctx.place(b[n]))


def flags(ctx):
    """{name of the flag: library}: true after the import, false where it fails"""
    out = {}
    for s in io_module(ctx).tree.body:
        if not isinstance(s, ast.Try):
            continue
        libs = [a.name for x in s.body if isinstance(x, ast.Import) for a in x.names]

        def given(body):
            return {t.id: x.value.value for x in body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) for t in x.targets if isinstance(t, ast.Name)}
        yes = dict(given(s.body), **given(s.orelse))
        for h in s.handlers:
            no = given(h.body)
            for n in yes:
                if n in no and len(libs) == 1:
                    out[n] = (libs[0], yes[n], no[n], s)
    return out


class Ports(Times):
    flags = {}
    have = {}

    def ev(self, t, env=None):
        e = self.env if env is None else env
        if t not in e and t.op == "global" and t.args[-1] in self.flags:
            lib, yes, no, s = self.flags[t.args[-1]]
            return yes if self.have[lib] else no
        return super().ev(t, env)


@rule("C25", "choice", 12)
def choice(ctx):
    """Whatever is installed: the port asked for (or PyNIO before netCDF4) is what is obtained, and where it is missing or unknown the program ends with an error."""
    fn = ctx.p.func("climIO.init_climIO")
    r = ctx.run(fn)
    fl = flags(ctx)
    place = ctx.place(fn)
    for n, (lib, yes, no, s) in fl.items():
        ctx.check("flag %s" % lib, bool(yes) and not no, "%s is %r with the library and %r without" % (n, yes, no), place)
    if sorted(v[0] for v in fl.values()) != sorted(PORTS):
        ctx.unknown("flags", "which libraries are installed is not kept in flags", place)
        return
    arg = fn.node.args.args[0].arg
    for nio in (True, False):
        for nc in (True, False):
            for override in (None, "Nio", "netCDF4", "other"):
                key = "%s with %s" % (override, " and ".join([x for x, y in (("Nio", nio), ("netCDF4", nc)) if y]) or "nothing")

                def run():
                    made = lambda n: lambda *a, **k: Obj(n, label=n)
                    w = Ports(r.an, {mk("arg", arg): override}, calls=dict({c: made(c) for c in PORTS.values()}, print=lambda *a, **k: None))
                    w.flags, w.have = fl, {"Nio": nio, "netCDF4": nc}
                    left = None
                    for e in r.events:
                        if e.kind in ("exit", "raise"):
                            for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                                left = left or (w.ev(e.val, x) if e.kind == "exit" and e.val is not None else "raises %s" % exc_name(e.val) if e.kind == "raise" else 0)
                    want = ("PyNioPort" if nio else "NetCDF4PyPort" if nc else None) if override is None else PORTS[override] if {"Nio": nio, "netCDF4": nc}.get(override) else None
                    if left is not None:
                        ok = want is None and (left != 0 and not (isinstance(left, str) and left.startswith("raises") and override in PORTS))
                        return ctx.check(key, ok, "ends with %s" % (left,), place)
                    k, v = returned(r, w)
                    if want is None:
                        return ctx.bad(key, "no error, %r" % (v,), place)
                    name = getattr(v, "kind", None) or str(getattr(v, "name", "")).split(".")[-1]
                    ctx.check(key, name == want, "obtained is %r instead of %s" % (v, want), place)
                attempt(ctx, key, run, place)


# ------------------------------------------------------------------- effects on files
def values_of(label, shape, cast=None):
    """an array of which what is kept is whose values it has, and in which type"""
    v = Obj("values", label=label, shape=shape, size=1, ndim=len(shape), cast=cast)

    def get(i):
        if i is Ellipsis or i == slice(None) or i == () or i == (slice(None),):
            return v
        if i == 0 and shape:
            return values_of(label + "[0]", shape[1:], cast)
        raise Unknown("values[%r]" % (i,))
    v.fields.update(__getitem__=get, astype=lambda t, **k: values_of(label, shape, typed(t)), __len__=shape[0] if shape else 0)
    return v


def typed(t):
    return t.fields["label"] if isinstance(t, Obj) else t


def variable(name, typ, dims, atts, rank, fill=None):
    """a variable of a file, in both libraries"""
    v = Obj("Variable", label=name, name=name, dims=tuple(dims), set=dict(atts), stored=[], rank=rank, ndim=rank, shape=(3,) * rank, dimensions=tuple(dims),
            attributes=dict(atts), _fill=fill)
    v.fields.update(typecode=lambda: typ, datatype=typ, dtype=typ, ncattrs=lambda: list(v.fields["set"]), getncattr=lambda n: v.fields["set"][n],
                    setncattr=lambda n, x: v.fields["set"].__setitem__(n, x), setncatts=lambda d: v.fields["set"].update(d),
                    get_value=lambda: values_of(name, ()), __getitem__=lambda i: values_of(name, (3,) * rank) if i in (slice(None), Ellipsis, ()) else Wrong,
                    assign_value=lambda x: v.fields["stored"].append((None, x)), __getattribute__=lambda n: v.fields["set"][n],
                    put=lambda i, x: v.fields["stored"].append((i, x)))
    return v


def dataset(name, atts=(), dims=(), variables=()):
    f = Obj("File", label=name, set=dict(atts), attributes=dict(atts), dimensions=dict(dims), made={}, variables={v.fields["label"]: v for v in variables}, new={}, options={})

    def create(n, t, d=(), **k):
        if n not in f.fields["new"]:
            f.fields["new"][n] = variable(n, t, d, {}, len(d), k.get("fill_value"))
        v = f.fields["new"][n]
        if v.fields["typecode"]() != t or v.fields["dims"] != tuple(d):
            raise Wrong("%s is created twice" % n)
        f.fields["options"][n] = k
        return v
    f.fields.update(ncattrs=lambda: list(f.fields["set"]), getncattr=lambda n: f.fields["set"][n], setncattr=lambda n, x: f.fields["set"].__setitem__(n, x),
                    setncatts=lambda d: f.fields["set"].update(d), create_dimension=lambda n, s: f.fields["made"].__setitem__(n, s),
                    createDimension=lambda n, s=None: f.fields["made"].__setitem__(n, s), create_variable=create, createVariable=create, close=lambda: None)
    return f


class Effects(Ports):
    """what the operations do to the files, in the order of the program"""

    def missing(self, obj, name):
        if obj.kind in ("options", "File", "Variable") and name in obj.fields.get("set", {}):
            return obj.fields["set"][name]
        raise Unknown("%s of %r" % (name, obj))

    def perform(self, r):
        for e in sorted(r.events, key=lambda e: e.seq):
            if e.kind not in ("call", "setattr", "setitem", "raise"):
                continue
            if e.kind == "setitem" and e.obj.op == "alloc":
                continue
            for x in self.happens(e.loops or (), e.guards, self.env, e.seq):
                if e.kind == "raise":
                    raise Wrong("%s" % exc_name(e.val))
                if e.kind == "call":
                    if e.res is not None:
                        try:
                            self.ev(e.res, x)
                        except Unknown:
                            # what is not known is not a change of a file
                            if e.f.op == "attr" and isinstance(self.soft(e.f.args[0], x), Obj):
                                raise
                    continue
                o = self.ev(e.obj, x)
                if o is self.me and e.kind == "setattr":
                    self.me.fields[e.name] = self.ev(e.val, x)
                    continue
                if not isinstance(o, Obj) or o.kind not in ("File", "Variable", "options"):
                    raise Unknown("a change of %r" % (o,))
                if e.kind == "setattr":
                    o.fields["set"][e.name] = self.ev(e.val, x)
                else:
                    o.fields["put"](self.ev(e.name, x) if hasattr(e.name, "op") else e.name, self.ev(e.val, x))


def performed(ctx, lib, op, values, template=None, level=0, opened=None):
    c = port(ctx, lib)
    fn = c.find_method(op)
    key = ("port", lib, op)
    if key not in ctx.cache:
        ctx.cache[key] = ctx.run(fn, cls=c)
    r = ctx.cache[key]
    ps = [a.arg for a in fn.node.args.args][1:]
    defaults = dict(zip(ps[len(ps) - len(fn.node.args.defaults):], [ast.literal_eval(d) for d in fn.node.args.defaults]))
    env = {mk("arg", p): v for p, v in zip(ps, values)}
    for p, v in defaults.items():
        env.setdefault(mk("arg", p), v)
    me = Obj(c.name, label=c.name, compressionLevel=level)
    env[SELF] = me
    opt = Obj("options", label="options", set={})
    log = []

    def open_file(name, mode="r", *a, **k):
        log.append((name, mode, a, k))
        if opened is None or name not in opened:
            raise Unknown("opening %r" % (name,))
        return opened[name]
    calls = {"options": lambda: opt, "open_file": open_file, "Dataset": open_file, "setattr": setat, "getattr": lambda o, n, *d: o.fields["set"].get(n, *d) if isinstance(o, Obj) else Wrong,
             "print": lambda *a, **k: None, "dtype": lambda t: t, "len": lambda x: x.fields["__len__"] if isinstance(x, Obj) else len(x)}
    w = Effects(r.an, env, calls=calls)
    w.flags, w.have, w.me = {}, {}, me
    w.perform(r)
    del log[:]
    k, v = returned(r, w)
    if k == "raises":
        raise Wrong(v)
    return v, me, opt, log, fn


def setat(o, n, v):
    if not isinstance(o, Obj):
        raise Unknown("setattr of %r" % (o,))
    o.fields["set"][n] = v


FORMATS = {"netcdf4c": ("classic4", 1), "netcdf4": ("classic4", 0), "NetCDF4Classic": ("classic4", 0), "netcdf": ("classic3", 0), "Classic": ("classic3", 0),
           "netcdfLarge": ("offset64", 0), "something": ("classic4", 0)}
FORMATS.update({"netcdf4c%d" % n: ("classic4", n) for n in range(1, 10)})
KIND = {"NetCDF4Classic": "classic4", "NETCDF4_CLASSIC": "classic4", "Classic": "classic3", "NETCDF3_CLASSIC": "classic3", "64BitOffset": "offset64", "NETCDF3_64BIT": "offset64",
        "NETCDF3_64BIT_OFFSET": "offset64"}


@rule("C25", "formats", 2 * 2 * 16)
def formats(ctx):
    """For each format name both ports open the new file for writing in the same format with the same compression, and with its history; a file created before has no
    influence."""
    for lib in PORTS:
        for name, (kind, level) in FORMATS.items():
            for hist in (None, "H"):
                key = "%s %s%s" % (lib, name, "" if hist is None else " with history")

                def run():
                    f = dataset("n.nc")
                    vals = ["n.nc", name] + ([hist] if hist else [])
                    v, me, opt, log, fn = performed(ctx, lib, "create_file", vals, opened={"n.nc": f}, level=7)
                    place = ctx.place(fn)
                    if v is not f or not log:
                        return ctx.bad(key, "returned is %r" % (v,), place)
                    _, mode, a, k = log[-1]
                    fmt = opt.fields["set"].get("Format") if lib == "Nio" else k.get("format", a[2] if len(a) > 2 else "NETCDF4")
                    lev = opt.fields["set"].get("CompressionLevel", 0) if lib == "Nio" else me.fields.get("compressionLevel")
                    if isinstance(fmt, Tok) or isinstance(lev, Tok):
                        raise Unknown("%r" % (fmt,))
                    ctx.check(key + " mode", mode == "w" and (lib != "Nio" or k.get("options", a[0] if a else None) is opt), "opened with %r" % ((mode, sorted(k)),), place)
                    ctx.check(key + " format", KIND.get(fmt) == kind, "the format is %r" % (fmt,), place)
                    ctx.check(key + " compression", isinstance(lev, int) and lev == level, "the compression level is %r" % (lev,), place)
                    h = k.get("history", f.fields["set"].get("history"))
                    ctx.check(key + " history", h == "H" if hist else isinstance(h, str) and h, "the history is %r" % (h,), place)
                attempt(ctx, key, run, ctx.place(port(ctx, lib).methods["create_file"]))


ATTS = {"units": "K", "name": "N", "_FillValue": 1e20, "axis": "T"}


@rule("C25", "variables", 8)
def variables(ctx):
    """A created variable has the name, type and dimensions that were asked for and each of the attributes under its own name; what is asked about a variable
    of a file is its type, its dimensions in order and all of its attributes."""
    for lib in PORTS:
        for atts in (ATTS, {}, {"units": "1"}):
            for level in (0, 4) if lib == "netCDF4" else (0,):
                key = "%s create with %d attributes%s" % (lib, len(atts), " compressed" if level else "")

                def run():
                    f = dataset("n.nc")
                    v, me, opt, log, fn = performed(ctx, lib, "create_var", [f, "x", "f", ["time", "lat"], dict(atts)], level=level)
                    place = ctx.place(fn)
                    n = f.fields["new"]
                    if sorted(n) != ["x"]:
                        return ctx.bad(key, "created are %s" % sorted(n), place)
                    var = n["x"]
                    got = dict(var.fields["set"])
                    if lib == "netCDF4" and var.fields["_fill"] is not None:
                        got.setdefault("_FillValue", var.fields["_fill"])
                    ctx.check(key, v is var and got == atts, "its attributes are %s" % (got,), place)
                    ctx.check(key + " kind", var.fields["typecode"]() == "f" and var.fields["dims"] == ("time", "lat"), "created with %s %s" % (var.fields["typecode"](), var.fields["dims"]), place)
                    if lib == "netCDF4":
                        ctx.check(key + " fill", "_FillValue" not in var.fields["set"], "the fill value is set after the variable is created", place)
                        o = f.fields["options"]["x"]
                        ctx.check(key + " compression", (o.get("complevel") == level and o.get("zlib") is True) if level else not o.get("zlib"), "created with %s" % (o,), place)
                attempt(ctx, key, run, ctx.place(port(ctx, lib).methods["create_var"]))

        def info():
            f = dataset("t.nc", variables=[variable("x", "f", ("time", "lat"), ATTS, 2)])
            v, me, opt, log, fn = performed(ctx, lib, "get_var_info", [f, "x"])
            ok = isinstance(v, tuple) and len(v) == 3 and v[0] == "f" and list(v[1]) == ["time", "lat"] and v[2] == ATTS
            ctx.check("%s info" % lib, ok, "described as %s" % (v,), ctx.place(fn))
        attempt(ctx, "%s info" % lib, info, ctx.place(port(ctx, lib).methods["get_var_info"]))


@rule("C25", "definition", 8)
def definition(ctx):
    """A file defined from a template has each attribute of it (its history extended), each dimension with its size and time unlimited, the variable and the
    metadata variables with their types, dimensions and attributes, and the values of the latter."""
    for lib in PORTS:
        for metas in ((), ("lat",), ("lat", "p0", "time")):
            key = "%s with %d variables" % (lib, len(metas))

            def run():
                length = (lambda n: n) if lib == "Nio" else (lambda n: Obj("Dimension", label=n, __len__=n, size=n, isunlimited=lambda: False))
                tvars = [variable("T", "d", ("time", "lat"), ATTS, 2), variable("lat", "f", ("lat",), {"units": "deg"}, 1), variable("p0", "d", (), {}, 0),
                         variable("time", "d", ("time",), {"units": "days", "calendar": "noleap"}, 1), variable("other", "f", ("lat",), {}, 1)]
                t = dataset("t.nc", {"title": "X", "history": "before", "source": "S"}, {"time": length(12), "lat": length(5), "lev": length(1)}, tvars)
                f = dataset("n.nc")
                v, me, opt, log, fn = performed(ctx, lib, "define_file", [f, "tas", list(metas), "t.nc", "T"], opened={"t.nc": t})
                place = ctx.place(fn)
                got, made, new = f.fields["set"], f.fields["made"], f.fields["new"]
                ctx.check(key + " attributes", set(got) == {"title", "history", "source"} and got["title"] == "X" and got["source"] == "S" and str(got["history"]).endswith("before"),
                          "its attributes are %s" % (got,), place)
                ctx.check(key + " dimensions", made == {"time": None, "lat": 5, "lev": 1}, "its dimensions are %s" % (made,), place)
                ctx.check(key + " variables", set(new) == {"tas"} | set(metas), "its variables are %s" % sorted(new), place)
                for n in new:
                    src = {x.fields["label"]: x for x in tvars}[("T" if n == "tas" else n)]
                    a = dict(new[n].fields["set"])
                    if new[n].fields["_fill"] is not None:
                        a.setdefault("_FillValue", new[n].fields["_fill"])
                    same = new[n].fields["typecode"]() == src.fields["typecode"]() and new[n].fields["dims"] == src.fields["dims"] and a == src.fields["set"]
                    ctx.check("%s %s" % (key, n), same, "%s is created as %s %s with %s" % (n, new[n].fields["typecode"](), new[n].fields["dims"], a), place)
                    st = new[n].fields["stored"]
                    if n == "tas":
                        ctx.check("%s %s values" % (key, n), not st, "values of %s are written" % n, place)
                    else:
                        whole = st and all((i in (slice(None), Ellipsis, None, ())) and isinstance(x, Obj) and x.fields["label"] == n for i, x in st)
                        ctx.check("%s %s values" % (key, n), bool(whole), "of %s is written %s" % (n, st), place)
                ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], dict) and v[1] is f and set(v[0]) == set(new) and all(v[0][n] is new[n] for n in new)
                ctx.check(key + " returned", ok, "returned is %r" % (v,), place)
                ctx.check(key + " template", all(m == "r" for _, m, _, _ in log), "the template is opened with %s" % (log,), place)
            attempt(ctx, key, run, ctx.place(port(ctx, lib).methods["define_file"]))


@rule("C25", "writing", 40)
def writing(ctx):
    """For scalars, arrays and time, with and without an index, for each type: what is stored are the values, without loss, at that time index (by default the first);
    reading gives the variable at the index, or all of it, of a file opened for reading."""
    for lib in PORTS:
        for typ in ("f", "d", "i", "h"):
            for name, dims, shape in (("x", ("time", "lat"), (3,)), ("x", ("time", "lat", "lon"), (3, 3)), ("s", ("time",), ()), ("time", ("time",), (1,)), ("time", ("time",), ())):
                for index in (None, 0, 5):
                    key = "%s %s %s%s%s" % (lib, typ, name, len(shape), "" if index is None else " at %d" % index)

                    def run():
                        var = variable(name, typ, dims, {}, len(dims))
                        other = variable("o", typ, dims, {}, len(dims))
                        x = values_of("given", shape)
                        v, me, opt, log, fn = performed(ctx, lib, "write_var", [{name: var, "o": other}, x, name] + ([index] if index is not None else []))
                        place = ctx.place(fn)
                        st = var.fields["stored"]
                        if len(st) != 1 or other.fields["stored"]:
                            return ctx.bad(key, "stored is %s" % (st,), place)
                        at, val = st[0]
                        first = at[0] if isinstance(at, tuple) and at else at
                        rest = at[1:] if isinstance(at, tuple) else ()
                        k = index or 0
                        where = (first == k or isinstance(first, slice) and first == slice(k, k + 1)) and all(i in (slice(None), Ellipsis) for i in rest)
                        ctx.check(key + " index", where and len(rest) < max(len(dims), 1), "stored at %r" % (at,), place)
                        if not isinstance(val, Obj) or val.kind != "values":
                            raise Unknown("%r" % (val,))
                        lab = "given[0]" if name == "time" and shape else "given"
                        ctx.check(key + " values", val.fields["label"] in (lab, "given") and val.fields["cast"] in (None, typ), "stored is %s as %s" % (val.fields["label"], val.fields["cast"]), place)
                    attempt(ctx, key, run, ctx.place(port(ctx, lib).methods["write_var"]))
        for whole in (None, False, True):
            key = "%s read %s" % (lib, "all" if whole else "one")

            def read():
                got = []
                var = variable("x", "f", ("time", "lat"), {}, 2)
                var.fields["__getitem__"] = lambda i: got.append(i) or values_of("x", ())
                f = dataset("t.nc", variables=[var, variable("y", "f", (), {}, 0)])
                v, me, opt, log, fn = performed(ctx, lib, "read_slice", [f, "x", 7] + ([whole] if whole is not None else []))
                ctx.check(key, isinstance(v, Obj) and v.fields["label"] == "x" and got and all(i in ((slice(None), Ellipsis) if whole else (7,)) for i in got), "read is %s" % (got,), ctx.place(fn))
            attempt(ctx, key, read, ctx.place(port(ctx, lib).methods["read_slice"]))

        def opens():
            f = dataset("t.nc")
            v, me, opt, log, fn = performed(ctx, lib, "open_file", ["t.nc"], opened={"t.nc": f})
            ctx.check("%s open" % lib, v is f and log and all(m == "r" for _, m, _, _ in log), "opened with %s" % (log,), ctx.place(fn))
        attempt(ctx, "%s open" % lib, opens, ctx.place(port(ctx, lib).methods["open_file"]))
