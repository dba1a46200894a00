"""The description of input files followed for given files."""
from collections import OrderedDict

from .pev import Made, Obj, Unknown, Wrong
from .rule import rule
from .rules_graph import Graph
from .rules_mpi import attempt
from .rules_phys import SELF
from .terms import mk

MAKERS = ("DimensionDesc", "VariableDesc", "FileDesc")


class Headers(Graph):
    def ev(self, t, env=None):
        if t.op in ("len", "nonempty"):
            v = self.ev(t.args[0], env)
            if isinstance(v, Obj) and "__len__" in v.fields:
                return v.fields["__len__"] if t.op == "len" else v.fields["__len__"] > 0
        return super().ev(t, env)


class File:
    def __init__(self, fmt, dims, variables, **attributes):
        self.fmt, self.dims, self.variables, self.attributes = fmt, OrderedDict(dims), OrderedDict(variables), attributes

    def opened(self):
        def dim(n, s, u):
            return Obj("Dimension", label=n, name=n, __len__=s, size=s, isunlimited=lambda: u)

        def var(n, ds, t, at):
            return Obj("Variable", label=n, name=n, dimensions=tuple(ds), dtype=t, datatype=t, ndim=len(ds), ncattrs=lambda: list(at), getncattr=lambda a: at[a])
        at = self.attributes
        return Obj("File", label="file", file_format=self.fmt, data_model=self.fmt, dimensions=OrderedDict((n, dim(n, *x)) for n, x in self.dims.items()),
                   variables=OrderedDict((n, var(n, *x)) for n, x in self.variables.items()), ncattrs=lambda: list(at), getncattr=lambda a: at[a])


GIVEN = {
    "one file": {"a.nc": File("NETCDF3_CLASSIC", {"t": (0, True), "x": (4, False)}, {"v": (("t", "x"), "f4", {"units": "m", "scale": 0})}, title="A", empty="")},
    "other files": {"a.nc": File("NETCDF4", {"t": (3, True), "x": (4, False), "unused": (9, False)}, {"v": (("t", "x"), "f4", {"units": "m"}), "t": (("t",), "f8", {"units": "days since 2000", "calendar": "noleap"})}, title="A", only="here"),
                    "d/b.nc": File("NETCDF3_64BIT_OFFSET", {"x": (5, False), "y": (1, False), "t": (7, False)}, {"w": (("y", "x"), "i4", {}), "u": (("t",), "f4", {"a": 1})}, other=2),
                    "c.nc": File("NETCDF4_CLASSIC", {}, {"s": ((), "f8", {"units": "K"})})},
    "text": {"a.nc": File("NETCDF4", {"m": (3, False), "n": (8, False), "k": (2, True)}, {"names": (("k", "m", "n"), "S1", {"long": "names"}), "v": (("m",), "f4", {}), "w": (("n",), "f4", {})}),
             "b.nc": File("NETCDF4", {"n": (8, False), "p": (6, False)}, {"v": (("n", "p"), "f8", {}), "c": ((), "S1", {})})},
    "no file": {},
}


def wanted(files):
    out = []
    for fn, f in files.items():
        dims = {}
        vs = []
        for n, (ds, t, at) in f.variables.items():
            for d in ds:
                if d not in dims:
                    s, u = f.dims[d]
                    dims[d] = (d, s, u, t == "S1" and d == ds[-1])
            vs.append((n, t, [dims[d] for d in ds], dict(at)))
        out.append((fn, f.fmt, vs, dict(f.attributes)))
    return out


def arguments(m, names):
    if not isinstance(m, Made):
        raise Unknown("%r" % (m,))
    return dict(zip(names, m.args), **m.kw)


def described(files):
    out = []
    for x in files:
        a = arguments(x, ("name", "format", "deflate", "variables", "attributes"))
        vs = []
        for v in a.get("variables", ()):
            b = arguments(v, ("name", "datatype", "dimensions", "definition", "attributes"))
            ds = []
            for d in b.get("dimensions", ()):
                c = arguments(d, ("name", "size", "unlimited", "stringlen"))
                ds.append((c.get("name"), c.get("size"), bool(c.get("unlimited")), bool(c.get("stringlen"))))
            if b.get("definition") is not None:
                raise Wrong("a variable of a file has a definition")
            vs.append((b.get("name"), b.get("datatype"), ds, dict(b.get("attributes") or {})))
        out.append((a.get("name"), a.get("format"), vs, dict(a.get("attributes") or {})))
    return out


@rule("C16", "described-for-given-files", 4)
def input_described(ctx):
    """For given files the description that is made of them is followed: each file with its format and attributes, its variables in order with type, attributes and dimensions in order, and each dimension with
    its own size in that file, whether it is unlimited, and whether it is the length of a text."""
    c = ctx.p.cls("datasets.InputDatasetDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c, opaque=("DatasetDesc.__init__", "FileDesc.__init__", "VariableDesc.__init__", "DimensionDesc.__init__"))
    r.an.state = r.state
    where = ctx.place(f)
    done = [e for e in r.events if e.kind == "call" and e.f is not None and e.f.op in ("attr", "super", "bound") and dict(e.kw or ()).get("files") is not None]
    if len(done) != 1:
        ctx.unknown("base", "%d calls with the files" % len(done), where)
        return
    e = done[0]
    for what, files in GIVEN.items():
        def run():
            def maker(n):
                return lambda *a, **k: Made(n, a, k)
            calls = {"Dataset": lambda n, *a, **k: files[n].opened(), "dtype": lambda x: x}
            calls.update({n: maker(n) for n in MAKERS})
            g = Headers(r.an, {mk("arg", "filenames"): list(files), mk("arg", "name"): "d"}, calls=calls)
            got, want = described(g.ev(dict(e.kw)["files"])), wanted(files)
            diff = [(a, b) for a, b in zip(got, want) if a != b]
            ctx.check(what, got == want, "described is %s" % (("%s, should be %s" % diff[0])[:300] if diff else "%d files of %d" % (len(got), len(want))), where)
        attempt(ctx, what, run, where)


# ---------------------------------------------------------------------- one descriptor
def dimension(label, size, unlimited, stringlen):
    return Obj("DimensionDesc", label=label, name=label, _name=label, size=size, _size=size, unlimited=unlimited, _unlimited=unlimited, stringlen=stringlen, _stringlen=stringlen, is_set=lambda: size is not None)


STATES = [(None, False, False), (0, True, False), (4, False, False), (4, True, False), (7, False, True), (None, True, True)]


def left(ctx, r, env, names):
    r.an.state = r.state
    g = Graph(r.an, env)
    return tuple(g.ev(r.an.getattr(SELF, n)) for n in names)


@rule("C16", "dimension-for-given-states", 40)
def dimension_states(ctx):
    """For given states of two dimensions, taking one over from the other is followed: size, limit and string flag are those of the other whatever they were before; a dimension that is unset has no size and is
    not unlimited; one is set exactly if it has a size."""
    c = ctx.p.cls("datasets.DimensionDesc")
    names = ("size", "unlimited", "stringlen")
    f = c.find_method("set")
    dd = mk("arg", f.params()[1])
    r = ctx.run(f, cls=c)
    u = ctx.run(c.find_method("unset"), cls=c)
    i = ctx.run(c.find_method("is_set"), cls=c)
    for a in STATES:
        for b in STATES:
            key = "%s from %s" % (a, b)

            def run():
                got = left(ctx, r, {SELF: dimension("a", *a), dd: dimension("b", *b)}, names)
                ctx.check(key, got == b, "becomes %s" % (got,), f)
            attempt(ctx, key, run, ctx.place(f))

        def run():
            got = left(ctx, u, {SELF: dimension("a", *a)}, names[:2])
            ctx.check("%s unset" % (a,), got == (None, False), "unset is %s" % (got,), u.fn)
            i.an.state = i.state
            s = Graph(i.an, {SELF: dimension("a", *a)}).ev(i.value)
            ctx.check("%s is set" % (a,), s is (a[0] is not None), "%s is %s set" % (a, "" if s else "not"), i.fn)
        attempt(ctx, "%s unset" % (a,), run, ctx.place(u.fn))


UNITS = [("m", None), ("days since 2000-01-01", "noleap"), ("days since 2000-01-01 00:00:00", None), ("1", None), ("?", None), ("? since ?", "noleap"), ("", None), (None, None), (None, "noleap"), ("unknown", None), ("days since ?", "360_day"),
         ("hours since unknown", ""), ("  km ", None), (1, None), ("? since 1850-1-1", "gregorian"), ("days since", None)]


@rule("C12", "units-for-given-attributes", 40)
def units_given(ctx):
    """For given attributes, the units, reference date, calendar and full units of a variable are followed: the words before and after 'since', none if they are missing, '?' or 'unknown', and the full units made of
    the units and calendar attributes."""
    c = ctx.p.cls("datasets.VariableDesc")
    for u, cal in UNITS:
        at = {}
        if u is not None:
            at["units"] = u
        if cal is not None:
            at["calendar"] = cal
        first, _, last = str(u if u is not None else "?").partition("since")
        none = lambda x: None if x.strip() in ("", "?", "unknown") else x.strip()
        want = {"units": none(first), "refdatetime": none(last), "calendar": cal, "cfunits": (u, cal)}
        for m, w in want.items():
            f = c.find_method(m)
            if f is None:
                continue
            key = "%s of %r,%r" % (m, u, cal)

            def run():
                r = ctx.run(f, cls=c)
                r.an.state = r.state
                made = []

                def unit(units=None, calendar=None):
                    made.append((units, calendar))
                    return (units, calendar)
                me = Obj("VariableDesc", label="v", name="v", attributes=dict(at), _attributes=dict(at))
                got = Graph(r.an, {SELF: me}, calls={"Unit": unit}).ev(r.value)
                ctx.check(key, got == w, "is %r, should be %r" % (got, w), f)
            attempt(ctx, key, run, ctx.place(f))


@rule("C16", "files-kept", 2)
def files_kept(ctx):
    """Describing a further file or dataset takes no file away from a variable: nothing is removed from, or put in the place of, the files a variable is in."""
    for n in ("DatasetDesc", "FileDesc", "InputDatasetDesc", "OutputDatasetDesc"):
        c = ctx.p.cls("datasets." + n)
        f = c.find_method("__init__")
        r = ctx.run(f, cls=c, opaque=("unique",))
        bad = []
        for e in r.events:
            if e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[1] in ("clear", "pop", "popitem"):
                o = e.f.args[0]
                if o.op == "attr" and o.args[1] in ("files", "_files") and o.args[0] is not SELF:
                    bad.append(e)
            elif e.kind == "setattr" and e.name in ("files", "_files") and e.obj is not SELF and e.obj.op in ("elem", "item", "sub", "popped", "loop"):
                bad.append(e)
            elif e.kind == "delitem" and e.obj.op == "attr" and e.obj.args[1] in ("files", "_files") and e.obj.args[0] is not SELF:
                bad.append(e)
        ctx.check(n, not bad, "the files of a variable are replaced", bad[0] if bad else f)
