"""the writing node, followed for given files: what it keeps, what it opens, over what it goes"""
from .engine import SELF
from .pev import Obj, Unknown, Wrong
from .q import exc_name, name_of
from .rule import rule
from .rules_graph import Graph
from .rules_mpi import attempt
from .terms import mk, show


def raised(g, r, env=None):
    """the error with which it ends, or None"""
    for e in sorted(r.raises(), key=lambda e: e.seq):
        if any(x[0] == "try" for x in e.ctx or ()):
            raise Unknown("an error that may be caught")
        if g.happens(e.loops or (), e.guards, g.env, e.seq):
            return exc_name(e.val) or "an error"
    return None


def described(name, variables, dims):
    ds = {d: Obj("DimensionDesc", label=d, name=d, size=s, unlimited=False, stringlen=False) for d, s in dims.items()}
    vs = {v: Obj("VariableDesc", label=v, name=v, dimensions={d: ds[d] for d in names}, attributes={}, datatype="float") for v, names in variables.items()}
    return Obj("FileDesc", label=name, name=name, _name=name, variables=vs, dimensions=ds, attributes={}, deflate=1, shuffle=True, format="NETCDF4")


def source(label, kind="ValidateNode"):
    return Obj(kind, label=label, __bases__=("FlowNode",), inputs=[])


@rule("C12", "what-is-written", 8)
def kept(ctx):
    """Made with results for a described file, the writing node keeps all of them, in this order, but those whose name starts with an underscore, which are not written; it accepts only
    validated results of variables of the file."""
    c = ctx.p.cls("flownodes.WriteNode")
    init = c.methods["__init__"]
    r = ctx.run(init, cls=c, opaque={"_autoparse_filename_"})
    r.an.state = r.state
    args = [a.arg for a in init.node.args.args][1:]
    where = ctx.place(init)
    f = {"a": ("t",), "b": ("t", "x"), "_h": ("t",), "x": ("x",), "a_b": ("x",), "b_": ("x",)}
    cases = [("one", ["a"], "ValidateNode", ["a"]), ("all", ["b", "a", "x"], "ValidateNode", ["b", "a", "x"]), ("underscore within", ["a_b", "b_"], "ValidateNode", ["a_b", "b_"]), ("hidden", ["_h", "a"], "ValidateNode", ["a"]), ("hidden among others", ["a", "_h", "b"], "ValidateNode", ["a", "b"]),
             ("only hidden", ["_h"], "ValidateNode", []), ("none", [], "ValidateNode", []), ("not in the file", ["a", "other"], "ValidateNode", "refused"), ("not validated", ["a"], "MapNode", "refused")]
    for what, labels, kind, want in cases:
        def run():
            fd = described("out.nc", f, {"t": 10, "x": 4})
            me = Obj("WriteNode", label="me", __bases__=("FlowNode",))
            env = {SELF: me, mk("arg", args[0]): fd, mk("arg", args[1]): [source(n, kind) for n in labels]}
            g = Graph(r.an, env, calls={"_autoparse_filename_": lambda *a: "out.nc"})
            err = raised(g, r)
            if err is not None or want == "refused":
                ctx.check(what, (err is not None) == (want == "refused"), "%s: %s" % (", ".join(labels), "refused with %s" % err if err else "accepted"), where)
                return
            got = g.ev(r.an.getattr(SELF, "_inputs"))
            got = [x.fields["label"] for x in got]
            ctx.check(what, got == want, "given %s it writes %s, should be %s" % (labels, got, want), where)
        attempt(ctx, what, run, where)


@rule("C10", "whole-extent", 5)
def extent(ctx):
    """The chunks are taken from, and mirrored within, the sizes of all dimensions of all the variables that are written."""
    from .rules_write import execute
    r = execute(ctx)
    used = [e for e in r.calls() if e.f is not None and (name_of(e.f) or show(e.f)).split(".")[-1].strip("<>") in ("_chunk_iter_", "_invert_dims_") and e.args]
    if not used:
        ctx.unknown("chunks", "no chunks are taken", ctx.place(r.fn))
    for what, vs in (("one", {"a": ("t", "x")}), ("many", {"a": ("t", "z", "y", "x")}), ("several", {"a": ("t", "x"), "b": ("t", "y", "x"), "y": ("y",), "s": ()}), ("no dimensions", {"s": ()}), ("unrelated", {"x": ("x",), "t": ("t",)})):
        def run():
            dims = {"t": 10, "x": 4, "y": 3, "z": 2}
            fd = described("out.nc", vs, dims)
            nodes = [source(v) for v in vs]
            me = Obj("WriteNode", label="me", inputs=nodes, _inputs=nodes, _filedesc=fd, _file=None, _idims=set(), _label="out.nc", label_="out.nc", _hidden_inputs=[])
            g = Graph(r.an, {SELF: me, mk("arg", "chunks"): {}, mk("arg", "history"): False, mk("arg", "deflate"): None})
            want = {d: dims[d] for ns in vs.values() for d in ns}
            for e in used:
                got = dict(g.ev(e.args[0], dict(g.env, **{"#at": e.seq})))
                ctx.check(what, got == want, "for %s it goes over %r, should be %r" % (sorted(vs), got, want), e)
        attempt(ctx, what, run, ctx.place(r.fn))


# ---------------------------------------------------------------------- what is inherited from the data
def part(text, n):
    """the text before (0) or after (1) the word since, if it says something"""
    ps = (text or "?").split("since")
    s = ps[n].strip() if len(ps) > n else ""
    return None if s in ("", "?", "unknown") else s


def descriptor(attributes):
    v = Obj("VariableDesc", label="v", name="v", dimensions={}, attributes=attributes, datatype="float", definition="x")
    v.fields.update(units=lambda: part(attributes.get("units"), 0), refdatetime=lambda: part(attributes.get("units"), 1), calendar=lambda: attributes.get("calendar"), units_attr=lambda: attributes.get("units"))
    return v


def information(units, calendar, name="f(x)"):
    timed = "since" in units
    u = Obj("Unit", label="units", __str__=units, calendar=calendar, is_time_reference=lambda: timed, __bases__=())
    return Obj("PhysArray", label="info", units=u, name=name, dimensions=(), positive=None)


class Built(Graph):
    """what is stored in a given mapping is there from then on"""

    def item(self, b, i, env):
        if isinstance(b, Obj) and "info" in b.fields and i.op == "const":
            return b.fields["info"]
        return super().item(b, i, env)


def replay(r, make):
    """perform the stores into given mappings in the order in which they happen"""
    done = []
    for e in sorted(r.events, key=lambda e: e.seq):
        if e.kind not in ("setitem", "delitem", "call", "raise") or e.kind == "call" and not (e.f is not None and e.f.op == "attr" and e.f.args[1] in ("update", "setdefault", "pop", "clear")):
            continue
        g = make()
        for x in g.happens(e.loops or (), e.guards, g.env, e.seq):
            if e.kind == "raise":
                raise Wrong("raises %s" % exc_name(e.val))
            if e.kind == "call":
                o = g.ev(e.f.args[0], x)
                if isinstance(o, dict):
                    getattr(o, e.f.args[1])(*[g.ev(a, x) for a in e.args], **{k: g.ev(v, x) for k, v in e.kw})
                continue
            o = g.ev(e.obj, x)
            if isinstance(o, dict):
                if e.kind == "setitem":
                    o[g.ev(e.name, x)] = g.ev(e.val, x)
                else:
                    del o[g.ev(e.name, x)]
                done.append(e)
    return done


INHERITED = [
    # declared attributes, units and calendar of the data -> attributes after
    ("unknown time units", {"units": "?"}, "hours since 1850-01-01", "noleap", {"units": "hours since 1850-01-01", "calendar": "noleap"}),
    ("unknown reference date", {"units": "days since ?"}, "hours since 1850-01-01", None, {"units": "days since 1850-01-01"}),
    ("unknown period", {"units": "? since 2000-01-01", "calendar": "julian"}, "hours since 1850-01-01", "julian", {"units": "hours since 2000-01-01", "calendar": "julian"}),
    ("all declared", {"units": "days since 2000-01-01", "calendar": "julian"}, "hours since 1850-01-01", "noleap", {"units": "days since 2000-01-01", "calendar": "julian"}),
    ("calendar not declared", {"units": "days since 2000-01-01"}, "hours since 1850-01-01", "noleap", {"units": "days since 2000-01-01", "calendar": "noleap"}),
    ("period only", {"units": "days"}, "hours since 1850-01-01", None, {"units": "days since 1850-01-01"}),
    ("no units declared", {"title": "x"}, "hours since 1850-01-01", "noleap", {"title": "x"}),
    ("unknown units", {"units": "unknown"}, "m", None, {"units": "m"}),
    ("empty units", {"units": ""}, "m", None, {"units": "m"}),
    ("other units", {"units": "km", "a": 1}, "m", None, {"units": "km", "a": 1}),
    ("no units, no time", {}, "m", None, {}),
    ("history declared", {"units": "km", "history": "mine"}, "m", None, {"units": "km", "history": "mine"}),
]


@rule("C12", "inherited", 12)
def inherited(ctx):
    """For given declared attributes and given units and calendar of the data, the output variable has the declared attributes, the units and the calendar of the data where they are asked for (as
    unknown, or by a part of the units that is not given) and the name of the data as its history."""
    c = ctx.p.cls("flownodes.ValidateNode")
    init = c.methods["__init__"]
    r = ctx.run(init, cls=c)
    args = [a.arg for a in init.node.args.args][1:]
    where = ctx.place(init)
    for what, given, units, calendar, want in INHERITED:
        def run():
            attributes = dict(given)
            v = descriptor(attributes)
            data = Obj("MapNode", label="data", __bases__=("FlowNode",), info=information(units, calendar), inputs=[])
            me = Obj("ValidateNode", label="me", __bases__=("FlowNode",), attributes=attributes, _vdesc=v)
            replay(r, lambda: Built(r.an, {SELF: me, mk("arg", args[0]): v, mk("arg", args[1]): data}))
            full = dict({"history": "f(x)"}, **want)
            ctx.check(what, attributes == full, "declared %r, data in %s (%s): %r, should be %r" % (given, units, calendar, attributes, full), where)
        attempt(ctx, what, run, where)
