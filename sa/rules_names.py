"""C32: names that carry the first and last time"""
from .pev import Obj, Steps, Tok, Unknown, Wrong
from .q import exc_name, name_of
from .rule import rule, term
from .rules_mpi import attempt
from .terms import mk, show

SELF = mk("self")


class Names(Steps):
    def text(self, t, env):
        if t.op == "join":
            sep, xs = self.ev(t.args[0], env), self.ev(t.args[1], env)
            if not isinstance(sep, str) or not isinstance(xs, (list, tuple)) or not all(isinstance(x, str) for x in xs):
                raise Unknown("join of %r" % (xs,))
            return sep.join(xs)
        parts = t.args[0] if t.args and isinstance(t.args[0], tuple) else t.args
        return "".join(x if isinstance(x, str) else self.shown(self.ev(x, env)) for x in parts)

    @staticmethod
    def shown(v):
        if isinstance(v, Obj) and "__str__" in v.fields:
            return v.fields["__str__"]
        if isinstance(v, (Tok, Obj)):
            raise Unknown("text of %r" % v)
        return str(v)

    def call(self, t, env):
        n = name_of(t.args[0])
        n = n.split(".")[-1] if n else None
        if n == "str" and len(t.args[1]) == 1:
            return self.shown(self.ev(t.args[1][0], env))
        return super().call(t, env)

    def missing(self, obj, name):
        raise Unknown("%s of %r" % (name, obj))


def times(label, n, units):
    """n time values of a variable, in the order of the file"""
    def arr(vals):
        if not isinstance(vals, list):
            return Obj("time", label=vals, units=units, data=Obj("data", label=vals, item=lambda: Obj("value", label=vals)), item=lambda: Obj("value", label=vals))
        data = Obj("data", label=vals, size=len(vals), shape=(len(vals),))
        data.fields["__getitem__"] = lambda i: pick(vals, i, lambda v: data if isinstance(v, list) else Obj("value", label=v))
        a = Obj("array", label=vals, units=units, data=data, shape=(len(vals),), size=len(vals))
        a.fields["__getitem__"] = lambda i: pick(vals, i, arr)
        return a

    def pick(vals, i, f):
        if i is Ellipsis or i == ():
            return f(vals)
        if not isinstance(i, (int, slice)) or isinstance(i, bool):
            raise Unknown("item %r" % (i,))
        try:
            return f(vals[i])
        except IndexError:
            raise Wrong("index out of range")
    return arr(["%s.%d" % (label, k) for k in range(n)])


def unit(name, calendar, ref):
    return Obj("Unit", label=name, calendar=calendar, is_time_reference=lambda: ref, __str__=name)


def variable(label, units, attributes=None, dims=("t",)):
    u = unit(*units)
    return Obj("VariableDesc", label=label, attributes=dict(attributes or {}), dimensions={d: Obj("DimensionDesc", label=d) for d in dims}, cfunits=lambda: u,
               units=lambda: u.fields["__str__"], calendar=lambda: u.fields["calendar"])


DAYS, HOURS, PLAIN = ("days since 2001-01-01", "noleap", True), ("hours since 1850-01-01", "360_day", True), ("1", None, False)


def node(label, n, units):
    x = times(label, n, unit(*units))
    return Obj("ValidateNode", label=label, **{"__getitem__": x.fields["__getitem__"]})


def plan():
    """(key, variables, hidden, inputs (label, length, units), designated, expected variable)"""
    v = variable
    t, h = DAYS, HOURS
    yield "time variable", [v("x", PLAIN), v("time", t)], ["time"], [], None, "time"
    for n in ("time1", "time2", "time3"):
        yield "variable %s" % n, [v("x", PLAIN), v(n, PLAIN, dims=())], [n], [], None, n
    yield "time units", [v("x", PLAIN), v("days", h, dims=("d",))], ["days"], [], None, "days"
    yield "bounds are not time", [v("tb", h, dims=("d", "b")), v("days", t, dims=("d",))], ["tb", "days"], [], None, "days"
    yield "standard name", [v("x", PLAIN, {"standard_name": "height"}), v("when", PLAIN, {"standard_name": "time"})], ["x", "when"], [], None, "when"
    yield "axis", [v("x", PLAIN, {"axis": "X"}), v("when", PLAIN, {"axis": "T"})], ["x", "when"], [], None, "when"
    yield "designated", [v("time", t), v("mid", h)], ["time", "mid"], [], "mid", "mid"
    yield "designated and hidden", [v("time", t), v("_mid", h)], ["time"], ["_mid"], "_mid", "_mid"
    yield "several", [v("days", h), v("time", t)], ["days", "time"], [], None, "time"
    yield "only one given", [v("time1", t), v("time2", h)], ["time2"], [], None, "time2"
    yield "none", [v("x", PLAIN, {"standard_name": "height", "axis": "X"}), v("tb", h, dims=("d", "b"))], ["x", "tb"], [], None, None


def mark(*parts):
    return "<%s>" % "|".join(str(p) for p in parts).replace(" ", "_")


def setup(r, fname, arg, variables, given, hidden, designated, length=4):
    units = {}
    desc = Obj("FileDesc", variables={x.fields["label"]: x for x in variables}, autoparse_time_variable=designated, name=fname, label=fname)
    for x in variables:
        u = x.fields["cfunits"]()
        # the values know their own units, whatever the description says
        units[x.fields["label"]] = (u.fields["__str__"], u.fields["calendar"], u.fields["is_time_reference"]())
    nodes = [node(n, length, units[n]) for n in given]
    hid = [node(n, length, units[n]) for n in hidden]
    me = Obj("WriteNode", label=fname, _label=fname, inputs=list(nodes), _inputs=list(nodes), _hidden_inputs=hid, _filedesc=desc)

    def date(x, u, cal=None, *rest, **kw):
        if not isinstance(x, Obj) or not isinstance(u, (str, Obj)):
            raise Unknown("decoding %r" % (x,))
        u = u if isinstance(u, str) else u.fields["__str__"]
        return Obj("date", label=x.fields["label"], strftime=lambda f: mark(x.fields["label"], u, cal, f))

    env = {SELF: me, mk("arg", arg): fname}
    return Names(r.an, env, calls={"num2date": date}), units


def outcome(ctx, r, w):
    """('name', text, warned) or ('raises', name)"""
    warned = []
    for e in r.events:
        if e.kind == "raise" and not any(c[0] == "try" for c in e.ctx or ()):
            for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                return "raises", exc_name(e.val), e
        if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] == "warn":
            for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                warned.append(name_of(e.args[1]).split(".")[-1] if len(e.args) > 1 and name_of(e.args[1]) else show(e.args[1], 2) if len(e.args) > 1 else "UserWarning")
    return "name", w.ev(r.value), warned


def method_run(ctx):
    if "autoname" not in ctx.cache:
        c = ctx.p.cls("flownodes.WriteNode")
        fn = c.find_method("_autoparse_filename_")
        ctx.cache["autoname"] = (fn, ctx.run(fn, cls=c), [a.arg for a in fn.node.args.args][1])
    return ctx.cache["autoname"]


def expected(pattern, var, units, last):
    import re
    u, cal, _ = units[var]
    d = lambda k, f: mark("%s.%d" % (var, k), u, cal, f)
    return re.sub(r"\{([^}]*)\}", lambda m: d(0, m.group(1).split("-")[0]) + "-" + d(last, m.group(1).split("-")[1]), pattern)


PATTERNS = ("a_{F-G}.nc", "{F-G}", "p{F-G}q{H-K}r.nc", "a}b{F-G}.nc")


@rule("C32", "names", 16)
def names(ctx):
    """For every kind of time variable (designated, hidden, recognised by name, units, standard name or axis; one or many), one or several patterns and one or many
    times: the name obtained is the text around the patterns with each replaced by first time, dash, last time, decoded with units and calendar of the values."""
    fn, r, arg = method_run(ctx)
    for key, variables, given, hidden, designated, want in plan():
        for pattern in PATTERNS if key in ("time variable", "designated") else PATTERNS[:1]:
            for length in (1, 4) if key == "time variable" else (4,):
                k = "%s: %s%s" % (key, pattern, " one time" if length == 1 else "")

                def run():
                    w, units = setup(r, pattern, arg, variables, given, hidden, designated, length)
                    o = outcome(ctx, r, w)
                    if want is None:
                        return ctx.check(k, o[0] == "name" and o[1] == pattern and len(o[2]) == 1, "without a time variable: %s" % (o[:2] + (o[2:] if o[0] == "name" else ()),), fn)
                    if o[0] == "raises":
                        return ctx.bad(k, "raises %s" % o[1], o[2])
                    text = expected(pattern, want, units, length - 1)
                    ctx.check(k, o[1] == text and not o[2], "the name becomes %r%s instead of %r" % (o[1], " with a warning" if o[2] else "", text), ctx.place(fn))
                attempt(ctx, k, run, ctx.place(fn))


@rule("C32", "errors", 4)
def errors(ctx):
    """A pattern without end and a time variable that is described but not given to the file are errors; a name without pattern is never changed."""
    fn, r, arg = method_run(ctx)
    t = [variable("time", DAYS), variable("x", PLAIN)]
    for key, pattern, given, hidden, designated, want in (
            ("unbalanced", "a_{F-G.nc", ["time"], [], None, "error"), ("unbalanced after another", "a{F-G}b{H-K", ["time"], [], None, "error"),
            ("missing input", "a_{F-G}.nc", ["x"], [], None, "error"), ("missing designated input", "a_{F-G}.nc", ["x"], [], "time", "error"),
            ("no pattern", "a-b.nc", ["time"], [], None, "a-b.nc"), ("no pattern, no time", "ab.nc", ["x"], [], None, "ab.nc")):
        def run():
            w, units = setup(r, pattern, arg, t, given, hidden, designated)
            o = outcome(ctx, r, w)
            if want == "error":
                return ctx.check(key, o[0] == "raises", "no error, the name becomes %r" % (o[1],), ctx.place(fn))
            ctx.check(key, o[0] == "name" and o[1] == want and not o[2], "%s" % (o[:2],), ctx.place(fn))
        attempt(ctx, key, run, ctx.place(fn))


@rule("C32", "used", 2)
def used(ctx):
    """The name composed from the file description is the one of the node and of its description."""
    c = ctx.p.cls("flownodes.WriteNode")
    fn = c.find_method("__init__")
    r = ctx.run(fn, cls=c, opaque=("_autoparse_filename_",))
    r.an.state = r.state
    desc = None
    from .terms import walk
    lab = r.norm(r.an.getattr(SELF, "_label"))
    auto = [t for t in walk(lab) if t.op == "call" and (name_of(t.args[0]) or "").endswith("_autoparse_filename_")]
    ctx.check("label", bool(auto) and lab is auto[0], "the label is %s" % show(lab, 3), ctx.place(fn))
    st = [e for e in r.events if e.kind == "setattr" and e.name in ("_name", "name") and e.val is not None and r.norm(e.val) is lab]
    ctx.check("description", bool(st), "the description does not get the name", ctx.place(fn))
