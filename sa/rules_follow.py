"""nodes, followed for given data: what they hand on"""
from itertools import product

from .engine import SELF
from .pev import Obj, Unknown, Wrong
from .q import exc_name
from .rule import rule
from .rules_graph import Missed
from .rules_mpi import attempt
from .rules_writing import Writing
from .terms import mk

RANK = {"b1": 0, "i4": 1, "i8": 1, "f4": 2, "f8": 2, "S1": 3}
FACTOR = {("km", "m"): 1000.0, ("m", "km"): 0.001, ("m", "m"): 1.0, ("1", "1"): 1.0}


class Follow(Writing):
    """each operation is performed once, in the order of the program; what it yields is the same thing from then on"""
    source = None

    def perform(self, r):
        for e in sorted(r.events, key=lambda e: e.seq):
            if e.kind == "raise":
                if self.happens(e.loops or (), e.guards, self.env, e.seq):
                    raise Wrong("raises %s" % exc_name(e.val))
            elif e.kind == "call" and e.res is not None and not e.loops:
                for x in self.happens((), e.guards, self.env, e.seq):
                    try:
                        self.env.pop(e.res, None)
                        self.env[e.res] = self.ev(e.res, x)
                    except Missed:
                        if not any(c[0] == "try" for c in e.ctx or ()):
                            raise
                    except Unknown:
                        if self.effective(e.f, x):
                            raise
            elif e.kind in ("setattr", "aug") and e.obj is not None:
                for x in self.happens(e.loops or (), e.guards, self.env, e.seq):
                    o = self.ev(e.obj, x)
                    if isinstance(o, Obj) and e.kind == "setattr":
                        o.fields[e.name] = self.ev(e.val, x)
            elif e.kind == "setitem" and e.obj.op != "alloc":
                for x in self.happens(e.loops or (), e.guards, self.env, e.seq):
                    self.do(e, x)

    def effective(self, f, x):
        """might this, which is not known, change an array?"""
        if f is None or f.op in ("ext", "func", "class", "bound"):
            return False
        if f.op == "attr":
            o = self.soft(f.args[0], x)
            return isinstance(o, Obj) and ("cells" in o.fields or "values" in o.fields)
        return f.op in ("call", "sub", "ite")

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in self.env:
            return self.env[t]
        if t.op == "raised" and any(self.ev(h, env) for h in self.before(t)):
            return False                # an earlier handler of the same attempt takes it
        if t.op == "new" and t.args[0].split(".")[-1] in self.calls:
            return self.calls[t.args[0].split(".")[-1]](*self.values(t.args[1], env), **self.kws(t.args[2], env))
        if t.op == "neg":
            v = self.ev(t.args[0], env)
            if isinstance(v, Obj) and "values" in v.fields:
                return derived(v, values={i: -x for i, x in v.fields["values"].items()})
        return super().ev(t, env)

    def before(self, t):
        out = []
        for e in sorted(self.an.events, key=lambda e: e.seq):
            if e.kind == "handler" and e.name == t.args[0]:
                h = mk("raised", e.name, e.val if isinstance(e.val, tuple) else tuple(e.val))
                if h is t:
                    break
                out.append(h)
        return out

    def compare(self, op, x, y):
        if op in ("<", "<=", "==", "!=") and any(isinstance(z, Obj) and "values" in z.fields for z in (x, y)):
            a = x if isinstance(x, Obj) else y
            f = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q}[op]
            one = lambda z, i: z.fields["values"][i] if isinstance(z, Obj) else z
            return derived(a, values={i: f(one(x, i), one(y, i)) for i in a.fields["values"]}, dtype="b1")
        if op in ("==", "!=") and (isinstance(x, Obj) or isinstance(y, Obj)):
            return (x is y) == (op == "==")
        if op in ("<", "<=") and (x is HIDDEN or y is HIDDEN):
            return HIDDEN
        return super().compare(op, x, y)

    def missing(self, obj, name):
        if "values" in obj.fields and name in ("data", "_data"):
            return derived(obj, mask=set())
        return super().missing(obj, name)

    @staticmethod
    def truthy(v):
        if v is HIDDEN:
            return False
        return Writing.truthy(v)


HIDDEN = Obj("masked", label="masked")
UNITS = {}


def unit(u, calendar=None):
    u = u.fields["label"] if isinstance(u, Obj) else str(u)
    key = (u, calendar)
    if key not in UNITS:
        UNITS[key] = Obj("Unit", label=u, calendar=calendar, __str__=u, is_time_reference=lambda: "since" in u, is_convertible=lambda o: (u, o.fields["label"]) in FACTOR)
    return UNITS[key]


def array(values, dims, dtype="f8", units="m", positive=None, name="data", mask=(), kind="PhysArray"):
    a = Obj(kind, label=name, name=name, values=values, mask=set(mask), dtype=dtype, units=units if isinstance(units, Obj) else unit(units), dimensions=tuple(dims), positive=positive)

    def live():
        return [x for i, x in sorted(a.fields["values"].items()) if i not in a.fields["mask"]]

    def least(f):
        return lambda *b, **k: f(live()) if live() else HIDDEN

    def convert(u):
        k = (a.fields["units"].fields["label"], u.fields["label"])
        if k not in FACTOR:
            raise Missed("ValueError")
        return derived(a, values={i: x * FACTOR[k] for i, x in a.fields["values"].items()}, units=u)

    def transpose(*ds):
        ds = tuple(ds[0]) if len(ds) == 1 and isinstance(ds[0], (tuple, list)) else ds
        have = a.fields["dimensions"]
        if sorted(ds) != sorted(have):
            raise Missed("DimensionsError")
        at = [have.index(d) for d in ds]
        move = lambda i: tuple(i[k] for k in at)
        return derived(a, values={move(i): x for i, x in a.fields["values"].items()}, mask={move(i) for i in a.fields["mask"]}, dimensions=ds)

    def flip():
        if a.fields["positive"] in ("up", "down"):
            a.fields["positive"] = "down" if a.fields["positive"] == "up" else "up"
            a.fields["values"] = {i: -x for i, x in a.fields["values"].items()}
            a.fields["changed"] = True
        elif a.fields["positive"] is not None:
            raise Unknown("direction %r" % (a.fields["positive"],))
        return a

    def astype(t, *b, **k):
        return derived(a, dtype=t, values={i: int(x) if RANK[t] == 1 else x for i, x in a.fields["values"].items()})
    a.fields.update(convert=convert, transpose=transpose, flip=flip, astype=astype, copy=lambda *b: derived(a), min=least(min), max=least(max), mean=least(lambda v: sum(v) / len(v)), any=lambda: any(live()),
                    all=lambda: all(live()), __getitem__=lambda i: a if i in (slice(None), Ellipsis, ()) else Wrong, up=lambda: flip() if a.fields["positive"] == "down" else a,
                    down=lambda: flip() if a.fields["positive"] == "up" else a, ndim=len(dims), shape=None, __abs__=lambda: absolute(a))
    return a


def derived(a, **k):
    f = a.fields
    g = dict(values=dict(f["values"]), dims=f["dimensions"], dtype=f["dtype"], units=f["units"], positive=f["positive"], name=f["name"], mask=set(f["mask"]), kind=a.kind)
    if "dimensions" in k:
        k["dims"] = k.pop("dimensions")
    g.update(k)
    return array(**g)


def absolute(a):
    if isinstance(a, (int, float)):
        return abs(a)
    return derived(a, values={i: abs(x) for i, x in a.fields["values"].items()})


def hide(test):
    """numpy.ma.masked_...(array, bounds)"""
    def f(a, *b, **k):
        return derived(a, mask=a.fields["mask"] | {i for i, x in a.fields["values"].items() if test(x, *b)})
    return f


def where(c, a, *b, **k):
    if not isinstance(c, Obj) or "values" not in c.fields:
        raise Unknown("masked where %r" % (c,))
    # where the condition itself is masked, so is the result already
    return derived(a, mask=a.fields["mask"] | {i for i, x in c.fields["values"].items() if x and i not in c.fields["mask"]})


def reducer(n):
    def f(a, *b, **k):
        if not isinstance(a, Obj) or n not in a.fields:
            raise Unknown("%s of %r" % (n, a))
        return a.fields[n]()
    return f


def can_cast(a, b, casting="safe", **k):
    a, b = [x if isinstance(x, str) else x.fields["label"] for x in (a, b)]
    if casting == "same_kind":
        return RANK[a] <= RANK[b]
    if casting == "unsafe":
        return True
    if casting == "safe":
        return a == b or (RANK[a], a) <= (RANK[b], b) and not (a == "i8" and b == "f4")
    raise Unknown(casting)


def operations(warned):
    def warn(msg, category=None, *a, **k):
        warned.append((str(msg), category.fields["label"] if isinstance(category, Obj) else str(category)))
    return {"can_cast": can_cast, "Unit": unit, "warn": warn, "min": reducer("min"), "amin": reducer("min"), "max": reducer("max"), "amax": reducer("max"), "mean": reducer("mean"), "average": reducer("mean"),
            "abs": absolute, "absolute": absolute, "fabs": absolute, "any": reducer("any"), "all": reducer("all"), "masked_where": where, "masked_less": hide(lambda x, b: x < b), "masked_greater": hide(lambda x, b: x > b),
            "masked_less_equal": hide(lambda x, b: x <= b), "masked_greater_equal": hide(lambda x, b: x >= b), "masked_outside": hide(lambda x, a, b: x < min(a, b) or x > max(a, b)),
            "masked_inside": hide(lambda x, a, b: min(a, b) <= x <= max(a, b))}


def grid(rows):
    return {(i, j): x for i, row in enumerate(rows) for j, x in enumerate(row)}


DATA = [[-3.0, 0.0, 1.5], [2.0, 4.0, 5.0]]
MEAN = sum(abs(x) for row in DATA for x in row) / 6


def requests():
    """(what, declared attributes, declared type, declared dimensions, how the data are) """
    d = ("t", "x")
    yield "as it is", {}, "f8", d, {}
    yield "no type", {}, None, d, {"dtype": "f4"}
    yield "smaller type", {}, "f4", d, {}
    yield "integers as reals", {}, "f8", d, {"dtype": "i4"}
    yield "reals as integers", {}, "i4", d, {}
    yield "same units", {"units": "m"}, "f8", d, {}
    yield "other units", {"units": "km"}, "f8", d, {}
    yield "unrelated units", {"units": "K"}, "f8", d, {}
    yield "other order", {"units": "m"}, "f8", ("x", "t"), {}
    yield "other dimensions", {}, "f8", ("x", "y"), {}
    yield "same direction", {"positive": "up"}, "f8", d, {"positive": "up"}
    yield "other direction", {"positive": "up"}, "f8", d, {"positive": "down"}
    yield "no direction declared", {}, "f8", d, {"positive": "down"}
    yield "no direction in the data", {"positive": "down"}, "f8", d, {}
    yield "within", {"valid_min": -3.0, "valid_max": 5.0}, "f8", d, {}
    yield "below", {"valid_min": 0}, "f8", d, {}
    yield "above", {"valid_max": 0}, "f8", d, {}
    yield "both", {"valid_min": -1.0, "valid_max": 4.0}, "f8", d, {}
    yield "nothing left", {"valid_min": 10.0, "valid_max": 20.0}, "f8", d, {}
    yield "masked already", {"valid_min": 0.0, "valid_max": 4.0}, "f8", d, {"mask": [(0, 0), (1, 1)]}
    yield "after conversion", {"units": "km", "valid_min": -0.001, "valid_max": 0.004}, "f8", d, {}
    yield "after turning", {"positive": "up", "valid_min": -1.0}, "f8", d, {"positive": "down"}
    yield "all together", {"units": "km", "positive": "up", "valid_max": 0.0025, "ok_max_mean_abs": 0.001}, "f4", ("x", "t"), {"positive": "down"}
    for k in ("ok_min_mean_abs", "ok_max_mean_abs"):
        for n, x in (("equal", MEAN), ("above", MEAN + 1), ("below", MEAN - 1), ("zero", 0)):
            yield "%s %s" % (k, n), {k: x}, "f8", d, {}
    yield "mean between", {"ok_min_mean_abs": MEAN - 1, "ok_max_mean_abs": MEAN + 1}, "f8", d, {}
    yield "mean outside", {"ok_min_mean_abs": MEAN + 1, "ok_max_mean_abs": MEAN - 1}, "f8", d, {}
    yield "mean of the rest", {"valid_max": 1.5, "ok_max_mean_abs": 2.0}, "f8", d, {}
    yield "mean of the rest beyond", {"valid_max": 1.5, "ok_max_mean_abs": 1.4}, "f8", d, {}


def validated(attributes, dtype, dims, data):
    """what is handed on: (values, hidden, type, dimensions, units, direction, warnings)"""
    have = array(grid(DATA), ("t", "x"), **data)
    t = dtype or have.fields["dtype"]
    if not can_cast(have.fields["dtype"], t, "same_kind"):
        raise Missed("TypeError")
    out = have.fields["astype"](t)
    if "units" in attributes:
        out = out.fields["convert"](unit(attributes["units"], attributes.get("calendar")))
    if tuple(dims) != out.fields["dimensions"]:
        out = out.fields["transpose"](tuple(dims))
    if attributes.get("positive") not in (None, out.fields["positive"]):
        out.fields["flip"]()
    warns = []
    lo, hi = attributes.get("valid_min"), attributes.get("valid_max")
    vs, mask = out.fields["values"], out.fields["mask"]
    for n, bad in (("valid_min", lambda x: lo is not None and x < lo), ("valid_max", lambda x: hi is not None and x > hi)):
        if any(bad(x) for i, x in vs.items() if i not in mask):
            warns.append(n)
        mask |= {i for i, x in vs.items() if bad(x)}
    rest = [abs(x) for i, x in vs.items() if i not in mask]
    if rest:
        mean = sum(rest) / len(rest)
        if attributes.get("ok_min_mean_abs") is not None and mean < attributes["ok_min_mean_abs"]:
            warns.append("ok_min_mean_abs")
        if attributes.get("ok_max_mean_abs") is not None and mean > attributes["ok_max_mean_abs"]:
            warns.append("ok_max_mean_abs")
    return out, warns


def asked(ctx):
    c = ctx.p.cls("flownodes.ValidateNode")
    f = c.methods["__getitem__"]
    key = ("follow", "ValidateNode")
    if key not in ctx.cache:
        ctx.cache[key] = ctx.run(f, cls=c)
    return ctx.cache[key], f


def judge(ctx, attributes, dtype, dims, data, index=True):
    r, f = asked(ctx)
    r.an.state = r.state
    have = array(grid(DATA), ("t", "x"), **data)
    have.fields["changed"] = False
    inp = Obj("MapNode", label="input", __bases__=("FlowNode",), __getitem__=lambda i: have)
    v = Obj("VariableDesc", label="v", name="v", attributes=dict(attributes), dtype=dtype, dimensions={d: None for d in dims})
    me = Obj("ValidateNode", label="v", inputs=[inp], _inputs=[inp], attributes=v.fields["attributes"], _vdesc=v, dimensions=tuple(dims), _label="v")
    warned = []
    g = Follow(r.an, {SELF: me, mk("arg", f.params()[1]): slice(None) if index else None}, calls=operations(warned))
    g.perform(r)
    out = g.ev(r.value)
    if not isinstance(out, Obj) or "values" not in out.fields:
        raise Unknown("%r" % (out,))
    return out, warned, have


def state(a):
    f = a.fields
    return {"values": {i: round(float(x), 9) for i, x in f["values"].items() if i not in f["mask"]}, "type": f["dtype"], "dimensions": f["dimensions"], "units": f["units"].fields["label"], "positive": f["positive"]}


@rule("C13", "handed-on", 30)
def handed_on(ctx):
    """For given data and declarations, what the validating node hands on is followed: cast, converted, transposed and turned as declared, masked exactly outside the declared range, with a warning for each bound
    that is exceeded and for no other; what cannot be cast, converted or transposed is an error."""
    r, f = asked(ctx)
    place = ctx.place(f)
    for what, attributes, dtype, dims, data in requests():
        def run():
            try:
                want, warns = validated(attributes, dtype, dims, data)
            except Missed as x:
                want, warns = None, str(x)
            try:
                out, warned, _ = judge(ctx, attributes, dtype, dims, data)
            except Wrong as x:
                ctx.check(what, want is None, "fails with %s, should give %s" % (x, want and state(want)), place)
                return
            if want is None:
                ctx.bad(what, "gives %s, should fail with %s" % (state(out), warns), place)
                return
            a, b = state(out), state(want)
            got = sorted(n for m, c in warned for n in ("valid_min", "valid_max", "ok_min_mean_abs", "ok_max_mean_abs") if n in m.split(":")[0])
            ctx.check(what, a == b, "; ".join("%s are %s, should be %s" % (k, a[k], b[k]) for k in a if a[k] != b[k]), place)
            ctx.check(what + " warnings", got == sorted(warns) if len(got) == len(warned) else None if len(warned) == len(warns) else False,
                      "warnings %s, should be about %s" % ([m for m, c in warned] or "none", sorted(warns) or "nothing"), place)
        attempt(ctx, what, run, place)


@rule("C08", "announced", 25)
def announced(ctx):
    """Asked for metadata only, the validating node announces the type, dimensions, units and direction that the data it hands on will have, without a warning and without looking at values."""
    r, f = asked(ctx)
    place = ctx.place(f)
    for what, attributes, dtype, dims, data in requests():
        def run():
            try:
                want, _ = validated(attributes, dtype, dims, data)
            except Missed:
                return
            out, warned, have = judge(ctx, attributes, dtype, dims, data, index=False)
            a, b = state(out), state(want)
            diff = ["%s is %s, should be %s" % (k, a[k], b[k]) for k in a if k != "values" and a[k] != b[k]]
            ctx.check(what, not diff and not warned, "; ".join(diff) or "warnings %s" % [m for m, c in warned], place)
        attempt(ctx, what, run, place)


@rule("C06", "validated-source", 25)
def untouched(ctx):
    """Validation leaves the data it was given as they were."""
    r, f = asked(ctx)
    place = ctx.place(f)
    for what, attributes, dtype, dims, data in requests():
        def run():
            try:
                validated(attributes, dtype, dims, data)
            except Missed:
                return
            out, warned, have = judge(ctx, attributes, dtype, dims, data)
            a, b = state(have), state(array(grid(DATA), ("t", "x"), **data))
            ctx.check(what, a == b, "; ".join("%s are %s, were %s" % (k, a[k], b[k]) for k in a if a[k] != b[k]), place)
        attempt(ctx, what, run, place)
