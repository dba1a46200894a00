"""The operators and functions of the definition language followed for given arrays: what they ask of their arguments, what they give,
what it is called and what the arguments are afterwards."""
from .pev import Obj, Unknown, Wrong
from .rule import rule
from .rules_arrays import A, HOW, Arrays, aligned, alike, combined, construct, every, follows, masked, named, phys, raw, reduce, seen, spread, tupled, taken, unit_of, units, values, words
from .rules_graph import Missed
from .rules_mpi import attempt
from .rules_phys import SELF
from .terms import mk

FUNCTIONS = "functions."
LABELS = {}


def label(u):
    return u.fields["label"]


def unit(u="1", calendar=None, **k):
    """units told apart by how they are written; those of a time have an origin and a calendar"""
    if isinstance(u, Obj):
        u = label(u)
    u, _, c = str(u).partition("|")
    calendar = calendar or c or None
    if u not in SIMPLE and " since " not in u:
        raise Unknown("units %r" % u)
    if " since " not in u:
        calendar = None
    elif calendar is None:
        calendar = "standard"
    key = u + ("|" + calendar if calendar else "")
    if key in LABELS:
        return LABELS[key]
    if u in SIMPLE:
        scale, exps = SIMPLE[u]
        o = units(scale, exps)
        if o.fields["label"] != u:
            o = Obj("Unit", **dict(o.fields, label=u, __str__=u))
    else:
        o = Obj("Unit", label=key, calendar=calendar, scale=1.0, exps={"T": 1}, __str__=u)
    o.fields.update(origin=u, is_time_reference=lambda: " since " in u, root=lambda n: units(o.fields["scale"] ** (1 / n), {k: v / n for k, v in o.fields["exps"].items()}), is_unknown=lambda: u == "unknown")
    LABELS[key] = o
    return o


SIMPLE = {"1": (1.0, {}), "m": (1.0, {"m": 1}), "km": (1000.0, {"m": 1}), "m2": (1.0, {"m": 2}), "s": (1.0, {"s": 1}), "days": (86400.0, {"s": 1}), "hours": (3600.0, {"s": 1}), "None": (1.0, {"?": 1}), "%": (0.01, {}), "cm-3": (1e6, {"m": -3}), "kg/kg": (1.0, {"kg": 1, "per kg": -1})}


class Found(tuple):
    """the places where something holds: one row of numbers for each axis"""


class Functions(Arrays):
    def ev(self, t, env=None):
        if t.op == "tuple" and any(x.op == "star" for x in t.args):
            out = []
            for x in t.args:
                out.extend(self.ev(x.args[0], env) if x.op == "star" else [self.ev(x, env)])
            return tuple(out)
        if t.op in ("neg", "un") and (t.op == "neg" or t.args[0] == "-"):
            v = self.ev(t.args[-1], env)
            if isinstance(v, Obj) and "cells" in v.fields:
                f = v.fields
                return phys({i: [-x] for i, x in values(v).items()}, f["shape"], f["mask"], "(-%s)" % f["name"], f["units"], f["dimensions"], f["positive"])
        return super().ev(t, env)

    def assign(self, o, name, v):
        if "cells" not in o.fields:
            o.fields[name] = v
        else:
            if name == "units" and not isinstance(v, Obj):
                v = unit(v)
            super().assign(o, name, v)

    def arith(self, op, x, y):
        n = {"+": "add", "-": "sub", "*": "mul", "/": "truediv"}.get(op)
        arrays = [z for z in (x, y) if isinstance(z, Obj) and "cells" in z.fields]
        if n and any(z.kind == "PhysArray" for z in arrays):
            a, b = construct(x), construct(y)
            v, u, p, sizes = combined(n, a, b)
            dims, shape = tuple(sizes), tuple(sizes.values())
            got = {i: v.get(frozenset(zip(dims, i)), 0.0) for i in every(shape)}
            return reducing(phys({i: [z] for i, z in got.items()}, shape, {i for i in got if frozenset(zip(dims, i)) not in v}, "(%s%s%s)" % (a.fields["name"], op, b.fields["name"]), unit_of(u, a, b), dims, p))
        if op == "**" and arrays and isinstance(x, Obj) and x.kind == "PhysArray" and isinstance(y, (int, float)):
            f = x.fields
            return phys({i: [v ** y] for i, v in values(x).items()}, f["shape"], f["mask"], "(%s**%s)" % (f["name"], y), units(f["units"].fields["scale"] ** y, {k: v * y for k, v in f["units"].fields["exps"].items()}), f["dimensions"], None if y % 2 == 0 else f["positive"])
        return super().arith(op, x, y)

    def compare(self, op, x, y):
        if op in ("<", ">", "<=", ">=", "==", "!=") and any(isinstance(z, Obj) and "cells" in z.fields and z.fields["shape"] for z in (x, y)) and (op[0] in "<>" or x is not None and y is not None and not isinstance(x, str) and not isinstance(y, str)):
            a = x if isinstance(x, Obj) else y
            turned = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
            b, o = (y, op) if a is x else (x, turned[op])
            if not isinstance(b, (int, float)):
                raise Unknown("a comparison with %r" % (b,))
            how = {"<": lambda v: v < b, ">": lambda v: v > b, "<=": lambda v: v <= b, ">=": lambda v: v >= b, "==": lambda v: v == b, "!=": lambda v: v != b}[o]
            r = raw({i: how(v) for i, v in values(a).items()}, a.fields["shape"], a.fields["mask"], "condition")
            r.fields.update(all=lambda: all(bool(v) for v in values(r).values()), any=lambda: any(bool(v) for v in values(r).values()))
            return r
        return super().compare(op, x, y)


def where(c, *more):
    if more or not isinstance(c, Obj) or c.kind != "condition":
        raise Unknown("where(%r)" % (c,))
    at = [i for i, v in values(c).items() if v and i not in c.fields["mask"]]
    return Found(tuple(i[k] for i in at) for k in range(len(c.fields["shape"])))


def shown(x):
    return x.fields["name"] if isinstance(x, Obj) and "cells" in x.fields and "name" in x.fields else str(x)


def node(make):
    """an argument: a node giving the part asked for of an array, and what it was asked"""
    asked, given, known = [], [], {}

    def give(i):
        if repr(i) in known:
            return known[repr(i)]
        asked.append(i)
        a = make()
        f = a.fields
        if i is None:
            r = phys({}, (0,) * len(f["shape"]), (), f["name"], f["units"], f["dimensions"], f["positive"])
        else:
            at = aligned(i, f["dimensions"])
            vs, sh = taken({k: k for k in f["cells"]}, f["shape"], at)
            left = tuple(d for d, k in zip(f["dimensions"], at) if isinstance(k, slice))
            r = phys({j: [f["cells"][k][0]] for j, k in vs.items()}, sh, {j for j, k in vs.items() if k in f["mask"]}, f["name"], f["units"], left, f["positive"])
        r = reducing(r)
        given.append((r, seen(r)))
        known[repr(i)] = r
        return r
    return Obj("node", label="node", give=give, __getitem__=give, asked=asked, given=given)


def reducing(r):
    def red(how):
        def go(dimensions=None, axis=None, **k):
            f = r.fields
            if dimensions is None and axis is None:
                ax = tuple(range(len(f["shape"])))
            elif dimensions is not None:
                if not isinstance(dimensions, (list, tuple)):
                    raise Missed("TypeError")
                ax = tuple(f["dimensions"].index(d) for d in dimensions)
            else:
                ax = axis if isinstance(axis, tuple) else (axis,)
            if len(set(ax)) != len(ax):
                raise Missed("ValueError")
            m = reduce(r, ax, HOW[how])
            left = tuple(d for k, d in enumerate(f["dimensions"]) if k not in ax)
            return phys(m.fields["cells"], m.fields["shape"], m.fields["mask"], "%s(%s, dims=[%s])" % (how, f["name"], ",".join(d for k, d in enumerate(f["dimensions"]) if k in ax)), f["units"], left, f["positive"])
        return go
    turned = r.fields["transpose"]

    def to(*ds):
        ds = tuple(ds[0]) if len(ds) == 1 and isinstance(ds[0], (tuple, list)) else ds
        f = r.fields
        if any(isinstance(d, str) for d in ds):
            if sorted(ds) != sorted(f["dimensions"]):
                raise Missed("DimensionsError")
            ds = tuple(f["dimensions"].index(d) for d in ds)
        x = turned(*ds)
        order = ds or tuple(reversed(range(len(f["shape"]))))
        return reducing(phys(x.fields["cells"], x.fields["shape"], x.fields["mask"], "transpose(%s)" % f["name"], f["units"], tuple(f["dimensions"][k] for k in order), f["positive"]))
    r.fields["transpose"] = to
    for h in ("sum", "mean"):
        r.fields[h] = red(h)
    return r


def asarray(x, **k):
    if not isinstance(x, Obj) or "cells" not in x.fields:
        raise Unknown("asarray(%r)" % (x,))
    r = raw({}, x.fields["shape"], x.fields["mask"])
    r.fields["cells"] = x.fields["cells"]
    return r


def unmasked(x, **k):
    r = asarray(x)
    r.fields["mask"] = set()
    return r


def root(x):
    if isinstance(x, (int, float)):
        return x ** 0.5
    bad = {i for i, v in values(x).items() if v < 0}
    return raw({i: (v ** 0.5 if v >= 0 else 0.0) for i, v in values(x).items()}, x.fields["shape"], x.fields["mask"] | bad)


def bind(fn, args, kw):
    a = fn.node.args
    ps = [p.arg for p in a.args][1:]
    env = {}
    ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
    for p, x in zip(ps, args):
        env[mk("arg", p)] = x
    left = tuple(args[len(ps):])
    if left and a.vararg is None:
        raise Missed("TypeError")
    if a.vararg is not None:
        env[mk("arg", "*" + a.vararg.arg)] = left
    kw = dict(kw)
    for p in ps:
        if mk("arg", p) in env:
            continue
        if p in kw:
            env[mk("arg", p)] = kw.pop(p)
        elif p in ds:
            env[mk("arg", p)] = getattr(ds[p], "value", None)
        else:
            raise Missed("TypeError")
    if a.kwarg is not None:
        env[mk("arg", "**" + a.kwarg.arg)] = kw
    elif kw:
        raise Missed("TypeError")
    return env


def least(how):
    def go(x, *more, axis=None, **k):
        xs = x if isinstance(x, (tuple, list)) and not more else (x,) + more
        if xs and not isinstance(x, Obj) and all(isinstance(v, (int, float)) for v in xs):
            return HOW[how](xs)
        axis = more[0] if more else axis
        if k or not isinstance(x, Obj):
            raise Unknown("%s(%r)" % (how, k))
        if isinstance(axis, list):
            raise Missed("TypeError")
        return reduce(x, axis, HOW[how])
    return go


LIBRARY = {"PhysArray": lambda data=None, name=None, units=None, **k: construct(data, name=name, units=None if units is None else unit(units), **k), "Unit": unit, "where": where, "sqrt": root, "amin": least("min"), "amax": least("max"), "min": least("min"), "max": least("max"),
           "asarray": lambda x, **k: asarray(x, **k), "zeros": lambda s, *a, **k: raw({i: 0.0 for i in every(s)}, s, ()), "getname": shown, "masked_array": asarray, "MaskedArray": masked, "asanyarray": lambda x, **k: x, "root": root,
           "abs": lambda x: abs(x) if isinstance(x, (int, float)) else alike(x, {i: abs(v) for i, v in values(x).items()}, x.fields["shape"], x.fields["mask"])}
LIBRARY["absolute"] = LIBRARY["fabs"] = LIBRARY["abs"]


def evaluated(ctx, c, name, me, env):
    f = c.find_method(name)
    key = ("functions", c.name, name)
    if key not in ctx.cache:
        ctx.cache[key] = ctx.run(f, cls=c)
    r = ctx.cache[key]
    r.an.state = r.state
    g = Functions(r.an, dict(env, **{}), calls=LIBRARY)
    g.env[SELF] = me
    g.perform(r)
    return g.ev(r.value)


def cls_of(ctx, name):
    return ctx.p.cls("modules." + name if "." in name else FUNCTIONS + name)


def function(ctx, name, args, kw):
    c = cls_of(ctx, name)
    me = Obj("function", label=name, __bases__=("Function", "FunctionBase", "Operator"))
    evaluated(ctx, c, "__init__", me, bind(c.find_method("__init__"), args, kw))
    return c, me


def asked(ctx, c, me, index):
    f = c.find_method("__getitem__")
    return evaluated(ctx, c, "__getitem__", me, {mk("arg", f.params()[1]): index})


# ---------------------------------------------------------------------- what they should give


def reduced(how):
    def want(a, *dims, **k):
        f = a.fields
        gone = [d for d in f["dimensions"] if d in dims]
        m = reduce(a, tuple(f["dimensions"].index(d) for d in gone), HOW[how]) if f["cells"] else raw({}, (0,) * (len(f["shape"]) - len(gone)), ())
        left = tuple(d for d in f["dimensions"] if d not in gone)
        return dict(seen(phys(m.fields["cells"], m.fields["shape"], m.fields["mask"], f["name"], f["units"], left, f["positive"])), name=[how, f["name"]])
    return want


def rooted(a):
    s = seen(a)
    return dict(s, values={k: round(v ** 0.5, 9) for k, v in s["values"].items() if v >= 0}, units=label(a.fields["units"].fields["root"](2)), name=["sqrt", s["name"]])


def directed(to):
    def want(a):
        s = seen(a)
        turned = s["positive"] not in (None, to)
        return dict(s, values={k: -v if turned else v for k, v in s["values"].items()}, positive=to, name=[to, s["name"]] if s["positive"] != to else [s["name"]])
    return want


def limited(a, below=None, above=None):
    s = seen(a)
    vals = s["values"]
    if above is not None:
        vals = {k: min(v, above) for k, v in vals.items()}
    if below is not None:
        vals = {k: max(v, below) for k, v in vals.items()}
    n = ([] if above is None else ["above", str(above)]) + ([] if below is None else ["below", str(below)])
    return dict(s, values=vals, name=(["limit", s["name"]] + n if a.fields["shape"] else ["limit", s["name"]]) if n else [s["name"]])


def changed(a, units=None, refdate=None, calendar=None):
    s = seen(a)
    u, _, cal = s["units"].partition("|")
    w = label(unit(units)) if units is not None else None
    v, _, wcal = (w or "").partition("|")
    part = (v or u).partition(" since ")[0]
    ref = refdate or v.partition(" since ")[2] or u.partition(" since ")[2]
    c = calendar or wcal or cal
    new = part + (" since " + ref + "|" + (c or "standard") if ref else "")
    return dict(s, units=new, name=["chunits", s["name"], "units"] + [x for x in words(new)])


def renamed(a, *dims):
    s = seen(a)
    new = tuple(dims[:len(s["dimensions"])]) + s["dimensions"][len(dims):]
    to = dict(zip(s["dimensions"], new))
    return dict(s, values={frozenset((to[d], i) for d, i in k): v for k, v in s["values"].items()}, dimensions=new, name=(["chdims", s["name"]] + list(dims)) if dims else [s["name"]])


def unitless(a):
    s = seen(a)
    return dict(s, units="1", name=["rmunits", s["name"]])


def operated(op, names={"add": "+", "sub": "-", "mul": "*", "truediv": "/"}):
    def want(a, b):
        a, b = construct(a), construct(b)
        v, u, p, sizes = combined(op, a, b)
        return {"values": v, "units": u, "dimensions": tuple(sizes), "positive": p, "name": [a.fields["name"], names[op], b.fields["name"]]}
    return want


def negated(a):
    s = seen(a)
    return dict(s, values={k: -v for k, v in s["values"].items()}, name=[s["name"]])


def powered(a, e):
    s = seen(a)
    u = a.fields["units"].fields
    return dict(s, values={k: round(v ** e, 9) for k, v in s["values"].items()}, units=label(units(u["scale"] ** e, {k: v * e for k, v in u["exps"].items()})), positive=None if e % 2 == 0 else s["positive"], name=[s["name"]])


def arr(dims=("x", "y"), u="m", **k):
    a = A(dims, **k)
    a.fields["units"] = unit(u)
    a.fields["initial"] = dict(a.fields["initial"], units=unit(u))
    return a


FOUR = {"t": 2, "l": 3, "y": 2, "x": 2}
ALL = (None, slice(None), {"x": slice(0, 1)}, {"x": 1})
Y = (None, slice(None), (slice(0, 1), slice(1, 3)), {"y": 2})


def cases():
    """(function, what, arguments, keywords, indices, what it should give of the arguments)"""
    for fn, how in (("MeanFunction", "mean"), ("SumFunction", "sum"), ("MinFunction", "min"), ("MaxFunction", "max")):
        for dims, gone in ((("x", "y"), ("x",)), (("x", "y"), ("y",)), (("x", "y"), ("x", "y")), (("x", "y"), ("y", "x")), (("x", "y", "z"), ("z", "x")), (("x", "y", "z"), ("y",)), (("x", "y", "z"), ("z", "y")), (("x", "y"), ("q", "y")), (("x", "y"), ("q",)), (("y", "z", "x"), ("z",)), (("z", "y", "x"), ("y",)), (("z", "y", "x"), ("x", "z")),
                           (("x", "y", "z"), ("x", "y", "z"))):
            for mask in ((), ((0,) * (len(dims) - 1) + (1,),)):
                yield fn, "over %s of %s%s" % (",".join(gone), ",".join(dims), " masked" if mask else ""), [lambda dims=dims, mask=mask: arr(dims, positive="down", mask=mask)] + list(gone), {}, ALL, reduced(how)
        yield fn, "one place along an axis", [lambda: arr(sizes={"x": 1, "y": 3})] + ["x"], {}, ALL[:2], reduced(how)
        yield fn, "everything masked along an axis", [lambda: arr(mask=[(0, 0), (1, 0)])] + ["x"], {}, ALL[:2], reduced(how)
        yield fn, "no array", [3.0, "x"], {}, None, Missed("TypeError")
        yield fn, "a dimension that is no name", [arr, 1], {}, None, Missed("TypeError")
    for p in (None, "up", "down"):
        yield "PositiveUpFunction", "of %s" % (p or "none"), [lambda p=p: arr(positive=p, mask=[(0, 1)])], {}, ALL, directed("up")
        yield "PositiveDownFunction", "of %s" % (p or "none"), [lambda p=p: arr(positive=p, mask=[(0, 1)])], {}, ALL, directed("down")
    yield "SquareRootFunction", "of m2", [lambda: arr(u="m2", positive="up", mask=[(1, 1)])], {}, ALL, rooted
    yield "SquareRootFunction", "of a scalar", [lambda: arr((), u="m2")], {}, ALL[:2], rooted
    for k in ({}, {"below": 4.5}, {"above": 6.5}, {"below": 3.0, "above": 8.0}, {"below": -100.0}, {"above": 100.0}, {"above": 0.0}, {"below": 0.0}):
        yield "LimitFunction", "by %s" % ",".join("%s=%g" % kv for kv in k.items()), [lambda: arr(positive="up", u="km", mask=[(0, 2)])], k, ALL, limited
    for u in ("m", "days since 2000-01-01|noleap", "days since 2000-01-01"):
        for k in ({}, {"units": "km"}, {"units": "hours since 1900-01-01"}, {"units": "hours"}, {"refdate": "1850-01-01"}, {"calendar": "360_day"}, {"refdate": "1850-01-01", "calendar": "360_day"}, {"units": "hours", "refdate": "1850-01-01"},
                  {"units": "hours since 1900-01-01", "refdate": "1850-01-01", "calendar": "360_day"}, {"units": "hours since 1900-01-01", "calendar": "noleap"}, {"units": "hours", "calendar": "360_day"}):
            yield "ChangeUnitsFunction", "%s to %s" % (u, ",".join("%s=%s" % kv for kv in k.items())), [lambda u=u: arr(u=u, positive="up", mask=[(0, 2)])], k, ALL[:3], changed
    yield "ChangeUnitsFunction", "a number for the date", [arr], {"refdate": 5}, None, Missed("ValueError")
    yield "ChangeUnitsFunction", "a number for the calendar", [arr], {"calendar": 5}, None, Missed("ValueError")
    yield "RemoveUnitsFunction", "of km", [lambda: arr(u="km", positive="up", mask=[(0, 2)])], {}, ALL, unitless
    for dims in ((), ("p",), ("p", "q"), ("y", "x"), ("p", "q", "r"), ("x", "q")):
        new = tuple(dims[:2]) + ("x", "y")[len(dims):]
        yield "RenameDimensionsFunction", "to %s" % ",".join(dims), [lambda: arr(u="km", positive="up", mask=[(0, 2)])] + list(dims), {}, (None, slice(None), {new[0]: slice(0, 1)}, {new[1]: slice(1, 3)}, {new[0]: slice(1, 2), new[1]: slice(0, 2)}, (slice(None), slice(0, 2))), renamed
    two = [lambda: arr(u="km", positive="up", mask=[(0, 2)]), lambda: arr(("x", "y"), name="b", u="km")]
    for fn, op in (("AdditionOperator", "add"), ("SubtractionOperator", "sub"), ("MultiplicationOperator", "mul"), ("DivisionOperator", "truediv")):
        yield fn, "of two", two, {}, (None, slice(None), {"x": slice(0, 1)}, {"y": slice(1, 3)}), operated(op)
        yield fn, "of different dimensions", [two[0], lambda: arr(("x",), name="b", u="m")], {}, (None, slice(None), {"x": slice(0, 1)}), operated(op)
        yield fn, "with a number", [lambda: arr(u="1"), 2.5], {}, ALL[:3], operated(op)
        yield fn, "of a number", [2.5, lambda: arr(u="1", mask=[(0, 2)])], {}, ALL[:3], operated(op)
    T, zyx = lambda: arr(("t", "l", "y", "x"), u="1", sizes=FOUR, name="T"), ("t", "l", "y", "x")
    some = [lambda: arr((), u="1", name="PO"), lambda: arr(("t", "y", "x"), u="1", sizes=FOUR, name="PS"), lambda: arr(("l",), u="1", sizes=FOUR, name="hyam"), lambda: arr(("l",), u="1", sizes=FOUR, name="hybm"), T]
    for fn, more, u in (("rhoFunction", [], "cm-3"), ("pm25Function", [lambda: arr(zyx, u="1", sizes=FOUR, name="PM25")], "kg/kg")):
        yield "commonfunctions." + fn, "of a column", some + more, {}, (None, slice(None), {"t": slice(0, 1)}, {"l": slice(0, 2)}), lambda *a, u=u, fn=fn: dict(seen(a[4]), units=u, values=None, positive=None, name=[])
    yield "NegationOperator", "of one", two[:1], {}, ALL, negated
    yield "PowerOperator", "square", [lambda: arr(positive="up"), 2], {}, ALL[:3], powered
    yield "PowerOperator", "cube", [lambda: arr(positive="up", mask=[(0, 2)]), 3], {}, ALL[:3], powered


def outcomes(ctx):
    """[(function, what, index, place, the failure or what came, what should, what the arguments were asked, the problem with the arguments)]"""
    if "functions followed" in ctx.cache:
        return ctx.cache["functions followed"]
    out = []
    for fn, what, args, kw, indices, want in cases():
        c = cls_of(ctx, fn)
        place = ctx.place(c.find_method("__getitem__"))
        for index in indices or (None,):
            nodes = [node(a) if callable(a) else a for a in args]
            row = {"fn": fn, "what": what, "index": index, "place": place, "want": None, "got": None, "fails": None, "unknown": None, "nodes": nodes, "sumlike": None, "kept": None, "dims": args[1:]}
            out.append(row)
            if not isinstance(want, Missed):
                full = [node(a).fields["give"](old(fn, what, args, index)) if callable(a) else a for a in args]
                row["want"] = dict(want(*full, **kw), empty=index is None)
            else:
                row["want"] = want
            try:
                c, me = function(ctx, fn, nodes, kw)
                row["sumlike"] = me.fields.get("sumlike_dimensions", me.fields.get("_sumlike_dimensions"))
                start = [(len(n.fields["asked"]), len(n.fields["given"])) if isinstance(n, Obj) else None for n in nodes]
                row["setup"] = [list(n.fields["asked"]) for n in nodes if isinstance(n, Obj)]
                before = {k: v for k, v in me.fields.items() if k in ("arguments", "keywords")}
                sizes = {k: dict(v) if isinstance(v, dict) else list(v) for k, v in before.items()}
                got = asked(ctx, c, me, index)
                row["asked"] = [n.fields["asked"][s[0]:] for n, s in zip(nodes, start) if isinstance(n, Obj)]
                row["got"] = got
                row["kept"] = all(me.fields.get(k) is v and (dict(v) if isinstance(v, dict) else list(v)) == sizes[k] for k, v in before.items())
            except Wrong as v:
                row["fails"] = v
            except (Unknown, LookupError, TypeError, ValueError, AttributeError, ZeroDivisionError) as v:
                row["unknown"] = v
    ctx.cache["functions followed"] = out
    return out


def old(fn, what, args, index):
    """the index by the names of the argument's own dimensions"""
    if fn != "RenameDimensionsFunction" or not isinstance(index, dict):
        return index
    dims = args[1:]
    new = tuple(dims[:2]) + ("x", "y")[len(dims):]
    return {o: index[n] for o, n in zip(("x", "y"), new) if n in index}


def shape_of(i):
    return "whole" if i == slice(None) else repr(i)


def judged(prop, least, doc, which, judge):
    @rule(prop, "given-functions", least)
    def given(ctx):
        for row in outcomes(ctx):
            if not which(row):
                continue
            key = "%s %s at %s" % (row["fn"], row["what"], shape_of(row["index"]))

            def go(row=row, key=key):
                if row["unknown"] is not None:
                    raise Unknown("%s: %s" % (type(row["unknown"]).__name__, row["unknown"]))
                if isinstance(row["want"], Missed):
                    ctx.check(key, row["fails"] is not None, "is accepted, should fail with %s" % row["want"], row["place"])
                    return
                if row["fails"] is not None:
                    ctx.bad(key, "fails with %s" % row["fails"], row["place"])
                    return
                if not isinstance(row["got"], Obj) or "cells" not in row["got"].fields:
                    raise Unknown("gives %r" % (row["got"],))
                s = seen(row["got"])
                problem = judge(row, s, row["want"])
                ctx.check(key, not problem, problem or "", row["place"])
            attempt(ctx, key, go, row["place"])
    given.__doc__ = doc
    return given


def differences(s, w, keys):
    return "; ".join("%s: %s, should be %s" % (k, brief(s[k]), brief(w[k])) for k in keys if s[k] != w[k] and not (k == "values" and w.get("empty")))


def brief(v):
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %g" % ("".join("%s%s" % x for x in sorted(k, key=str)), x) for k, x in sorted(v.items(), key=str)[:6])
    return str(v)


REDUCTIONS = ("MeanFunction", "SumFunction", "MinFunction", "MaxFunction")


def reduction(row, s, w):
    p = differences(s, w, ("values", "dimensions", "units", "positive"))
    sl = row["sumlike"]
    if not p and isinstance(sl, (set, list, tuple, frozenset)) and set(sl) != set(row["dims"]):
        p = "the dimensions reduced over are given as %s, should be %s" % (sorted(map(str, sl)), sorted(map(str, row["dims"])))
    return p


def asking(row, s, w):
    want = old(row["fn"], row["what"], [None] + list(row["dims"]), row["index"])
    for xs in row.get("setup") or ():
        if any(x is not None for x in xs):
            return "the argument is asked for %s when the function is made" % [x for x in xs if x is not None]
    for xs in row["asked"]:
        bad = [x for x in xs if x is not None and x != want]
        if bad:
            return "the argument is asked for %s, should be %s" % (bad[0], want)
    return ""


def untouched(row, s, w):
    if not row["kept"]:
        return "the arguments of the function are changed"
    for n in row["nodes"]:
        if isinstance(n, Obj):
            for a, before in n.fields["given"]:
                if seen(a) != before:
                    return "an argument is changed: %s" % differences(seen(a), before, ("values", "units", "dimensions", "positive", "name"))
    return ""


def announced(row, s, w):
    return differences(s, w, ("units", "dimensions")) or (differences(s, w, ("positive",)))


def called(row, s, w):
    if row["fn"] == "NegationOperator" or "." in row["fn"]:
        return ""
    return "" if follows(words(s["name"]), *[y for x in w["name"] for y in (words(x) if len(x) > 1 else [x])]) else "is named %s, should have %s in it" % (s["name"], " ".join(w["name"]))


given_c07 = judged("C07", 150, "For given arrays and indices, the reductions of the definition language are followed: over every dimension listed that the part has, of what is not masked, with the other dimensions, the units and the direction.", lambda r: r["fn"] in REDUCTIONS, reduction)
given_c08 = judged("C08", 150, "For given arrays, what the functions and operators ask of their arguments is followed: nothing but their own index, and no data when they are made.", lambda r: not isinstance(r["want"], Missed), asking)
given_c06 = judged("C06", 150, "For given arrays, what the functions and operators leave of their arguments is followed: every value, name and unit as before.", lambda r: not isinstance(r["want"], Missed), untouched)
given_c23 = judged("C23", 150, "For given arrays, the units, dimensions and direction of what the functions give are followed, with an index and without: the same, as the arguments that control them say.", lambda r: not isinstance(r["want"], Missed), announced)
given_c33 = judged("C33", 150, "For given arrays, the name of what the functions give is followed: it has the function, the name of the argument and what was given for it.", lambda r: not isinstance(r["want"], Missed), called)
given_c03 = judged("C03", 30, "For given arrays, the values of operators, roots, limits and changes of units are followed.", lambda r: r["fn"] not in REDUCTIONS and "Positive" not in r["fn"] and "." not in r["fn"], lambda row, s, w: differences(s, w, ("values",)))
given_c05 = judged("C05", 20, "For given arrays, the functions that set a direction are followed: the values are negated exactly when the direction becomes the opposite one.", lambda r: "Positive" in r["fn"], lambda row, s, w: differences(s, w, ("values", "positive")))


# ---------------------------------------------------------------------- which way a coordinate runs


def differences(x, n=1, axis=-1, **k):
    if not isinstance(x, Obj) or "cells" not in x.fields or len(x.fields["shape"]) != 1 or n != 1 or k:
        raise Unknown("diff(%r)" % (x,))
    v = values(x)
    m = x.fields["shape"][0]
    return raw({(i,): v[(i + 1,)] - v[(i,)] for i in range(m - 1)}, (max(m - 1, 0),), ())


def holding(how):
    def go(x, *more, **k):
        if more or k:
            raise Unknown("%s of an axis" % how.__name__)
        if isinstance(x, Obj) and "cells" in x.fields:
            return how(bool(v) for v in values(x).values())
        if isinstance(x, (list, tuple)):
            return how(bool(v) for v in x)
        return bool(x)
    return go


def signs(x):
    if not isinstance(x, Obj) or "cells" not in x.fields:
        return (x > 0) - (x < 0)
    return raw({i: (v > 0) - (v < 0) for i, v in values(x).items()}, x.fields["shape"], x.fields["mask"])


RUNS = {"1 2 3 5": "increasing", "-3 -1 0.5 7": "increasing", "5 3 2 1": "decreasing", "2 0.5 -1 -9": "decreasing", "1 2 3 3": None, "3 3 2 1": None, "1 2 3 2": None, "5 4 3 4": None, "1 3 2 4": None, "4 2 3 1": None, "2 2 2 2": None,
        "1 2": "increasing", "2 1": "decreasing", "2 2": None}


@rule("C10", "direction-for-given-data", 12)
def direction_given(ctx):
    """For given coordinates the direction calculated is followed: increasing if each value is larger than the one before, decreasing if each is smaller, else none."""
    c = ctx.p.cls("flownodes.WriteNode")
    f = c.find_method("_direction_")
    r = ctx.run(f, cls=c)
    par = mk("arg", f.params()[0] if f.is_static else f.params()[1])
    for text, want in RUNS.items():
        def go():
            vals = [float(v) for v in text.split()]
            r.an.state = r.state
            lib = dict(LIBRARY, diff=differences, ediff1d=differences, all=holding(all), any=holding(any), sign=signs, alltrue=holding(all))
            a = raw({(i,): v for i, v in enumerate(vals)}, (len(vals),), ())
            g = Functions(r.an, {par: a}, calls=lib)
            g.perform(r)
            got = g.ev(r.value)
            ctx.check("direction of %s" % text.replace(" ", ","), got == want, "%s is said to be %s, not %s" % (text, got, want), f)
        attempt(ctx, "direction of %s" % text.replace(" ", ","), go, ctx.place(f))
