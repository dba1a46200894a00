"""physical arrays, followed for given operands: the values, units, dimensions, direction and name of what comes out"""
from itertools import product

from .engine import SELF
from .pev import Obj, Unknown, Wrong
from .q import exc_name
from .rule import rule
from .rules_follow import Follow
from .rules_graph import Missed
from .rules_mpi import attempt
from .rules_sources import aligned, taken, tupled
from .terms import mk, show

META = ("name", "units", "dimensions", "positive", "shape", "ndim")
SCALES = {"1": (1.0, {}), "m": (1.0, {"m": 1}), "km": (1000.0, {"m": 1}), "s": (1.0, {"s": 1}), "%": (0.01, {}), "h": (3600.0, {"s": 1}), "days since 2000|noleap": (24.0, {"T": 1}), "hours since 2000|noleap": (1.0, {"T": 1}), "days since 2000|360_day": (24.0, {"D": 1})}
UNITS = {}


def unit(u="1", calendar=None, **k):
    if isinstance(u, Obj):
        return u
    u = str(u) + ("|" + calendar if calendar else "")
    if u not in SCALES:
        raise Unknown("units %r" % u)
    return units(*SCALES[u])


def units(scale, exps):
    exps = {k: v for k, v in exps.items() if v}
    key = (round(scale, 9), tuple(sorted(exps.items())))
    if key in UNITS:
        return UNITS[key]
    label = next((k for k, (s, e) in SCALES.items() if (s, e) == (scale, exps)), None) or "%g %s" % (scale, " ".join("%s%g" % kv for kv in sorted(exps.items())))
    name, _, calendar = label.partition("|")
    o = UNITS[key] = Obj("Unit", label=label, calendar=calendar or None, scale=scale, exps=exps, __str__=name)

    def convert(data, to):
        if to.fields["exps"] != exps:
            raise Missed("ValueError")
        f = scale / to.fields["scale"]
        if isinstance(data, (int, float)):
            return data * f
        return raw({i: x * f for i, x in values(data).items()}, data.fields["shape"], set())
    o.fields.update(convert=convert, is_convertible=lambda v: v.fields["exps"] == exps, is_time_reference=lambda: bool(calendar), is_no_unit=lambda: False, invert=lambda: units(1 / scale, {k: -v for k, v in exps.items()}),
                    is_dimensionless=lambda: not exps, is_unknown=lambda: False)
    return o


def together(op, a, b):
    """units of a product, quotient or power"""
    if op == "**":
        if isinstance(b, Obj):
            b = values(b)[()]
        return units(a.fields["scale"] ** b, {k: v * b for k, v in a.fields["exps"].items()})
    if not isinstance(a, Obj) or not isinstance(b, Obj) or op not in ("*", "/"):
        raise Unknown("units %s" % op)
    s = 1 if op == "*" else -1
    e = dict(a.fields["exps"])
    for k, v in b.fields["exps"].items():
        e[k] = e.get(k, 0) + s * v
    return units(a.fields["scale"] * b.fields["scale"] ** s, e)


def values(a):
    if isinstance(a, (int, float)):
        return {(): a}
    return {i: c[0] for i, c in a.fields["cells"].items()}


def every(shape):
    return list(product(*[range(s) for s in shape]))


def raw(vals, shape, mask, kind="MaskedArray"):
    return behave(Obj(kind, label=kind, __str__="[data]", cells={i: [x] for i, x in vals.items()}, shape=tuple(shape), mask=set(mask), dtype="f8", ndim=len(shape)))


def phys(cells, shape, mask, name, u, dims, positive):
    dims = tuple(dims)
    if len(dims) != len(shape):
        raise Wrong("ValueError: %s named %s" % (shape, dims))
    if positive not in (None, "up", "down"):
        raise Wrong("ValueError: direction %r" % (positive,))
    a = Obj("PhysArray", label=name, __bases__=("MaskedArray", "ndarray"), cells=cells, shape=tuple(shape), mask=set(mask), dtype="f8", name=name, units=u, dimensions=dims, positive=positive, ndim=len(shape), __str__=name)
    a.fields["initial"] = {k: a.fields[k] for k in META}
    return behave(a)


def construct(data=None, name=None, units=None, dimensions=None, positive="", **k):
    k.pop("dtype", None)
    if set(k) - {"mask"}:
        raise Unknown("PhysArray(%s)" % sorted(k))
    if isinstance(data, (int, float)):
        data = raw({(): data}, (), set(), "number")
        data.fields["label"] = "%g" % values(data)[()]
    if not isinstance(data, Obj) or "cells" not in data.fields:
        raise Unknown("PhysArray of %r" % (data,))
    f = data.fields
    own = "initial" in f
    u = units if units is not None else f["units"] if own else unit("1")
    mask = f["mask"]
    if k.get("mask") is not None:
        mask = hidden(k["mask"])
    p = positive if positive != "" else f["positive"] if own else None
    return phys(f["cells"], f["shape"], mask, name if name is not None else f["name"] if own else f["label"], unit(u) if not isinstance(u, Obj) else u,
                dimensions if dimensions is not None else f["dimensions"] if own else tuple(reversed(range(len(f["shape"])))), p)


def hidden(m):
    if isinstance(m, set):
        return m
    raise Unknown("mask %r" % (m,))


def masked(data, mask=None, dtype=None, **k):
    if not isinstance(data, Obj) or "cells" not in data.fields or k:
        raise Unknown("MaskedArray of %r" % (data,))
    return raw(values(data), data.fields["shape"], hidden(mask) if mask is not None else data.fields["mask"])


def spread(a, b):
    """the shape of two together, axis by axis"""
    n = max(len(a), len(b))
    x, y = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for s, t in zip(x, y):
        if s != t and 1 not in (s, t):
            raise Missed("ValueError")
        out.append(t if s == 1 else s)
    return tuple(out)


def at(shape, i):
    i = i[len(i) - len(shape):]
    return tuple(0 if s == 1 else k for s, k in zip(shape, i))


OPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "truediv": lambda x, y: x / y, "floordiv": lambda x, y: x // y, "pow": lambda x, y: x ** y}


def elementwise(op, a, b, into=None):
    b = construct(b) if isinstance(b, (int, float)) else b
    if not isinstance(b, Obj) or "cells" not in b.fields:
        raise Unknown("%s of %r" % (op, b))
    sa, sb = a.fields["shape"], b.fields["shape"]
    shape = spread(sa, sb)
    va, vb = values(a), values(b)
    out, mask = {}, set()
    for i in every(shape):
        try:
            out[i] = OPS[op](va[at(sa, i)], vb[at(sb, i)])
        except ZeroDivisionError:
            out[i] = 0.0
            mask.add(i)
        if at(sa, i) in a.fields["mask"] or at(sb, i) in b.fields["mask"]:
            mask.add(i)
    if into is not None:
        if shape != sa:
            raise Missed("ValueError")
        for i, x in out.items():
            into.fields["cells"][i][0] = x
        into.fields["mask"] = mask
        return into
    res = raw(out, shape, mask)
    if a.kind == "PhysArray":       # what is made from an array takes over what the array is described by
        f = a.fields
        if len(f["dimensions"]) != len(shape):
            raise Wrong("%d axes under %s" % (len(shape), f["dimensions"]))
        res = phys(res.fields["cells"], shape, mask, f["name"], f["units"], f["dimensions"], f["positive"])
    return res


def alike(a, vals, shape, mask, dims=None):
    """the same kind of array with other values"""
    if a.kind != "PhysArray":
        return raw(vals, shape, mask)
    f = a.fields
    dims = f["dimensions"] if dims is None else dims
    x = Obj("PhysArray", label=f["name"], __bases__=("MaskedArray", "ndarray"), cells={i: [v] for i, v in vals.items()}, shape=tuple(shape), mask=set(mask), dtype="f8", name=f["name"], units=f["units"], dimensions=tuple(dims),
            positive=f["positive"], ndim=len(shape), __str__=f["name"])
    x.fields["initial"] = {k: x.fields[k] for k in META}
    return behave(x)


def over(axis, n):
    axis = tuple(range(n)) if axis is None else axis if isinstance(axis, (tuple, list)) else (axis,)
    axis = tuple(x + n if isinstance(x, int) and x < 0 else x for x in axis)
    if any(not isinstance(x, int) or not 0 <= x < n for x in axis):
        raise Missed("AxisError")
    return axis


def reduce(a, axis, how):
    f = a.fields
    n = len(f["shape"])
    axis = over(axis, n)
    left = [k for k in range(n) if k not in axis]
    got = {}
    for i, x in values(a).items():
        got.setdefault(tuple(i[k] for k in left), []).append(None if i in f["mask"] else x)
    shape = tuple(f["shape"][k] for k in left)
    out, mask = {}, set()
    for i in every(shape):
        xs = [x for x in got.get(i, []) if x is not None]
        if not xs:
            mask.add(i)
        out[i] = how(xs) if xs else 0.0
    return raw(out, shape, mask)


HOW = {"sum": sum, "mean": lambda v: sum(v) / len(v), "min": min, "max": max}


def behave(a):
    f = a.fields

    def axes(*ds):
        ds = tuple(ds[0]) if len(ds) == 1 and isinstance(ds[0], (tuple, list)) else ds
        return over(ds or tuple(reversed(range(len(f["shape"])))), len(f["shape"]))

    def turned(*ds):
        ax = axes(*ds)
        if sorted(ax) != list(range(len(f["shape"]))):
            raise Missed("ValueError")
        move = lambda i: tuple(i[k] for k in ax)
        r = alike(a, {}, move(f["shape"]), {move(i) for i in f["mask"]})
        r.fields["cells"] = {move(i): c for i, c in f["cells"].items()}
        return r

    def part(i):
        if not isinstance(i, tuple) and i not in (Ellipsis,) and not isinstance(i, (int, slice)):
            raise Unknown("index %r" % (i,))
        i = tupled(i, len(f["shape"]))
        vs, s = taken({k: k for k in f["cells"]}, f["shape"], i)
        if not s and i:
            k = vs[()]
            return values(a)[k] if k not in f["mask"] else raw({(): values(a)[k]}, (), {()})
        r = alike(a, {}, s, {j for j, k in vs.items() if k in f["mask"]})
        r.fields["cells"] = {j: f["cells"][k] for j, k in vs.items()}
        return r

    def put(i, v):
        if isinstance(i, tuple) and i and all(isinstance(x, tuple) for x in i):      # a row of numbers for each axis
            for k in zip(*i):
                put(k, v)
            return
        vs, s = taken({k: k for k in f["cells"]}, f["shape"], tupled(i, len(f["shape"])))
        sv = () if isinstance(v, (int, float)) else v.fields["shape"]
        if spread(sv, s) != s:
            raise Missed("ValueError")
        val = values(v)
        hid = set() if isinstance(v, (int, float)) else v.fields["mask"]
        for j, k in vs.items():
            f["cells"][k][0] = val[at(sv, j)]
            (f["mask"].add if at(sv, j) in hid else f["mask"].discard)(k)

    def view(cls=None, *b):
        n = getattr(cls, "kind", None)
        lab = cls.fields.get("label", n) if isinstance(cls, Obj) else str(cls)
        if "PhysArray" in lab:
            r = construct(a)
            r.fields["dtype"] = f["dtype"]
            return r
        r = raw({}, f["shape"], f["mask"])
        r.fields["cells"] = f["cells"]
        return r
    f.update(transpose=turned, __getitem__=part, put=put, copy=lambda *b: alike(a, values(a), f["shape"], f["mask"]), view=view, sum=lambda axis=None, **k: reduce(a, axis, HOW["sum"]), mean=lambda axis=None, **k: reduce(a, axis, HOW["mean"]),
             min=lambda axis=None, **k: reduce(a, axis, HOW["min"]), max=lambda axis=None, **k: reduce(a, axis, HOW["max"]))
    return a


class Arrays(Follow):
    def perform(self, r):
        for e in sorted(r.events, key=lambda e: e.seq):
            if e.kind == "raise":
                if self.happens(e.loops or (), e.guards, self.env, e.seq):
                    raise Missed(exc_name(e.val) or "reraised")
            elif e.kind == "call" and e.res is not None and e.loops:
                self.attempted(e)
            elif e.kind == "call" and e.res is not None:
                for x in self.happens((), e.guards, self.env, e.seq):
                    self.env.pop(e.res, None)
                    try:
                        self.env[e.res] = self.ev(e.res, x)
                    except Missed:
                        if not any(c[0] == "try" for c in e.ctx or ()):
                            raise
                    except (ValueError, LookupError) as v:
                        raise Missed(type(v).__name__)
                    except Unknown:
                        if e.res.op in ("supercall", "new") or e.f is not None and (e.f.op == "supermeth" or self.effective(e.f, x)):
                            raise
            elif e.kind in ("setattr", "aug", "setitem") and e.obj is not None and e.obj.op != "alloc":
                for x in self.happens(e.loops or (), e.guards, self.env, e.seq):
                    o = self.ev(e.obj, x)
                    if not isinstance(o, Obj):
                        raise Unknown("a change of %r" % (o,))
                    if e.kind == "setattr":
                        self.assign(o, e.name, self.ev(e.val, x))
                    elif e.kind == "aug":
                        self.change(o, e, self.ev(e.val, x))
                    else:
                        o.fields["put"](self.ev(e.name, x), self.ev(e.val, x))

    def attempted(self, e):
        """a call in the passes of a loop fails where it would"""
        if e.f is None or e.f.op != "attr" or e.f.args[1] != "index":
            return
        try:
            for x in self.happens(e.loops, e.guards, self.env, e.seq):
                self.ev(e.res, x)
        except (ValueError, LookupError) as v:
            raise Missed(type(v).__name__)
        except Unknown:
            pass

    def change(self, o, e, v):
        op = {"*": "mul", "+": "add", "-": "sub", "/": "truediv"}.get(str(e.name))
        if op is None or "cells" not in o.fields:
            raise Unknown("%s= of %r" % (e.name, o))
        elementwise(op, o, v, o)

    def assign(self, o, name, v):
        f = o.fields
        if name == "shape":
            old, new = every(f["shape"]), every(v)
            if len(old) != len(new):
                raise Missed("ValueError")
            to = dict(zip(old, new))
            f["cells"] = {to[i]: c for i, c in f["cells"].items()}
            f["mask"] = {to[i] for i in f["mask"]}
            f["ndim"] = len(v)
        if name == "dimensions" and len(v) != len(f["shape"]):
            raise Missed("ValueError")
        if name == "units" and not isinstance(v, Obj):
            v = unit(v)
        if name == "positive" and v is not None:
            if not isinstance(v, str) or v.lower() not in ("up", "down"):
                raise Missed("ValueError")
            v = v.lower()
        f[name] = tuple(v) if name in ("shape", "dimensions") else v
        if name == "name":
            f["__str__"] = f["label"] = v

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in self.env:
            return self.env[t]
        if t.op == "ext" and t.args[0].split(".")[-1].strip("<>") in ("MaskedArray", "ndarray"):
            return Obj("type", label=t.args[0].split(".")[-1].strip("<>"))
        if t.op == "ext" and t.args[0].strip("<>") == "os.linesep":
            return "\n"
        if t.op == "ext" and t.args[0].strip("<>") == "Ellipsis":
            return Ellipsis
        if t.op == "supercall":
            o = self.ev(t.args[2], env)
            xs, ks = self.values(t.args[3], env), self.kws(t.args[4], env) if len(t.args) > 4 else {}
            n = t.args[1]
            if n.startswith("__") and n.strip("_") in OPS:
                return elementwise(n.strip("_"), o, xs[0])
            if n.startswith("__i") and n.strip("_")[1:] in OPS:
                return elementwise(n.strip("_")[1:], o, xs[0], o)
            if n.startswith("__r") and n.strip("_")[1:] in OPS:
                return elementwise(n.strip("_")[1:], construct(xs[0]) if not isinstance(xs[0], Obj) else xs[0], o)
            if n == "__setitem__":
                return o.fields["put"](*xs)
            if n in o.fields and callable(o.fields[n]):
                return o.fields[n](*xs, **ks)
            raise Unknown("super().%s" % n)
        if t.op == "attr" and t.args[1] == "size":
            o = self.ev(t.args[0], env)
            if isinstance(o, Obj) and "cells" in o.fields:
                return len(every(o.fields["shape"]))
        if t.op == "attr" and t.args[1] in META + ("data", "_data"):
            o = self.ev(t.args[0], env)
            if isinstance(o, Obj) and "cells" in o.fields:
                f = o.fields
                if t.args[1] in META:
                    return f["initial"][t.args[1]] if "initial" in f else f[t.args[1]]
                r = raw({}, f["shape"], ())
                r.fields["cells"] = f["cells"]
                return r
        if t.op == "neg":
            v = self.ev(t.args[0], env)
            if isinstance(v, Obj) and "cells" in v.fields:
                return alike(v, {i: -x for i, x in values(v).items()}, v.fields["shape"], v.fields["mask"])
        return super().ev(t, env)

    def arith(self, op, x, y):
        if isinstance(x, Obj) or isinstance(y, Obj):
            if any(isinstance(z, Obj) and z.kind == "Unit" for z in (x, y)):
                return together(op, x, y)
            n = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "**": "pow"}.get(op)
            if op == "%" and isinstance(x, Obj) and isinstance(y, (int, float)):
                return raw({i: v % y for i, v in values(x).items()}, x.fields["shape"], x.fields["mask"])
            if n:
                if isinstance(y, Obj) and y.kind == "PhysArray" and (not isinstance(x, Obj) or x.kind != "PhysArray" and not x.fields["shape"]):
                    v, u, p, _ = combined(n, construct(x), y)       # the array answers to the other
                    f = y.fields
                    got = {i: v.get(frozenset(zip(f["dimensions"], i)), 0.0) for i in every(f["shape"])}
                    return phys({i: [z] for i, z in got.items()}, f["shape"], {i for i in got if frozenset(zip(f["dimensions"], i)) not in v}, "(%s%s)" % (x, f["name"]), unit_of(u, y), f["dimensions"], p)
                return elementwise(n, construct(x) if not isinstance(x, Obj) else x, y)
        if op == "**" and isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return x ** y
        return super().arith(op, x, y)

    def compare(self, op, x, y):
        if isinstance(x, Obj) and x.kind == "Unit" or isinstance(y, Obj) and y.kind == "Unit":
            if op in ("==", "is", "!=", "is not"):
                return (x is y) == (op in ("==", "is"))
            raise Unknown("units %s" % op)
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Obj) and "cells" in a.fields and a.fields["shape"] == () and isinstance(b, (int, float)):
                v = values(a)[()]
                return super().compare(op, v, y) if a is x else super().compare(op, x, v)
        return super().compare(op, x, y)


def arr(dims=("x", "y"), sizes=None, u="m", positive=None, name="a", mask=(), vals=None):
    sizes = sizes or {"x": 2, "y": 3, "z": 2}
    shape = tuple(sizes[d] for d in dims)
    start = 2 if name == "a" else 3
    vals = vals or {i: float(start + 2 * k) * (-1) ** (k == 1) for k, i in enumerate(every(shape))}
    return phys({i: [x] for i, x in vals.items()}, shape, mask, name, unit(u), dims, positive)


def named(a):
    """the values by the names of the dimensions"""
    f = a.fields
    return {frozenset(zip(f["dimensions"], i)): round(x, 9) for i, x in values(a).items() if i not in f["mask"]}


def seen(a):
    if isinstance(a, (int, float)):
        a = construct(a)
    f = a.fields
    return {"values": named(a), "units": f["units"].fields["label"], "dimensions": f["dimensions"], "positive": f["positive"], "name": f["name"]}


def words(name):
    """the names, numbers and operators of a name, in their order"""
    out, w = [], ""
    for c in name:
        if c.isalnum() or c in "_.|":
            w += c
            continue
        if w:
            out.append(w)
        w = ""
        if c in "+-*/%^" or c == ",":
            out.append(c)
    return tuple(out + [w] if w else out)


def run(ctx, method, me, *args, **kw):
    c = ctx.p.cls("physarray.PhysArray")
    f = c.find_method(method)
    key = ("arrays", method)
    if key not in ctx.cache:
        ctx.cache[key] = ctx.run(f, cls=c)
    r = ctx.cache[key]
    r.an.state = r.state
    g = Arrays(r.an, {SELF: me}, calls={"PhysArray": construct, "MaskedArray": masked, "Unit": unit, "align_index": aligned, "index_tuple": tupled, "mul": lambda x, y: together("*", x, y), "truediv": lambda x, y: together("/", x, y)})
    ps = [a.arg for a in f.node.args.args][1:]
    va = f.node.args.vararg
    for p, x in zip(ps, args):
        g.env[mk("arg", p)] = x
    if va is not None:
        g.env[mk("arg", "*" + va.arg)] = tuple(args[len(ps):])
    for p, d in zip(ps[len(ps) - len(f.node.args.defaults):], f.node.args.defaults):
        if mk("arg", p) not in g.env and getattr(d, "value", 0) is None:
            g.env[mk("arg", p)] = None
    if f.node.args.kwarg is not None:
        g.env[mk("arg", "**" + f.node.args.kwarg.arg)] = dict(kw)
    g.perform(r)
    return g.ev(r.value), ctx.place(f)


def number(x):
    """a plain number, which is an array without dimensions, units and direction"""
    a = phys({(): [float(x)]}, (), (), "%g" % x, unit("1"), (), None)
    a.kind = "float"
    a.fields["__bases__"] = ()
    return a


OPPOSITE = {"up": "down", "down": "up"}
SIGNS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//"}


def combined(op, a, b, into=False):
    """what an operation on two arrays should give: (values, units, direction)"""
    fa, fb = a.fields, b.fields
    sizes = dict(zip(fa["dimensions"], fa["shape"]))
    for d, n in zip(fb["dimensions"], fb["shape"]):
        if sizes.setdefault(d, n) != n:
            raise Missed("DimensionsError")
        if into and d not in fa["dimensions"] and n > 1:
            raise Missed("DimensionsError")
    if op in ("add", "sub"):
        if fa["units"].fields["exps"] != fb["units"].fields["exps"]:
            raise Missed("UnitsError")
        k, u = fb["units"].fields["scale"] / fa["units"].fields["scale"], fa["units"]
    else:
        k, u = 1.0, together("*" if op == "mul" else "/", fa["units"], fb["units"])
    p, q = fa["positive"], fb["positive"]
    if p and q and p != q:
        k = -k
    names = list(sizes)
    va, vb = named(a), named(b)
    out = {}
    for i in every(tuple(sizes.values())):
        w = dict(zip(names, i))
        x = va.get(frozenset((d, w[d]) for d in fa["dimensions"]))
        y = vb.get(frozenset((d, w[d]) for d in fb["dimensions"]))
        if x is None or y is None or y == 0 and op in ("truediv", "floordiv"):
            continue
        out[frozenset(w.items())] = round(OPS[op](x, y * k), 9)
    return out, u.fields["label"], p or q, sizes


def unit_of(label, *known):
    """the units under a label"""
    for u in [k.fields["units"] for k in known] + list(UNITS.values()):
        if u.fields["label"] == label:
            return u
    return unit(label)


A = arr


def pairs():
    """(what, the property it is about, first operand, second operand)"""
    b = lambda *x, **k: A(*x, name="b", **k)
    yield "same units", "C03", A(), b()
    yield "other units", "C03", A(), b(u="km")
    yield "to larger units", "C03", A(u="km"), b(u="m")
    yield "unrelated units", "C03", A(), b(u="s")
    yield "a scalar with units", "C03", A(), b((), u="km")
    yield "a number", "C03", A(u="1"), number(3)
    yield "a number and units", "C03", A(u="m"), number(3)
    yield "per cent and a number", "C03", A(u="%"), number(3)
    yield "from a scalar", "C03", A((), u="km"), b(u="m")
    yield "other order", "C04", A(), b(("y", "x"))
    yield "other order, square", "C04", A(sizes={"x": 2, "y": 2}), b(("y", "x"), sizes={"x": 2, "y": 2})
    yield "turned around", "C04", A(("x", "y", "z")), b(("z", "x", "y"))
    yield "turned the other way", "C04", A(("x", "y", "z"), sizes={"x": 2, "y": 2, "z": 2}), b(("y", "z", "x"), sizes={"x": 2, "y": 2, "z": 2})
    yield "first of two", "C04", A(), b(("x",))
    yield "last of two", "C04", A(), b(("y",))
    yield "outer two of three", "C04", A(("x", "y", "z")), b(("z", "x"))
    yield "one more", "C04", A(("y",)), b(("x", "y"))
    yield "nothing in common", "C04", A(("x",)), b(("z",))
    yield "overlapping", "C04", A(("x", "y")), b(("z", "y"))
    yield "one more of size one", "C04", A(("x",)), b(("w", "x"), sizes={"w": 1, "x": 2})
    yield "other sizes", "C04", A(("x", "y")), b(("y", "x"), sizes={"x": 2, "y": 2})
    yield "smaller first", "C04", A(("x", "y")), b(("x", "y"), sizes={"x": 3, "y": 3})
    yield "size one", "C04", A(("x", "y")), b(("x", "y"), sizes={"x": 1, "y": 3})
    yield "to size one", "C04", A(("x",), sizes={"x": 1}), b(("x",), sizes={"x": 3})
    yield "masked", "C04", A(mask=[(0, 1)]), b(("y", "x"), mask=[(2, 1)])
    for p, q in product((None, "up", "down"), repeat=2):
        if p or q:
            yield "%s and %s" % (p or "none", q or "none"), "C05", A(positive=p), b(positive=q)
    yield "scalars", "C05", A((), positive="up"), b((), positive="down")
    yield "scalar against", "C05", A(positive="down"), b((), positive="up")
    yield "other units and order", "C05", A(positive="up"), b(("y", "x"), u="km", positive="down")
    yield "units and direction taken", "C05", A(("x",)), b(("y",), u="km", positive="down")
    yield "more and against", "C05", A(("y",), positive="down"), b(("x", "y"), positive="up")


def operations():
    for op in SIGNS:
        for form in ("", "i", "r"):
            yield op, form


def performed(ctx):
    """{(operation, form, what): (the property, what came out or why not, what should, what the operands are after and before)}"""
    if "performed arrays" in ctx.cache:
        return ctx.cache["performed arrays"]
    out = {}
    for op, form in operations():
        for (what, prop, a, b), (_, _, a0, b0) in zip(pairs(), pairs()):
            if form == "r" and b.kind == "float":
                continue            # a plain number has no such method to be reflected from: it is the other operand
            m = "__%s%s__" % (form, op)
            try:
                want = combined(op, *((b0, a0) if form == "r" else (a0, b0)), into=form == "i")
            except Missed as x:
                want = x
            try:
                got = ("value",) + run(ctx, m, a, b)
            except Missed as x:
                got = ("fails", x)
            except Wrong as x:
                got = ("wrong", x)
            except Unknown as x:
                got = ("unknown", x)
            out[op, form, what] = (prop, got, want, (a, b, a0, b0))
    ctx.cache["performed arrays"] = out
    return out


def about(ctx, prop, judge):
    c = ctx.p.cls("physarray.PhysArray")
    for (op, form, what), (p, got, want, operands) in performed(ctx).items():
        f = c.find_method("__%s%s__" % (form, op))
        key, place = "__%s%s__ %s" % (form, op, what), ctx.place(f)
        if got[0] == "unknown":
            if p == prop:
                ctx.unknown(key, "not decided: %s" % got[1], place)
            continue
        judge(key, place, op, form, p, got, want, operands)


def outcome(ctx, key, place, op, form, got, want):
    """is it what it should be? (whether it fails, and how, or the values, units and direction)"""
    if isinstance(want, Missed):
        ctx.check(key, got[0] == "fails" and str(got[1]) in (str(want), "ValueError") or got[0] == "fails" and str(want) == "UnitsError" and "Error" in str(got[1]),
                  "gives %s, should fail with %s" % (seen(got[1]) if got[0] == "value" else got[1], want), place)
        return
    if got[0] != "value":
        ctx.bad(key, "fails with %s" % got[1], place)
        return
    s = seen(got[1])
    vals, u, p, sizes = want
    diff = [x for x in (s["values"] != vals and "values are %s, should be %s" % (short(s["values"]), short(vals)), s["units"] != u and "units are %s, should be %s" % (s["units"], u),
                        s["positive"] != p and "direction is %s, should be %s" % (s["positive"], p), set(s["dimensions"]) != set(sizes) and "dimensions are %s" % (s["dimensions"],)) if x]
    ctx.check(key, not diff, "; ".join(diff), place)


def short(v):
    return "{%s}" % ", ".join("%s: %g" % (" ".join("%s=%d" % p for p in sorted(k)), x) for k, x in sorted(v.items(), key=lambda kv: sorted(kv[0]))[:6])


def for_operands(prop, least):
    @rule(prop, "given-operands", least)
    def given(ctx):
        about(ctx, prop, lambda key, place, op, form, p, got, want, operands: p == prop and outcome(ctx, key, place, op, form, got, want))
    return given


for_operands("C03", 100).__doc__ = "For given operands, what each arithmetic operation gives is followed: the values with the second operand in the units of the first, and the units that follow from the operation; unrelated units fail."
for_operands("C04", 200).__doc__ = "For given operands, what each arithmetic operation gives is followed: each value is combined with the one at the same place by the names of the dimensions; other sizes fail."
for_operands("C05", 150).__doc__ = "For given operands, what each arithmetic operation gives is followed: an operand of opposite direction is negated once, and the result has the direction of those that have one."


@rule("C06", "given-operands", 400)
def operands_kept(ctx):
    """For given operands, an operation leaves both as they were, except for the first of an in-place operation."""
    def judge(key, place, op, form, p, got, want, operands):
        a, b, a0, b0 = operands
        bad = []
        for n, x, y in (("first", a, a0), ("second", b, b0)):
            if n == "first" and form == "i":
                continue
            s, t = seen(x), seen(y)
            bad += ["the %s operand's %s is %s, was %s" % (n, k, s[k] if k != "values" else short(s[k]), t[k] if k != "values" else short(t[k])) for k in s if s[k] != t[k]]
        ctx.check(key, not bad, "; ".join(bad), place)
    about(ctx, "C06", judge)


@rule("C33", "given-operands", 300)
def operands_named(ctx):
    """For given operands, the name of the result has the names of both in their order, the operation between them, and the conversion, turning, widening and reordering applied to each, with its source and target."""
    def judge(key, place, op, form, p, got, want, operands):
        if got[0] != "value" or isinstance(want, Missed):
            return
        a, b = operands[2:]
        x, y = (b, a) if form == "r" else (a, b)
        name = seen(got[1])["name"]
        nx, ny = x.fields["name"], y.fields["name"]
        w = words(name)
        bad = []
        at = [i for i in range(len(w)) if w[i] == SIGNS[op][0]]
        if not at or nx not in w[:at[0]] or ny not in w[at[-1]:] or "".join(w[at[0]:at[-1] + 1]) != SIGNS[op]:
            bad.append("%s is not of %s and %s" % (SIGNS[op], nx, ny))
        else:
            left, right = w[:at[0]], w[at[-1] + 1:]
            ux, uy = x.fields["units"].fields["label"], y.fields["units"].fields["label"]
            if op in ("add", "sub") and ux != uy:
                if not follows(right, "convert", uy.strip("%") or "%", ux.strip("%") or "%"):
                    bad.append("no conversion from %s to %s" % (uy, ux))
            elif "convert" in w:
                bad.append("a conversion that was not made")
            dx, dy = x.fields["dimensions"], y.fields["dimensions"]
            more = [d for d in dy if d not in dx]
            if dx and more and not follows(left, "broadcast", *(dx + dx + tuple(more))):
                bad.append("no widening of %s" % nx)
            px, py = x.fields["positive"], y.fields["positive"]
            for side, mine, other, n in ((left, px, py, nx), (right, py, px, ny)):
                turned = other is not None and mine != other and (n is ny or mine is None) if not (mine and other and n is nx) else False
                if turned != (other in side if other else False):
                    bad.append("%s is %s" % (n, "not shown as turned" if turned else "shown as turned"))
        ctx.check(key, not bad, "%s: %s" % (name, "; ".join(bad)), place)
    about(ctx, "C33", judge)


def follows(w, *seq):
    it = iter([x for x in w if x != ","])
    return all(any(x == y for y in it) for x in seq)


# ---------------------------------------------------------------------- the other methods

NAME = object()


def cases():
    """(property, what, method, the array, arguments, what should come out: values, units, dimensions, direction, name), where a function makes them of the array, or the failure"""
    F = lambda *x: Missed("/".join(x))
    same = lambda a: seen(a)
    for u, v in (("m", "km"), ("km", "m"), ("m", "m"), ("%", "1"), ("s", "h"), ("days since 2000|noleap", "hours since 2000|noleap")):
        k = SCALES[u][0] / SCALES[v][0]

        def want(a, k=k, u=u, v=v):
            s = seen(a)
            s.update(values={i: round(x * k, 9) for i, x in s["values"].items()}, units=v)
            s["name"] = ("convert", u, v, s["name"]) if u != v else s["name"]
            return s
        yield "C03", "%s to %s" % (u, v), "convert", A(u=u, positive="up", mask=[(0, 1)]), (unit(v),), want
        if "|" not in v:
            yield "C03", "%s to %s by name" % (u, v), "convert", A(("y",), u=u), (v,), want
    yield "C03", "m to s", "convert", A(), (unit("s"),), F("UnitsError")
    yield "C03", "other calendar", "convert", A(u="days since 2000|noleap"), (unit("days since 2000|360_day"),), F("UnitsError")
    for dims, to in ((("x", "y"), ("y", "x")), (("x", "y", "z"), ("z", "x", "y")), (("x", "y", "z"), ("y", "z", "x")), (("x", "y", "z"), ("z", "y", "x")), (("x", "y"), ("x", "y")), (("y", "x"), ("x", "y")), (("z", "x", "y"), ("y", "z", "x"))):
        def want(a, to=to):
            s = seen(a)
            if to != s["dimensions"]:
                s["name"] = ("transpose", s["name"]) + s["dimensions"] + to
            s["dimensions"] = to
            return s
        a = lambda: A(dims, positive="down", mask=[(0,) * (len(dims) - 1) + (1,)])
        yield "C04", "to %s" % ",".join(to), "transpose", a(), to, want
        yield "C04", "to (%s)" % ",".join(to), "transpose", a(), (to,), want
        yield "C04", "to [%s]" % ",".join(to), "transpose", a(), (list(to),), want
        yield "C04", "axes to %s" % ",".join(to), "transpose", a(), tuple(dims.index(d) for d in to), want
        yield "C04", "square to %s" % ",".join(to), "transpose", A(dims, sizes=dict.fromkeys(dims, 2)), to, want
    for to in (("x", "q"), ("x",), ("x", "y", "z"), ("x", "x")):
        yield "C04", "to %s fails" % ",".join(to), "transpose", A(), to, F("DimensionsError")
    for m, p in product(("flip", "up", "down"), (None, "up", "down")):
        def want(a, m=m, p=p):
            s = seen(a)
            q = OPPOSITE.get(p) if m == "flip" else m
            if p and q != p:
                s["values"] = {i: -x for i, x in s["values"].items()}
            if q != p:
                s["name"] = (q, s["name"])
            s["positive"] = q
            return s
        yield "C05", "%s of %s" % (m, p or "none"), m, A(positive=p, mask=[(1, 0)]), (), want
        yield "C05", "%s of %s scalar" % (m, p or "none"), m, A((), positive=p), (), want
    for n, (dims, index) in enumerate([(("x", "y"), slice(None)), (("x", "y"), 1), (("x", "y"), (slice(None), 1)), (("x", "y"), (slice(0, 1), slice(1, 3))), (("x", "y"), {"y": 2}), (("x", "y"), {"y": slice(0, 2), "x": 1}),
                                       (("x", "y"), None), (("x", "y"), (Ellipsis, 0)), (("x", "y", "z"), (0, slice(None), 1)), (("x", "y", "z"), {"x": 1, "z": 0}), (("x", "y", "z"), (slice(None), -1)),
                                       (("x", "y"), {"q": 1}), (("x", "y", "z"), {"y": slice(2, 0, -1)}), (("x",), slice(1, 1)), ((), slice(None)), ((), None), (("x", "y"), {"y": slice(1, 2)})]):
        def want(a, dims=dims, index=index):
            s = seen(a)
            at = aligned(index, dims)
            f = a.fields
            vs, sh = taken({k: k for k in f["cells"]}, f["shape"], at)
            left = tuple(d for d, i in zip(dims, at) if isinstance(i, slice))
            s.update(values={frozenset(zip(left, i)): round(f["cells"][k][0], 9) for i, k in vs.items() if k not in f["mask"]}, dimensions=left)
            return s
        yield "C04", "at %r of %s" % (index, ",".join(dims)), "__getitem__", A(dims, positive="up", u="km", mask=[(0,) * (len(dims) - 1) + (1,)] if dims else ()), (index,), want
    for what, a, index, v, w in [
        ("other units", A(), slice(None), A(name="b", u="km"), None), ("other order", A(), slice(None), A(("y", "x"), name="b"), None), ("both", A(), slice(None), A(("y", "x"), name="b", u="km"), None),
        ("unrelated units", A(), slice(None), A(name="b", u="s"), F("UnitsError")), ("square", A(sizes={"x": 2, "y": 2}), slice(None), A(("y", "x"), sizes={"x": 2, "y": 2}, name="b"), None),
        ("part", A(sizes={"x": 4, "y": 3}), {"x": slice(1, 3)}, A(("y", "x"), name="b", u="km"), None), ("turned around", A(("x", "y", "z")), slice(None), A(("z", "x", "y"), name="b"), None),
        ("part by place", A(sizes={"x": 3, "y": 4}), (slice(1, 3), slice(0, 3)), A(("x", "y"), name="b", u="km"), None), ("a number", A(u="1"), {"y": 1}, 4.0, None), ("other dimensions", A(), slice(None), A(("z", "x"), name="b"), F("DimensionsError", "ValueError")),
        ("hidden", A(mask=[(0, 0)]), slice(None), A(name="b", mask=[(1, 1)]), None),
    ]:
        def want(a, index=index, v=v):
            s = seen(a)
            f = a.fields
            at = aligned(index, f["dimensions"])
            vs, sh = taken({k: k for k in f["cells"]}, f["shape"], at)
            vals = {k: round(c[0], 9) for k, c in f["cells"].items() if k not in f["mask"]}
            for j, k in vs.items():
                vals.pop(k, None)
                if isinstance(v, float):
                    vals[k] = v
                    continue
                x = named(v).get(frozenset(zip([d for d, i in zip(f["dimensions"], at) if isinstance(i, slice)], j)))
                if x is not None:
                    vals[k] = round(x * v.fields["units"].fields["scale"] / f["units"].fields["scale"], 9)
            s["values"] = {frozenset(zip(f["dimensions"], k)): x for k, x in vals.items()}
            return s
        yield "C03" if "unit" in what or what == "both" else "C04", "assigned: %s" % what, "__setitem__", a, (index, v), w or want
    for m in ("__pow__", "__ipow__"):
        for what, a, e, w in [("square", A(), number(2), 2), ("cube", A(positive="up"), number(3), 3), ("even", A(positive="up"), number(2), 2), ("fourth", A(positive="down"), number(4), 4), ("nothing", A(), number(0), 0),
                              ("first", A(positive="down"), number(1), 1), ("per cent", A(positive="up"), A((), u="%", name="b", vals={(): 300.0}), 3), ("scalar", A((), u="km"), number(2), 2), ("units", A(), A((), name="b"), F("UnitsError")),
                              ("per cent, even", A(positive="up"), A((), u="%", name="b", vals={(): 200.0}), 2), ("back", A(vals={i: 2.0 for i in every((2, 3))}), number(-1), -1), ("masked", A(mask=[(0, 1)]), number(3), 3),
                              ("array", A(), A(("x",), u="1", name="b"), F("DimensionsError")), ("direction", A(), A((), u="1", positive="up", name="b"), F("ValueError")), ("array like it", A(u="1"), A(u="1", name="b"), F("DimensionsError"))]:
            def want(a, k=w, e=e):
                s = seen(a)
                s.update(values={i: round(x ** k, 9) for i, x in s["values"].items()}, units=together("**", a.fields["units"], float(k)).fields["label"], positive=None if k % 2 == 0 else s["positive"],
                         name=(s["name"], "*", "*", seen(e)["name"]))
                return s
            yield "C05" if a.fields["positive"] else "C03", "power: %s" % what, m, a, (e,), w if isinstance(w, Missed) else want
    for what, a in [("inverted", A(u="km", mask=[(0, 1)])), ("inverted, with a direction", A(positive="up")), ("inverted scalar", A((), u="s"))]:
        def want(a):
            s = seen(a)
            s.update(values={i: round(1 / x, 9) for i, x in s["values"].items()}, units=together("**", a.fields["units"], -1.0).fields["label"], name=("1", "/", s["name"]))
            return s
        yield "C03", what, "invert", a, (), want
    for m in ("sum", "mean"):
        for dims, over_ in [(("x", "y"), ("x",)), (("x", "y"), ("y",)), (("x", "y"), ("x", "y")), (("x", "y"), ("y", "x")), (("x", "y", "z"), ("z", "x")), (("x", "y", "z"), ("y",)), (("x", "y", "z"), ("y", "z")), (("x", "y", "z"), ["z", "y", "x"]),
                            (("x", "y", "z"), ["x", "z"]), (("x",), ("x",)), (("x", "y"), None), (("x", "y"), ()), (("x", "y"), ("q",))]:
            for mask in ((), [(0,) * (len(dims) - 1) + (1,)]):
                def want(a, m=m, dims=dims, over_=over_):
                    s = seen(a)
                    gone = dims if over_ is None else over_
                    left = tuple(d for d in dims if d not in gone)
                    got = {}
                    for k, c in a.fields["cells"].items():
                        if k not in a.fields["mask"]:
                            got.setdefault(frozenset((d, i) for d, i in zip(dims, k) if d in left), []).append(c[0])
                    s.update(values={k: round(HOW[m](v), 9) for k, v in got.items()}, dimensions=left, name=(m, s["name"]) + tuple(sorted(gone)) if gone else (m, s["name"]))
                    return s
                yield "C07", "over %s of %s%s" % (over_, ",".join(dims), " masked" if mask else ""), m, A(dims, positive="down", u="km", mask=mask), (over_,), F("ValueError") if over_ == ("q",) else want


def checked(prop, least, doc, names=False):
    @rule("C33" if names else prop, "given-%s-names" % prop if names else "given-arrays", least)
    def given(ctx):
        c = ctx.p.cls("physarray.PhysArray")
        for (p, what, m, a, args, want), other in zip(cases(), cases()):
            if p != prop:
                continue
            place = ctx.place(c.find_method(m))
            key = "%s %s" % (m, what)

            def go():
                w = want if isinstance(want, Missed) else want(other[3])
                try:
                    got, _ = run(ctx, m, a, *args)
                except Missed as x:
                    if not names:
                        ctx.check(key, isinstance(w, Missed) and (str(x) in str(w).split("/") or str(x) == "ValueError" or str(x) == "Error"), "fails with %s, should %s" % (x, "fail with %s" % w if isinstance(w, Missed) else "not"), place)
                    return
                except Wrong as x:
                    ctx.check(key, isinstance(w, Missed), "fails with %s" % x, place)
                    return
                if isinstance(w, Missed):
                    if not names:
                        ctx.bad(key, "succeeds, should fail with %s" % w, place)
                    return
                s = seen(a if got is None or m == "__setitem__" else got)
                if m == "__getitem__":
                    s["units"], s["positive"], s["name"] = (s["units"], s["positive"], s["name"]) if isinstance(got, Obj) else (w["units"], w["positive"], w["name"])
                if names:
                    if isinstance(w["name"], tuple):
                        n = w["name"]
                        n = n[:1] if "[" in "".join(n) else n
                        ctx.check(key, follows([x for x in words(s["name"].replace("%", "pc"))], *[y for x in n for y in words(str(x).replace("%", "pc"))]) if n[0] in ("transpose", "sum", "mean", "up", "down") else
                                  follows(words(s["name"].replace("%", "pc")), *[y for x in sorted_in(n) for y in words(x.replace("%", "pc"))]), "is named %s" % s["name"], place)
                    return
                diff = ["%s: %s, should be %s" % (k, short(s[k]) if k == "values" else s[k], short(w[k]) if k == "values" else w[k]) for k in ("values", "units", "dimensions", "positive") if s[k] != w[k]]
                ctx.check(key, not diff, "; ".join(diff), place)
            attempt(ctx, key, go, place)
    given.__doc__ = doc
    return given


def sorted_in(n):
    """the words of a conversion or a power: (convert, from, to, name) shows as convert(name, from, to)"""
    return (n[0], n[3], n[1], n[2]) if n[0] == "convert" else n


checked("C03", 25, "For given arrays, conversion, powers and assignment are followed: the values in the units asked for, or of the array assigned into, and units that cannot be converted fail.")
checked("C04", 50, "For given arrays, transposition, indexing and assignment are followed: every value stays under the names of its dimensions.")
checked("C05", 20, "For given arrays, changes of direction and powers are followed: the values are negated exactly when the direction becomes the opposite one, and an even power has none.")
checked("C07", 40, "For given arrays, sums and means over given dimensions are followed: over exactly those, whatever their order, of what is not masked, with the remaining dimensions, the units and the direction.")
checked("C03", 8, "For given arrays, the name after a conversion or a power is followed: it has the old name, and the source and the target or the exponent.", True)
checked("C04", 12, "For given arrays, the name after a transposition is followed: it has the old name, the old and the new order.", True)
checked("C05", 8, "For given arrays, the name after a change of direction is followed: it has the direction and the old name.", True)
checked("C07", 20, "For given arrays, the name after a reduction is followed: it has the reduction, the old name and the dimensions.", True)


# ---------------------------------------------------------------------- what an array is made with


def makings():
    """(property, what, data, what is given, what it should be made with)"""
    a = lambda **k: A(**dict(dict(u="km", positive="down"), **k))
    r = lambda: raw({i: float(n) for n, i in enumerate(every((2, 3)))}, (2, 3), [(0, 1)])
    old = {"units": "km", "dimensions": ("x", "y"), "positive": "down", "name": "a"}
    none = {"units": "1", "dimensions": (1, 0), "positive": None}
    yield "C03", "as it is", a, {}, old
    yield "C03", "other units", a, {"units": unit("m")}, dict(old, units="m")
    yield "C03", "other units by name", a, {"units": "m"}, dict(old, units="m")
    yield "C03", "no units of its own", r, {}, none
    yield "C03", "units for plain data", r, {"units": "s"}, dict(none, units="s")
    yield "C03", "empty", lambda: A(sizes={"x": 0, "y": 3}, u="km"), {}, dict(old, positive=None)
    yield "C04", "other dimensions", a, {"dimensions": ("p", "q")}, dict(old, dimensions=("p", "q"))
    yield "C04", "dimensions of plain data", r, {"dimensions": ("p", "q")}, dict(none, dimensions=("p", "q"))
    yield "C04", "a list", r, {"dimensions": ["p", "q"]}, dict(none, dimensions=("p", "q"))
    yield "C04", "too few", r, {"dimensions": ("p",)}, Missed("ValueError")
    yield "C04", "too many", a, {"dimensions": ("p", "q", "r")}, Missed("ValueError")
    yield "C04", "no dimensions", lambda: A((), u="km", positive="down"), {"dimensions": ()}, dict(old, dimensions=())
    yield "C05", "other direction", a, {"positive": "up"}, dict(old, positive="up")
    yield "C05", "same direction", a, {"positive": "down"}, old
    yield "C05", "no direction", a, {"positive": None}, dict(old, positive=None)
    yield "C05", "direction of plain data", r, {"positive": "down"}, dict(none, positive="down")
    yield "C05", "capitals", r, {"positive": "Up"}, dict(none, positive="up")
    yield "C05", "some other direction", r, {"positive": "left"}, Missed("ValueError")
    yield "C05", "a number for direction", r, {"positive": 1}, Missed("ValueError")
    yield "C33", "other name", a, {"name": "n"}, dict(old, name="n")
    yield "C33", "empty name", a, {"name": ""}, dict(old, name="")
    yield "C33", "everything", a, {"name": "n", "units": "m", "dimensions": ("p", "q"), "positive": "up"}, {"name": "n", "units": "m", "dimensions": ("p", "q"), "positive": "up"}
    yield "C03", "masked", r, {"mask": {(1, 1)}}, dict(none, mask={(1, 1)})
    yield "C03", "mask kept", r, {}, dict(none, mask={(0, 1)})
    yield "C03", "type", a, {"dtype": "f4"}, dict(old, asked="f4")


REAL = Obj("dtype", label="f8", char="d", itemsize=8)
REAL.fields["kind"] = "f"


def made(ctx, data, given):
    c = ctx.p.cls("physarray.PhysArray")
    f = c.find_method("__new__")
    if "array __new__" not in ctx.cache:
        ctx.cache["array __new__"] = ctx.run(f, cls=c)
    r = ctx.cache["array __new__"]
    r.an.state = r.state
    types = []

    def asarray(x, dtype=None, **k):
        if dtype is not None:
            types.append(dtype)
        y = raw({}, x.fields["shape"], x.fields["mask"])
        y.fields["cells"] = x.fields["cells"]
        y.fields["dtype"] = REAL
        return y
    names = ["dtype", "mask"]
    ps = [a.arg for a in f.node.args.args]
    env = {SELF: Obj("type", label="PhysArray"), mk("arg", ps[1]): data}
    for p, d in zip(ps[2:], f.node.args.defaults):
        env[mk("arg", p)] = given.get(p, getattr(d, "value", None))
    env[mk("arg", "**" + f.node.args.kwarg.arg)] = {k: v for k, v in given.items() if k in names}
    g = Arrays(r.an, env, calls={"asarray": asarray, "asanyarray": asarray, "masked_array": asarray, "array": asarray, "shape": lambda x: x.fields["shape"], "Unit": unit, "CharArray": lambda *a, **k: Obj("CharArray", label="text"), "MaskedArray": asarray})
    g.perform(r)
    return g.ev(r.value), ctx.place(f), types


def making(prop, least):
    @rule(prop, "made-with", least)
    def given(ctx):
        """For given data and arguments, what a physical array is made with is followed: what is given, otherwise what the data have, and what is not a direction or does not fit the axes fails."""
        for p, what, data, args, want in makings():
            if p != prop:
                continue
            place = ctx.place(ctx.p.cls("physarray.PhysArray").find_method("__new__"))

            def go():
                d = data()
                before = seen(d) if "initial" in d.fields else None
                try:
                    x, _, types = made(ctx, d, args)
                except Wrong as v:
                    ctx.check(what, isinstance(want, Missed), "fails with %s" % v, place)
                    return
                if isinstance(want, Missed):
                    ctx.bad(what, "succeeds, should fail with %s" % want, place)
                    return
                f = x.fields
                have = {"units": f["units"].fields["label"], "dimensions": f["dimensions"], "positive": f["positive"], "name": f["name"], "mask": f["mask"], "asked": types[0] if types else None}
                diff = ["%s is %s, should be %s" % (k, have[k], v) for k, v in want.items() if have[k] != v]
                if values(x) != values(d):
                    diff.append("other values")
                if before is not None and seen(d) != before:
                    diff.append("the data given are changed")
                ctx.check(what, not diff, "; ".join(diff), place)
            attempt(ctx, what, go, place)
    return given


making("C03", 9)
making("C04", 6)
making("C05", 7)
making("C33", 3)


# ---------------------------------------------------------------------- what an array's properties become


class Set(Arrays):
    """what one assignment to a property leaves; the properties themselves are stored as they come"""

    def assign(self, o, name, v):
        o.fields[name] = v


ASSIGNMENTS = {
    "C03": [("units", "units", lambda: unit("km"), "km"), ("units", "a name of units", lambda: "km", "km")],
    "C04": [("dimensions", "names", lambda: ("p", "q"), ("p", "q")), ("dimensions", "a list of names", lambda: ["p", "q"], ("p", "q")), ("dimensions", "too few", lambda: ("p",), Missed("ValueError")),
            ("dimensions", "too many", lambda: ("p", "q", "r"), Missed("ValueError")), ("dimensions", "none", lambda: (), Missed("ValueError")), ("dimensions", "text", lambda: "pq", Missed("TypeError"))],
    "C05": [("positive", repr(v), lambda v=v: v, v.lower()) for v in ("up", "down", "Up", "UP", "Down", "DOWN")] + [("positive", "None", lambda: None, None)] +
           [("positive", repr(v), lambda v=v: v, Missed("ValueError")) for v in ("left", "", "u", "upward", "north", 1, 0, False)],
    "C33": [("name", "a name", lambda: "n", "n"), ("name", "no name", lambda: "", "")],
}


def assigning(prop):
    @rule(prop, "set-to", len(ASSIGNMENTS[prop]))
    def given(ctx):
        """For given values, what assigning to a property of an array leaves is followed: the value given, as units, as a tuple or in small letters, and what is no direction or does not fit the axes fails."""
        c = ctx.p.cls("physarray.PhysArray")
        for name, what, value, want in ASSIGNMENTS[prop]:
            f = c.setters.get(name)
            if f is None:
                ctx.unknown(what, "no assignment to %s" % name)
                continue
            place = ctx.place(f)

            def go():
                if "array set " + name not in ctx.cache:
                    ctx.cache["array set " + name] = ctx.run(f, cls=c)
                r = ctx.cache["array set " + name]
                a = A(u="s", positive="up")
                before = {k: a.fields[k] for k in ("units", "dimensions", "positive", "name")}
                g = Set(r.an, {SELF: a, mk("arg", f.params()[1]): value()}, calls={"Unit": unit})
                try:
                    g.perform(r)
                except Wrong as v:
                    ctx.check(what, isinstance(want, Missed), "fails with %s" % v, place)
                    return
                got = a.fields[name]
                if isinstance(want, Missed):
                    ctx.bad(what, "is accepted, should fail with %s" % want, place)
                    return
                if name == "units":
                    ctx.check(what, isinstance(got, Obj) and got.fields.get("label") == want, "the units are %s, should be units %s" % (got, want), place)
                else:
                    ctx.check(what, got == want and type(got) is type(want), "%s is %r, should be %r" % (name, got, want), place)
                others = [k for k, v in before.items() if k != name and a.fields[k] is not v]
                ctx.check(what + ", the rest", not others, "%s changes too" % ", ".join(others), place)
            attempt(ctx, what, go, place)
    return given


for _p in ASSIGNMENTS:
    assigning(_p)
