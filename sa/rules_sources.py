"""the reading and the mapping node, followed for given files and data: what they hand on"""
from itertools import product

from .engine import SELF
from .pev import Obj, Unknown, Wrong
from .rule import rule
from .rules_follow import Follow, array, unit
from .rules_graph import Missed
from .rules_mpi import attempt
from .rules_nodes import node
from .terms import mk

FULL = slice(None)


def tupled(index, n):
    if n == 0:
        return ()
    index = index if isinstance(index, tuple) else (index,)
    if index.count(Ellipsis) > 1 or len(index) - index.count(Ellipsis) > n:
        raise Missed("IndexError")
    if Ellipsis in index:
        k = index.index(Ellipsis)
        index = index[:k] + (FULL,) * (n + 1 - len(index)) + index[k + 1:]
    return index + (FULL,) * (n - len(index))


def aligned(index, dims):
    if index is None:
        return tuple(slice(0, 0) for _ in dims)
    if isinstance(index, dict):
        return tuple(index.get(d, FULL) for d in dims)
    return tupled(index, len(dims))


def taken(values, shape, index):
    """the values at an index, and their shape"""
    axes = [range(s)[i] for s, i in zip(shape, index)]
    left = [a for a in axes if isinstance(a, range)]
    out = {}
    for p in product(*[range(len(a)) for a in left]):
        it = iter(p)
        out[p] = values[tuple(a[next(it)] if isinstance(a, range) else a for a in axes)]
    return out, tuple(len(a) for a in left)


def joined(shape, first, second):
    second = list(tupled(second, sum(isinstance(i, slice) for i in tupled(first, len(shape)))))
    out = []
    for i, s in zip(tupled(first, len(shape)), shape):
        if not isinstance(i, slice):
            out.append(i)
            continue
        r = range(s)[i][second.pop(0)]
        if isinstance(r, range):
            r = slice(0, 0) if not len(r) else slice(r.start, r.stop if r.stop >= 0 else None, r.step)
        out.append(r)
    return tuple(out)


INDEXING = {"index_tuple": tupled, "align_index": aligned, "join": joined}
KINDS = {"f2": 2, "f4": 4, "f8": 8, "i4": 4, "i8": 8, "S1": 1}
REALS = {"float64": "f8", "double": "f8", "float": "f8", "f8": "f8", "d": "f8", "float32": "f4", "f4": "f4"}


def kind(t):
    o = Obj("dtype", label=t, itemsize=KINDS[t], char=t, str="<" + t, name=t, __str__=t)
    o.fields["kind"] = t[0]
    o.fields["type"] = Obj("type", label=t, floats=t[0] == "f")
    return o


def numbers(shape):
    n, out = 0, {}
    for p in product(*[range(s) for s in shape]):
        out[p] = n
        n += 1
    return out


def plain(values, shape, t):
    """values that are read, without dimensions"""
    a = Obj("ndarray", label="read", values=values, shape=shape, dtype=kind(t))
    a.fields["astype"] = lambda u=None, *b, **k: plain(values, shape, REALS.get(u if isinstance(u, str) else u.fields["label"].strip("<>"), "?"))
    return a


def physical(data, units=None, name=None, dimensions=None, positive=None, **k):
    if not isinstance(data, Obj) or "values" not in data.fields:
        raise Unknown("PhysArray of %r" % (data,))
    f = data.fields
    t = f["dtype"]
    old = data.kind == "PhysArray"
    rank = len(f["shape"]) if f.get("shape") is not None else len(f["dimensions"])
    if dimensions is None:
        dimensions = f["dimensions"] if old else tuple(range(rank))
    if len(dimensions) != rank:
        raise Missed("DimensionsError")
    given = lambda v, n, d: v if v is not None else f[n] if old else d
    if units is not None and not isinstance(units, Obj):
        units = unit(str(units))
    out = array(dict(f["values"]), dimensions, t if isinstance(t, str) else t.fields["label"], given(units, "units", unit("1")), given(positive, "positive", None), given(name, "name", ""), f.get("mask", ()))
    out.fields["shape"] = f.get("shape")
    return out


class Source(Follow):
    def ev(self, t, env=None):
        if t.op == "ext" and t.args[0].split(".")[-1].strip("<>") in REALS:
            return REALS[t.args[0].split(".")[-1].strip("<>")]
        return super().ev(t, env)


def subtype(a, b):
    a, b = a.fields, b.fields if isinstance(b, Obj) else {"label": str(b)}
    names = [b["label"].split(".")[-1].strip("<>")]
    if "floats" not in a:
        raise Unknown("issubclass")
    if names[0] in ("floating", "inexact"):
        return a["floats"]
    if names[0] in ("number", "generic"):
        return a["label"][0] in "fi" or names[0] == "generic"
    if names[0] in ("integer", "signedinteger"):
        return a["label"][0] == "i"
    raise Unknown("issubclass of %s" % names[0])


READ = [   # what, dimensions, shape, attributes, type, first index, second index
    ("everything", ("t", "x"), (3, 4), {"units": "m"}, "f8", FULL, FULL),
    ("no units", ("t", "x"), (3, 4), {}, "f8", FULL, FULL),
    ("numbers are units", ("x",), (3,), {"units": 1}, "i4", FULL, FULL),
    ("units that are not known", ("x",), (3,), {"units": "bogus"}, "f8", FULL, FULL),
    ("calendar", ("t",), (3,), {"units": "days since 2000", "calendar": "noleap"}, "f8", FULL, FULL),
    ("direction", ("x",), (3,), {"units": "m", "positive": "down"}, "f8", FULL, FULL),
    ("single precision", ("x",), (3,), {"units": "m"}, "f4", FULL, FULL),
    ("half precision", ("x",), (3,), {"units": "m"}, "f2", FULL, FULL),
    ("integers", ("x",), (3,), {"units": "m"}, "i4", FULL, FULL),
    ("no dimensions", (), (), {"units": "m"}, "f4", FULL, FULL),
    ("metadata", ("t", "x"), (3, 4), {"units": "m"}, "f4", FULL, None),
    ("metadata of a part", ("t", "x"), (3, 4), {"units": "m", "positive": "up"}, "f8", (1,), None),
    ("part", ("t", "x"), (3, 4), {"units": "m"}, "f8", (slice(1, None),), FULL),
    ("one row", ("t", "x"), (3, 4), {"units": "m"}, "f8", 1, FULL),
    ("one column", ("t", "x"), (3, 4), {"units": "m"}, "f8", (FULL, -1), FULL),
    ("one column of named", ("t", "x"), (3, 4), {"units": "m"}, "f8", {"x": 2}, {"t": slice(1, 3)}),
    ("row of the rest", ("t", "x", "z"), (3, 4, 2), {"units": "m"}, "f8", (slice(0, 2), 1), (1,)),
    ("named part", ("t", "x"), (3, 4), {"units": "m"}, "f4", FULL, {"x": slice(1, 3)}),
    ("other names", ("t", "x"), (3, 4), {"units": "m"}, "f8", FULL, {"x": slice(1, 3), "q": 0}),
    ("part of a part", ("t", "x"), (5, 4), {"units": "m"}, "f8", (slice(1, None, 2),), {"t": slice(1, None), "x": 0}),
    ("one name left over", ("t", "x"), (3, 4), {"units": "m"}, "f8", (1, FULL), {"t": 0, "x": slice(0, 2)}),
    ("one element", ("t", "x"), (3, 4), {"units": "m"}, "f8", (1, 2), FULL),
    ("backwards", ("t",), (4,), {"units": "m"}, "f8", (slice(None, None, -1),), (slice(0, 2),)),
    ("from the end", ("t", "x"), (3, 4), {"units": "m"}, "f8", FULL, (Ellipsis, slice(2, None))),
    ("nothing", ("t", "x"), (3, 4), {"units": "m"}, "f8", FULL, (slice(2, 2),)),
    ("too many", ("t",), (3,), {"units": "m"}, "f8", FULL, (FULL, FULL)),
]


def read(ctx, dims, shape, attrs, t, first, second):
    r = node(ctx, "ReadNode")
    r.an.state = r.state
    closed, warned = [], []
    values = numbers(shape)

    def get(i):
        if closed:
            raise Wrong("the file is read after it is closed")
        v, s = taken(values, shape, tupled(i, len(shape)))
        return plain(v, s, t)
    var = Obj("Variable", label="v", name="v", dimensions=dims, shape=shape, ndim=len(dims), dtype=kind(t), __getitem__=get, ncattrs=lambda: list(attrs), getncattr=lambda n: attrs[n], __dict__=dict(attrs))
    file = Obj("Dataset", label="file", variables={"v": var, "w": Obj("Variable", label="w")}, close=lambda: closed.append(1))
    opened = []

    def dataset(path, mode="r", **k):
        opened.append((path, mode))
        return file

    def units(u=None, calendar=None, **k):
        if "bogus" in str(u):
            raise Missed("ValueError")
        return unit("1" if u is None else u, calendar)

    def warn(msg, category=None, *a, **k):
        warned.append((str(msg), category.fields["label"] if isinstance(category, Obj) else str(category)))
    me = Obj("ReadNode", label="v[...]", _label="v[...]", inputs=[], _inputs=[], _filepath="f.nc", _variable="v", _index=first)
    calls = dict(INDEXING, Dataset=dataset, Unit=units, warn=warn, PhysArray=physical, issubclass=subtype, issubdtype=subtype)
    g = Source(r.an, {SELF: me, mk("arg", r.fn.params()[1]): second}, calls=calls)
    g.perform(r)
    out = g.ev(r.value)
    if not isinstance(out, Obj) or "values" not in out.fields or not opened:
        raise Unknown("%r" % (out,))
    return out, warned, opened


def described(a):
    f = a.fields
    return {"values": f["values"], "type": f["dtype"], "dimensions": f["dimensions"], "units": (f["units"].fields["label"], f["units"].fields["calendar"]), "positive": f["positive"], "name": f["name"]}


def should(dims, shape, attrs, t, first, second):
    at1 = aligned(first, dims)
    dims1 = tuple(d for d, i in zip(dims, at1) if isinstance(i, slice))
    v, s = taken(numbers(shape), shape, at1)
    at2 = aligned(second, dims1)
    v, s = taken(v, s, at2)
    u = str(attrs.get("units", 1))
    known = "bogus" not in u
    return {"values": v, "type": "f8" if t[0] == "f" else t, "dimensions": tuple(d for d, i in zip(dims1, at2) if isinstance(i, slice)), "units": (u, attrs.get("calendar")) if known else ("1", None),
            "positive": attrs.get("positive"), "name": "v[...]"}, known


@rule("C34", "for-given-files", 26)
def for_given_files(ctx):
    """For given variables of a file and given pairs of indices, what the reading node hands on is followed: the values of the second index on the first, in double precision where they are floating-point numbers,
    under the dimensions that remain, with the units, calendar and direction of the file; unknown units are reported and taken as none."""
    r = node(ctx, "ReadNode")
    place = ctx.place(r.fn)
    for what, *w in READ:
        def run():
            try:
                want, known = should(*w)
            except Missed as x:
                want, known = None, True
            try:
                out, warned, opened = read(ctx, *w)
            except Wrong as x:
                ctx.check(what, want is None, "fails with %s, should give %s" % (x, want), place)
                return
            if want is None:
                ctx.bad(what, "gives %s, should fail" % (described(out),), place)
                return
            a = described(out)
            diff = ["%s: %s, should be %s" % (k, a[k], want[k]) for k in want if a[k] != want[k]]
            if known == bool(warned):
                diff.append("warnings %s" % (warned or "none"))
            if any(p != "f.nc" for p, m in opened):
                diff.append("opens %s" % opened)
            ctx.check(what, not diff, "; ".join(diff), place)
        attempt(ctx, what, run, place)


MAPPED = [   # what, input dimensions, map, index
    ("all", ("a", "b"), {"a": "x", "b": "y"}, FULL),
    ("dots", ("a", "b"), {"a": "x", "b": "y"}, Ellipsis),
    ("some", ("a", "b"), {"b": "y"}, FULL),
    ("none", ("a", "b"), {}, FULL),
    ("metadata", ("a", "b"), {"a": "x", "b": "y"}, None),
    ("metadata, none mapped", ("a", "b"), {}, None),
    ("named", ("a", "b"), {"a": "x", "b": "y"}, {"x": slice(1, 2), "y": slice(0, 2)}),
    ("named in part", ("a", "b"), {"a": "x", "b": "y"}, {"y": slice(1, 3)}),
    ("named and not mapped", ("a", "b"), {"b": "y"}, {"a": slice(1, 2), "y": slice(0, 2)}),
    ("named one", ("a", "b"), {"a": "x", "b": "y"}, {"y": 1}),
    ("other names", ("a", "b"), {"a": "x"}, {"q": slice(0, 1), "x": slice(0, 1)}),
    ("positions", ("a", "b"), {"a": "x", "b": "y"}, (slice(1, 2), slice(0, 2))),
    ("first", ("a", "b"), {"a": "x", "b": "y"}, (slice(1, 2),)),
    ("one slice", ("a", "b"), {"a": "x", "b": "y"}, slice(1, 2)),
    ("last", ("a", "b"), {"b": "y"}, (Ellipsis, slice(1, 2))),
    ("exchanged", ("a", "b"), {"a": "b", "b": "a"}, (slice(1, 2), slice(0, 2))),
    ("exchanged, named", ("a", "b"), {"a": "b", "b": "a"}, {"a": slice(1, 3), "b": slice(0, 1)}),
    ("exchanged, metadata", ("a", "b"), {"a": "b", "b": "a"}, None),
    ("turned around", ("a", "b", "c"), {"a": "b", "b": "c", "c": "a"}, {"a": slice(0, 1), "b": slice(1, 2), "c": slice(0, 2)}),
    ("no dimensions", (), {"a": "x"}, FULL),
    ("unused maps", ("a", "b"), {"a": "x", "b": "y", "c": "z"}, (slice(0, 1), slice(1, 3))),
]


def mapping(ctx, dims, dmap, index):
    r = node(ctx, "MapNode")
    r.an.state = r.state
    shape = (2, 3, 4)[:len(dims)]
    asked = []

    def get(i):
        asked.append(i)
        at = aligned(i, dims)
        v, s = taken(numbers(shape), shape, at)
        a = array(v, tuple(d for d, k in zip(dims, at) if isinstance(k, slice)), "f4", "m", "up", "data")
        a.fields["shape"] = s
        return a
    inp = Obj("ReadNode", label="input", __bases__=("FlowNode",), __getitem__=get)
    me = Obj("MapNode", label="v", _label="v", inputs=[inp], _inputs=[inp], _i2omap=dict(dmap), _o2imap={v: k for k, v in dmap.items()})
    g = Follow(r.an, {SELF: me, mk("arg", r.fn.params()[1]): index}, calls=dict(INDEXING, PhysArray=physical))
    g.perform(r)
    out = g.ev(r.value)
    if not isinstance(out, Obj) or "values" not in out.fields:
        raise Unknown("%r" % (out,))
    return out, asked


@rule("C11", "renamed", 20)
def renamed(ctx):
    """For given data, maps and indices, what the mapping node hands on is followed: the data at the index that corresponds to the one asked for, under the mapped dimensions and otherwise as they were."""
    r = node(ctx, "MapNode")
    place = ctx.place(r.fn)
    for what, dims, dmap, index in MAPPED:
        def run():
            shape = (2, 3, 4)[:len(dims)]
            new = tuple(dmap.get(d, d) for d in dims)
            at = aligned(index, new)
            want = {"values": taken(numbers(shape), shape, at)[0], "type": "f4", "dimensions": tuple(d for d, i in zip(new, at) if isinstance(i, slice)), "units": ("m", None), "positive": "up",
                    "name": "data" if new == dims else "map(data, from=[%s], to=[%s])" % (",".join(dims), ",".join(new))}
            try:
                out, asked = mapping(ctx, dims, dmap, index)
            except Wrong as x:
                # a single position takes a dimension away, which the mapping node does not support
                ctx.check(what, True if what == "named one" else False, "fails with %s" % x, place)
                return
            a = described(out)
            diff = ["%s: %s, should be %s" % (k, a[k], want[k]) for k in want if a[k] != want[k]]
            ctx.check(what, not diff, "; ".join(diff), place)
        attempt(ctx, what, run, place)


@rule("C08", "mapped-metadata", 3)
def metadata_only(ctx):
    """Asked for metadata only, the mapping node asks its input for metadata only."""
    r = node(ctx, "MapNode")
    place = ctx.place(r.fn)
    for what, dims, dmap, index in MAPPED:
        if index is not None:
            continue

        def run():
            out, asked = mapping(ctx, dims, dmap, index)
            ctx.check(what, all(i is None for i in asked), "asks for %s" % asked, place)
        attempt(ctx, what, run, place)
