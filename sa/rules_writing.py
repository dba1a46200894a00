"""the writing node, followed for given files, to what is done to the file"""
import os.path
from collections import OrderedDict
from functools import cmp_to_key
from itertools import product

from .engine import SELF
from .pev import Obj, Steps, Tok, Unknown, Wrong
from .q import exc_name
from .rule import rule
from .rules_graph import Graph
from .rules_mpi import attempt
from .rules_write import execute
from .terms import mk

CHANGES = {"add", "append", "update", "remove", "discard", "extend", "insert", "pop", "clear", "setdefault", "difference_update", "intersection_update"}


class Writing(Graph):
    """what the operations do, in the order in which they happen"""

    def item(self, b, i, env):
        if isinstance(b, Obj) and "__getitem__" in b.fields:
            return Steps.item(self, b, i, env)
        return super().item(b, i, env)

    def perform(self, r):
        group, over = [], None
        for m, e in enumerate(sorted(r.events, key=lambda e: e.seq)):
            if e.kind not in ("call", "setattr", "setitem", "delitem", "raise"):
                continue
            if e.kind in ("setitem", "delitem") and e.obj.op == "alloc" or e.kind == "setattr":
                continue
            if e.kind == "call" and (e.res is None or e.f is None or e.f.op == "attr" and e.f.args[0].op == "alloc"):
                continue
            first = e.loops[0] if e.loops else None
            if group and first is not over:
                self.pass_by_pass(group)
                group = []
            over = first
            for x in self.happens(e.loops or (), e.guards, self.env, e.seq):
                if e.kind == "raise" and not e.loops:
                    raise Wrong("raises %s" % exc_name(e.val))
                group.append((e, tuple(x.get("#passes", ())), m, x))
        self.pass_by_pass(group)

    def pass_by_pass(self, group):
        """what happens in the passes of one loop, in the order of the passes"""
        def before(x, y):
            n = 0
            a, b = x[0].loops or (), y[0].loops or ()
            while n < min(len(a), len(b)) and a[n] is b[n]:
                n += 1
            x, y = (x[1][:n], x[2], x[1]), (y[1][:n], y[2], y[1])
            return (x > y) - (x < y)
        for e, _, _, x in sorted(group, key=cmp_to_key(before)):
            if e.kind == "raise":
                raise Wrong("raises %s" % exc_name(e.val))
            self.do(e, x)

    def do(self, e, x):
        if e.kind == "call":
            if e.f.op == "attr" and e.f.args[1] in CHANGES:
                o = self.ev(e.f.args[0], x)
                if isinstance(o, (list, dict, set)):
                    try:
                        getattr(o, e.f.args[1])(*[self.ev(a, x) for a in e.args], **self.kws(e.kw, x))
                    except (LookupError, ValueError) as v:
                        raise Wrong(repr(v))
                    return
            try:
                self.ev(e.res, x)
            except Unknown:
                if e.f.op == "attr" and isinstance(self.soft(e.f.args[0], x), Obj) or e.f.op == "ext" and e.f.args[0].split(".")[-1] in self.calls:
                    raise
            return
        o = self.ev(e.obj, x)
        k = self.ev(e.name, x) if hasattr(e.name, "op") else e.name
        if isinstance(o, dict):
            if e.kind == "setitem":
                o[k] = self.ev(e.val, x)
            else:
                del o[k]
        elif isinstance(o, Obj) and "put" in o.fields and e.kind == "setitem":
            o.fields["put"](k, self.ev(e.val, x))
        else:
            raise Unknown("a change of %r" % (o,))


class Given:
    """a file that is described, the data of its variables, and what was asked for"""

    def __init__(self, name, dims, variables, chunks=None, deflate=None, level=1, attributes=None, fmt="NETCDF4", exists=(), history=False, data=(), unwritten=None):
        self.name, self.dims, self.variables, self.chunks, self.deflate, self.level, self.attributes = name, dims, variables, chunks or {}, deflate, level, attributes or {}
        self.fmt, self.exists, self.data, self.history = fmt, set(exists), dict(data), history


class Var:
    def __init__(self, dims, attributes=None, text=False, direction=None, dtype="f4"):
        self.dims, self.attributes, self.text, self.direction, self.dtype = dims, attributes or {}, text, direction, dtype


def chunked(sizes, chunks):
    """the chunks of the whole extent, the first dimension fastest"""
    ways = []
    for d, s in sizes.items():
        c = chunks.get(d, s)
        ways.append([(d, slice(lo, lo + c if lo + c < s else None)) for lo in range(0, s, c)])
    return [OrderedDict(reversed(w)) for w in product(*reversed(ways))]


def mirrored(sizes, chunk, idims=()):
    out = OrderedDict()
    for d, s in sizes.items():
        c = chunk[d]
        b = s if c.stop is None else c.stop
        out[d] = slice(s - c.start - 1, s - b - 1 if b < s else None, -1) if d in idims else c
    return out


def reading(label, v):
    def get(i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice) and i.start in (None, 0) and i.stop is None and i.step in (None, 1) or i is Ellipsis or i == ():
            return Obj("PhysArray", label=label, of=label, at="all", direction=v.direction, data=None)
        if isinstance(i, slice):
            return Obj("PhysArray", label=label, of=label, at="part", direction="that of a part", data=None)
        if not isinstance(i, dict):
            raise Unknown("%s[%r]" % (label, i))
        d = Obj("CharArray" if v.text else "PhysArray", label=label, of=label, at=dict(i), long=None, direction=v.direction if all(s in (slice(None), slice(0, None)) for s in i.values()) else "that of a part", __bases__=("PhysArray",))
        d.fields["stretch"] = lambda n: Obj("CharArray", label=label, of=label, at=dict(i), long=n, __bases__=("PhysArray",))
        return d
    return get


def written(ctx, w):
    """what is done to the files, for these"""
    r = execute(ctx)
    r.an.state = r.state
    dims = {d: Obj("DimensionDesc", label=d, name=d, size=s if s is None or isinstance(s, int) else s[0], unlimited=isinstance(s, tuple), is_set=lambda s=s: s is not None and s != (None,)) for d, s in w.dims.items()}
    missing = Obj("DimensionDesc", label="missing", name="missing", size=3, unlimited=False, is_set=lambda: True)
    descs = {n: Obj("VariableDesc", label=n, name=n, dimensions=OrderedDict((d, dims.get(d, missing)) for d in v.dims), attributes=dict(v.attributes), dtype=v.dtype, datatype=v.dtype) for n, v in w.variables.items()}
    fd = Obj("FileDesc", label=w.name, name=w.name, variables=descs, dimensions=dims, attributes=dict(w.attributes), deflate=w.level, shuffle=True, format=w.fmt)
    nodes = [Obj("ValidateNode", label=n, attributes=dict(v.attributes), __bases__=("FlowNode",), inputs=[]) for n, v in w.variables.items()]
    for n in nodes:
        v = w.variables[n.fields["label"]]
        n.fields["__getitem__"] = reading(n.fields["label"], v)
    me = Obj("WriteNode", label=w.name, inputs=nodes, _inputs=nodes, _filedesc=fd, _idims=set(), _hidden_inputs=[], _tmp_ext=".tmp.nc", _label=w.name,
             _unwritten_attributes={"_FillValue", "direction"} if w.history else {"_FillValue", "direction", "history"}, _file=None)
    me.fields["label"] = w.name
    log, exist = [], set(w.exists)
    files = {}

    def create(name, mode="r", **k):
        f = files.get(name)
        if f is None:
            f = files[name] = Obj("File", label=name, opened=[], atts={}, made=OrderedDict(), variables=OrderedDict())

            def var(n, t, ds=(), **kw):
                v = f.fields["variables"].get(n)
                if v is None:
                    v = Obj("Variable", label=n, kind_=(t, tuple(ds), dict(kw)), atts=OrderedDict(), stored=[], dimensions=tuple(ds), shape=tuple(dims[d].fields["size"] if d in dims else 0 for d in ds), dtype=t, ndim=len(ds), name=n)
                    v.fields.update(setncattr=lambda a, x: v.fields["atts"].__setitem__(a, x), setncatts=lambda d: v.fields["atts"].update(d), put=lambda i, x: v.fields["stored"].append((i, x)),
                                    ncattrs=lambda: list(v.fields["atts"]), getncattr=lambda a: v.fields["atts"][a])
                    f.fields["variables"][n] = v
                if v.fields["kind_"] != (t, tuple(ds), dict(kw)):
                    raise Wrong("%s is created twice" % n)
                return v
            f.fields.update(createDimension=lambda n, s=None: f.fields["made"].__setitem__(n, s), createVariable=var, setncatts=lambda d: f.fields["atts"].update(d),
                            setncattr=lambda n, x: f.fields["atts"].__setitem__(n, x), close=lambda: log.append(("close", name)), dimensions=f.fields["made"], isopen=lambda: ("close", name) not in log)
            f.fields["opened"].append((mode, k))
            log.append(("open", name))
            exist.add(name)
        return f

    def rename(a, b):
        log.append(("rename", a, b))
        exist.discard(a)
        exist.add(b)

    def makedirs(d, *a, **k):
        if ("makedirs", d) not in log:
            log.append(("makedirs", d))
        exist.add(d)
    moment = Obj("datetime", label="moment", strftime=lambda *a: "now", isoformat=lambda *a: "now")
    calls = {"Dataset": create, "rename": rename, "replace": rename, "move": rename, "makedirs": makedirs, "exists": lambda p: p in exist, "isfile": lambda p: p in exist and "." in os.path.basename(p), "isdir": lambda p: p in exist,
             "dirname": os.path.dirname, "basename": os.path.basename, "_chunk_iter_": lambda s, chunks={}: chunked(s, chunks), "_direction_": lambda d: d.fields["direction"],
             "_invert_dims_": lambda *a, **k: mirrored(*[x for x in a if x is not me], **k), "print": lambda *a, **k: None, "utcnow": lambda *a: moment, "now": lambda *a: moment, "gmtime": lambda *a: moment, "strftime": lambda *a: "now", "warn": lambda *a, **k: None}
    env = {SELF: me, mk("arg", "chunks"): w.chunks, mk("arg", "deflate"): w.deflate}
    g = Writing(r.an, env, calls=calls)
    g.perform(r)
    return {"files": files, "log": log, "me": me, "exist": exist}


def files():
    g, v = Given, Var
    yield "one", g("out.nc", {"t": (10,), "x": 4}, {"a": v(("t", "x"), {"units": "m"})}, exists=("out.nc.tmp.nc",), attributes={"title": "", "version": 0, "source": "S"})
    yield "coordinates", g("dir/out.nc", {"t": (2,), "x": 4, "y": 3}, {"x": v(("x",), {"axis": "X", "direction": "increasing"}, direction="increasing"), "y": v(("y",)), "t": v(("t",), dtype="f8")}, exists=("dir",))
    yield "several", g("dir/out.nc", {"t": (6,), "x": 4, "y": 3, "z": 2}, {
        "b": v(("t", "y", "x"), {"units": "m", "_FillValue": 7.0}), "y": v(("y",), {"axis": "Y", "direction": "decreasing"}, direction="increasing", dtype="f8"),
        "s": v((), {"units": "K", "history": "h"})}, level=3, attributes={"title": "T", "creation_date": "long ago"}, fmt="NETCDF4_CLASSIC")
    yield "chunked", g("out.nc", {"t": (10,), "x": 4, "y": 3}, {"a": v(("t", "x")), "b": v(("x", "y")), "y": v(("y",)), "t": v(("t",))}, chunks={"t": 4, "x": 2}, deflate=0)
    yield "mirrored in chunks", g("d/e/out.nc", {"y": 7, "t": (3,)}, {
        "y": v(("y",), {"axis": "Y", "direction": "increasing", "history": "hy"}, direction="decreasing"), "a": v(("t", "y"), {"history": "ha", "_FillValue": 0}),
        "t": v(("t",), {"axis": "T", "direction": "increasing"}, direction="increasing")}, chunks={"y": 3}, deflate=5, exists=("d/e", "d/e/out.nc"), history=True)
    yield "two mirrored", g("out.nc", {"y": 4, "x": 3, "t": 2}, {
        "x": v(("x",), {"axis": "X", "direction": "decreasing", "history": "hx"}, direction="increasing"), "y": v(("y",), {"axis": "Y", "direction": "decreasing"}, direction="increasing"),
        "a": v(("t", "y", "x"), {"history": "ha"}), "b": v(("t",), {"history": "hb"}), "c": v(("x", "t"))}, chunks={"x": 2, "y": 3}, level=0, history=True)
    yield "text", g("out.nc", {"t": (2,), "n": 3, "long": 9}, {"names": v(("n", "long"), text=True, dtype="S1"), "a": v(("t", "n"))}, chunks={"n": 2})
    yield "no coordinate", g("out.nc", {"t": (2,), "y": 3}, {
        "a": v(("t", "y"), {"axis": "Y", "direction": "decreasing"}, direction=None), "b": v(("y",), {"direction": "decreasing"}, direction="increasing"), "c": v(("y",), {"axis": "Y"}, direction=None)})
    yield "not even", g("out.nc", {"t": 7, "x": 1}, {"a": v(("x", "t"), {"valid_min": 0, "empty": ""}), "t": v(("t",), {"axis": "T", "direction": "decreasing"}, direction="increasing", dtype="f8")}, chunks={"t": 3, "x": 5, "other": 2}, deflate=1, level=0)


def wrong():
    g, v = Given, Var
    yield "a dimension is not described", g("out.nc", {"x": 4}, {"a": v(("t", "x"))})
    yield "a dimension has no size", g("out.nc", {"x": 4, "t": None}, {"b": v(("x",)), "a": v(("t", "x"))})
    yield "an unlimited dimension has no size", g("out.nc", {"x": 4, "t": (None,)}, {"a": v(("t", "x"))})
    for d in ("up", "", "Increasing"):
        yield "the direction is %r" % d, g("out.nc", {"x": 4}, {"x": v(("x",), {"axis": "X", "direction": d}, direction="increasing")})
    yield "the data have no direction", g("out.nc", {"x": 4}, {"x": v(("x",), {"axis": "X", "direction": "increasing"}, direction=None)})
    for d in ("3", 2.5, -1, 10):
        yield "the deflate level is %r" % (d,), g("out.nc", {"x": 4}, {"x": v(("x",))}, deflate=d)


def outcome(ctx, n, w):
    key = ("written", n)
    if key not in ctx.cache:
        try:
            ctx.cache[key] = written(ctx, w)
        except (Unknown, Wrong) as x:
            ctx.cache[key] = x
    if isinstance(ctx.cache[key], Exception):
        raise ctx.cache[key]
    return ctx.cache[key]


def sizes(w):
    return {d: s[0] if isinstance(s, tuple) else s for d, s in w.dims.items()}


def mirrors(w):
    return {v.dims[0] for v in w.variables.values() if len(v.dims) == 1 and "axis" in v.attributes and "direction" in v.attributes and v.attributes["direction"] != v.direction}


def the_file(f, w):
    if len(f["files"]) != 1:
        raise Wrong("files: %s" % sorted(f["files"]))
    return list(f["files"].values())[0]


def each(ctx, run):
    where = ctx.place(execute(ctx).fn)
    for n, w in files():
        attempt(ctx, n, lambda: run(n, w, outcome(ctx, n, w), where), where)


@rule("C10", "each-element", 8)
def elements(ctx):
    """For given variables, directions and chunks, all stores into the file are followed: each element of each variable is the one at its place (counted from the other end in the dimensions whose
    coordinate runs against its described direction) of the results of the same variable, and none is left out."""
    def run(n, w, f, where):
        out = the_file(f, w).fields["variables"]
        size, back = sizes(w), mirrors(w)
        problems = []
        for name, v in w.variables.items():
            have = {}
            for i, d in out[name].fields["stored"] if name in out else ():
                if not isinstance(d, Obj) or "at" not in d.fields:
                    raise Unknown("stored in %s is %r" % (name, d))
                i = (i if isinstance(i, tuple) else (i,)) + (slice(None),) * (len(v.dims) - (len(i) if isinstance(i, tuple) else 1))
                if i == (Ellipsis,) or v.dims == () and not i:
                    i = (slice(None),) * len(v.dims)
                if d.fields["of"] != name:
                    problems.append("%s gets data of %s" % (name, d.fields["of"]))
                to = [list(range(size[x]))[k] for x, k in zip(v.dims, i)]
                at = [list(range(size[x]))[d.fields["at"].get(x, slice(None))] for x in v.dims]
                if [len(x) for x in to] != [len(x) for x in at]:
                    problems.append("%s: a piece of shape %s is stored at one of %s" % (name, [len(x) for x in at], [len(x) for x in to]))
                    continue
                have.update(zip(product(*to), product(*at)))
                if v.text and d.fields["long"] != size[v.dims[-1]]:
                    problems.append("%s: text of length %s in one of %s" % (name, d.fields["long"], size[v.dims[-1]]))
            for i in product(*[range(size[x]) for x in v.dims]):
                at = tuple(size[x] - 1 - k if x in back else k for x, k in zip(v.dims, i))
                if have.get(i) != at:
                    problems.append("%s%s is %s, should be that at %s" % (name, list(i), "that at %s" % list(have[i]) if i in have else "never written", list(at)))
        ctx.check(n, not problems, "; ".join(problems)[:300], where)
    each(ctx, run)


@rule("C12", "the-header", 8)
def header(ctx):
    """For given descriptions, the header of the file is followed: its global attributes, the dimensions its variables need with their sizes (none for an unlimited one), and its variables with their type,
    dimensions, fill value, compression and attributes are exactly those described."""
    def run(n, w, f, where):
        o = the_file(f, w)
        size = sizes(w)
        need = {d for v in w.variables.values() for d in v.dims}
        got = dict(o.fields["made"])
        want = {d: None if isinstance(w.dims[d], tuple) else w.dims[d] for d in need}
        ctx.check(n + " dimensions", got == want, "%r, should be %r" % (got, want), where)
        ctx.check(n + " format", all(k.get("format", "NETCDF4") == w.fmt for m, k in o.fields["opened"]), "opened with %r" % (o.fields["opened"],), where)
        got = dict(o.fields["atts"])
        date = got.pop("creation_date", None)
        rest = {k: v for k, v in w.attributes.items() if k != "creation_date"}
        ctx.check(n + " global", got == rest and date not in (None, w.attributes.get("creation_date")), "global attributes %r and the date %r" % (got, date), where)
        out = o.fields["variables"]
        ctx.check(n + " variables", sorted(out) == sorted(w.variables), "variables %s, should be %s" % (sorted(out), sorted(w.variables)), where)
        level = w.level if w.deflate is None else w.deflate
        for name, v in w.variables.items():
            if name not in out:
                continue
            t, ds, k = out[name].fields["kind_"]
            ctx.check("%s %s" % (n, name), (t, ds) == (v.dtype, tuple(v.dims)), "%s is made as %r over %s" % (name, t, list(ds)), where)
            k = dict(k)
            ctx.check("%s %s fill" % (n, name), k.get("fill_value") == v.attributes.get("_FillValue"), "the fill value of %s is %r" % (name, k.get("fill_value")), where)
            packed = (bool(k.get("zlib")) or k.get("compression") == "zlib") and k.get("complevel", 4)
            ctx.check("%s %s level" % (n, name), packed == level if level else not packed, "%s is made with %r, the level is %r" % (name, k, level), where)
            atts = dict(out[name].fields["atts"])
            hist = atts.pop("history", None)
            want = {k: x for k, x in v.attributes.items() if k not in ("_FillValue", "direction", "history")}
            ctx.check("%s %s attributes" % (n, name), atts == want and (hist is not None) == (w.history and "history" in v.attributes), "attributes of %s: %r%s" % (name, atts, "" if hist is None else " and a history"), where)
    each(ctx, run)


@rule("C33", "mirrored", 3)
def history(ctx):
    """What is mirrored on writing is named in the history of the variables that have the dimension, and in no other; the history is otherwise that of the results."""
    def run(n, w, f, where):
        out = the_file(f, w).fields["variables"]
        back = mirrors(w)
        if not w.history:
            return
        for name, v in w.variables.items():
            if "history" not in v.attributes or name not in out:
                continue
            h, own = out[name].fields["atts"].get("history"), [d for d in v.dims if d in back]
            plain = v.attributes["history"]
            ctx.check("%s %s" % (n, name), h == ("invdims(%s, dims=[%s])" % (plain, ",".join(own)) if own else plain), "the history of %s is %r, it is mirrored along %s" % (name, h, own or "nothing"), where)
    each(ctx, run)


@rule("C01", "in-this-order", 8)
def order(ctx):
    """For given files, all operations on files are followed: one file is made, in the directory of the output and under another name; it is closed, and only then gets the output's name, which is there in
    the end; a missing directory is made before."""
    def run(n, w, f, where):
        log = f["log"]
        tmp = the_file(f, w).fields["label"]
        final = w.name
        problems = []
        if tmp == final or os.path.dirname(tmp) != os.path.dirname(final):
            problems.append("the temporary file of %s is %s" % (final, tmp))
        if any(m != "w" for m, k in the_file(f, w).fields["opened"]):
            problems.append("opened with %r" % (the_file(f, w).fields["opened"],))
        d = os.path.dirname(final)
        want = ([("makedirs", d)] if d and d not in w.exists else []) + [("open", tmp), ("close", tmp), ("rename", tmp, final)]
        got = [x for i, x in enumerate(log) if x not in log[:i]]
        if got != want:
            problems.append("done is %s, should be %s" % (", ".join(" ".join(x) for x in got) or "nothing", ", ".join(" ".join(x) for x in want)))
        ctx.check(n, not problems, "; ".join(problems)[:300], where)
    each(ctx, run)


@rule("C12", "refused", 9)
def refusals(ctx):
    """A dimension that is not described or has no size, a direction that is not known or cannot be found in the data, and an impossible level of compression are errors."""
    where = ctx.place(execute(ctx).fn)
    for n, w in wrong():
        def run():
            try:
                f = written(ctx, w)
            except Wrong as x:
                ctx.check(n, True, "refused: %s" % x, where)
            else:
                ctx.bad(n, "is accepted: %s" % [list(x.fields["variables"]) for x in f["files"].values()], where)
        attempt(ctx, n, run, where)


# ---------------------------------------------------------------------- the pieces of the index space
def own(f):
    return [p for p in f.params() if p not in ("self", "cls")]


SPACES = [
    ("whole", {"t": 10, "x": 4}, {}), ("remainder", {"t": 10, "x": 4}, {"t": 4}), ("exact", {"t": 10, "x": 4}, {"t": 5, "x": 2}), ("several", {"t": 7, "x": 5, "y": 3}, {"x": 2, "t": 3, "y": 2}),
    ("larger", {"t": 3, "x": 2}, {"t": 9}), ("equal", {"t": 3, "x": 2}, {"t": 3}), ("one by one", {"x": 2, "t": 3}, {"t": 1, "x": 1}), ("others", {"t": 3}, {"z": 2, "t": 2}), ("none", {}, {}), ("single", {"s": 1}, {"s": 1}),
]


@rule("C36", "tiled", 9)
def tiled(ctx):
    """For given sizes and chunk sizes, the chunks that are given out name each dimension in order, each index tuple is in exactly one of them, and no chunk is larger than what was asked for."""
    c = ctx.p.cls("flownodes.WriteNode")
    f = c.find_method("_chunk_iter_")
    r = ctx.run(f, cls=c)
    r.an.state = r.state
    ps = own(f)
    where = ctx.place(f)
    ys = sorted([e for e in r.events if e.kind == "yield"], key=lambda e: e.seq)
    for n, size, chunks in SPACES:
        def run():
            g = Graph(r.an, {mk("arg", ps[0]): OrderedDict(size), mk("arg", ps[1]): dict(chunks)})
            for e in sorted(r.raises(), key=lambda e: e.seq):
                if g.happens(e.loops or (), e.guards, g.env, e.seq):
                    raise Wrong("%s for %r" % (exc_name(e.val), size))
            got = [g.ev(e.val, x) for e in ys for x in g.happens(e.loops or (), e.guards, g.env, e.seq)]
            if not ys and r.value is not None:
                got = g.ev(r.value)
            seen, problems = {}, []
            for ch in got:
                if list(ch) != list(size):
                    problems.append("a chunk names %s" % list(ch))
                    continue
                spans = [list(range(size[d]))[ch[d]] for d in size]
                for d, s in zip(size, spans):
                    if len(s) > chunks.get(d, size[d]) or not s or s != list(range(s[0], s[0] + len(s))):
                        problems.append("along %s a chunk has %s" % (d, s))
                for i in product(*spans):
                    seen[i] = seen.get(i, 0) + 1
            for i in product(*[range(s) for s in size.values()]):
                if seen.get(i) != 1:
                    problems.append("%s is in %d chunks" % (list(i), seen.get(i, 0)))
            ctx.check(n, not problems, "; ".join(problems)[:200], where)
        attempt(ctx, n, run, where)


@rule("C36", "turned", 9)
def turned(ctx):
    """For given sizes and chunks, what is read for a chunk is the chunk itself in the dimensions that are not mirrored and, in the others, the same places counted from the end, in the opposite order."""
    c = ctx.p.cls("flownodes.WriteNode")
    f = c.find_method("_invert_dims_")
    r = ctx.run(f, cls=c)
    r.an.state = r.state
    ps = own(f)
    where = ctx.place(f)
    for n, size, chunks in SPACES:
        for back in [set(), set(list(size)[:1]), set(size)]:
            key = "%s %s" % (n, "".join(sorted(back)) or "-")

            def run():
                problems = []
                for ch in chunked(size, chunks):
                    for stop in (False, True):
                        if stop:
                            ch = OrderedDict((d, slice(s.start, size[d]) if s.stop is None else s) for d, s in ch.items())
                        ch = OrderedDict((d, ch[d]) for d in size)
                        g = Graph(r.an, {mk("arg", ps[0]): OrderedDict(size), mk("arg", ps[1]): ch, mk("arg", ps[2]): set(back)})
                        for e in sorted(r.raises(), key=lambda e: e.seq):
                            if g.happens(e.loops or (), e.guards, g.env, e.seq):
                                raise Wrong("%s for %r" % (exc_name(e.val), ch))
                        got = g.ev(r.value)
                        if list(got) != list(size):
                            problems.append("%r for %r" % (got, ch))
                            continue
                        for d, s in size.items():
                            want = [s - 1 - i if d in back else i for i in list(range(s))[ch[d]]]
                            have = list(range(s))[got[d]]
                            if have != want:
                                problems.append("along %s, of size %d, %r is read for %r" % (d, s, got[d], ch[d]))
                ctx.check(key, not problems, "; ".join(problems)[:200], where)
            attempt(ctx, key, run, where)
