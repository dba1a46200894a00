"""C17 C18: rules on the output specification and the file formats"""
import re

from .engine import SELF
from .pev import Fix, Lazy, Made, Tok, Unknown, World, Wrong
from .q import exc_name, is_call, name_of, subst
from .rule import rule, term
from .rules_data import root
from .terms import FALSE, TRUE, attr, cmp_, const, contains, cval, is_const, leaves, mk, not_, show, truth, walk

OPAQUE = ("DatasetDesc.__init__", "FileDesc.__init__", "VariableDesc.__init__", "DimensionDesc.__init__", "_validate_netcdf_type_", "PhysArray.__new__",
          "PhysArray.shape")
A = lambda x: mk("arg", x)
DS = A("dsdict")
NAME = mk("elem", DS)
V = mk("sub", DS, NAME)
FILE = mk("sub", V, const("file"))


class Spec:
    """the analysis of the specification reader"""

    def __init__(self, ctx):
        self.cls = ctx.p.cls("datasets.OutputDatasetDesc")
        self.fn = self.cls.find_method("__init__")
        self.r = ctx.run(self.fn, cls=self.cls, opaque=OPAQUE)
        self.where = ctx.place(self.fn)
        r = self.r
        # what happens for each entry, what happens for each file
        self.entry, self.rest = [], []
        for e in r.events:
            loops = e.loops or ()
            (self.entry if loops and root(r.norm(loops[0])) is DS else self.rest).append(e)
        self.files = self.variables = self.unowned = None
        fname = mk("sub", FILE, const("filename"))
        for a, rs in r.an.recs.items():
            for x in rs:
                if not x.loops or root(r.norm(x.loops[0])) is not DS:
                    continue
                k = r.norm(x.key) if hasattr(x.key, "op") else None
                v = r.norm(x.val) if hasattr(x.val, "op") else None
                if x.op == "set" and k is fname and a.args[0] == "dict":
                    self.files = a
                elif x.op == "set" and k is NAME and v is not None and is_new(v, "VariableDesc"):
                    self.variables = a
                elif x.op in ("append", "add") and v is NAME and x.guards and any(contains(r.norm(g), lambda y: y is FILE or
                                                                              y.op == "cmp" and y.args[0] == "in" and y.args[1] is const("file")) for g in x.guards):
                    self.unowned = a


def is_new(t, *names):
    return t.op == "new" and t.args[0].split(".")[-1] in names


def spec(ctx):
    if "spec" not in ctx.cache:
        ctx.cache["spec"] = Spec(ctx)
    return ctx.cache["spec"]


def shape_of(v):
    return v.kw.get("_shape") if "_shape" in v.kw else shape(v.args[0])


def shape(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        x = x[0]
    return tuple(s)


ATTRS = {"units": "m", "standard_name": "thing"}


def entry_world(s, v, claimed=False):
    w = Lazy(s.r.an, {V: v, NAME: "v1", DS: {"v1": v}, A("name"): "ds", s.files: {v["file"]["filename"]: {"variables": ["v0"]}} if claimed else {}},
              calls={"shape": shape, "asarray": lambda x, **k: Made("PhysArray", [x], {}), "array": lambda x, **k: Made("PhysArray", [x], {}),
                     "DefinitionWarning": lambda *a: Made("DefinitionWarning", list(a), {}), "Number": None},
              attrs={("PhysArray", "shape"): shape_of})
    return w


BASE = {"definition": "f(x)", "dimensions": ["d1", "d2"], "datatype": "int", "attributes": ATTRS}


def but(**k):
    d = dict(BASE)
    for key, val in k.items():
        if val is None:
            d.pop(key)
        else:
            d[key] = val
    return d


GRID = [[1, 2, 3], [4, 5, 6]]
WORLDS = [
    # (what, entry, file name claimed before, outcome)
    ("no definition", but(definition=None), False, "skip"),
    ("empty definition", but(definition=""), False, "skip"),
    ("blank definition", but(definition="  \t"), False, "skip"),
    ("blank definition, no dimensions", but(definition="\n", dimensions=None), False, "skip"),
    ("no definition, no dimensions", but(definition=None, dimensions=None), False, "skip"),
    ("no definition, with file", but(definition=None, file={"filename": "f.nc"}), False, "skip"),
    ("no definition, file without name", but(definition=None, file={}), False, "skip"),
    ("no dimensions", but(dimensions=None), False, "error"),
    ("array definition, no dimensions", but(definition=GRID, dimensions=None), False, "error"),
    ("file without name", but(file={}), False, "error"),
    ("file without name, with format", but(file={"format": "NETCDF4", "metavars": ["a"]}), False, "error"),
    ("file claimed before", but(file={"filename": "f.nc"}), True, "error"),
    ("file claimed before, with options", but(file={"filename": "f.nc", "format": "NETCDF4", "metavars": ["a"]}), True, "error"),
    ("complete", but(), False, "ok"),
    ("no datatype", but(datatype=None), False, "ok"),
    ("no attributes", but(attributes=None), False, "ok"),
    ("scalar", but(dimensions=[]), False, "ok"),
    ("text", but(datatype="char"), False, "ok"),
    ("array definition", but(definition=GRID), False, "ok"),
    ("text array definition", but(definition=GRID, datatype="char"), False, "ok"),
    ("with file", but(file={"filename": "f.nc"}), False, "ok"),
    ("with file and all options", but(file={"filename": "f.nc", "format": "NETCDF4", "deflate": 0, "attributes": {"a": "b"},
                                            "autoparse_time_variable": "t", "metavars": ["m1", "v1", "m2"]}), False, "ok"),
]


def passes(w, e):
    """the environments (passes of its inner loops) in which an event for one entry happens"""
    return w.happens(e.loops or (), e.guards, w.env, e.seq)


def bound(ctx, m, cname):
    """the arguments of a constructor call by parameter name"""
    f = ctx.p.cls("datasets." + cname).find_method("__init__")
    names = [a.arg for a in f.node.args.args][1:]
    out = dict(zip(names, m.args))
    out.update(m.kw)
    return out


@rule("C17", "entries", 22)
def c17_entries(ctx):
    """for each kind of specification entry (abstract worlds of what the entry has), by the conditions of the reader: one without a
    definition is skipped with a DefinitionWarning and nothing else, one without dimensions, without file name or with a claimed file name
    raises, and any other makes a variable with the given type, attributes, definition and dimensions"""
    s = spec(ctx)
    r = s.r
    ctx.check("reader", bool(s.files is not None and s.variables is not None) or None, "the file and variable collections are not recognised", s.where)
    early = [e for e in s.r.events if e.kind in ("break", "return") and len(e.loops or ()) == 1 and (root(s.r.norm(e.loops[0])) is DS or root(e.loops[0]) is s.files)]
    ctx.check("all entries", not early, "the entries or files after this one are left out", early[0] if early else s.where)
    for what, v, claimed, want in WORLDS:
        w = entry_world(s, v, claimed)
        warned, raised, made, wrong, und = [], [], [], [], []
        for e in s.entry:
            if e.kind not in ("call", "raise", "getitem"):
                continue
            try:
                envs = passes(w, e)
                if not envs or raised and e.seq > raised[0].seq:
                    continue
                if e.kind == "raise":
                    raised.append(e)
                elif e.kind == "getitem":
                    for env in envs:
                        if contains(e.obj, lambda x: x is V) and not contains(e.obj, lambda x: x.op in ("alloc", "phi", "coll")):
                            w.ev(mk("sub", e.obj, e.args[0]) if e.args else mk("sub", e.obj, e.name), env)
                elif name_of(e.f) and name_of(e.f).split(".")[-1] == "warn":
                    cat = [x for x in list(e.args or ()) + [x for k, x in e.kw or ()]]
                    if any("DefinitionWarning" in show(x, 4) for x in cat):
                        warned.append(e)
                elif name_of(e.f) and name_of(e.f).split(".")[-1] == "VariableDesc":
                    for env in envs:
                        made.append((e, w.make("VariableDesc", [a for a in e.args or ()], [(k, x) for k, x in e.kw or ()], env)))
            except Wrong as x:
                wrong.append((e, str(x)))
            except Unknown as x:
                und.append((e, str(x)))
        key = "entry:" + what
        at = raised[0] if raised else made[0][0] if made else s.where
        failed = bool(raised or wrong)
        if und:
            ctx.unknown(key, "%s at line %s" % (und[0][1], und[0][0].node.lineno), und[0][0])
            continue
        if want == "skip":
            why = "an error is raised" if failed else "it is not skipped" if made else "there is no warning" if not warned else None
        elif want == "error":
            why = "there is no error" if not failed else None
        else:
            why = "an error is raised: %s" % (wrong[0][1] if wrong else term(r.norm(raised[0].val), 60)) if failed else "it is skipped with a warning" if warned else \
                "no variable is made" if not made else "%d variables are made" % len(made) if len(made) > 1 else compare(ctx, made[0][1], v)
        if why:
            ctx.bad(key, why, wrong[0][0] if wrong and want != "error" else at)
        else:
            ctx.ok(key, "", at)


def compare(ctx, m, v):
    """what is wrong with the variable made of entry v"""
    b = bound(ctx, m, "VariableDesc")
    if b.get("name") != "v1":
        return "its name is %r" % (b.get("name"),)
    for k, default in (("datatype", "float"), ("attributes", {}), ("definition", None)):
        if b.get(k, default) != v.get(k, default):
            return "its %s is %r, not %r" % (k, b.get(k, default), v.get(k, default))
    dims = b.get("dimensions", ())
    if not isinstance(dims, (list, tuple)) or not all(isinstance(d, Made) for d in dims):
        return "its dimensions are %r" % (dims,)
    got = [bound(ctx, d, "DimensionDesc") for d in dims]
    if [g.get("name") for g in got] != list(v["dimensions"]):
        return "its dimensions are %r" % ([g.get("name") for g in got],)
    sizes = [g.get("size") for g in got]
    want = list(shape(v["definition"])) if isinstance(v["definition"], list) else [None] * len(got)
    if sizes != want:
        return "its sizes are %r, not %r" % (sizes, want)
    text = [bool(g.get("stringlen", False)) for g in got]
    if text != [v.get("datatype") == "char" and i == len(got) - 1 for i in range(len(got))]:
        return "its text dimensions are %r" % (text,)
    return None


def section(s, w):
    """what is stored about the file of an entry"""
    fname = mk("sub", FILE, const("filename"))
    item = mk("sub", s.files, fname)
    out = None
    for e in s.entry:
        if e.kind == "setitem" and e.obj is s.files:
            for env in passes(w, e):
                v = w.ev(e.val, env)
                if not isinstance(v, dict) or w.ev(e.name if hasattr(e.name, "op") else const(e.name), env) != w.ev(fname, env):
                    raise Unknown("stored: %r" % (v,))
                out = dict(v)
        elif e.kind == "setitem" and e.obj is item:
            for env in passes(w, e):
                out[w.ev(e.name, env) if hasattr(e.name, "op") else e.name] = w.ev(e.val, env)
        elif e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[0] is item:
            for env in passes(w, e):
                if e.f.args[1] != "update":
                    raise Unknown("files[…].%s" % e.f.args[1])
                out.update(w.ev(e.args[0], env) if e.args else {})
                out.update(w.kws(e.kw or (), env))
    return out


FULL = {"filename": "f.nc", "format": "NETCDF4", "deflate": 0, "attributes": {"a": "b"}, "autoparse_time_variable": "t", "metavars": ["m1", "v1", "m2"]}


@rule("C17", "sections", 8)
def c17_sections(ctx):
    """the file section of an entry: the file gets the entry's variable, its metadata variables and exactly the options that are given, and
    entries without a file section are remembered as unowned"""
    s = spec(ctx)
    if s.files is None:
        ctx.unknown("sections", "the file collection is not recognised", s.where)
        return
    for what, given in [("all options", FULL), ("name only", {"filename": "f.nc"})] + [("without " + k, {a: b for a, b in FULL.items() if a != k}) for k in FULL if k != "filename"]:
        w = entry_world(s, but(file=given))
        try:
            got = section(s, w)
        except (Unknown, Wrong) as u:
            ctx.unknown("section:" + what, str(u), s.where)
            continue
        if got is None:
            ctx.bad("section:" + what, "no file is described", s.where)
            continue
        got = {k: v for k, v in got.items() if v is not None}
        want = {k: v for k, v in given.items() if k not in ("filename", "metavars")}
        names = list(got.pop("variables", ()))
        wrong = ["%s is %r, not %r" % (k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        lost = {"v1"} | set(given.get("metavars", ())) - set(names)
        lost = ({"v1"} | set(given.get("metavars", ()))) - set(names)
        if lost:
            wrong.append("variables lacks %s" % sorted(lost))
        ctx.check("section:" + what, not wrong, "; ".join(wrong), s.where)
    if s.unowned is not None:
        for what, v, want in (("without file", but(), ["v1"]), ("with file", but(file=FULL), [])):
            try:
                got = list(entry_world(s, v).ev(s.unowned))
                ctx.check("unowned:" + what, got == want, "%s unowned" % ("is not remembered as" if want else "is taken for"), s.where)
            except (Unknown, Wrong) as u:
                ctx.unknown("unowned:" + what, str(u), s.where)


def var(name, dims, **attrs):
    return Made("VariableDesc", [name], {"dimensions": {d: Tok("dim") for d in dims}, "attributes": attrs, "datatype": "float"})


VARIABLES = [
    var("v", ("t", "y", "x")), var("other", ("t", "y")), var("w", ("t",)),
    var("t", ("t",), bounds="t_bnds"), var("t_bnds", ("t", "bnd")), var("y", ("y",), bounds="y_bnds"), var("y_bnds", ("y", "bnd"), coordinates="far"),
    var("area", ("y", "x"), coordinates="lat  lon"), var("lat", ("p",), bounds="lat_bnds"), var("lon", ("p",)), var("lat_bnds", ("p", "bnd")),
    var("p", ("p",)), var("scalar", ()), var("mixed", ("t", "p")), var("far", ("q",), coordinates="farther"), var("farther", ("r",)), var("last", ("x",)),
    var("both", ("y",), bounds="y_bnds", coordinates="lon"), var("x_bnds", ("x",)), var("b", ("y", "x", "t")), var("time", ("t",)),
]
UNREL = {"p", "mixed", "scalar", "far", "farther", "lat", "lon", "lat_bnds"}
CONTENTS = [
    # (what, variables, listed, unowned, expected)
    ("own variable", ["w"], ["w"], [], {"w"}),
    ("listed variables", ["w", "p", "scalar"], ["w", "p", "scalar"], [], {"w", "p", "scalar"}),
    ("listed and unowned", ["w", "p", "scalar"], ["w", "p", "scalar"], ["p", "scalar"], {"w", "p", "scalar"}),
    ("unowned with the same dimensions", ["v", "last", "p", "scalar", "mixed"], ["v"], ["last", "p", "scalar", "mixed"], {"v", "last"}),
    ("unowned, first and last", ["v", "last", "w"], ["v"], ["w", "last"], {"v", "last", "w"}),
    ("unowned, any name", ["v", "x_bnds", "b", "time", "other"], ["v"], ["x_bnds", "b", "time", "other"], {"v", "x_bnds", "b", "time", "other"}),
    ("unowned, a single one", ["w", "time"], ["w"], ["time"], {"w", "time"}),
    ("bounds and coordinates", ["both", "y_bnds", "lon", "far", "farther"], ["both"], [], {"both", "y_bnds", "lon", "far", "farther"}),
    ("dimensions of a listed variable", ["w", "p", "mixed"], ["w", "p"], ["mixed"], {"w", "p", "mixed"}),
    ("bounds", ["v", "t", "t_bnds"], ["v"], ["t", "t_bnds"], {"v", "t", "t_bnds"}),
    ("bounds of a listed variable", ["w", "t", "t_bnds"], ["w", "t"], [], {"w", "t", "t_bnds"}),
    ("bounds of the own variable", ["t", "t_bnds"], ["t"], [], {"t", "t_bnds"}),
    ("coordinates", ["area", "lat", "lon", "lat_bnds"], ["area"], ["lat", "lon"], {"area", "lat", "lon", "lat_bnds"}),
    ("references of references", ["v", "y", "y_bnds", "far", "farther"], ["v"], ["y", "y_bnds"], {"v", "y", "y_bnds", "far", "farther"}),
    ("referenced and listed", ["t", "t_bnds"], ["t", "t_bnds"], [], {"t", "t_bnds"}),
]
BROKEN = [
    ("bounds", ["v", "t"], ["v"], ["t"]),
    ("bounds of the own variable", ["t"], ["t"], []),
    ("bounds of a listed variable", ["w", "y"], ["w", "y"], []),
    ("first coordinate", ["area", "lon"], ["area"], []),
    ("last coordinate", ["area", "lat", "lat_bnds"], ["area"], []),
    ("reference of a reference", ["area", "lat", "lon"], ["area"], []),
]


def file_world(s, names, listed, unowned):
    vs = {v.args[0]: v for v in VARIABLES if v.args[0] in names}
    fl = {"f.nc": {"variables": list(listed)}}
    env = {s.variables: vs, s.files: fl, mk("elem", s.files): "f.nc", A("name"): "ds"}
    if s.unowned is not None:
        env[s.unowned] = list(unowned)
    w = Fix(s.r.an, env, attrs={("VariableDesc", k): (lambda m, k=k: m.args[0] if k == "name" else m.kw[k]) for k in ("name", "dimensions", "attributes", "datatype")})
    w.solve()
    return w


def described(s):
    """[(event, the term of the variables of the file)]: where the files are described"""
    out = []
    for e in s.rest:
        if e.kind == "call" and e.f is not None and name_of(e.f) and name_of(e.f).split(".")[-1] == "FileDesc":
            vs = None
            kw = dict(e.kw or ())
            if "variables" in kw:
                vs = kw["variables"]
            elif "**" in kw:
                for q in s.rest:
                    if q.kind == "setitem" and q.seq < e.seq and q.obj is kw["**"] and (q.name == "variables" or hasattr(q.name, "op") and is_const(q.name, "variables")) and not \
                            [g for g in q.guards if g not in e.guards]:
                        vs = q.val
                if vs is None:
                    vs = mk("sub", kw["**"], const("variables"))
            out.append((e, vs))
    return out


@rule("C17", "contents", 20)
def c17_contents(ctx):
    """the variables each file is described with, as the least solution of what the reader puts in (for abstract sets of variables with
    dimensions and references): the listed ones, every unowned non-scalar one whose dimensions are present, and everything referenced as
    bounds or coordinates, directly or not; a reference to an unknown variable raises"""
    s = spec(ctx)
    if s.files is None or s.variables is None:
        ctx.unknown("contents", "the collections are not recognised", s.where)
        return
    desc = described(s)
    if len(desc) != 1 or desc[0][1] is None:
        ctx.unknown("contents", "%d places where a file is described" % len(desc), s.where)
        return
    e, vs = desc[0]
    loops = [root(l) for l in e.loops]
    ctx.check("every file", True if loops == [s.files] and not e.guards else False if loops == [s.files] else None, "described only when %s" % [term(g, 60) for g in e.guards], e)
    last = [q for q in s.rest if q.kind == "call" and q.f is not None and q.f.op in ("attr", "supermeth", "bound", "func") and name_of(q.f) == "__init__" and q.seq > e.seq]
    given = None
    for q in last:
        kw = dict(q.kw or ())
        fs = kw.get("files", q.args[1] if q.args and len(q.args) > 1 else None)
        if fs is not None:
            given = s.r.an.recs.get(fs)
            if given is None:
                continue
            ok = len(given) == 1 and given[0].op == "append" and given[0].val is e.res and not given[0].guards and [root(l) for l in given[0].loops] == [s.files]
            ctx.check("kept", True if ok else None if given and any(g.val is e.res or not given for g in given) and not any(g.guards for g in given) else False,
                      "not every described file is kept: %s" % [(g.op, term(g.val, 40), [term(x, 40) for x in g.guards]) for g in given], q)
    if given is None:
        ctx.unknown("kept", "the described files are not recognised", s.where)
    for what, names, listed, unowned, want in CONTENTS:
        key = "contents:" + what
        try:
            w = file_world(s, names, listed, unowned)
            got = w.ev(vs)
            got = {v.args[0] if isinstance(v, Made) else v for v in (got.values() if isinstance(got, dict) else got)}
        except (Unknown, Wrong) as u:
            ctx.unknown(key, str(u), e)
            continue
        if getattr(w, "failed", None) and want - got:
            ctx.unknown(key, str(list(w.failed.values())[0]), e)
            continue
        raised, und = raising(s, w, e)
        if raised is not None:
            ctx.bad(key, "an error is raised", raised)
        elif und is not None and not want - got:
            ctx.unknown(key, und[1], und[0])
        else:
            ctx.check(key, got == want, "the file lacks %s" % sorted(want - got) if want - got else "the file has also %s" % sorted(got - want), e)
    for what, names, listed, unowned in BROKEN:
        key = "unknown:" + what
        try:
            w = file_world(s, names, listed, unowned)
            raised, und = raising(s, w, e)
        except (Unknown, Wrong) as u:
            ctx.unknown(key, str(u), e)
            continue
        if raised is not None:
            ctx.ok(key, "", raised)
        elif und is not None:
            ctx.unknown(key, und[1], und[0])
        else:
            ctx.bad(key, "a reference to a variable that is not there raises no error", e)


def raising(s, w, e):
    """the first error raised while the variables of a file are collected, and what is not understood"""
    und = None
    for q in s.rest:
        if q.kind == "raise" and q.seq < e.seq and q.loops and root(q.loops[0]) is s.files:
            try:
                if w.passes(q.loops, [t for t in (q.val,) if t is not None] + list(q.guards), q):
                    return q, None
            except Unknown as u:
                und = (q, str(u))
            except Wrong:
                return q, None
        elif q.kind == "getitem" and q.seq < e.seq and q.loops and root(q.loops[0]) is s.files and q.obj is s.variables:
            try:
                for env in w.passes(q.loops, [t for t in (q.args[0] if q.args else q.name,) if hasattr(t, "op")] + list(q.guards), q):
                    k = w.ev(q.args[0] if q.args else q.name, env)
                    if k not in w.env[s.variables]:
                        return q, None
            except Unknown as u:
                und = und or (q, str(u))
    return None, und


FORMATS = ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF3_64BIT")
CLASSIC = ("byte", "char", "short", "int", "float", "real", "double")
EXTENDED = ("ubyte", "ushort", "uint", "int64", "uint64")


def outcome(r, w, before=None):
    """does an error arise in this world: True / False, the event; Unknown if that is not understood"""
    und = None
    for e in r.events:
        if e.kind not in ("raise", "getitem"):
            continue
        try:
            envs = w.happens(e.loops or (), e.guards, w.env, e.seq)
            if not envs:
                continue
            if e.kind == "raise":
                if und is None:
                    return True, e
                raise und
            k = e.args[0] if e.args else e.name
            for env in envs:
                w.ev(mk("sub", e.obj, k if hasattr(k, "op") else const(k)), env)
        except Wrong:
            if e.kind == "getitem" or und is None:
                return True, e
        except Unknown as u:
            if e.kind == "raise":
                und = und or u
    if und is not None:
        raise und
    return False, None


FILE_WORLDS = [("format " + f, dict(format=f), False) for f in FORMATS] + \
    [("format %r" % f, dict(format=f), True) for f in ("NETCDF5", "", "netcdf4", "NETCDF", "CLASSIC", "NETCDF3", None)] + \
    [("deflate %r" % d, dict(deflate=d), False) for d in (0, 1, 2, 5, 8, 9)] + \
    [("deflate %r" % d, dict(deflate=d), True) for d in (-1, -10, 10, 11, 100, "2", 2.5, 9.0, None)] + \
    [("time variable of the file", dict(autoparse_time_variable="t"), False), ("time variable not in the file", dict(autoparse_time_variable="u"), True),
     ("no time variable", dict(autoparse_time_variable=None), False)]


@rule("C17", "files", 30)
def c17_files(ctx):
    """file descriptions by their arguments (abstract worlds over the conditions of the raises): every known format and every whole deflate
    level from 0 to 9 is accepted, an unknown format, another deflate level and a time variable that the file does not have raise"""
    c = ctx.p.cls("datasets.FileDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c, opaque=("_is_list_of_type_", "DimensionDesc.unique", "VariableDesc.unique"))
    where = ctx.place(f)
    for what, args, want in FILE_WORLDS:
        a = dict(name="f.nc", format="NETCDF4", deflate=2, variables=[], attributes={}, autoparse_time_variable=None)
        a.update(args)
        w = Lazy(r.an, {A(k): v for k, v in a.items()}, calls={"_is_list_of_type_": lambda *x: True, "unique": lambda *x: {"t": Tok("t")}})
        try:
            bad, e = outcome(r, w)
        except Unknown as u:
            ctx.unknown("file:" + what, str(u), where)
            continue
        ctx.check("file:" + what, bad == want, "accepted" if want else "rejected", e or where)


def storable(ctx):
    """(format, type) -> does the type check accept it: True / False / Unknown"""
    if "storable" not in ctx.cache:
        c = ctx.p.cls("datasets.OutputDatasetDesc")
        f = c.find_method("_validate_netcdf_type_")
        r = ctx.run(f, cls=c)
        names = [a.arg for a in f.node.args.args]
        names = names[-2:]
        ctx.cache["storable"] = (r, names, f)
    r, names, f = ctx.cache["storable"]

    def ask(t, fmt):
        w = Lazy(r.an, {A(names[0]): t, A(names[1]): fmt})
        return not outcome(r, w)[0]
    return ask, f


@rule("C17", "types", 60)
def c17_types(ctx):
    """the type check: NETCDF4 stores every type, the other formats only the classic ones, unknown formats raise; it is made for every
    variable of every file with the file's format, and its error is not swallowed"""
    ask, f = storable(ctx)
    where = ctx.place(f)
    for fmt in FORMATS + ("NETCDF5",):
        for t in CLASSIC + EXTENDED + ("text",):
            want = fmt in FORMATS and (t in CLASSIC or fmt == "NETCDF4" and t in EXTENDED)
            try:
                got = ask(t, fmt)
            except (Unknown, Wrong) as u:
                ctx.unknown("type:%s:%s" % (fmt, t), str(u), where)
                continue
            ctx.check("type:%s:%s" % (fmt, t), got == want, "accepted" if got else "rejected", where)
    s = spec(ctx)
    desc = described(s) if s.files is not None else []
    made = [q for q in s.rest if q.kind == "call" and q.f is not None and name_of(q.f) and name_of(q.f).split(".")[-1] == "_validate_netcdf_type_"]
    if not made:
        elsewhere = [q for q in s.r.events if q.kind == "call" and "netcdf_type" in show(q.f, 3)] if s.files is not None else [None]
        ctx.check("checked", None if elsewhere else False, "the types of the variables are never checked", s.where)
        return
    q = made[0]
    for what, names, listed, unowned, want in CONTENTS:
        key = "checked:" + what
        try:
            w = file_world(s, names, listed, unowned)
            for v in w.env[s.variables].values():
                v.kw["datatype"] = v.args[0] + "'s"
            got = {w.ev(q.args[0], env) for env in w.passes(q.loops, list(q.args) + list(q.guards), q)}
            ctx.check(key, not {n + "'s" for n in want} - got, "%s are not checked" % sorted({n + "'s" for n in want} - got), q)
        except (Unknown, Wrong) as u:
            ctx.unknown(key, str(u), q)
        finally:
            for v in VARIABLES:
                v.kw["datatype"] = "float"
    if len(desc) == 1:
        ctx.check("checked:format", True if q.args[1] is attr(desc[0][0].res, "format") else False if is_const(q.args[1]) else None,
                  "checked against %s" % term(q.args[1], 60), q)
    for c in q.ctx:
        if c[0] == "try":
            raises = [e for e in s.rest if e.kind == "raise" and any(x[0] == "except" and x[1] == c[1] for x in e.ctx or ()) and
                      not [g for g in e.guards if g.op != "raised" and g not in q.guards]]
            ctx.check("checked:handler", bool(raises), "the error of the type check is swallowed", q)


# the storage a netCDF type name stands for
STORAGE = {"byte": "i1", "ubyte": "u1", "char": "S1", "short": "i2", "ushort": "u2", "int": "i4", "uint": "u4", "int64": "i8", "uint64": "u8",
           "float": "f4", "real": "f4", "double": "f8"}
CODES = {"b": "i1", "B": "u1", "h": "i2", "H": "u2", "i": "i4", "I": "u4", "q": "i8", "Q": "u8", "f": "f4", "d": "f8", "c": "S1", "l": "i8", "L": "u8",
         "int8": "i1", "uint8": "u1", "int16": "i2", "uint16": "u2", "int32": "i4", "uint32": "u4", "int64": "i8", "uint64": "u8", "float32": "f4", "float64": "f8"}
SYNONYMS = {"character": "char", "integer": "int", "real": "float"}
# the formats that netCDF4.Dataset creates
LIBRARY = {"NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF3_64BIT"}


def dtype_of(x, **k):
    """the storage code of numpy.dtype(x)"""
    if isinstance(x, Made) and x.name == "dtype":
        return x
    if not isinstance(x, str):
        raise Unknown("dtype of %r" % (x,))
    x = x.lstrip("<>=|")
    return Made("dtype", [CODES.get(x, x)], {})


def declared_types(ctx):
    """type name -> the storage VariableDesc gives it, None if it is rejected"""
    if "declared_types" not in ctx.cache:
        c = ctx.p.cls("datasets.VariableDesc")
        f = c.find_method("__init__")
        r = ctx.run(f, cls=c, opaque=("_is_list_of_type_", "DimensionDesc.unique"))
        r.an.state = r.state
        vals = {}
        for n in ("dtype", "datatype"):
            vals[n] = r.an.getattr(SELF, n)
        ctx.cache["declared_types"] = (f, r, vals)
    f, r, vals = ctx.cache["declared_types"]

    def isinst(x, what):
        return isinstance(x, Made) and x.name == "dtype"

    def ask(t):
        w = TypeWorld(r.an, {A("datatype"): t, A("name"): "v", A("dimensions"): (), A("attributes"): {}, A("definition"): None},
                      calls={"dtype": dtype_of, "_is_list_of_type_": lambda *x: True, "unique": lambda *x: {}})
        bad, e = outcome(r, w)
        if bad:
            return None
        d = w.ev(vals["dtype"])
        return d, w.ev(vals["datatype"])
    return ask, f


class TypeWorld(Lazy):
    def ev(self, t, env=None):
        if t.op == "isinstance" and "dtype" in show(t.args[1], 3):
            v = Lazy.ev(self, t.args[0], env)
            return isinstance(v, Made) and v.name == "dtype"
        if t.op == "isinstance":
            v = Lazy.ev(self, t.args[0], env)
            if isinstance(v, Made):
                return False
        if t.op == "ext" and t.args[0].split(".")[-1] in CODES:
            return Tok(t.args[0])
        return Lazy.ev(self, t, env)

    def compare(self, op, x, y):
        if op in ("==", "!=", "is") and (isinstance(x, Made) != isinstance(y, Made)) and not isinstance(x, Tok) and not isinstance(y, Tok):
            return op == "!="
        return Lazy.compare(self, op, x, y)


@rule("C18", "types", 30)
def c18_types(ctx):
    """every type name has the storage type of its kind and size (the description's dtype for each name, by case worlds over its tables),
    the description of a storage type has a name of that storage, and other names are rejected"""
    ask, f = declared_types(ctx)
    where = ctx.place(f)
    for t, code in sorted(STORAGE.items()):
        try:
            got = ask(t)
        except (Unknown, Wrong) as u:
            ctx.unknown("name:" + t, str(u), where)
            continue
        if got is None:
            ctx.bad("name:" + t, "rejected", where)
        elif not isinstance(got[0], Made) or got[0].name != "dtype":
            ctx.unknown("name:" + t, "stored as %r" % (got[0],), where)
        else:
            ctx.check("name:" + t, got[0].args[0] == code, "stored as %s" % got[0].args[0], where)
            ctx.check("kept:" + t, got[1] == t, "becomes %r" % (got[1],), where)
    for code in sorted(set(STORAGE.values())):
        try:
            got = ask(Made("dtype", [code], {}))
        except (Unknown, Wrong) as u:
            ctx.unknown("dtype:" + code, str(u), where)
            continue
        ok = got is not None and STORAGE.get(got[1]) == code and got[0] == Made("dtype", [code], {})
        ctx.check("dtype:" + code, ok, "rejected" if got is None else "described as %r stored as %r" % (got[1], got[0]), where)
    for t in ("text", "", "integer", "Float", "f4", "long", 4):
        try:
            ctx.check("unknown:%r" % (t,), ask(t) is None, "accepted", where)
        except (Unknown, Wrong) as u:
            ctx.unknown("unknown:%r" % (t,), str(u), where)


@rule("C18", "formats", 30)
def c18_formats(ctx):
    """every file format that a file description accepts is known to the type check and to the netCDF library, stores the classic types, and
    only NETCDF4 stores others; the writer creates the file with the described format"""
    ask, g = storable(ctx)
    c = ctx.p.cls("datasets.FileDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c, opaque=("_is_list_of_type_", "DimensionDesc.unique", "VariableDesc.unique"))
    where = ctx.place(f)
    names = set(FORMATS) | {cval(x) for e in r.raises() for gd in e.guards for x in walk(gd) if is_const(x) and isinstance(cval(x), str) and x.args and "NETCDF" in cval(x).upper()}
    names |= {"NETCDF5", "HDF5", "NETCDF3", "NETCDF4_64BIT", "NETCDF3_64BIT_CLASSIC"}
    for fmt in sorted(names):
        w = Lazy(r.an, {A(k): v for k, v in dict(name="f.nc", format=fmt, deflate=2, variables=[], attributes={}, autoparse_time_variable=None).items()},
                 calls={"_is_list_of_type_": lambda *x: True, "unique": lambda *x: {}})
        try:
            bad, e = outcome(r, w)
            kept = w.ev(r.norm(field_of(r, "_format"))) if not bad else None
        except Unknown as u:
            ctx.unknown("format:" + fmt, str(u), where)
            continue
        if bad:
            ctx.check("format:" + fmt, fmt not in FORMATS, "rejected", e)
            continue
        ctx.check("format:" + fmt, fmt in LIBRARY and kept == fmt, "accepted, but no format of the netCDF library" if fmt not in LIBRARY else "becomes %r" % (kept,), where)
        for t in sorted(STORAGE):
            try:
                got = ask(t, fmt)
                want = t in CLASSIC or fmt == "NETCDF4"
                ctx.check("stores:%s:%s" % (fmt, t), got == want, "accepted" if got else "rejected", ctx.place(g))
            except (Unknown, Wrong) as u:
                ctx.unknown("stores:%s:%s" % (fmt, t), str(u), ctx.place(g))
    w = ctx.p.cls("flownodes.WriteNode")
    fo = w.find_method("_open_")
    made = []
    if fo is not None:
        ro = ctx.run(fo, cls=w)
        made = [e for e in ro.events if e.kind == "call" and name_of(e.f) and name_of(e.f).split(".")[-1] in ("Dataset", "NCDataset", "open_file")]
    if not made:
        ctx.unknown("writer", "the place where the file is created is not recognised", fo and ctx.place(fo))
    for e in made:
        fm = dict(e.kw or ()).get("format")
        fm = ro.norm(fm) if fm is not None else None
        if fm is None:
            ctx.bad("writer", "created without a format", e)
        else:
            ok = fm.op == "attr" and fm.args[1] in ("format", "_format") and "filedesc" in show(fm.args[0], 4)
            ctx.check("writer", True if ok else False if is_const(fm) else None, "created as %s" % term(fm, 80), e)


def field_of(r, name):
    r.an.state = r.state
    return r.an.getattr(SELF, name)


def emitted(ctx):
    """the analysis of the specification writer's variable entries"""
    if "emitted" not in ctx.cache:
        f = ctx.p.func("cli.iconform.defineVar")
        r = ctx.run(f, opaque=("fill_missing_glob_attributes",))
        g = ctx.p.func("cli.iconform.defineAxes")
        ctx.cache["emitted"] = (f, r, g, ctx.run(g))
    return ctx.cache["emitted"]


def tables(t):
    """constant strings that select inside a value"""
    out = []
    for x in walk(t):
        if x.op == "cmp":
            for y in x.args[1:]:
                if is_const(y) and isinstance(cval(y), str) and cval(y) not in out:
                    out.append(cval(y))
        if x.op == "coll" and x.args[0] == "dict":
            for en in x.args[1]:
                if en[1] is not None and is_const(en[1]) and cval(en[1]) not in out:
                    out.append(cval(en[1]))
    return out


def stored_under(r, key):
    return [e for e in r.events if e.kind == "setitem" and (e.name == key or hasattr(e.name, "op") and is_const(e.name, key))]


class Missing(dict):
    """the attributes of a request: those that matter are given, the others are some text"""
    def __missing__(self, k):
        return Tok("some " + k)


@rule("C18", "emitted-types", 15)
def c18_emitted(ctx):
    """every type the specification writer emits is accepted by the reader and has the storage the requested type stands for; so are the
    formats"""
    f, r, g, rg = emitted(ctx)
    ask, _ = declared_types(ctx)
    n = 0
    for what, res, fn in (("variable", r, f), ("axis", rg, g)):
        evs = stored_under(res, "datatype")
        if not evs:
            ctx.unknown("datatype:" + what, "no type is emitted", ctx.place(fn))
        for e in evs:
            val = res.norm(e.val)
            keys = [k for k in tables(val) if k]
            keys = keys or [None]
            for k in sorted(set(keys) | {"real", "integer", "character", "double"} if len(keys) > 1 else keys, key=str):
                w = Lazy(res.an, {A("v"): Missing(type=k)} if k else {})
                try:
                    got = w.ev(val)
                except Wrong as u:
                    ctx.bad("datatype:%s:%s" % (what, k), "no type: %s" % u, e)
                    continue
                except Unknown as u:
                    ctx.unknown("datatype:%s:%s" % (what, k), str(u), e)
                    continue
                try:
                    acc = ask(got)
                except (Unknown, Wrong) as u:
                    ctx.unknown("datatype:%s:%s" % (what, k), str(u), e)
                    continue
                want = STORAGE.get(SYNONYMS.get(k, k)) if k else None
                if acc is None:
                    ctx.bad("datatype:%s:%s" % (what, k), "%r is emitted, which the reader rejects" % (got,), e)
                elif want:
                    ctx.check("datatype:%s:%s" % (what, k), acc[0].args[0] == want, "emitted as %r, stored as %s" % (got, acc[0].args[0]), e)
                else:
                    ctx.ok("datatype:%s:%s" % (what, k), "emitted as %r" % (got,), e)
    # formats: the writer stops at any that it does not know
    attrs = mk("call", mk("arg", "attributes"))
    fmts = stored_under(r, "format")
    for e in fmts:
        val = r.norm(e.val)
        for fmt in sorted(set(FORMATS) | {"NETCDF5", "netcdf4", "HDF5"} | {x for gd in e.guards for x in tables(r.norm(gd)) if "NETCDF" in x}):
            w = Lazy(r.an, {A("v"): Missing()}, calls={"fill_missing_glob_attributes": lambda *a: Missing(netcdf_type=fmt)})
            stops = False
            try:
                for q in r.events:
                    if q.seq < e.seq and (q.kind == "raise" or q.kind == "call" and name_of(q.f) in ("sys.exit", "exit", "os._exit")) and not q.loops:
                        stops = stops or w.happens((), q.guards, w.env) != []
                got = None if stops else w.ev(val)
            except (Unknown, Wrong) as u:
                ctx.unknown("format:" + fmt, str(u), e)
                continue
            ctx.check("format:" + fmt, got in FORMATS or got is None and fmt not in LIBRARY - {"NETCDF3_64BIT"}, "emitted as %r" % (got,), e)
    if not fmts:
        ctx.unknown("format", "no format is emitted", ctx.place(f))


@rule("C18", "emitted-options", 4)
def c18_options(ctx):
    """every option that the specification writer stores in a file section is one that the reader looks at"""
    f, r, g, rg = emitted(ctx)
    s = spec(ctx)
    read = set()
    for e in s.entry:
        for t in [x for x in (e.val, e.obj, e.f) if x is not None] + list(e.args or ()) + list(e.guards) + list(e.loops or ()):
            for x in walk(s.r.norm(t)):
                if x.op == "sub" and x.args[0] is FILE and is_const(x.args[1]):
                    read.add(cval(x.args[1]))
                if x.op == "cmp" and x.args[0] == "in" and x.args[2] is FILE and is_const(x.args[1]):
                    read.add(cval(x.args[1]))
    whole = any(e.kind == "call" and any(s.r.norm(x) is FILE for x in list(e.args or ()) + [v for k, v in e.kw or ()]) for e in s.entry)
    sect = [e for e in stored_under(r, "file")]
    if not sect or not read:
        ctx.unknown("options", "the file section is not recognised", ctx.place(f))
        return
    a = sect[0].val
    if a.op != "alloc" or a not in r.an.recs:
        ctx.unknown("options", "the file section is %s" % term(a, 60), sect[0])
        return
    for q in r.an.recs[a]:
        if q.op != "set" or not is_const(q.key):
            ctx.unknown("option:?", "an option that is not a constant", sect[0])
            continue
        k = cval(q.key)
        at = [e for e in stored_under(r, k) if e.obj is a]
        ctx.check("option:" + k, True if k in read else None if whole else False, "the reader never looks at it", at[0] if at else sect[0])


CODE = re.compile(r"%(-?[A-Za-z%])")


@rule("C18", "emitted-dates", 5)
def c18_dates(ctx):
    """every date pattern the specification writer puts into a file name is one that the file writer can replace: balanced braces around two
    formats of date codes, joined by a dash"""
    f, r, g, rg = emitted(ctx)
    evs = stored_under(r, "filename")
    if not evs:
        ctx.unknown("filename", "no file name is emitted", ctx.place(f))
    for e in evs:
        val = r.norm(e.val)
        pats = sorted({cval(x) for x in walk(val) if is_const(x) and isinstance(cval(x), str) and ("{" in cval(x) or "}" in cval(x) or "%" in cval(x))})
        if not pats:
            ctx.unknown("filename", "no date pattern is recognised", e)
        for p in pats:
            ctx.check("pattern:" + p, replaceable(p), "the file writer cannot replace it", e)


def replaceable(p):
    parts = re.split(r"\{([^{}]*)\}", p)
    if any(c in x for x in parts[::2] for c in "{}%"):
        return False
    for x in parts[1::2]:
        ends = x.split("-")
        if len(ends) != 2:
            return False
        for y in ends:
            codes = CODE.findall(y)
            if not codes or "%" in CODE.sub("", y) or any(c not in "YmdHMSjyfp" for c in codes):
                return False
    return True
