"""the data flow that a specification gives: which nodes are built, from what, and what is written"""
from .pev import TYPES, Made, Obj, Timed, Tok, Unknown, Wrong
from .q import exc_name, name_of
from .rule import rule
from .rules_mpi import attempt
from .rules_request import Request
from .engine import SELF
from .terms import cval, is_const, mk, show, walk

NODES = {"FlowNode": (), "DataNode": ("FlowNode",), "ReadNode": ("FlowNode",), "EvalNode": ("FlowNode",), "MapNode": ("FlowNode",), "ValidateNode": ("FlowNode",), "WriteNode": ("FlowNode",)}
OPAQUE = {"parse_definition", "_construct_flow_", "find_operator", "find_function", "iter_dfs", "iter_bfs"}


class Graph(Timed, Request):
    """nodes are objects with what they were made from"""

    def __init__(self, *a, **k):
        self.trying, self.went = set(), {}
        super().__init__(*a, **k)

    def make(self, name, args, kw, env):
        xs = [self.ev(x, env) if x.op != "star" else Tok("star") for x in args if x.op != "star"]
        for x in args:
            if x.op == "star":
                at = list(args).index(x)
                xs[at:at] = list(self.ev(x.args[0], env))
        ks = {}
        for k, v in kw:
            if k == "**":
                ks.update(self.ev(v, env))
            else:
                ks[k] = self.ev(v, env)
        if name in NODES:
            return node(name, xs, ks)
        return super().make(name, args, kw, env)

    def ev(self, t, env=None):
        if t.op == "isinstance":
            v = self.ev(t.args[0], env)
            if not isinstance(v, (Tok, Made)):
                ks = []
                for x in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)):
                    if x.op == "call" and name_of(x.args[0]) is not None and name_of(x.args[0]).endswith("namedtuple") and is_const(x.args[1][0]):
                        ks.append(cval(x.args[1][0]))
                    else:
                        ks.append((name_of(x) or show(x)).split(".")[-1].strip("<>"))
                if not isinstance(v, Obj):
                    return any(k in TYPES and isinstance(v, TYPES[k]) for k in ks)
                return v.kind in ks or any(b in ks for b in v.fields.get("__bases__", ()))
        if t.op == "sub" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.index_exp", "numpy.s_"):
            v = self.ev(t.args[1], env)
            return v if isinstance(v, tuple) or t.args[0].args[0] == "numpy.s_" else (v,)
        if t.op == "raised":
            e = self.env if env is None else env
            if t not in e:
                return self.fails_in(t, e)
        return super().ev(t, env)

    def fails_in(self, t, env, before=None):
        """does a call of the attempt raise what is caught"""
        for c in self.an.events:
            if c.kind == "call" and c.res is not None and (before is None or c.seq < before) and any(x[0] == "try" and x[1] == t.args[0] for x in c.ctx or ()):
                for x in self.happens(c.loops or (), c.guards, env, c.seq):
                    try:
                        self.ev(c.res, x)
                    except Missed as w:
                        caught = t.args[1]
                        if "*" in caught or "Exception" in caught or str(w) in caught:
                            return True
                        raise
        return False

    def attempts(self):
        """[(what is caught, the first and the last place of the attempt, its loops)]"""
        if not hasattr(self.an, "attempts"):
            first, out, end = {}, [], {}
            for e in sorted(self.an.events, key=lambda e: e.seq):
                for x in e.ctx or ():
                    if x[0] == "try" and x[1] not in first:
                        first[x[1]] = (e.seq, e.loops or ())
                if e.kind == "handler" and e.name in first:
                    end.setdefault(e.name, e.seq)
                    out.append((mk("raised", e.name, e.val if isinstance(e.val, tuple) else tuple(e.val)), first[e.name][0], end[e.name], first[e.name][1]))
            self.an.attempts = out
        return self.an.attempts

    def settled(self, guards, seq, env):
        if not super().settled(guards, seq, env):
            return False
        for t, lo, hi, loops in self.attempts():
            if lo < seq < hi and all(mk("elem", l) in env for l in loops) and (t.args[0], seq) not in self.trying:
                mark = (t.args[0], tuple(("id", id(v)) if isinstance(v, (Obj, Made, dict, list)) else v for l in loops for v in (env[mk("elem", l)],)))
                if mark in self.went and (self.went[mark][0] >= seq or self.went[mark][1]):
                    if self.went[mark][1]:
                        return False
                    continue
                self.trying.add((t.args[0], seq))
                try:
                    self.went[mark] = (seq, self.fails_in(t, env, seq))
                    if self.went[mark][1]:
                        return False
                finally:
                    self.trying.discard((t.args[0], seq))
        return True

    def item(self, b, i, env):
        if isinstance(b, Obj) and b.kind in NODES:
            if i.op == "const" and cval(i) is None:
                return info(b)
            raise Unknown("data of a node")
        return super().item(b, i, env)


def node(kind, xs, ks):
    d = {"__bases__": NODES[kind], "made": (xs, ks), "label": None, "inputs": []}
    given = dict(zip({"DataNode": ("data",), "ReadNode": ("variable", "index"), "MapNode": ("label", "dnode", "dmap"), "ValidateNode": ("vdesc", "dnode"), "WriteNode": ("filedesc", "inputs")}.get(kind, ()), xs), **ks)
    if kind == "EvalNode":
        given = {"label": xs[0] if xs else None, "func": xs[1] if len(xs) > 1 else None, "args": list(xs[2:]), "kwds": dict(ks)}
        d["inputs"] = given["args"] + list(ks.values())
        d["_function"] = d["function"] = Obj("function", label="function", sumlike_dimensions=set(summed(given)), __bases__=("Function",))
        d["sumlike_dimensions"] = set(summed(given))
    elif kind in ("MapNode", "ValidateNode"):
        d["inputs"] = [given.get("dnode")]
    elif kind == "WriteNode":
        d["inputs"] = list(given.get("inputs") or ())
    v = {"ReadNode": "variable", "ValidateNode": "vdesc", "WriteNode": "filedesc"}.get(kind)
    if v:
        x = given.get(v)
        if not isinstance(x, Obj) or x.kind != ("FileDesc" if kind == "WriteNode" else "VariableDesc"):
            raise Wrong("%s of %r" % (kind, x))
        d["label"] = x.fields["name"]
    else:
        d["label"] = given.get("label") or "data"
    if kind != "EvalNode" and any(not (isinstance(x, Obj) and x.kind in NODES) for x in d["inputs"]):
        raise Wrong("%s of %r" % (kind, d["inputs"]))
    d["given"] = given
    return Obj(kind, **d)


def summed(given):
    return set(given["func"].fields["sums"]) if isinstance(given.get("func"), Obj) else ()


def dims(n):
    """the dimensions a node announces (a function keeps those of its operands but those it sums over)"""
    g = n.fields["given"]
    if n.kind == "ReadNode":
        return list(g["variable"].fields["dimensions"])
    if n.kind == "DataNode":
        return list(g["data"].kw["dimensions"])
    if n.kind == "EvalNode":
        out = []
        for x in g["args"]:
            if isinstance(x, Obj) and x.kind in NODES:
                out += [d for d in dims(x) if d not in out]
        return [d for d in out if d not in summed(g)]
    if n.kind == "MapNode":
        return [g["dmap"].get(d, d) for d in dims(n.fields["inputs"][0])]
    return dims(n.fields["inputs"][0])


def info(n):
    return Obj("PhysArray", label="info", dimensions=tuple(dims(n)), name=n.fields["label"])


# ---------------------------------------------------------------------- a world
def dimension(name, size, out, stringlen=False):
    d = Obj("DimensionDesc", label=name, name=name, size=size, stringlen=stringlen, unlimited=False)

    def is_set():
        return d.fields["size"] is not None

    def put(other):
        out.append((name, other.fields["name"], other.fields["size"]))
        d.fields["size"] = other.fields["size"]
    d.fields.update(is_set=is_set, set=put)
    return d


def variable(name, ds, definition=None, datatype="float", alldims=None):
    units = Obj("Unit", label="units of " + name)
    return Obj("VariableDesc", label=name, name=name, dimensions={d: alldims[d] for d in ds}, definition=definition, datatype=datatype, dtype=Obj("dtype", label="dtype of " + name, itemsize=4),
               cfunits=lambda: units, units_object=units, units=lambda: "days", calendar=lambda: "noleap", refdatetime=lambda: "0001-01-01", attributes={}, files={})


def var(key, *ind):
    return Obj("VarType", label=key, key=key, ind=list(ind))


def op(key, *args):
    return Obj("OpType", label=key, key=key, args=list(args))


def func(key, *args, **kwds):
    return Obj("FuncType", label=key, key=key, args=list(args), kwds=kwds)


class World:
    """input variables, output variables with their definitions, and files"""

    def __init__(self, indims, invars, outdims, outvars, files):
        self.sets = []
        ind = {n: dimension(n, s, self.sets) for n, s in indims.items()}
        outd = {n: dimension(n, *(s if isinstance(s, tuple) else (s,))[:1], self.sets, *(s if isinstance(s, tuple) else (s,))[1:]) for n, s in outdims.items()}
        self.ids = Obj("InputDatasetDesc", label="in", dimensions=ind, variables={n: variable(n, ds, alldims=ind) for n, ds in invars.items()}, files={}, name="in")
        self.parsed = {}
        ov = {}
        for n, (ds, definition, *dt) in outvars.items():
            if isinstance(definition, (Obj, int)) and not isinstance(definition, bool):
                self.parsed["def " + n] = definition
                definition = "def " + n
            ov[n] = variable(n, ds, definition, *dt, alldims=outd)
        self.ods = Obj("OutputDatasetDesc", label="out", name="out", dimensions=outd, variables=ov,
                       files={f: Obj("FileDesc", label=f, name=f, variables={v: ov[v] for v in vs}, dimensions={}) for f, vs in files.items()})
        self.functions = {}

    def find(self, name, numargs=None):
        key = (name, numargs)
        if key not in self.functions:
            self.functions[key] = Obj("class", label=name, name=name, numargs=numargs, sums={name.split("_over_")[1]} if "_over_" in name else set())
        return self.functions[key]


def worlds():
    r, o, f = var, op, func
    io = {"i": 4, "j": 3, "t": 10}
    yield "plain", World(io, {"a": ("t", "i"), "b": ("t", "i")}, {"x": None, "time": None},
                         {"v": (("time", "x"), r("a")), "w": (("time", "x"), o("+", r("a"), o("-", r("b")))), "c": ((), 5.0)}, {"f1": ["v"], "f2": ["v", "w"], "f3": ["c"]})
    yield "data", World({"t": 10, "x": 4}, {"a": ("t", "x")}, {"x": 4, "time": None, "bnd": 2, "s": (3, True)},
                        {"x": (("x",), (1.0, 2.0, 3.0, 4.0), "double"), "tab": (("x", "bnd"), ((0.0, 1.0), (1.0, 2.0), (2.0, 3.0), (3.0, 4.0)), "double"), "bat": (("bnd", "x"), ((0.0, 1.0, 2.0, 3.0), (4.0, 5.0, 6.0, 7.0)), "double"), "name": (("x", "s"), ("p", "q", "r", "s"), "char"), "u": (("time", "x"), o("*", r("a"), r("x"))), "only": (("x",), r("x"))},
                        {"f": ["x", "u", "name"], "g": ["only"]})
    yield "functions", World(io, {"a": ("t", "i", "j")}, {"x": None, "y": None, "time": None},
                             {"m": (("time", "x"), f("mean_over_j", r("a"), "j")), "k": (("time", "x", "y"), f("limit", r("a", slice(0, 3)), above=f("max", r("a")), below=2)), "n": (("x", "y"), f("sum_over_t", f("f", r("a"))))},
                             {"f": ["m", "k"], "g": ["n"]})
    yield "missing", World(io, {"a": ("t",)}, {"time": None},
                           {"v": (("time",), r("a")), "q": (("time",), o("+", r("a"), r("nowhere"))), "z": (("time",), f("f", r("a"), k=r("nowhere")))}, {"f": ["v"], "g": ["v", "q"], "h": ["z"]})
    yield "renamed later", World({"t": 10, "i": 4, "lev": 2}, {"a": ("t", "i"), "b": ("t", "lev", "i"), "n": ("i",)}, {"time": None, "x": None, "z": 7},
                                 {"aaa": (("z", "time", "x"), r("b")), "bbb": (("time", "x"), r("a")), "ccc": (("x",), r("n"))}, {"f": ["aaa", "bbb", "ccc"]})
    yield "named already", World(io, {"a": ("t",), "b": ("t",), "d": ("t", "i")}, {"time": None, "x": None}, {"v": (("time",), r("a")), "w": (("time",), r("b")), "y": (("time", "x"), r("d"))}, {"f": ["v", "w", "y"]})
    yield "text length", World({"t": 10, "str": 9}, {"names": ("t", "str")}, {"time": None, "n": (4, True)}, {"names": (("time", "n"), r("names"), "char")}, {"f": ["names"]})
    yield "text length kept", World({"t": 10, "str": 3}, {"names": ("t", "str")}, {"time": 10, "n": (4, True)}, {"names": (("time", "n"), r("names"), "char")}, {"f": ["names"]})
    yield "own size kept", World({"t": 10}, {"a": ("t",)}, {"time": 5}, {"a": (("time",), r("a"))}, {"f": ["a"]})
    yield "same name", World({"x": 4}, {"v": ("x",), "lat": ("x",)}, {"x": None}, {"v": (("x",), o("*", r("v"), r("lat"))), "lat": (("x",), (0.0, 1.0, 2.0, 3.0), "double")}, {"f": ["v", "lat"]})


def refused():
    r = var
    yield "fewer in the data", World({"t": 10}, {"a": ("t",)}, {"time": None, "x": None}, {"v": (("time", "x"), r("a"))}, {"f": ["v"]})
    yield "more in the data", World({"t": 10, "i": 4}, {"a": ("t", "i")}, {"time": None}, {"v": (("time",), r("a"))}, {"f": ["v"]})
    yield "known name not in the data", World({"t": 10, "i": 4, "j": 3}, {"a": ("t",), "b": ("i", "j")}, {"time": None, "x": None}, {"v": (("time",), r("a")), "w": (("time", "x"), r("b"))}, {"f": ["v", "w"]})
    yield "one input for two outputs", World({"t": 10}, {"a": ("t",)}, {"time": None, "y": None}, {"v": (("time",), r("a")), "w": (("y",), r("a"))}, {"f": ["v", "w"]})
    yield "taken by another", World({"t": 10, "i": 4, "j": 3}, {"a": ("t", "i"), "b": ("t", "j")}, {"time": None, "x": None, "y": None},
                                    {"v": (("time", "x"), r("a")), "w": (("time", "y", "x"), r("b"))}, {"f": ["v", "w"]})


def expected(w):
    """what is built: ({variable: tree}, {input dimension: output dimension}, summed output dimensions, {file: variables}, sizes that are set)"""
    ids, ods = w.ids.fields, w.ods.fields

    class Nothing(Exception):
        pass

    def build(p, data):
        if isinstance(p, Obj) and p.kind == "VarType":
            if p.fields["key"] in ids["variables"]:
                return ("read", p.fields["key"], tuple(p.fields["ind"]))
            if p.fields["key"] in data:
                return ("data", p.fields["key"])
            raise Nothing
        if isinstance(p, Obj):
            args = [build(x, data) for x in p.fields["args"]]
            if p.kind == "OpType":
                return ("eval", p.fields["key"], (p.fields["key"], len(args)), tuple(args), ())
            return ("eval", p.fields["key"], (p.fields["key"], None), tuple(args), tuple(sorted((k, build(x, data)) for k, x in p.fields["kwds"].items())))
        return ("value", p)

    def sums(t):
        if t[0] != "eval":
            return set()
        out = {t[2][0].split("_over_")[1]} if "_over_" in t[2][0] else set()
        for x in list(t[3]) + [y for k, y in t[4]]:
            out |= sums(x)
        return out

    def names(t):
        if t[0] == "read":
            return list(ids["variables"][t[1]].fields["dimensions"])
        if t[0] == "data":
            return list(ods["variables"][t[1]].fields["dimensions"])
        if t[0] == "eval":
            out = []
            for x in t[3]:
                out += [d for d in names(x) if d not in out]
            own = {t[2][0].split("_over_")[1]} if "_over_" in t[2][0] else set()
            return [d for d in out if d not in own]
        return []
    data = [n for n, v in ods["variables"].items() if not isinstance(v.fields["definition"], str)]
    made = {}
    for n, v in ods["variables"].items():
        if n in data:
            continue
        try:
            made[n] = build(w.parsed[v.fields["definition"]], data)
        except Nothing:
            pass
    i2o, o2i = {}, {}
    for n in sorted(made, key=lambda n: (len(ods["variables"][n].fields["dimensions"]), n)):
        out, inp = list(ods["variables"][n].fields["dimensions"]), names(made[n])
        done = [o2i[d] for d in out if d in o2i]
        for a, b in zip([d for d in out if d not in o2i], [d for d in inp if d not in done]):
            o2i[a], i2o[b] = b, a
    sets = []
    for d, o in ods["dimensions"].items():
        i = ids["dimensions"].get(o2i.get(d))
        if i is not None and (o.fields["size"] is None or o.fields["stringlen"] and o.fields["size"] < i.fields["size"]):
            sets.append((d, i.fields["name"], i.fields["size"]))
    trees = {n: ("validated", n, ("data", n)) for n in data}
    trees.update({n: ("validated", n, ("mapped", t)) for n, t in made.items()})
    summed = {i2o[d] for t in made.values() for d in sums(t) if d in i2o}
    files = {f: list(fd.fields["variables"]) for f, fd in ods["files"].items() if all(v in trees for v in fd.fields["variables"])}
    return trees, i2o, o2i, summed, files, sets


def tree(n, w, i2o, problems):
    """the form of a node; what it should not be is noted"""
    if not isinstance(n, Obj) or n.kind not in NODES:
        return ("value", n)
    g = n.fields["given"]
    if n.kind == "ReadNode":
        own = w.ids.fields["variables"].get(n.fields["label"])
        if g["variable"] is not own:
            problems.append("what is read is not described by the input dataset")
        i = g.get("index")
        i = () if i is None else i if isinstance(i, tuple) else (i,)
        return ("read", n.fields["label"], i)
    if n.kind == "DataNode":
        return ("data", data_name(g["data"], w, problems))
    if n.kind == "EvalNode":
        f = g["func"]
        return ("eval", g["label"], (f.fields["name"], f.fields["numargs"]) if isinstance(f, Obj) else f, tuple(tree(x, w, i2o, problems) for x in g["args"]),
                tuple(sorted((k, tree(x, w, i2o, problems)) for k, x in g["kwds"].items())))
    if n.kind == "MapNode":
        if g.get("dmap") != i2o:
            problems.append("the dimensions are renamed by %r" % (g.get("dmap"),))
        return ("mapped", tree(g["dnode"], w, i2o, problems))
    if n.kind == "ValidateNode":
        v = g["vdesc"]
        if v is not w.ods.fields["variables"].get(v.fields["name"]):
            problems.append("the validated descriptor is not the one of the output")
        return ("validated", n.fields["label"], tree(g["dnode"], w, i2o, problems))
    return (n.kind,)


def data_name(a, w, problems):
    """the variable whose literal data these are"""
    kw = dict(zip(("data", "units", "name", "dimensions"), a.args), **a.kw) if hasattr(a, "kw") else {}
    n = kw.get("name")
    v = w.ods.fields["variables"].get(n)
    if v is None:
        problems.append("literal data named %r" % (n,))
        return n
    u = kw.get("units")
    if u is not v.fields["units_object"] and not (u is None or isinstance(u, (str, Obj))):
        raise Unknown("units %r" % (u,))
    if u is not v.fields["units_object"]:
        problems.append("literal data of %s in %r" % (n, kw.get("units")))
    if tuple(kw.get("dimensions") or ()) != tuple(v.fields["dimensions"]):
        problems.append("literal data of %s with dimensions %r" % (n, kw.get("dimensions")))
    d = kw.get("data")
    if isinstance(d, Obj) and d.kind == "array":
        if d.fields["data"] is not v.fields["definition"]:
            problems.append("literal data of %s are %r" % (n, d.fields["data"]))
        t = d.fields["dtype"]
        if v.fields["datatype"] == "char":
            if t != "S":
                problems.append("TEXT: the text of %s is stored as %r" % (n, t))
        elif t is not v.fields["dtype"]:
            problems.append("literal data of %s have the type %r" % (n, t))
    else:
        raise Unknown("literal data %r" % (d,))
    return n


def built(ctx):
    if "graph" not in ctx.cache:
        c = ctx.p.cls("dataflow.DataFlow")
        r = ctx.run(c.methods["__init__"], cls=c, opaque=OPAQUE)
        r.an.state = r.state
        f = c.find_method("_construct_flow_")
        inner = ctx.run(f, cls=c, opaque=OPAQUE) if f is not None else None
        ctx.cache["graph"] = (c, r, f, inner)
    return ctx.cache["graph"]


class Missed(Wrong):
    pass


def asarray(x, dtype=None, **k):
    if isinstance(x, Tok):
        raise Unknown(repr(x))
    return Obj("array", label="array", data=x, dtype=dtype)


def construct(ctx, w):
    """the node of a parsed definition, by the method that builds it"""
    c, r, f, inner = built(ctx)
    names = [a.arg for a in f.node.args.args][1:]

    def go(*xs, **ks):
        xs = [x for x in xs if not (isinstance(x, Tok) or isinstance(x, Obj) and x.kind == "DataFlow")]
        given = dict(zip(names, xs), **ks)
        env = {mk("arg", n): given.get(n, {}) for n in names}
        env[SELF] = me(w, go)
        g = Graph(inner.an, env, calls=base_calls(w))
        for e in sorted((e for e in inner.events if e.kind in ("return", "raise") and e.fn is inner.fn), key=lambda e: e.seq):
            for x in g.happens(e.loops or (), e.guards, g.env, e.seq):
                if e.kind == "raise":
                    raise Missed(exc_name(e.val))
                return g.ev(e.val, x) if e.val is not None else None
        return g.ev(inner.value, env)
    return go


def base_calls(w):
    def parse(s):
        if s not in w.parsed:
            raise Wrong("a definition that is no text is parsed: %r" % (s,))
        return w.parsed[s]

    def dfs(n, *a):
        out, todo = [], [n]
        while todo:
            x = todo.pop()
            if isinstance(x, Obj) and x.kind in NODES:
                out.append(x)
                todo += x.fields["inputs"]
        return out
    return {"parse_definition": parse, "find_operator": lambda n, numargs=None: w.find(n, numargs), "find_function": lambda n: w.find(n), "iter_dfs": dfs, "iter_bfs": dfs, "asarray": asarray, "array": asarray,
            "warn": lambda *a, **k: None, "print": lambda *a, **k: None}


def me(w, go):
    return Obj("DataFlow", label="flow", _ids=w.ids, _ods=w.ods, _construct_flow_=go)


def evaluate(ctx, w):
    c, r, f, inner = built(ctx)
    init = c.methods["__init__"]
    ps = [a.arg for a in init.node.args.args]
    env = {mk("arg", ps[1]): w.ids, mk("arg", ps[2]): w.ods}
    calls = base_calls(w)
    env[SELF] = me(w, construct(ctx, w) if f is not None else None)
    g = Graph(r.an, env, calls=calls)
    for e in sorted(r.events, key=lambda e: e.seq):
        if e.kind == "raise" and not any(x[0] == "try" for x in e.ctx or ()):
            for x in g.happens(e.loops or (), e.guards, g.env, e.seq):
                raise Wrong("raises %s" % exc_name(e.val))
    # sizes are given to dimensions at the end of the naming
    for e in sorted(r.events, key=lambda e: e.seq):
        if e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[1] == "set" and e.args:
            for x in g.happens(e.loops or (), [q for q in e.guards if not survived(r, q)], g.env, e.seq):
                o, a = g.ev(e.f.args[0], x), g.ev(e.args[0], x)
                if isinstance(o, Obj) and o.kind == "DimensionDesc":
                    o.fields["set"](a)
    return g, r


def survived(r, q):
    """does this only say that no pass of a loop raised? (that is looked at where it happens, with what was stored by then)"""
    return q.op == "forall" and any(e.kind == "raise" and q.args[0] in (e.loops or ()) for e in r.events) and any(
        x.op == "alloc" and any(q.args[0] in y.loops for y in r.an.recs.get(x, ())) for x in walk(q.args[1]))


def value(g, r, name):
    return g.ev(r.an.getattr(SELF, name))


# ---------------------------------------------------------------------- what has to come out


def state(g, r, name):
    v = value(g, r, name)
    if isinstance(v, Obj) and v.kind != "dict" or v is None:
        raise Unknown("%s is %r" % (name, v))
    return v


def each(ctx, names=None, also=worlds):
    """(world, the same world untouched, name, place), with the limits of an attempt"""
    c, r, f, inner = built(ctx)
    untouched = dict(also())
    for n, w in also():
        if names is None or n in names:
            yield n, w, untouched[n], ctx.place(c.methods["__init__"])


def grown(ctx, n, w):
    key = ("grown", n)
    if key not in ctx.cache:
        try:
            ctx.cache[key] = evaluate(ctx, w) + (w,)
        except (Unknown, Wrong) as x:
            ctx.cache[key] = x
    if isinstance(ctx.cache[key], Exception):
        raise ctx.cache[key]
    return ctx.cache[key]


def pretty(t, depth=0):
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return repr(t)
    if t[0] == "read":
        return t[1] + (repr(list(t[2])) if t[2] else "")
    if t[0] == "data":
        return "data of %s" % t[1]
    if t[0] == "value":
        return repr(t[1])
    if t[0] in ("validated", "mapped"):
        return "%s(%s)" % (t[0], pretty(t[-1]))
    if t[0] == "eval":
        return "%s(%s)" % (t[1], ", ".join([pretty(x) for x in t[3]] + ["%s=%s" % (k, pretty(x)) for k, x in t[4]]))
    return repr(t)


def differences(got, want, form=repr):
    return "; ".join("%s: %s, should be %s" % (k, form(got[k]) if k in got else "nothing", form(want[k]) if k in want else "nothing") for k in sorted(set(got) | set(want)) if k not in got or k not in want or got[k] != want[k])[:400]


@rule("C15", "assembled", 10)
def assembled(ctx):
    """For given input variables, output variables, definitions and files, the nodes that are built are followed from the constructor: for each output variable that can be made, what is validated is
    the literal data of it, or the renamed result of exactly the operators, functions, arguments, keywords, variables and indices of its definition, in this order; a variable whose definition needs
    what does not exist is left out and the others are kept."""
    for n, w, plain, where in each(ctx):
        def run():
            g, r, w2 = grown(ctx, n, w)
            trees, i2o = expected(plain)[:2]
            problems = []
            got = {k: tree(x, w2, dict(value(g, r, "_i2omap")), problems) for k, x in state(g, r, "_valnodes").items()}
            problems = [x for x in problems if not x.startswith("TEXT")]
            ctx.check(n, got == trees and not problems, differences(got, trees, pretty) or "; ".join(problems)[:300], where)
        attempt(ctx, n, run, where)


@rule("C15", "assembled-files", 10)
def assembled_files(ctx):
    """The files that are to be written are exactly those all of whose variables could be made; each is made from its own description and gets the results of exactly its own variables."""
    for n, w, plain, where in each(ctx):
        def run():
            g, r, w2 = grown(ctx, n, w)
            files = expected(plain)[4]
            got, problems = {}, []
            for k, x in state(g, r, "_writenodes").items():
                if not isinstance(x, Obj) or x.kind != "WriteNode":
                    raise Unknown("%s: %r" % (k, x))
                if x.fields["given"]["filedesc"] is not w2.ods.fields["files"].get(k):
                    problems.append("%s is written by the description of %s" % (k, x.fields["label"]))
                got[k] = sorted("%s(%s)" % (y.kind, y.fields["label"]) for y in x.fields["inputs"])
            want = {k: sorted("ValidateNode(%s)" % v for v in vs) for k, vs in files.items()}
            ctx.check(n, got == want and not problems, differences(got, want) or "; ".join(problems), where)
        attempt(ctx, n, run, where)


@rule("C11", "assembled-maps", 10)
def assembled_maps(ctx):
    """For given variables and dimensions the two maps are those that the variables give one after the other, from those with few dimensions to those with many, position by position among the
    dimensions that have no counterpart yet."""
    for n, w, plain, where in each(ctx):
        def run():
            g, r, w2 = grown(ctx, n, w)
            i2o, o2i = expected(plain)[1:3]
            got = dict(state(g, r, "_i2omap")), dict(state(g, r, "_o2imap"))
            ctx.check(n, got == (i2o, o2i), differences(got[0], i2o) or differences(got[1], o2i), where)
        attempt(ctx, n, run, where)


@rule("C11", "assembled-sizes", 10)
def assembled_sizes(ctx):
    """An output dimension without a size, or a string length below that of the data, takes that of its own input dimension; the others keep theirs."""
    for n, w, plain, where in each(ctx):
        def run():
            g, r, w2 = grown(ctx, n, w)
            want = expected(plain)[5]
            ctx.check(n, sorted(w2.sets) == sorted(want), "(output, input, size): %r, should be %r" % (sorted(w2.sets), sorted(want)), where)
        attempt(ctx, n, run, where)


@rule("C11", "unmappable", 5)
def unmappable(ctx):
    """Output variables whose dimensions have no one-to-one counterpart among those of their data, given those already named, are refused."""
    for n, w, plain, where in each(ctx, also=refused):
        def run():
            try:
                evaluate(ctx, w)
            except Wrong as x:
                ctx.check(n, True, "refused: %s" % x, where)
            else:
                ctx.bad(n, "accepted", where)
        attempt(ctx, n, run, where)


@rule("C09", "assembled-sums", 10)
def assembled_sums(ctx):
    """What cannot be split is what any function anywhere in the definition of an output variable sums over, under the name that it has in the output."""
    for n, w, plain, where in each(ctx):
        def run():
            g, r, w2 = grown(ctx, n, w)
            got, want = set(state(g, r, "_sumlike_dimensions")), expected(plain)[3]
            ctx.check(n, got == want, "%r, should be %r" % (sorted(got), sorted(want)), where)
        attempt(ctx, n, run, where)


@rule("C13", "assembled-validation", 10)
def assembled_validation(ctx):
    """What a file gets for a variable is validated against the description of this variable in the output."""
    for n, w, plain, where in each(ctx):
        def run():
            g, r, w2 = grown(ctx, n, w)
            wrong = []
            for k, x in state(g, r, "_writenodes").items():
                for y in x.fields["inputs"]:
                    if y.kind != "ValidateNode":
                        wrong.append("%s in %s is not validated" % (y.fields["label"], k))
                    elif y.fields["given"]["vdesc"] is not w2.ods.fields["variables"].get(y.fields["label"]):
                        wrong.append("%s in %s is validated as another" % (y.fields["label"], k))
            ctx.check(n, not wrong, "; ".join(wrong)[:300], where)
        attempt(ctx, n, run, where)


@rule("C30", "assembled-text", 1)
def assembled_text(ctx):
    """Literal data of an output variable of type char become an array of text."""
    for n, w, plain, where in each(ctx, ("data",)):
        def run():
            g, r, w2 = grown(ctx, n, w)
            problems = []
            for x in state(g, r, "_valnodes").values():
                tree(x, w2, {}, problems)
            problems = [x for x in problems if x.startswith("TEXT")]
            ctx.check(n, not problems, "; ".join(problems), where)
        attempt(ctx, n, run, where)
