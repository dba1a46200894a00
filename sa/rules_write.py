"""C01 C10 C12 C32: the writing node"""
from .engine import SELF
from .phys import sign, unwrap
from .q import cases, decide, exc_name, is_call, is_new, kwarg, name_of, raises_always, same_seq, seqview, strip_seq
from .pev import Unknown, World, Wrong
from .rule import rule, term
from .terms import FALSE, NONE, TRUE, attr, cmp_, const, contains, cval, is_const, leaves, mk, not_, show, walk

LABEL = attr(SELF, "label")
FD = attr(SELF, "_filedesc")
INPUTS = attr(SELF, "inputs")
NODE = mk("elem", INPUTS)
OPAQUE_EXEC = ("_chunk_iter_", "_invert_dims_", "PhysArray.stretch", "CharArray.stretch", "_direction_", "_autoparse_filename_")
CREATORS = {"open": 0, "netCDF4.Dataset": 0, "Dataset": 0, "io.open": 0, "os.open": 0, "nio.open_file": 0}
MOVERS = {"os.rename": (0, 1), "os.replace": (0, 1), "shutil.move": (0, 1), "shutil.copy": (0, 1), "shutil.copyfile": (0, 1), "shutil.copy2": (0, 1),
          "os.link": (0, 1), "os.symlink": (0, 1)}
REMOVERS = {"os.remove", "os.unlink", "os.truncate", "shutil.rmtree"}


def wn(ctx):
    return ctx.p.cls("flownodes.WriteNode")


def initial(ctx):
    """attributes the constructor sets to constants and nothing else in the class changes"""
    WN = wn(ctx)
    r = ctx.run(WN.find_method("__init__"), cls=WN, opaque=("_autoparse_filename_",))
    heap = {}
    for (o, k), v in r.state.heap.items():
        if o is SELF and all(is_const(x) for g, x in leaves(r.norm(v))):
            heap[(SELF, k)] = r.norm(v)
    import ast
    for f in ctx.p.all_funcs():
        if f.cls is WN and f.name == "__init__":
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (SELF, n.attr) in heap and n.attr != "_file":
                heap.pop((SELF, n.attr))
    # class-level constants
    return heap


def execute(ctx):
    if "execute" not in ctx.cache:
        WN = wn(ctx)
        h = initial(ctx)
        ctx.cache["execute"] = ctx.run(WN.find_method("execute"), cls=WN, heap=h, opaque=OPAQUE_EXEC)
    return ctx.cache["execute"]


def dotted(e):
    f = e.f
    return f.args[0] if f is not None and f.op == "ext" else None


def parts(t):
    if t.op == "str":
        return [y for x in t.args for y in parts(x)]
    if t.op == "bin" and t.args[0] == "+":
        return parts(t.args[1]) + parts(t.args[2])
    return [t]


def tmp_relation(t, label):
    """'same' file, 'sibling' (another name in the same directory), 'elsewhere' or None"""
    if contains(t, lambda x: x.op == "ite"):
        cs = cases(t)
        rs = {tmp_relation(x[0], label) for v, x in cs} if cs else {None}
        return rs.pop() if len(rs) == 1 else "same" if "same" in rs else "elsewhere" if "elsewhere" in rs else None
    if t is label:
        return "same"
    ps = parts(t)
    if not contains(t, lambda x: x is label):
        return None
    if ps[0] is label and all(is_const(p) for p in ps[1:]):
        s = "".join(str(cval(p)) for p in ps[1:])
        return "same" if s == "" else "elsewhere" if "/" in s else "sibling"
    if label in ps and is_const(ps[0]) and all(is_const(p) or p is label for p in ps):
        return "elsewhere"
    if is_call(t, "join") and t.args[0].op == "ext" and len(t.args[1]) == 2:
        d, b = t.args[1]
        bp = parts(b)
        if is_call(d, "dirname") and d.args[1] == (label,) and any(is_call(x, "basename") and x.args[1] == (label,) for x in bp):
            rest = [x for x in bp if not is_call(x, "basename")]
            if all(is_const(x) for x in rest):
                s = "".join(str(cval(x)) for x in rest)
                return "same" if s == "" else "elsewhere" if "/" in s else "sibling"
        if not contains(d, lambda x: is_call(x, "dirname")):
            return "elsewhere"
    return None


def stores(r):
    """stores into variables of the open file"""
    return [e for e in r.events if e.kind == "setitem" and contains(r.norm(e.obj), lambda x: x.op == "attr" and x.args[1] == "variables" or
            is_call(x, "createVariable"))]


@rule("C01", "temporary-name", 1)
def c01_tmp(ctx):
    """Every file the writing node creates while executing is opened under a name made of the output name and a constant non-empty
    suffix (same directory, different name)."""
    r = execute(ctx)
    n = 0
    for e in r.calls():
        d = dotted(e)
        if d not in CREATORS or not e.args:
            continue
        mode = kwarg(e, "mode", 1, const("r"))
        if is_const(mode, "r"):
            continue
        n += 1
        rel = tmp_relation(r.norm(e.args[0]), LABEL)
        ctx.check("%s" % d, None if rel is None else rel == "sibling",
                  "the file written into is %s (%s)" % (term(e.args[0]), {"same": "the output file itself", "elsewhere": "in another directory"}.get(rel, "")), e)
        if rel == "sibling":
            ctx.cache.setdefault("tmp", set()).add(r.norm(e.args[0]))
    if not n:
        ctx.unknown("open", "no file is opened for writing", r.fn)


@rule("C01", "publish-by-rename", 3)
def c01_rename(ctx):
    """The output name is only ever the target of a rename of that temporary file, which is executed after all stores, outside the
    writing loops and outside handlers and finally blocks, and only after the file has been closed."""
    r = execute(ctx)
    tmp = {r.norm(e.args[0]) for e in r.calls() if dotted(e) in CREATORS and e.args and not is_const(kwarg(e, "mode", 1, const("r")), "r")}
    moves = [e for e in r.calls() if dotted(e) in MOVERS and len(e.args) > 1]
    rem = [e for e in r.calls() if dotted(e) in REMOVERS and e.args and r.norm(e.args[0]) is LABEL]
    for e in rem:
        ctx.bad("output removed", "the output file is removed or truncated before the new one is in place", e)
    pub = [e for e in moves if tmp_relation(r.norm(e.args[1]), LABEL) == "same"]
    if not pub:
        ctx.check("published", None if moves else False, "the temporary file is never given the output name", r.fn)
        return
    st = stores(r)
    for e in pub:
        ctx.check("published by rename", dotted(e) in ("os.rename", "os.replace"), "the output file is produced by %s" % dotted(e), e)
        ctx.check("source", r.norm(e.args[0]) in tmp, "%s is renamed, but %s was written" % (term(r.norm(e.args[0])), [term(x) for x in tmp]), e)
        late = [s for s in st if s.seq > e.seq]
        ctx.check("after all stores", not late and not e.loops, "data are written after the output name has appeared", late[0] if late else e)
        inh = [c for c in e.ctx if c[0] in ("except", "finally", "finallyguarded")]
        ctx.check("on success only", not inh, "the rename also happens when writing has failed", e)
        closes = [c for c in r.calls() if c.f is not None and c.f.op == "attr" and c.f.args[1] == "close" and
                  contains(c.f.args[0], lambda x: is_call(x, "Dataset")) and c.seq < e.seq and set(c.guards) <= set(e.guards) and not c.loops]
        ctx.check("after close", bool(closes), "the file is renamed before it is closed", e)


@rule("C01", "no-early-end", 1)
def c01_swallow(ctx):
    """No failure of a store, of evaluating the data or of closing is swallowed on the way to the rename, and the loops over chunks and variables are not left early."""
    r = execute(ctx)
    pub = [e for e in r.calls() if dotted(e) in MOVERS and len(e.args) > 1 and tmp_relation(r.norm(e.args[1]), LABEL) == "same"]
    st = stores(r)
    n = 0
    for s in st:
        n += 1
        tries = [c for c in s.ctx if c[0] == "try" and c not in (pub[0].ctx if pub else ())]
        swallowed = None
        for c in tries:
            # a handler of this try that completes
            hs = [e for e in r.events if e.kind == "handler" and e.name == c[1]]
            for h in hs:
                raised = [x for x in r.raises() if ("except", c[1]) == tuple(x.ctx[-1][:2] if x.ctx else ()) and x.seq > h.seq]
                uncond = [x for x in raised if set(x.guards) <= set(h.guards)]
                if not uncond:
                    swallowed = h
        ctx.check("store %d" % n, swallowed is None, "a failure while writing is swallowed and the incomplete file is renamed", swallowed or s)
        for b in r.events:
            if b.kind in ("break", "return") and b.loops and s.loops[:len(b.loops)] == b.loops and b.fn is s.fn and \
                    (b.kind == "break" or pub and any(c in ("finally",) for c in [x[0] for x in pub[0].ctx])):
                ctx.bad("loop left", "the writing loop can be left before all chunks are written", b)
    if not n:
        ctx.unknown("stores", "no store found", r.fn)


OUTPUTS = {"missing directory": ("d/y.nc", False), "missing directories": ("/a/b/cc/y.nc", False), "existing directory": ("/a/b/y.nc", True), "no directory": ("y.nc", True)}


def textual(p):
    if not isinstance(p, str):
        raise Wrong("the directory of %r" % (p,))
    return p


@rule("C01", "directory", 4)
def c01_directory(ctx):
    """A directory of the output name that does not exist (of any name, with any number of missing parents) is made before the file is opened; an existing one, or the lack of one, is no failure."""
    r = execute(ctx)
    opened = [e for e in r.calls() if dotted(e) in CREATORS and e.args and not is_const(kwarg(e, "mode", 1, const("r")), "r")]
    for what, (name, there) in OUTPUTS.items():
        here = lambda p, there=there: bool(p) and there
        split = lambda p: (textual(p).rpartition("/")[0], p.rpartition("/")[2])
        w = World({LABEL: name, attr(SELF, "_file"): None, mk("arg", "deflate"): 3, mk("arg", "history"): False, mk("arg", "chunks"): {}}, calls={"dirname": lambda p: split(p)[0], "basename": lambda p: split(p)[1], "split": split, "exists": here, "isdir": here, "lexists": here,
                                                                   "abspath": lambda p: "/w/" + p, "realpath": lambda p: "/w/" + p, "join": lambda *p: "/".join(p), "normpath": lambda p: p, "getcwd": lambda: "/w"})
        made, verdict, where = [], True, r.fn
        for e in r.calls():
            if dotted(e) not in ("os.makedirs", "os.mkdir", "makedirs", "mkdir") or opened and e.seq > opened[0].seq:
                continue
            try:
                if not all(w.holds(g) for g in e.guards):
                    continue
                path = textual(w.ev(e.args[0]))
            except Unknown:
                verdict = None
                continue
            except Wrong:
                verdict, where = False, e
                continue
            made.append(path)
            ok = kwarg(e, "exist_ok", 2)
            tried = [c[1] for c in e.ctx if c[0] == "try"]
            for x in r.raises():
                try:
                    if any(c[0] == "except" and c[1] in tried for c in x.ctx) and all(g.op == "raised" or w.holds(g) for g in x.guards):
                        tried = []
                except (Unknown, Wrong):
                    verdict = None
            if dotted(e).endswith("mkdir") and what == "missing directories":
                verdict, where = False, e
            if (there or not path) and not tried and not (path and ok is not None and is_const(ok) and cval(ok)):
                verdict, where = False, e
        if not there and verdict is True:
            want = name.rpartition("/")[0]
            verdict = True if want in made or "/w/" + want in made else False if opened and not any((dotted(e) or name_of(e.f) or "").strip("_").lower() in ("mkdir", "makedirs", "ensure_dir", "run", "call", "system", "mkpath") and
                                                                                                       e.seq < opened[0].seq and dotted(e) not in ("os.makedirs", "os.mkdir") for e in r.calls()) else None
        ctx.check(what, verdict, "the output file %s %s" % (name, "cannot be opened: its directory is not made" if not there else "is not opened: making the directory fails"), where)


@rule("C01", "other-callers", 1)
def c01_callers(ctx):
    """No other method of the writing node (destructor, context exit, ...) and no other function of the package renames to or creates an output name."""
    WN = wn(ctx)
    ex = WN.find_method("execute")
    inside = {v for e in execute(ctx).events for v in (e.via or ())}
    for name, f in sorted(WN.methods.items()):
        if f is ex or name.startswith("__init__"):
            continue
        r = ctx.run(f, cls=WN, opaque=OPAQUE_EXEC + ("execute",))
        pub = [e for e in r.calls() if dotted(e) in MOVERS and len(e.args) > 1 and tmp_relation(r.norm(e.args[1]), LABEL) == "same" or
               dotted(e) in CREATORS and e.args and tmp_relation(r.norm(e.args[0]), LABEL) == "same" and not is_const(kwarg(e, "mode", 1, const("r")), "r")]
        if not pub:
            ctx.ok(name, "does not touch the output name")
        elif f.qual in inside and not name.startswith("__"):
            ctx.ok(name, "part of execute (rules above)")
        else:
            ctx.bad(name, "%s gives a file the output name outside of a completed execution" % name, pub[0])
    # callers of the publishing helpers outside execute
    import ast
    helpers = {name for name, f in WN.methods.items() if f.qual in inside and f is not ex and any(
        dotted(e) in MOVERS for e in ctx.run(f, cls=WN, opaque=OPAQUE_EXEC + ("execute",)).calls())}
    for f in ctx.p.all_funcs():
        if f is ex or f.qual in inside:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in helpers and f.cls is WN:
                ctx.bad("call in %s" % f.qual, "%s publishes the file outside of a completed execution" % n.func.attr, f)


# ---------------------------------------------------------------- C10
VD = mk("sub", attr(FD, "variables"), attr(NODE, "label"))


def core(v):
    """stored value without the widening of character data"""
    while True:
        if v.op == "ite" and v.args[0].op == "isinstance":
            a, b = v.args[1], v.args[2]
            if is_call(a, "stretch"):
                v = b
                continue
            if is_call(b, "stretch"):
                v = a
                continue
        if is_call(v, "stretch"):
            v = v.args[0].args[0] if v.args[0].op == "attr" else v.args[1][0]
            continue
        return v


@rule("C10", "chunk-positions", 4)
def c10_positions(ctx):
    """Each store puts the data a node gives for the chunk (mirrored by the inversion function along the marked dimensions) into the file variable
    of the same node's label, at the unmirrored chunk taken for each of that variable's own dimensions in order."""
    r = execute(ctx)
    st = stores(r)
    if not st:
        ctx.unknown("stores", "no store found", r.fn)
    for e in st:
        obj, ix, val = r.norm(e.obj), r.norm(e.name), core(r.norm(e.val))
        if obj.op == "sub":
            ctx.check("variable", None if val.op != "sub" else obj.args[1] is attr(val.args[0], "label"),
                      "data of %s are stored in variable %s" % (term(val), term(obj.args[1])), e)
        if val.op != "sub":
            ctx.unknown("request", term(val), e)
            continue
        node, req = val.args
        if contains(req, lambda x: x.op == "last" and contains(x, lambda y: is_call(y, "_chunk_iter_"))):
            ctx.bad("every chunk", "only the last chunk is stored: the store is not made for every chunk", e)
            continue
        ctx.check("node", node is NODE or (None if node.op not in ("elem", "last") else False), "node %s" % term(node), e)
        chunk = None
        if is_call(req, "_invert_dims_"):
            a = req.args[1]
            chunk = kwarg(req, "chunk", 1)
            idims = kwarg(req, "idims", 2)
            sizes_ = a[0]
            ctx.check("mirrored", idims is attr(SELF, "_idims") if idims is not None else False,
                      "the dimensions mirrored are %s" % (idims and term(idims)), e)
        elif req.op == "elem" and is_call(req.args[0], "_chunk_iter_"):
            ctx.bad("mirrored", "the data are requested without mirroring the dimensions to invert", e)
            continue
        else:
            # inlined or renamed helper
            ctx.unknown("request", term(req), e)
            continue
        want = chunk
        isch = chunk is not None and chunk.op == "elem" and is_call(chunk.args[0], "_chunk_iter_")
        ctx.check("request chunk", isch or None, "chunk %s" % (chunk and term(chunk)), e)
        if isch:
            it = chunk.args[0]
            same = it.args[1][0] is sizes_
            ctx.check("sizes", same or None, "chunks of %s are mirrored in %s" % (term(it.args[1][0]), term(sizes_)), e)
            cs = kwarg(it, "chunks", 1)
            ctx.check("chunk sizes", cs is mk("arg", "chunks") if cs is not None else False, "chunked by %s" % (cs and term(cs)), e)
        v = seqview(ix)
        if v is None or len(v) != 1:
            ctx.unknown("store index", term(ix), e)
            continue
        x, g, l = v[0]
        okv = x.op == "sub" and x.args[0] is chunk and x.args[1].op == "elem"
        if x.op == "sub" and x.args[0] is req and x.args[1].op == "elem":
            ctx.bad("store index", "data are stored at the mirrored chunk", e)
            continue
        src = strip_keys(l[-1]) if l else None
        wanted = attr(mk("sub", attr(FD, "variables"), attr(node, "label")), "dimensions")
        okl = src is wanted
        ctx.check("store index", True if okv and okl and not g else (False if okv and src is not None and src.op == "attr" and src.args[1] == "dimensions" and
                  not contains(src, lambda z: z is node) else None), "stored at %s" % term(ix), e)


def strip_keys(t):
    t = strip_seq(t)
    while is_call(t, "keys") and t.args[0].op == "attr":
        t = t.args[0].args[0]
    return t


@rule("C10", "skip-only-written", 2)
def c10_skip(ctx):
    """A store is left out only on the condition that the key of exactly this chunk's store index is in the set of this variable's written
    chunks, and the same key is entered whenever a store has been made."""
    r = execute(ctx)
    for e in stores(r):
        w = e.name
        wn_ = r.norm(w)
        loopg = [g for g in e.guards if mentions_loop(r, g, e.loops)]
        loopg = [g for g in loopg if not (g.op in ("isinstance",) or g.op == "not" and g.args[0].op == "isinstance")]
        skips = [g for g in loopg if g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "in"]
        other = [g for g in loopg if g not in skips]
        ctx.check("no other condition", not other, "chunks are also skipped unless %s" % [term(r.norm(g)) for g in other], e)
        if not skips:
            ctx.ok("key", "every chunk is stored", e)
            continue
        for g in skips:
            k, seen = g.args[0].args[1], g.args[0].args[2]
            kn = r.norm(k)
            exact = kn is wn_ or is_call(kn, "repr", "str", "tuple") and kn.args[1] == (wn_,) or kn.op == "str" and wn_ in kn.args or \
                kn.op == "tuple" and wn_ in kn.args
            part = not exact and not contains(kn, lambda x: x is wn_)
            core_ = kn.args[1][0] if is_call(kn, "repr", "str", "tuple", "hash") and len(kn.args[1]) == 1 else kn
            ctx.check("key", exact or (False if part or core_.op == "sub" and core_.args[0] is wn_ or is_call(kn, "hash", "len") else None), "chunks are identified by %s" % term(kn), e)
            # one set per variable
            per = None
            if seen.op == "alloc":
                g0, l0 = r.an.alloc_ctx.get(seen, (0, 0))
                per = l0 > 0 or contains(kn, lambda x: x is attr(NODE, "label") or x is NODE)
            elif seen.op == "sub" and contains(seen.args[1], lambda x: x is attr(NODE, "label") or x is NODE):
                per = own_values(r, seen.args[0])
            elif seen.op == "coll" and not contains(kn, lambda x: x is attr(NODE, "label")):
                per = False
            ctx.check("per variable", per, "written chunks of different variables are kept in one set", e)
            adds = [c for c in r.calls() if c.f is not None and c.f.op == "attr" and c.f.args[1] in ("add", "append") and c.f.args[0] is seen]
            if not adds:
                ctx.ok("entered", "never entered: every chunk is stored", e)
            for a in adds:
                same = r.norm(a.args[0]) is kn
                stored = all(g2 in a.guards for g2 in skips) and a.loops == e.loops
                ctx.check("entered", same and stored or (None if same else False), "%s is entered as written" % term(r.norm(a.args[0])), a)


def own_values(r, d):
    """does every key of a dictionary have a value object of its own"""
    n = r.norm(d)
    if is_call(n, "fromkeys") and len(n.args[1]) > 1:
        return False if not is_const(n.args[1][1]) else None
    if d.op == "alloc":
        for rec in r.an.recs.get(d, ()):
            if rec.val is not None and rec.val.op == "alloc" and r.an.alloc_ctx.get(rec.val, (0, 0))[1] < len(rec.loops):
                return False
        for e in r.events:
            if e.kind == "setitem" and e.obj is d and e.val is not None and e.val.op == "alloc":
                if r.an.alloc_ctx.get(e.val, (0, 0))[1] < len(e.loops):
                    return False
    return True


def mentions_loop(r, g, loops):
    g = r.norm(g)
    if g.op in ("forall", "any"):
        return False
    els = [mk("elem", r.norm(l)) for l in loops] + [mk("elem", l) for l in loops]
    return contains(g, lambda x: x in els)


@rule("C10", "marking", 5)
def c10_mark(ctx):
    """A dimension is marked for mirroring only where the declared direction of the one-dimensional axis variable differs from the direction
    calculated from that variable's data; an unknown declared and an incalculable direction raise."""
    r = execute(ctx)
    adds = [c for c in r.calls() if c.f is not None and c.f.op == "attr" and c.f.args[1] in ("add", "update") and c.f.args[0] is attr(SELF, "_idims")]
    adds = adds or [c for c in r.calls() if c.f is not None and c.f.op == "attr" and c.f.args[1] in ("add", "update") and
                    c.f.args[0].op == "alloc" and r.an.state and False]
    dirs = [c for c in r.calls() if name_of(c.f) == "_direction_"]
    if not adds or not dirs:
        ctx.check("mark", None if adds else (False if not dirs else None), "no dimension is ever marked for mirroring", r.fn)
        return
    atts = attr(NODE, "attributes")
    decl = mk("sub", atts, const("direction"))
    for a in adds:
        gs = [r.norm(g) for g in a.guards if mentions_loop(r, g, a.loops)]
        comp = None
        for g in gs:
            if g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "==" and contains(g, lambda x: x.op == "call" and name_of(x.args[0]) == "_direction_"):
                x, y = g.args[0].args[1:]
                comp = {x, y}
            elif g.op == "cmp" and g.args[0] == "==" and contains(g, lambda x: x.op == "call" and name_of(x.args[0]) == "_direction_") and \
                    not contains(g, lambda x: x is NONE):
                comp = False
        calc = r.norm(dirs[0].res)
        ctx.check("condition", False if comp is False or comp is None and not any(contains(g, lambda x: x is calc) for g in gs) else
                  True if comp == {decl, calc} else None,
                  "marked when %s" % [term(g) for g in gs], a)
        d = r.norm(a.args[0])
        dims = attr(VD, "dimensions")
        good = d.op == "sub" and is_const(d.args[1], 0, -1) and strip_keys(d.args[0]) is dims or d.op == "elem" and strip_keys(d.args[0]) is dims or \
            is_call(d, "next")
        ctx.check("dimension", good or (False if d is attr(NODE, "label") else None), "the dimension marked is %s" % term(d), a)
        one = [g for g in gs if g.op == "cmp" and g.args[0] in ("==", "<=", "<") and any(is_const(x, 1, 2) for x in g.args[1:]) and
               (contains(g, lambda x: x is dims) or contains(g, lambda x: x.op in ("len", "attr") and contains(x, lambda y: y in (NODE, VD))))]
        ctx.check("one-dimensional", bool(one) or None, "marked for variables with several dimensions", a)
        extra = [g for g in gs if g not in one and not contains(g, lambda x: x is calc or x is decl or is_const(x, "direction", "axis"))
                 and g.op not in ("forall", "any")]
        ctx.check("nothing else", not extra, "marked only if also %s" % [term(g) for g in extra], a)
    arg = r.norm(dirs[0].args[-1])
    ctx.check("of its own data", arg.op == "sub" and arg.args[0] is NODE and arg.args[1] is mk("slice", NONE, NONE, NONE) or None,
              "direction of %s" % term(arg), dirs[0])
    unk = [e for e in r.raises() if any(contains(r.norm(g), lambda x: is_const(x, "increasing")) for g in e.guards)
           and all(not contains(r.norm(g), lambda x: x.op == "call" and name_of(x.args[0]) == "_direction_") for g in e.guards)]
    ctx.check("unrecognised direction", bool(unk), "an unrecognised direction is accepted", dirs[0])
    inc = [e for e in r.raises() if any(r.norm(g) is cmp_("is", r.norm(dirs[0].res), NONE) for g in e.guards)]
    ctx.check("incalculable direction", bool(inc), "a direction that cannot be calculated is accepted", dirs[0])


@rule("C10", "direction", 3)
def c10_direction(ctx):
    """The direction calculated is 'increasing' only if all successive differences are positive, 'decreasing' only if all are negative, and none otherwise."""
    WN = wn(ctx)
    f = WN.find_method("_direction_")
    if f is None:
        ctx.unknown("direction", "function not found")
        return
    D = mk("arg", f.params()[0] if f.is_static else f.params()[1])
    r = ctx.run(f, cls=WN)
    diff = mk("call", mk("ext", "numpy.diff"), (D,), ())
    pos = mk("call", mk("ext", "numpy.all"), (cmp_("<", const(0), diff),), ())
    neg = mk("call", mk("ext", "numpy.all"), (cmp_("<", diff, const(0)),), ())
    for p in (True, False):
        for n in (True, False):
            if p and n:
                continue
            want = "increasing" if p else "decreasing" if n else None
            got = None
            vals = set()
            for g, v in leaves(r.norm(r.value)):
                sat = True
                for c in g:
                    d = decide(r.norm(c), ((pos, p), (neg, n)))
                    if d is False:
                        sat = False
                    elif d is None:
                        sat = None if sat else sat
                if sat is None:
                    vals.add("?")
                elif sat:
                    vals.add(cval(v) if is_const(v) else "?")
            ctx.check("direction %s" % want, None if "?" in vals or not vals else vals == {want}, "data that are %s are reported %s" % (want or "neither", vals), f)


# ---------------------------------------------------------------- C12
@rule("C12", "attributes", 6)
def c12_attrs(ctx):
    """Every attribute of every output variable's node is written with its own name and value, except those in the unwritten set, which is exactly fill value,
    direction and (switched by enable/disable) history; all attributes of the file description are written to the file."""
    r = execute(ctx)
    WN = wn(ctx)
    sets = [e for e in r.calls() if e.f is not None and e.f.op == "attr" and e.f.args[1] in ("setncattr", "setncattr_string", "__setattr__")]
    sets += [e for e in r.calls() if dotted(e) == "setattr"]
    many = [e for e in r.calls() if e.f is not None and e.f.op == "attr" and e.f.args[1] == "setncatts"]
    allattrs = attr(NODE, "attributes")
    done = False
    for e in sets:
        a = e.args if dotted(e) != "setattr" else e.args[1:]
        if len(a) != 2:
            continue
        nm, val = r.norm(a[0]), r.norm(a[1])
        obj = r.norm(e.f.args[0]) if dotted(e) != "setattr" else r.norm(e.args[0])
        if not contains(obj, lambda x: is_call(x, "createVariable")):
            continue
        done = True
        # which collection the name runs over
        src = keysrc(nm)
        ok = src is not None and attr_source(r, src) is allattrs
        ctx.check("variable attribute names", ok or None, "attributes are taken from %s" % term(nm), e)
        cr = [x for x in walk(obj) if is_call(x, "createVariable")]
        ctx.check("own variable", cr[0].args[1][0] is attr(NODE, "label") if cr[0].args[1] else None,
                  "attributes are written to variable %s" % term(cr[0].args[1][0]), e)
        bad = []
        for g, v in leaves(val):
            own = v.op == "sub" and v.args[1] is nm or v.op in ("sub", "elem") and contains(v, lambda x: x is nm) or \
                v.op == "str" and contains(v, lambda x: x.op == "sub" and x.args[1] is nm) or valsrc(v, nm)
            if not own:
                bad.append(v)
            elif v.op == "str":
                his = [c for c in g if contains(c, lambda x: is_const(x, "history"))]
                hist = any(c.op == "cmp" and c.args[0] == "==" for c in his)
                if not hist:
                    bad.append(v)
        ctx.check("variable attribute values", not bad, "attribute values written: %s" % [term(v) for v in bad], e)
        gs = [r.norm(g) for g in e.guards if contains(r.norm(g), lambda x: x is nm)]
        unw = attr(SELF, "_unwritten_attributes")
        excl = [g for g in gs if g is not_(cmp_("in", nm, unw))]
        extra = [g for g in gs if g not in excl]
        ctx.check("variable attribute exclusions", not extra if excl or extra else None, "written only when %s" % [term(g) for g in extra], e)
    if not done:
        ctx.unknown("variable attributes", "no attribute store found", r.fn)
    glob = [e for e in many if not contains(r.norm(e.f.args[0]), lambda x: is_call(x, "createVariable"))]
    g1 = [e for e in glob if attr_source(r, r.norm(e.args[0])) is attr(FD, "attributes")]
    g2 = [e for e in sets if dotted(e) != "setattr" and not contains(r.norm(e.f.args[0]), lambda x: is_call(x, "createVariable")) and
          keysrc(r.norm(e.args[0])) is not None and attr_source(r, keysrc(r.norm(e.args[0]))) is attr(FD, "attributes") and
          not [g for g in e.guards if contains(r.norm(g), lambda x: x is r.norm(e.args[0]))]]
    ctx.check("global attributes", bool(g1 or g2) or (False if not glob and not g2 else None), "the global attributes are not all written", (g1 or g2 or [r.fn])[0])
    # the unwritten set
    i = ctx.run(WN.find_method("__init__"), cls=WN, opaque=("_autoparse_filename_",))
    v = i.state.heap.get((SELF, "_unwritten_attributes"))
    v = seqview(i.norm(v)) if v is not None else None
    if v is None or any(not is_const(x) or g or l for x, g, l in v):
        ctx.unknown("unwritten set", "not decided", i.fn)
    else:
        names = {cval(x) for x, g, l in v}
        ctx.check("unwritten set", names - {"history"} == {"_FillValue", "direction"}, "attributes left out: %s" % sorted(names), i.fn)
    for name, want in (("enable_history", ("remove", "discard", "difference_update")), ("disable_history", ("add", "update"))):
        f = WN.find_method(name)
        if f is None:
            ctx.unknown(name, "method not found")
            continue
        h = ctx.run(f, cls=WN)
        cs = [e for e in h.calls() if e.f is not None and e.f.op == "attr" and e.f.args[0] is attr(SELF, "_unwritten_attributes")]
        ctx.check(name, True if cs and all(e.f.args[1] in want and contains(e.args[0], lambda x: is_const(x, "history")) for e in cs) else
                  False if cs or not h.events else None, "history is switched by %s" % [term(e.f) for e in cs], f)


def keysrc(nm):
    """collection whose keys a loop variable runs over"""
    if nm.op == "elem":
        t = nm.args[0]
        if is_call(t, "keys", "iterkeys") and t.args[0].op == "attr":
            return t.args[0].args[0]
        return t
    if nm.op == "sub" and is_const(nm.args[1], 0) and nm.args[0].op == "elem" and is_call(nm.args[0].args[0], "items"):
        return nm.args[0].args[0].args[0].args[0]
    if nm.op == "key" or nm.op == "itemkey":
        return nm.args[0]
    return None


def valsrc(v, nm):
    s = keysrc(nm)
    if v.op == "sub" and is_const(v.args[1], 1) and nm.op == "sub" and v.args[0] is nm.args[0]:
        return True
    return False


def attr_source(r, t):
    """the dictionary a copy was made from"""
    t = r.norm(t)
    for _ in range(6):
        if t.op == "coll" and t.args[0] == "dict":
            recs = t.args[1]
            if len(recs) == 1 and recs[0][0] == "set" and not recs[0][3]:
                op, k, v, g, l = recs[0]
                s = keysrc(k) if k is not None else None
                if s is not None and (v is mk("sub", s, k) or valsrc(v, k) or show(v).startswith("each") or v.op in ("sub", "elem", "val")):
                    t = s
                    continue
                if l and is_call(l[-1], "items"):
                    t = l[-1].args[0].args[0]
                    continue
            if len(recs) == 1 and recs[0][0] == "update":
                t = recs[0][2]
                continue
            return t
        if is_call(t, "dict", "OrderedDict", "copy", "deepcopy") and t.args[1] and t.args[0].op == "ext":
            t = t.args[1][0]
            continue
        if is_call(t, "copy") and t.args[0].op == "attr":
            t = t.args[0].args[0]
            continue
        break
    return t


@rule("C12", "variables", 6)
def c12_vars(ctx):
    """Each variable is created under its node's label with the described type, the described dimensions in described order, the node's fill value
    and the described (or overriding, if given) deflate level; compression is on exactly for positive levels."""
    r = execute(ctx)
    cr = [e for e in r.calls() if e.f is not None and e.f.op == "attr" and e.f.args[1] == "createVariable"]
    DEF = mk("arg", "deflate")
    if not cr:
        ctx.unknown("createVariable", "no variable is created", r.fn)
    for e in cr:
        a = {"name": kwarg(e, "varname", 0), "datatype": kwarg(e, "datatype", 1), "dimensions": kwarg(e, "dimensions", 2),
             "fill_value": kwarg(e, "fill_value"), "zlib": kwarg(e, "zlib", 3), "complevel": kwarg(e, "complevel", 5)}
        a = {k: r.norm(v) if v is not None else None for k, v in a.items()}
        ctx.check("name", a["name"] is attr(NODE, "label") or None, "created as %s" % (a["name"] and term(a["name"])), e)
        ctx.check("type", a["datatype"] is attr(VD, "dtype") if a["datatype"] is not None and a["datatype"].op in ("attr", "const") else None,
                  "created with type %s" % (a["datatype"] and term(a["datatype"])), e)
        d = a["dimensions"]
        if d is None:
            ctx.bad("dimensions", "created without dimensions", e)
        else:
            v = seqview(d)
            s = strip_keys(d)
            if v and len(v) == 1 and v[0][0].op == "elem" and not v[0][1]:
                s = strip_keys(v[0][0].args[0])
            rev = any(is_call(x, "reversed", "sorted", "set") for x in walk(d)) or contains(d, lambda x: x.op == "slice" and is_const(x.args[2], -1))
            ctx.check("dimensions", False if rev else s is attr(VD, "dimensions") or None, "created with dimensions %s" % term(d), e)
        fv = a["fill_value"]
        if fv is None:
            ctx.bad("fill value", "created without the fill value", e)
        else:
            ok = all(is_const(v, None) or v.op == "sub" and is_const(v.args[1], "_FillValue") and attr_source(r, v.args[0]) is attr(NODE, "attributes")
                     or is_call(v, "get") and is_const(v.args[1][0], "_FillValue") for g, v in leaves(fv))
            some = any(not is_const(v, None) for g, v in leaves(fv))
            for x in walk(fv):
                if x.op == "ite" and (x.args[0] in (x.args[1], x.args[2]) or contains(x.args[0], lambda y: y.op == "not" and y.args[0] in x.args[1:])):
                    ok = some = False   # a truth test of the value itself drops zero
            ctx.check("fill value", ok and some or (False if not some or is_const(fv) else None), "created with fill value %s" % term(fv), e)
        over, own = not_(cmp_("is", DEF, NONE)), cmp_("is", DEF, NONE)
        for which, given, lvl in (("described level", False, attr(FD, "deflate")), ("override level", True, DEF)):
            for positive in (True, False):
                val = ((cmp_("is", DEF, NONE), not given), (cmp_("<", const(0), lvl), positive))
                z, c = a["zlib"], a["complevel"]
                key = "%s %s" % (which, "positive" if positive else "zero")
                if z is None or c is None:
                    ctx.check(key, None if any(k == "**" or v.op == "star" for k, v in e.kw) else False, "no compression argument is given", e)
                    continue
                zz, cc = pick(z, val), pick(c, val)
                zt = decide(zz, val)
                if zt is None:
                    ctx.unknown(key, "zlib=%s complevel=%s" % (term(zz), term(cc)), e)
                    continue
                good = zt == positive and (not positive or cc is lvl or is_call(cc, "int") and cc.args[1] == (lvl,))
                if not good and zt == positive and not is_const(cc) and cc not in (attr(FD, "deflate"), DEF):
                    good = None     # see the-header
                ctx.check(key, good, "zlib=%s complevel=%s" % (term(zz), term(cc)), e)
    # range of the override
    gs = [r.norm(g) for e in r.raises() for g in e.guards]
    lo = any(decide(g, ((cmp_("<", DEF, const(0)), True),)) is True or contains(g, lambda x: x is cmp_("<", DEF, const(0))) for g in gs)
    hi = any(contains(g, lambda x: x is cmp_("<", const(9), DEF) or x is cmp_("<=", const(10), DEF)) for g in gs)
    rng = any(contains(g, lambda x: x.op == "cmp" and x.args[0] == "in" and x.args[1] is DEF) for g in gs)
    ctx.check("override range", True if lo and hi else (None if rng else False), "an override deflate level outside 0 to 9 is accepted", cr[0] if cr else r.fn)
    ty = any(g.op == "not" and g.args[0].op == "isinstance" and g.args[0].args[0] is DEF for g in gs)
    ctx.check("override type", ty or None, "an override level that is not an integer is accepted", cr[0] if cr else r.fn)


def pick(t, val):
    """the leaf of t selected under a valuation"""
    while t.op == "ite":
        d = decide(t.args[0], val)
        if d is None:
            return t
        t = t.args[1] if d else t.args[2]
    return t


@rule("C12", "dimensions", 4)
def c12_dims(ctx):
    """Every dimension any variable of the file has is created once, unlimited where its description says so and otherwise with its described size; the
    file is opened with the described format."""
    r = execute(ctx)
    op = [e for e in r.calls() if dotted(e) in CREATORS and e.args and not is_const(kwarg(e, "mode", 1, const("r")), "r")]
    for e in op:
        f = kwarg(e, "format", 5)
        ctx.check("format", f is attr(FD, "format") if f is not None else False, "opened with format %s" % (f and term(f)), e)
    cd = [e for e in r.calls() if e.f is not None and e.f.op == "attr" and e.f.args[1] == "createDimension"]
    if not cd:
        ctx.unknown("createDimension", "no dimension is created", r.fn)
        return
    for unlim in (True, False):
        es = []
        for e in cd:
            nm = r.norm(kwarg(e, "dimname", 0))
            u = attr(mk("sub", attr(FD, "dimensions"), nm), "unlimited")
            sat = True
            for g in e.guards:
                if decide(r.norm(g), ((u, unlim),)) is False:
                    sat = False
            if sat:
                es.append((e, nm, u))
        key = "unlimited" if unlim else "limited"
        if not es:
            ctx.bad(key, "no dimension is created", cd[0])
        for e, nm, u in es:
            sz = kwarg(e, "size", 1)
            sz = r.norm(sz) if sz is not None else NONE
            sz = pick(sz, ((u, unlim),))
            want = attr(mk("sub", attr(FD, "dimensions"), nm), "size")
            if unlim:
                ctx.check(key, is_const(sz, None, 0) or (False if sz is want else None), "an unlimited dimension is created with size %s" % term(sz), e)
            else:
                ctx.check(key, sz is want or (False if is_const(sz) else None), "a limited dimension is created with size %s" % term(sz), e)
    for e in cd[:1]:
        nm = r.norm(kwarg(e, "dimname", 0))
        src = nm.args[0] if nm.op == "elem" else None
        s = strip_keys(src) if src is not None else None
        gs = [r.norm(g) for g in e.guards if contains(r.norm(g), lambda x: x is nm)]
        if nm.op == "elem" and s is attr(VD, "dimensions") or s is attr(FD, "dimensions"):
            ctx.ok("needed dimensions", "", e)
        else:
            v = seqview(src) if src is not None else None
            good = v is not None and any(x.op == "elem" and strip_keys(x.args[0]) is attr(VD, "dimensions") and
                                         not [c for c in g if not (c.op in ("not",) and c.args[0].op == "cmp" and c.args[0].args[0] == "in") and
                                              not (c.op == "cmp" and c.args[0] == "in")] for x, g, l in v)
            ctx.check("needed dimensions", good or None, "dimensions created: %s" % term(nm), e)
    unset = [e for e in r.raises() if any(g.op == "not" and is_call(r.norm(g).args[0], "is_set") for g in map(r.norm, e.guards) if g.op == "not")]
    ctx.check("unset dimension", bool(unset) or None, "a dimension without size is created", cd[0])


@rule("C12", "inherited", 3)
def c12_inherit(ctx):
    """The validation node's attributes are those of the variable description, completed with units (unit and reference date separately) and calendar of
    the data where the description leaves them out."""
    VN = ctx.p.cls("flownodes.ValidateNode")
    VDA, DN = mk("arg", "vdesc"), mk("arg", "dnode")
    f = VN.find_method("__init__")
    ps = f.params()
    v, d = mk("arg", ps[1]), mk("arg", ps[2])
    VDC = ctx.p.cls("datasets.VariableDesc")
    r = ctx.run(f, cls=VN, types={v: VDC, d: ctx.p.cls("flownodes.FlowNode")}, opaque=("units", "refdatetime", "calendar"))
    info = mk("sub", d, NONE)
    sets = [e for e in r.events if e.kind == "setitem" and r.norm(e.obj) is attr(v, "attributes")]
    for k, want in (("units", attr(info, "units")), ("calendar", attr(attr(info, "units"), "calendar")), ("history", attr(info, "name"))):
        es = [e for e in sets if is_const(e.name, k)]
        if not es:
            ctx.bad(k, "the %s of the data is not inherited" % k, f)
        for e in es:
            val = r.norm(e.val)
            ctx.check(k, contains(val, lambda x: x is want), "the %s attribute becomes %s" % (k, term(val)), e)
            if k == "history":
                ctx.check("history given", cmp_("in", const("history"), attr(v, "attributes")) in [x for g in e.guards for x in walk(r.norm(g))] or None, "", e)
            if k == "calendar":
                gs = [r.norm(g) for g in e.guards]
                isown = lambda x: is_call(x, "calendar") and x.args[0].op == "attr" and x.args[0].args[0] is v or \
                    x.op == "cmp" and x.args[0] == "in" and is_const(x.args[1], "calendar") or \
                    is_call(x, "get") and x.args[1] and is_const(x.args[1][0], "calendar") and contains(x, lambda y: y is v)
                own = any(contains(g, isown) for g in gs)
                ctx.check("calendar given", own or (None if contains(val, isown) else False), "a declared calendar is overwritten", e)
    # a declared unit or reference date wins
    for e in sets:
        if is_const(e.name, "units"):
            val = r.norm(e.val)
            if val.op == "str":
                for part, meth in ((0, "units"), (2, "refdatetime")):
                    x = val.args[part]
                    ctx.check("declared " + meth, contains(x, lambda y: y.op == "call" and name_of(y.args[0]) == meth), "built as %s" % term(val), e)
