"""C15: what the names, operators and functions of a definition become; which variables and files are skipped, and how"""
from .engine import SELF
from .q import atoms, exc_name, is_call, is_new, kwarg, name_of, seqview, subst
from .rule import rule, term
from .rules_flow import field, flow, holds, over, possible, rearranged, strip, valnodes, world
from .terms import FALSE, NONE, TRUE, attr, cmp_, const, contains, cval, is_const, leaves, mk, not_, truth, walk

KINDS = ("VarType", "OpType", "FuncType")
PARTS = ("find_operator", "find_function")


def builder(ctx):
    """the method that turns a parsed definition into nodes, its result, and its parameter"""
    if "builder" not in ctx.cache:
        c = ctx.p.cls("dataflow.DataFlow")
        ctx.cache["builder"] = None
        names = ["_construct_flow_"] + [n for n in c.methods if n not in ("__init__", "execute")]
        for n in names:
            f = c.methods.get(n)
            if f is None or len(f.params()) < 2:
                continue
            r = ctx.run(f, cls=c, opaque=(n,) + PARTS)
            if any(is_new(x, "ReadNode") for l, x in leaves(r.norm(r.value))):
                ctx.cache["builder"] = (f, r, mk("arg", f.params()[1]), n)
                break
    return ctx.cache["builder"]


def kind_of(t):
    """name of the named tuple (or class) an isinstance condition asks for"""
    out = set()
    for x in (t.args if t.op == "tuple" else (t,)):
        if x.op == "call" and x.args[1] and is_const(x.args[1][0]):
            out.add(cval(x.args[1][0]))
        elif x.op == "class":
            out.add(x.args[0].name)
        else:
            out.add(None)
    return out


def kinds(ts, obj, kind):
    """facts: the object is of this kind"""
    d = {}
    for t in ts:
        for x in walk(t):
            if x.op == "isinstance" and x.args[0] is obj:
                ks = kind_of(x.args[1])
                if None not in ks:
                    d[x] = TRUE if kind in ks else FALSE
    return d


def settled(v, d):
    """the leaves of v that remain possible in the world d: [(open conditions, leaf)]"""
    out = []
    for lits, x in leaves(v):
        bs = [holds(l, d) for l in lits]
        if False in bs:
            continue
        opened = [world(l, d) for l, b in zip(lits, bs) if b is None]
        if any(not_(l) in opened for l in opened):
            continue
        out.append((opened, x))
    return out


def raised(r, d, norm=None):
    """the raises that happen in the world d: [(event, certain)]"""
    out = []
    for e in r.raises():
        p = possible(e, d, (), None, norm or r.norm)
        if p is not False:
            out.append((e, p is True))
    return out


def astest(c, s):
    """the condition, with the sequence s itself as a condition read as 'it is not empty'"""
    if c is s:
        return mk("nonempty", s)
    if c.op in ("and", "or", "not"):
        return mk(c.op, *[astest(x, s) for x in c.args])
    return c


def variable_outcome(ctx, f, label, x, key, inp):
    if inp:
        ok = is_new(x, "ReadNode")
        src = kwarg(x, "variable", 0) if ok else None
        if ok and src is None and x.args[1]:
            src = x.args[1][0]
        ok = ok and src is not None and src.op == "sub" and src.args[1] is key and contains(src.args[0], lambda z: z.op == "attr" and z.args[1] == "_ids")
        ctx.check(label, True if ok else False if is_new(x, "ReadNode") and src is not None and src.op == "sub" or x.op in ("sub", "const", "arg") else None,
                  "becomes %s" % term(x, 120), f)
    else:
        ok = x.op == "sub" and x.args[1] is key and strip(x.args[0]).op == "arg"
        ctx.check(label, True if ok else False if is_new(x, "ReadNode") or x.op in ("const",) else None, "becomes %s" % term(x, 120), f)


@rule("C15", "variable", 5)
def c15_variable(ctx):
    """A name is read from the input dataset if it is there (with the index written), else taken from the literal data, else refused with VariableNotFoundError."""
    b = builder(ctx)
    if b is None:
        ctx.unknown("construction", "no method makes read nodes of names", ctx.p.cls("dataflow.DataFlow").methods["__init__"])
        return
    f, r, obj, name = b
    v = r.norm(r.value)
    ts = [v] + [r.norm(g) for e in r.raises() for g in e.guards]
    d = kinds(ts, obj, "VarType")
    key = attr(obj, "key")
    members = {x for t in ts for x in walk(t) if x.op == "cmp" and x.args[0] == "in" and x.args[1] is key}
    inputs = {m for m in members if over(m.args[2], tuple(y for y in walk(m.args[2]) if y.op == "attr" and y.args[1] == "variables" and contains(y, lambda z: z.op == "attr" and z.args[1] == "_ids")))}
    literal = {m for m in members if m not in inputs and strip(m.args[2]).op == "arg"}
    for inp in (True, False):
        for lit in (True, False):
            w = dict(d)
            w.update({m: TRUE if inp else FALSE for m in inputs})
            w.update({m: TRUE if lit else FALSE for m in literal})
            label = "%s the inputs, %s the literal data" % ("in" if inp else "not in", "in" if lit else "not in")
            got = settled(v, w)
            rs = raised(r, w)
            if not inp and not lit:
                w.update({m: TRUE for m in members - inputs - literal if contains(m.args[2], lambda z: z.op == "attr" and z.args[1] == "_ods")})
                got, rs = settled(v, w), raised(r, w)
                names = {exc_name(e.val) for e, sure in rs if sure}
                if any(sure for e, sure in rs):
                    ctx.check(label, "VariableNotFoundError" in names, "an unknown name raises %s" % ", ".join(sorted(map(str, names))), f)
                else:
                    ctx.check(label, None if rs or any(o for o, x in got) else False, "an unknown name becomes %s" % (term(got[0][1], 80) if got else "nothing"), f)
                continue
            if rs and any(sure for e, sure in rs):
                ctx.bad(label, "refused although known", rs[0][0])
                continue
            if not got or rs:
                ctx.unknown(label, "%d outcomes, %d refusals" % (len(got), len(rs)), f)
                continue
            for opened, x in got:
                variable_outcome(ctx, f, label, x, key, inp)
    # the index
    ind = attr(obj, "ind")
    for outer, x in leaves(v):
        if is_new(x, "ReadNode"):
            i = kwarg(x, "index", 1)
            if i is None:
                ctx.bad("index", "the index written in the definition is dropped", f)
                continue
            for lits, y in leaves(i):
                lits = tuple(outer) + tuple(lits)
                while y.op == "sub" and y.args[0].op == "ext" and y.args[0].args[0] == "numpy.index_exp":
                    y = y.args[1]
                if strip(y) is ind:
                    ctx.ok("index", "", f)
                elif y.op == "tuple" and not y.args or is_const(y) and cval(y) in ((), Ellipsis) or y.op == "slice":
                    # nothing written: everything is read
                    w = {}
                    lits = [astest(l, ind) for l in lits]
                    for l in lits:
                        for z in walk(l):
                            if z.op == "nonempty" and strip(z.args[0]) is ind:
                                w[z] = TRUE
                            if z.op == "len" and strip(z.args[0]) is ind:
                                w[z] = const(1)
                    bs = [holds(l, w) for l in lits if contains(l, lambda z: z is ind)]
                    ctx.check("index", True if False in bs else False if all(bs) else None, "an index written in the definition is dropped", f)
                elif y.op == "sub" and strip(y.args[0]) is ind or y.op == "tuple" and any(z.op == "sub" and strip(z.args[0]) is ind and is_const(z.args[1]) for z in y.args):
                    ctx.bad("index", "only a part of the index is used: %s" % term(y), f)
                else:
                    ctx.unknown("index", term(y, 100), f)


def recursive(t, name, x):
    """is t the node built for x by the building method, with the literal data handed on: True, False, None"""
    if t is x:
        return False
    if not (t.op == "call" and name_of(t.args[0]) and name_of(t.args[0]).split(".")[-1] == name):
        return None
    if not t.args[1] or t.args[1][0] is not x:
        return None if t.args[1] and contains(t.args[1][0], lambda y: y is x) else False
    rest = list(t.args[1][1:]) + [w for k, w in t.args[2]]
    return bool(rest) and all(w.op == "arg" for w in rest)


@rule("C15", "operation", 7)
def c15_operation(ctx):
    """An operation becomes an evaluation node of the operator found for its name and number of operands (or the function of its name), of all
    arguments in the order written, each built in turn; anything else stands for itself."""
    b = builder(ctx)
    if b is None:
        return
    f, r, obj, name = b
    v = r.norm(r.value)
    ts = [v] + [r.norm(g) for e in r.raises() for g in e.guards]
    key, argv, kwds = attr(obj, "key"), attr(obj, "args"), attr(obj, "kwds")
    for kind, label in (("OpType", "operator"), ("FuncType", "function")):
        d = kinds(ts, obj, kind)
        got = settled(v, d)
        if len(got) != 1 or got[0][0]:
            ctx.unknown(label, "%d outcomes" % len(got), f)
            continue
        x = got[0][1]
        if not is_new(x, "EvalNode"):
            ctx.check(label, False if x is obj or is_const(x) or is_new(x) else None, "becomes %s" % term(x, 100), f)
            continue
        pos, kw = x.args[1], x.args[2]
        fn = pos[1] if len(pos) > 1 else None
        found = fn if fn is not None and is_call(fn, *PARTS) or fn is not None and fn.op == "call" else None
        which = name_of(found.args[0]).split(".")[-1] if found is not None and name_of(found.args[0]) else None
        want = "find_operator" if kind == "OpType" else "find_function"
        ctx.check(label, True if which == want and found.args[1][:1] == (key,) else False if which in PARTS and which != want or which == want and is_const(found.args[1][0]) else None,
                  "evaluates %s" % term(fn or NONE, 100), f)
        if kind == "OpType" and which == want:
            n = kwarg(found, "numargs", 1)
            ctx.check("number of operands", True if n is not None and n.op == "len" and strip(n.args[0]) is argv else False if n is None or is_const(n) else None,
                      "looked up with %s operands" % term(n or NONE), f)
        rest = pos[2:]
        if not rest:
            ctx.bad("%s arguments" % label, "no arguments are passed", f)
        elif len(rest) == 1 and rest[0].op == "star":
            view = seqview(rest[0].args[0])
            if view and len(view) == 1:
                el, g, l = view[0]
                if rearranged(rest[0].args[0]):
                    ctx.bad("%s arguments" % label, "the arguments are reordered", f)
                elif g:
                    ctx.bad("%s arguments" % label, "some arguments are left out: %s" % term(g[0], 100), f)
                else:
                    ctx.check("%s arguments" % label, recursive(el, name, mk("elem", argv)), "passes %s for each argument" % term(el, 100), f)
            else:
                ctx.check("%s arguments" % label, False if strip(rest[0].args[0]) is argv else None, "passes %s" % term(rest[0], 100), f)
        elif all(a.op == "call" and a.args[1] and a.args[1][0].op == "sub" and a.args[1][0].args[0] is argv for a in rest):
            ctx.bad("%s arguments" % label, "only certain arguments are passed", f)
        else:
            ctx.unknown("%s arguments" % label, term(rest[0], 100), f)
        if kind == "FuncType":
            given = [w for k, w in kw if k == "**"]
            if not given:
                ctx.bad("function keywords", "keyword arguments are dropped", f)
            elif len(given) == 1 and given[0].op == "coll" and len(given[0].args[1]) == 1:
                op, k, w, g, l = given[0].args[1][0]
                ok = op == "set" and k is mk("elem", kwds) and over(l[0], (kwds,)) if l else False
                rec = recursive(w, name, mk("sub", kwds, mk("elem", kwds)))
                ctx.check("function keywords", False if g else rec if ok else None, "passes %s for each keyword" % term(w, 100) if not g else "some keywords are left out", f)
            else:
                ctx.check("function keywords", False if strip(given[0]) is kwds else None, "passes %s" % term(given[0], 100), f)
    d = kinds(ts, obj, "<other>")
    got = settled(v, d)
    rs = raised(r, d)
    ctx.check("other", True if len(got) == 1 and got[0][1] is obj and not rs else None if len(got) != 1 or got[0][0] else False,
              "a number or string becomes %s" % (term(got[0][1], 80) if got else "an error"), f)
    # the evaluation node hands the arguments to the function
    c = ctx.p.cls("flownodes.EvalNode")
    i = ctx.run(c.methods["__init__"], cls=c)
    ps = c.methods["__init__"].params()
    made = [e for e in i.calls() if e.f is not None and i.norm(e.f) is mk("arg", "func")]
    if not made:
        ctx.unknown("evaluation node", "the function is never constructed", c.methods["__init__"])
    for e in made:
        stars = [a for a in e.args if a.op == "star"]
        kws = [w for k, w in e.kw if k == "**"]
        if len(e.args) != len(stars) or len(stars) != 1 or e.kw and not kws:
            ctx.check("evaluation node", False if not stars else None, "the function is given %s" % [term(i.norm(a), 60) for a in e.args], e)
            continue
        s = i.norm(stars[0].args[0])
        view = seqview(s)
        star = mk("arg", "*args") if s is mk("arg", "*args") else s
        ctx.check("evaluation node", False if rearranged(s) or not kws or view and len(view) == 1 and view[0][1] else True if strip(s).op == "arg" and not i.norm(kws[0]).op == "coll" or strip(s).op == "arg" and not i.norm(kws[0]).args[1][0][3] else None,
                  "the function is given %s" % term(s, 100) if kws else "keyword arguments are dropped", e)


@rule("C15", "skipped", 5)
def c15_skipped(ctx):
    """Every output variable is built from its literal data or its definition under its own name; one that needs an unknown name is left out
    with a DefinitionWarning naming it, and the others go on."""
    b = builder(ctx)
    if b is None:
        return
    c = ctx.p.cls("dataflow.DataFlow")
    bf, br, bobj, bname = b
    found = None
    for n, f in c.methods.items():
        if n in ("__init__", "execute", bname):
            continue
        r = ctx.run(f, cls=c, opaque=(bname, "parse_definition"))
        calls = [e for e in r.calls() if e.f is not None and (name_of(e.f) or "").split(".")[-1] == bname]
        if calls:
            found = (f, r, calls)
            break
    if found is None:
        ctx.unknown("definitions", "the building method is called elsewhere", bf)
        return
    f, r, calls = found
    node = None
    for e in calls:
        handlers = [x for x in r.events if x.kind == "handler" and any(y[0] == "try" and any(y[1] == z[1] for z in x.ctx if z[0] == "except") for y in e.ctx)]
        types = set()
        for y in e.ctx:
            if y[0] == "try":
                for ts in y[2]:
                    types |= set(ts)
        if "VariableNotFoundError" not in types:
            broad = {"Exception", "BaseException", "*", None} & types
            ctx.check("handler", False if not types or broad else None, "other errors also only skip the variable" if broad else "an unknown name ends the whole flow", e)
        else:
            ctx.check("handler", types <= {"VariableNotFoundError"}, "other errors (%s) also only skip the variable" % ", ".join(sorted(map(str, types - {"VariableNotFoundError"}))), e)
        a = r.norm(e.args[0]) if e.args else NONE
        ok = is_call(a, "parse_definition") or a.op == "call" and (name_of(a.args[0]) or "").endswith("parse_definition")
        vd = a.args[1][0] if ok and a.args[1] else None
        ctx.check("definition", True if vd is not None and vd.op == "attr" and vd.args[1] == "definition" else None, "builds %s" % term(a, 100), e)
        node = r.norm(e.res) if e.res is not None else None
        skip = [x for x in r.events if any(z[0] == "except" and any(y[0] == "try" and y[1] == z[1] for y in e.ctx) for z in x.ctx)]
        ends = [x for x in skip if x.kind in ("raise", "break", "return")]
        ctx.check("continues", not ends, "an unknown name ends the construction of the other variables", ends[0] if ends else e)
        warn = [x for x in skip if x.kind == "call" and name_of(x.f) in ("warnings.warn", "warn")]
        if not warn:
            ctx.bad("warning", "a variable is skipped without a warning", e)
        for x in warn:
            cat = kwarg(x, "category", 1)
            ctx.check("warning", True if cat is not None and cat.op == "class" and cat.args[0].name == "DefinitionWarning" else False if cat is None or cat.op in ("class", "ext") else None,
                      "the warning is not a DefinitionWarning", x)
            msg = r.norm(x.args[0])
            own = [y for y in walk(msg) if y.op == "elem"]
            ctx.check("warning names the variable", bool(own), "the warning does not name the variable: %s" % term(msg, 100), x)
    # under its own name, exactly those with a definition
    v = r.norm(r.value)
    var = None
    for x in walk(v):
        if x.op == "coll" and x.args[0] == "dict":
            for op, k, w, g, l in x.args[1]:
                if op == "set" and w is not None and contains(w, lambda y: y.op == "call" and (name_of(y.args[0]) or "").split(".")[-1] == bname):
                    root = l[0] if l else None
                    ok = root is not None and over(root, (k.args[0],)) if k.op == "elem" else None
                    ctx.check("stored", ok if ok else None, "stored under %s" % term(k, 80), f)
                    var = (k, w, g, l)
    if var is not None:
        k, w, g, l = var
        free = [x for x in g if not (x.op == "isinstance" or x.op == "not" and x.args[0].op in ("isinstance", "raised") or x.op == "raised")]
        ctx.check("all definitions", not free, "only if %s" % (term(free[0], 100) if free else ""), f)
    # literal data: the complement, under their own names
    c, i = flow(ctx)
    V = valnodes(ctx)
    for x in walk(V):
        if is_new(x, "DataNode"):
            src = x.args[1][0] if x.args[1] else NONE
            name = kwarg(src, "name") if is_new(src, "PhysArray") else None
            ctx.check("literal data", True if name is not None and name.op == "elem" else None, "named %s" % term(name or NONE), c.methods["__init__"])


def domain(l):
    """the collections a loop runs through, one after the other; None for what is not understood"""
    out = ()
    l = strip(l)
    if l.op == "bin" and l.args[0] in ("+", "|"):
        return domain(l.args[1]) + domain(l.args[2])
    if is_call(l, "chain", "itertools.chain"):
        for a in l.args[1]:
            out += domain(a)
        return out
    if is_call(l, "keys", "items", "values") and l.args[0].op == "attr":
        return domain(l.args[0].args[0])
    if is_call(l, "list", "tuple", "sorted", "set") and len(l.args[1]) == 1:
        return domain(l.args[1][0])
    if l.op == "coll" and l.args[0] != "dict":
        for op, k, v, g, loops in l.args[1]:
            if op == "append" and len(loops) == 1 and v is mk("elem", loops[0]) and not g:
                out += domain(loops[0])
            else:
                out += ((v, tuple(g), tuple(loops)),) if op == "append" else (None,)
        return out
    return (l,) if l.op in ("coll", "attr", "arg") else (None,)


@rule("C15", "validated", 3)
def c15_validated(ctx):
    """Every variable that could be built is validated against the descriptor of its own name."""
    c, r = flow(ctx)
    V = valnodes(ctx)
    init = c.methods["__init__"]
    if V.op != "coll":
        ctx.unknown("validated", term(V, 100), init)
        return
    from_data = from_def = False
    for op, k, v, g, l in V.args[1]:
        if op != "set":
            continue
        if g:
            ctx.check("all", None, "validated only if %s" % [term(x, 60) for x in g], init)
        n = [x for x in walk(v) if is_new(x, "ValidateNode")]
        bare = [x for lits, x in leaves(v) if n and not is_new(x, "ValidateNode")]
        if bare:
            ctx.check("validated", False if all(x.op == "sub" and x.args[1] is k or is_new(x) for x in bare) else None, "%s goes to a file unvalidated" % term(bare[0], 80), init)
        if not n:
            ctx.check("validated", False if any(is_new(x, "DataNode", "EvalNode", "ReadNode", "MapNode") for lits, x in leaves(v)) else None, "%s goes to a file unvalidated" % term(v, 80), init)
            continue
        vd, src = kwarg(n[0], "vdesc", 0), kwarg(n[0], "dnode", 1)
        ctx.check("descriptor", True if vd is not None and vd.op == "sub" and vd.args[1] is k else False if vd is not None and vd.op == "sub" else None,
                  "validated against %s" % term(vd or NONE, 100), init)
        if src is not None:
            dom = domain(l[0]) if l else ()
            for lits, x in leaves(src):
                if x.op == "sub" and x.args[1] is k and strip(x.args[0]).op == "coll":
                    m = strip(x.args[0])
                    inside = m in dom or all((en[1], tuple(en[3]), tuple(en[4])) in dom for en in m.args[1])
                    ctx.check("every variable", True if inside else False if all(y is not None and not isinstance(y, tuple) for y in dom) else None, "the variables of %s are left out" % term(x.args[0], 60), init)
                from_data = from_data or contains(x, lambda y: is_new(y, "DataNode"))
                from_def = from_def or contains(x, lambda y: is_new(y, "EvalNode", "ReadNode"))
    ctx.check("literal data", from_data or None, "literal data are never validated", init)
    ctx.check("definitions", from_def or None, "computed data are never validated", init)


@rule("C15", "files", 5)
def c15_files(ctx):
    """A file is written exactly when all of its variables could be built; otherwise it is skipped with a DefinitionWarning naming the missing ones."""
    c = ctx.p.cls("dataflow.DataFlow")
    found = None
    for n in ["_create_write_nodes_"] + [n for n in c.methods if n not in ("__init__", "execute", "_create_write_nodes_")]:
        f = c.methods.get(n)
        if f is None:
            continue
        r = ctx.run(f, cls=c)
        made = [e for e in r.calls() + [x for x in r.events if x.kind == "enter"] if e.f is not None and e.f.op == "class" and e.f.args[0].name == "WriteNode"]
        if made:
            found = (f, r, made)
            break
    if found is None:
        i = flow(ctx)[1]
        some = any(e.f is not None and (e.f.op == "class" and e.f.args[0].name == "WriteNode") for e in i.events)
        ctx.check("files", None if some else False, "no file is ever written", c.methods["__init__"])
        return
    f, r, made = found
    V = attr(SELF, "_valnodes")
    for e in made:
        gs = [r.norm(g) for g in e.guards]
        fd = r.norm(kwarg(e, "filedesc", 0) or NONE)
        ins = kwarg(e, "inputs", 1)
        ins = r.norm(ins) if ins is not None else NONE
        root = [x for x in walk(fd) if x.op == "elem"]
        ctx.check("every file", True if e.loops and fd.op == "sub" and fd.args[1].op == "elem" and over(r.norm(e.loops[0]), (fd.args[0],)) else None, "written for %s" % term(fd, 80), e)
        want = attr(fd, "variables")
        view = seqview(ins)
        if view and len(view) == 1:
            el, g, l = view[0]
            el_ok = el.op == "sub" and el.args[0] is V and el.args[1] is mk("elem", want)
            ctx.check("inputs", True if el_ok and not g else False if el_ok and g or el.op == "sub" and el.args[0] is V else None,
                      "the file is written with %s" % (term(el, 80) if not g else "only some of its variables"), e)
            l0 = l[0] if l else None
        else:
            ctx.check("inputs", None, "the file is written with %s" % term(ins, 80), e)
        # worlds: one variable, built or missing
        ts = gs + [r.norm(g) for x in r.calls() for g in x.guards]
        mem = {x for t in ts for x in walk(t) if x.op == "cmp" and x.args[0] == "in" and contains(x.args[2], lambda y: y is V)}
        warns = [x for x in r.calls() if name_of(x.f) in ("warnings.warn", "warn")]
        for present in (True, False):
            d = {m: TRUE if present else FALSE for m in mem}
            d[cmp_("in", mk("elem", want), V)] = TRUE if present else FALSE
            bs = [holds(g, d, (want,)) for g in gs]
            b = False if False in bs else None if None in bs else True
            ctx.check("written" if present else "not written", None if b is None else b is present,
                      "a file whose variables are all built is not written" if present else "a file is written although a variable is missing", e)
            ws = [possible(x, d, (want,), None, r.norm) for x in warns]
            if present:
                ctx.check("no warning", None if any(w is not False and w is not True for w in ws) else True not in ws, "a complete file is reported as skipped", warns[0] if warns else e)
            else:
                ctx.check("warning", True if True in ws else None if any(w is not False for w in ws) else False, "a file is skipped without a warning", warns[0] if warns else e)
        for x in warns:
            cat = kwarg(x, "category", 1)
            ctx.check("category", True if cat is not None and cat.op == "class" and cat.args[0].name == "DefinitionWarning" else False if cat is None or cat.op in ("class", "ext") else None,
                      "the warning is not a DefinitionWarning", x)
            msg = r.norm(x.args[0])
            missing = [y for y in walk(msg) if y.op == "elem" and y.args[0] is want or y is want]
            neg = contains(msg, lambda y: y.op == "not" and y.args[0] in mem) or contains(msg, lambda y: y.op == "bin" and y.args[0] == "-")
            ctx.check("names", True if missing and neg else False if not missing or not contains(msg, lambda y: y in mem) and msg.op == "str" and not neg else None,
                      "the warning does not name the missing variables: %s" % term(msg, 120), x)
        # kept
        kept = r.norm(r.value)
        ok = contains(kept, lambda y: is_new(y, "WriteNode")) or any(contains(r.norm(x.val), lambda y: is_new(y, "WriteNode")) for x in r.events if x.kind in ("setattr", "setitem") and x.val is not None)
        ctx.check("kept", True if ok else None, "the write node is not kept", e)
