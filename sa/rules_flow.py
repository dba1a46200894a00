"""C09 (and C11 C15 C19 C21): the data flow: registration of summed dimensions, their collection, refusal, maps, nodes and files"""
import ast

from .engine import SELF
from .q import atoms, exc_name, is_call, is_new, kwarg, name_of, seqview, strip_seq, subst
from .rule import rule, term
from .rules_funcs import arg_attrs, concrete, construction, evaluation, functions, is_input, metadata, reindexed, requests, seq_dims, short, translation
from .terms import FALSE, NONE, TRUE, and_, attr, children, cmp_, const, contains, cval, is_const, leaves, mk, not_, or_, rebuild, show, truth, walk

MUTATORS = ("pop", "popitem", "update", "clear", "setdefault", "append", "extend", "insert", "remove", "sort", "reverse", "add", "discard",
            "__setitem__", "__delitem__", "difference_update", "intersection_update")
PYTYPES = {"int": int, "float": float, "str": str, "bool": bool, "dict": dict, "list": list, "tuple": tuple}


# ---------------------------------------------------------------------- worlds: which conditions hold when a collection has one element

def typename(t):
    if t.op == "ext":
        return t.args[0].split(".")[-1]
    if t.op == "class":
        return t.args[0].name
    return None


def type_names(t):
    if t.op == "tuple":
        return {typename(x) for x in t.args}
    return {typename(t)}


def strip(t):
    """the collection or object a term is a copy of"""
    while True:
        u = strip_seq(t)
        if u.op == "coll" and len(u.args[1]) == 1 and u.args[1][0][0] == "append":
            op, k, v, g, l = u.args[1][0]
            if v.op == "elem" and not g and len(l) == 1 and (v.args[0] is l[0] or strip_seq(v.args[0]) is strip_seq(l[0])):
                u = l[0]
        if u.op == "getattr" and is_const(u.args[1]):
            u = attr(u.args[0], cval(u.args[1]))
        if is_call(u, "copy") and u.args[0].op == "attr" and not u.args[1]:
            u = u.args[0].args[0]
        if u is t:
            return t
        t = u


def over(s, roots):
    """does the collection s range over exactly the elements of one of the roots?"""
    while True:
        s = strip(s)
        if s in roots:
            return True
        if is_call(s, "items", "keys", "values", "copy", "list", "tuple", "sorted", "set", "iter") and s.args[0].op == "attr" and not s.args[1]:
            s = s.args[0].args[1] if isinstance(s.args[0].args[1], type(s)) else s.args[0].args[0]
            continue
        return False


def setrel(t):
    """inclusion and disjointness of sets, as conditions over their elements"""
    def every(s, cond):
        s = strip(s)
        if s.op == "coll" and all(en[0] == "append" for en in s.args[1]):
            cs = []
            for op, k, v, g, l in s.args[1]:
                c = or_(*([not_(x) for x in g] + [cond(v)]))
                for y in l[::-1]:
                    c = mk("forall", y, c)
                cs.append(c)
            return and_(*cs)
        return mk("forall", s, cond(mk("elem", s)))

    def isset(s):
        return s.op == "coll" and s.args[0] == "set" or is_call(s, "set", "frozenset") or s.op == "bin" or \
            is_call(s, "keys", "intersection", "union", "difference")

    def inside(a, b):
        b = strip(b)
        return every(a, lambda v: cmp_("in", v, b))

    def f(x):
        if x.op == "cmp" and x.args[0] in ("<=", ">=") and isset(x.args[1]) and isset(x.args[2]):
            a, b = x.args[1:] if x.args[0] == "<=" else x.args[:0:-1]
            return inside(a, b)
        if x.op == "call" and x.args[0].op == "attr" and len(x.args[1]) == 1 and not x.args[2]:
            m, o, a = x.args[0].args[1], x.args[0].args[0], x.args[1][0]
            if m == "issubset":
                return inside(o, a)
            if m == "issuperset":
                return inside(a, o)
            if m == "isdisjoint":
                b = strip(a)
                return every(o, lambda v: not_(cmp_("in", v, b)))
        return x
    return rebuild(t, f)


def world(t, facts, roots=(), consts=None, empty=()):
    """the condition t in a world where 'facts' (condition -> TRUE/FALSE) hold, each collection of 'roots' has exactly one element and
    each collection of 'empty' has none"""
    consts = consts or {}
    empty = facts.get("empty", empty)
    t = setrel(t)

    def f(x):
        if x in facts:
            return facts[x]
        if x in consts:
            return consts[x]
        if x.op == "not":
            b = truth(x.args[0])
            return x if b is None else FALSE if b else TRUE
        if x.op in ("forall", "any"):
            b = truth(x.args[1])
            if over(x.args[0], roots):
                return x.args[1]
            if over(x.args[0], empty):
                return TRUE if x.op == "forall" else FALSE
            if b is None:
                return x
            if x.args[0].op == "coll":
                n = count(x.args[0])
                if n is not None:
                    return (TRUE if b or n == 0 else FALSE) if x.op == "forall" else TRUE if b and n else FALSE
            return x
        if x.op == "nonempty":
            n = size(x.args[0])
            return x if n is None else TRUE if n else FALSE
        if x.op == "len":
            n = size(x.args[0])
            return x if n is None else const(n)
        if x.op == "cmp" and x.args[0] == "in" and over_elem(x.args[1]):
            n = member(x.args[1], x.args[2])
            return x if n is None else TRUE if n else FALSE
        if is_call(x, "sorted", "list", "tuple", "set", "bool") and len(x.args[1]) == 1 and x.args[1][0].op in ("coll", "bin"):
            return x
        if x.op == "isinstance" and is_const(x.args[0]):
            names = type_names(x.args[1])
            v = cval(x.args[0])
            if names <= set(PYTYPES) | {"Integral", "Number", "Real", "integer"}:
                if isinstance(v, (int,)) and names & {"Integral", "Number", "Real"}:
                    return TRUE
                return TRUE if isinstance(v, tuple(PYTYPES[n] for n in names if n in PYTYPES)) else FALSE
        return x

    def member(e, s):
        s = strip(s)
        if over(s, empty):
            return False
        if over(s, roots):
            return True
        if cmp_("in", e, s) in facts:
            return facts[cmp_("in", e, s)] is TRUE
        if s.op == "bin" and s.args[0] in ("&", "|", "-"):
            a, b = member(e, s.args[1]), member(e, s.args[2])
            if s.args[0] == "&":
                return False if a is False or b is False else None if a is None or b is None else True
            if s.args[0] == "|":
                return True if a or b else None if a is None or b is None else False
            return False if a is False or b is True else None if a is None or b is None else True
        if is_call(s, "intersection", "union", "difference") and s.args[0].op == "attr" and len(s.args[1]) == 1:
            op = {"intersection": "&", "union": "|", "difference": "-"}[s.args[0].args[1]]
            return member(e, mk("bin", op, s.args[0].args[0], s.args[1][0]))
        n = count(s)
        return None if n is None else n > 0

    def over_elem(y):
        return y.op == "elem" and over(y.args[0], roots)

    def size(s):
        s = strip(s)
        if over(s, roots):
            return 1
        if over(s, empty):
            return 0
        if is_call(s, "zip"):
            ns = [size(a) for a in s.args[1]]
            return None if None in ns else min(ns)
        if s.op == "bin" or is_call(s, "intersection", "union", "difference"):
            for y in walk(s):
                for r in roots:
                    if y is r:
                        b = member(mk("elem", r), s)
                        return None if b is None else int(b)
        return count(s)

    def count(c):
        if c.op != "coll":
            return None
        n = 0
        for en in c.args[1]:
            op, k, v, guards, loops = en
            if op in ("sort", "reverse"):
                continue
            if any(over(l, empty) for l in loops):
                continue
            if op not in ("append", "set") or not all(over(l, roots) for l in loops):
                return None
            gs = [truth(g) for g in guards]
            if False in gs:
                continue
            if None in gs:
                return None
            n += 1
        return n

    return rebuild(t, f)


def holds(g, facts, roots=(), consts=None):
    """truth of a condition in a world (collections count as true when they have elements)"""
    g = world(g, facts, roots, consts)
    b = truth(g)
    if b is None and (strip(g).op in ("coll", "bin")):
        b = truth(world(mk("nonempty", g), facts, roots, consts))
    if b is None and g.op == "not" and strip(g.args[0]).op in ("coll", "bin"):
        b = truth(world(mk("nonempty", g.args[0]), facts, roots, consts))
        b = None if b is None else not b
    if b is None and g.op in ("and", "or"):
        bs = [holds(x, facts, roots, consts) for x in g.args]
        if g.op == "and":
            return False if False in bs else None if None in bs else True
        return True if True in bs else None if None in bs else False
    return b


def possible(e, facts, roots=(), consts=None, norm=lambda g: g):
    """can the event happen in the world: False (some guard is false), True (all are true), or the guards that stay open"""
    gs = [(g, holds(norm(g), facts, roots, consts)) for g in e.guards]
    if any(b is False for g, b in gs):
        return False
    return [world(norm(g), facts, roots, consts) for g, b in gs if b is None] or True


# ---------------------------------------------------------------------- registration by the functions

def regs(ctx, c):
    """[(position of the constructor argument, kind, lo, hi, guards)] of the dimensions registered; kind star / dims / other"""
    ct = construction(ctx, c)
    if ct is None:
        return []
    s = ct.norm(ct.an.getattr(SELF, "_sumlike_dimensions"))
    if s.op != "coll":
        return None
    argv = ct.norm(ct.an.getattr(SELF, "arguments"))
    out = []

    def position(t):
        view = argv.args if argv.op == "tuple" else ()
        for i, a in enumerate(view):
            if a is t or a.op == "star" and a.args[0] is t:
                return i
        return None

    def owner(t):
        # X.dimensions or X[None].dimensions
        if t.op == "attr" and t.args[1] == "dimensions":
            o = t.args[0]
            if o.op == "sub" and o.args[1] is NONE:
                o = o.args[0]
            return position(o)
        return None

    def record(v, guards):
        if v.op == "ite":
            for g, x in leaves(v):
                record(x, tuple(guards) + tuple(g))
            return
        if v.op == "elem":
            b = strip_seq(v.args[0])
            if b.op == "arg":
                out.append((position(b), "star", 0, None, guards, v))
                return
            lo, hi = 0, None
            if b.op == "sub" and b.args[1].op == "slice":
                sl = b.args[1]
                lo = 0 if sl.args[0] is NONE else cval(sl.args[0]) if is_const(sl.args[0]) else None
                hi = None if sl.args[1] is NONE else cval(sl.args[1]) if is_const(sl.args[1]) else "?"
                b = b.args[0]
            out.append((owner(b), "dims", lo, hi, guards, v))
            return
        if v.op == "sub" and is_const(v.args[1]):
            k = cval(v.args[1])
            out.append((owner(v.args[0]), "dims", k, k + 1 if k != -1 else None, guards, v))
            return
        out.append((None, "other", None, None, guards, v))
    for op, k, v, guards, loops in s.args[1]:
        record(v, guards)
    return out


def benign(g, star=False):
    """a condition every completed construction satisfies or that only distinguishes constants from nodes"""
    for a in atoms(g):
        if a.op == "isinstance" or a.op == "cmp" and NONE in a.args[1:]:
            continue
        if not star and a.op == "cmp" and a.args[0] in ("==",) and contains(a, lambda x: x.op == "len"):
            continue
        if a.op == "ite" and all(benign(x) for x in a.args):
            continue
        return False
    return True


REDUCERS = ("sum", "mean", "average", "amin", "amax", "min", "max", "median", "prod", "nansum", "nanmean", "std", "var", "vinth2p")


@rule("C09", "registration", 14)
def c09_registration(ctx):
    """A function that is given the names of the dimensions it reduces registers every one of them, whatever they are; one that reduces along a
    fixed axis, or whose result lacks an axis of an argument, registers the dimension of that axis."""
    for c, f in functions(ctx, False):
        r = evaluation(ctx, c, f, False)
        reg = regs(ctx, c)
        key = short(c)
        if reg is None:
            ctx.unknown(key, "the registered dimensions cannot be determined", f)
            continue
        ix = mk("arg", f.params()[1])
        need = []
        for e in r.calls():
            n = (name_of(e.f) or "").split(".")[-1]
            if n == "diff" and kwarg(e, "axis", 2) is None:
                need.append(("near", None, e))
            if n not in REDUCERS:
                continue
            if n in ("min", "max") and e.f.op == "ext" and e.f.args[0] in ("min", "max"):
                continue
            names = r.norm(kwarg(e, "dimensions") or NONE)
            axis = r.norm(kwarg(e, "axis", 1) or NONE)
            if contains(names, named_by_user) or contains(axis, named_by_user):
                need.append(("star", None, e))
            elif n == "vinth2p":
                need.append(("some", None, e))
            elif is_const(axis) and isinstance(cval(axis), int):
                need.append(("axis", cval(axis), e))
        n = evaluation(ctx, c, f, True)
        ds = seq_dims(metadata(n, "dimensions", ix))
        vanished = {}
        if ds:
            for d in ds:
                if d.op == "sub" and is_const(d.args[1]) and isinstance(cval(d.args[1]), int):
                    p = argument_position(d.args[0])
                    if p is not None:
                        vanished.setdefault(p, set()).add(cval(d.args[1]))
        for p, kept in vanished.items():
            for k in range(max(kept) + 1):
                if k not in kept:
                    need.append(("axis", k, f))
        for kind, k, e in need:
            if kind == "star":
                good = [x for x in reg if x[1] == "star"]
                if not good:
                    ctx.bad(key, "reduces over the dimensions it is given but does not register them as not chunkable", e)
                    continue
                free = [x for x in good if all(benign(g, True) for g in x[4])]
                ctx.check(key, True if free else False, "the given dimensions are registered only if %s" % [term(g) for x in good for g in x[4]][:3], e)
            elif kind == "axis":
                cover = [x for x in reg if x[1] == "dims" and x[2] is not None and x[3] != "?" and x[2] <= k and (x[3] is None or k < x[3])]
                odd = [x for x in reg if x[1] == "other" or x[1] == "dims" and (x[2] is None or x[3] == "?" or x[2] < 0)]
                if cover and any(all(benign(g) for g in x[4]) for x in cover):
                    ctx.ok(key + " axis %d" % k, "", e)
                elif cover or odd:
                    ctx.unknown(key + " axis %d" % k, "registered as %s" % [term(x[5]) for x in cover + odd][:3], e)
                else:
                    ctx.bad(key + " axis %d" % k, "collapses axis %d but does not register its dimension as not chunkable (registered: %s)"
                            % (k, [term(x[5]) for x in reg][:3]), e)
            elif kind == "near":
                ctx.check(key + " neighbours", bool(reg), "combines neighbouring positions but registers no dimension as not chunkable", e)
            else:
                ctx.check(key, bool(reg), "interpolates between levels but registers no dimension as not chunkable", e)


def named_by_user(x):
    return x.op == "elem" and x.args[0].op == "sub" and x.args[0].args[1].op == "slice" and contains(x.args[0], lambda y: y.op == "attr" and y.args[1] == "arguments")


def argument_position(t):
    """position i if t is self.arguments[i][index].dimensions"""
    if t.op == "attr" and t.args[1] == "dimensions":
        o = t.args[0]
        if o.op == "sub":
            o = o.args[0]
        if o.op == "sub" and is_const(o.args[1]) and contains(o.args[0], lambda y: y.op == "attr" and y.args[1] == "arguments"):
            return cval(o.args[1])
    return None


@rule("C09", "renamed-index", 1)
def c09_renamed(ctx):
    """A function whose result carries dimension names of its own passes a requested index by name on only with the names translated to
    its argument's."""
    for c, f in functions(ctx, False):
        r = evaluation(ctx, c, f, False)
        ix = mk("arg", f.params()[1])
        ds = None
        for e in r.calls() + [x for x in r.events if x.kind == "enter"]:
            if e.f is not None and name_of(e.f) in ("PhysArray", "CharArray"):
                ds = kwarg(e, "dimensions")
                ds = r.norm(ds) if ds is not None else None
        own = None
        for t in walk(r.norm(r.value)):
            if is_new(t, "PhysArray", "CharArray"):
                d = kwarg(t, "dimensions", 3)
                if d is not None and contains(d, lambda y: y.op == "sub" and y.args[1].op == "slice" and contains(y.args[0], lambda z: z.op == "attr" and z.args[1] == "arguments")):
                    own = d
        if own is None:
            continue
        reg = regs(ctx, c) or []
        if any(x[1] == "star" and all(benign(g) for g in x[4]) for x in reg):
            ctx.ok(short(c), "its names are registered as not chunkable", f)
            continue
        dicts = [a for e, o, k in requests(r, arg_attrs(ctx, c)) for g, x in leaves(k) for l in g for a in atoms(l)
                 if a.op == "isinstance" and a.args[0] is ix and "dict" in type_names(a.args[1])]
        facts = {mk("isinstance", ix, a.args[1]): TRUE for a in dicts}
        for e, o, k in requests(r, arg_attrs(ctx, c)):
            guards = [world(g, facts) for g in e.guards]
            if any(truth(g) is False for g in guards):
                continue
            for g, x in leaves(world(k, facts)):
                if x is NONE:
                    continue
                if any(l.op == "not" and l.args[0].op == "nonempty" for l in g):
                    continue            # no names given: nothing is renamed
                if x is ix:
                    ctx.bad(short(c), "the result has renamed dimensions, but the argument is asked for the requested index under the new names", e)
                elif translation(x, ix, o):
                    ctx.ok(short(c), "", e)
                elif reindexed(x, ix) and all(en[1] is en[2].args[1] for en in x.args[1]):
                    ctx.bad(short(c), "the requested names are passed on untranslated: %s" % term(x), e)
                else:
                    ctx.unknown(short(c), term(x), e)


@rule("C09", "exposed", 2)
def c09_exposed(ctx):
    """What a function has registered is what it exposes, and an evaluation node exposes what its function exposes."""
    f = ctx.p.cls("functions.Function")
    g = f.props.get("sumlike_dimensions")
    r = ctx.run(g, cls=f)
    v = strip(r.norm(r.value))
    ctx.check("Function.sumlike_dimensions", True if v in (attr(SELF, "_sumlike_dimensions"), attr(SELF, "sumlike_dimensions")) else None if v.op != "coll" or v.args[1] else False,
              "exposes %s" % term(v), g)
    c = ctx.p.cls("flownodes.EvalNode")
    g = c.props.get("sumlike_dimensions") or c.find_method("sumlike_dimensions")
    if g is None:
        return
    r = ctx.run(g, cls=c)
    v = plainattrs(r.norm(r.value))
    fn = None
    for lits, x in leaves(v):
        x = strip(x)
        isf = [l for l in lits for a in atoms(l) if a.op == "isinstance" and "Function" in type_names(a.args[1])]
        if x.op == "attr" and x.args[1] in ("sumlike_dimensions", "_sumlike_dimensions"):
            fn = x
            ctx.ok("EvalNode.sumlike_dimensions", "", g)
        elif x.op == "coll" and not x.args[1]:
            bad = [l for l in lits if l.op != "not" and l.op != "and" or not isf]
            ctx.check("EvalNode.sumlike_dimensions otherwise", not bad if isf or not lits else None, "no dimensions exposed if %s" % [term(l) for l in lits], g)
        else:
            ctx.unknown("EvalNode.sumlike_dimensions", term(x), g)
    ctx.check("EvalNode.sumlike_dimensions of its function", fn is not None, "the dimensions registered by the node's function are not exposed", g)


# ---------------------------------------------------------------------- the data flow object

def flow(ctx):
    """the constructed data flow: (result of the constructor, final attribute -> term)"""
    if "flow" not in ctx.cache:
        c = ctx.p.cls("dataflow.DataFlow")
        r = ctx.run(c.methods["__init__"], cls=c)
        r.an.state = r.state
        ctx.cache["flow"] = (c, r)
    return ctx.cache["flow"]


def field(r, name):
    return plainattrs(r.norm(r.an.getattr(SELF, name)))


@rule("C09", "collection", 1)
def c09_collection(ctx):
    """The dimensions refused for chunking are those registered by every evaluation node anywhere below every validated variable, translated
    by the input-to-output map; only names that the map does not contain are left out."""
    c, r = flow(ctx)
    ex = execution(ctx)
    name = refused_attr(ctx)
    if name is None:
        ctx.bad("DataFlow.execute", "no collection of registered dimensions is compared with the chunk dimensions", ex[1])
        return
    s = field(r, name)
    where = c.methods["__init__"]
    if s.op != "coll":
        ctx.unknown("collected", term(s), where)
        return
    if not s.args[1]:
        ctx.bad("collected", "no registered dimension is ever collected", where)
        return
    nodes = valnodes(ctx)
    def given(g, lits):
        return subst(g, dict([(l, TRUE) for l in lits] + [(not_(l), FALSE) for l in lits]))
    for v, guards, loops in [(x, tuple(given(y, lits) for y in g) + tuple(lits), l) for op, k, v, g, l in s.args[1] for lits, x in leaves(v)]:
        if contains(v, lambda x: x.op == "elem" and x.args[0].op == "coll" and not x.args[0].args[1]):
            continue                # nothing to collect
        if not (v.op == "sub"):
            ctx.check("translated", False if v.op == "elem" else None, "the collected dimensions are not translated to output dimensions: %s" % term(v), where)
            continue
        d, m = v.args[1], v.args[0]
        o2i = o2imap(ctx)
        ctx.check("translated", False if m is field(r, o2i) else True if m is field(r, i2omap(ctx)) else None, "translated by %s" % term(m), where)
        # d is an element of N.sumlike_dimensions
        src = strip(d.args[0]) if d.op == "elem" else None
        if src is not None and src.op == "loop" and forgets(src):
            ctx.bad("registered", "only the registrations of the last node are collected", where)
            continue
        if src is None or not (src.op == "attr" and "sumlike" in src.args[1]):
            ctx.unknown("registered", term(d), where)
            continue
        n = src.args[0]
        while n.op == "attr":
            n = n.args[0]
        it = n.args[0] if n.op == "elem" else None
        if it is None:
            ctx.unknown("nodes", term(n), where)
            continue
        if is_call(it, "iter_dfs", "iter_bfs"):
            start = it.args[1][0]
            whole = start.op in ("sub", "elem") and (start.args[0] is nodes or over(start.args[0], (nodes,)))
            ctx.check("searched", True if whole else None, "searched from %s" % term(start), where)
        elif it is nodes or over(it, (nodes,)) or it.op == "attr" and it.args[1] == "inputs":
            ctx.bad("searched", "only the nodes %s are searched, not the graph below every variable" % term(it), where)
        else:
            ctx.unknown("searched", term(it), where)
        for e in cut_short(r, loops):
            ctx.bad("collected", "the search stops at the first match", e)
        for g in guards:
            for a in atoms(g):
                okay = a.op == "isinstance" and a.args[0] in (n, attr(n, "_function")) and type_names(a.args[1]) & {"EvalNode", "FlowNode", "Function"} \
                    or a is cmp_("in", d, m) or a.op == "cmp" and a.args[0] == "in" and over(a.args[2], (nodes,)) or a.op == "nonempty" and a.args[0] is src or a.op == "hasattr"
                if not okay:
                    narrow = contains(a, lambda x: x is n or x is d or x.op == "elem" and contains(n, lambda y: y is x))
                    ctx.check("collected", False if narrow else None, "collected only if %s" % term(a), where)
                elif a.op == "isinstance":
                    ctx.ok("collected", "", where)


def forgets(t, phs=()):
    """a loop's variable that is replaced by what one node registered instead of accumulating it"""
    phs = phs + (t.args[3],)
    for g, x in leaves(t.args[2]):
        if x.op == "loop":
            if forgets(x, phs):
                return True
        elif contains(x, lambda y: y.op == "attr" and "sumlike" in y.args[1]) and not contains(x, lambda y: y in phs):
            return True
    return False


def cut_short(r, loops):
    """events that leave one of the loops before it has seen all elements"""
    out = []
    for e in r.events:
        if e.kind == "break" and e.loops and r.norm(e.loops[-1]) in loops:
            out.append(e)
        elif e.kind == "return" and e.loops and e.fn is not None and r.norm(e.loops[-1]) in loops and \
                any(e.node in ast.walk(x) for x in ast.walk(e.fn.node) if isinstance(x, (ast.For, ast.While)) and e.node is not None):
            out.append(e)
    return out


def execution(ctx):
    if "execute" not in ctx.cache:
        c = ctx.p.cls("dataflow.DataFlow")
        f = c.methods["execute"]
        ctx.cache["execute"] = (ctx.run(f, cls=c), f)
    return ctx.cache["execute"]


CHUNKS = mk("arg", "chunks")


def chunk_elem(x):
    return x.op == "elem" and over(x.args[0], (CHUNKS,))


def refused_attr(ctx):
    """the attribute of the flow whose members chunk dimensions are compared with, other than the dimension map"""
    r, f = execution(ctx)
    names = []
    init = flow(ctx)[1]
    for e in r.events:
        for t in [r.norm(g) for g in e.guards]:
            for x in walk(t):
                if x.op == "cmp" and x.args[0] == "in" and x.args[2].op == "attr" and x.args[2].args[0] is SELF and chunk_elem(x.args[1]) or \
                        x.op == "bin" and contains(x, lambda y: y is CHUNKS):
                    for y in walk(x):
                        if y.op == "attr" and y.args[0] is SELF and y.args[1] not in names:
                            names.append(y.args[1])
    sets = [n for n in names if field(init, n).op == "coll" and field(init, n).args[0] == "set"]
    return sets[0] if sets else None


def i2omap(ctx):
    return "_i2omap"


def o2imap(ctx):
    return "_o2imap"


def valnodes(ctx):
    c, r = flow(ctx)
    return field(r, "_valnodes")


def writes(r):
    """calls that execute a write node"""
    return [e for e in r.calls() if e.f is not None and e.f.op == "attr" and e.f.args[1] == "execute" and e.f.args[0] is not SELF]


@rule("C09", "refusal", 7)
def c09_refusal(ctx):
    """No file is written when the chunk specification is not a dictionary, names an unknown output dimension, gives a size that is not a
    positive integer, or (outside debug mode) names a registered dimension; in debug mode registered dimensions are dropped from
    the chunks; other specifications reach every write unchanged."""
    r, f = execution(ctx)
    ws = writes(r)
    if not ws:
        ctx.unknown("execute", "no write found", f)
        return
    E = mk("elem", CHUNKS)
    name = refused_attr(ctx)
    elems = {x for e in r.events for g in e.guards for x in walk(r.norm(g)) if chunk_elem(x)} | {E}
    debug = mk("arg", "debug")
    omap = attr(SELF, o2imap(ctx))

    def scenario(known=True, value=const(5), summed=False, dbg=False, dct=True):
        facts = {debug: TRUE if dbg else FALSE}
        consts = {}
        for x in elems:
            facts[cmp_("in", x, omap)] = TRUE if known else FALSE
            for imap in ("_i2omap", "dimension_map"):
                facts[cmp_("in", x, attr(SELF, imap))] = FALSE if known else TRUE
            if name:
                facts[cmp_("in", x, attr(SELF, name))] = TRUE if summed else FALSE
            consts[mk("sub", CHUNKS, x)] = value
        for t in {y.args[1] for e in r.events for g in e.guards for y in walk(g) if y.op == "isinstance" and y.args[0] is CHUNKS}:
            facts[mk("isinstance", CHUNKS, t)] = TRUE if dct else FALSE
        for e in r.events:
            for g in e.guards:
                for y in walk(r.norm(g)):
                    if y.op == "nonempty" and y.args[0].op == "bin" and name and contains(y, lambda z: z is attr(SELF, name)):
                        facts[y] = TRUE if summed else FALSE
        return facts, consts

    def run(key, why, refused=True, **kw):
        facts, consts = scenario(**kw)
        for e in ws:
            at = possible(e, facts, (CHUNKS,), consts, r.norm)
            before = [(x, possible(x, facts, (CHUNKS,), consts, r.norm)) for x in r.raises()
                      if x.seq < e.seq and not any(c[0] in ("try", "with") for c in x.ctx)]
            if at is False or any(p is True for x, p in before):
                ctx.check(key, refused, "a valid specification is refused: %s" % why, e)
                continue
            if not refused:
                ctx.ok(key, "", e)
                continue
            rest = [g for p in [at] + [p for x, p in before] if isinstance(p, list) for g in p if contains(g, lambda y: y is CHUNKS)]
            ctx.check(key, None if rest else False, "files are written although %s%s" % (why, ": undecided %s" % [term(g) for g in rest[:2]] if rest else ""), e)
    run("not a dictionary", "the chunks are not a dictionary", dct=False)
    run("unknown dimension", "a chunk dimension is not an output dimension", known=False)
    run("size 2.5", "a chunk size is not an integer", value=const(2.5))
    run("size text", "a chunk size is text", value=const("4"))
    run("size 0", "a chunk size is zero", value=const(0))
    run("size -1", "a chunk size is negative", value=const(-1))
    run("summed over", "a chunk dimension is summed over", summed=True)
    run("valid", "ordinary dimension, integer size", refused=False)
    for e in ws:
        v = kwarg(e, "chunks", 0)
        if v is None:
            ctx.bad("chunks passed on", "the chunk specification does not reach the write", e)
            continue
        v = r.norm(v)
        facts, consts = scenario()
        plain = world(v, facts, (CHUNKS,), {})
        ctx.check("chunks passed on", same_chunks(plain), "writes with chunks %s" % term(plain), e)
        facts, consts = scenario(summed=True, dbg=True)
        t = world(v, facts, (CHUNKS,), {})
        if t is CHUNKS:
            ctx.bad("debug", "in debug mode a dimension that is summed over is still chunked", e)
        elif t.op == "coll" and any(en[0] == "del" and en[1].op == "elem" and chunk_elem(en[1]) and
                                    all(truth(world(mk("nonempty", l), facts, (CHUNKS,), consts)) is True for l in en[4]) for en in t.args[1]):
            ctx.ok("debug", "", e)
        elif t.op == "coll" and all(any(truth(world(g, facts, (CHUNKS,), consts)) is False for g in en[3]) for en in t.args[1]):
            ctx.ok("debug", "", e)
        else:
            ctx.check("debug", False if t.op == "coll" and all(all(truth(g) is True for g in en[3]) for en in t.args[1]) else None,
                      "in debug mode writes with chunks %s" % term(t), e)


def same_chunks(v):
    if v is CHUNKS or is_call(v, "dict", "OrderedDict", "copy", "deepcopy") and (v.args[1] and v.args[1][0] is CHUNKS or contains(v.args[0], lambda x: x is CHUNKS)):
        return True
    if v.op == "new" and v.args[1] and v.args[1][0] is CHUNKS:
        return True
    if v.op == "coll" and v.args[0] == "dict":
        if len(v.args[1]) == 1:
            op, k, x, g, l = v.args[1][0]
            if op == "set" and k is not None and chunk_elem(k) and x is mk("sub", CHUNKS, k):
                return True if all(truth(y) is True for y in g) else None
        if not v.args[1]:
            return False
    if contains(v, lambda x: x is CHUNKS):
        return None
    return False


def plainattrs(t):
    """getattr with a constant name is the attribute"""
    return rebuild(t, lambda x: attr(x.args[0], cval(x.args[1])) if x.op == "getattr" and is_const(x.args[1]) else x)


def derived(o, root):
    """is o the root or something reached through it without copying?"""
    while True:
        if o is root:
            return True
        if o.op in ("sub", "attr", "elem"):
            o = o.args[0]
            continue
        if o.op == "ite":
            return derived(o.args[1], root) or derived(o.args[2], root)
        return False


def mutations(r, root):
    out = []
    for e in r.events:
        if e.kind in ("setitem", "delitem", "setattr", "aug") and e.obj is not None and derived(r.norm(e.obj), root):
            out.append(e)
        elif e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[1] in MUTATORS and derived(r.norm(e.f.args[0]), root):
            out.append(e)
    return out


@rule("C09", "untouched", 2)
def c09_untouched(ctx):
    """Executing never changes the chunk specification the caller passed."""
    r, f = execution(ctx)
    ms = mutations(r, CHUNKS)
    ctx.check("DataFlow.execute", not ms, "the caller's chunk specification is changed: %s" % (ms and (ms[0].kind, ms[0].name),), ms[0] if ms else f)
    c = ctx.p.cls("flownodes.WriteNode")
    g = c.methods["execute"]
    r = ctx.run(g, cls=c)
    ms = mutations(r, CHUNKS)
    ctx.check("WriteNode.execute", not ms, "the caller's chunk specification is changed: %s" % (ms and (ms[0].kind, ms[0].name),), ms[0] if ms else g)


# ---------------------------------------------------------------------- C11: dimension maps

class Maps:
    """the method that computes the two dimension maps; the maps stay symbols (I2O, O2I in the order returned) in normal forms"""

    def __init__(self, f, r, allocs):
        self.f, self.r, self.allocs = f, r, allocs
        self.syms = (mk("arg", "<first map>"), mk("arg", "<second map>"))
        self.memo = dict(zip(allocs, self.syms))

    def norm(self, t):
        return self.r.an.norm(t, memo=dict(self.memo))

    def entries(self, i):
        def n(x):
            # S[position in T] is the element of S that belongs to the element of T
            return None if x is None else rebuild(self.norm(x), lambda y: mk("elem", strip(y.args[0])) if y.op == "sub" and y.args[1].op == "idx" else y)
        return [(x.op, n(x.key), n(x.val), tuple(n(g) for g in x.guards), tuple(n(l) for l in x.loops)) for x in self.r.an.recs[self.allocs[i]]]

    def pairs(self, i):
        return [(k, v, g, l) for op, k, v, g, l in self.entries(i) if op == "set"]


def mapping_method(ctx):
    if "maps" not in ctx.cache:
        c = ctx.p.cls("dataflow.DataFlow")
        found = None
        names = ["_compute_dimension_maps_"] + [n for n in c.methods if n not in ("__init__", "execute")]
        for n in names:
            f = c.methods.get(n)
            if f is None:
                continue
            r = ctx.run(f, cls=c)
            v = r.value
            if v.op == "tuple" and len(v.args) == 2 and all(x.op == "alloc" and x in r.an.recs and r.norm(x).op == "coll" and r.norm(x).args[0] == "dict" for x in v.args):
                found = Maps(f, r, v.args)
                break
        ctx.cache["maps"] = found
    return ctx.cache["maps"]


def pairs(m):
    return [(k, v, g, l) for op, k, v, g, l in m.args[1] if op == "set"]


def inverse_coll(en, of):
    """is the entry of a collection that of the inverse of the map 'of'"""
    op, key, val, guards, loops = en
    if op != "set" or len(loops) != 1:
        return False
    l = loops[0]
    if not (over(l, (of,)) or is_call(l, "zip") and all(over(a, (of,)) for a in l.args[1])):
        return False
    # identical names may be left out: they are passed through anyway
    if not all(g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "==" and set(g.args[0].args[1:]) == {key, val} for g in guards):
        return False
    return val is mk("elem", of) and key is mk("sub", of, val)


@rule("C11", "inverse", 2)
def c11_inverse(ctx):
    """The two maps are filled by the same steps with keys and values exchanged, and nothing else is ever put in or taken out."""
    got = mapping_method(ctx)
    if got is None:
        ctx.unknown("maps", "no method returns the two maps", ctx.p.cls("dataflow.DataFlow").methods["__init__"])
        return
    f, r = got.f, got.r
    a, b = got.syms
    for m, name in ((0, "input to output"), (1, "output to input")):
        for en in got.entries(m):
            if en[0] != "set":
                ctx.check(name, False if en[0] in ("del", "pop") else None, "entries are removed from one map", f)
    A, B = got.pairs(0), got.pairs(1)
    inverse_of = len(B) == 1 and len(A) == 1 and any(
        not p[0][2] and inverse_coll(("set",) + p[0], m)
        for p, q, m in ((B, A, a), (A, B, b)))
    for k, w, g, l in A:
        twins = [x for x in B if x[0] is w and x[1] is k]
        if inverse_of:
            ctx.ok("input to output", "one map is computed as the inverse of the other", f)
        elif not twins:
            ctx.check("input to output", False if B and all(x[0].op == "elem" and x[1].op == "elem" for x in B) or not B else None,
                      "%s -> %s is entered without the inverse entry" % (term(k, 60), term(w, 60)), f)
        else:
            x = twins[0]
            both = lambda y: frozenset(strip(a) for a in y.args[1]) if is_call(y, "zip") else strip(y)
            same = set(x[2]) == set(g) and [both(y) for y in x[3]] == [both(y) for y in l]
            ctx.check("input to output", True if same else None if len(l) == len(x[3]) and set(map(strip, l)) == set(map(strip, x[3])) and
                      not (set(x[2]) <= set(g) or set(g) <= set(x[2])) else False, "the inverse entry is made under other conditions", f)
    for k, w, g, l in B:
        if not inverse_of and not [x for x in A if x[0] is w and x[1] is k]:
            ctx.check("output to input", False if A and all(x[0].op == "elem" and x[1].op == "elem" for x in A) or not A else None,
                      "%s -> %s is entered without the inverse entry" % (term(k, 60), term(w, 60)), f)
        else:
            ctx.ok("output to input", "", f)
    # the roles of the flow's two attributes
    c, i = flow(ctx)
    x, y = field(i, "_i2omap"), field(i, "_o2imap")
    for m, name, want in ((x, "_i2omap", True), (y, "_o2imap", False)):
        if m.op == "coll" and pairs(m):
            k, w = pairs(m)[0][:2]
            inp = described_input(k), described_input(w)
            if inp in ((True, False), (False, True)):
                ctx.check(name, (inp[0] is True) is want, "the map runs the wrong way", c.methods["__init__"])
            else:
                ctx.unknown(name, "%s -> %s" % (term(k, 80), term(w, 80)), c.methods["__init__"])


def rearranged(s):
    """is a sequence put in an order of its own: sorted, reversed or made a set"""
    while True:
        if is_call(s, "sorted", "reversed", "set", "frozenset") or s.op == "coll" and s.args[0] == "set":
            return True
        if s.op == "slice" or s.op == "sub" and s.args[1].op == "slice":
            return True
        if s.op == "bin" and any(a.op == "coll" and a.args[0] == "set" or is_call(a, "set", "frozenset") for a in s.args[1:]):
            return True
        if is_call(s, "tuple", "list", "iter") and len(s.args[1]) == 1:
            s = s.args[1][0]
        elif s.op == "coll" and len(s.args[1]) == 1 and s.args[1][0][0] == "append" and len(s.args[1][0][4]) == 1:
            s = s.args[1][0][4][0]
        else:
            return False


def described_input(t):
    """True for a dimension name taken from a node's info, False for one of an output variable, None otherwise"""
    if t.op != "elem":
        return None
    b = strip(t.args[0])
    if b.op == "coll" and len(b.args[1]) == 1 and b.args[1][0][2].op == "elem":
        return described_input(b.args[1][0][2])
    if b.op == "attr" and b.args[1] == "dimensions":
        o = b.args[0]
        if o.op == "sub" and o.args[0].op == "attr" and o.args[0].args[1] == "variables":
            return False
        return True
    return None


def base(t):
    """the sequence of dimension names an element comes from"""
    if t.op == "elem":
        b = strip(t.args[0])
        if b.op == "coll" and len(b.args[1]) == 1 and b.args[1][0][2].op == "elem":
            return base(b.args[1][0][2])
        return b
    return None


@rule("C11", "rejected", 8)
def c11_rejected(ctx):
    """A variable whose unmapped dimensions differ in number, whose mapped dimension is missing from its data, or that would map an input
    dimension a second time is refused; one that can be mapped is accepted and adds its pair exactly when it has an unmapped one."""
    got = mapping_method(ctx)
    if got is None:
        return
    f, r = got.f, got.r
    A, B = got.pairs(0), got.pairs(1)
    if not A or not B:
        return
    for P in (A, B):
        for k, w, g, l in P:
            for y in l:
                if is_call(y, "zip") and any(rearranged(a) for a in y.args[1]):
                    ctx.bad("paired", "the dimensions are rearranged before they are paired: %s" % term(y, 160), f)
                    return
    # one of the two is entered pair by pair: read (input, output) off it
    src = None
    for P in (A, B):
        for k, w, g, l in P:
            ends = described_input(k), described_input(w)
            if ends == (True, False):
                src = src or [(k, w, g, l)]
            elif ends == (False, True):
                src = src or [(w, k, g, l)]
    if src is None:
        ctx.unknown("maps", "entries %s" % term(A[0][0]), f)
        return
    ends = [(described_input(P[0][0]), described_input(P[0][1])) for P in (A, B)]
    i2o = {m for m, e in zip(got.syms, ends) if e == (True, False)}
    o2i = {m for m, e in zip(got.syms, ends) if e == (False, True)}
    if not i2o and len(o2i) == 1:
        i2o = set(got.syms) - o2i
    if not o2i and len(i2o) == 1:
        o2i = set(got.syms) - i2o
    i, o, guards, loops = src[0]
    for e in r.raises():
        for g in e.guards:
            for x in walk(got.norm(g)):
                if x.op == "cmp" and x.args[0] == "in" and (x.args[2] in i2o or x.args[2] in o2i):
                    kind = described_input(x.args[1])
                    if kind is not None and kind is not (x.args[2] in i2o):
                        ctx.bad("names", "the names of %s dimensions are looked up among those of the others: %s" % ("input" if kind else "output", term(x, 80)), e)
    I, O = base(i), base(o)
    EI, EO = mk("elem", I), mk("elem", O)
    raises = [e for e in r.raises()]
    terms = [got.norm(g) for e in raises for g in e.guards] + list(guards) + list(loops)

    def facts(outmapped=False, present=True, inpmapped=False, target=True):
        d = {}
        for m in o2i:
            d[cmp_("in", EO, m)] = TRUE if outmapped else FALSE
            d[cmp_("in", mk("sub", m, EO), I)] = TRUE if present else FALSE
            d[cmp_("==", mk("sub", m, EO), EI)] = TRUE if target else FALSE
            d[cmp_("==", EI, mk("sub", m, EO))] = TRUE if target else FALSE
            # membership of the input dimension among the mapped ones
            for t in terms:
                for x in walk(t):
                    if x.op == "cmp" and x.args[0] == "in" and x.args[1] is EI and x.args[2].op == "coll" and x.args[2].args[0] != "dict":
                        d[x] = TRUE if outmapped and target else FALSE
                    if x.op == "cmp" and x.args[0] == "in" and x.args[1] is EI and is_call(x.args[2], "values") and contains(x.args[2], lambda y: y is m):
                        d[x] = TRUE if inpmapped else FALSE
        for m in i2o:
            d[cmp_("in", EI, m)] = TRUE if inpmapped else FALSE
        return d

    def outcome(d, roots):
        rs = [possible(e, d, roots, None, got.norm) for e in raises]
        if any(p is True for p in rs):
            return True
        if all(p is False for p in rs):
            return False
        return None

    def expect(key, refused, d, roots, empty=()):
        d = dict(d)
        d["empty"] = tuple(empty)
        roots = roots + tuple(x for x in outer)
        got = outcome(d, roots)
        ctx.check(key, None if got is None else got is refused, ("accepted although %s" if refused else "refused although %s") % key, raises[0] if raises else f)
    outer = [l for l in loops if not is_call(l, "zip") and not contains(l, lambda x: x is I or x is O)]
    if not raises:
        ctx.bad("rejected", "no variable is ever refused", f)
        return
    expect("one unmapped output and one unmapped input dimension", False, facts(), (I, O))
    expect("its output dimension is mapped to its input dimension", False, facts(True, True, True, True), (I, O))
    expect("it has no dimensions", False, facts(), (), (I, O))
    expect("the output has an unmapped dimension and the data none", True, facts(), (O,), (I,))
    expect("the data have an unmapped dimension and the output none", True, facts(), (I,), (O,))
    expect("the data have an unmapped dimension where the output's is mapped to another", True, facts(True, False, False, False), (I, O))
    expect("the output dimension is mapped to an input dimension the data lack", True, facts(True, False, False, False), (O,), (I,))
    expect("the input dimension is mapped to another output dimension", True, facts(False, True, True, False), (I, O))
    # the pairs are formed of the unmapped names in order
    z = [l for l in loops if is_call(l, "zip")]
    if len(z) == 1 and len(z[0].args[1]) == 2:
        if any(rearranged(s) for s in z[0].args[1]):
            ctx.bad("paired", "the dimensions are rearranged before they are paired: %s" % term(z[0], 160), f)
        for s in z[0].args[1]:
            s = strip(s)
            which = "input" if s is I or contains(s, lambda x: x is EI) and not contains(s, lambda x: x is EO and s.op == "coll" and s.args[1][0][2] is EO) else "output"
            if s.op == "attr":
                ctx.bad("paired %s" % which, "already mapped dimensions are paired again: %s" % term(s), f)
            elif s.op == "coll" and len(s.args[1]) == 1:
                en = s.args[1][0]
                neg = [g for g in en[3] if g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "in" and g.args[0].args[1] is en[2]]
                ctx.check("paired %s" % which, True if neg else False if not en[3] else None, "paired although mapped: %s" % term(s, 120), f)
            else:
                ctx.unknown("paired %s" % which, term(s, 120), f)
    else:
        ctx.unknown("paired", "the pairs are not formed by zipping two sequences", f)


@rule("C11", "order", 1)
def c11_order(ctx):
    """Variables are mapped in order of increasing number of dimensions."""
    got = mapping_method(ctx)
    if got is None:
        return
    f, r = got.f, got.r
    orders = [(e, e.args[0] if e.args else e.f.args[0] if e.f.op == "attr" else None) for e in r.events
              if e.kind == "order" or e.kind == "call" and e.f is not None and name_of(e.f) == "sort"]

    def counts(t):
        return t.op == "len" or is_call(t, "len") or t.op == "attr" and t.args[1] == "ndim"
    A = [p for p in got.pairs(0) + got.pairs(1) if described_input(p[0]) is not None and p[3]]
    if A and A[0][3] and not orders:
        l = strip(A[0][3][0])
        ctx.check("order", False if l.op == "arg" or l.op == "attr" or l.op == "coll" else None, "variables are mapped in the order of %s" % term(l, 80), f)
        return
    outer = A[0][3][0] if A and A[0][3] else None
    if outer is not None:
        back = [y for y in walk(outer) if is_call(y, "reversed") or y.op == "slice" and truth(cmp_("<", y.args[2], const(0))) is True]
        if back:
            ctx.bad("order", "variables are mapped in the order of %s" % term(outer, 100), f)
    # orders imposed on the dimensions of a variable that is mapped
    for e, x in orders:
        if x is not None and described_input(mk("elem", r.norm(x))) is not None and set(e.guards) <= set(r.an.recs[got.allocs[0]][0].guards):
            ctx.bad("dimensions", "the dimensions are rearranged before they are paired: %s" % term(r.norm(x), 100), e)
    orders = [(e, x) for e, x in orders if x is None or described_input(mk("elem", r.norm(x))) is None]
    for e, x in orders:
        if e.fn is not None and e.fn is not f:
            continue
        rev = kwarg(e, "reverse")
        if rev is not None and truth(r.norm(rev)) is not False:
            ctx.bad("order", "variables are mapped in decreasing order", e)
            continue
        key = kwarg(e, "key")
        view = r.norm(x) if x is not None else None
        if view is not None and view.op == "coll":
            view = mk("coll", view.args[0], tuple(en for en in view.args[1] if en[0] != "sort"))
        view = seqview(view) if view is not None else None
        if key is None and view and len(view) == 1:
            el = view[0][0]
            first = el.args[0] if el.op == "tuple" and el.args else el
            if counts(first):
                ctx.ok("order", "", e)
            elif first.op == "un" and counts(first.args[1]) or first.op == "neg":
                ctx.bad("order", "variables are mapped in decreasing order", e)
            else:
                ctx.check("order", False if el.op == "tuple" or el.op == "elem" else None, "variables are ordered by %s" % term(first, 80), e)
        elif key is not None:
            body = [n for n in ast.walk(e.node) if isinstance(n, ast.keyword) and n.arg == "key"] if e.node is not None else []
            lam = body[0].value if body else None
            expr = lam.body if isinstance(lam, ast.Lambda) else None
            if isinstance(expr, ast.Tuple) and expr.elts:
                expr = expr.elts[0]
            neg = isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub)
            ln = isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == "len"
            ctx.check("order", False if neg else True if ln else None, "ordered by a key", e)
        else:
            ctx.check("order", False if x is not None and strip(r.norm(x)).op == "arg" else None, "variables are ordered by their names", e)


@rule("C11", "unset", 3)
def c11_unset(ctx):
    """An unset output dimension that is mapped takes over the size of its input dimension; a set one keeps its own (except a string length)."""
    c, r = flow(ctx)
    sets = [e for e in r.calls() + [x for x in r.events if x.kind == "enter"] if e.f is not None and name_of(e.f) == "set" and len(e.args) == 1]
    got = mapping_method(ctx)
    if got is not None:
        f, r = got.f, got.r
        sets = [e for e in r.calls() + [x for x in r.events if x.kind == "enter"] if e.f is not None and name_of(e.f) == "set" and len(e.args) == 1]
    sets = [e for e in sets if e.f.op == "attr" or e.obj is not None]
    norm = got.norm if got is not None and r is got.r else r.norm
    if not sets:
        ctx.bad("set", "no output dimension ever takes over the size of its input dimension", c.methods["__init__"])
        return
    outcomes = []
    for e in sets:
        target = norm(e.f.args[0] if e.f.op == "attr" else e.obj)
        x = norm(e.args[0])
        ods = target.op == "sub" and target.args[0].op == "attr" and target.args[0].args[1] == "dimensions"
        ids = x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "dimensions" and contains(x.args[0], lambda y: y.op == "attr" and y.args[1] == "_ids" or y.op == "arg")
        if ods and x.op == "ite":
            # the input dimension depends on conditions: the mapped one where there is one
            alt = [y for l, y in leaves(x) if y.op == "sub" and y.args[1] is target.args[1]]
            if alt:
                ctx.bad("mapped", "takes the size of the input dimension of the same name", e)
                continue
        if not (ods and ids):
            ctx.unknown("set", "%s.set(%s)" % (term(target, 80), term(x, 80)), e)
            continue
        d = target.args[1]
        m = x.args[1]
        m = next((y for l, y in leaves(m) if y is not NONE), m) if all(y is NONE or y.op == "sub" for l, y in leaves(m)) else m
        ctx.check("mapped", True if m.op == "sub" and m.args[1] is d else False if m is d else None,
                  "takes the size of the input dimension %s" % term(m, 80), e)
        # which conditions
        gs = [norm(g) for g in e.guards]
        own = [g for g in gs if contains(g, lambda y: y is d or y is target) and g.op != "forall"]
        isset = {a for g in own for a in walk(g) if is_call(a, "is_set") or a.op == "cmp" and contains(a, lambda y: y.op == "attr" and y.args[1] in ("_size", "size")) and NONE in a.args}
        memb = {a for g in own for a in walk(g) if a.op == "cmp" and a.args[0] == "in"}
        strl = {a for g in own for a in walk(g) if a.op == "attr" and a.args[1] == "stringlen"}

        def value(set_, string):
            d_ = {a: TRUE for a in memb}
            for a in isset:
                none = a.op == "cmp" and a.args[0] in ("is", "==")
                d_[a] = TRUE if set_ is not none else FALSE
            for a in strl:
                d_[a] = TRUE if string else FALSE
            vs = [holds(g, d_) for g in own]
            return False if False in vs else None if None in vs else True
        got1, got2 = value(False, False), value(True, False)
        outcomes.append((got1, got2, e))
    if outcomes:
        gs = [o[0] for o in outcomes]
        ctx.check("unset dimension", True if True in gs else None if None in gs else False,
                  "an unset output dimension does not take over the size of its input dimension", outcomes[0][2])
    for got1, got2, e in outcomes:
        ctx.check("set dimension", None if got2 is None else not got2, "an output dimension with a size of its own is changed", e)


@rule("C11", "map-node", 6)
def c11_node(ctx):
    """A mapping node asks its input for the requested index with the output names replaced by input names, names of the other kind passed
    through, and returns the data with the input names replaced by output names."""
    c = ctx.p.cls("flownodes.MapNode")
    r0 = ctx.run(c.methods["__init__"], cls=c)
    r0.an.state = r0.state
    f = c.methods["__getitem__"]
    ix = mk("arg", f.params()[1])
    i2o, o2i = r0.norm(r0.an.getattr(SELF, "_i2omap")), r0.norm(r0.an.getattr(SELF, "_o2imap"))
    dmap = mk("arg", c.methods["__init__"].params()[3])

    def isinv(m, of):
        if m.op != "coll" or len(m.args[1]) != 1:
            return None
        en = m.args[1][0]
        if inverse_coll(en, of):
            return True
        if en[1] is mk("elem", of) and en[2] is mk("sub", of, en[1]):
            return False
        if en[3] and inverse_coll(en[:3] + ((),) + en[4:], of):
            # only some pairs are inverted
            return False if all(a.op == "cmp" and a.args[0] == "in" for g in en[3] for a in atoms(g)) else None
        return None
    def copied(m, of):
        return m.op == "coll" and len(m.args[1]) == 1 and not m.args[1][0][3] and m.args[1][0][1] is mk("elem", of) and m.args[1][0][2] is mk("sub", of, mk("elem", of)) or \
            m.op == "coll" and len(m.args[1]) == 1 and m.args[1][0][0] == "update" and strip(m.args[1][0][2]) is of
    ctx.check("forward map", True if strip(i2o) is dmap or copied(i2o, dmap) or i2o.op in ("call", "new") and contains(i2o, lambda x: x is dmap) else
              False if isinv(i2o, dmap) else None, "the input to output map is %s" % term(i2o), c.methods["__init__"])
    ctx.check("reverse map", False if strip(o2i) is dmap else isinv(o2i, dmap), "the output to input map is %s" % term(o2i), c.methods["__init__"])
    r = ctx.run(f, cls=c)
    F, R = attr(SELF, "_i2omap"), attr(SELF, "_o2imap")

    def mapped(t, m, x):
        """is t the name x translated by map m, passing through names m does not contain: True, False, None"""
        want = rebuild(mk("ite", cmp_("in", x, m), mk("sub", m, x), x), lambda y: y)
        if t is want:
            return True
        if is_call(t, "get") and t.args[0].args[0] is m and t.args[1][:1] == (x,):
            return len(t.args[1]) == 2 and t.args[1][1] is x
        if t is x or t is mk("sub", m, x):
            return False
        if t.op == "ite" and {t.args[1], t.args[2]} == {mk("sub", m, x), NONE}:
            return False
        if t.op in ("ite", "sub") and contains(t, lambda y: y is (R if m is F else F)) and not contains(t, lambda y: y is m):
            return False
        return None
    inp = None
    for e in r.events:
        if e.kind != "getitem":
            continue
        o = r.norm(e.obj)
        if not (o.op == "sub" and o.args[0].op == "attr" and o.args[0].args[1] in ("inputs", "_inputs")):
            continue
        inp = o
        for lits, k in leaves(r.norm(e.name)):
            if k is NONE:
                ctx.ok("null request", "", e)
                if any(l.op == "not" and l.args[0] is cmp_("is", ix, NONE) for l in lits):
                    ctx.bad("null request", "data requests are answered with metadata", e)
                continue
            if k is ix:
                given = [l for l in lits if l.op == "isinstance" and "dict" in type_names(l.args[1])]
                null = [l for l in lits if l is cmp_("is", ix, NONE)]
                tup = [l for l in lits if l.op == "not" and l.args[0].op == "isinstance" and "dict" in type_names(l.args[0].args[1])]
                if null:
                    ctx.ok("null request", "", e)
                elif tup and not given:
                    ctx.ok("positional request", "positions are the same for both names", e)
                else:
                    ctx.bad("named request" if given else "request", "the requested names are passed on untranslated", e)
                continue
            if k.op == "coll" and k.args[0] == "dict" and len(k.args[1]) == 1:
                op, key, val, g, l = k.args[1][0]
                named = val.op == "sub" and val.args[0] is ix
                label = "named request" if named else "positional request"
                if g:
                    only = all(a.op == "cmp" and a.args[0] == "in" and a.args[2] in (F, R) for y in g for a in atoms(y))
                    ctx.check(label, False if only else None, "requested only if %s" % [term(x) for x in g], e)
                    continue
                if named:
                    x = val.args[1]
                    ctx.check(label, mapped(key, R, x), "asks for %s where %s was requested" % (term(key, 120), term(x, 60)), e)
                else:
                    z = l[0] if l else None
                    names = strip(z.args[1][0]) if z is not None and is_call(z, "zip") and z.args[1] else None
                    if z is not None and is_call(z, "zip") and [rearranged(a) for a in z.args[1]].count(True) == 1:
                        ctx.bad(label, "positions are matched with rearranged names %s" % term(z, 120), e)
                        continue
                    view = seqview(names) if names is not None else None
                    own = attr(mk("sub", inp, NONE), "dimensions")
                    if names is not None and (names is own or key is mk("elem", own)):
                        ctx.ok(label, "positions are those of the input dimensions", e)
                    elif view and len(view) == 1:
                        ctx.check(label, mapped(key, R, view[0][0]), "asks for %s" % term(key, 160), e)
                    else:
                        ctx.unknown(label, term(k), e)
            else:
                ctx.unknown("request", term(k), e)
    v = r.norm(r.value)
    for lits, x in leaves(v):
        if not is_new(x, "PhysArray"):
            ctx.check("result", False if x.op == "sub" and x.args[0] is inp else None, "returns %s" % term(x, 100), f)
            continue
        data = x.args[1][0] if x.args[1] else kwarg(x, "data")
        ctx.check("result data", True if data is not None and data.op == "sub" and data.args[0] is inp else None, "returns %s" % term(data or NONE, 100), f)
        for n in ("units", "positive", "initialshape", "mask"):
            w = kwarg(x, n)
            if w is not None and n in ("units", "positive"):
                same = w.op == "attr" and w.args[1] == n
                ctx.check("result %s" % n, True if same else False if w.op == "const" else None, "the %s are set to %s" % (n, term(w)), f)
        ds = kwarg(x, "dimensions", 3)
        if ds is not None and rearranged(ds):
            ctx.bad("result dimensions", "the dimensions are rearranged: %s" % term(ds, 120), f)
            continue
        own = attr(mk("sub", inp, NONE), "dimensions")
        view = seqview(ds) if ds is not None else None
        if ds is None:
            ctx.bad("result dimensions", "the dimensions are not renamed", f)
        elif view and len(view) == 1 and not view[0][1]:
            el = [y for y in walk(view[0][0]) if y.op == "elem"]
            ok = el and (el[0].args[0] is own or el[0].args[0].op == "attr" and el[0].args[0].args[1] == "dimensions")
            ctx.check("result dimensions", mapped(view[0][0], F, el[0]) if ok else None, "renamed to %s" % term(ds, 160), f)
        else:
            ctx.check("result dimensions", False if strip(ds) is own else None, "renamed to %s" % term(ds, 160), f)


@rule("C11", "mapped", 2)
def c11_mapped(ctx):
    """Every output variable computed from a definition is validated behind a mapping node with the flow's input-to-output map."""
    c, r = flow(ctx)
    V = valnodes(ctx)
    m = field(r, i2omap(ctx))
    if V.op != "coll":
        ctx.unknown("validated", term(V, 100), c.methods["__init__"])
        return
    seen = 0
    raw = [(e, a) for e in r.calls() if e.f is not None and name_of(e.f) == "MapNode" for a in [kwarg(e, "dmap", 2)]]
    own, other = r.an.getattr(SELF, i2omap(ctx)), r.an.getattr(SELF, o2imap(ctx))
    for e, a in raw:
        given = r.norm(a) if a is not None else NONE
        ctx.check("map", True if a is own or given is m else False if a is None or a is other or given is NONE else None, "the mapping node is given %s" % term(given, 100), e)
    for x in walk(V):
        if is_new(x, "MapNode"):
            seen += 1
        if x.op == "coll" and x.args[0] == "dict":
            for op, k, v, g, l in x.args[1]:
                vs = [y for lits, y in leaves(v)] if v is not None and not isinstance(v, str) else []
                if any(is_new(y, "MapNode") for y in vs) and not all(is_new(y, "MapNode") for y in vs):
                    ctx.bad("map nodes", "some computed variables are not renamed", c.methods["__init__"])
    ctx.check("validated", seen > 0, "computed variables are validated without renaming their dimensions", c.methods["__init__"])
    for op, k, v, g, l in V.args[1]:
        for x in walk(v):
            if is_new(x, "ValidateNode"):
                n = kwarg(x, "dnode", 1)
                for lits, y in leaves(n):
                    src = [z for z in walk(y) if is_new(z, "EvalNode", "ReadNode")]
                    if src:
                        ctx.check("input of validation", contains(y, lambda z: is_new(z, "MapNode")), "a computed variable is validated without renaming its dimensions", c.methods["__init__"])


@rule("C09", "graph", 7)
def c09_graph(ctx):
    """The search through a graph of nodes reaches every input of every node it finds and yields each of them; an evaluation node's inputs are all its arguments."""
    for n in ("iter_dfs", "iter_bfs"):
        f = ctx.p.func("flownodes." + n)
        if f is None:
            continue
        r = ctx.run(f)
        start = mk("arg", f.params()[0])
        ys = [e for e in r.events if e.kind == "yield"]
        if not ys:
            ctx.check("%s yields" % n, None if r.events else False, "nothing is yielded", f)
            continue

        def node(x):
            return x is start or x.op == "popped" or is_call(x, "popleft", "pop")

        def harmless(g, el=None):
            """conditions that leave no node of the graph out: being a node at all, not having been visited, work being left"""
            if g.op == "not":
                g2 = g.args[0]
                return g2.op == "cmp" and g2.args[0] == "in" and (node(g2.args[1]) or g2.args[1] is el or g2.args[1].op == "elem")
            if g.op == "isinstance":
                return "FlowNode" in type_names(g.args[1])
            if g.op in ("nonempty", "while"):
                return True
            return g.op == "cmp" and g.args[0] in (">", "!=") and any(a.op == "len" for a in g.args[1:])
        for e in ys:
            x = r.norm(e.val)
            ctx.check("%s yields" % n, True if node(x) or x.op == "elem" else None, "yields %s" % term(x, 80), e)
            bad = [g for g in map(r.norm, e.guards) if not harmless(g)]
            ctx.check("%s yields all" % n, True if not bad else False if any(g.op == "isinstance" or g.op == "not" and g.args[0].op == "isinstance" for g in bad) else None,
                      "a node is yielded only if %s" % (term(bad[0], 100) if bad else ""), e)
        work = {x.args[0] for e in ys for x in walk(r.norm(e.val)) if x.op == "popped" and x.args[0].op == "coll"}
        for w in work:
            adds = [en for en in w.args[1] if en[0] in ("append", "insert")]
            nxt = [en for en in adds if en[2].op == "elem" and en[2].args[0].op == "attr" and en[2].args[0].args[1] in ("inputs", "_inputs")]
            some = [en for en in adds if en not in nxt and contains(en[2], lambda y: y.op == "sub" and y.args[0].op == "attr" and y.args[0].args[1] in ("inputs", "_inputs")
                                                                    and (y.args[1].op == "slice" or is_const(y.args[1])))]
            ctx.check("%s inputs" % n, True if nxt else False if some or all(en[2] is start or en[2].op == "sub" for en in adds) else None, "the inputs of a node are not searched", f)
            for en in nxt:
                bad = [g for g in en[3] if not harmless(g, en[2])]
                part = any(l.op == "sub" or is_call(l, "islice") for l in en[4])
                ctx.check("%s all inputs" % n, False if part else True if not bad else False if all(g.op == "isinstance" or g.op == "not" and g.args[0].op in ("isinstance",) for g in bad) else None,
                          "an input is searched only if %s" % (term(bad[0], 100) if bad else "in part of the inputs"), f)
    c = ctx.p.cls("flownodes.EvalNode")
    f = c.methods["__init__"]
    r = ctx.run(f, cls=c)
    r.an.state = r.state
    s = r.norm(r.an.getattr(SELF, "_inputs"))
    if s.op == "attr":
        s = r.norm(r.an.getattr(SELF, "inputs"))
    a, k = mk("arg", "*args"), mk("arg", "**kwds")
    names = {x for x in walk(s) if x.op == "arg"}
    for what in ("*", "**"):
        src = [x for x in names if x.args[0].startswith(what) and (what == "**" or not x.args[0].startswith("**"))]
        ens = [en for y in walk(s) if y.op == "coll" for en in y.args[1] if any(contains(l, lambda z: z in src) for l in en[4])] if src else []
        whole = not ens and any(y.op == "star" and y.args[0] in src or y in src for y in walk(s)) if src else False
        label = "positional arguments" if what == "*" else "keyword arguments"
        if not src:
            ctx.check(label, False if s.op in ("coll", "tuple") else None, "the inputs of an evaluation node are %s" % term(s, 100), f)
        elif whole:
            ctx.ok(label, "", f)
        else:
            bad = [g for en in ens for g in en[3] if not (g.op == "isinstance" and "FlowNode" in type_names(g.args[1]))]
            part = [l for en in ens for l in en[4] if l.op == "sub"]
            kinds = bad and all(g.op == "isinstance" for g in bad)
            ctx.check(label, False if part or kinds else True if ens and not bad else None, "only some arguments become inputs", f)
