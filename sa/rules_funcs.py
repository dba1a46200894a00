"""C08 C09 C22 C23: the functions of the definition language"""
import ast

from .engine import SELF
from .phys import OPAQUE, SUMMARIES
from .q import atoms, cases, exc_name, is_call, is_new, kwarg, name_of, raises_always, seqview, strip_seq, subst
from .rule import rule, term
from .terms import FALSE, NONE, TRUE, attr, children, cmp_, const, contains, cval, is_const, leaves, literals, mk, not_, rebuild, show, truth, walk

ARGS = attr(SELF, "arguments")
KW = attr(SELF, "keywords")
PLAINMAKERS = ("zeros", "ones", "empty", "full", "arange", "linspace", "array", "zeros_like", "resize", "masked_values", "masked_invalid", "masked_where",
               "masked_equal", "asarray", "where", "diff", "flip", "cos", "sin", "exp", "sqrt", "interp", "concatenate", "mean", "sum", "average",
               "amin", "amax", "min", "max", "minimum", "maximum", "vinth2p", "copy", "reshape", "astype", "transpose", "repeat", "masked_array")


def short(c):
    return c.qual.replace("pyconform.", "").replace("modules.", "")


def functions(ctx, operators=True):
    """(class, method) of every class that itself defines how it is evaluated"""
    out = []
    for base in ("Function", "Operator") if operators else ("Function",):
        for c in ctx.p.subclasses(base):
            f = c.methods.get("__getitem__")
            if f is not None and len(f.params()) >= 2:
                out.append((c, f))
    return out


def concrete(ctx):
    """every function class a definition can name"""
    return [c for c in ctx.p.subclasses("Function")]


def evaluation(ctx, c, f, null):
    """one request of a function: with the null index, or with another one"""
    key = ("eval", c.qual, null)
    if key not in ctx.cache:
        ix = mk("arg", f.params()[1])
        ctx.cache[key] = ctx.run(f, cls=c, args={f.params()[1]: NONE if null else ix}, assume={cmp_("is", ix, NONE): FALSE},
                                 opaque=OPAQUE, summaries=SUMMARIES)
    return ctx.cache[key]


def construction(ctx, c):
    key = ("ctor", c.qual)
    if key not in ctx.cache:
        f = c.find_method("__init__")
        ctx.cache[key] = ctx.run(f, cls=c, opaque=OPAQUE, summaries=SUMMARIES) if f is not None else None
    return ctx.cache[key]


def is_input(o, attrs=()):
    """a term that stands for one argument of the function as the user gave it"""
    if o.op == "ite":
        return any(is_input(x, attrs) for x in o.args[1:])
    if o.op in ("sub", "elem"):
        b = o.args[0]
        while b.op == "sub" and b.args[1].op == "slice":
            b = b.args[0]
        if b is ARGS or b is KW:
            return o.op == "elem" or o.args[1].op != "slice"
        if o.op == "sub" and o.args[0].op == "attr" and o.args[0].args[0] is SELF and o.args[0].args[1] in attrs:
            return o.args[1].op == "const" and isinstance(cval(o.args[1]), int)
        if is_call(b, "values", "items") and b.args[0].op == "attr" and b.args[0].args[0] is KW:
            return True
    if is_call(o, "get") and o.args[0].op == "attr" and o.args[0].args[0] is KW:
        return True
    return o.op == "attr" and o.args[0] is SELF and o.args[1] in attrs


def arg_attrs(ctx, c):
    """attributes the constructor sets to one of its arguments"""
    r = construction(ctx, c)
    out = set()
    if r is None:
        return out
    for (o, k), v in r.state.heap.items():
        if o is SELF and k not in ("arguments", "keywords") and r.norm(v).op == "arg":
            out.add(k)
    return out


def requests(r, attrs=()):
    """(event, argument, index) of everything asked of an argument"""
    out = []
    for e in r.events:
        if e.kind != "getitem":
            continue
        o = r.norm(e.obj)
        if is_input(o, attrs):
            out.append((e, o, r.norm(e.name)))
    return out


def keyleaves(k):
    return [x for g, x in leaves(k)]


@rule("C08", "function-null", 60)
def c08_null(ctx):
    """Every function and operator, requested with the null index (propagated as a constant), asks its arguments only with the null index."""
    for c, f in functions(ctx):
        r = evaluation(ctx, c, f, True)
        attrs = arg_attrs(ctx, c)
        d = evaluation(ctx, c, f, False)
        nodes = {o for e, o, k in requests(r, attrs) + requests(d, attrs) if any(x is NONE or x is mk("arg", f.params()[1]) for x in keyleaves(k))}
        seen = set()
        for e, o, k in requests(r, attrs):
            for x in keyleaves(k):
                key = "%s %s" % (short(c), show(o, 5))
                if x is NONE:
                    if key not in seen:
                        ctx.ok(key, "", e)
                elif x.op in ("const", "slice", "tuple", "coll") and (o in nodes or x.op == "slice"):
                    ctx.bad(key, "for a metadata request the argument is asked for %s" % term(x), e)
                else:
                    ctx.unknown(key, term(x), e)
                seen.add(key)


def reindexed(x, ix):
    """is x a dict all of whose values come from the index requested?"""
    return x.op == "coll" and x.args[0] == "dict" and bool(x.args[1]) and \
        all(en[0] == "set" and en[2].op == "sub" and en[2].args[0] is ix for en in x.args[1])


def translation(x, ix, o):
    """is x the requested index with its keys translated to the names of the dimensions of the argument o?"""
    own = attr(mk("sub", o, NONE), "dimensions")
    if not reindexed(x, ix):
        return False
    for op, k, v, guards, loops in x.args[1]:
        given = cmp_("in", v.args[1], ix)
        if not (k is not None and k.op == "elem" and strip_seq(k.args[0]) is own and any(g is given for g in guards)):
            return False
        if v.args[1] is k or not contains(v.args[1], lambda y: y.op == "attr" and y.args[1] == "arguments"):
            return False
    return True


NO_IDENTITY = {"amax", "amin", "max", "min", "argmax", "argmin", "ptp", "nanmax", "nanmin", "nanargmax", "nanargmin"}


@rule("C08", "function-empty", 40)
def c08_empty(ctx):
    """Requested with the null index, no function takes an extremum of its arguments' data: these have no elements then, and the request would fail."""
    for c, f in functions(ctx):
        r = evaluation(ctx, c, f, True)
        attrs = arg_attrs(ctx, c)
        found = []
        for e in r.calls():
            n = (name_of(e.f) or "").split(".")[-1]
            if n not in NO_IDENTITY or e.loops:
                continue
            method = e.f.op == "attr"
            x = r.norm(e.f.args[0]) if method and not contains(e.f.args[0], lambda y: y.op == "ext") else r.norm(e.args[0]) if e.args else None
            if x is None or not method and e.f.op != "ext" or any(k == "initial" for k, v in e.kw or ()):
                continue
            data = base_of(x)
            if data.op == "sub" and data.args[1] is NONE and is_input(data.args[0], attrs):
                found.append((e, x))
        for e, x in found:
            ctx.bad(short(c), "for a metadata request the extremum of %s, which has no elements, is taken" % term(x), e)
        if not found:
            ctx.ok(short(c), "", ctx.place(f))


def base_of(x):
    """the array that has the same elements"""
    while True:
        if is_call(x, "asarray", "array", "asanyarray", "masked_array", "ma.asarray", "ma.array", "view", "filled", "transpose", "abs", "absolute") and x.args[1:] and x.args[1] and not (x.args[0].op == "attr" and not contains(x.args[0], lambda y: y.op == "ext")):
            x = x.args[1][0]
        elif is_call(x, "view", "filled", "transpose", "ravel", "convert") and x.args[0].op == "attr":
            x = x.args[0].args[0]
        elif x.op == "attr" and x.args[1] == "data":
            x = x.args[0]
        elif x.op in ("conv", "perm", "neg", "maybeneg"):
            x = x.args[0]
        else:
            return x


@rule("C08", "function-index", 60)
def c08_index(ctx):
    """Every function and operator, requested with any other index, asks its arguments with exactly that index (or for their metadata)."""
    for c, f in functions(ctx):
        r = evaluation(ctx, c, f, False)
        ix = mk("arg", f.params()[1])
        attrs = arg_attrs(ctx, c)
        nodes = {o for e, o, k in requests(r, attrs) + requests(evaluation(ctx, c, f, True), attrs)
                 if any(x is NONE or x is ix for x in keyleaves(k))}
        for e, o, k in requests(r, attrs):
            key = "%s %s" % (short(c), show(o, 5))
            for x in keyleaves(k):
                if x is ix or x is NONE:
                    ctx.ok(key, "", e)
                elif translation(x, ix, o):
                    ctx.ok(key, "the index, translated to the argument's dimensions", e)
                elif contains(x, lambda y: y is ix) and x.op == "coll" and reindexed(x, ix):
                    ctx.unknown(key, term(x), e)
                elif contains(x, lambda y: y is ix):
                    whole = o.op == "sub" and o.args[0] is KW
                    ctx.check(key, True if whole else False if o in nodes else None,
                              "the argument is asked for %s, which is not the index requested" % term(x), e)
                elif o in nodes and x.op in ("const", "slice", "tuple", "coll") or x.op == "slice" and o.op == "sub" and o.args[0] is KW:
                    ctx.bad(key, "the argument is asked for %s whatever the index requested" % term(x), e)
                else:
                    ctx.unknown(key, term(x), e)


@rule("C08", "constructor", 20)
def c08_ctor(ctx):
    """Constructors of functions, operators and nodes ask their inputs for metadata only."""
    classes = concrete(ctx) + list(ctx.p.subclasses("Operator"))
    for c in classes:
        f = c.methods.get("__init__")
        if f is None:
            continue
        r = construction(ctx, c)
        for e in r.events:
            if e.kind != "getitem":
                continue
            o = r.norm(e.obj)
            k = r.norm(e.name)
            arg = o.op == "arg" and o.args[0] != "self" and not o.args[0].startswith("*") or o.op == "elem" and o.args[0].op == "arg" or \
                o.op == "ite" and any(x.op == "arg" for g, x in leaves(o))
            if not arg:
                continue
            key = "%s %s" % (short(c), show(o, 4))
            for x in keyleaves(k):
                if x is NONE:
                    ctx.ok(key, "", e)
                elif x.op in ("slice", "tuple", "coll"):
                    ctx.bad(key, "constructing the function reads data: asks for %s" % term(x), e)
                else:
                    ctx.unknown(key, term(x), e)


# ---------------------------------------------------------------------- metadata of results

def translate(t, ix):
    """the requested index replaced by the null index where arguments are asked for it"""
    def asks(k):
        return all(x is ix or x is NONE or reindexed(x, ix) for x in keyleaves(k))
    return rebuild(t, lambda x: mk("sub", x.args[0], NONE) if x.op == "sub" and (x.args[1] is ix or contains(x.args[1], lambda y: y is ix) and
                                                                               x.args[1].op in ("ite", "coll") and asks(x.args[1])) else x)


def plain(t, depth=0, bound=False):
    """True if the array is certainly a bare numpy array (`bound`: assuming every name is bound when it is read) (no names, units or direction), False if certainly a physical array, else None"""
    if depth > 80:
        return None
    go = lambda x: plain(x, depth + 1, bound)
    if t.op == "const":
        return None if t is NONE else True
    if t.op == "attr" and t.args[1] in ("data", "mask", "shape"):
        return True
    if is_new(t, "PhysArray", "CharArray"):
        return False
    if t.op == "sub" and t.args[1] is NONE and is_input(t.args[0]):
        return False
    if t.op == "sub":
        return go(t.args[0])
    if t.op == "bin":
        a, b = go(t.args[1]), go(t.args[2])
        return True if a and b else False if a is False or b is False else None
    if t.op == "un":
        return go(t.args[1])
    if t.op == "ite":
        rs = {go(x) for x in t.args[1:] if not bound or x.op not in ("unbound", "never")}
        return rs.pop() if len(rs) == 1 else None
    if bound and t.op in ("len", "cmp", "nonempty"):
        return True
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0].split(".")[0] in ("numpy", "Ngl", "len", "float", "int"):
        n = t.args[0].args[0].split(".")[-1]
        if n in ("zeros", "ones", "empty", "full", "arange", "linspace", "len", "int", "float"):
            return True
        if n in PLAINMAKERS:
            rs = [go(x) for x in t.args[1] if x.op not in ("tuple", "coll", "const")]
            if all(x is True for x in rs):
                return True
            if any(x is False for x in rs) and n not in ("where", "interp"):
                return False if n in ("sqrt", "cos", "sin", "exp") else None
        return None
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "astype", "reshape", "transpose", "filled"):
        return go(t.args[0].args[0])
    return None


ANON = const("<anonymous axes>")


def settle(t, name):
    """metadata of bare arrays: dimensionless, without direction, with anonymous axes"""
    def f(x):
        if x.op == "attr" and x.args[1] == name and plain(x.args[0]):
            return {"dimensions": ANON, "units": const(1), "positive": NONE}[name]
        return x
    return rebuild(t, f)


def unit_text(t):
    return const(1) if is_new(t, "Unit") and t.args[1] and is_const(t.args[1][0], 1) else t


def seq_dims(t):
    v = seqview(t)
    if v is None or any(g or l for x, g, l in v):
        return None
    return tuple(x for x, g, l in v)


def agreement(a, b, name):
    """do two metadata terms agree: True, False, None"""
    if a is b:
        return True
    if name == "units":
        a, b = unit_text(a), unit_text(b)
        if a is b:
            return True
    if name == "dimensions":
        x, y = seq_dims(a), seq_dims(b)
        if x is not None and y is not None:
            if x == y:
                return True
            if len(x) != len(y):
                return False
            return False
        for p, q in ((x, b), (y, a)):
            if p is not None and all(z.op == "sub" and z.args[0] is q and is_const(z.args[1], i) for i, z in enumerate(p)):
                return None      # the first n names of q: equal if q has n
    if a is ANON or b is ANON:
        return False
    if a.op == "const" and b.op == "const":
        return False
    known = lambda t: t.op == "const" or t.op == "attr" and t.args[0].op == "sub" and t.args[0].args[1] is NONE and is_input(t.args[0].args[0])
    if known(a) and known(b):
        return False
    return None


def metadata(r, name, ix):
    r.an.state = r.state
    t = r.norm(r.an.getattr(r.value, name))
    return settle(translate(t, ix), name)


@rule("C23", "announced", 100)
def c23_announced(ctx):
    """For every function, the dimensions, units and direction of the result for the null index equal those for any other index, when
    each argument's metadata are taken to be the same in both; compared case by case over the conditions selecting the result."""
    for c, f in functions(ctx, False):
        ix = mk("arg", f.params()[1])
        n, d = evaluation(ctx, c, f, True), evaluation(ctx, c, f, False)
        if d.value.op == "const" and d.value is NONE:
            continue
        for name in ("dimensions", "units", "positive"):
            key = "%s %s" % (short(c), name)
            a, b = metadata(n, name, ix), metadata(d, name, ix)
            if a is b:
                ctx.ok(key, "", f)
                continue
            cs = cases(a, b)
            if cs is None:
                ctx.unknown(key, "too many cases", f)
                continue
            worst, why = True, ""
            for v, (x, y) in cs:
                if x.op in ("never", "unbound") or y.op in ("never", "unbound") or x.op == "attr" and x.args[0].op in ("never", "unbound"):
                    continue
                if x is NONE and y is not NONE and contains(n.value, lambda z: z is NONE) and name != "positive" and n.value is NONE:
                    continue
                g = agreement(settle(x, name), settle(y, name), name)
                if g is False:
                    worst, why = False, "announced %s, delivered %s" % (term(x), term(y))
                    break
                if g is None:
                    worst, why = None, "announced %s, delivered %s" % (term(x), term(y))
            ctx.check(key, worst, why, f)


@rule("C23", "named-axes", 40)
def c23_named(ctx):
    """No function returns data whose axes have no names: wherever the array it builds is a bare numpy array, dimension names are given."""
    for c, f in functions(ctx, False):
        ix = mk("arg", f.params()[1])
        for null in (True, False):
            r = evaluation(ctx, c, f, null)
            t = metadata(r, "dimensions", ix)
            key = "%s%s" % (short(c), " announced" if null else "")
            bad = [x for g, x in leaves(t) if x is ANON]
            ctx.check(key, not bad, "the axes of the result have no dimension names", f)


@rule("C23", "honours-arguments", 30)
def c23_used(ctx):
    """Every argument a function declares is used when it is evaluated or when it is constructed, beyond being stored."""
    for c in concrete(ctx):
        f = c.methods.get("__init__")
        g = c.find_method("__getitem__")
        if f is None or g is None or g.cls.name == "Function":
            continue
        r = construction(ctx, c)
        ev = evaluation(ctx, g.cls, g, False)
        terms = [x for e in ev.events for x in (e.args or ()) + tuple(v for k, v in (e.kw or ())) + (e.obj, e.val, e.name)
                 if x is not None and hasattr(x, "op")] + [ev.value] + [y for e in ev.events for y in e.guards + e.loops]
        used = set()
        whole = False
        for t in terms:
            for x in walk(t):
                if x.op == "sub" and x.args[0] in (ARGS, KW) and x.args[1].op == "const":
                    used.add(cval(x.args[1]))
                elif x.op == "sub" and x.args[0] is ARGS and x.args[1].op == "slice":
                    lo = cval(x.args[1].args[0]) if x.args[1].args[0].op == "const" else 0
                    used.add(("from", lo or 0))
                elif x.op == "elem" and x.args[0] in (ARGS, KW):
                    whole = True
                elif is_call(x, "get") and x.args[0].op == "attr" and x.args[0].args[0] is KW and x.args[1]:
                    used.add(cval(x.args[1][0]) if x.args[1][0].op == "const" else None)
                elif x.op in ("star", "dstar") and x.args[0] in (ARGS, KW):
                    whole = True
                elif x.op == "attr" and x.args[0] is SELF:
                    used.add("." + x.args[1])
        args, kw = passed(r)
        if args is None:
            ctx.unknown(short(c), "arguments not traced", f)
            continue
        own = {}
        for (o, k), v in r.state.heap.items():
            if o is SELF and k not in ("arguments", "keywords"):
                own["." + k] = r.norm(v)
        # what is only looked at to refuse it has no effect on the result
        beyond = [x for e in r.events if e.kind in ("call", "getitem", "cmp") and not (e.f is not None and e.f.op == "supermeth") and not (e.kind == "call" and e.res is not None and e.res in refusals(r)) for x in
                  (e.args or ()) + tuple(v for k, v in (e.kw or ())) + (e.obj, e.name) if x is not None and hasattr(x, "op")]
        for p in f.params()[1:]:
            t = mk("arg", p)
            pos = next((i for i, a in enumerate(args) if a is t), None)
            name = next((k for k, v in kw if v is t), None)
            good = whole or pos in used and pos is not None or name in used and name is not None or \
                any(isinstance(u, tuple) and pos is not None and pos >= u[1] for u in used) or \
                any(k in used and contains(v, lambda y: y is t) for k, v in own.items()) or \
                any(contains(x, lambda y: y is t) for x in beyond)
            key = "%s %s" % (short(c), p)
            ctx.check(key, good, "the argument %s has no effect on the result" % p, f)


def refusals(r):
    """what raised exceptions are made of"""
    return {x for e in r.events if e.kind == "raise" and e.val is not None for x in walk(e.val)}


def passed(r):
    """what the constructor stores as positional and keyword arguments"""
    h = r.state.heap
    a, k = h.get((SELF, "arguments")), h.get((SELF, "keywords"))
    if a is None or k is None:
        return None, None
    a, k = r.norm(a), r.norm(k)
    args = []
    v = seqview(a)
    if v is None:
        if a.op == "arg":
            args = [mk("star", a)]
        else:
            return None, None
    else:
        for x, g, l in v:
            if x.op == "elem":
                args.append(mk("star", x.args[0]))
            else:
                args.append(x)
    kws = []
    if k.op == "coll" and k.args[0] == "dict":
        for op, key, val, g, l in k.args[1]:
            kws.append((cval(key) if key is not None and key.op == "const" else None, val))
    elif k.op == "arg":
        kws = [(None, k)]
    elif k.op == "const" or k.op == "tuple" and not k.args:
        pass
    else:
        return args, []
    return args, kws


def key_of(c):
    k = c.find_attr("key")
    if k is None:
        return None
    v = k[1]
    v = getattr(v, "value", v)
    return v if isinstance(v, str) else None


@rule("C22", "unique-key", 30)
def c22_unique(ctx):
    """No two classes derived from Function have the same key unless they are in modules of which the documentation says not both are
    loaded; the lookup refuses a key that two loaded classes share."""
    by = {}
    for c in concrete(ctx):
        by.setdefault(key_of(c), []).append(c)
    for k, cs in sorted(by.items(), key=lambda x: str(x[0])):
        if k is None:
            for c in cs:
                ctx.unknown(short(c), "key is not a constant", "")
            continue
        ctx.check("key %s of %s" % (k, " and ".join(sorted(short(c) for c in cs))), len(cs) == 1, "several functions have this key", cs[-1].module.rel + ":%d" % cs[-1].node.lineno)


@rule("C22", "own-key", 30)
def c22_own(ctx):
    """Every function class that a definition can name defines its own key; it does not inherit the key of the class it derives from."""
    for c in concrete(ctx):
        own = any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "key" for t in n.targets) for n in c.node.body) or \
            any(isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == "key" for n in c.node.body)
        ctx.check(short(c), own, "has no key of its own", c.module.rel + ":%d" % c.node.lineno)


@rule("C22", "passes-arguments", 40)
def c22_passes(ctx):
    """The constructor of every function stores exactly its own parameters, each once, positional ones first in declared order and the
    others under their own names; what the evaluation reads back by position or keyword is what the constructor stored there."""
    for c in concrete(ctx) + [x for x in ctx.p.subclasses("Operator")]:
        f = c.methods.get("__init__")
        if f is None:
            continue
        r = construction(ctx, c)
        args, kw = passed(r)
        key = short(c)
        if args is None:
            ctx.unknown(key, "stored arguments not traced", f)
            continue
        a = f.node.args
        params = f.params()[1:]
        if a.kwarg is not None or any(x.op == "star" and x.args[0].op != "arg" for x in args):
            ctx.unknown(key, "forwards arbitrary keywords", f)
            continue
        missing, wrong = [], []
        plain_args = [x for x in args]
        names = []
        for x in plain_args:
            t = x.args[0] if x.op == "star" else x
            names.append(t.args[0].lstrip("*") if t.op == "arg" else None)
        for k, v in kw:
            if v.op == "arg" and k is not None and v.args[0] != k and v.args[0] in params:
                wrong.append("%s is stored as %s" % (v.args[0], k))
        stored = set(n for n in names if n) | {v.args[0] for k, v in kw if v.op == "arg"}
        own = {x for (o, k2), v in r.state.heap.items() if o is SELF for x in [y.args[0] for y in walk(r.norm(v)) if y.op == "arg"]}
        for p in params:
            if p not in stored:
                missing.append(p)
        if a.vararg is not None and a.vararg.arg not in stored:
            missing.append("*" + a.vararg.arg)
        order = [n for n in names if n in params]
        if order != sorted(order, key=params.index):
            wrong.append("positional arguments are stored in the order %s" % ", ".join(order))
        if len(set(order)) != len(order):
            wrong.append("an argument is stored twice")
        miss = [p for p in missing if p.lstrip("*") not in own]
        if any(v.op != "arg" for k, v in kw) or any(n is None for n in names):
            und = [x for x in args if x.op not in ("arg", "star")] + [v for k, v in kw if v.op != "arg"]
            if any(x.op == "const" for x in und) and not missing:
                pass
        ctx.check(key, not wrong and not miss, "; ".join(wrong + ["%s is not stored" % m for m in miss]), f)


@rule("C22", "reads-arguments", 60)
def c22_reads(ctx):
    """Every position and keyword that an evaluation reads from the stored arguments exists for each class that uses the evaluation."""
    for c in concrete(ctx) + [x for x in ctx.p.subclasses("Operator")]:
        ctor = c.find_method("__init__")
        g = c.find_method("__getitem__")
        if ctor is None or g is None or g.cls.name in ("Function", "FunctionBase", "Operator") or c.methods.get("__init__") is None and g.cls is not c:
            continue
        args, kw = passed(construction(ctx, c))
        if args is None:
            continue
        kws = {k for k, v in kw}
        var = any(x.op == "star" for x in args)
        done = set()
        for null in (True, False):
            r = evaluation(ctx, g.cls, g, null)
            for e in r.events:
                if e.kind != "getitem" or e.obj is None:
                    continue
                o, k = r.norm(e.obj), r.norm(e.name)
                if k.op != "const" or (o, k) in done:
                    continue
                done.add((o, k))
                v = cval(k)
                if o is ARGS and isinstance(v, int):
                    ctx.check("%s [%d]" % (short(c), v), var or -len(args) <= v < len(args), "argument %d is read but only %d are stored" % (v, len(args)), e)
                elif o is KW and isinstance(v, str):
                    ctx.check("%s[%r]" % (short(c), v), v in kws or None in kws, "keyword %r is read but never stored" % v, e)


@rule("C22", "operator-table", 5)
def c22_table(ctx):
    """The operator table maps each operator text and number of operands to the class whose key, number of operands and operation are those."""
    mod = ctx.p.module("functions")
    node = mod.assigns.get("__OPERATORS__") if hasattr(mod, "assigns") else None
    if node is None:
        for n in mod.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__OPERATORS__" for t in n.targets):
                node = n.value
    if not isinstance(node, ast.Dict):
        ctx.unknown("__OPERATORS__", "the table is not a literal", mod.rel)
        return
    seen = set()
    for k, v in zip(node.keys, node.values):
        if not (isinstance(k, ast.Constant) and isinstance(v, ast.Dict)):
            ctx.unknown("__OPERATORS__", "an entry is not a literal", mod.rel)
            continue
        for n, cn in zip(v.keys, v.values):
            if not (isinstance(n, ast.Constant) and isinstance(cn, ast.Name)):
                continue
            c = next((x for x in ctx.p.subclasses("Operator") if x.name == cn.id), None)
            key = "%s/%s" % (k.value, n.value)
            seen.add(cn.id)
            if c is None:
                ctx.bad(key, "names no class", mod.rel)
                continue
            num = c.find_attr("numargs")
            num = getattr(num[1], "value", num[1]) if num else None
            ctx.check(key, key_of(c) == k.value and num == n.value, "selects %s, which is %r with %r operands" % (cn.id, key_of(c), num),
                      "%s:%d" % (mod.rel, cn.lineno))
    for c in ctx.p.subclasses("Operator"):
        if c.methods.get("__getitem__") is not None and c.module is mod:
            ctx.check("%s listed" % c.name, c.name in seen, "the operator class is not in the table", "%s:%d" % (mod.rel, c.node.lineno))


NUM = mk("arg", "numargs")
KEYA = mk("arg", "key")


@rule("C22", "lookup", 6)
def c22_lookup(ctx):
    """Looking up an operator returns only an entry found under the given text and number of operands and otherwise raises KeyError; looking up
    a function returns only a class whose key equals the given one, raises KeyError if there is none and an error if there are two."""
    f = ctx.p.func("functions.find_operator")
    if f is not None and len(f.params()) >= 2:
        k, n = (mk("arg", p) for p in f.params()[:2])
        r = ctx.run(f, assume={cmp_("is", n, NONE): FALSE})
        for g, x in leaves(r.norm(r.value)):
            if x.op in ("never", "keyerror") or x.op == "sub" and x.args[0].op == "keyerror":
                continue
            if x.op != "class":
                ctx.unknown("operator found", term(x), f)
                continue
            c = x.args[0]
            num = c.find_attr("numargs")
            num = getattr(num[1], "value", num[1]) if num else None
            got = [(a.args[2 if a.args[1] is t else 1], t) for a in g if a.op == "cmp" and a.args[0] == "==" for t in (k, n) if t in a.args[1:]]
            good = (const(key_of(c)), k) in got and (const(num), n) in got
            ctx.check("operator found %s" % c.name, good, "is returned when %s" % " and ".join(term(a) for a in g), f)
        r0 = ctx.run(f, args={f.params()[1]: NONE})
        for g, x in leaves(r0.norm(r0.value)):
            if x.op == "class":
                c = x.args[0]
                same = [o for o in ctx.p.subclasses("Operator") if key_of(o) == key_of(c)]
                good = any(a.op == "cmp" and a.args[0] == "==" and k in a.args[1:] and const(key_of(c)) in a.args[1:] for a in g)
                if len(same) > 1 and any(contains(a, lambda y: y.op == "call") for a in g):
                    continue        # selected only by counting the entries
                ctx.check("operator found %s without number" % c.name, good and len(same) == 1,
                          "is returned when %s although %d operators have that text" % (" and ".join(term(a) for a in g), len(same)), f)
        es = [exc_name(e.val) for e in r.raises()] + [exc_name(e.val) for e in r0.raises()]
        ctx.check("operator errors", all(e in ("KeyError", None) for e in es) and bool(es), "raises %s" % es, f)
    f = ctx.p.func("functions.find_function")
    if f is not None:
        k = mk("arg", f.params()[0])
        r = ctx.run(f, opaque=("_all_subclasses_",))
        es = {exc_name(e.val): e for e in r.raises()}
        ctx.check("unknown function", "KeyError" in es or None, "an unknown function name raises no KeyError", f)
        two = [x for x in es if x not in ("KeyError", None)]
        ctx.check("function defined twice", bool(two) or len([e for e in r.raises()]) > 1, "two classes with the same key are not an error", f)
        eqs = [a for e in r.events for g in e.guards for a in atoms(g) if a.op == "cmp" and contains(a, lambda y: y is k)]
        eqs = [a for a in eqs if a.args[0] in ("==", "in", "!=", "not in")]
        keyed = [a for a in eqs if contains(a, lambda y: y.op == "attr" and y.args[1] == "key")]
        comp = [a for a in keyed if a.args[0] in ("==", "!=") and {a.args[1], a.args[2]} & {k}]
        ctx.check("function key compared", True if comp else False if keyed else None, "the key is compared by %s" % "; ".join(term(a) for a in keyed), f)
    f = ctx.p.func("functions.find")
    if f is not None:
        n = mk("arg", f.params()[1])
        r = ctx.run(f, assume={cmp_("is", n, NONE): FALSE}, opaque=("find_operator", "find_function"))
        v = [x for g, x in leaves(r.norm(r.value)) if x.op != "never"]
        ctx.check("find with number of operands", all(is_call(x, "find_operator") for x in v) if v else None,
                  "a function is selected although a number of operands is given: %s" % ", ".join(term(x) for x in v), f)
        r = ctx.run(f, args={f.params()[1]: NONE}, opaque=("find_operator", "find_function"))
        es = [exc_name(e.val) for e in r.raises()]
        ctx.check("find errors", "KeyError" in es, "raises %s" % es, f)
    f = ctx.p.func("functions._all_subclasses_")
    if f is not None:
        r = ctx.run(f)
        t = r.norm(r.value)
        c = mk("arg", f.params()[0])
        rec = contains(t, lambda y: y.op == "call" and (name_of(y.args[0]) == "_all_subclasses_" or y.op == "rec")) or \
            any(e.f is not None and name_of(e.f) == "_all_subclasses_" for e in r.calls()) or any(e.loops for e in r.calls())
        direct = any(e.f is not None and name_of(e.f) == "__subclasses__" for e in r.calls())
        ctx.check("derived classes found", direct and rec, "classes derived at any depth are not all found", f)


def requests_of(r):
    """{term: number of the argument} for the arguments requested by number"""
    out = {}
    for e in r.events:
        for t in list(e.args or ()) + [v for k, v in e.kw or ()] + [e.obj, e.val, e.res, e.name]:
            if t is None or not hasattr(t, "op"):
                continue
            for x in walk(t):
                if x.op == "sub" and x.args[0].op == "sub" and x.args[0].args[0] is ARGS and x.args[0].args[1].op == "const" and isinstance(cval(x.args[0].args[1]), int):
                    out[x] = cval(x.args[0].args[1])
    return out


DESCRIBING = ("dimensions", "units", "name", "shape", "positive", "dtype", "calendar", "ndim", "size")


def data_of(r, reqs):
    """the numbers of the arguments whose values are used, not only their shape and metadata"""
    used = set()

    def look(t, seen):
        if t in seen:
            return
        seen.add(t)
        if t in reqs:
            used.add(reqs[t])
            return
        if t.op == "attr" and t.args[1] in DESCRIBING and (t.args[0] in reqs or t.args[0].op == "attr" and t.args[0].args[0] in reqs):
            return
        for x in t.args:
            for y in x if isinstance(x, tuple) else (x,):
                if hasattr(y, "op"):
                    look(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if hasattr(z, "op"):
                            look(z, seen)
    seen = set()
    for e in r.events:
        if e.kind in ("binop", "setitem", "aug", "cmp"):
            for t in [e.val, e.obj, e.res] + list(e.args or ()):
                if t is not None and hasattr(t, "op"):
                    look(t, seen)
    for g, x in leaves(r.value):
        if is_new(x, "PhysArray") and x.args[1]:
            look(x.args[1][0], seen)
    return used


@rule("C33", "module-functions", 30)
def c33_modules(ctx):
    """Wherever a function of the modules names what it gives, the name has the name of every argument it requests whose values it uses."""
    for c, f in functions(ctx, False):
        if ".modules." not in "." + f.module.name:
            continue
        d = evaluation(ctx, c, f, False)
        d.an.state = d.state
        t = d.norm(d.an.getattr(d.value, "name"))
        reqs = requests_of(d)
        used = data_of(d, reqs)
        key = short(c)
        texts = [x for g, x in leaves(t) if x.op in ("str", "const", "fmt", "bin")]
        bare = [x for g, x in leaves(d.value) if is_new(x, "PhysArray") and kwarg(x, "name") is None and x.args[1] and plain(rebuild(x.args[1][0], lambda y: const(1) if y.op == "sub" and y.args[0] is ARGS and y.args[1].op == "const" and cval(y.args[1]) not in reqs.values() else y), bound=True)]
        if bare:
            ctx.bad(key, "%s has no name" % term(bare[0]), f)
            continue
        if not texts:
            kept = [x for g, x in leaves(t) if x.op == "attr"]
            ctx.check(key, True if kept else None, "", f)
            continue
        worst, why = True, ""
        for x in texts:
            have = {reqs[y.args[0]] for y in walk(x) if y.op == "attr" and y.args[1] == "name" and y.args[0] in reqs}
            have |= {reqs[y] for y in walk(x) if y in reqs}
            lost = sorted(used - have)
            if lost:
                init = c.find_method("__init__")
                ps = init.params()[1:] if init else []
                worst, why = False, "the name %s does not have that of %s" % (term(x), ", ".join(ps[i] if i < len(ps) else "argument %d" % i for i in lost))
        ctx.check(key, worst, why, f)
