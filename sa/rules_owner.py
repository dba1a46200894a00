"""C31: what the caller passes stays the caller's, and defaults are not shared"""
import ast

from .q import is_call, name_of
from .rule import rule, term
from .rules_alias import writes
from .rules_io import package
from .terms import contains, mk, show

SELF = mk("self")
CONTAINER = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "reverse", "sort", "__setitem__", "__delitem__",
             "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "appendleft", "popleft", "__ior__", "__iadd__"}
MODULES = ("datasets", "flownodes", "dataflow", "functions", "indexing", "parsing", "physarray")


def module_of(f):
    return f.module.name.split(".")[-1] if hasattr(f, "module") else ""


def supplied(t, r, depth=0, seen=()):
    """the arguments of which t is (part of) the container that was passed: through items only, not through attributes of objects"""
    if depth > 30 or t in seen:
        return set()
    seen = seen + (t,)
    go = lambda x: supplied(x, r, depth + 1, seen)
    o, a = t.op, t.args
    if o == "arg":
        return {t}
    if o in ("sub", "elem", "popped", "last"):
        b = a[1] if o == "last" else a[0]
        if b.op == "coll":
            out = set()
            for en in b.args[1]:
                if en[2] is not None and not isinstance(en[2], str):
                    out |= go(en[2])
            return out
        if b.op == "alloc":
            out = set()
            for rec in r.an.recs.get(b, ()):
                if rec.val is not None and rec.op in ("set", "append", "add"):
                    out |= go(r.norm(rec.val))
            return out
        return go(b)
    if o == "ite":
        return go(a[1]) | go(a[2])
    if o in ("or", "and"):
        return set().union(*[go(x) for x in a])
    if o == "phi":
        p = r.an.phis.get(t)
        return go(r.norm(p[0])) | go(r.norm(p[1])) if p is not None else set()
    if o == "loop":
        return go(a[1]) | go(a[2])
    if o == "choice":
        return go(a[0]) | go(a[1])
    if o == "call":
        f = a[0]
        if f.op == "attr" and f.args[1] in ("items", "values", "get", "setdefault", "pop", "popitem"):
            return go(f.args[0])
        if f.op == "ext" and f.args[0].split(".")[-1] in ("iter", "sorted", "reversed", "enumerate", "zip", "list", "tuple", "next", "chain"):
            # the elements are the caller's; the new list is not, which matters only where it is changed itself
            return {("in", x) for x in set().union(*[go(x) for x in a[1]]) if not isinstance(x, tuple)} if a[1] else set()
    return set()


def owner(t, r):
    """arguments whose own container t is"""
    out = set()
    for x in supplied(t, r):
        if isinstance(x, tuple):
            if t.op in ("sub", "elem", "popped", "ite"):
                out.add(x[1])
            continue
        out.add(x)
    return out


def container_params(fn):
    """{parameter: its default is a container that every call shares}"""
    a = fn.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            out[p.arg] = True
        elif isinstance(d, ast.Call) and (getattr(d.func, "id", None) or getattr(d.func, "attr", None)) in ("dict", "list", "set", "OrderedDict", "defaultdict", "deque", "Counter"):
            out[p.arg] = True
    return out


def changed(r, skip=()):
    """[(event, argument)] where a container that was passed is changed"""
    for e, t, kind in writes(r):
        if kind != "memory" or e.kind == "call" and (e.f.op != "attr" or e.f.args[1] not in CONTAINER):
            continue
        x = r.norm(t)
        for p in owner(x, r):
            if p.args[0] in skip or p.args[0].startswith("*"):
                continue
            yield e, p, x


def entries(ctx):
    """what a caller constructs, reads or executes"""
    for f, r in package(ctx):
        if module_of(f) not in MODULES and not is_node(ctx, f):
            continue
        if f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
            continue
        if module_of(f) == "parsing" and f.name[:2] in ("p_", "t_"):
            continue            # grammar actions set the value of the symbol they are given
        if f.name in ("__setitem__", "__array_finalize__", "__setstate__"):
            continue
        yield f, r


def is_node(ctx, f):
    c = getattr(f, "cls", None)
    return c is not None and any(getattr(k, "name", k).split(".")[-1] in ("FlowNode", "FunctionBase") for k in c.mro())


@rule("C31", "unchanged", 100)
def unchanged(ctx):
    """Nothing a constructor, a method or a function of the datasets, nodes and flows does changes a dictionary or list it was given, or one inside it."""
    for f, r in entries(ctx):
        key = "%s.%s" % (f.cls.name, f.name) if getattr(f, "cls", None) else f.name
        arrays = ("data", "obj", "other", "indata")
        bad = False
        for e, p, x in changed(r, arrays):
            bad = True
            ctx.bad("%s %s" % (key, p.args[0]), "%s is changed" % term(x, 60), e)
        if not bad:
            ctx.ok(key, "", f)


@rule("C31", "defaults", 9)
def defaults(ctx):
    """A container that is the default of a parameter is never changed, handed out or kept."""
    for f, r in package(ctx):
        ps = container_params(f)
        for p in ps:
            key = "%s.%s %s" % (f.cls.name, f.name, p) if getattr(f, "cls", None) else "%s %s" % (f.name, p)
            a = mk("arg", p)
            bad = None
            for e, q, x in changed(r):
                if q is a:
                    bad = (e, "the shared default of %s is changed" % p)
            for e in r.events:
                if e.kind == "setattr" and e.val is not None and kept(r, e.val) is not None and a in kept(r, e.val):
                    bad = bad or (e, "the shared default of %s is kept in %s" % (p, e.name))
            if r.value is not None and a in kept(r, r.value):
                bad = bad or (ctx.place(f), "the shared default of %s is returned" % p)
            if bad:
                ctx.bad(key, bad[1], bad[0])
            else:
                ctx.ok(key, "", f)


def kept(r, t):
    """the arguments that t may be, as they were passed"""
    t = r.norm(t)
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "arg":
            out.add(x)
        elif x.op == "ite":
            todo += [r.norm(x.args[1]), r.norm(x.args[2])]
        elif x.op in ("or", "and", "choice"):
            todo += [r.norm(y) for y in x.args]
        elif x.op == "loop":
            todo += [r.norm(x.args[1]), r.norm(x.args[2])]
    return out


def requires_container(r, p):
    """the constructor refuses anything that is not a dictionary or list"""
    for e in r.events:
        if e.kind == "raise":
            for g in e.guards:
                if g.op == "not" and g.args[0].op == "isinstance" and g.args[0].args[0] is p and any(show(k, 2).split(".")[-1] in ("dict", "list", "set") for k in
                                                                                                     (g.args[0].args[1].args if g.args[0].args[1].op == "tuple" else (g.args[0].args[1],))):
                    return True
    return False


def deep(t, p, r):
    """'deep' when t is a full copy of the argument, 'shallow', 'same', or None when it is not made of it"""
    t = r.norm(t)
    if t is p:
        return "same"
    if t.op == "call":
        n = (name_of(t.args[0]) or "").split(".")[-1]
        if n == "deepcopy":
            return "deep"
        if n in ("dict", "list", "OrderedDict", "copy", "tuple", "set", "sorted"):
            src = t.args[1][0] if t.args[1] else t.args[0].args[0] if t.args[0].op == "attr" else None
            d = deep(src, p, r) if src is not None else None
            return "shallow" if d == "same" else d
    if t.op == "ite":
        return worst(deep(t.args[1], p, r), deep(t.args[2], p, r))
    if t.op == "or":
        return worst(*[deep(x, p, r) for x in t.args])
    if t.op in ("coll", "alloc"):
        parts = []
        recs = [(en[2], en[0]) for en in t.args[1]] if t.op == "coll" else [(x.val, x.op) for x in r.an.recs.get(t, ())]
        for v, op in recs:
            if v is None or isinstance(v, str):
                continue
            v = r.norm(v)
            if v is p:
                parts.append("shallow" if op in ("update", "extend") else "same")
            elif is_call(v, "deepcopy") or v.op == "sub" and is_call(r.norm(v.args[0]), "deepcopy"):
                parts.append("deep" if contains(v, lambda x: x is p) else None)
            elif p in set(owner(v, r)):
                parts.append("shallow")
        return worst(*parts)
    return None


def worst(*xs):
    for k in ("same", "shallow", "deep"):
        if k in xs:
            return k
    return None


def stores(r):
    """[(event, what the attribute holds in the end)]"""
    last = {e.name: e for e in r.events if e.kind == "setattr" and e.obj is SELF and e.val is not None}
    keep = r.an.state
    r.an.state = r.state
    try:
        out = []
        for n, e in last.items():
            out.append((e, r.norm(r.an.getattr(SELF, n))))
            out.append((e, r.norm(e.val)))
        return out
    finally:
        r.an.state = keep


@rule("C31", "copies", 4)
def copies(ctx):
    """Attributes given to a description are copied with everything inside; other containers that a constructor requires are at least copied themselves, unless the
    object neither changes nor hands out what it keeps."""
    n = 0
    for m in ctx.p.modules.values():
        if m.name.split(".")[-1] not in ("datasets", "flownodes", "dataflow"):
            continue
        for c in m.classes():
            fn = c.methods.get("__init__")
            if fn is None:
                continue
            r = ctx.run(fn, cls=c)
            shared = container_params(fn)
            for p in [a.arg for a in fn.node.args.args[1:]]:
                t = mk("arg", p)
                if p not in shared and p != "attributes" and not requires_container(r, t):
                    continue
                for e, val in stores(r):
                    d = deep(val, t, r)
                    if d is None:
                        continue
                    key = "%s.%s %s" % (c.name, e.name, p)
                    n += 1
                    if p == "attributes":
                        ctx.check(key, d == "deep", "the caller's %s %s" % (p, "is kept itself" if d == "same" else "shares its values with the copy that is kept"), e)
                    else:
                        ctx.check(key, d != "same", "the caller's %s is kept itself" % p, e)
            if "attributes" in [a.arg for a in fn.node.args.args]:
                seen = [e for e, val in stores(r) if deep(val, mk("arg", "attributes"), r)]
                ctx.check("%s attributes" % c.name, bool(seen) or None, "the attributes are not kept", ctx.place(fn))
