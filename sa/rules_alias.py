"""C06: nothing an evaluation writes to is shared with its operands, its arguments or stored data"""
from .engine import SELF
from .phys import OPAQUE, SUMMARIES
from .q import is_call, kwarg, name_of
from .rule import rule, term
from .rules_phys import DIRS, INPL, PLAIN, REFL, arith
from .rules_funcs import evaluation, functions, short
from .terms import FALSE, NONE, attr, children, cval, is_const, leaves, mk, show, truth, walk

# how a term relates to what it is made of
SHARING = {"asarray", "asanyarray", "ascontiguousarray", "squeeze", "reshape", "transpose", "ravel", "swapaxes", "moveaxis", "rollaxis", "expand_dims",
           "broadcast_to", "broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d", "split", "array_split", "view", "masked_array", "MaskedArray",
           "filled", "getdata", "getmask", "flipud", "fliplr", "flip", "diagonal", "real", "imag", "nditer", "hsplit", "vsplit", "lib.stride_tricks.as_strided",
           "as_strided", "require", "mask_or", "getmaskarray"}
SHARING_METHODS = {"view", "reshape", "transpose", "ravel", "swapaxes", "squeeze", "diagonal", "filled", "convert", "__array__", "get", "item_view", "getfield",
                   "astype_view", "soften_mask", "harden_mask", "shrink_mask", "flip", "up", "down", "setdefault"}
FRESH_METHODS = {"copy", "astype", "flatten", "sum", "mean", "min", "max", "std", "var", "prod", "cumsum", "cumprod", "repeat", "round", "clip", "dot", "argmax",
                 "argmin", "nonzero", "tolist", "take", "compress", "choose", "any", "all", "anom", "count", "item", "index", "keys", "split", "lower", "upper",
                 "strip", "format", "join", "replace", "startswith", "endswith", "tostring", "tobytes", "difference", "intersection", "union", "compressed",
                 "argsort", "searchsorted", "conj", "ptp", "trace"}
FRESH_OPS = {"const", "bin", "un", "cmp", "not", "and", "or", "str", "join", "len", "nonempty", "isinstance", "any", "forall", "coll", "alloc", "neg", "idx",
             "class", "ext", "superop", "slice", "closure", "never", "keyerror", "unbound", "raised", "hasattr", "func"}
PLAIN_ATTRS = {"units", "name", "dimensions", "positive", "shape", "dtype", "ndim", "size", "fill_value", "itemsize", "calendar", "label", "char", "kind", "nbytes",
               "cfunits", "initialshape"}
MUTATORS = {"sort", "fill", "itemset", "put", "resize", "partition", "byteswap", "__setmask__", "__setitem__", "__delitem__", "append", "extend", "insert", "remove",
            "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "reverse", "setfield", "flip", "up", "down", "unshare_mask", "shrink_mask",
            "__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__", "__ipow__", "__imod__", "__iand__", "__ior__", "difference_update", "intersection_update"}
WRITERS = {"copyto", "put", "place", "putmask", "shuffle", "fill_diagonal", "put_along_axis", "at"}
# these are meant to change the array they are called on
WRITES_SELF = ("__new__", "__array_finalize__", "__setitem__", "flip", "up", "down", "__setstate__", "__init__")
BUFFERS = ("data", "_data", "mask", "_mask", "T", "real", "imag", "flat", "base", "baseclass")
META = {"name", "units", "dimensions", "positive", "fill_value", "shape", "strides", "dtype"}


def origins(t, r, depth=0, seen=()):
    """{(how, root)}: the objects a term may share memory with; how is 'same' (the object itself), 'view' (its memory), 'elem' or '?'"""
    if depth > 40 or t in seen:
        return set()
    seen = seen + (t,)

    def go(x):
        return origins(x, r, depth + 1, seen)

    def view(x):
        return {("view" if h in ("same", "elem") else h, y) for h, y in go(x)}
    o, a = t.op, t.args
    if o in FRESH_OPS:
        return set()
    if o in ("arg", "self"):
        return {("same", t)}
    if o == "new":
        cls = a[0].split(".")[-1]
        if cls in ("PhysArray", "CharArray", "MaskedArray"):
            src = a[1][0] if a[1] else dict((k, v) for k, v in a[2]).get("indata")
            dt = dict(a[2]).get("dtype")
            return view(src) if src is not None else set()
        return set()
    if o == "attr":
        if a[1] in PLAIN_ATTRS:
            return set()
        b = a[0]
        if b is SELF:
            return {("same", t)}
        return view(b)
    if o == "getattr":
        return view(a[0])
    if o == "sub":
        b, i = a
        parts = i.args if i.op == "tuple" else (i,)
        if any(p.op in ("cmp", "not", "and", "or") or p.op == "coll" and p.args[0] == "list" or is_call(p, "where", "nonzero", "argsort", "logical_and", "logical_or",
               "numpy.where", "numpy.nonzero", "isnan", "numpy.isnan") or p.op == "bin" and p.args[0] in ("&", "|") for p in parts):
            return set()
        if b.op == "coll":
            out = set()
            for en in b.args[1]:
                if en[2] is not None and not isinstance(en[2], str):
                    out |= go(en[2])
            return out
        if b.op == "tuple":
            if is_const(i) and isinstance(cval(i), int) and -len(b.args) <= cval(i) < len(b.args):
                return go(b.args[cval(i)])
            return set().union(*[go(x) for x in b.args]) if b.args else set()
        base = go(b)
        if base and all(h == "same" and y.op == "attr" and y.args[0] is SELF and y.args[1] in ("arguments", "keywords", "inputs", "_inputs") for h, y in base):
            return {("same", t)}
        if base and all(y.op in ("sub", "elem", "popped") for h, y in base):
            # a request: what the input delivers, which may be an object it keeps
            return {("same" if h == "same" else h, y) for h, y in base}
        return {("view" if h in ("same", "elem") else h, y) for h, y in base}
    if o in ("elem", "popped"):
        b = a[0]
        if b.op == "coll":
            out = set()
            for en in b.args[1]:
                if en[2] is not None and not isinstance(en[2], str):
                    out |= go(en[2])
            return out
        base = go(b)
        if base and all(h == "same" for h, y in base):
            return {("same", t)}
        return view(b)
    if o == "ite":
        return go(a[1]) | go(a[2])
    if o in ("conv", "perm", "maybeneg", "data0"):
        return view(a[0])
    if o == "phi":
        p = r.an.phis.get(t)
        return (go(r.norm(p[0])) | go(r.norm(p[1]))) if p is not None else {("?", t)}
    if o == "loop":
        return go(a[1]) | go(a[2])
    if o in ("choice",):
        return go(a[0]) | go(a[1])
    if o == "last":
        return go(a[1])
    if o == "tuple":
        return set()
    if o == "star":
        return go(a[0])
    if o == "supercall":
        m, obj = a[1], a[2]
        if m in ("__getitem__", "transpose", "reshape", "view", "ravel", "squeeze", "filled"):
            return view(obj)
        return set()
    if o == "call":
        f = a[0]
        kw = dict((k, v) for k, v in a[2])
        if f.op == "ext":
            n = f.args[0].split(".")[-1]
            cp = kw.get("copy")
            if cp is not None and truth(cp) is True:
                return set()
            if n == "array" and cp is not None and truth(cp) is False or n in SHARING or n.startswith("masked_") and cp is not None:
                return set().union(*[view(x) for x in a[1][:1]])
            if f.args[0].split(".")[0] in ("numpy", "np", "math", "builtins", "cf_units", "len", "range", "copy", "Ngl") or "." not in f.args[0]:
                if n in ("list", "tuple", "iter", "sorted", "reversed", "getattr", "min", "max"):
                    return set().union(*[go(x) for x in a[1]]) if a[1] else set()
                return set()
            return set().union(*[{("?", y) for h, y in go(x)} for x in a[1]]) if a[1] else set()
        if f.op == "attr":
            m = f.args[1]
            if m in FRESH_METHODS:
                if m == "astype" and "copy" in kw and truth(kw["copy"]) is not True:
                    return view(f.args[0])
                return set()
            if m in SHARING_METHODS:
                if m in ("flip", "up", "down"):
                    return go(f.args[0])
                return view(f.args[0])
            if m.startswith("__") and m.endswith("__") and not m.startswith("__i"):
                return set()
            return {("?", y) for h, y in go(f.args[0])}
        out = set()
        for x in list(a[1]) + [v for k, v in a[2]]:
            out |= {("?", y) for h, y in go(x)}
        return out
    out = set()
    for x in children(t):
        out |= {("?", y) for h, y in go(x)}
    return out


def writes(r):
    """[(event, what is written to, kind)]: kind is 'memory' or the name of the attribute set"""
    out = []
    for e in r.events:
        if e.kind in ("setitem", "delitem", "aug") and e.obj is not None:
            out.append((e, e.obj, "memory"))
        elif e.kind == "setattr":
            out.append((e, e.obj, e.name))
        elif e.kind == "call" and e.f is not None:
            n = name_of(e.f)
            last = n.split(".")[-1] if n else None
            if e.f.op == "attr" and last in MUTATORS:
                if last == "byteswap" and not (e.args and truth(e.args[0])):
                    continue
                out.append((e, e.f.args[0], "memory"))
            if e.f.op == "supermeth" and e.f.args[1] in MUTATORS:
                out.append((e, e.f.args[2], "memory"))
            if e.f.op == "ext" and n.split(".")[0] in ("numpy", "np") and last in WRITERS and e.args:
                out.append((e, e.args[0], "memory"))
            for k, v in e.kw:
                if k == "out":
                    for x in v.args if v.op == "tuple" else (v,):
                        out.append((e, x, "memory"))
            if e.f.op == "class" and e.f.args[0].name in ("PhysArray",) and any(k == "mask" for k, v in e.kw) and e.args:
                out.append((e, e.args[0], "mask"))
    return out


def judge(ctx, r, label, allowed=(), arrays=lambda root: True, nodes=False):
    """check every write of an analysis"""
    n = 0
    for e, t, kind in writes(r):
        x = r.norm(t)
        if kind != "memory" and x is SELF and nodes:
            continue
        os = origins(x, r)
        os = {(h, y) for h, y in os if y not in allowed and arrays(y)}
        n += 1
        if turns(e) and unturned(r, e, t):
            kind = "positive"
        if kind in META:
            # an attribute of the object itself: views have their own
            os = {(h, y) for h, y in os if h != "view"}
        what = "%s %s" % (label, kind if kind != "memory" else "data")
        if not os:
            ctx.ok(what, "", e)
        elif any(h in ("same", "view") for h, y in os):
            root = [y for h, y in os if h in ("same", "view")][0]
            ctx.bad(what, "%s is changed: %s" % (term(root, 60), "set %s" % kind if kind != "memory" else "written to in place"), e)
        else:
            ctx.unknown(what, "may be shared: %s" % term(x, 80), e)
    return n


def unturned(r, e, t):
    """the call leaves the numbers alone: the array has no direction, or already the right one"""
    keep = r.an.state
    r.an.state = keep.copy()
    r.an.state.heap = dict(e.heap)
    try:
        p = r.norm(r.an.getattr(t, "positive"))
    finally:
        r.an.state = keep
    return is_const(p) and cval(p) in (None, turns(e))


def turns(e):
    """a change of direction of an array without one only sets attributes: the attribute kind, or None when numbers may change"""
    n = e.f.args[1] if e.kind == "call" and e.f is not None and e.f.op == "attr" else None
    return n if n in ("flip", "up", "down") else None


@rule("C06", "functions", 40)
def c06_functions(ctx):
    """No function writes to its arguments, to what they deliver, or to its own stored arguments and keywords."""
    for c, f in functions(ctx):
        for null in (False, True):
            r = evaluation(ctx, c, f, null)
            if r is None:
                continue
            judge(ctx, r, short(c), nodes=True)
        if c.name:
            ctx.ok("%s analysed" % short(c), "", f)


@rule("C06", "operators", 9 * 15 + 10)
def c06_operators(ctx):
    """The operators and conversions of physical arrays write to neither operand; the in-place ones only to the left."""
    PA = ctx.p.cls("physarray.PhysArray")
    here = lambda y: y.op in ("arg", "self") or y is SELF or y.op == "attr" and y.args[0] is SELF and y.args[1] in BUFFERS
    for name in PLAIN + tuple(REFL) + INPL:
        for sp in DIRS:
            for op in DIRS:
                r = arith(ctx, name, sp, op)
                if r is None:
                    continue
                judge(ctx, r, "%s of %s and %s:" % (name, sp, op), allowed=(SELF,) if name in INPL else (), arrays=here)
                ctx.ok("%s of %s and %s analysed" % (name, sp, op), "", r.fn)
    for n, f in sorted(PA.methods.items()):
        if n in PLAIN + tuple(REFL) + INPL or n in WRITES_SELF or n.startswith("_") and not n.startswith("__") and n != "_safe_convert_":
            continue
        r = ctx.run(f, cls=PA, opaque=OPAQUE, summaries=SUMMARIES)
        judge(ctx, r, n, allowed=(SELF,) if n == "__ipow__" else (), arrays=here)
        ctx.ok("%s analysed" % n, "", f)


@rule("C06", "nodes", 5)
def c06_nodes(ctx):
    """No node writes to what its inputs deliver, to the request, or to the data it stores."""
    for c in ctx.p.subclasses("FlowNode"):
        f = c.methods.get("__getitem__")
        if f is None:
            continue
        r = ctx.run(f, cls=c, opaque=OPAQUE, summaries=SUMMARIES)
        judge(ctx, r, short(c), nodes=True)
        ctx.ok("%s analysed" % short(c), "", f)
