"""Summaries of the PhysArray primitives (each verified by its own rule) and queries on array terms."""
from .terms import NONE, TRUE, T, attr, cmp_, const, cval, is_const, ite, leaves, mk, show, walk

UP, DOWN = const("up"), const("down")


def s_convert(an, recv, args, kw, t):
    u = args[0] if args else dict(kw).get("units")
    an.derive(t, recv, units=u, name=mk("attr", t, "name"), data=mk("conv", an.data(recv)))


def s_transpose(an, recv, args, kw, t):
    d = args[0] if len(args) == 1 else mk("tuple", *args)
    an.derive(t, recv, dimensions=d, name=mk("attr", t, "name"), data=mk("perm", an.data(recv)))


def toggled(p):
    if is_const(p, "up"):
        return DOWN
    if is_const(p, "down"):
        return UP
    if is_const(p, None):
        return NONE
    return ite(cmp_("is", p, NONE), NONE, ite(cmp_("==", p, UP), DOWN, UP))


def s_flip(an, recv, args, kw, t):
    p = an.refine(an.getattr(recv, "positive"))
    h = an.state.heap
    d = an.refine(an.data(recv))
    h[(recv, "@data")] = d if is_const(p, None) else mk("neg", d) if is_const(p) else mk("maybeneg", d)
    h[(recv, "positive")] = toggled(p)
    h[(recv, "name")] = mk("attr", t, "name")
    return recv


def _s_dir(word):
    def f(an, recv, args, kw, t):
        p = an.refine(an.getattr(recv, "positive"))
        h = an.state.heap
        d = an.refine(an.data(recv))
        other = "down" if word == "up" else "up"
        h[(recv, "@data")] = mk("neg", d) if is_const(p, other) else d if is_const(p) else mk("maybeneg", d)
        h[(recv, "positive")] = const(word)
        h[(recv, "name")] = mk("attr", t, "name")
        return recv
    return f


SUMMARIES = {"convert": s_convert, "transpose": s_transpose, "flip": s_flip, "up": _s_dir("up"), "down": _s_dir("down")}
OPAQUE = ("PhysArray.convert", "PhysArray.transpose", "PhysArray.flip", "PhysArray.up", "PhysArray.down")


def sign(t, roots, an=None, heap=None, depth=0):
    """(sign, root) of a data/array term that is +-root up to conversion, permutation and broadcasting; None if it is not"""
    if depth > 60:
        return None
    go = lambda x: sign(x, roots, an, heap, depth + 1)
    if t in roots:
        if heap is not None and (t, "@data") in heap:
            return sign(heap[(t, "@data")], roots, an, None, depth + 1)
        return (1, t)
    if heap is not None and (t, "@data") in heap:
        return sign(heap[(t, "@data")], roots, an, {k: v for k, v in heap.items() if k != (t, "@data")}, depth + 1)
    o, a = t.op, t.args
    if o == "data0":
        return (1, a[0]) if a[0] in roots else go(a[0])
    if o in ("conv", "perm"):
        return go(a[0])
    if o == "neg" or o == "un" and a[0] == "-":
        r = go(a[-1])
        return r and (-r[0], r[1])
    if o == "bin" and a[0] in ("*", "/"):
        for x, k in ((a[1], a[2]), (a[2], a[1])):
            if is_const(k) and isinstance(cval(k), (int, float)) and abs(cval(k)) == 1 and (a[0] == "*" or k is a[2]):
                r = go(x)
                return r and (r[0] * (1 if cval(k) > 0 else -1), r[1])
    if o == "superop" and a[0] in ("__imul__", "__itruediv__") and len(a[2]) == 1 and is_const(unwrap(a[2][0]), 1, -1, 1.0, -1.0):
        r = go(a[1])
        return r and (r[0] * (1 if cval(unwrap(a[2][0])) > 0 else -1), r[1])
    if o == "supercall" and a[1] in ("__mul__", "__truediv__", "__imul__", "__itruediv__") and is_const(unwrap(a[3][0]), 1, -1, 1.0, -1.0):
        r = go(a[2])
        return r and (r[0] * (1 if cval(unwrap(a[3][0])) > 0 else -1), r[1])
    if o == "supercall" and a[1] == "__neg__":
        r = go(a[2])
        return r and (-r[0], r[1])
    if o == "new" and a[0].endswith(".PhysArray") and a[1]:
        return go(a[1][0])
    if o == "call" and a[0].op == "attr" and a[0].args[1] in ("copy", "convert", "transpose", "view", "astype", "reshape"):
        return go(a[0].args[0])
    if o == "call" and a[0].op == "ext" and a[1] and a[0].args[0].split(".")[-1] in ("asarray", "array", "masked_array", "MaskedArray", "getdata", "copy"):
        return go(a[1][0])
    if o == "attr" and a[1] in ("data",):
        return go(a[0])
    return None


def unwrap(t):
    """the value inside PhysArray(...) wrappers, conversions and permutations"""
    while True:
        if t.op == "new" and t.args[0].endswith(".PhysArray") and t.args[1]:
            t = t.args[1][0]
        elif t.op in ("conv", "perm", "data0"):
            t = t.args[0]
        elif t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("convert", "transpose", "copy"):
            t = t.args[0].args[0]
        else:
            return t


def rawops(r, names=None):
    """(event, operation, left term, right term) of the raw numeric operations an analysis ends in"""
    out = []
    for e in r.events:
        if e.kind == "call" and e.f is not None and e.f.op == "supermeth" and e.args:
            if names is None or e.f.args[1] in names:
                out.append((e, e.f.args[1], e.f.args[2], e.args[0]))
    return out
