"""Queries on terms and analyses shared by the rules."""
from .terms import FALSE, NONE, TRUE, T, and_, attr, children, cmp_, const, contains, cval, is_const, ite, leaves, literals, mk, not_, or_, \
    rebuild, show, truth, walk

BOOLOPS = ("and", "or", "not")


def atoms(c):
    """atomic conditions of a condition"""
    out, todo = [], [c]
    while todo:
        x = todo.pop()
        if x.op in BOOLOPS:
            todo.extend(children(x))
        elif truth(x) is None and x not in out:
            out.append(x)
    return out


def subst(t, mapping):
    return rebuild(t, lambda x: mapping.get(x, x))


def cases(*ts, limit=128, pick=None):
    """every valuation of the conditions selecting inside the terms: [(valuation, terms)]; None if there are too many"""
    out = []

    def first(ts):
        for t in ts:
            for x in walk(t):
                if x.op == "ite":
                    # innermost conditions first: an atom without selections inside
                    for a in atoms(x.args[0]):
                        if not contains(a, lambda y: y.op == "ite") and (pick is None or pick(a)):
                            return a
        return None

    def go(val, ts):
        if len(out) > limit:
            return
        a = first(ts)
        if a is None:
            out.append((val, ts))
            return
        for v in (TRUE, FALSE):
            go(val + ((a, v is TRUE),), tuple(subst(t, {a: v}) for t in ts))
    go((), tuple(ts))
    return None if len(out) > limit else out


def decide(c, val):
    """truth of condition c under a valuation (tuple of (atom, bool))"""
    return truth(subst(c, {a: (TRUE if v else FALSE) for a, v in val}))


def name_of(f):
    """dotted or method name of a called term"""
    if f is None:
        return None
    if f.op == "ext":
        return f.args[0]
    if f.op == "attr":
        return f.args[1]
    if f.op in ("func",):
        return f.args[0].name
    if f.op == "class":
        return f.args[0].name
    if f.op == "bound":
        return f.args[1].name
    if f.op == "supermeth":
        return f.args[1]
    return None


def is_call(t, *names):
    return t.op == "call" and name_of(t.args[0]) is not None and (not names or name_of(t.args[0]).split(".")[-1] in names)


def is_new(t, *names):
    return t.op == "new" and (not names or t.args[0].split(".")[-1] in names)


def kwarg(t_or_e, name, pos=None, default=None):
    """argument of a call/new term or call event"""
    if isinstance(t_or_e, T):
        args, kw = t_or_e.args[1], t_or_e.args[2]
    else:
        args, kw = t_or_e.args, t_or_e.kw
    for k, v in kw:
        if k == name:
            return v
    if pos is not None and len(args) > pos and not any(a.op == "star" for a in args[:pos + 1]):
        return args[pos]
    return default


def seqview(t, norm=None):
    """a sequence as list of (value, guards, loops) records, whatever kind of sequence or comprehension built it; None if unknown"""
    if norm is not None:
        t = norm(t)
    if t.op == "tuple":
        return [(x, (), ()) for x in t.args]
    if t.op == "coll" and t.args[0] in ("tuple", "list", "gen", "set"):
        out = []
        for op, k, v, g, l in t.args[1]:
            if op != "append":
                return None
            out.append((v, g, l))
        return out
    if is_call(t, "tuple", "list") and len(t.args[1]) == 1:
        return seqview(t.args[1][0])
    return None


def strip_seq(t):
    while is_call(t, "tuple", "list", "sorted", "set", "frozenset") and len(t.args[1]) == 1 and t.args[0].op == "ext":
        t = t.args[1][0]
    return t


def same_seq(a, b):
    """both sequences have the same records"""
    if a is b or strip_seq(a) is strip_seq(b):
        return True
    x, y = seqview(a), seqview(b)
    if x is None or y is None:
        x1 = x if x is not None else [(mk("elem", a), (), (a,))]
        y1 = y if y is not None else [(mk("elem", b), (), (b,))]
        return x1 == y1
    return x == y


def raises_always(r):
    return r.value.op == "never"


def guarded_by(e, pred):
    return any(pred(g) for g in e.guards)


def exc_name(t):
    if t is None:
        return None
    if t.op == "new":
        return t.args[0].split(".")[-1]
    if t.op == "class":
        return t.args[0].name
    if is_call(t):
        return name_of(t.args[0]).split(".")[-1]
    if t.op == "ext":
        return t.args[0].split(".")[-1]
    return None
