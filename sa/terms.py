"""Hash-consed value terms of the gated-SSA value-flow analysis and their normalising constructors."""


class T:
    __slots__ = ("op", "args", "n")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.n < other.n


_table = {}


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.n = op, args, len(_table)
        _table[key] = t
    return t


class _V:
    """constant payload: distinguishes 1, 1.0 and True"""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v, self.k = v, (type(v).__name__, repr(v))

    def __eq__(self, o):
        return isinstance(o, _V) and self.k == o.k

    def __hash__(self):
        return hash(self.k)


def const(v):
    return mk("const", _V(v))


def is_const(t, *vals):
    if not (isinstance(t, T) and t.op == "const"):
        return False
    return not vals or any(t.args[0] == _V(v) for v in vals)


def cval(t):
    return t.args[0].v


NONE, TRUE, FALSE = const(None), const(True), const(False)
BOOLEAN = {"cmp", "not", "and", "or", "isinstance", "nonempty", "any", "forall", "raised", "hasattr"}


def truth(t):
    """True / False / None(unknown) for a term used as a condition"""
    if t.op == "const":
        try:
            return bool(cval(t))
        except Exception:
            return None
    if t.op in ("func", "class", "closure", "lambda", "module"):
        return True
    if t.op == "tuple":
        if any(a.op == "star" for a in t.args):
            return None
        return bool(t.args)
    return None


def not_(t):
    if t.op == "not":
        return t.args[0]
    v = truth(t)
    if v is not None:
        return FALSE if v else TRUE
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    if t.op == "any":
        return mk("forall", t.args[0], not_(t.args[1]))
    if t.op == "forall":
        return mk("any", t.args[0], not_(t.args[1]))
    return mk("not", t)


def and_(*ts):
    out = []
    for t in ts:
        for a in (t.args if t.op == "and" else (t,)):
            v = truth(a)
            if v is False:
                return FALSE
            if v is True or a in out:
                continue
            if not_(a) in out:
                return FALSE
            out.append(a)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*ts):
    out = []
    for t in ts:
        for a in (t.args if t.op == "or" else (t,)):
            v = truth(a)
            if v is True:
                return TRUE
            if v is False or a in out:
                continue
            if not_(a) in out:
                return TRUE
            out.append(a)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ite(c, a, b):
    if a is b:
        return a
    v = truth(c)
    if v is not None:
        return a if v else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_const(a, True) and is_const(b, False) and c.op in BOOLEAN:
        return c
    if is_const(a, False) and is_const(b, True) and c.op in BOOLEAN:
        return not_(c)
    return mk("ite", c, a, b)


def literals(c):
    return list(c.args) if c.op == "and" else [c]


_FOLD = {
    "==": lambda a, b: a == b, "is": lambda a, b: a is b if a is None or b is None or isinstance(a, bool) else a == b,
    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "in": lambda a, b: a in b,
}
LENGTH_OPS = ("call",)


def _len_of(t):
    if t.op == "len":
        return t.args[0]
    return None


def cmp_(op, a, b):
    """op in == != < <= > >= is 'is not' in 'not in'"""
    if op == "!=":
        return not_(cmp_("==", a, b))
    if op == "is not":
        return not_(cmp_("is", a, b))
    if op == "not in":
        return not_(cmp_("in", a, b))
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if op == "==" and (is_const(a, None) or is_const(b, None)):
        op = "is"
    if op == "is" and a.op == b.op == "const" and cval(a) is not None and cval(b) is not None:
        op = "=="
    if a.op == "const" and b.op == "const":
        try:
            return const(bool(_FOLD[op](cval(a), cval(b))))
        except Exception:
            pass
    if op in ("==", "is"):
        if a is b and a.op in ("const", "tuple"):
            return TRUE
        if is_const(a) and not is_const(b) or (not is_const(b) and b.n < a.n):
            a, b = b, a
        if is_const(b, None) and a.op in ("tuple", "str", "coll", "alloc", "new", "func", "class", "closure", "slice", "len"):
            return FALSE
        if is_const(b) and a.op in ("ite",):       # comparison of a selection with a constant: push down
            return ite(a.args[0], cmp_(op, a.args[1], b), cmp_(op, a.args[2], b))
        if op == "==" and a.op == "tuple" and b.op == "tuple" and len(a.args) != len(b.args) \
                and not any(x.op == "star" for x in a.args + b.args):
            return FALSE
    if op == "in" and b.op == "tuple" and not any(x.op == "star" for x in b.args):
        if not b.args:
            return FALSE
        return or_(*[cmp_("==", a, x) for x in b.args])
    # length tests
    la, lb = _len_of(a), _len_of(b)
    if la is not None and is_const(b, 0):
        if op == "==":
            return not_(mk("nonempty", la))
        if op == "<=":
            return not_(mk("nonempty", la))
        if op == "<":
            return FALSE
    if lb is not None:
        if is_const(a, 0):
            if op == "<":
                return mk("nonempty", lb)
            if op == "<=":
                return TRUE
        if is_const(a, 1) and op == "<=":
            return mk("nonempty", lb)
    if la is not None and is_const(b, 1) and op == "<":
        return not_(mk("nonempty", la))
    return mk("cmp", op, a, b)


def attr(o, n):
    return mk("attr", o, n)


def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in _flat(a):
                yield x


def _flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _flat(x):
                yield y


def walk(t, seen=None):
    """every distinct subterm"""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def contains(t, pred):
    if isinstance(pred, T):
        return any(x is pred for x in walk(t))
    return any(pred(x) for x in walk(t))


def rebuild(t, f, memo=None):
    """bottom-up rewriting; f(term) -> term"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            def conv(a):
                if isinstance(a, T):
                    return go(a)
                if isinstance(a, tuple):
                    return tuple(conv(y) for y in a)
                return a
            na = tuple(conv(a) for a in x.args)
            if na == x.args:
                y = x
            elif x.op == "ite":
                y = ite(*na)
            elif x.op == "and":
                y = and_(*na)
            elif x.op == "or":
                y = or_(*na)
            elif x.op == "not":
                y = not_(na[0])
            elif x.op == "cmp":
                y = cmp_(*na)
            else:
                y = mk(x.op, *na)
            r = f(y)
            memo[x] = r
        return r
    return go(t)


def leaves(t, conds=()):
    """(guards, value) alternatives of a gated term"""
    if t.op == "ite":
        for x in leaves(t.args[1], conds + tuple(literals(t.args[0]))):
            yield x
        for x in leaves(t.args[2], conds + tuple(literals(not_(t.args[0])))):
            yield x
    else:
        yield conds, t


def show(t, depth=7):
    if not isinstance(t, T):
        return "(%s)" % ", ".join(show(x, depth) for x in t) if isinstance(t, tuple) else str(t)
    if depth == 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.args
    if o == "const":
        return repr(cval(t))
    if o == "arg":
        return a[0]
    if o == "self":
        return "self"
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "call":
        return "%s(%s)" % (s(a[0]), ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "new":
        return "%s(%s)" % (a[0].split(".")[-1], ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o in ("bin",):
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "cmp":
        return "%s %s %s" % (s(a[1]), a[0], s(a[2]))
    if o == "not":
        return "not %s" % s(a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in a) + ")"
    if o == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if o == "ext":
        return a[0]
    if o in ("func", "class"):
        return str(a[0]).split(".")[-1]
    if o == "tuple":
        return "(%s,)" % ", ".join(s(x) for x in a)
    if o == "elem":
        return "each(%s)" % s(a[0])
    if o == "str":
        return "".join(cval(x) if is_const(x) and isinstance(cval(x), str) else "{%s}" % s(x) for x in a)
    if o == "super":
        return "super().%s(%s)" % (a[1], ", ".join(s(x) for x in (a[2],) + tuple(a[3])))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a))
