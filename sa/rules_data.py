"""C16 C17 C31: rules on pyconform.datasets"""
import itertools

from .engine import SELF
from .q import atoms, exc_name, is_call, is_new, kwarg, name_of, subst
from .rule import rule, term
from .terms import FALSE, NONE, TRUE, attr, cmp_, const, contains, cval, is_const, leaves, mk, not_, show, truth, walk

UNIQUE = ("DimensionDesc.unique", "VariableDesc.unique", "FileDesc.unique", "_is_list_of_type_")


class Unknown(Exception):
    pass


class Item:
    """one descriptor: its place in the group, whether it is set, and its attributes, which differ between kinds in one of them only"""

    def __init__(self, n, isset, kind, what, flag):
        self.n, self.isset, self.kind = n, isset, kind
        pick = lambda name, vals: vals[kind] if name == what else vals[0]
        self.attrs = {"name": "n", "size": pick("size", (5, 6, 7)) if isset else None, "unlimited": flag ^ (what == "unlimited" and kind == 1),
                      "stringlen": flag ^ (what == "stringlen" and kind == 1), "datatype": pick("datatype", ("int", "float", "char"))}
        self.what = what

    def __repr__(self):
        return "%d%s%s" % (self.n, "ABC"[self.kind], "" if self.isset else "?")


def gev(t, groups, world, env):
    """value of a condition or selection over one group of descriptors, in a world that says how many there are, which are set and which agree"""
    go = lambda x, e=env: gev(x, groups, world, e)
    o, a = t.op, t.args
    if t in env:
        return env[t]
    if o == "const":
        return cval(t)
    if o in ("sub", "elem") and (a[0] is groups or o == "elem" and is_call(a[0], "values") and a[0].args[0].args[0] is groups):
        return world
    if o == "sub":
        b, i = go(a[0]), a[1]
        if i.op == "slice":
            lo, hi, st = [None if is_const(x, None) else go(x) for x in i.args]
            return b[lo:hi:st]
        i = go(i)
        if not isinstance(b, list) or not isinstance(i, int) or isinstance(i, bool):
            raise Unknown(show(t, 3))
        if not -len(b) <= i < len(b):
            raise IndexError
        return b[i]
    if o == "call" and is_call(t, "next", "iter", "list", "tuple", "reversed") and a[1]:
        v = go(a[1][0])
        if is_call(t, "next"):
            if not v:
                raise IndexError
            return v[0]
        return v[::-1] if is_call(t, "reversed") else v
    if o == "coll":
        out = []
        for op, key, val, guards, loops in a[1]:
            if val is None or isinstance(val, str):
                raise Unknown("coll")
            src = [([], env)]
            envs = [dict(env)]
            for l in loops:
                nxt = []
                for e in envs:
                    for x in iterate(l, groups, world, e):
                        nxt.append(x)
                envs = nxt
            for e in envs:
                if all(gev(g, groups, world, e) for g in guards):
                    out.append(gev(val, groups, world, e))
        return out
    if o in ("forall", "any"):
        want = o == "any"
        for e in iterate(a[0], groups, world, env):
            if bool(gev(a[1], groups, world, e)) == want:
                return want
        return not want
    if o == "not":
        return not go(a[0])
    if o == "and":
        return all(go(x) for x in a)
    if o == "or":
        return any(go(x) for x in a)
    if o == "ite":
        return go(a[1]) if go(a[0]) else go(a[2])
    if o == "len":
        return len(go(a[0]))
    if o == "nonempty":
        return len(go(a[0])) > 0
    if o == "isinstance":
        return True
    if o == "cmp":
        op = a[0]
        x, y = go(a[1]), go(a[2])
        if isinstance(x, Item) and isinstance(y, Item):
            same = x.kind == y.kind if op in ("==", "!=") else x.n == y.n if op in ("is", "is not") else None
            if same is None:
                raise Unknown(show(t, 3))
            return same == (op in ("==", "is"))
        if op in ("==", "!=", "is", "is not") and not isinstance(x, list) and not isinstance(y, list):
            return (x == y) == (op in ("==", "is"))
        if isinstance(x, int) and isinstance(y, int) and op in ("<", "<=", ">", ">="):
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        raise Unknown(show(t, 3))
    if o == "loop":
        acc = go(a[1])
        for e in iterate(a[0], groups, world, env):
            e[a[3]] = acc
            acc = gev(a[2], groups, world, e)
        return acc
    if o == "attr":
        x = go(a[0])
        n = a[1].lstrip("_")
        if isinstance(x, Item) and n in x.attrs:
            return x.attrs[n]
        raise Unknown(show(t, 3))
    if o == "call" and a[0].op == "attr":
        x = go(a[0].args[0])
        n = a[0].args[1]
        if isinstance(x, Item):
            if n == "is_set":
                return x.isset
            if n in ("__eq__", "__ne__"):
                y = go(a[1][0])
                return (x.kind == y.kind) == (n == "__eq__")
        if isinstance(x, list) and n == "count":
            y = go(a[1][0])
            return sum(1 for z in x if z.kind == y.kind)
    if o == "bin":
        x, y = go(a[1]), go(a[2])
        if isinstance(x, int) and isinstance(y, int):
            return {"+": x + y, "-": x - y}[a[0]]
    raise Unknown(show(t, 3))


def iterate(l, groups, world, env):
    """environments of the elements of an iterated term"""
    if is_call(l, "items", "keys", "values") and l.args[0].args[0] is groups or l is groups:
        return [dict(env)]
    if is_call(l, "zip") and len(l.args[1]) > 1:
        vs = [gev(x, groups, world, env) for x in l.args[1]]
        out = []
        for tup in zip(*vs):
            e = dict(env)
            for x, v in zip(l.args[1], tup):
                bind(e, x, v)
            out.append(e)
        return out
    v = gev(l, groups, world, env)
    if not isinstance(v, list):
        raise Unknown(show(l, 3))
    out = []
    for x in v:
        e = dict(env)
        bind(e, l, x)
        out.append(e)
    return out


def bind(e, l, v):
    e[mk("elem", l)] = v
    if l.op == "coll" and len(l.args[1]) == 1 and l.args[1][0][2] is not None and l.args[1][0][2].op == "elem":
        e[l.args[1][0][2]] = v


def worlds(dims):
    """groups of up to three descriptors: which are set, and which agree with which"""
    out = []
    for what in ("size", "unlimited", "stringlen") if dims else ("datatype", "dimensions"):
        for flag in (False, True) if dims else (False,):
            for n in (1, 2, 3):
                for m in range(2 ** n) if dims else (2 ** n - 1,):
                    for kinds in ([[0]] if n == 1 else [[0, 0], [0, 1]] if n == 2 else [[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1], [0, 1, 2]]):
                        if what in ("unlimited", "stringlen") and 2 in kinds:
                            continue
                        out.append([Item(i, bool(m >> i & 1), k, what, flag) for i, k in enumerate(kinds)])
    return out


def happens(groups, w, guards, loops=()):
    """can an event with these guards in these loops happen for a group in world w?"""
    envs = [{}]
    for l in loops:
        if contains(l, lambda x: x is groups):
            envs = [e2 for e in envs for e2 in iterate(l, groups, w, e)]
    for e in envs:
        try:
            if all(gev(g, groups, w, e) for g in guards if contains(g, lambda x: x is groups)):
                return True
        except IndexError:
            pass
    return False


def grouped(ctx, r, descs):
    """the groups by name the analysis works on: a dictionary term, checked to hold every descriptor under its own name"""
    for t in [r.norm(r.value)] + [r.norm(g) for e in r.raises() for g in e.guards]:
        for x in walk(t):
            if x.op == "coll" and x.args[0] == "dict" and x.args[1] and any(descs in en[4] for en in x.args[1]):
                return x
    return None


@rule("C16", "agreement", 9)
def c16_agreement(ctx):
    """Of several descriptors of one name the set ones must all agree, or an error is raised; the one kept is a set one if there is any."""
    D = mk("arg", "descs")
    for cname in ("DimensionDesc", "VariableDesc", "FileDesc"):
        c = ctx.p.cls("datasets." + cname)
        f = c.find_method("unique")
        r = ctx.run(f, cls=c, args={f.params()[-1]: D})
        groups = grouped(ctx, r, D)
        if groups is None:
            ctx.unknown(cname + ": groups", "no dictionary of groups by name", f)
            continue
        el = mk("elem", D)
        keys = {en[1] for en in groups.args[1]}
        ctx.check(cname + ": grouped by name", all(k is attr(el, "name") or k is attr(el, "_name") for k in keys), "grouped by %s" % sorted(map(term, keys)), f)
        # nothing that was given may be left out of its group
        inside = [e for e in r.events if D in tuple(r.norm(l) for l in e.loops or ()) and
                  (e.kind == "setitem" or e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[1] in ("append", "extend", "insert"))]
        taken = []
        for e in inside:
            v = r.norm(e.val) if e.kind == "setitem" else r.norm(e.args[-1]) if e.args else None
            if v is not None and (v is el or contains(v, lambda x: x is el)):
                taken.append([g for g in (r.norm(g) for g in e.guards) if contains(g, lambda x: x is el) and not benign(g)])
        whole = any(not t for t in taken) or any(len(a) == 1 and len(b) == 1 and a[0] is not_(b[0]) for a in taken for b in taken)
        if not taken:
            whole = not any(en[3] for en in groups.args[1]) or None
        ctx.check(cname + ": every descriptor is in a group", whole if whole else None if not taken else False, "descriptors are taken only when %s" % [[term(g, 80) for g in t] for t in taken], f)
        res = r.norm(r.value)
        if res.op != "coll" or res.args[0] != "dict":
            ctx.unknown(cname + ": result", term(res, 80), f)
            continue
        dims = cname == "DimensionDesc"
        badly, lost, wrong, und = None, None, None, None
        raising = [e for e in r.raises() if any(contains(r.norm(g), lambda x: x is groups) for g in e.guards)]
        for w in worlds(dims):
            voters = [i for i in w if i.isset] if dims else w
            agree = len({i.kind for i in voters}) <= 1
            try:
                stopped = False
                for e in raising:
                    stopped |= happens(groups, w, [r.norm(g) for g in e.guards], [r.norm(l) for l in e.loops or ()])
                got = []
                for op, key, val, guards, loops in res.args[1]:
                    try:
                        if all(gev(g, groups, w, {}) for g in guards if contains(g, lambda x: x is groups)):
                            got.append(gev(val, groups, w, {}))
                    except IndexError:
                        stopped = True
            except Unknown as ex:
                und = "cannot interpret %s" % ex
                continue
            if not agree and not stopped:
                badly = w
            elif agree and (stopped or not got):
                lost = w
            elif agree and (not isinstance(got[-1], Item) or got[-1].n not in [i.n for i in (voters or w)]):
                wrong = (w, got[-1])
        ctx.check(cname + ": disagreement is an error", None if und else badly is None, und or "accepted although they differ (number, kind, ? = unset): %s" % badly, f)
        ctx.check(cname + ": agreement is accepted", None if und else lost is None, und or "refused or lost although they agree: %s" % lost, f)
        ctx.check(cname + ": the one kept", None if und else wrong is None, und or "kept %s of %s" % (wrong and wrong[1], wrong and wrong[0]), f)


def benign(g):
    return g.op in ("forall", "isinstance") and contains(g, lambda x: x.op == "isinstance")


FIELDS = {"DimensionDesc": ("name", "size", "unlimited", "stringlen"), "VariableDesc": ("name", "datatype", "dimensions", "the order of dimensions"),
          "FileDesc": ("name", "dimensions", "variables", "a variable")}
OTHER = mk("arg", "other")


def fields(t):
    """names of the attributes of self or other a term is about"""
    out = set()
    for x in walk(t):
        if x.op == "attr" and (x.args[0] is SELF or x.args[0] is OTHER):
            n = x.args[1].lstrip("_")
            out.add({"ntype": "datatype", "dtype": "datatype"}.get(n, n))
    return out


def eqworlds(differ):
    """values of the scalar fields of self and other when exactly one thing differs (None: nothing does)"""
    base = {"name": "n", "size": 5, "unlimited": False, "stringlen": False, "datatype": "int"}
    alt = {"name": ("m",), "size": (6, None, 0), "unlimited": (True,), "stringlen": (True,), "datatype": ("float",)}
    if differ is None:
        return [(base, base), (dict(base, size=None), dict(base, size=None)), (dict(base, unlimited=True, stringlen=True), dict(base, unlimited=True, stringlen=True))]
    if differ not in alt:
        return [(base, base)]
    return [w for v in alt[differ] for w in ((base, dict(base, **{differ: v})), (dict(base, **{differ: v}), base))]


def eqval(t, w):
    """('value', v) of a term in a world"""
    if is_const(t):
        return ("value", cval(t))
    if t.op == "attr" and (t.args[0] is SELF or t.args[0] is OTHER):
        n = t.args[1].lstrip("_")
        n = {"ntype": "datatype", "dtype": "datatype"}.get(n, n)
        d = w[0] if t.args[0] is SELF else w[1]
        if n in d:
            return ("value", d[n])
    if is_call(t, "is_set") and t.args[0].op == "attr" and t.args[0].args[0] in (SELF, OTHER):
        return ("value", (w[0] if t.args[0].args[0] is SELF else w[1])["size"] is not None)
    if t.op == "tuple":
        vs = [eqval(x, w) for x in t.args]
        return ("value", tuple(v[1] for v in vs)) if None not in vs else None
    return None


def eqatom(t, differ, w, turn):
    """truth of one condition on self and other in a world; turn: does the variable looked at in this turn of a loop differ?"""
    if t.op == "isinstance":
        return True
    v = eqval(t, w)
    if v is not None:
        return bool(v[1])
    if t.op == "nonempty":
        v = eqval(t.args[0], w)
        return bool(v[1]) if v is not None else None
    if t.op == "cmp" and t.args[0] in ("==", "!=", "is"):
        l, r_ = t.args[1], t.args[2]
        x, y = eqval(l, w), eqval(r_, w)
        if x is not None and y is not None:
            same = x[1] == y[1]
            return same if t.args[0] != "!=" else not same
        # the key both are looked up with is the same one
        keys = {x: mk("arg", "key") for x in walk(t) if x.op == "elem" and contains(l, lambda y: y is x) and contains(r_, lambda y: y is x)}
        l, r_ = subst(l, keys), subst(r_, keys)
        if subst(l, {SELF: OTHER}) is not r_ and subst(r_, {SELF: OTHER}) is not l:
            return None
        fs = fields(t)
        same = True
        if keys:
            # one variable of the file compared with the one of that name
            same = not turn
        elif l.op == "len" or is_call(l, "len"):
            same = True
        elif differ in fs:
            same = False
        elif differ == "the order of dimensions" and "dimensions" in fs:
            # views of keys and sets compare without order
            same = is_call(l, "keys") or is_call(l, "set", "frozenset", "sorted") or l.op == "attr" or l.op == "coll" and l.args[0] == "set"
        return same if t.args[0] != "!=" else not same
    return None


@rule("C16", "equality", 14)
def c16_equality(ctx):
    """Descriptors are equal exactly if everything they have to agree in is equal."""
    for cname, what in FIELDS.items():
        c = ctx.p.cls("datasets." + cname)
        f = c.find_method("__eq__")
        r = ctx.run(f, cls=c, args={f.params()[1]: OTHER}, types={OTHER: c})

        def value(differ):
            """can the result be True, when nothing (or exactly one thing) differs?  for nothing: must it be"""
            outs = []
            for w in eqworlds(differ):
                got = []
                for e in r.events:
                    if e.kind != "return":
                        continue
                    for turn in ((False, True) if differ == "a variable" else (False,)) if e.loops else (differ == "a variable",):
                        ok = True
                        for g in e.guards:
                            v = ev(r.norm(g), differ, w, turn)
                            if v is False:
                                ok = False
                            elif v is None and ok:
                                ok = None
                        if ok is False:
                            continue
                        v = ev(r.norm(e.val), differ, w, turn) if e.val is not None else False
                        got.append(v if ok else None)
                if differ is None:
                    outs.append(False if False in got else None if None in got or not got else True)
                else:
                    outs.append(True if True in got else None if None in got or not got else False)
            if differ is None:
                return False if False in outs else None if None in outs else True
            return True if True in outs else None if None in outs else False

        def ev(g, differ, w, turn):
            go = lambda x: ev(x, differ, w, turn)
            if g.op == "forall":
                return go(g.args[1])
            if g.op == "any":
                v = go(g.args[1])
                # another element may be the one that differs, or not
                return True if differ == "a variable" and ev(g.args[1], differ, w, False) else v
            if truth(g) is not None:
                return truth(g)
            if g.op == "not":
                v = go(g.args[0])
                return None if v is None else not v
            if g.op in ("and", "or"):
                vs = [go(x) for x in g.args]
                stop = g.op == "or"
                return stop if stop in vs else None if None in vs else not stop
            if g.op == "ite":
                v = go(g.args[0])
                return None if v is None else go(g.args[1] if v else g.args[2])
            if g.op == "cmp" and g.args[1].op == "tuple" and g.args[2].op == "tuple" and len(g.args[1].args) == len(g.args[2].args) and g.args[0] in ("==", "!="):
                vs = [go(cmp_("==", x, y)) for x, y in zip(g.args[1].args, g.args[2].args)]
                v = False if False in vs else None if None in vs else True
                return v if g.args[0] == "==" or v is None else not v
            return eqatom(g, differ, w, turn)
        v = value(None)
        ctx.check("%s: equal" % cname, v, "unequal although nothing differs" if v is False else "not understood", f)
        for d in what:
            v = value(d)
            ctx.check("%s: %s" % (cname, d), None if v is None else not v, "still equal when %s differs" % d if v else "not understood", f)
        g = c.find_method("__ne__")
        if g is not None:
            r2 = ctx.run(g, cls=c, args={g.params()[1]: OTHER}, types={OTHER: c}, opaque=(cname + ".__eq__",))
            v = r2.norm(r2.value)
            good = v.op == "not" and (is_call(v.args[0], "__eq__") or v.args[0] is cmp_("==", SELF, OTHER)) or v is cmp_("!=", SELF, OTHER)
            neg = is_call(v, "__eq__") or v.op == "cmp" and v.args[0] == "=="
            ctx.check("%s: unequal" % cname, True if good else False if neg or v.op in ("cmp", "not", "and", "or") and contains(v, lambda x: x.op == "attr" and x.args[0] in (SELF, OTHER)) else None, "inequality is %s" % term(v), g)


@rule("C16", "dimension", 6)
def c16_dimension(ctx):
    """A dimension keeps the size, limit and string flag it is given, is set exactly if it has a size, and takes all three over from another."""
    c = ctx.p.cls("datasets.DimensionDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c)
    r.an.state = r.state
    for n in ("name", "size", "unlimited", "stringlen"):
        v = r.norm(r.an.getattr(SELF, n))
        a = mk("arg", n)
        good = kept(v, a)
        ctx.check("constructor: %s" % n, good, "%s is %s" % (n, term(v, 80)), f)
    f = c.find_method("is_set")
    r = ctx.run(f, cls=c)
    v = r.norm(r.value)
    want = not_(cmp_("is", attr(SELF, "size"), NONE))
    ctx.check("is_set", True if v is want or v is not_(cmp_("==", attr(SELF, "size"), NONE)) else False if v in (not_(want), attr(SELF, "size"), TRUE, FALSE) or
              is_call(v, "bool") and v.args[1] and v.args[1][0] is attr(SELF, "size") or v.op == "cmp" and contains(v, lambda x: x is attr(SELF, "size")) else None, "is_set is %s" % term(v), f)
    f = c.find_method("set")
    dd = mk("arg", f.params()[1])
    r = ctx.run(f, cls=c, types={dd: c})
    r.an.state = r.state
    for n in ("size", "unlimited", "stringlen"):
        v = r.norm(r.an.getattr(SELF, n))
        ctx.check("set: %s" % n, True if v is attr(dd, n) or v is attr(dd, "_" + n) or is_call(v, "bool") and v.args[1][0] in (attr(dd, n), attr(dd, "_" + n)) else
                  False if v is attr(SELF, n) or v is attr(SELF, "_" + n) or is_const(v) or v.op == "attr" and v.args[0] is dd else None, "%s becomes %s" % (n, term(v, 80)), f)
    ctx.check("set: something else than a dimension", bool([e for e in ctx.run(f, cls=c).raises() if exc_name(e.val) == "TypeError"]) or None, "no TypeError", f)


def kept(v, a):
    """value v stores the argument a: True / False / None"""
    if v is a:
        return True
    if v.op == "call" and name_of(v.args[0]) in ("int", "bool", "str") and v.args[1] and v.args[1][0] is a:
        return True
    if v.op == "ite":
        got = [kept(x, a) if not is_const(x, None) else True for x in v.args[1:]]
        isnone = v.args[0] in (cmp_("is", a, NONE), cmp_("==", a, NONE))
        notnone = v.args[0] in (not_(cmp_("is", a, NONE)), not_(cmp_("==", a, NONE)))
        if isnone and is_const(v.args[1], None):
            return kept(v.args[2], a)
        if notnone and is_const(v.args[2], None):
            return kept(v.args[1], a)
        if (is_const(v.args[1], None) or is_const(v.args[2], None)) and v.args[0] in (a, not_(a), mk("nonempty", a)):
            return False
        return None if None in got or True else False
    if is_const(v) or v.op == "not":
        return False
    if v.op == "arg":
        return False
    if v.op in ("and", "or") and a in v.args:
        return None
    if not contains(v, lambda x: x is a):
        return False
    return None


# ------------------------------------------------------------------------------------------------ canonical descriptors
def root(l):
    """the collection a loop goes over"""
    while True:
        if is_call(l, "values", "items", "keys", "copy") and l.args[0].op == "attr":
            l = l.args[0].args[0]
        elif is_call(l, "list", "tuple", "iter", "sorted", "enumerate", "reversed", "OrderedDict", "dict", "collections.OrderedDict") and l.args[1]:
            l = l.args[1][0]
        elif l.op == "coll" and len(l.args[1]) == 1 and not l.args[1][0][3] and len(l.args[1][0][4]) == 1 and \
                l.args[1][0][2] is not None and (l.args[1][0][2].op == "elem" or l.args[1][0][2].op == "tuple" and any(x.op == "elem" for x in l.args[1][0][2].args) or l.args[1][0][1] is not None and l.args[1][0][1].op == "elem"):
            l = l.args[1][0][4][0]
        else:
            return l


def item(d):
    """an item of a dictionary"""
    return mk("sub", d, mk("elem", d))


def stores(r):
    """[(event, dictionary, key, value, roots of the loops, guards)]: single items stored, one by one or all at once"""
    out = []
    for e in r.events:
        loops = [root(r.norm(l)) for l in e.loops or ()]
        gs = remaining(r, e)
        if e.kind == "setitem":
            out.append((e, r.norm(e.obj), key_of(r, e), r.norm(e.val), loops, gs))
        coll = None
        if e.kind == "setattr" and e.val is not None:
            coll, obj = r.norm(e.val), mk("attr", r.norm(e.obj), e.name.lstrip("_"))
        elif e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[1] == "update" and e.args:
            coll, obj = r.norm(e.args[0]), r.norm(e.f.args[0])
        if coll is not None and coll.op == "coll" and coll.args[0] == "dict":
            for op, key, val, guards, ls in coll.args[1]:
                if op == "set" and key is not None:
                    out.append((e, obj, key, val, loops + [root(l) for l in ls], gs + [g for g in guards if not valid(g)]))
    return out


def remaining(r, e):
    """the guards of an event but for those that only say that no error was raised before"""
    gs = [r.norm(g) for g in e.guards]
    out = []
    for g in gs:
        if valid(g):
            continue
        neg = not_(g)
        lits = neg.args if neg.op == "and" else (neg,)
        for x in r.raises():
            have = [r.norm(y) for y in x.guards]
            said = {y for y in have if y in lits or y.op == "or" and neg in y.args}
            if x.seq < e.seq and (neg.op != "and" and said or all(l in have for l in lits)) and all(y in said or y in lits or y in gs for y in have):
                break
        else:
            out.append(g)
    return out


def key_of(r, e):
    k = e.name
    return r.norm(k) if k is not None and not isinstance(k, str) else mk("const", k) if k is not None else None


def valid(g):
    """a condition that only says the arguments have the right types"""
    return contains(g, lambda x: x.op in ("call", "func") and "_is_list_of_type_" in show(x, 3)) or benign(g) or contains(g, lambda x: x.op == "isinstance")


def collected(t, unique, what):
    """t is unique(all the values of `what`), where what is [(loop root, …, value)]: True / False / None with a reason"""
    if t.op != "call" or not show(t.args[0], 3).endswith("unique>") or not t.args[1]:
        return None, "not made unique: %s" % term(t, 60)
    src = t.args[1][0] if len(t.args[1]) == 1 else None
    if src is None:
        return None, "arguments of unique"
    for roots, val in what:
        if len(roots) == 1 and root(src) is roots[0]:
            return True, ""
        if src.op == "coll":
            hit = [en for en in src.args[1] if en[2] is val and tuple(root(l) for l in en[4]) == roots]
            if any(not [g for g in en[3] if not valid(g)] for en in hit):
                return True, ""
            if hit:
                return False, "only those with %s" % [term(g, 60) for g in hit[0][3]]
    if src.op == "coll" and not src.args[1]:
        return False, "of nothing"
    return None, "collected from %s" % term(src, 100)


def relinked(ctx, r, key, where, d, by, owners, extra=()):
    """every item of dictionary d is replaced by the canonical one of the same name; owners: the loops that reach every d"""
    hits = []
    for e, obj, k, val, loops, gs in stores(r):
        if obj is not d:
            continue
        same = k is not None and val is mk("sub", by, k)
        name = k is mk("elem", d) or k is attr(item(d), "name") or k is mk("elem", by)
        covers = all(o in loops for o in owners) and (d in loops or k is mk("elem", by) and by in loops)
        hits.append((same and name, covers, gs, e, val))
    good = [h for h in hits if h[0] and h[1] and not h[2]]
    if good:
        ctx.ok(key, "", good[0][3])
        return good[0][3].seq
    touched = [e for e in r.events if e.kind in ("setitem", "setattr", "call") and e.obj is not None and r.norm(e.obj) is d or
               e.kind == "call" and e.f is not None and e.f.op == "attr" and r.norm(e.f.args[0]) is d and e.f.args[1] in ("update", "setdefault", "pop", "clear")]
    if hits:
        h = hits[0]
        if h[0] and h[2] and all(plain(g) for g in h[2]):
            ctx.bad(key, "replaced only when %s" % [term(g, 80) for g in h[2]], h[3])
        elif not h[0] and (h[4].op in ("sub", "new", "attr", "elem") or is_const(h[4])):
            ctx.bad(key, "replaced by %s" % term(h[4], 80), h[3])
        else:
            ctx.unknown(key, "stored: %s" % term(h[4], 80), h[3])
    elif touched:
        ctx.unknown(key, "changed in a way not understood", touched[0])
    else:
        ctx.bad(key, "never replaced by the canonical ones", where)
    return None


def plain(g):
    return g.op in ("cmp", "not", "and", "or", "call", "nonempty", "attr")


@rule("C16", "canonical", 11)
def c16_canonical(ctx):
    """After construction the files and variables of a dataset, and the variables of a file, hold the one canonical dimension and variable of each name."""
    c = ctx.p.cls("datasets.DatasetDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c, opaque=UNIQUE)
    r.an.state = r.state
    F = mk("arg", "files")
    fe = mk("elem", F)
    fd, fv = attr(fe, "dimensions"), attr(fe, "variables")
    v = item(fv)
    vd = attr(v, "dimensions")
    dims, vars_, files = [r.norm(r.an.getattr(SELF, n)) for n in ("dimensions", "variables", "files")]
    g, why = collected(dims, "DimensionDesc", [((F, fd), item(fd)), ((F, fv, vd), item(vd))])
    ctx.check("dataset: dimensions of every file", g, why, f)
    g, why = collected(vars_, "VariableDesc", [((F, fv), v)])
    ctx.check("dataset: variables of every file", g, why, f)
    g, why = collected(files, "FileDesc", [((F,), fe)])
    ctx.check("dataset: every file", g, why, f)
    relinked(ctx, r, "dataset: dimensions of a file", f, fd, dims, (F,))
    cv = attr(item(vars_), "dimensions")
    alt = [s for s in stores(r) if s[1] is cv]
    if alt:
        relinked(ctx, r, "dataset: dimensions of a variable", f, cv, dims, (vars_,))
    else:
        relinked(ctx, r, "dataset: dimensions of a variable", f, vd, dims, (F, fv))
    s3 = relinked(ctx, r, "dataset: variables of a file", f, fv, vars_, (F,))
    # each variable lists each file that contains it
    regs = [s for s in stores(r) if s[1].op == "attr" and s[1].args[1] == "files" and s[1].args[0] is not SELF]
    if not regs:
        called = [e for e in r.events if e.kind == "call" and e.f is not None and e.f.op == "attr" and "files" in show(e.f.args[0], 2) and e.f.args[1] in ("setdefault", "update")]
        (ctx.unknown if called else ctx.bad)("dataset: files of a variable", "no file is entered into its variables", f)
    for e, obj, k, val, loops, gs in regs:
        var, done = obj.args[0], False
        while var.op == "loop":
            # the variable as an earlier loop left it
            var = var.args[2]
        if var.op == "sub" and var.args[0] is vars_:
            done = True
        owner = None
        for cand, base in ((item(files), files), (fe, F)):
            cvars = attr(cand, "variables")
            if base in loops and cvars in loops and (var is item(cvars) or var is mk("sub", vars_, mk("elem", cvars))):
                owner = cand
            if base in loops and vars_ in loops and var is item(vars_):
                inside = [g for g in gs if g.op == "cmp" and g.args[0] == "in" and g.args[1] is mk("elem", vars_) and root(g.args[2]) is cvars]
                if inside:
                    owner, gs = cand, [g for g in gs if g not in inside]
        if owner is None:
            ctx.unknown("dataset: files of a variable", "entered for %s" % term(var, 100), e)
            continue
        direct = done
        after = direct or s3 is not None and e.seq > s3
        ctx.check("dataset: files of a variable", after and not gs if s3 is not None or direct else None,
                  "entered %s" % ("before the variables of the files are the canonical ones" if not after else "only when %s" % [term(x, 60) for x in gs]), e)
        own = {owner, fe} if F in loops else {owner}
        nm = (k in [attr(o, "name") for o in own] or k is mk("elem", files) and files in loops) and val in own
        ctx.check("dataset: the file entered", nm if nm or k is not None and val.op in ("sub", "elem", "arg", "self") else None, "under %s is %s" % (k and term(k, 60), term(val, 60)), e)
    c = ctx.p.cls("datasets.FileDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c, opaque=UNIQUE)
    r.an.state = r.state
    V = mk("arg", "variables")
    ve = mk("elem", V)
    vd = attr(ve, "dimensions")
    dims, vars_ = [r.norm(r.an.getattr(SELF, n)) for n in ("dimensions", "variables")]
    g, why = collected(dims, "DimensionDesc", [((V, vd), item(vd))])
    if g is None:
        g, why = collected(dims, "DimensionDesc", [((vars_, attr(item(vars_), "dimensions")), item(attr(item(vars_), "dimensions")))])
    ctx.check("file: dimensions of every variable", g, why, f)
    g, why = collected(vars_, "VariableDesc", [((V,), ve)])
    ctx.check("file: every variable", g, why, f)
    if [s for s in stores(r) if s[1] is vd]:
        relinked(ctx, r, "file: dimensions of a variable", f, vd, dims, (V,))
    else:
        relinked(ctx, r, "file: dimensions of a variable", f, attr(item(vars_), "dimensions"), dims, (vars_,))
    regs = [s for s in stores(r) if s[1].op == "attr" and s[1].args[1] == "files"]
    if not regs:
        ctx.bad("file: entered into its variables", "the file is not entered into its variables", f)
    for e, obj, k, val, loops, gs in regs:
        var = obj.args[0]
        known = var is item(vars_) and vars_ in loops or var is ve and V in loops
        ctx.check("file: entered into its variables", (not gs and val is SELF and k in (mk("arg", "name"), attr(SELF, "name"))) if known else None,
                  "entered %s under %s %s" % (term(val, 60), k and term(k, 60), [term(x, 60) for x in gs]), e)
    c = ctx.p.cls("datasets.VariableDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c, opaque=UNIQUE)
    r.an.state = r.state
    d = r.norm(r.an.getattr(SELF, "dimensions"))
    g, why = collected(d, "DimensionDesc", [((mk("arg", "dimensions"),), None)])
    ctx.check("variable: every dimension", g, why, f)
    ft = r.norm(r.an.getattr(SELF, "files"))
    ctx.check("variable: a file list of its own", True if ft.op in ("coll", "alloc") else False if contains(ft, lambda x: x.op == "arg") or ft.op in ("global", "class") else None, "files is %s" % term(ft, 60), f)


def every(coll, src, key, val):
    """a dictionary of all (key, val) over src: True / False / None"""
    if coll is None or coll.op != "coll":
        return None
    for op, k, v, g, loops in coll.args[1]:
        if k is key and v is val and loops and root(loops[-1]) is root(src):
            return not g
    return False if coll.args[1] and coll.args[1][0][1] is key else False if not coll.args[1] else None


@rule("C16", "input", 9)
def c16_input(ctx):
    """The description of input files holds every file, variable, dimension and attribute as the file has it."""
    c = ctx.p.cls("datasets.InputDatasetDesc")
    f = c.find_method("__init__")
    r = ctx.run(f, cls=c, opaque=("DatasetDesc.__init__", "FileDesc.__init__", "VariableDesc.__init__", "DimensionDesc.__init__"))
    made = {}
    for e in r.events:
        if e.kind == "call" and e.f is not None and e.f.op == "class":
            made.setdefault(e.f.args[0].name, []).append(e)
    FN = mk("arg", "filenames")
    for n in ("DimensionDesc", "VariableDesc", "FileDesc"):
        if len(made.get(n, [])) != 1:
            ctx.unknown(n, "%d constructions" % len(made.get(n, [])), f)
            return

    def a(n, name, pos):
        e = made[n][0]
        if len(e.args) > pos:
            return r.norm(e.args[pos])
        v = dict(e.kw).get(name)
        return r.norm(v) if v is not None else None

    def same(key, got, want, e):
        ctx.check(key, True if got is want else False if got is None or is_const(got) or got.op in ("attr", "arg", "elem", "len", "not", "cmp", "and", "or") or is_call(got, "isunlimited") or
                  got.op == "ite" and want in got.args[1:] and (is_const(got.args[1]) or is_const(got.args[2])) and not contains(got.args[0], lambda x: x is want) else None,
                  "%s" % (term(got, 100) if got is not None else "not given"), e)
    nc = [x for x in r.calls() if name_of(x.f) in ("netCDF4.Dataset", "Dataset")]
    if len(nc) != 1:
        ctx.unknown("files", "%d files opened" % len(nc), f)
        return
    N = r.norm(nc[0].res)
    name = r.norm(nc[0].args[0])
    fe, ve, de = made["FileDesc"][0], made["VariableDesc"][0], made["DimensionDesc"][0]
    ctx.check("every file", all(root(r.norm(l)) is FN for l in fe.loops) and len(fe.loops) == 1 and not fe.guards or None if name is mk("elem", FN) else None,
              "opened %s" % term(name, 60), fe)
    same("file name", a("FileDesc", "name", 0), name, fe)
    same("file format", a("FileDesc", "format", 1), attr(N, "file_format"), fe)
    at = lambda o: (mk("call", attr(o, "ncattrs"), (), ()),)
    for n, o, e, pos in (("FileDesc", N, fe, 4), ("VariableDesc", item(attr(N, "variables")), ve, 4)):
        got = a(n, "attributes", pos)
        lst = at(o)[0]
        k = mk("elem", lst)
        g = every(got, lst, k, mk("call", attr(o, "getncattr"), (k,), ())) if got is not None else False
        if g is None or g is False and got is not None:
            # __dict__, or getattr
            if got is attr(o, "__dict__") or any(x is attr(o, "__dict__") for x in walk(got)):
                g = True
        ctx.check("attributes of a %s" % ("file" if o is N else "variable"), g, "%s" % (got is not None and term(got, 100)), e)
    V = item(attr(N, "variables"))
    same("variable name", a("VariableDesc", "name", 0), mk("elem", attr(N, "variables")), ve)
    same("variable type", a("VariableDesc", "datatype", 1), attr(V, "dtype"), ve)
    d = mk("elem", attr(V, "dimensions"))
    D = mk("sub", attr(N, "dimensions"), d)
    same("dimension name", a("DimensionDesc", "name", 0), d, de)
    same("dimension size", a("DimensionDesc", "size", 1), mk("len", D), de)
    same("dimension limit", a("DimensionDesc", "unlimited", 2), mk("call", attr(D, "isunlimited"), (), ()), de)
    sl = a("DimensionDesc", "stringlen", 3)
    last = lambda x: x.op == "cmp" and x.args[0] == "==" and d in x.args[1:] and any(y.op == "sub" and y.args[0] is attr(V, "dimensions") and is_const(y.args[1], -1) for y in x.args[1:])
    text = lambda x: x.op == "cmp" and x.args[0] == "==" and any(y is attr(V, "dtype") or y is attr(attr(V, "dtype"), "kind") or y is attr(attr(V, "dtype"), "char") for y in x.args[1:]) and \
        any(is_const(z) and cval(z) in ("S1", "S", "c", "|S1") for y in x.args[1:] for z in walk(y))
    for islast, ischar in itertools.product((True, False), repeat=2):
        verdict = False
        if sl is not None:
            z = subst(sl, {x: const(islast if last(x) else ischar) for x in walk(sl) if last(x) or text(x)})
            other = any(x.op == "cmp" and d in x.args[1:] and any(y.op == "sub" and y.args[0] is attr(V, "dimensions") and is_const(y.args[1]) and cval(y.args[1]) != -1 for y in x.args[1:]) for x in walk(sl))
            verdict = (False if other else None) if truth(z) is None else truth(z) is (islast and ischar)
        ctx.check("string length, %s dimension of %s" % ("last" if islast else "other", "text" if ischar else "numbers"), verdict, "the string flag is %s" % (term(sl, 100) if sl is not None else "not given"), de)
    vs = a("FileDesc", "variables", 3)
    g = None
    if vs is not None and vs.op == "coll":
        en = [x for x in vs.args[1] if x[2] is not None and x[2].op == "new" and x[2].args[0].endswith("VariableDesc")]
        if en:
            g = len(en[0][4]) == 1 and root(en[0][4][0]) is attr(N, "variables") and not en[0][3]
    ctx.check("variables of a file", g, "%s" % (term(vs, 100) if vs is not None else "none"), fe)
    ds = a("VariableDesc", "dimensions", 2)
    g = False if ds is None else None
    if ds is not None and ds.op == "coll" and len(ds.args[1]) == 1:
        op, k, v, gs, loops = ds.args[1][0]
        lst = len(loops) == 1 and root(loops[0]) is attr(V, "dimensions")
        byname = v.op == "new" or v.op == "sub" and v.args[1] is d
        g = (lst and not gs) if byname else None
    ctx.check("dimensions of a variable", g, "%s" % (term(ds, 100) if ds is not None else "none"), ve)
