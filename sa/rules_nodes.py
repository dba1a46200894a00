"""C06 C08 C13 C15 C34: the reading, evaluating, mapping and validating nodes"""
from .engine import SELF
from .phys import DOWN, OPAQUE, SUMMARIES, UP, sign
from .q import atoms, cases, exc_name, is_call, is_new, kwarg, name_of, raises_always, same_seq, seqview, strip_seq, subst
from .rule import rule, term
from .terms import FALSE, NONE, TRUE, attr, cmp_, const, contains, cval, is_const, leaves, literals, mk, not_, rebuild, show, truth, walk

VDESC = attr(SELF, "_vdesc")
ATTRS = attr(VDESC, "attributes")
DTYPE = attr(VDESC, "dtype")
IN0 = mk("sub", attr(SELF, "inputs"), const(0))
VDIMS = mk("call", attr(attr(VDESC, "dimensions"), "keys"), (), ())
KEYS = ("units", "calendar", "positive", "valid_min", "valid_max", "ok_min_mean_abs", "ok_max_mean_abs")
LABEL = attr(SELF, "label")


def at(k):
    return mk("sub", ATTRS, const(k))


def vnode(ctx):
    return ctx.p.cls("flownodes.ValidateNode")


def request(ctx, present=(), null=False, dtype=True, assume=None, heap=None, tag=None):
    """the validating node asked for an index when exactly the attributes 'present' are declared (conditional constant propagation)"""
    key = ("validate", tuple(sorted(present)), null, dtype, tag)
    if key in ctx.cache:
        return ctx.cache[key]
    C = vnode(ctx)
    f = C.find_method("__getitem__")
    PA = ctx.p.cls("physarray.PhysArray")
    ix = mk("arg", f.params()[1])
    a = {}
    for k in KEYS:
        a[cmp_("in", const(k), ATTRS)] = TRUE if k in present else FALSE
        a[cmp_("is", at(k), NONE)] = FALSE
    a[cmp_("is", DTYPE, NONE)] = FALSE if dtype else TRUE
    a[cmp_("is", ix, NONE)] = TRUE if null else FALSE
    a.update(assume or {})
    D = mk("sub", IN0, NONE if null else ix)
    r = ctx.run(f, cls=C, args={f.params()[1]: NONE} if null else None, types={D: PA}, assume=a, opaque=OPAQUE, summaries=SUMMARIES, heap=heap)
    r.base = D
    ctx.cache[key] = r
    return r


def chain(t, base):
    """the operations that lead from base to t, outermost first: [(operation, argument term)]; None if t does not come from base alone"""
    out = []
    while t is not base:
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("astype", "convert", "transpose", "copy", "flip", "up", "down"):
            a = t.args[1][0] if t.args[1] else dict(t.args[2]).get({"astype": "dtype", "convert": "units", "transpose": "dims"}.get(t.args[0].args[1]), NONE)
            if t.args[0].args[1] == "transpose" and len(t.args[1]) > 1:
                a = mk("tuple", *t.args[1])
            out.append((t.args[0].args[1], a, t))
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0].op == "ext" and name_of(t.args[0]).split(".")[-1] == "masked_where" and len(t.args[1]) >= 2:
            out.append(("mask", t.args[1][0], t))
            t = t.args[1][1]
        elif t.op == "call" and t.args[0].op == "ext" and name_of(t.args[0]).split(".")[-1] in ("masked_less", "masked_greater", "masked_less_equal",
                                                                                             "masked_greater_equal") and len(t.args[1]) >= 2:
            op = {"masked_less": "<", "masked_greater": ">", "masked_less_equal": "<=", "masked_greater_equal": ">="}[name_of(t.args[0]).split(".")[-1]]
            out.append(("mask", cmp_(op, t.args[1][0], t.args[1][1]), t))
            t = t.args[1][0]
        elif is_new(t, "PhysArray") and t.args[1]:
            out.append(("wrap", NONE, t))
            t = t.args[1][0]
        else:
            return None
    return out


def results(r):
    """[(valuation, result, chain)] of the values a request returns"""
    cs = cases(r.norm(r.value))
    if cs is None:
        return None
    return [(v, t, chain(t, r.base)) for v, (t,) in cs if t.op not in ("never",)]


def is_meta(x, name, base):
    """x is the attribute 'name' of the data being validated, at whatever stage"""
    while x.op == "attr" and x.args[1] == name and x.args[0] is not base:
        c = chain(x.args[0], base)
        return c is not None
    return x.op == "attr" and x.args[1] == name and x.args[0] is base


def under(t, conds):
    """term t where the conditions hold"""
    m = {}
    for c in conds:
        for x in literals(c):
            if x.op == "not":
                m[x.args[0]] = FALSE
            else:
                m[x] = TRUE
    return subst(t, m)


def val_of(v, pred):
    """value under valuation v of the (only) atom satisfying pred; None if there is none"""
    got = {b for a, b in v if pred(a)}
    return got.pop() if len(got) == 1 else None


def eq_with(a, pred):
    return a.op == "cmp" and a.args[0] in ("==", "is") and (pred(a.args[1]) or pred(a.args[2]))


@rule("C13", "declared-type", 4)
def c13_type(ctx):
    """Every value the validating node returns has passed astype with the declared data type whenever one is declared, after a test that the
    cast is of the same kind, whose failure raises."""
    r = request(ctx, ())
    res = results(r)
    fn = r.fn
    if not res:
        ctx.unknown("cast", "results not separated", fn)
        return
    for v, t, c in res:
        if c is None:
            ctx.unknown("cast", term(t), fn)
            continue
        casts = [a for op, a, x in c if op == "astype"]
        ctx.check("cast", bool(casts) and r.norm(casts[0]) is DTYPE,
                  "data leave validation %s" % ("cast to %s" % term(casts[0]) if casts else "without a cast to the declared type"), fn)
    tests = [e for e in r.calls() if name_of(e.f) and name_of(e.f).split(".")[-1] == "can_cast"]
    kinds = set()
    for e in tests:
        k = kwarg(e, "casting", 2, const("safe"))
        kinds.add(cval(k) if is_const(k) else None)
        ctx.check("kind of cast", None if not is_const(k) else is_const(k, "same_kind"), "casts of kind %s are accepted" % term(k), e)
        ctx.check("cast tested", is_meta(e.args[0], "dtype", r.base) and r.norm(e.args[1]) is DTYPE if len(e.args) > 1 else None,
                  "the test compares %s" % [term(x) for x in e.args], e)
    direct = [e for e in r.calls() if name_of(e.f) == "astype" and is_const(dict(e.kw).get("casting", NONE), "same_kind")]
    if not tests and not direct:
        ctx.bad("kind of cast", "no test that the cast is of the same kind", fn)
    if tests:
        def neg(g):
            return any(x.op == "not" and is_call(x.args[0], "can_cast") for x in [g])
        ok = [e for e in r.raises() if any(neg(r.norm(g)) for g in e.guards)]
        ctx.check("refused cast raises", bool(ok), "a cast that is not of the same kind does not raise", tests[0])
    # without a declared type the input's type stays
    r = request(ctx, (), dtype=False)
    for v, t, c in results(r) or ():
        if c is None:
            continue
        casts = [a for op, a, x in c if op == "astype"]
        ctx.check("undeclared type", all(is_meta(r.norm(a), "dtype", r.base) for a in casts), "cast to %s" % [term(a) for a in casts], fn)


@rule("C13", "declared-units", 4)
def c13_units(ctx):
    """Whenever units are declared and differ from those of the data, what is returned has been converted to the declared units in the declared
    calendar; the conversion's failure is raised again as an error naming the variable."""
    for present, cal in ((("units",), False), (("units", "calendar"), True)):
        r = request(ctx, present)
        res = results(r)
        fn = r.fn
        if not res:
            ctx.unknown("conversion", "results not separated", fn)
            continue
        for v, t, c in res:
            if c is None:
                ctx.unknown("conversion", term(t), fn)
                continue
            conv = [a for op, a, x in c if op == "convert"]
            same = val_of(v, lambda a: eq_with(a, lambda x: is_meta(x, "units", r.base)))
            key = "conversion with%s calendar" % ("" if cal else "out")
            if same:
                ctx.check(key, len(conv) == 0, "data in the declared units are converted", fn)
                continue
            if not conv:
                ctx.check(key, False, "data leave validation unconverted although units are declared", fn)
                continue
            u = r.norm(conv[0])
            if not is_call(u, "Unit"):
                ctx.unknown(key, term(u), fn)
                continue
            ctx.check(key, u.args[1] and u.args[1][0] is at("units") or kwarg(u, "unit") is at("units"), "converted to %s" % term(u), fn)
            k = kwarg(u, "calendar", 1)
            ctx.check(key + " calendar", k is at("calendar") if cal else k is None or k is NONE, "converted in calendar %s" % term(k or NONE), fn)
    r = request(ctx, ("units", "calendar"))
    for e in r.calls():
        if name_of(e.f) != "convert":
            continue
        trys = [c[1] for c in e.ctx if c[0] == "try"]
        if not trys:
            ctx.bad("conversion error", "an error of the conversion does not name the variable", e)
            continue
        got = [x for x in r.raises() if any(c[0] == "except" and c[1] in trys for c in x.ctx)]
        ctx.check("conversion error", bool(got), "an error of the conversion is not raised again", e)
        for x in got:
            ctx.check("conversion error names the variable", None if x.val is None else contains(r.norm(x.val), lambda y: y is LABEL or y is attr(VDESC, "name")),
                      "the error is %s" % (term(x.val) if x.val is not None else ""), x)


@rule("C13", "declared-dimensions", 2)
def c13_dims(ctx):
    """Whatever is returned has its dimensions in the declared order: transposed to the declared names unless they are equal already."""
    for present in ((), ("units",), ("units", "valid_min")):
        r = request(ctx, present)
        res = results(r)
        fn = r.fn
        if not res:
            ctx.unknown("order", "results not separated", fn)
            continue
        for v, t, c in res:
            if c is None:
                ctx.unknown("order", term(t), fn)
                continue
            same = val_of(v, lambda a: eq_with(a, lambda x: is_meta(x, "dimensions", r.base)) and contains(a, lambda x: x is VDIMS))
            tr = [a for op, a, x in c if op == "transpose"]
            if same and not tr:
                ctx.ok("order", "", fn)
            elif not tr:
                ctx.bad("order", "data leave validation in the order of dimensions of the input", fn)
            else:
                ctx.check("order", same_seq(strip_seq(r.norm(tr[0])), VDIMS) or strip_seq(r.norm(tr[0])) is attr(VDESC, "dimensions"),
                          "transposed to %s" % term(tr[0]), fn)


@rule("C13", "declared-direction", 4)
def c13_dir(ctx):
    """With a declared direction and data of the opposite one (both propagated as constants) the data are negated once and carry the
    declared direction; data that have it already or have none are left alone."""
    for want in ("up", "down"):
        for have in ("up", "down"):
            key = "declared %s, data %s" % (want, have)
            f = vnode(ctx).find_method("__getitem__")
            D = mk("sub", IN0, mk("arg", f.params()[1]))
            r = request(ctx, ("positive",), assume={at("positive"): const(want), attr(D, "positive"): const(have),
                                                    cmp_("is", const(want), NONE): FALSE}, tag=key)
            an = r.an
            an.state = r.state
            for g, v in leaves(r.value):
                if v.op == "never":
                    continue
                s = sign(v, (r.base,), an, {k: under(x, g) for k, x in r.state.heap.items() if k[1] == "@data"})
                p = under(r.norm(an.getattr(v, "positive")), g)
                if s is None or p.op != "const":
                    ctx.unknown(key, "%s %s" % (term(v), term(p)), r.fn)
                    continue
                ctx.check(key, p is const(want) and (s[0] > 0) == (want == have), "data %s, direction %s" % ("kept" if s[0] > 0 else "negated", term(p)), r.fn)
    # whatever the direction, declared or not, without a declaration nothing is negated
    r = request(ctx, ())
    for e in r.calls():
        if name_of(e.f) in ("flip", "up", "down") and e.f.op == "attr":
            ctx.bad("undeclared", "the direction is changed although none is declared", e)
    ctx.ok("undeclared", "", r.fn)


BOUNDS = {"valid_min": ("min", "<", False), "valid_max": ("max", ">", False), "ok_min_mean_abs": ("mean", "<", True), "ok_max_mean_abs": ("mean", ">", True)}


def reduced(t, base):
    """('min'|'max'|'mean', is it of absolute values, argument) if t is such a reduction of the data; None otherwise"""
    red = {"min": "min", "amin": "min", "nanmin": "min", "max": "max", "amax": "max", "nanmax": "max", "mean": "mean", "average": "mean", "nanmean": "mean"}
    if t.op == "call" and t.args[0].op in ("ext", "attr"):
        n = name_of(t.args[0]).split(".")[-1]
        if n in red:
            x = t.args[1][0] if t.args[0].op == "ext" and t.args[1] else t.args[0].args[0] if t.args[0].op == "attr" else None
            if x is None:
                return None
            absx = False
            if x.op == "call" and name_of(x.args[0]) and name_of(x.args[0]).split(".")[-1] in ("abs", "absolute", "fabs") and x.args[1]:
                absx, x = True, x.args[1][0]
            return red[n], absx, x
    return None


def warnings(r):
    return [e for e in r.calls() if name_of(e.f) and name_of(e.f).split(".")[-1] == "warn"]


def simplified(r, e, keep):
    """the guards of an event without those about data type, order of dimensions, units, direction"""
    out = []
    for g in e.guards:
        g = r.norm(g)
        for x in literals(g):
            y = x.args[0] if x.op == "not" else x
            if is_call(y, "can_cast") or eq_with(y, lambda z: any(is_meta(z, n, r.base) for n in ("dimensions", "units", "positive"))):
                continue
            if y.op == "cmp" and y.args[0] == "==" and contains(y, lambda z: z is VDIMS):
                continue
            out.append(x)
    return out


@rule("C13", "bounds-warn", 8)
def c13_bounds(ctx):
    """For each declared bound, taken to be any value that is not None: a ValidationWarning is issued under exactly the comparison of the right
    reduction of the data (minimum, maximum, mean of absolute values) strictly beyond the bound, never depending on the bound's truth value;
    without the bound no warning is issued."""
    none = request(ctx, ())
    ctx.check("no bounds", not warnings(none), "a warning is issued although no bound is declared", none.fn)
    for k, (red, op, absx) in BOUNDS.items():
        for others in ((), ("units",)):
            r = request(ctx, (k,) + others)
            ws = [e for e in warnings(r)]
            key = k + (" with units" if others else "")
            if not ws:
                ctx.bad(key, "no warning is issued for data beyond the bound", r.fn)
                continue
            for e in ws:
                cat = kwarg(e, "category", 1)
                ctx.check(key + " category", False if cat is None else None if cat.op not in ("class", "ext") else
                          cat.op == "class" and cat.args[0].name == "ValidationWarning", "the warning's category is %s" % term(cat or NONE), e)
                rest = simplified(r, e, None)
                truthy = [x for x in rest if (x.args[0] if x.op == "not" else x) is at(k)]
                if truthy:
                    ctx.bad(key, "data are not checked against a bound of zero (the truth value of the bound is tested)", e)
                    continue
                other = [x for x in rest if not contains(x, lambda y: y is at(k))]
                cmps = [x for x in rest if contains(x, lambda y: y is at(k))]
                if len(cmps) != 1 or other and any(truth(o) is None for o in other):
                    ctx.unknown(key, "conditions %s" % [term(x) for x in rest], e)
                    continue
                c = cmps[0]
                verdict, why = comparison(r, c, k, red, op, absx)
                ctx.check(key, verdict, why, e)


def comparison(r, c, k, red, op, absx):
    neg = c.op == "not"
    if neg:
        c = c.args[0]
    if is_call(c, "any"):
        x = c.args[0].args[0] if c.args[0].op == "attr" else c.args[1][0] if c.args[1] else NONE
        if x.op == "cmp" and not neg:
            lo, hi = x.args[1], x.args[2]
            which = x.args[0]
            if which == "<" and (hi is at(k) and op == "<" or lo is at(k) and op == ">") and red != "mean":
                return True, ""
            if which == "<=":
                return False, "values equal to the bound are reported"
        return None, term(c)
    if c.op != "cmp" or c.args[0] not in ("<", "<="):
        return None, term(c)
    which, lo, hi = c.args
    if neg:      # not (a <= b)  ==  b < a
        which, lo, hi = {"<=": "<", "<": "<="}[which], hi, lo
    if lo is at(k):
        direction, x = ">", hi
    elif hi is at(k):
        direction, x = "<", lo
    else:
        return None, term(c)
    cs = cases(x)
    if cs is None:
        return None, term(x)
    for v, (y,) in cs:
        if y.op in ("unbound", "never"):
            continue
        got = reduced(y, r.base)
        if got is None:
            return None, "compared is %s" % term(y)
        if got[0] != red or got[1] != absx:
            return False, "the bound is compared with the %s of the %s" % (got[0], "absolute values" if got[1] else "values")
    if direction != op:
        return False, "the warning is issued for data on the valid side of the bound"
    if which != "<":
        return False, "a value equal to the bound is reported"
    return True, ""


@rule("C13", "bounds-of-final-data", 4)
def c13_final(ctx):
    """The data compared with a bound are those that are returned: converted to the declared units and in the declared direction."""
    for k in BOUNDS:
        r = request(ctx, (k, "units", "positive"))
        reds = [(e, reduced(r.norm(e.res), r.base)) for e in r.calls() if e.res is not None]
        reds = [(e, x) for e, x in reds if x]
        if not reds:
            ctx.unknown(k, "no reduction of the data found", r.fn)
        for e, (n, ab, x) in reds:
            cs = cases(x)
            if cs is None:
                ctx.unknown(k, "too many cases", e)
                continue
            for v, (y,) in cs:
                c = chain(y, r.base)
                if c is None:
                    ctx.unknown(k, term(y), e)
                    continue
                same = val_of(v, lambda a: eq_with(a, lambda z: is_meta(z, "units", r.base)))
                ctx.check(k + " units", True if same else any(op == "convert" for op, a, t in c), "the bound is compared with data in other units", e)
            late = [f for f in r.calls() if f.f is not None and f.f.op == "attr" and name_of(f.f) in ("flip", "up", "down") and f.seq > e.seq]
            ctx.check(k + " direction", not late, "the bound is compared with data before their direction is set", e)


@rule("C13", "mask-strictly-outside", 4)
def c13_mask(ctx):
    """Only values strictly below a declared minimum or above a declared maximum are masked, whether one or both are declared; acceptable
    means mask nothing."""
    for present in (("valid_min",), ("valid_max",), ("valid_min", "valid_max"), ("ok_min_mean_abs",), ("ok_max_mean_abs",), ()):
        r = request(ctx, present)
        res = results(r)
        key = " and ".join(present) or "no bounds"
        if res is None:
            ctx.unknown(key, "results not separated", r.fn)
            continue
        for v, t, c in res:
            if c is None:
                ctx.unknown(key, term(t), r.fn)
                continue
            for op, m, x in c:
                if op != "mask":
                    continue
                m = r.norm(m)
                if not (m.op == "cmp" and m.args[0] in ("<", "<=")):
                    ctx.unknown(key, "masked where %s" % term(m), r.fn)
                    continue
                which, lo, hi = m.args
                if hi is at("valid_min") and "valid_min" in present or lo is at("valid_max") and "valid_max" in present:
                    ctx.check(key, which == "<", "values equal to the bound are masked", r.fn)
                elif lo is at("valid_min") or hi is at("valid_max"):
                    ctx.bad(key, "values inside the valid range are masked", r.fn)
                else:
                    ctx.unknown(key, "masked where %s" % term(m), r.fn)
        ctx.ok(key, "", r.fn)
    for e in request(ctx, ("valid_min", "valid_max", "ok_min_mean_abs", "ok_max_mean_abs")).events:
        if e.kind == "setitem" and e.obj is not None and e.obj.op != "alloc":
            ctx.bad("other changes", "validation stores into the data", e)


# ---------------------------------------------------------------------- metadata requests (C08)

@rule("C08", "validate-null", 6)
def c08_validate(ctx):
    """Asked with the null index (propagated as a constant), whatever attributes are declared, the validating node asks its input only with the
    null index and neither converts, compares, masks nor warns; its constructor asks for metadata only."""
    for present in ((), ("units", "calendar"), ("positive",), ("valid_min", "valid_max"), ("ok_min_mean_abs", "ok_max_mean_abs"), KEYS):
        r = request(ctx, present, null=True)
        key = ",".join(present) or "nothing declared"
        asked = [e for e in r.events if e.kind == "getitem" and r.norm(e.obj) is IN0]
        for e in asked:
            ctx.check(key + " request", r.norm(e.name) is NONE, "the input is asked for %s" % term(e.name), e)
        if not asked:
            ctx.unknown(key + " request", "no request of the input", r.fn)
        bad = [e for e in r.calls() if name_of(e.f) and name_of(e.f).split(".")[-1] in
               ("warn", "convert", "min", "max", "amin", "amax", "mean", "masked_where", "masked_less", "masked_greater", "any", "all", "abs")
               and (e.f.op in ("ext", "attr") and (contains(e.f, lambda x: x is r.base) or any(contains(a, lambda x: x is r.base) for a in e.args) or
                                                    name_of(e.f).endswith("warn")))]
        ctx.check(key + " effects", not bad, "a metadata request calls %s" % (name_of(bad[0].f) if bad else ""), bad[0] if bad else r.fn)
    C = vnode(ctx)
    f = C.find_method("__init__")
    r = ctx.run(f, cls=C, opaque=OPAQUE, summaries=SUMMARIES)
    d = mk("arg", f.params()[2])
    for e in r.events:
        if e.kind == "getitem" and r.norm(e.obj) is d:
            ctx.check("constructor", r.norm(e.name) is NONE, "the constructor asks its input for %s" % term(e.name), e)


def node(ctx, cname, null=None, **kw):
    key = ("node", cname, null)
    if key not in ctx.cache:
        C = ctx.p.cls("flownodes." + cname)
        f = C.find_method("__getitem__")
        ix = mk("arg", f.params()[1])
        args = {f.params()[1]: NONE} if null else None
        assume = {cmp_("is", ix, NONE): FALSE} if null is False else {}
        ctx.cache[key] = ctx.run(f, cls=C, args=args, assume=assume, opaque=OPAQUE + ("align_index", "index_tuple", "join"), summaries=SUMMARIES, **kw)
    return ctx.cache[key]


@rule("C08", "evaluate-forwards", 4)
def c08_eval(ctx):
    """The evaluating and the data node hand the index they are asked for, the null index included, unchanged to their function or data."""
    for cname, holder in (("EvalNode", "_function"), ("DataNode", "_data")):
        for null in (True, False):
            r = node(ctx, cname, null)
            ix = NONE if null else mk("arg", r.fn.params()[1])
            asked = [e for e in r.events if e.kind == "getitem" and r.norm(e.obj).op == "attr" and r.norm(e.obj).args[0] is SELF]
            key = "%s %s" % (cname, "null" if null else "index")
            if not asked:
                ctx.unknown(key, "no request found", r.fn)
            for e in asked:
                k = r.norm(e.name)
                ctx.check(key, True if k is ix else False if all(x.op in ("const", "slice", "tuple", "arg") for g, x in leaves(k)) else None,
                          "asked for %s" % term(k), e)


@rule("C08", "map-null", 2)
def c08_map(ctx):
    """The mapping node asks its input only with the null index when asked so, and otherwise at most once with another one."""
    r = node(ctx, "MapNode", True)
    asked = [e for e in r.events if e.kind == "getitem" and r.norm(e.obj) is IN0]
    for e in asked:
        ctx.check("null request", all(x is NONE for g, x in leaves(r.norm(e.name))), "the input is asked for %s" % term(e.name), e)
    if not asked:
        ctx.unknown("null request", "no request of the input found", r.fn)
    r = node(ctx, "MapNode", False)
    for e in r.events:
        if e.kind == "getitem" and r.norm(e.obj) is IN0:
            k = r.norm(e.name)
            if k is NONE:
                ctx.ok("metadata", "", e)
            elif k.op in ("slice", "const") or k.op == "tuple" and not k.args:
                ctx.bad("request", "the input is asked for %s whatever the index" % term(k), e)
            else:
                ctx.ok("request", "", e)


@rule("C08", "read-null", 2)
def c08_read(ctx):
    """For the null index every dimension is aligned to an empty slice, and the reading node takes data of its variable only through the index
    joined from its own and the aligned one; the data flow asks definitions for metadata only."""
    f = ctx.p.func("indexing.align_index")
    r = ctx.run(f, args={f.params()[0]: NONE})
    for g, x in leaves(r.norm(r.value)):
        recs = seqview(x)
        good = None
        if recs is not None:
            good = len(recs) == 1 and not recs[0][1] and [strip_seq(l) for l in recs[0][2]] == [mk("arg", f.params()[1])] and empty(recs[0][0])
        elif x.op == "bin" and x.args[0] == "*":
            a, b = x.args[1:]
            a, b = (a, b) if a.op in ("tuple", "coll") else (b, a)
            s = seqview(a)
            if s is not None and len(s) == 1 and b.op == "len" and b.args[0] is mk("arg", f.params()[1]):
                good = empty(s[0][0])
        ctx.check("null index", good, "the null index becomes %s" % term(x), f)
    r = node(ctx, "ReadNode", False)
    n = 0
    for e in r.events:
        if e.kind != "getitem" or not is_variable(r.norm(e.obj)):
            continue
        n += 1
        k = r.norm(e.name)
        ctx.check("data read", True if is_call(k, "join") else False if k.op in ("slice", "const") or k is mk("arg", r.fn.params()[1]) else None,
                  "data are read at %s" % term(k), e)
    for e in r.calls():
        if e.f is not None and e.f.op == "attr" and is_variable(r.norm(e.f.args[0])) and e.f.args[1] in ("get_value", "__array__", "tolist"):
            ctx.bad("data read", "the whole variable is read", e)
        if name_of(e.f) and name_of(e.f).split(".")[-1] in ("asarray", "array", "min", "max", "sum") and any(is_variable(r.norm(a)) for a in e.args):
            ctx.bad("data read", "the whole variable is read by %s" % name_of(e.f), e)
    if not n:
        ctx.unknown("data read", "no read found", r.fn)


def empty(t):
    """a slice that selects nothing whatever the size"""
    if t.op != "slice" and not is_call(t, "slice"):
        return None
    a = list(t.args) if t.op == "slice" else list(t.args[1])
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    start, stop = a[0], a[1]
    if not all(is_const(x) for x in a):
        return None
    lo = cval(start) or 0
    hi = cval(stop)
    return hi is not None and (lo == hi or 0 <= hi <= lo)


def is_variable(t):
    """a variable of the opened file"""
    return t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "variables" and t.args[1] is attr(SELF, "_variable")


# ---------------------------------------------------------------------- reading (C34)

def reading(ctx):
    r = node(ctx, "ReadNode", False)
    ix = mk("arg", r.fn.params()[1])
    var = None
    for e in r.events:
        if e.kind == "getitem" and is_variable(r.norm(e.obj)):
            var = r.norm(e.obj)
    return r, ix, var


def kept(t):
    """(dimensions, indices) if t is the tuple of those dimensions whose index is a slice"""
    recs = seqview(t)
    if recs is None or len(recs) != 1:
        return None
    v, g, l = recs[0]
    if len(g) != 1 or len(l) != 1 or v.op != "elem":
        return None
    g = g[0]
    test = g.args[0] if g.op == "not" else g
    if is_call(l[0], "zip") and len(l[0].args[1]) == 2 and test.op == "isinstance" and test.args[0].op == "elem":
        a, b = l[0].args[1]
        if strip_seq(a) is strip_seq(test.args[0].args[0]):
            a, b = b, a
        inner = seqview(a)
        if strip_seq(b) is strip_seq(test.args[0].args[0]) and inner is not None and len(inner) == 1 and inner[0][0] is v:
            v = mk("elem", a)           # the elements of a filtered sequence show as those of the sequence filtered
    if g.op == "isinstance" and g.args[0].op == "elem" and contains(g.args[1], lambda x: show(x).strip(">").endswith("slice")):
        return strip_seq(v.args[0]), strip_seq(g.args[0].args[0])
    if g.op == "not" and g.args[0].op == "isinstance" and g.args[0].args[0].op == "elem" and \
            contains(g.args[0].args[1], lambda x: show(x).strip(">").endswith("int")) and not contains(g.args[0].args[1], lambda x: show(x).strip(">").endswith("slice")):
        return strip_seq(v.args[0]), strip_seq(g.args[0].args[0].args[0])
    return None


def data_leaves(t):
    """values a data term can have, casts taken off"""
    out = []
    for g, x in leaves(t):
        while x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("astype", "copy"):
            x = x.args[0].args[0]
        if x.op == "ite":
            out += data_leaves(x)
        else:
            out.append(x)
    return out


@rule("C34", "composed-index", 5)
def c34_join(ctx):
    """Data are read from the file's variable only at the index joined, over the variable's own shape, from the definition's index aligned to the
    variable's dimensions and the requested index aligned to the dimensions the first one leaves (in this order); the result is named by the
    dimensions left after both."""
    r, ix, var = reading(ctx)
    fn = r.fn
    own = attr(SELF, "_index")
    for g, res in leaves(r.norm(r.value)):
        if not is_new(res, "PhysArray"):
            ctx.unknown("result", term(res), fn)
            continue
        for d in data_leaves(res.args[1][0] if res.args[1] else kwarg(res, "indata", 0)):
            if d.op == "sub" and d.args[0].op == "sub" and is_variable(d.args[0].args[0]):
                ctx.unknown("index", term(d), fn)
                continue
            if d.op != "sub" or not is_variable(d.args[0]):
                ctx.unknown("index", term(d), fn)
                continue
            var, j = d.args
            if not is_call(j, "join") or len(j.args[1]) != 3:
                ctx.check("index", False if j is ix or is_call(j, "align_index") or j is own else None, "data are read at %s" % term(j), fn)
                continue
            shape, i1, i2 = j.args[1]
            ctx.check("shape", True if shape is attr(var, "shape") else None if not contains(shape, lambda x: x is own or x is ix) else False,
                      "joined over %s" % term(shape), fn)
            ok1 = is_call(i1, "align_index") and len(i1.args[1]) == 2 and i1.args[1][0] is own and strip_seq(i1.args[1][1]) is attr(var, "dimensions")
            ctx.check("first index", True if ok1 else False if contains(i1, lambda x: x is ix) and not contains(i1, lambda x: x is own) else None,
                      "the first index is %s" % term(i1), fn)
            if not is_call(i2, "align_index") or len(i2.args[1]) != 2:
                ctx.check("second index", False if not contains(i2, lambda x: x is ix) else None, "the second index is %s" % term(i2), fn)
                continue
            ctx.check("second index", i2.args[1][0] is ix, "the second index is aligned from %s" % term(i2.args[1][0]), fn)
            k = kept(i2.args[1][1])
            if k is None:
                ctx.check("second index dimensions", False if strip_seq(i2.args[1][1]) is attr(var, "dimensions") else None,
                          "the requested index is aligned to %s" % term(i2.args[1][1]), fn)
            else:
                ctx.check("second index dimensions", k[0] is attr(var, "dimensions") and k[1] is strip_seq(i1),
                          "the requested index is aligned to %s" % term(i2.args[1][1]), fn)
            dims = kwarg(res, "dimensions", 3)
            if dims is None:
                ctx.bad("dimensions left", "the result carries no dimensions", fn)
                continue
            k = kept(dims)
            if k is None:
                ctx.check("dimensions left", False if strip_seq(dims) is attr(var, "dimensions") else None, "the dimensions are %s" % term(dims), fn)
            else:
                ctx.check("dimensions left", same_seq(k[0], i2.args[1][1]) and k[1] is strip_seq(i2), "the dimensions are %s" % term(dims), fn)


def file_attribute(t, var):
    """(name, default) if t reads an attribute of the variable as it is in the file"""
    if t.op == "ite":
        c, a, b = t.args
        if c.op == "cmp" and c.args[0] == "in" and is_const(c.args[1]) and a.op == "sub" and a.args[1] is c.args[1] and \
                contains(a.args[0], lambda x: x.op == "attr" and x.args[0] is var and x.args[1] in ("ncattrs", "__dict__")):
            return cval(c.args[1]), b
        if c.op == "cmp" and c.args[0] == "in" and is_const(c.args[1]) and (is_call(a, "getncattr") and a.args[1] == (c.args[1],) or a is attr(var, cval(c.args[1]))):
            return cval(c.args[1]), b
    if is_call(t, "getattr") and len(t.args[1]) == 3 and t.args[1][0] is var and is_const(t.args[1][1]):
        return cval(t.args[1][1]), t.args[1][2]
    if t.op == "attr" and t.args[0] is var:
        return t.args[1], None
    return None


@rule("C34", "file-metadata", 5)
def c34_meta(ctx):
    """The result has the units and calendar attributes of the file's variable, no units if there are none or, with a UnitsWarning issued only for
    a ValueError of the units library, if they are not recognised, and the file's positive attribute or none."""
    r, ix, var = reading(ctx)
    fn = r.fn
    for g, res in leaves(r.norm(r.value)):
        if not is_new(res, "PhysArray"):
            continue
        us = [x for h, x in leaves(kwarg(res, "units", 2, NONE))]
        if us == [NONE]:
            ctx.bad("units", "the result carries no units", fn)
        for u in us:
            if not is_call(u, "Unit") and not is_new(u, "Unit"):
                ctx.unknown("units", term(u), fn)
                continue
            a = kwarg(u, "unit", 0)
            if is_const(a, 1, "1", ""):
                ctx.ok("unitless", "", fn)
                continue
            fa = file_attribute(a, var)
            ctx.check("units", None if fa is None else fa[0] == "units" and (fa[1] is None or is_const(fa[1], 1, "1")), "the units are %s" % term(u), fn)
            c = kwarg(u, "calendar", 1)
            fc = file_attribute(c, var) if c is not None else None
            ctx.check("calendar", False if c is None or c is NONE else None if fc is None else fc[0] == "calendar" and (fc[1] is None or fc[1] is NONE),
                      "the calendar is %s" % term(c or NONE), fn)
        p = kwarg(res, "positive", 4)
        fp = file_attribute(p, var) if p is not None else None
        ctx.check("positive", False if p is None or is_const(p) else None if fp is None else fp[0] == "positive" and (fp[1] is None or fp[1] is NONE),
                  "the direction is %s" % term(p or NONE), fn)
    units = [e for e in r.calls() if name_of(e.f) and name_of(e.f).split(".")[-1] == "Unit" and any(c[0] == "try" for c in e.ctx)]
    for e in warnings(r):
        h = [c for c in e.ctx if c[0] == "except"]
        cat = kwarg(e, "category", 1)
        if not h:
            ctx.unknown("unrecognised units", "warning outside a handler", e)
            continue
        ctx.check("unrecognised units", set(h[-1][2]) == {"ValueError"}, "%s is taken for unrecognised units" % (h[-1][2],), e)
        ctx.check("warning category", False if cat is None else cat.op == "class" and cat.args[0].name == "UnitsWarning", "category %s" % term(cat or NONE), e)
    if units:
        t = [c[1] for c in units[0].ctx if c[0] == "try"][-1]
        fallback = [e for e in r.calls() if any(c[0] == "except" and c[1] == t for c in e.ctx) and name_of(e.f) == "cf_units.Unit"]
        warned = [e for e in warnings(r) if any(c[0] == "except" and c[1] == t for c in e.ctx)]
        ctx.check("fallback announced", not fallback or bool(warned), "unrecognised units become unitless without a warning", fallback[0] if fallback else units[0])


@rule("C34", "aligned-index", 6)
def c34_align(ctx):
    """An index is aligned by name (missing names give full slices) or padded to the number of dimensions with full slices where the ellipsis
    stands or at the end, as shown by the linear form of its length; more than one ellipsis or too many indices raises an IndexError."""
    from .poly import K, V, poly
    f = ctx.p.func("indexing.align_index")
    r = ctx.run(f, opaque=("index_tuple",))
    ix, dims = [mk("arg", p) for p in f.params()[:2]]
    for g, x in leaves(r.norm(r.value)):
        if any(c is cmp_("is", ix, NONE) for c in g):
            continue
        byname = any(c.op == "isinstance" for c in g)
        if byname:
            recs = seqview(x)
            if recs is None or len(recs) != 1:
                ctx.unknown("by name", term(x), f)
                continue
            v, gg, l = recs[0]
            d = mk("elem", dims)
            want = v.op == "ite" and v.args[0] is cmp_("in", d, ix) and v.args[1] is mk("sub", ix, d)
            full = v.op == "ite" and v.args[2].op == "slice" and all(y is NONE or is_const(y, 0) and i == 0 or is_const(y, 1) and i == 2 for i, y in enumerate(v.args[2].args))
            ctx.check("by name", None if v.op != "ite" or gg else bool(want and full and len(l) == 1 and strip_seq(l[0]) is dims),
                      "the index along a dimension is %s" % term(v), f)
        else:
            ctx.check("by position", True if is_call(x, "index_tuple") and x.args[1][0] is ix and x.args[1][1] is mk("len", dims) else None, term(x), f)
    f = ctx.p.func("indexing.index_tuple")
    r = ctx.run(f)
    n = mk("arg", f.params()[1])

    def lens(t):
        if t.op == "sub" and t.args[1].op == "slice":
            a, b, c = t.args[1].args
            if c is NONE or is_const(c, 1):
                top = poly(b, lens) if b is not NONE else V(mk("len", t.args[0]))
                if b is not NONE and poly(b, lens).const() is not None and poly(b, lens).const() < 0:
                    return None
                return top - (poly(a, lens) if a is not NONE else K(0))
        if t.op == "bin" and t.args[0] == "*":
            a, b = t.args[1:]
            if b.op in ("tuple", "coll"):
                a, b = b, a
            s = seqview(a)
            return K(len(s)) * poly(b, lens) if s is not None else None
        if t.op == "bin" and t.args[0] == "+":
            a, b = lens(t.args[1]), lens(t.args[2])
            return None if a is None or b is None else a + b
        if t.op == "tuple":
            return K(len(t.args))
        s = seqview(t)
        if s is not None and len(s) == 1 and not s[0][1] and len(s[0][2]) == 1 and is_call(s[0][2][0], "range") and len(s[0][2][0].args[1]) == 1:
            return poly(s[0][2][0].args[1][0], lens)
        return V(mk("len", t))

    def pieces(t):
        if t.op == "bin" and t.args[0] == "+":
            return pieces(t.args[1]) + pieces(t.args[2])
        return [t]
    k = 0
    for g, x in leaves(r.norm(r.value)):
        if x.op == "never":
            continue
        if x.op == "tuple" and not x.args:
            ctx.check("no dimensions", True if any(c is cmp_("==", n, const(0)) or c is not_(mk("nonempty", n)) for c in g) else None, "", f)
            continue
        L = lens(x)
        ctx.check("length", None if L is None else L == V(n), "the index has %s elements" % term(x), f)
        ps = pieces(x)
        fills = [i for i, p in enumerate(ps) if p.op == "bin" and p.args[0] == "*" or p.op == "coll"]
        for i in fills:
            p = ps[i]
            s = [y for y in walk(p) if y.op == "slice" and y.args[1] is not None]
            full = [y for y in s if all(z is NONE for z in y.args)]
            ctx.check("filled with full slices", None if not s else bool(full), "filled with %s" % term(p), f)
        if len(fills) == 1 and len(ps) in (2, 3):
            k += 1
            i = fills[0]
            ctx.check("place of the fill", i == 1, "the full slices stand before the given indices", f)
    errs = [e for e in r.raises() if exc_name(r.norm(e.val)) == "IndexError"]
    few = [e for e in errs if any(lit.op == "cmp" and lit.args[0] in ("<", "<=") for gg in e.guards for lit in literals(r.norm(gg)))]
    ctx.check("too many indices", bool(few), "too many indices do not raise an IndexError", f)
    many = [e for e in errs if any(contains(r.norm(gg), lambda y: y is mk("ext", "Ellipsis") or is_const(y, Ellipsis) or show(y, 1) == "Ellipsis") for gg in e.guards)]
    ctx.check("too many ellipses", bool(many), "more than one ellipsis does not raise an IndexError", f)
    for e in few:
        for gg in e.guards:
            for lit in literals(r.norm(gg)):
                if lit.op == "cmp" and lit.args[0] in ("<", "<=") :
                    lo, hi = poly(lit.args[1], lens), poly(lit.args[2], lens)
                    d = hi - lo          # condition: d > 0 (or >= 0)
                    if n not in d.atoms():
                        continue
                    # number of indices (without the ellipsis) minus dimensions must be > 0
                    given = d + V(n)
                    if given.atoms() and n not in given.atoms():
                        c = given.m.get((), 0)
                        full = [a for a in given.atoms() if a.op == "len"]
                        ctx.check("too many indices bound", None if not full else (lit.args[0] == "<" and c in (0, -1)),
                                  "raises when %s" % term(lit), e)
