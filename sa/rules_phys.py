"""C03 C04 C05 C07 C30 C33: rules on pyconform.physarray"""
from .engine import SELF
from .phys import DOWN, OPAQUE, SUMMARIES, UP, rawops, sign, unwrap
from .q import atoms, cases, decide, exc_name, is_call, is_new, kwarg, name_of, raises_always, same_seq, seqview, strip_seq
from .rule import rule, term
from .terms import FALSE, NONE, TRUE, attr, cmp_, const, contains, cval, is_const, leaves, mk, not_, show, walk

OTHER = mk("arg", "other")
DIRS = {"none": NONE, "up": UP, "down": DOWN}
PLAIN = ("__add__", "__sub__", "__mul__", "__truediv__", "__floordiv__")
REFL = {"__radd__": "__add__", "__rsub__": "__sub__", "__rmul__": "__mul__", "__rtruediv__": "__truediv__", "__rfloordiv__": "__floordiv__"}
INPL = ("__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__")


def arith(ctx, name, sp=None, op=None, **kw):
    """analyse one operator with the operands' directions fixed (conditional constant propagation)"""
    key = ("arith", name, sp, op)
    if key in ctx.cache:
        return ctx.cache[key]
    PA = ctx.p.cls("physarray.PhysArray")
    assume = {}
    if sp is not None:
        assume[attr(SELF, "positive")] = DIRS[sp]
    if op is not None:
        assume[attr(OTHER, "positive")] = DIRS[op]
    f = PA.find_method(name)
    r = None
    if f is not None:
        r = ctx.run(f, cls=PA, args={f.params()[1]: OTHER}, types={OTHER: PA}, assume=assume, opaque=OPAQUE, summaries=SUMMARIES)
    ctx.cache[key] = r
    return r


def raw(ctx, r, base):
    """the single raw operation of the analysis: (event, left, right)"""
    ops = [x for x in rawops(r) if x[1].startswith("__")]
    ops = [x for x in ops if x[1].strip("_").lstrip("ir") in (base.strip("_").lstrip("ir"), base.strip("_"))]
    return ops


def result_attr(r, name, inplace):
    an = r.an
    an.state = r.state
    return r.norm(an.getattr(SELF if inplace else r.value, name)), (SELF if inplace else r.value)


@rule("C05", "combined-direction", 9 * 15)
def c05_table(ctx):
    """For every arithmetic operator (plain, reflected, in place) and each of the nine combinations of the two operands' directions,
    propagated as constants: exactly one operand is negated if the directions are opposite and none otherwise, and the result has
    the common direction (the one direction given, if only one is)."""
    for name in PLAIN + tuple(REFL) + INPL:
        for sp in DIRS:
            for op in DIRS:
                key = "%s self=%s other=%s" % (name, sp, op)
                r = arith(ctx, name, sp, op)
                if r is None:
                    ctx.bad(key, "operator is not defined by PhysArray, so numpy's own applies without matching directions")
                    continue
                base = REFL.get(name, name)
                ops = raw(ctx, r, base)
                if len(ops) != 1:
                    ctx.unknown(key, "%d raw operations" % len(ops), r.fn)
                    continue
                e, _, left, right = ops[0]
                roots = (SELF, OTHER)
                ls = sign(left, roots, r.an, e.heap)
                rs = sign(right, roots, r.an, e.heap)
                inplace = name in INPL
                pos, val = result_attr(r, "positive", inplace)
                if ls is None or rs is None or ls[1] is rs[1]:
                    ctx.unknown(key, "operands not traced: %s %s" % (term(left), term(right)), e)
                    continue
                dirs = {SELF: sp, OTHER: op}
                eff = []
                for s, root in (ls, rs):
                    d = dirs[root]
                    if d != "none" and s < 0:
                        d = "down" if d == "up" else "up"
                    eff.append(d)
                wrong = None
                if any(dirs[root] == "none" and s < 0 for s, root in (ls, rs)):
                    wrong = "an operand without direction is negated"
                elif "none" not in eff and eff[0] != eff[1]:
                    wrong = "operands are combined with opposite directions"
                elif sp == op and (ls[0] < 0 or rs[0] < 0):
                    wrong = "operands of equal direction are negated"
                elif "none" in (sp, op) and (ls[0] < 0 or rs[0] < 0):
                    wrong = "an operand is negated though only one has a direction"
                elif inplace and sign(SELF, (SELF,), r.an, e.heap) and dirs[SELF] != "none" and ls[1] is SELF and ls[0] < 0:
                    wrong = "the left operand of an in-place operator is negated"
                want = next((d for d in eff if d != "none"), "none")
                if wrong is None:
                    if pos.op != "const":
                        ctx.unknown(key, "direction of the result not decided: %s" % term(pos), e)
                        continue
                    if pos is not DIRS[want]:
                        wrong = "the result has direction %s instead of %s" % (show(pos), want)
                    else:
                        rv = sign(r.value, (mk("raw"),)) if False else None
                ctx.check(key, wrong is None, wrong or "", e)


@rule("C05", "power-direction", 4)
def c05_pow(ctx):
    """A power has its base's direction if the exponent is odd and none if it is even, whatever else is known of the exponent, in the plain
    and the in-place form."""
    PA = ctx.p.cls("physarray.PhysArray")
    for name in ("__pow__", "__ipow__"):
        f = PA.find_method(name)
        if f is None:
            continue
        for sp in ("up", "down"):
            key = "%s of %s" % (name, sp)
            r = ctx.run(f, cls=PA, args={f.params()[1]: OTHER}, types={OTHER: PA}, assume={attr(SELF, "positive"): DIRS[sp]},
                        opaque=OPAQUE + ("_check_exponent_",), summaries=SUMMARIES)
            pos, val = result_attr(r, "positive", name == "__ipow__")
            cs = cases(pos)
            if cs is None:
                ctx.unknown(key, term(pos), f)
                continue
            seen = {True: set(), False: set()}
            for v, (x,) in cs:
                even = None
                for a, b in v:
                    m = [y for y in walk(a) if y.op == "bin" and y.args[0] == "%" and is_const(y.args[2], 2)]
                    if m and a.op == "cmp" and a.args[0] == "==" and is_const(a.args[2] if a.args[1] is m[0] else a.args[1], 0):
                        even = b
                    elif m and a.op == "cmp" and a.args[0] == "==" and is_const(a.args[2] if a.args[1] is m[0] else a.args[1], 1):
                        even = not b
                    elif m and a is m[0]:
                        even = not b
                if even is not None:
                    seen[even].add(x)
                elif not v or not any(a.op == "isinstance" for a, b in v):
                    seen[True].add(x)
                    seen[False].add(x)
            for even in (True, False):
                want = NONE if even else DIRS[sp]
                vals = seen[even]
                ctx.check(key + (" even" if even else " odd"), None if not vals or any(x.op != "const" for x in vals) else vals == {want},
                          "the direction is %s" % [show(x) for x in vals], f)


@rule("C05", "result-not-negated", 15)
def c05_res(ctx):
    """The value an operator returns is the raw operation's result itself (possibly rewrapped), not negated again."""
    for name in PLAIN + tuple(REFL):
        r = arith(ctx, name, "up", "down")
        if r is None:
            continue
        ops = raw(ctx, r, REFL.get(name, name))
        if len(ops) != 1:
            ctx.unknown(name, "raw operation not found", r.fn)
            continue
        res = ops[0][0].res
        for g, v in leaves(r.value):
            heap = dict(r.state.heap)
            s = sign(v, (res,), r.an, heap)
            ctx.check(name, None if s is None else s[0] > 0, "the result of the operation is negated", ops[0][0])
    for name in INPL:
        r = arith(ctx, name, "up", "down")
        if r is None:
            continue
        ops = raw(ctx, r, name)
        if len(ops) != 1:
            ctx.unknown(name, "raw operation not found", r.fn)
            continue
        d = r.state.heap.get((SELF, "@data"))
        n = 0
        while d is not None and d.op != "superop":
            if d.op in ("neg",) or d.op == "bin" and d.args[0] == "*" and is_const(d.args[2], -1):
                n += 1
                d = d.args[-1] if d.op == "neg" else d.args[1]
            else:
                break
        ctx.check(name, None if d is None or d.op != "superop" else n % 2 == 0, "the result of the operation is negated", ops[0][0])


@rule("C05", "flip-up-down", 9)
def c05_dir(ctx):
    """flip, up and down, with each direction propagated as a constant: the values are negated exactly when the direction becomes
    the opposite of what it was, and the direction afterwards is the one the name says."""
    PA = ctx.p.cls("physarray.PhysArray")
    for name in ("flip", "up", "down"):
        f = PA.find_method(name)
        if f is None:
            ctx.bad(name, "method is missing")
            continue
        for sp, st in DIRS.items():
            key = "%s from %s" % (name, sp)
            opq = tuple(o for o in OPAQUE if o.split(".")[1] in ("convert", "transpose"))
            r = ctx.run(f, cls=PA, assume={attr(SELF, "positive"): st}, opaque=opq, summaries=SUMMARIES)
            an = r.an
            an.state = r.state
            v = r.value
            if v.op == "ite":
                ctx.unknown(key, "result not decided: %s" % term(v), f)
                continue
            pos = r.norm(an.getattr(v, "positive"))
            s = sign(v, (SELF,), an, r.state.heap)
            want = {"flip": {"none": "none", "up": "down", "down": "up"}[sp]}.get(name, name)
            neg = sp != "none" and want != sp
            if s is None or pos.op != "const":
                ctx.unknown(key, "%s %s" % (term(v), term(pos)), f)
                continue
            ctx.check(key, pos is DIRS[want] and (s[0] < 0) == neg,
                      "direction becomes %s (should be %s), values are %snegated" % (show(pos), want, "" if s[0] < 0 else "not "), f)


@rule("C05", "direction-functions", 6)
def c05_fun(ctx):
    """The up and down functions of the definition language return the argument's data in the direction they name, negated exactly
    when it had the opposite direction."""
    PA = ctx.p.cls("physarray.PhysArray")
    found = {}
    for c in ctx.p.subclasses("Function"):
        k = c.find_attr("key")[1]
        k = getattr(k, "value", None)
        if k in ("up", "down"):
            found[k] = c
    for k in ("up", "down"):
        if k not in found:
            ctx.bad(k, "no function with this name")
            continue
        c = found[k]
        f = c.find_method("__getitem__")
        data = mk("sub", mk("sub", attr(SELF, "arguments"), const(0)), mk("arg", f.params()[1]))
        for sp, st in DIRS.items():
            key = "%s(x) with x %s" % (k, sp)
            r = ctx.run(f, cls=c, types={data: PA, data.args[0]: ctx.p.cls("flownodes.FlowNode")}, assume={attr(data, "positive"): st}, opaque=OPAQUE, summaries=SUMMARIES)
            vals = [(g, v) for g, v in leaves(r.value)]
            for g, v in vals:
                an = r.an
                an.state = r.state
                s = sign(v, (data,), an, r.state.heap)
                pos = r.norm(an.getattr(v, "positive"))
                if s is None or pos.op != "const":
                    ctx.unknown(key, "%s %s" % (term(v), term(pos)), f)
                    continue
                neg = sp != "none" and sp != k
                ctx.check(key, pos is DIRS[k] and (s[0] < 0) == neg,
                          "direction becomes %s, values are %snegated" % (show(pos), "" if s[0] < 0 else "not "), f)


# ---------------------------------------------------------------- C03
U = mk("arg", "units")
UNIT = mk("ext", "cf_units.Unit")
SU, OU = attr(SELF, "units"), attr(OTHER, "units")


def at(e, an, o, name):
    """metadata of object o when event e happened"""
    keep = an.state
    an.state = keep.copy()
    an.state.heap = dict(e.heap)
    try:
        return an.norm(an.getattr(o, name))
    finally:
        an.state = keep


def spine(r, name):
    ops = raw(None, r, REFL.get(name, name))
    if len(ops) != 1:
        return None
    e, _, left, right = ops[0]
    an = r.an
    ls, rs = sign(left, (SELF, OTHER), an, e.heap), sign(right, (SELF, OTHER), an, e.heap)
    if ls is None or rs is None or ls[1] is rs[1]:
        return None
    return e, left, right, ls[1], rs[1]


@rule("C03", "operand-units", 60)
def c03_ops(ctx):
    """Every arithmetic operator, for each combination of directions: in sums and differences the raw operation receives a right operand
    converted to the left operand's units and the result has the left operand's units; the units of products and quotients are
    the product or quotient of the units the raw operands have."""
    for name in PLAIN + tuple(REFL) + INPL:
        for sp, op in (("none", "none"), ("none", "up"), ("down", "none"), ("up", "up"), ("up", "down")):
            key = "%s self=%s other=%s" % (name, sp, op)
            r = arith(ctx, name, sp, op)
            if r is None:
                ctx.bad(key, "operator is not defined by PhysArray, so numpy's own applies without units")
                continue
            s = spine(r, name)
            if s is None:
                ctx.unknown(key, "raw operation not found", r.fn)
                continue
            e, left, right, lroot, rroot = s
            inplace = name in INPL
            res, _ = result_attr(r, "units", inplace)
            lu, ru = at(e, r.an, left, "units"), at(e, r.an, right, "units")
            base = REFL.get(name, name)
            if base.lstrip("_").lstrip("i").startswith(("add", "sub")) or base in ("__iadd__", "__isub__"):
                if name in REFL and lroot is SELF or name not in REFL and lroot is OTHER:
                    ctx.check(key, None if "add" in name else False, "operands are swapped", e)
                    continue
                ctx.check(key, lu is ru and res is lu,
                          "the right operand is in %s, the left in %s, the result in %s" % (term(ru), term(lu), term(res)), e)
            else:
                sym = "*" if "mul" in name else "/"
                want = mk("bin", sym, lu, ru)
                alt = mk("bin", "*", ru, lu) if sym == "*" else None
                src = mk("bin", sym, attr(lroot, "units"), attr(rroot, "units"))
                if name in REFL and lroot is SELF and sym == "/" or name not in REFL and lroot is OTHER and sym == "/":
                    ctx.bad(key, "operands are swapped", e)
                    continue
                good = res is want or res is alt or res is src
                if not good and res.op not in ("bin", "attr") and not is_const(res):
                    good = None
                ctx.check(key, good, "the result has units %s, the operands have %s and %s" % (term(res), term(lu), term(ru)), e)


@rule("C03", "exponent", 12)
def c03_pow(ctx):
    """Powers: an exponent with dimensions, with a direction or with units not convertible to 1 always raises; the raw operation uses
    the exponent converted to 1; the units are those of the base raised to it, in the plain, reflected and in-place form."""
    PA = ctx.p.cls("physarray.PhysArray")
    for name in ("__pow__", "__rpow__", "__ipow__"):
        f = PA.find_method(name)
        if f is None:
            ctx.bad(name, "operator is not defined")
            continue
        ex, base = (SELF, OTHER) if name == "__rpow__" else (OTHER, SELF)
        for what, asm in (("dimensions", {attr(ex, "dimensions"): mk("tuple", const("x"))}), ("direction", {attr(ex, "positive"): UP})):
            r = ctx.run(f, cls=PA, args={f.params()[1]: OTHER}, types={OTHER: PA}, assume=asm, opaque=OPAQUE, summaries=SUMMARIES)
            ctx.check("%s exponent with %s" % (name, what), raises_always(r), "an exponent with %s is accepted" % what, f)
        r = arith(ctx, name)
        ops = rawops(r, ("__pow__", "__ipow__"))
        if len(ops) != 1:
            ctx.unknown(name, "raw operation not found", f)
            continue
        e, _, left, right = ops[0]
        conv = [g for x in r.raises() for g in x.guards if g.op == "not" and is_call(g.args[0], "is_convertible")
                and contains(g.args[0], attr(ex, "units"))]
        ctx.check(name + " exponent with units", bool(conv), "an exponent with units is not rejected", f)
        ru = at(e, r.an, right, "units")
        one = is_call(ru, "Unit") and is_const(kwarg(ru, "units", 0), 1, "1")
        s = sign(right, (ex,), r.an, e.heap)
        ctx.check(name + " exponent converted", None if s is None else one, "the exponent is used in units %s" % term(ru), e)
        res, _ = result_attr(r, "units", name == "__ipow__")
        good = res.op == "bin" and res.args[0] == "**" and res.args[1] is attr(base, "units") and \
            (res.args[2] is r.norm(right) or sign(res.args[2], (ex,), r.an, e.heap) is not None)
        ctx.check(name + " units", good, "the result has units %s" % term(res), e)


@rule("C03", "conversion", 4)
def c03_convert(ctx):
    """convert(u): returns the array itself only if its units equal u; otherwise, unless an error is raised, the values are
    converted from the array's own units to u and the result has units u and the array's mask, dimensions and direction."""
    PA = ctx.p.cls("physarray.PhysArray")
    for isu in (True, False):
        r = ctx.run(PA.find_method("convert"), cls=PA, assume={mk("isinstance", U, UNIT): TRUE if isu else FALSE,
                                                               mk("isinstance", SU, UNIT): TRUE})
        want = U if isu else mk("call", UNIT, (U,), ())
        for g, v in leaves(r.value):
            v = r.norm(v)
            if v is SELF:
                eq = any(x.op == "cmp" and x.args[0] == "==" and set(x.args[1:]) == {SU, want} for x in g)
                ctx.check("unchanged (%s)" % ("Unit" if isu else "text"), eq, "the array is returned unconverted when %s" % [term(x) for x in g], r.fn)
                continue
            key = "converted (%s)" % ("Unit" if isu else "text")
            if not is_new(v, "PhysArray"):
                ctx.unknown(key, term(v), r.fn)
                continue
            src = v.args[1][0]
            convs = [x for x in walk(src) if is_call(x, "convert") and x.args[0].op == "attr"]
            facts = {}
            if len(convs) == 1:
                c = convs[0]
                facts["from the array's own units"] = strip_unit(c.args[0].args[0]) is SU
                facts["to the requested units"] = strip_unit(kwarg(c, "other", 1, NONE)) in (strip_unit(want), want)
                facts["of the array's values"] = contains(c.args[1][0], SELF)
            u = kwarg(v, "units", 2)
            facts["units of the result"] = u is not None and strip_unit(u) in (strip_unit(want), want)
            facts["dimensions of the result"] = kwarg(v, "dimensions", 3) is attr(SELF, "dimensions")
            facts["direction of the result"] = kwarg(v, "positive", 4) is attr(SELF, "positive")
            mk_ = [x for x in walk(v) if x.op == "attr" and x.args[1] in ("mask", "_mask") and x.args[0] is SELF or is_call(x, "getmask", "getmaskarray")]
            facts["mask of the result"] = bool(mk_) or None
            for k, ok in facts.items():
                ctx.check(key + ": " + k, ok, "wrong: %s" % term(v), r.fn)
        bad = [e for e in r.raises() if exc_name(r.norm(e.val)) == "UnitsError"]
        ctx.check("unconvertible (%s)" % isu, bool(bad), "no units error is raised for units that cannot be converted", r.fn)


def strip_unit(t):
    while True:
        if is_call(t, "Unit") and len(t.args[1]) == 1 and not t.args[2]:
            t = t.args[1][0]
        elif t.op == "ite" and t.args[0].op == "isinstance" and t.args[0].args[1] is UNIT:
            t = t.args[1]
        else:
            return t


@rule("C03", "assignment", 1)
def c03_assign(ctx):
    """Item assignment of a physical array stores values converted to the left array's units (C03) with axes in its order (C04)."""
    for n, what, ok, e in assignment(ctx):
        if n == "units":
            ctx.check("assigned " + what, ok, "values are stored without conversion to the array's units", e)


def assignment(ctx):
    if "assign" in ctx.cache:
        return ctx.cache["assign"]
    PA = ctx.p.cls("physarray.PhysArray")
    f = PA.find_method("__setitem__")
    out = []
    if f is None:
        out = [("units", "array", False, None), ("dims", "array", False, None)]
    else:
        V = mk("arg", "values")
        ps = f.params()
        r = ctx.run(f, cls=PA, args={ps[1]: mk("arg", "index"), ps[2]: V}, types={V: PA}, opaque=OPAQUE + ("align_index",), summaries=SUMMARIES)
        an = r.an
        sets = [e for e in r.calls() if e.f.op == "supermeth" and e.f.args[1] == "__setitem__"]
        for e in sets:
            v = e.args[1]
            for g, lv in leaves(v):
                lv = r.norm(lv)
                gs = [r.norm(x) for x in tuple(g) + tuple(e.guards)]
                if any(x.op == "not" and x.args[0].op == "isinstance" for x in gs):
                    continue
                s = sign(lv, (V,), an, e.heap)
                un, di = at(e, an, lv, "units"), at(e, an, lv, "dimensions")
                sameu = any(x.op == "cmp" and x.args[0] == "==" and SU in x.args[1:] for x in gs)
                samed = any(x.op == "cmp" and x.args[0] == "==" and attr(SELF, "dimensions") in x.args[1:] for x in gs)
                out.append(("units", "array", None if s is None else un is SU or sameu, e))
                out.append(("dims", "array", None if s is None else di is attr(SELF, "dimensions") or samed, e))
                out.append(("sign", "array", None if s is None else s[0] > 0, e))
            ix = r.norm(e.args[0])
            out.append(("index", "index", is_call(ix, "align_index") and ix.args[1] == (mk("arg", "index"), attr(SELF, "dimensions")), e))
        if not sets:
            out = [("units", "array", None, f), ("dims", "array", None, f)]
    ctx.cache["assign"] = out
    return out


# ---------------------------------------------------------------- C04
SD, OD = attr(SELF, "dimensions"), attr(OTHER, "dimensions")


def records(an, t):
    """seqview of a sequence with plain sequences seen as one record per element"""
    t = an.norm(t)
    v = seqview(t)
    if v is None:
        t = strip_seq(t)
        v = seqview(t)
        if v is None and t.op in ("attr", "arg", "sub", "elem"):
            v = [(mk("elem", t), (), (t,))]
    return v


def source(rec):
    """the plain sequence whose elements a record lists"""
    v, g, l = rec
    return v.args[0] if v.op == "elem" and l and l[-1] is v.args[0] else None


@rule("C04", "operands-aligned", 15)
def c04_align(ctx):
    """In every arithmetic operator the axes of both raw operands carry the same list of dimension names, which consists of all names of
    the one followed by the names only the other has."""
    for name in PLAIN + tuple(REFL) + INPL:
        r = arith(ctx, name, "none", "none")
        if r is None:
            ctx.bad(name, "operator is not defined by PhysArray, so numpy's own matches operands by axis position")
            continue
        s = spine(r, name)
        if s is None:
            ctx.unknown(name, "raw operation not found", r.fn)
            continue
        e, left, right, lr, rr = s
        ld, rd = at(e, r.an, left, "dimensions"), at(e, r.an, right, "dimensions")
        lv, rv = records(r.an, ld), records(r.an, rd)
        if lv is None or rv is None:
            ctx.unknown(name, "%s | %s" % (term(ld), term(rd)), e)
            continue
        ls, rs = [source(x) for x in lv], [source(x) for x in rv]
        if lv == rv:
            srcs = {x: rec for x, rec in zip(ls, lv)}
            both = {attr(lr, "dimensions"), attr(rr, "dimensions")}
            good = set(srcs) == both if None not in srcs else None
            if good:
                first = srcs[ls[0]]
                second = srcs[ls[1]]
                if name in INPL and ls[0] is not SD:
                    good = False
                elif first[1]:
                    good = False
                else:
                    notin = [g for g in second[1] if g == not_(cmp_("in", second[0], ls[0]))]
                    good = True if len(second[1]) == 1 and notin else None
            ctx.check(name, good, "the operands are given the dimensions %s" % term(ld), e)
        elif None in ls or None in rs:
            ctx.unknown(name, "%s | %s" % (term(ld), term(rd)), e)
        else:
            ctx.bad(name, "the left operand has axes %s, the right one %s" % (term(ld), term(rd)), e)


@rule("C04", "expansion", 15)
def c04_expand(ctx):
    """Where an operand is expanded, the new shape lists, for the same sequence of names as its new dimensions, the size the operand has
    in the dimension of that name, and 1 for a name it does not have."""
    for name in PLAIN + tuple(REFL) + INPL:
        r = arith(ctx, name, "none", "none")
        if r is None:
            continue
        sets = [e for e in r.events if e.kind == "setattr" and e.name == "shape"]
        dims = [e for e in r.events if e.kind == "setattr" and e.name == "dimensions"]
        if not sets:
            ctx.unknown(name, "no expansion found", r.fn)
            continue
        for e in sets:
            key = "%s %s" % (name, term(e.obj))
            v = seqview(r.norm(e.val))
            ds = [x for x in dims if x.obj is e.obj]
            if v is None or len(v) != 1 or len(ds) != 1:
                ctx.unknown(key, term(r.norm(e.val)), e)
                continue
            val, g, l = v[0]
            want = r.norm(ds[0].val)
            own = at(e, r.an, e.obj, "dimensions")
            nm = mk("elem", want)
            if not same_seq(strip_seq(l[-1]), want):
                ctx.bad(key, "the shape follows %s but the dimensions %s" % (term(l[-1]), term(want)), e)
                continue
            nm = mk("elem", l[-1])
            have = mk("sub", attr(r.norm(e.obj), "shape"), mk("call", attr(own, "index"), (nm,), ()))
            has = cmp_("in", nm, own)
            cs = cases(val)
            good = True
            for valuation, (x,) in cs or ():
                d = decide(has, valuation)
                if d is None:
                    good = None
                elif d and x is not have or not d and not is_const(x, 1):
                    good = False
                    break
            ctx.check(key, good and not g, "the new shape is %s" % term(val), e)


@rule("C04", "size-mismatch", 15)
def c04_mismatch(ctx):
    """Every operator raises a dimensions error when a dimension both operands have differs in size, before operating."""
    for name in PLAIN + tuple(REFL) + INPL:
        r = arith(ctx, name, "none", "none")
        if r is None:
            continue
        good = None
        ops = raw(ctx, r, REFL.get(name, name))
        for e in r.raises():
            if exc_name(r.norm(e.val)) != "DimensionsError":
                continue
            tests = list({a for g in e.guards for a in walk(r.norm(g)) if a.op == "cmp" and sizes(a) and not any(
                x is not a and x.op == "cmp" and sizes(x) for x in walk(a))})
            eqs = [a for a in tests if a.op == "cmp" and a.args[0] == "==" and len(sizes(a)) == 2 and {sz_owner(x) for x in sizes(a)} == {SELF, OTHER}]
            if eqs and all(e.seq < o[0].seq for o in ops):
                # equality is the only test of sizes, and its failing raises
                ok = all(decide(r.norm(g), ((eqs[0], False),)) is not False for g in e.guards)
                rest = [a for a in tests if a not in eqs]
                good = ok and not rest if good is not True else True
                if rest or any(crossed(x) for x in sizes(eqs[0])):
                    good = False
            elif good is None and any(a.op == "cmp" and a.args[0] in ("==", "<", ">") and len(sizes(a)) == 2 for a in tests):
                good = False
        if good is None and not any(exc_name(r.norm(e.val)) == "DimensionsError" and not any(
                is_const(x, 1) for g in e.guards for x in walk(r.norm(g))) for e in r.raises()):
            good = False
        ctx.check(name, good, "operands whose common dimensions differ in size are not rejected", r.fn)


def sizes(g):
    return [x for x in walk(g) if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "shape"]


def crossed(x):
    """is the size of one array looked up at the position a name has in another one"""
    i = x.args[1]
    return is_call(i, "index") and i.args[0].op == "attr" and i.args[0].args[0].op == "attr" and i.args[0].args[0].args[1] == "dimensions" and \
        {unwrap(i.args[0].args[0].args[0]), sz_owner(x)} == {SELF, OTHER}


def sz_owner(x):
    return unwrap(x.args[0].args[0])


@rule("C04", "in-place-growth", 5)
def c04_inplace(ctx):
    """In-place operators raise a dimensions error if the right operand has a dimension of size above one that the left lacks, before the
    left operand is changed."""
    for name in INPL:
        r = arith(ctx, name, "none", "none")
        if r is None:
            ctx.bad(name, "operator is not defined")
            continue
        first = min([e.seq for e in r.events if e.kind == "setattr" and e.obj is SELF] or [10 ** 9])
        found, good, wrong = None, None, "a dimension of size above one that the left operand lacks is accepted"
        for e in r.raises():
            if exc_name(r.norm(e.val)) != "DimensionsError":
                continue
            for g in e.guards:
                g = r.norm(g)
                sz = sizes(g)
                if g.op == "cmp" and len(sz) == 1 and sz_owner(sz[0]) is OTHER:
                    found = e
                    ok = g.args[0] == "<" and is_const(g.args[1], 1) or g.args[0] == "<=" and is_const(g.args[1], 2)
                    if not ok:
                        wrong = "the size is tested with %s" % term(g)
                    good = ok and e.seq < first
                    if ok and e.seq >= first:
                        wrong = "the left operand has already been changed when the dimensions are refused"
                elif g.op == "not" and g.args[0].op == "cmp" and len(sz) == 1 and sz_owner(sz[0]) is OTHER:
                    found, good = e, is_const(g.args[0].args[2], 1) and g.args[0].args[0] in ("==",) and e.seq < first or None
        if found is None:
            good = False
        ctx.check(name, good, wrong, found or r.fn)


@rule("C04", "transpose", 2)
def c04_transpose(ctx):
    """transpose: whatever form the order is given in, element k of the axis permutation and element k of the new dimension names stand for
    the same axis, and the array is returned as it is only if the new order of names equals the old one."""
    PA = ctx.p.cls("physarray.PhysArray")
    f = PA.find_method("transpose")
    Dm = mk("arg", "D")
    tup = [x for x in () ]
    r = ctx.run(f, cls=PA, args={f.params()[1] if len(f.params()) > 1 else "dims": mk("tuple", Dm)},
                types={Dm: "tuple"})
    n = 0
    for g, v in leaves(r.value):
        v = r.norm(v)
        if v is SELF:
            eq = [x for x in map(r.norm, g) if x.op == "cmp" and x.args[0] == "==" and SD in x.args[1:]]
            ctx.check("unchanged", bool(eq) or None, "the array is returned untransposed under %s" % [term(x) for x in g], f)
            continue
        calls = [x for x in walk(v) if x.op == "supercall" and x.args[1] == "transpose"]
        d = kwarg(v, "dimensions", 3) if is_new(v, "PhysArray") else None
        if len(calls) != 1 or d is None:
            ctx.unknown("permutation", term(v), f)
            continue
        ax = calls[0].args[3]
        if len(ax) != 1:
            ctx.unknown("permutation", term(v), f)
            continue
        ax = ax[0].args[0] if ax[0].op == "star" else ax[0]
        for valuation, (a, b) in cases(ax, d) or ():
            av, bv = records(r.an, a), records(r.an, b)
            key = "permutation %s" % ",".join("%s%s" % ("" if t else "not ", term(x, 40)) for x, t in valuation)
            n += 1
            if av is None or bv is None or len(av) != len(bv) or len(av) != 1:
                ctx.unknown("permutation %d" % n, "%s | %s" % (term(a), term(b)), f)
                continue
            (x, gx, lx), (y, gy, ly) = av[0], bv[0]
            if is_call(x, "index") and x.args[0].args[0] is SD:
                good = strip_seq(x.args[1][0]) is y and gx == gy
            elif y.op == "sub" and y.args[0] is SD:
                good = y.args[1] is x and gx == gy
            elif x is y:
                good = False if x.op == "elem" else None
            else:
                good = None
            if lx and is_call(lx[-1], "sorted", "reversed", "set"):
                good = False
            ctx.check("permutation %d" % n, good, "axes %s are named %s" % (term(a), term(b)), f)


@rule("C04", "getitem", 2)
def c04_getitem(ctx):
    """Indexing: the names kept are exactly those of the axes indexed by a slice, paired with the index entries of the same position,
    and the same index is applied to the data."""
    PA = ctx.p.cls("physarray.PhysArray")
    f = PA.find_method("__getitem__")
    if f is None:
        ctx.bad("names", "PhysArray does not define indexing")
        return
    IX = mk("arg", "index")
    r = ctx.run(f, cls=PA, args={f.params()[1]: IX}, opaque=("align_index",))
    for g, v in leaves(r.value):
        v = r.norm(v)
        gs = [r.norm(x) for x in g]
        if v is SELF:
            good = any(x.op == "not" and x.args[0].op == "nonempty" or x.op == "cmp" and is_const(x.args[1], 0) or
                       x.op == "cmp" and is_const(x.args[-1], 0) or x.op == "cmp" and mk("tuple") in x.args for x in gs)
            ctx.check("whole array", good or None, "returned unindexed under %s" % [term(x) for x in gs], f)
            continue
        calls = [x for x in walk(v) if x.op == "supercall" and x.args[1] == "__getitem__"]
        if not calls:
            ctx.unknown("data", term(v), f)
            continue
        ix = calls[0].args[3][0]
        aligned = is_call(ix, "align_index")
        ctx.check("data", aligned and ix.args[1] == (IX, SD) if aligned or ix is IX else None,
                  "the data are indexed with %s" % term(ix), f)
        if v.op == "supercall":
            # names unchanged: only if the filter kept them all
            seqs = [strip_seq(y) for x in gs if x.op == "cmp" and x.args[0] == "==" and SD in x.args[1:] for y in x.args[1:] if y is not SD]
            if not seqs:
                ctx.check("names", None, "", f)
                continue
            d = seqs[0]
        else:
            d = kwarg(v, "dimensions", 3)
            if d is None:
                ctx.bad("names", "the result keeps all the names of the original", f)
                continue
        rec = records(r.an, d)
        if rec is None or len(rec) != 1:
            ctx.unknown("names", term(d), f)
            continue
        val, gg, ll = rec[0]
        zipped = ll and is_call(ll[-1], "zip")
        want = {mk("isinstance", mk("elem", ix), mk("ext", "slice")), mk("isinstance", mk("elem", ix), mk("class", "slice"))}
        okname = val is mk("elem", SD)
        okg = len(gg) == 1 and gg[0].op == "isinstance" and gg[0].args[0] is mk("elem", ix) and "slice" in show(gg[0].args[1]) \
            and "int" not in show(gg[0].args[1])
        if okname and okg and zipped and any(x.op == "call" and name_of(x.args[0]) in ("reversed", "sorted") for x in walk(ll[-1])):
            okname = False
        good = True if okname and okg else None
        if okname and not gg:
            good = False
        if len(gg) == 1 and gg[0].op == "not" and gg[0].args[0].op == "isinstance" and okname:
            s = show(gg[0].args[0].args[1])
            good = None if "int" in s else False
        ctx.check("names", good, "names kept: %s" % term(d), f)


@rule("C04", "assignment", 3)
def c04_assign(ctx):
    """Item assignment of a physical array stores its values, unnegated, transposed to the array's own order of names, at the index aligned to them."""
    for n, what, ok, e in assignment(ctx):
        if n != "units":
            ctx.check("assigned %s %s" % (what, n), ok, {"dims": "values are stored by axis position, not by dimension name",
                      "sign": "values are stored negated", "index": "the index is not aligned to the array's dimensions"}[n], e)


@rule("C04", "result-dimensions", 10)
def c04_result(ctx):
    """A dimension list given explicitly for the result of an operator equals the list of the raw operands (without one it is inherited)."""
    for name in PLAIN + tuple(REFL):
        r = arith(ctx, name, "none", "none")
        if r is None:
            continue
        s = spine(r, name)
        if s is None:
            ctx.unknown(name, "raw operation not found", r.fn)
            continue
        e, left = s[0], s[1]
        for g, v in leaves(r.value):
            v = r.norm(v)
            if not is_new(v, "PhysArray"):
                ctx.unknown(name, term(v), r.fn)
                continue
            d = kwarg(v, "dimensions", 3)
            if d is None or is_const(d, None):
                ctx.ok(name, "inherited", e)
                continue
            a, b = records(r.an, d), records(r.an, at(e, r.an, left, "dimensions"))
            good = a == b if a is not None and b is not None and None not in [source(x) for x in a + b] else None
            ctx.check(name, good, "the result is given the dimensions %s" % term(d), e)


# ---------------------------------------------------------------- C07
REDUCERS = {"sum": "sum", "nansum": "sum", "mean": "mean", "average": "mean", "nanmean": "mean", "amin": "min", "min": "min", "minimum": "min",
            "nanmin": "min", "amax": "max", "max": "max", "maximum": "max", "nanmax": "max", "prod": "prod", "product": "prod", "cumsum": "cumsum",
            "median": "median", "std": "std", "var": "var", "ptp": "ptp", "reduce": "?", "any": "any", "all": "all", "cumprod": "cumprod",
            "argmin": "argmin", "argmax": "argmax", "anom": "anom"}


def reductions(t):
    """(operation, operand, axis term or None) of every reduction call inside a value, outermost first"""
    out = []
    for x in walk(t):
        if x.op != "call" or name_of(x.args[0]) is None:
            continue
        f = x.args[0]
        n = name_of(f).split(".")[-1]
        if n not in REDUCERS:
            continue
        if f.op == "ext" and name_of(f).startswith("numpy"):
            if x.args[1]:
                out.append((REDUCERS[n], x.args[1][0], kwarg(x, "axis", 1), x))
        elif f.op == "attr":
            out.append((REDUCERS[n], f.args[0], kwarg(x, "axis", 0), x))
    return out


def reduced_dims(an, t, owner, all_of):
    """of an axis or name list: True if it lists the axis/name of every element of all_of (present in owner), False if it surely does
    not, None if unknown.  owner: dimensions term"""
    v = records(an, t)
    if v is None:
        return None
    if len(v) != 1:
        return False if t.op == "tuple" or all(source(x) is None and not x[2] for x in v) else None
    x, g, l = v[0]
    if is_call(x, "index") and x.args[0].args[0] is owner and len(x.args[1]) == 1:
        x = x.args[1][0]
    elif x.op == "sub" and x.args[0] is owner and is_call(x.args[1], "index") and x.args[1].args[0].args[0] is owner:
        x = x.args[1].args[1][0]
    if x.op == "elem" and (strip_seq(x.args[0]) is all_of):
        rest = [y for y in g if y is not cmp_("in", x, owner)]
        return True if not rest else None
    if x.op == "elem" and x.args[0] is owner:
        # enumeration of the owner's own dimensions, filtered by membership in the list
        if any(y.op == "cmp" and y.args[0] == "in" and y.args[1] is x and strip_seq(y.args[2]) is all_of for y in g) and len(g) == 1:
            return True
        return None
    if x.op == "sub" and strip_seq(x.args[0]) is all_of and not l:
        return False
    if x.op == "elem" and x.args[0].op == "sub" and all_of.op == "sub" and x.args[0].args[0] is all_of.args[0] and x.args[0] is not all_of:
        return False
    if x.op == "sub" and all_of.op == "sub" and x.args[0] is all_of.args[0]:
        return False
    return None


def remaining(an, t, owner, all_of):
    """of the new dimension names: True if they are the owner's names, in order, without those of all_of"""
    v = records(an, t)
    if v is None or len(v) != 1:
        return None
    x, g, l = v[0]
    if x.op == "elem" and x.args[0] is owner:
        if len(g) == 1 and g[0].op == "not" and g[0].args[0].op == "cmp" and g[0].args[0].args[0] == "in" and g[0].args[0].args[1] is x:
            return reduced_dims(an, strip_seq(g[0].args[0].args[2]), owner, all_of)
        if not g:
            return False
        if len(g) == 1 and g[0].op == "cmp" and g[0].args[0] == "in" and g[0].args[1] is x and \
                reduced_dims(an, strip_seq(g[0].args[2]), owner, all_of):
            return False
        if any(is_call(y, "reversed", "sorted") for y in walk(l[-1])):
            return False
    return None


def unmasked(src):
    """the operand has lost its mask on the way"""
    for x in walk(src):
        if x.op == "attr" and x.args[1] == "data" or is_call(x, "getdata", "filled") or x.op == "call" and name_of(x.args[0]) in (
                "numpy.asarray", "numpy.array", "numpy.asanyarray"):
            return True
        if is_call(x, "view") and x.args[1] and x.args[1][0].op == "ext" and x.args[1][0].args[0] in ("numpy.ndarray",):
            return True
    return False


def inherits(src):
    """metadata not given explicitly: False if the reduced values are a plain array that has none, None if that is unknown"""
    plain = is_call(src, "asarray", "array", "getdata", "MaskedArray", "masked_array") or is_call(src, "view") and src.args[1] and \
        "MaskedArray" in show(src.args[1][0]) or src.op == "attr" and src.args[1] == "data"
    return False if plain else None


@rule("C07", "array-methods", 2 * 12)
def c07_methods(ctx):
    """sum and mean of an array, for each way of naming axes: exactly one reduction, of the operation the method is named after, over
    exactly the listed axes of the array's own values; the names left are the array's names without those, in order; units and
    direction are the array's."""
    PA = ctx.p.cls("physarray.PhysArray")
    DD = mk("arg", "dimensions")
    KW = mk("arg", "axis")
    for name in ("sum", "mean"):
        f = PA.find_method(name)
        if f is None:
            ctx.bad(name, "the array type does not define %s, so numpy's own applies by axis number" % name)
            continue
        for how in ("dimensions", "axis number", "axis tuple", "all"):
            types, assume = {}, {}
            if how == "dimensions":
                types[DD] = "tuple"
                assume[cmp_("is", DD, NONE)] = FALSE
                r = ctx.run(f, cls=PA, args={f.params()[1]: DD}, types=types, assume=assume)
            else:
                kw = mk("arg", "kwds")
                ax = mk("sub", mk("arg", "**kwds"), const("axis"))
                r = ctx.run(f, cls=PA, args={f.params()[1]: NONE})
                # the axis is read from the keywords: find its term
                ks = {x for e in r.events for t_ in ([e.res] if e.res is not None else []) + list(e.args or ()) for x in walk(t_)
                      if x.op == "sub" and is_const(x.args[1], "axis")} | {x for g, v in leaves(r.value) for y in list(g) + [v] for x in walk(r.norm(y))
                      if x.op == "sub" and is_const(x.args[1], "axis")}
                if len(ks) != 1:
                    ctx.unknown("%s %s" % (name, how), "axis keyword not found", f)
                    continue
                ax = ks.pop()
                has = cmp_("in", const("axis"), ax.args[0])
                assume = {has: FALSE if how == "all" else TRUE}
                if how != "all":
                    assume[cmp_("is", ax, NONE)] = FALSE
                    types[ax] = "int" if how == "axis number" else "tuple"
                r = ctx.run(f, cls=PA, args={f.params()[1]: NONE}, types=types, assume=assume)
            key = "%s over %s" % (name, how)
            vals = [(g, r.norm(v)) for g, v in leaves(r.value) if v.op != "never"]
            if not vals:
                ctx.bad(key, "always raises", f)
                continue
            for g, v in vals:
                if not is_new(v, "PhysArray"):
                    ctx.unknown(key, term(v), f)
                    continue
                red = reductions(v.args[1][0])
                if not red:
                    sup = [x for x in walk(v.args[1][0]) if x.op == "supercall"]
                    ctx.check(key + ": operation", None if sup or contains(v, lambda x: x.op in ("phi", "loop", "superop")) else False, "no reduction in %s" % term(v), f)
                    continue
                ops = [x[0] for x in red]
                ctx.check(key + ": operation", len(red) == 1 and ops[0] == name, "the values are reduced by %s" % " of ".join(ops), f)
                op, src, axis, call = red[0]
                s = sign(src, (SELF,), r.an, r.state.heap)
                ctx.check(key + ": values", None if s is None else s[0] > 0 and not unmasked(src), "values reduced: %s" % term(src), f)
                outer = v.args[1][0]
                s2 = sign(outer, (call,), r.an, {})
                ctx.check(key + ": result", None if s2 is None else s2[0] > 0, "the result is changed: %s" % term(outer), f)
                d = kwarg(v, "dimensions", 3)
                if how == "dimensions":
                    ctx.check(key + ": axes", None if axis is None else reduced_dims(r.an, r.norm(axis), SD, DD) if not is_const(axis, None) else False,
                              "reduces over the axes %s" % (term(axis) if axis is not None else "all"), f)
                    ctx.check(key + ": names", None if d is None else remaining(r.an, d, SD, DD), "names left: %s" % (d and term(d)), f)
                elif how == "all":
                    ctx.check(key + ": axes", axis is None or is_const(axis, None), "reduces over the axes %s" % term(axis or NONE), f)
                else:
                    good = axis is not None and (axis is ax or strip_seq(axis) is ax or (axis.op == "tuple" and axis.args == (ax,)))
                    ctx.check(key + ": axes", good or (False if axis is None else None), "reduces over the axes %s" % (axis and term(axis)), f)
                u, p = kwarg(v, "units", 2), kwarg(v, "positive", 4)
                ctx.check(key + ": units", u is SU if u is not None else inherits(src), "units: %s" % (u and term(u)), f)
                ctx.check(key + ": direction", p is attr(SELF, "positive") if p is not None else inherits(src), "direction: %s" % (p and term(p)), f)


@rule("C07", "functions", 4 * 2)
def c07_functions(ctx):
    """The sum, mean, min and max functions of the definition language apply the reduction of their name over every dimension they are
    given that the data have, leaving the others in order, with the data's units and direction."""
    PA = ctx.p.cls("physarray.PhysArray")
    FN = ctx.p.cls("flownodes.FlowNode")
    ARGS = attr(SELF, "arguments")
    DIMS = mk("sub", ARGS, mk("slice", const(1), NONE, NONE))
    found = {}
    for c in ctx.p.subclasses("Function"):
        k = getattr(c.find_attr("key")[1], "value", None)
        if k in ("sum", "mean", "min", "max"):
            found.setdefault(k, c)
    for k in ("sum", "mean", "min", "max"):
        if k not in found:
            ctx.bad(k, "no function of this name")
            continue
        c = found[k]
        f = c.find_method("__getitem__")
        IX = mk("arg", f.params()[1])
        data = mk("sub", mk("sub", ARGS, const(0)), IX)
        own = attr(data, "dimensions")
        r = ctx.run(f, cls=c, types={data: PA, data.args[0]: FN}, assume={cmp_("is", IX, NONE): FALSE},
                    opaque=OPAQUE + ("PhysArray.sum", "PhysArray.mean"), summaries=SUMMARIES)
        for g, v in leaves(r.value):
            v = r.norm(v)
            inner, d = (v.args[1][0], kwarg(v, "dimensions", 3)) if is_new(v, "PhysArray") else (v, None)
            red = [x for x in reductions(inner)]
            if not red:
                ctx.unknown(k, term(v), f)
                continue
            ops = [x[0] for x in red]
            ctx.check(k + ": operation", len(red) == 1 and ops[0] == k, "the values are reduced by %s" % " of ".join(ops), f)
            op, src, axis, call = red[0]
            s = sign(src, (data,), r.an, r.state.heap)
            ctx.check(k + ": values", None if s is None else s[0] > 0 and not unmasked(src), "values reduced: %s" % term(src), f)
            byname = kwarg(call, "dimensions", 0) if call.args[0].op == "attr" and s is not None and s[1] is data else None
            if byname is not None:
                ctx.check(k + ": dimensions", reduced_dims(r.an, r.norm(byname), own, DIMS), "reduces over %s" % term(byname), f)
                continue
            ctx.check(k + ": dimensions", False if axis is None or is_const(axis, None) else reduced_dims(r.an, r.norm(axis), own, DIMS),
                      "reduces over the axes %s" % (term(axis) if axis is not None else "all"), f)
            ctx.check(k + ": names", None if d is None else remaining(r.an, d, own, DIMS), "names left: %s" % (d and term(d)), f)
            u, p = kwarg(v, "units", 2), kwarg(v, "positive", 4)
            ctx.check(k + ": units", u is attr(data, "units") if u is not None else inherits(src), "units: %s" % (u and term(u)), f)
            ctx.check(k + ": direction", p is attr(data, "positive") if p is not None else inherits(src), "direction: %s" % (p and term(p)), f)


# ---------------------------------------------------------------- C33
SYMBOL = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "pow": "**"}


def tokens(t, roots, an=None, heap=None):
    """constants and root arrays named by a text term, in order; '?' for anything else"""
    if t.op == "str":
        return [x for a in t.args for x in tokens(a, roots, an, heap)]
    if t.op == "bin" and t.args[0] == "+":
        return tokens(t.args[1], roots, an, heap) + tokens(t.args[2], roots, an, heap)
    if t.op == "const":
        return [str(cval(t))]
    if t.op == "ite":
        a, b = tokens(t.args[1], roots, an, heap), tokens(t.args[2], roots, an, heap)
        if a == b:
            return a
        ra, rb = [x for x in a if isinstance(x, tuple)], [x for x in b if isinstance(x, tuple)]
        return ra if ra == rb and ra else ["?"]
    x = t
    if x.op == "attr" and x.args[1] == "name":
        x = x.args[0]
    if is_call(x, "str", "repr") and len(x.args[1]) == 1:
        x = x.args[1][0]
        if x.op == "attr" and x.args[1] == "name":
            x = x.args[0]
    s = sign(x, roots, an, None)
    if s is not None:
        return [("name", s[1])]
    return ["?"]


def named(ctx, key, nm, want, an, heap, where):
    """the text nm names the roots and constants of want in this order (other text may stand between)"""
    toks = tokens(nm, tuple(x for x in want if not isinstance(x, str)), an, heap)
    i = 0
    for w in want:
        found = None
        for j in range(i, len(toks)):
            if isinstance(w, str):
                if isinstance(toks[j], str) and w in toks[j]:
                    found = j
                    break
            elif toks[j] == ("name", w):
                found = j + 1
                break
        if found is None:
            if "?" in toks:
                return ctx.unknown(key, term(nm), where)
            return ctx.bad(key, "the name is %s" % term(nm), where)
        i = found
    return ctx.ok(key, term(nm, 120), where)


@rule("C33", "operators", 17)
def c33_ops(ctx):
    """The name given to the result of every arithmetic operator is built from the left operand's name, the operation's symbol and the
    right operand's name, in this order."""
    PA = ctx.p.cls("physarray.PhysArray")
    for name in PLAIN + tuple(REFL) + INPL + ("__pow__", "__rpow__", "__ipow__"):
        r = arith(ctx, name, "none", "none") if "pow" not in name else arith(ctx, name)
        if r is None:
            ctx.bad(name, "operator is not defined by PhysArray")
            continue
        inplace = name in INPL or name == "__ipow__"
        refl = name in REFL or name == "__rpow__"
        stem = name.strip("_")
        stem = stem[1:] if refl or inplace else stem
        sym = SYMBOL[stem]
        lroot, rroot = (OTHER, SELF) if refl else (SELF, OTHER)
        nm, v = result_attr(r, "name", inplace)
        if not inplace and not (is_new(r.norm(v), "PhysArray") and kwarg(r.norm(v), "name", 1) is not None):
            ctx.check(name, False if is_new(r.norm(v), "PhysArray") else None, "the result is given no name", r.fn)
            continue
        if inplace and nm is attr(SELF, "name"):
            ctx.bad(name, "the array keeps the name it had before the operation", r.fn)
            continue
        toks = tokens(nm, (SELF, OTHER), r.an, r.state.heap)
        if any(isinstance(x, tuple) for x in toks):
            between = "".join(x for x in toks if isinstance(x, str))
            other_syms = [s for s in SYMBOL.values() if s != sym and s in between.replace("**", "\0").replace("//", "\1")] if sym not in ("**", "//") else []
        else:
            other_syms = []
        if sym == "*" and "**" in str(toks) or sym == "/" and "//" in str(toks) or other_syms:
            ctx.bad(name, "the name is %s" % term(nm), r.fn)
            continue
        named(ctx, name, nm, [lroot, sym, rroot], r.an, r.state.heap, r.fn)


@rule("C33", "direction-changes", 6)
def c33_dir(ctx):
    """A change of direction appears in the name: the new direction's word applied to the old name."""
    PA = ctx.p.cls("physarray.PhysArray")
    for name in ("flip", "up", "down"):
        f = PA.find_method(name)
        if f is None:
            continue
        for sp, st in DIRS.items():
            new = {"flip": {"none": None, "up": "down", "down": "up"}[sp]}.get(name, name)
            if new is None or new == sp:
                continue
            opq = tuple(o for o in OPAQUE if o.split(".")[1] in ("convert", "transpose"))
            r = ctx.run(f, cls=PA, assume={attr(SELF, "positive"): st}, opaque=opq, summaries=SUMMARIES)
            an = r.an
            an.state = r.state
            v = r.value
            if v.op == "ite":
                ctx.unknown("%s from %s" % (name, sp), term(v), f)
                continue
            nm = r.norm(an.getattr(v, "name"))
            if nm is attr(SELF, "name"):
                ctx.bad("%s from %s" % (name, sp), "the name does not show the change of direction", f)
                continue
            named(ctx, "%s from %s" % (name, sp), nm, [new, SELF], an, r.state.heap, f)


@rule("C33", "conversion-and-transposition", 2)
def c33_conv(ctx):
    """A unit conversion and a transposition appear in the result's name with the original name, what was converted from and to."""
    PA = ctx.p.cls("physarray.PhysArray")
    r = ctx.run(PA.find_method("convert"), cls=PA, assume={mk("isinstance", U, UNIT): TRUE, mk("isinstance", SU, UNIT): TRUE})
    f = PA.find_method("transpose")
    Dm = mk("arg", "D")
    r2 = ctx.run(f, cls=PA, args={f.params()[1] if len(f.params()) > 1 else "dims": mk("tuple", Dm)}, types={Dm: "tuple"})
    for key, rr, frm, to in (("convert", r, lambda x: x is SU or contains(x, lambda y: y is SU), lambda x: contains(x, lambda y: y is U)),
                             ("transpose", r2, lambda x: x is SD, None)):
        for g, v in leaves(rr.value):
            v = rr.norm(v)
            if v is SELF or v.op == "never":
                continue
            if not is_new(v, "PhysArray"):
                ctx.unknown(key, term(v), rr.fn)
                continue
            nm = kwarg(v, "name", 1)
            if nm is None:
                ctx.bad(key, "the result is given no name that shows the change", rr.fn)
                continue
            hasname = contains(nm, lambda x: x is attr(SELF, "name") or x is SELF and nm.op == "str" and SELF in nm.args)
            hasfrom = contains(nm, lambda x: frm(x))
            hasto = contains(nm, to) if to else contains(nm, lambda x: x is Dm)
            # order: source is named before target
            ctx.check(key, bool(hasname and hasfrom and hasto), "the name is %s" % term(nm), rr.fn)


@rule("C33", "expansion", 2)
def c33_broadcast(ctx):
    """Where an operand is expanded to the other's dimensions, its name is set from its own previous name, old and new dimensions, unless its dimensions stay
    the same or it is a scalar."""
    r = arith(ctx, "__mul__", "none", "none")
    if r is None:
        return
    sets = [e for e in r.events if e.kind == "setattr" and e.name == "dimensions"]
    for e in sets:
        key = "operand %s" % term(unwrap(e.obj))
        nm = [x for x in r.events if x.kind == "setattr" and x.name == "name" and x.obj is e.obj]
        if not nm:
            ctx.bad(key, "the operand is expanded without a change of its name", e)
            continue
        t = r.norm(nm[0].val)
        root = unwrap(e.obj)
        ok = contains(t, lambda x: x is attr(root, "name") or x is root and t.op == "str" and root in t.args)
        new = r.norm(e.val)
        old = at(e, r.an, e.obj, "dimensions")
        lists = [x for x in walk(t) if x.op in ("coll",)]
        hasold = contains(t, lambda x: x is old)
        hasnew = contains(t, lambda x: x is new)
        ctx.check(key, bool(ok and hasold and hasnew), "the name is %s" % term(t), nm[0])


@rule("C33", "reductions", 2)
def c33_red(ctx):
    """The name of a sum or mean of an array contains the operation and the array's name."""
    PA = ctx.p.cls("physarray.PhysArray")
    DD = mk("arg", "dimensions")
    for name in ("sum", "mean"):
        f = PA.find_method(name)
        if f is None:
            continue
        r = ctx.run(f, cls=PA, args={f.params()[1]: DD}, types={DD: "tuple"}, assume={cmp_("is", DD, NONE): FALSE})
        for g, v in leaves(r.value):
            v = r.norm(v)
            if not is_new(v, "PhysArray"):
                ctx.unknown(name, term(v), f)
                continue
            nm = kwarg(v, "name", 1)
            if nm is None:
                ctx.bad(name, "the result is given no name", f)
                continue
            named(ctx, name, nm, [name, SELF], r.an, r.state.heap, f)
            listed = contains(nm, lambda x: x is DD)
            ctx.check(name + " dimensions", listed, "the name does not list the dimensions: %s" % term(nm), f)


@rule("C33", "functions", 9)
def c33_fun(ctx):
    """The built-in functions that derive an array name it after the function and the argument's name."""
    PA = ctx.p.cls("physarray.PhysArray")
    FN = ctx.p.cls("flownodes.FlowNode")
    for c in ctx.p.subclasses("Function"):
        if not c.module.rel.endswith("pyconform/functions.py"):
            continue
        k = getattr(c.find_attr("key")[1], "value", None)
        f = c.methods.get("__getitem__") if hasattr(c, "methods") else c.find_method("__getitem__")
        if f is None or k is None:
            continue
        IX = mk("arg", f.params()[1])
        data = mk("sub", mk("sub", attr(SELF, "arguments"), const(0)), IX)
        r = ctx.run(f, cls=c, types={data: PA, data.args[0]: FN}, assume={cmp_("is", IX, NONE): FALSE},
                    opaque=OPAQUE + ("PhysArray.sum", "PhysArray.mean"), summaries=SUMMARIES)
        an = r.an
        for g, v in leaves(r.value):
            v = r.norm(v)
            if v is data or v.op == "never":
                continue
            an.state = r.state
            if is_new(v, "PhysArray") and kwarg(v, "name", 1) is not None:
                nm = kwarg(v, "name", 1)
            elif k in ("up", "down"):
                continue   # named by the methods (rule direction-changes)
            elif is_call(v, "sum", "mean"):
                ctx.ok(k, "named by the array method", f)
                continue
            elif is_new(v, "PhysArray"):
                ctx.bad(k, "the result is given no name", f)
                continue
            else:
                ctx.unknown(k, term(v), f)
                continue
            named(ctx, k, nm, [k, data], an, r.state.heap, f)


# ---------------------------------------------------------------- C30
def txt(t):
    return show(t, 30)


@rule("C30", "construction", 5)
def c30_new(ctx):
    """A character array is made from text of type S, has no unit and no direction, masks empty characters, and gets the length of the
    text as additional last axis; every array made from text data becomes one."""
    CA = ctx.p.cls("physarray.CharArray")
    PA = ctx.p.cls("physarray.PhysArray")
    r = ctx.run(CA.find_method("__new__"), cls=CA)
    v = r.norm(r.value)
    fn = r.fn
    last = {}
    for e in r.events:
        if e.kind == "setattr":
            last.setdefault(e.name, []).append(e)
    u = [r.norm(e.val) for e in last.get("units", [])]
    ctx.check("no unit", bool(u) and all(is_call(x, "Unit") and is_const(kwarg(x, "units", 0), "no unit", "no_unit") for x in u),
              "units: %s" % [term(x) for x in u], fn)
    pos = [r.norm(e.val) for e in last.get("positive", [])]
    ctx.check("no direction", bool(pos) and all(is_const(x, None) for x in pos), "positive: %s" % [term(x) for x in pos], fn)
    src = [x for x in walk(v) if is_call(x, "asarray", "array") and x.args[1] and x.args[1][0] is mk("arg", "indata")]
    ctx.check("type", all(is_const(kwarg(x, "dtype"), "S") for x in src) if src else None, "text is taken as %s" % [term(x) for x in src], fn)
    mk_ = [x for x in walk(v) if is_call(x, "masked_where", "masked_equal", "masked_values")]
    good = None
    for x in mk_:
        c = x.args[1][0] if is_call(x, "masked_where") else None
        if c is None:
            good = is_const(x.args[1][1], b"", "") if len(x.args[1]) > 1 else None
        else:
            empty = lambda y: y.op == "cmp" and y.args[0] == "==" and any(is_const(z, b"", "") for z in y.args[1:])
            ls = [y for g, y in leaves(c)]
            good = True if all(empty(y) for y in ls) else False if any(y.op == "not" and empty(y.args[0]) for y in ls) or not any(empty(y) for y in walk(c)) else None
    ctx.check("mask", good if mk_ else False, "empty characters are not masked: %s" % term(v), fn)
    # string length last
    good = None
    for x in walk(v):
        if is_call(x, "reshape") and x.args[1] and contains(x.args[1][0], lambda y: y.op == "attr" and y.args[1] == "itemsize"):
            a = x.args[1][0]
            if a.op == "bin" and a.args[0] == "+":
                good = a.args[1].op == "attr" and a.args[1].args[1] == "shape" and \
                    contains(a.args[2], lambda y: y.op == "attr" and y.args[1] == "itemsize")
                if contains(a.args[1], lambda y: y.op == "attr" and y.args[1] == "itemsize") and not good:
                    good = False
    ctx.check("length last", good, "text becomes %s" % term(v), fn)
    r = ctx.run(PA.find_method("__new__"), cls=PA, opaque=("CharArray.__new__",))
    made = False
    for e in r.calls():
        if e.f is not None and name_of(e.f) == "CharArray":
            gs = [txt(r.norm(g)) for g in e.guards]
            made = any("'S'" in g and "'U'" in g and "char" in g and not g.startswith("not") for g in gs) or None
            kws = dict(e.kw)
            ctx.check("keeps name and dimensions", kws.get("name") is mk("arg", "name") and kws.get("dimensions") is mk("arg", "dimensions") or None,
                      "", e)
    ctx.check("dispatch", made, "arrays of text do not become character arrays", r.fn)


@rule("C30", "refusals", 6)
def c30_refuse(ctx):
    """Giving a character array units or a direction raises, so does inverting it, and every transposition whose last axis is not the
    string length; conversion either returns the array itself or raises."""
    CA = ctx.p.cls("physarray.CharArray")
    for prop, exc in (("units", "UnitsError"), ("positive", "ValueError")):
        st = CA.setters.get(prop) if hasattr(CA, "setters") else None
        if st is None:
            ctx.bad(prop + " setter", "character arrays accept %s" % prop, CA.find_method("__new__"))
            continue
        if prop == "positive":
            for d in (UP, DOWN):
                r = ctx.run(st, cls=CA, args={st.params()[1]: d})
                ctx.check("positive=%s" % cval(d), raises_always(r), "a direction is accepted", st)
        else:
            uu = mk("arg", st.params()[1])
            for isno in (False, True):
                r = ctx.run(st, cls=CA, assume={mk("isinstance", uu, UNIT): TRUE, mk("call", attr(uu, "is_no_unit"), (), ()): TRUE if isno else FALSE})
                ctx.check("units %s" % ("none" if isno else "given"), raises_always(r) != isno,
                          "'no unit' is refused" if isno else "units other than 'no unit' are accepted", st)
    inv = CA.methods.get("invert")
    ctx.check("invert", raises_always(ctx.run(inv, cls=CA)) if inv else False, "character arrays can be inverted", inv)
    r = ctx.run(CA.find_method("convert"), cls=CA, opaque=("PhysArray.convert",))
    for g, v in leaves(r.value):
        v = r.norm(v)
        ctx.check("convert", v is SELF or v.op == "call" and name_of(v.args[0]) == "convert" or (None if v.op != "never" else True),
                  "conversion returns %s" % term(v), r.fn)
    f = CA.methods.get("transpose")
    if f is None:
        ctx.bad("transpose", "character arrays can be transposed away from the string length", CA.find_method("__new__"))
        return
    Dm = mk("arg", "D")
    for form in ("tuple", "list", "names"):
        arg = mk("arg", "a0"), mk("arg", "a1")
        if form == "names":
            a = {"dims": mk("tuple", *arg)}
            last = arg[1]
            types = {}
        else:
            a = {"dims": mk("tuple", Dm)}
            last = mk("sub", Dm, const(-1))
            types = {Dm: form}
        r = ctx.run(f, cls=CA, args=a, types=types, opaque=("PhysArray.transpose",))
        ok = None
        for e in r.raises():
            for g in e.guards:
                g = r.norm(g)
                if g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "==" and len(g.args[0].args) == 3:
                    x, y = g.args[0].args[1:]
                    for p, q in ((x, y), (y, x)):
                        if (p is last or p.op == "sub" and is_const(p.args[1], -1) and strip_seq(p.args[0]) in (Dm,)) and \
                                contains(q, lambda z: z.op == "sub" and is_const(z.args[1], -1) and z.args[0] is SD):
                            nums = contains(q, lambda z: z.op == "bin" and z.args[0] == "-" and is_const(z.args[2], 1) or is_const(z, -1) and False)
                            ok = True if nums else (False if q is mk("sub", SD, const(-1)) else None)
        if ok is None and not r.raises():
            ok = False
        ctx.check("transpose (%s)" % form, ok, "a transposition that moves the string length is not refused", f)


@rule("C30", "stretch", 6)
def c30_stretch(ctx):
    """stretch: when the new length exceeds the last axis, the values followed by masked empty characters, only along the last axis and up to the new length, with the
    same name and dimensions; otherwise the array itself."""
    CA = ctx.p.cls("physarray.CharArray")
    f = CA.find_method("stretch")
    if f is None:
        ctx.bad("stretch", "method is missing")
        return
    N = mk("arg", f.params()[1])
    LEN = mk("sub", attr(SELF, "shape"), const(-1))
    r = ctx.run(f, cls=CA)
    lim = cmp_("<", LEN, N)
    for g, v in leaves(r.value):
        v = r.norm(v)
        gs = [r.norm(x) for x in g]
        if v is SELF:
            ctx.check("unchanged", not_(lim) in gs or cmp_("<=", N, LEN) in gs or (False if lim in gs else None), "returned unchanged when %s" % [term(x) for x in gs], f)
            continue
        if not is_new(v, "CharArray", "PhysArray"):
            ctx.unknown("stretched", term(v), f)
            continue
        d, nm = kwarg(v, "dimensions", 2), kwarg(v, "name", 1)
        ctx.check("dimensions", d is SD if d is not None else False, "dimensions: %s" % (d and term(d)), f)
        ctx.check("name", nm is attr(SELF, "name") if nm is not None else False, "name: %s" % (nm and term(nm)), f)
        c = [x for x in walk(v) if is_call(x, "concatenate", "append")]
        if len(c) != 1:
            ctx.unknown("values", term(v), f)
            continue
        ax = kwarg(c[0], "axis", 1)
        ctx.check("axis", is_const(ax, -1) if ax is not None else False, "joined along axis %s" % (ax and term(ax)), f)
        seq = c[0].args[1][0]
        parts = seqview(seq)
        if parts is None or len(parts) != 2:
            ctx.unknown("values", term(v), f)
            continue
        first, second = parts[0][0], parts[1][0]
        ctx.check("values", unwrap(first) is SELF or (False if unwrap(second) is SELF else None), "the values come after the padding", f)
        ctx.check("masked", bool([x for x in walk(second) if is_call(x, "masked_where", "masked_all", "masked_equal", "masked_array")]) or
                  (False if is_call(second, "zeros", "full", "empty") else None), "the padding is not masked: %s" % term(second), f)
        z = [x for x in walk(second) if is_call(x, "zeros", "full", "empty", "masked_all", "ones")]
        if z:
            sh = z[0].args[1][0]
            want = mk("bin", "-", N, LEN)
            good = None
            av = seqview(sh)
            if av and av[-1][0] is want and not av[-1][2]:
                rest = av[:-1]
                good = len(rest) == 1 and rest[0][0].op == "elem" and rest[0][0].args[0] is mk("sub", attr(SELF, "shape"), mk("slice", NONE, const(-1), NONE)) or None
            elif av and av[-1][0].op in ("arg", "sub") or sh.op == "coll" and contains(sh, lambda y: y is N) and not contains(sh, lambda y: y is want):
                good = False
            ctx.check("padding shape", good, "padding of shape %s" % term(sh), f)


@rule("C30", "written length", 1)
def c30_write(ctx):
    """Where variables are written, character data are stretched to the last size of the file variable before they are stored."""
    WN = ctx.p.cls("flownodes.WriteNode")
    f = WN.find_method("execute")
    r = ctx.run(f, cls=WN, opaque=("_chunk_iter_", "_invert_dims_", "_open_", "_close_", "PhysArray.stretch", "CharArray.stretch"))
    sets = [e for e in r.events if e.kind == "setitem" and contains(r.norm(e.obj), lambda x: x.op == "attr" and x.args[1] == "variables")]
    if not sets:
        ctx.unknown("store", "no store into a file variable found", f)
    for e in sets:
        val = r.norm(e.val)
        var = r.norm(e.obj)
        st = [x for x in walk(val) if is_call(x, "stretch")]
        if not st:
            ctx.check("store", None if any(is_call(x, "stretch") for c in r.calls() for x in walk(c.res)) else False, "character data are stored without being stretched", e)
            continue
        n = kwarg(st[0], "newlen", 0) if st[0].args[0].op == "attr" else (st[0].args[1][1] if len(st[0].args[1]) > 1 else None)
        good = n is mk("sub", attr(var, "shape"), const(-1))
        if not good and n is not None and n.op == "sub" and n.args[0].op == "attr" and n.args[0].args[1] == "shape":
            good = False
        elif not good:
            good = None
        cond = [x for x in walk(val) if x.op == "ite" and x.args[0].op == "isinstance"]
        if good and cond:
            c = cond[0]
            good = "CharArray" in show(c.args[0].args[1]) and contains(c.args[1], lambda x: x is st[0]) or False
        ctx.check("store", good, "character data are stretched to %s" % (n and term(n)), e)


@rule("C33", "mapping", 1)
def c33_map(ctx):
    """A mapping node that renames dimensions names the mapped input, the input dimensions and then the output dimensions."""
    MN = ctx.p.cls("flownodes.MapNode")
    PA = ctx.p.cls("physarray.PhysArray")
    f = MN.find_method("__getitem__")
    inp = mk("sub", attr(SELF, "inputs"), const(0))
    info = mk("sub", inp, NONE)
    r = ctx.run(f, cls=MN, types={inp: ctx.p.cls("flownodes.FlowNode"), info: PA})
    for g, v in leaves(r.value):
        v = r.norm(v)
        nm = kwarg(v, "name", 1) if is_new(v, "PhysArray") else None
        if nm is None:
            ctx.check("name", False if is_new(v, "PhysArray") and kwarg(v, "dimensions", 3) is not None else None, "a renaming does not show in the name", f)
            continue
        for gg, x in leaves(nm):
            if x is attr(info, "name"):
                same = any(c.op == "cmp" and c.args[0] == "==" for c in gg)
                ctx.check("unchanged", same or None, "the renaming is not recorded", f)
                continue
            if x.op != "str":
                ctx.unknown("name", term(x), f)
                continue
            who = [("n" if p is attr(info, "name") else "o" if contains(p, lambda y: y.op == "attr" and y.args[1] == "_i2omap" or is_call(y, "get")) else
                    "i" if contains(p, lambda y: y is attr(info, "dimensions")) else "?") for p in x.args if not is_const(p)]
            ctx.check("renamed", None if "?" in who else who == ["n", "i", "o"], "the name is %s" % term(x), f)
