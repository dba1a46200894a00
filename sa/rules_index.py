"""C35 C36: arithmetic of indices, decided by normal forms of integer polynomials"""
from .poly import K, V, poly
from .q import atoms, cases, exc_name, is_call, kwarg, seqview, strip_seq, subst
from .rule import rule, term
from .terms import FALSE, NONE, TRUE, attr, cmp_, const, contains, cval, is_const, leaves, literals, mk, not_, rebuild, show, walk


def positive(lit, lens=None):
    """polynomial that is positive exactly where the (integer) comparison holds; None if it is no comparison"""
    neg = False
    while lit.op == "not":
        neg, lit = not neg, lit.args[0]
    if lit.op == "nonempty":
        d = poly(mk("len", lit.args[0]), lens) if lit.args[0].op != "call" or not is_call(lit.args[0], "len") else poly(lit.args[0], lens)
    elif lit.op == "cmp" and lit.args[0] in ("<", "<=", ">", ">="):
        a, b = poly(lit.args[1], lens), poly(lit.args[2], lens)
        if lit.args[0] in (">", ">="):
            a, b = b, a
        d = b - a
        if lit.args[0] in ("<=", ">="):
            d = d + K(1)
    else:
        return None
    return K(1) - d if neg else d


class Join:
    def __init__(self, ctx):
        self.f = ctx.p.func("indexing.join")
        self.r = r = ctx.run(self.f, opaque=("index_tuple",))
        self.shape, self.ix1, self.ix2 = [mk("arg", p) for p in self.f.params()[:3]]
        self.recs = seqview(r.norm(r.value))
        self.i1 = mk("elem", self._tuple(self.ix1))
        self.l0 = mk("elem", self.shape)

    def _tuple(self, ix):
        for e in self.r.calls():
            if is_call(e.res, "index_tuple") and e.args and self.r.norm(e.args[0]) is ix:
                return self.r.norm(e.res)
        return NONE


def bounds(x, l):
    """(start, stop, step) of index x over length l"""
    c = mk("call", attr(x, "indices"), (l,), ())
    return [mk("sub", c, const(i)) for i in range(3)]


def length_of(A):
    """normal form of the number of elements of range(*A): V(len(range(..)))"""
    return mk("len", mk("call", mk("ext", "range"), tuple(A), ()))


@rule("C35", "joined-slices", 8)
def c35(ctx):
    """Where both indices are slices, the joined slice has start s1 + s2*d1, step d1*d2 and stop s1 + e2*d1 (None exactly where that is negative),
    identities of polynomials over the resolved bounds; it is empty where either slice is empty."""
    J = Join(ctx)
    r, f = J.r, J.f
    if J.recs is None:
        ctx.unknown("joined index", term(r.value), f)
        return
    I1, l0 = J.i1, J.l0
    A = bounds(I1, l0)
    Ap = [V(a) for a in A]
    n1 = length_of(A)
    slices = isints = 0
    recs = []
    for v, g, l in J.recs:
        if v.op == "ite":
            recs += [(w, tuple(g) + tuple(gg), l) for gg, w in leaves(v)]
        else:
            cs = cases(v) if v.op != "slice" and contains(v, lambda x: x.op == "ite") else None
            recs += [(v, g, l)] if not cs else [(t, tuple(g) + tuple(a if b else not_(a) for a, b in val), l) for val, (t,) in cs]
    for v, g, l in recs:
        lits = [x for y in g for x in literals(y)]
        kinds = {}
        for x in lits:
            neg = x.op == "not"
            y = x.args[0] if neg else x
            if y.op == "isinstance":
                cls = show(y.args[1], 4).strip(">").split(".")[-1]
                if cls in ("slice", "int"):
                    kinds[y.args[0]] = ("slice" if (cls == "slice") != neg else "int")
        if I1 not in kinds:
            ctx.unknown("kind of first index", term(v), f)
            continue
        others = [t for t in kinds if t is not I1]
        rest = [x for x in lits if (x.args[0] if x.op == "not" else x).op != "isinstance"]
        if kinds[I1] == "int":
            isints += 1
            c34 = [positive(x) for x in rest]
            lo, hi = V(I1) + V(l0) + K(1), V(l0) - V(I1)
            val = poly(v)
            if v.op == "bin" and v.args[0] == "%" and v.args[1] is I1 and v.args[2] is l0:
                val = V(I1)
            ctx.check("first index integer", None if val.atoms() - {I1, l0} else val == V(I1) and lo in c34 and hi in c34,
                      "an integer first index gives %s with %s checked" % (term(v), [term(x) for x in rest]), f)
            continue
        if len(others) != 1:
            ctx.unknown("kind of second index", "%s kinds" % len(others), f)
            continue
        I2 = others[0]
        if I2.op == "popped" or is_call(I2, "pop"):
            a = I2.args[1] if I2.op == "popped" else I2.args[1]
            a = a.args if hasattr(a, "op") and a.op == "tuple" else a
            first = len(a) == 1 and is_const(a[0], 0)
            ctx.check("second index taken in order", first, "taken by %s" % term(I2), f)
        # the length of what the first slice selects
        L = None
        for x in walk(mk("tuple", v, *rest)):
            if is_call(x, "indices") and x.args[0].args[0] is I2 and x.args[1]:
                L = x.args[1][0]
        if kinds[I2] == "slice":
            slices += 1
            B = bounds(I2, L) if L is not None else None
            known = []
            unread = []
            for x in rest:
                p = positive(x)
                if p is None:
                    unread.append(x)
                else:
                    known.append(p)
            P1 = [(Ap[1] - Ap[0]) * Ap[2], poly(n1), poly(L) if L is not None else None]
            P2 = []
            if B is not None:
                Bp = [V(b) for b in B]
                P2 = [(Bp[1] - Bp[0]) * Bp[2], poly(length_of(B))]
            no1 = any(K(1) - p in known for p in P1 if p is not None)
            no2 = any(K(1) - p in known for p in P2)
            yes1 = any(p in known for p in P1 if p is not None)
            yes2 = any(p in known for p in P2)
            if v.op != "slice":
                ctx.unknown("slice of slice", term(v), f)
                continue
            x, y, z = v.args
            if is_const(x) and x is y and x is not NONE:
                ctx.check("empty", True if no1 or no2 else False if yes1 and yes2 else None, "an empty slice where neither slice is known to be empty", f)
                continue
            if B is None:
                ctx.unknown("slice of slice", term(v), f)
                continue
            count = L is n1
            okL = count or L == n1 or is_len_formula(L, A)
            ctx.check("length selected", None if not okL and not reads(L, A) and L is not l0 else bool(okL), "the second slice is resolved over %s" % term(L), f)
            X, Z = poly(x), poly(z)
            ctx.check("start", known_poly(X, A, B, I1, l0, X == Ap[0] + Bp[0] * Ap[2]), "the joined start is %s" % term(x), f)
            ctx.check("step", known_poly(Z, A, B, I1, l0, Z == Ap[2] * Bp[2]), "the joined step is %s" % term(z), f)
            Y = Ap[0] + Bp[1] * Ap[2]
            ctx.check("not empty", True if yes2 and (yes1 or count) else None if unread else False,
                      "the joined slice is made where %s may be empty" % ("the first slice" if yes2 else "the second slice"), f)
            X = Ap[0] + Bp[0] * Ap[2]
            Z = Ap[2] * Bp[2]
            facts = {"negative": -Y, "down": X - Y, "stepdown": -Z}
            bad = unk = None
            for gg, w in leaves(y):
                if w is not NONE and poly(w) != Y and known_poly(poly(w), A, B, I1, l0, False) is False:
                    bad = "the joined stop is %s" % term(w)
                    continue
                poss = feasible([z2 for q in gg for z2 in literals(q)], facts)
                if poss is None:
                    unk = w
                    off = [p + Y for q in gg for z in atoms(q) for p in (positive(z),) if p is not None]
                    if any(p.const() not in (None, 0) for p in off):
                        bad = "the joined stop is opened under another condition than that it is negative (%s)" % [term(q) for q in gg]
                    continue
                if w is NONE:
                    if any(not n for n, d in poss):
                        bad = "the joined stop is open where it is not negative"
                    continue
                if poly(w) != Y:
                    unk = w
                elif any(n for n, d in poss):
                    bad = "a negative joined stop is not opened, and is taken from the end"
            ctx.check("stop", False if bad else None if unk is not None else True, bad or "stop %s" % term(unk if unk is not None else y), f)
        else:
            isints += 1
            M = None
            V1 = poly(v)
            mods = [x for x in walk(v) if x.op == "bin" and x.args[0] == "%" and x.args[1] is I2]
            lens = mods[0].args[2] if mods else None
            if lens is None:
                for x in rest:
                    q = positive(x)
                    for y in (q.atoms() - {I2} if q is not None and I2 in q.atoms() else ()):
                        if y.op == "len":
                            lens = y
                        elif y.op == "bin" and is_len_formula(mk("bin", "+", y, const(1)), A):
                            lens = mk("bin", "+", y, const(1))
            if lens is None:
                ctx.unknown("integer of slice", term(v), f)
                continue
            known = [positive(x) for x in rest]
            lp = poly(lens)
            lo, hi = V(I2) + lp + K(1), lp - V(I2)
            nonneg = V(I2) + K(1) in known
            neg = -V(I2) in known
            want = [Ap[0] + V(x) * Ap[2] for x in mods if x.args[2] is lens]
            if nonneg:
                want.append(Ap[0] + V(I2) * Ap[2])
            if neg:
                want.append(Ap[0] + (V(I2) + lp) * Ap[2])
            ok = V1 in want
            for gg, w in leaves(v):
                pass
            ctx.check("integer of slice", True if ok else known_poly(V1, A, bounds(I2, lens), I1, l0, False, extra=set(mods) | {I2, lens}),
                      "an integer of a slice gives %s" % term(v), f)
            ctx.check("integer in range", lo in known and hi in known, "the integer is not checked against the number of elements selected (%s)" % [term(x) for x in rest], f)
            okn = lens is n1 or is_len_formula(lens, A) and ((Ap[1] - Ap[0]) * Ap[2]) in known
            ctx.check("elements selected", True if okn else None if not reads(lens, A) else False,
                      "an integer is taken from a slice of %s elements, which is wrong for an empty slice" % term(lens), f)
    ctx.check("slices joined", slices > 0, "no slice of slice is joined", f)
    ctx.check("integers joined", isints > 1, "integers are not joined", f)
    n = [e for e in r.calls() if is_call(e.res, "index_tuple") and e.args and r.norm(e.args[0]) is J.ix2]
    for e in n:
        a = r.norm(e.args[1])
        ctx.check("dimensions left", True if contains(a, lambda x: x.op == "isinstance" and x.args[0] is I1) else False if a is mk("len", J.shape) else None,
                  "the second index is completed to %s dimensions" % term(a), e)
    errs = [e for e in r.raises() if exc_name(r.norm(e.val)) == "IndexError"]
    ctx.check("range errors", len(errs) >= 2, "%d IndexErrors raised" % len(errs), f)


def reads(t, A):
    return contains(t, lambda x: x in A)


def is_len_formula(t, A):
    """(|e - s| - 1)//|d| + 1, the number of elements of a slice that is not empty"""
    if not (t.op == "bin" and t.args[0] == "+" and is_const(t.args[2], 1)):
        return False
    q = t.args[1]
    if not (q.op == "bin" and q.args[0] == "//"):
        return False
    num, den = q.args[1:]
    if not (is_call(den, "abs") and poly(den.args[1][0]) in (V(A[2]), -V(A[2]))):
        return False
    inner = [x for x in walk(num) if is_call(x, "abs")]
    if len(inner) != 1 or poly(num) != V(inner[0]) - K(1):
        return False
    d = V(A[1]) - V(A[0])
    return poly(inner[0].args[1][0]) in (d, -d)


def known_poly(p, A, B, I1, l0, ok, extra=frozenset()):
    """verdict ok if p is a polynomial of the resolved bounds (so that it differs if it is not the same), else None"""
    if ok:
        return True
    if p.atoms() <= set(A) | set(B) | {I1, l0} | set(extra):
        return False
    return None


def feasible(lits, facts):
    """(negative, downward) combinations a conjunction of conditions allows, of those that occur for slices that are not empty; None if a
    condition is not one of these facts"""
    out = set()
    for neg, down in ((True, True), (False, True), (False, False)):
        val = {"negative": neg, "down": down, "stepdown": down}
        good = True
        for x in lits:
            b = truth(x, facts, val)
            if b is None:
                return None
            good = good and b
        if good:
            out.add((neg, down))
    return out


def truth(x, facts, val):
    if x is TRUE or x is FALSE:
        return x is TRUE
    if x.op in ("and", "or"):
        bs = [truth(y, facts, val) for y in x.args]
        if None in bs:
            return None
        return all(bs) if x.op == "and" else any(bs)
    if x.op == "not" and x.args[0].op in ("and", "or"):
        b = truth(x.args[0], facts, val)
        return None if b is None else not b
    p = positive(x)
    if p is None:
        return None
    for k, q in facts.items():
        if p == q:
            return val[k]
        if p == K(1) - q:
            return not val[k]
        if k == "stepdown" and p == -q:           # a step is never zero
            return not val[k]
        if k == "down" and p == q + K(1):
            return val[k]
        if k == "down" and p == -q:
            return not val[k]                     # start and stop differ in slices that are not empty
    return None


# ---------------------------------------------------------------------- chunks

def settle_world(t, world):
    """value of a term where 'world' decides the conditions (a function from condition to True, False or None); None if some stay open"""
    def pick(x):
        if x.op != "ite":
            return x
        b = world(x.args[0])
        return x if b is None else x.args[1] if b else x.args[2]
    t = rebuild(t, pick)
    return None if contains(t, lambda x: x.op == "ite") else t


def within(q, D, lo, hi):
    """truth of q > 0 where D lies in [lo, hi] (None: unbounded), for q = D + k or -D + k; None if that does not decide it"""
    if q is None:
        return None
    if q.const() is not None:
        return q.const() > 0
    k = (q - D).const()
    if k is not None:
        return True if lo is not None and lo + k > 0 else False if hi is not None and hi + k <= 0 else None
    k = (q + D).const()
    if k is not None:
        return True if hi is not None and k - hi > 0 else False if lo is not None and k - lo <= 0 else None
    return None


def compound(c, leaf):
    """truth of a condition given that of its comparisons"""
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == "not":
        b = compound(c.args[0], leaf)
        return None if b is None else not b
    if c.op in ("and", "or"):
        bs = [compound(x, leaf) for x in c.args]
        if c.op == "and":
            return False if False in bs else None if None in bs else True
        return True if True in bs else None if None in bs else False
    return leaf(c)


@rule("C36", "mirrored-chunks", 4)
def c36_mirror(ctx):
    """The chunk read for a mirrored dimension of size s is, for the chunk written at [b, e), the slice from s-b-1 down to s-e-1 (open where e is
    the end), as polynomials; other dimensions keep their chunk."""
    C = ctx.p.cls("flownodes.WriteNode")
    f = C.find_method("_invert_dims_")
    ps = [p for p in f.params() if p not in ("self", "cls")]
    r = ctx.run(f, cls=C)
    dsizes, chunk, idims = [mk("arg", p) for p in ps[:3]]
    t = r.norm(r.value)
    if t.op != "coll" or t.args[0] != "dict":
        ctx.unknown("mirrored chunk", term(t), f)
        return
    d = mk("elem", dsizes)
    inv = cmp_("in", d, idims)
    seen = set()
    for op, k, v, g, l in t.args[1]:
        if op != "set" or k not in (d, mk("sub", mk("elem", mk("call", attr(dsizes, "items"), (), ())), const(0))):
            ctx.unknown("mirrored chunk", term(k), f)
            continue
        for side in (True, False):
            lits = [x for y in g for x in literals(y)]
            if (not_(inv) if side else inv) in lits:
                continue
            w = subst(v, {inv: TRUE if side else FALSE})
            seen.add(side)
            c = mk("sub", chunk, d)
            s = mk("sub", dsizes, d)
            if not side:
                ctx.check("other chunks", True if w is c else None if w.op not in ("slice", "sub") else False, "a dimension that is not mirrored reads %s" % term(w), f)
                continue
            if w is c:
                ctx.bad("mirrored chunk", "a mirrored dimension reads the chunk as it is written", f)
                continue
            if w.op != "slice":
                ctx.unknown("mirrored chunk", term(w), f)
                continue
            start, stop, step = w.args
            b, e = V(attr(c, "start")), V(attr(c, "stop"))
            S = V(s)
            vocabulary = {attr(c, "start"), attr(c, "stop"), s}
            for open_, low, high in ((True, None, None), (False, 1, 1), (False, 2, None)):
                def leaf(x):
                    if x is cmp_("is", attr(c, "stop"), NONE):
                        return open_
                    if x is cmp_("is", attr(c, "start"), NONE):
                        return False
                    if x is mk("nonempty", attr(c, "stop")) or x is attr(c, "stop"):
                        return not open_          # the end of a chunk is never 0
                    q = positive(x)
                    if q is None or open_ and attr(c, "stop") in q.atoms():
                        return None
                    # a chunk that ends before the end of the dimension is given its end
                    return within(q, S - e, low, high)
                y = settle_world(stop, lambda x: compound(x, leaf))
                x = settle_world(start, lambda x: compound(x, leaf))
                z = settle_world(step, lambda x: compound(x, leaf))
                tag = "to the end" if open_ else "before the end"
                ctx.check("start of chunk %s" % tag, None if x is None else True if poly(x) == S - b - K(1) else None if poly(x).atoms() - vocabulary else False,
                          "a mirrored chunk starts at %s" % term(x if x is not None else start), f)
                ctx.check("step of chunk %s" % tag, None if z is None else is_const(z, -1), "a mirrored chunk has step %s" % term(step), f)
                if y is None:
                    ctx.unknown("stop of chunk %s" % tag, term(stop), f)
                elif open_:
                    ctx.check("stop of chunk %s" % tag, True if y is NONE else None if poly(y).atoms() - vocabulary else False,
                              "the mirrored last chunk ends at %s" % term(y), f)
                else:
                    ctx.check("stop of chunk %s" % tag, False if y is NONE else True if poly(y) == S - e - K(1) else None if poly(y).atoms() - vocabulary else False,
                              "a mirrored chunk ends at %s" % term(y), f)
    if seen != {True, False}:
        ctx.unknown("mirrored chunk", "cases %s" % sorted(seen), f)


@rule("C36", "chunk-bounds", 5)
def c36_bounds(ctx):
    """The chunk along a dimension of size s at chunk size c (the one asked for, else s) is [k*c, (k+1)*c), open where that reaches s, for k a digit
    of a counter in the mixed radix of the numbers of chunks ceil(s/c), run over their product: every digit combination once."""
    C = ctx.p.cls("flownodes.WriteNode")
    f = C.find_method("_chunk_iter_")
    ps = [p for p in f.params() if p not in ("self", "cls")]
    r = ctx.run(f, cls=C)
    dsizes, chunks = [mk("arg", p) for p in ps[:2]]
    d = mk("elem", dsizes)
    s = mk("sub", dsizes, d)
    ys = [e for e in r.events if e.kind == "yield"]
    if len(ys) != 1:
        ctx.unknown("chunks", "%d yields" % len(ys), f)
        return
    t = r.norm(ys[0].val)
    if t.op != "coll" or t.args[0] != "dict":
        ctx.unknown("chunks", term(t), f)
        return
    given = cmp_("in", d, chunks)
    for op, k, v, g, l in t.args[1]:
        if op != "set" or k is not d or g:
            ctx.unknown("chunk", term(k), f)
            continue
        if v.op != "slice":
            ctx.unknown("chunk", term(v), f)
            continue
        c = None
        for x in walk(v):
            if x.op == "ite" and x.args[0] is given:
                c = x
            elif is_call(x, "min") and contains(x, lambda y: y is given):
                c = x
        if c is None:
            ctx.check("chunk size", None if contains(v, lambda x: x is chunks) else False, "no chunk size in %s" % term(v), f)
            continue
        if c.op == "ite":
            ctx.check("chunk size", c.args[1] is mk("sub", chunks, d) and c.args[2] is s, "the chunk size is %s" % term(c), f)
        size = mk("sub", mk("ext", "chunk sizes"), d)
        v = subst(v, {c: size})
        orig, c = c, size
        start, stop, step = v.args
        lo = poly(start)
        ks = lo.atoms() - {c}
        if len(ks) != 1 or c not in lo.atoms():
            ctx.check("start", False if not ks else None, "a chunk starts at %s" % term(start), f)
            continue
        kk = ks.pop()
        ctx.check("start", lo == V(kk) * V(c), "a chunk starts at %s" % term(start), f)
        ctx.check("step", step is NONE or is_const(step, 1), "a chunk has step %s" % term(step), f)
        hi = V(kk) * V(c) + V(c)
        digit = kk
        kk = mk("sub", mk("ext", "chunk numbers"), d)
        hi = V(kk) * V(c) + V(c)
        stop = subst(stop, {digit: kk})
        if is_call(stop, "min") and len(stop.args[1]) == 2:
            a, b = [poly(x) for x in stop.args[1]]
            ctx.check("stop", {True} == {a in (hi, V(s)), b in (hi, V(s)), a != b}, "a chunk ends at %s" % term(stop), f)
        else:
            for low, high in ((1, None), (0, 0), (None, -1)):
                y = settle_world(stop, lambda x: compound(x, lambda z: within(positive(z), V(s) - hi, low, high)))
                if y is None and low == 1:
                    ys2 = [settle_world(stop, lambda x: compound(x, lambda z: within(positive(z), V(s) - hi, *w))) for w in ((1, 1), (2, None))]
                    y = next((z for z in ys2 if z is not None and (z is NONE or poly(z) != hi)), ys2[0] if None not in ys2 else None)
                if y is None:
                    ctx.unknown("stop", "a chunk is open where %s" % term(stop), f)
                elif low == 1:
                    ctx.check("stop", False if y is NONE or y is s else True if poly(y) == hi else None if poly(y).atoms() - {kk, c, s} else False,
                              "a chunk inside the dimension ends at %s" % term(y), f)
                else:
                    ctx.check("stop at the end", True if y is NONE or y is s or low == 0 and poly(y) == hi else None if poly(y).atoms() - {kk, c, s} else False,
                              "the last chunk ends at %s" % term(y), f)
        digits(ctx, r, f, digit, d, s, c, orig)


def product_of(t):
    """the values multiplied"""
    while is_call(t, "int") and len(t.args[1]) == 1:
        t = t.args[1][0]
    if is_call(t, "prod") and len(t.args[1]) >= 1:
        return t.args[1][0]
    return None


def number_of_chunks(t, s, c):
    """verdict whether t is ceil(s/c)"""
    def strip(x):
        while is_call(x, "int") and len(x.args[1]) == 1:
            x = x.args[1][0]
        return x
    t = strip(t)
    q, m = mk("bin", "//", s, c), mk("bin", "%", s, c)
    if is_call(t, "ceil") and t.args[1]:
        x = strip(t.args[1][0])
        return True if x is mk("bin", "/", s, c) or x.op == "bin" and x.args[0] == "/" and strip(x.args[2]) is c and contains(x.args[1], lambda y: y is s) else None
    if t.op == "bin" and t.args[0] == "//" and t.args[2] is c:
        return True if poly(t.args[1]) == V(s) + V(c) - K(1) else False if poly(t.args[1]).atoms() <= {s, c} else None
    for u in walk(t):
        if u.op == "bin" and u.args[0] == "//" and u.args[2] is c and poly(u.args[1]) == -V(s):
            return True if poly(t) == -V(u) else False
    if poly(t).atoms() <= {s, c}:
        return False
    verdict = True
    for low, high in ((0, 0), (1, 1), (2, None)):
        def leaf(x):
            if x is mk("nonempty", m) or x is m:
                return low > 0
            if x.op == "cmp" and x.args[0] in ("==", "is") and m in x.args[1:]:
                k = [z for z in x.args[1:] if z is not m]
                if k and is_const(k[0]) and isinstance(cval(k[0]), int):
                    return False if cval(k[0]) < low or high is not None and cval(k[0]) > high else True if low == high else None
                return None
            return within(positive(x), V(m), low, high)
        m2 = {}
        for x in walk(t):
            b = leaf(x) if x.op in ("cmp", "nonempty") else leaf(m) if is_call(x, "bool") and x.args[1] == (m,) else None
            if b is not None:
                m2[x] = TRUE if b else FALSE
        p = settle_world(subst(t, m2), lambda x: compound(x, leaf))
        if p is None:
            return None
        exact = not contains(p, lambda x: is_call(x, "max", "min"))
        if not exact:
            # the value for long dimensions, where the quotient outgrows every constant
            def large(x):
                if not is_call(x, "max", "min") or len(x.args[1]) != 2:
                    return x
                d = poly(x.args[1][0]) - poly(x.args[1][1])
                if d.atoms() - {q} or any(len(k) > 1 for k in d.m):
                    return x
                lead = d.m.get((q,), 0) or d.m.get((), 0)
                return x.args[1][0 if (lead >= 0) == is_call(x, "max") else 1]
            p = rebuild(p, large)
            verdict = None
        p = poly(p)
        if p.atoms() - {q}:
            verdict = None
        elif p != V(q) + (K(1) if low else K(0)):
            return False
    return verdict


def digits(ctx, r, f, kk, d, s, c, orig):
    """the index k of a chunk is the digit, for its dimension, of a counter in the mixed radix of the numbers of chunks"""
    if not (kk.op == "sub" and kk.args[1] is d):
        ctx.unknown("chunk number", term(kk), f)
        return
    table = kk.args[0]
    if table.op != "coll" or table.args[0] != "dict":
        ctx.unknown("chunk number", term(kk), f)
        return
    for op, k, v, g, l in table.args[1]:
        if op != "set":
            ctx.unknown("chunk number", term(v), f)
            continue
        if is_const(v):
            continue                                      # overwritten for every chunk
        if v.op != "sub" or not is_call(v.args[0], "divmod") or not is_const(v.args[1]):
            if v.op == "bin" and v.args[0] == "%":
                ph, radix = v.args[1:]
            else:
                ctx.unknown("chunk number", term(v), f)
                continue
        else:
            ctx.check("digit", is_const(v.args[1], 1), "the chunk number is %s" % term(v), f)
            ph, radix = v.args[0].args[1]
        if not (radix.op == "sub" and radix.args[1] is k and radix.args[0].op == "coll"):
            ctx.unknown("radix", term(radix), f)
            continue
        for op2, k2, n, g2, l2 in radix.args[0].args[1]:
            ctx.check("number of chunks", number_of_chunks(n, s, c) if k2 is d and op2 == "set" else None, "there are %s chunks" % term(n), f)
        if ph.op != "phi" or ph not in r.an.phis:
            ctx.check("remaining counter", False if ph.op == "elem" else None, "the counter is %s" % term(ph), f)
            continue
        init, step = [subst(r.norm(x), {orig: c}) for x in r.an.phis[ph]]
        sv = strip_div(step)
        ctx.check("remaining counter", True if sv is not None and sv[0] is ph and sv[1] is radix else None if sv is None and step is not ph else False,
                  "the counter goes on with %s" % term(step), f)
        total = init.args[0] if init.op == "elem" else None
        if total is None or not is_call(total, "range"):
            ctx.unknown("counter", term(init), f)
            continue
        if len(total.args[1]) != 1:
            ctx.unknown("counter", term(total), f)
            continue
        p = product_of(total.args[1][0])
        if p is None:
            ctx.unknown("counter", term(total), f)
            continue
        recs = seqview(p)
        table2 = radix.args[0]
        if recs is not None and len(recs) == 1:
            ok = recs[0][0].op == "sub" and recs[0][0].args[0] is table2 and not recs[0][1]
            ctx.check("counter", True if ok else None, "the counter runs over the product of %s" % term(p), f)
        else:
            ctx.check("counter", True if contains(p, lambda x: x is table2) else None, "the counter runs over the product of %s" % term(p), f)


def strip_div(t):
    """(dividend, divisor) of an integer division"""
    if t.op == "sub" and is_call(t.args[0], "divmod") and is_const(t.args[1], 0):
        return t.args[0].args[1]
    if t.op == "bin" and t.args[0] == "//":
        return t.args[1:]
    return None
