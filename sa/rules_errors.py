"""C20: errors are reported, not swallowed"""
import ast
import builtins

from .engine import SELF
from .q import exc_name, kwarg, name_of
from .rule import rule
from .rules_io import package
from .terms import cval, is_const, mk, show, walk

# the mip table tools and the date guesser are no part of the conversion
OUTSIDE = ("miptableparser", "climIO", "mapdates", "cli.iconform", "cli.vardeps")
BROAD = ("*", "Exception", "BaseException", "StandardError")
BENIGN = {"len", "str", "int", "float", "bool", "repr", "isinstance", "issubclass", "hasattr", "getattr", "list", "tuple", "dict", "set", "frozenset", "sorted",
          "reversed", "zip", "enumerate", "range", "min", "max", "sum", "abs", "any", "all", "iter", "next", "map", "filter", "type", "id", "print", "format", "join",
          "split", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "startswith", "endswith", "find", "index", "count", "partition", "rpartition",
          "get", "keys", "values", "items", "pop", "append", "extend", "insert", "add", "update", "remove", "discard", "copy", "setdefault", "union",
          "intersection", "difference", "issubset", "issuperset", "OrderedDict", "callable", "super", "slice", "ord", "chr", "round", "divmod", "hash"}


def inside(fn):
    q = fn.qual.replace("pyconform.", "", 1)
    return not any(q.startswith(o + ".") for o in OUTSIDE)


def handlers(ctx):
    """[(key, function, result, try id, types, how it ends, handler node)]"""
    if "handlers" not in ctx.cache:
        out = []
        for f, r in package(ctx):
            if not inside(f):
                continue
            n, seen = 0, {}
            for e in r.events:
                if e.kind == "handlerend" and e.fn is f:
                    ty = next((c[2] for c in e.ctx if c[0] == "except" and c[1] == e.name), ())
                    pos = (e.node.lineno, e.node.col_offset)
                    if pos not in seen:
                        n += 1
                        seen[pos] = n
                    out.append(("%s handler %d" % (f.qual.replace("pyconform.", "", 1), seen[pos]), f, r, e.name, ty, cval(e.val), e))
        ctx.cache["handlers"] = out
    return ctx.cache["handlers"]


def body(r, tid):
    return [e for e in r.events if any(c[0] == "try" and c[1] == tid for c in e.ctx or ())]


def inner(e, tid):
    """caught before it gets to this handler"""
    past = False
    for c in e.ctx or ():
        if c[0] == "try" and c[1] == tid:
            past = True
        elif past and c[0] == "try":
            return c
    return None


def bases(ctx, name):
    for c in [c for m in ctx.p.modules.values() for c in m.classes()]:
        if c.name == name:
            out = {name}
            for b in c.node.bases:
                n = b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", None)
                out |= bases(ctx, n) if n else set()
            return out
    b = getattr(builtins, name, None) if name else None
    return {x.__name__ for x in b.__mro__} if isinstance(b, type) else {name}


def catches(ctx, types, name):
    if any(t in BROAD for t in types):
        return True
    return bool(bases(ctx, name) & set(types))


def calls(evs):
    """the calls that leave what is understood: not inlined, not a plain operation on values"""
    out = []
    for e in evs:
        if e.kind != "call":
            continue
        n = (name_of(e.f) or (e.f.args[1] if e.f.op == "attr" and isinstance(e.f.args[1], str) else show(e.f, 2))).split(".")[-1]
        if n not in BENIGN and not exception(n):
            out.append((n, e))
    return out


def exception(n):
    b = getattr(builtins, n, None)
    return isinstance(b, type) and issubclass(b, BaseException) or n.endswith(("Error", "Warning"))


def warned(r, tid):
    """the categories of the warnings issued in the handlers of this try"""
    out = []
    for e in r.events:
        if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] == "warn" and any(c[0] == "except" and c[1] == tid for c in e.ctx or ()):
            c = kwarg(e, "category", 1)
            out.append(c.args[0].name if c is not None and c.op == "class" else None if c is None else show(c).split(".")[-1])
    return out


def package_warnings(ctx):
    return {c.name for m in ctx.p.modules.values() for c in m.classes() if "Warning" in bases(ctx, c.name)}


@rule("C20", "handlers", 9)
def handlers_rule(ctx):
    """Every handler in the pipeline raises on each of its paths, or it is for one of the recoverable cases and catches the error type of that case only:
    unrecognised units (ValueError of Unit) and unresolvable names (VariableNotFoundError), both with a warning of the package's own category, an
    existing directory (checked), or a lookup in which nothing else can fail."""
    for key, f, r, tid, types, end, e in handlers(ctx):
        evs = body(r, tid)
        if end == "raises":
            quits = [x for x in r.events if x.kind == "exit" and any(c[0] == "except" and c[1] == tid for c in x.ctx or ()) and
                     (x.val is None or is_const(x.val) and cval(x.val) in (0, None))]
            ctx.check(key, not quits, "the program ends without error", quits[0] if quits else e)
            continue
        broad = [t for t in types if t in BROAD]
        names = {n for n, x in calls(evs)}
        raised = [x for x in evs if x.kind == "raise" and not (inner(x, tid) and catches(ctx, [t for ts in inner(x, tid)[2] for t in ts], exc_name(x.val))) and
                  catches(ctx, types, exc_name(x.val))]
        cats = warned(r, tid)
        own = package_warnings(ctx)
        if set(types) <= {"ImportError", "ModuleNotFoundError"}:
            ctx.ok(key, "import", e)
        elif names and names <= {"makedirs", "mkdir"}:
            if set(types) <= {"FileExistsError"}:
                ctx.ok(key, "directory", e)
                continue
            known = [g for g in e.guards for t in walk(g) if t.op == "call" and (name_of(t.args[0]) or "").split(".")[-1] in ("exists", "isdir")]
            pos = [g for g in known if g.op != "not"]
            ctx.check(key, bool(pos), "a directory that could not be made is passed over", e)
        elif names == {"Unit"}:
            ctx.check(key, set(types) <= {"ValueError"}, "more than unrecognised units is caught: %s" % ", ".join(types), e)
            ctx.check(key + " warning", any(c in own for c in cats), "unrecognised units are passed over without a warning of the package's category", e)
        elif set(types) == {"VariableNotFoundError"}:
            ctx.check(key, any(c in own for c in cats), "the variable is passed over without a warning of the package's category", e)
        elif raised and names_lookup(raised, names):
            ctx.ok(key, "lookup", e)
        elif not names and not raised:
            look = set(types) <= {"KeyError", "IndexError", "AttributeError", "StopIteration", "LookupError"}
            ctx.check(key, True if look or not subscripts(f, e.node) else (False if broad else None), "any error of the evaluation is swallowed", e)
        elif broad:
            ctx.bad(key, "any error of %s is swallowed" % ", ".join(sorted(names)[:4]), e)
        elif raised:
            ctx.bad(key, "%s raised in %s is swallowed" % (exc_name(raised[0].val), raised[0].fn.qual.replace("pyconform.", "", 1)), e)
        elif set(types) <= {"KeyError", "IndexError", "AttributeError", "StopIteration"} and not data(evs):
            ctx.check(key, None, "%s around %s" % (", ".join(types), ", ".join(sorted(names)[:3])), e)
        else:
            ctx.check(key, None if not data(evs) else False, "%s of %s is swallowed" % (", ".join(types), ", ".join(sorted(names)[:4])), e)


def data(evs):
    """reading, converting or writing data takes place here"""
    return any(n in ("Dataset", "MFDataset", "convert", "execute", "close", "createVariable", "createDimension", "parse_definition", "load", "open", "exec_module",
                     "convert_units", "num2date", "setncatts", "__getitem__", "transpose", "rename", "remove") for n, e in calls(evs))


def names_lookup(raised, names):
    """only the lookup of a name can fail"""
    return not names and all(exc_name(x.val) == "KeyError" for x in raised)


def subscripts(f, handler):
    """what is evaluated by indexing in the body of the try statement of a handler"""
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try) and handler in t.handlers:
            return [x for b in t.body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)]
    return []


@rule("C20", "not-found", 2)
def not_found(ctx):
    """The error that lets a variable be skipped is raised for variable names only, and no other error is a kind of it."""
    kinds = [c.name for m in ctx.p.modules.values() for c in m.classes() if "VariableNotFoundError" in bases(ctx, c.name)]
    ctx.check("kinds", kinds == ["VariableNotFoundError"], "also skipped for %s" % ", ".join(k for k in kinds if k != "VariableNotFoundError"), None)
    n = 0
    seen = set()
    for f, r in package(ctx):
        for e in r.events:
            if e.kind == "raise" and exc_name(e.val) == "VariableNotFoundError" and e.fn is f and id(e.node) not in seen:
                seen.add(id(e.node))
                n += 1
                lits = [g for g in e.guards]
                var = any(g.op == "isinstance" and "VarType" in show(g.args[1]) for g in lits)
                neg = any(g.op == "not" and g.args[0].op == "isinstance" and "VarType" in show(g.args[0].args[1]) for g in lits)
                ctx.check("raised %d" % n, True if var else (False if neg else None), "raised for something that is no variable name", e)


@rule("C20", "warnings", 5)
def warnings(ctx):
    """Every warning of the pipeline has one of the package's own categories, which are warnings Python shows; those of the validation node have the validation
    category; nothing but the error option of the command line changes what becomes of warnings."""
    own = package_warnings(ctx)
    n = {}
    for f, r in package(ctx):
        if not inside(f):
            continue
        done = set()
        for e in r.events:
            if e.kind != "call" or e.fn is not f or id(e.node) in done:
                continue
            name = (name_of(e.f) or "").split(".")[-1]
            q = f.qual.replace("pyconform.", "", 1)
            if name == "warn":
                done.add(id(e.node))
                n[q] = n.get(q, 0) + 1
                c = kwarg(e, "category", 1)
                cat = None if c is None else c.args[0].name if c.op == "class" else show(c)
                want = {"ValidationWarning"} if f.cls is not None and f.cls.name == "ValidateNode" else own
                ctx.check("%s warning %d" % (q, n[q]), True if cat in want else (None if c is not None and c.op != "class" else False), "its category is %s" % cat, e)
            elif name in ("simplefilter", "filterwarnings", "resetwarnings", "catch_warnings"):
                done.add(id(e.node))
                n[q, 1] = n.get((q, 1), 0) + 1
                act = kwarg(e, "action", 0)
                good = act is not None and is_const(act) and cval(act) in ("error", "always") and name != "catch_warnings"
                ctx.check("%s filter %d" % (q, n[q, 1]), good, "warnings are %s" % (cval(act) if act is not None and is_const(act) else "kept back"), e)
    for c in sorted(own):
        b = bases(ctx, c)
        ctx.check(c, not b & {"DeprecationWarning", "PendingDeprecationWarning", "ImportWarning", "ResourceWarning"}, "not shown by default", None)
    ctx.check("ValidationWarning", "ValidationWarning" in own, "there is no validation category", None)


@rule("C20", "discarded", 20)
def discarded(ctx):
    """No finally clause ends in return, break or continue (which would discard the error on its way), and no suppressing context is used."""
    for m in ctx.p.modules.values():
        for f in list(m.functions()) + [x for c in m.classes() for x in list(c.methods.values()) + list(c.props.values()) + list(c.setters.values())]:
            if not inside(f):
                continue
            bad = []
            for t in ast.walk(f.node):
                if isinstance(t, ast.Try):
                    bad += leaving(t.finalbody)
                if isinstance(t, (ast.With, ast.AsyncWith)):
                    for i in t.items:
                        x = i.context_expr
                        if isinstance(x, ast.Call) and (getattr(x.func, "id", None) or getattr(x.func, "attr", None)) in ("suppress", "catch_warnings"):
                            bad.append(x)
            key = f.qual.replace("pyconform.", "", 1)
            ctx.check(key, not bad, "line %d discards errors" % (bad[0].lineno if bad else 0), ctx.place(f))


def leaving(stmts, loop=False):
    out = []
    for s in stmts:
        if isinstance(s, ast.Return) or isinstance(s, (ast.Break, ast.Continue)) and not loop:
            out.append(s)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        else:
            for field in ("body", "orelse", "finalbody"):
                out += leaving(getattr(s, field, []) or [], loop or isinstance(s, (ast.For, ast.While)) and field == "body")
            for h in getattr(s, "handlers", []) or []:
                out += leaving(h.body, loop)
    return out
