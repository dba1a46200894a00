"""C02: input files are opened read-only and always closed"""
from .q import name_of
from .rule import rule, term
from .terms import attr, contains, cval, is_const, mk, show, truth, walk

OPENERS = {"netCDF4.Dataset": 1, "netCDF4.MFDataset": None, "Nio.open_file": 1}
TEXT = {"open": 1, "io.open": 1, "codecs.open": 1}
# the places whose documented purpose is to create a file
CREATORS = ("flownodes.WriteNode.", "climIO.PyNioPort.create_file", "climIO.NetCDF4PyPort.create_file", "CLM_pft_to_CMIP6_vegtype.main", "cli.iconform.")
# the documented entry points that hand an open file to their caller
ENTRIES = ("climIO.PyNioPort.open_file", "climIO.NetCDF4PyPort.open_file")
WRITERS = ("createVariable", "createDimension", "createGroup", "createVLType", "createCompoundType", "createEnumType", "create_variable",
           "create_dimension", "create_group", "setncattr", "setncatts", "setncattr_string", "delncattr", "renameVariable", "renameDimension",
           "renameAttribute", "renameGroup", "assign_value", "__setitem__", "__setattr__", "__delattr__", "fromcdl")
CHANGERS = ("os.remove", "os.unlink", "os.rename", "os.renames", "os.replace", "os.truncate", "os.chmod", "os.utime", "shutil.move", "shutil.copy",
            "shutil.copyfile", "shutil.copy2")


class Opening:
    """one place that opens a file, with every analysis that reaches it"""

    def __init__(self, node, fn):
        self.node, self.fn, self.seen = node, fn, []

    @property
    def key(self):
        return "%s %s" % (self.fn.qual.replace("pyconform.", "", 1), self.kind)


def package(ctx):
    """every function of the package, analysed with what it calls: [(function, result)]"""
    if "package" not in ctx.cache:
        out = []
        for m in ctx.p.modules.values():
            for f in m.functions():
                out.append((f, ctx.run(f)))
            for c in m.classes():
                for f in list(c.methods.values()) + list(c.props.values()) + list(c.setters.values()):
                    out.append((f, ctx.run(f, cls=c)))
        ctx.cache["package"] = out
    return ctx.cache["package"]


def mode_of(e, pos):
    """the mode an opening call asks for: term, None for the default"""
    for k, v in e.kw:
        if k == "mode":
            return v
        if k == "**":
            return v
    if pos is not None and len(e.args) > pos:
        return e.args[pos]
    return None


def path_of(e):
    for k, v in e.kw:
        if k in ("filename", "file", "path"):
            return v
    return e.args[0] if e.args else None


def openings(ctx):
    if "openings" not in ctx.cache:
        found = {}
        for f, r in package(ctx):
            for e in r.calls():
                n = name_of(e.f)
                if n not in OPENERS and n not in TEXT or e.f.op == "attr":
                    continue
                o = found.setdefault(id(e.node), Opening(e.node, e.fn))
                o.kind = n
                o.seen.append((f, r, e))
        ctx.cache["openings"] = list(found.values())
    return ctx.cache["openings"]


def choices(t):
    """the terms a value may be"""
    if t.op in ("choice", "or", "and"):
        return [y for x in t.args for y in choices(x)]
    if t.op == "ite":
        return choices(t.args[1]) + choices(t.args[2])
    if t.op == "loop":
        return choices(t.args[1]) + choices(t.args[2])
    return [t]


def of_file(t, h):
    """t may be the open file h, or a variable, dimension or group of it"""
    for x in choices(t):
        while True:
            if x is h:
                return True
            if x.op in ("sub", "elem", "item") and x.args:
                x = x.args[0]
                if x.op in ("attr", "getattr") and x.args[1] in ("variables", "groups", "dimensions"):
                    x = x.args[0]
                    continue
                if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("values", "items"):
                    x = x.args[0].args[0]
                    if x.op == "attr" and x.args[1] in ("variables", "groups", "dimensions"):
                        x = x.args[0]
                        continue
            if x.op == "idx" and x.args and hasattr(x.args[0], "op"):
                x = x.args[0]
                continue
            if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("get", "__getitem__", "get_variables_by_attributes"):
                x = x.args[0].args[0]
                if x.op == "attr" and x.args[1] in ("variables", "groups", "dimensions"):
                    x = x.args[0]
                continue
            break
    return False


def reads_only(m):
    """does this mode only read? True / False / None"""
    if m is None:
        return True
    vs = choices(m)
    got = [(cval(x) if is_const(x) else None) for x in vs]
    if all(isinstance(g, str) and g in ("r", "rb", "rt", "rU", "rs", "r4") for g in got):
        return True
    if any(isinstance(g, str) and g not in ("r", "rb", "rt", "rU", "rs", "r4") for g in got):
        return False
    return None


@rule("C02", "mode", 20)
def mode(ctx):
    """A place that opens a file, other than the places documented to create one, asks for reading only."""
    for o in openings(ctx):
        text = o.kind in TEXT
        for f, r, e in o.seen:
            m = mode_of(e, TEXT.get(o.kind, OPENERS.get(o.kind)))
            ro = reads_only(m)
            k = "%s in %s" % (o.key, f.qual.replace("pyconform.", "", 1))
            if ro is None:
                ctx.unknown(k, "mode %s" % show(m)[:80], e)
            elif ro:
                ctx.ok(k, "mode %s" % ("default" if m is None else show(m)), e)
            elif not any(c in o.fn.qual + "." for c in CREATORS):
                ctx.bad(k, "opens %s with mode %s: an input file could be created or changed" % (show(path_of(e))[:80], show(m)[:40]), e)
            else:
                vals = [cval(x) for x in choices(m) if is_const(x)]
                if any(v in ("a", "r+", "a+", "ab", "r+b", "s", "as", "r+s") for v in vals):
                    ctx.bad(k, "opens an existing file for change (mode %s)" % show(m)[:40], e)
                    continue
                p = path_of(e)
                named = text and p is not None and (p.op == "arg" or p.op == "attr" and p.args[0].op == "call" and name_of(p.args[0].args[0]) == "parse_args")
                same = p is not None and any(path_of(x) is p for g, q, x in sum((y.seen for y in openings(ctx)), []) if q is r and x is not e
                                             and reads_only(mode_of(x, 1)))
                ctx.check(k, False if named or same else True, "creates a file under the name %s which is an input of this function" % show(p)[:80], e,
                          note="creates %s" % show(p)[:60])


def inputs(ctx):
    for o in openings(ctx):
        if o.kind in TEXT:
            continue
        for f, r, e in o.seen:
            if reads_only(mode_of(e, OPENERS.get(o.kind))):
                yield o, f, r, e


@rule("C02", "untouched", 6)
def untouched(ctx):
    """Nothing derived from a file opened for reading is assigned to, and no method that changes a file is called on it; the file itself is not
    removed, renamed or replaced."""
    for o, f, r, e in inputs(ctx):
        h, p = e.res, path_of(e)
        k = "%s in %s" % (o.key, f.qual.replace("pyconform.", "", 1))
        wrong = None
        for x in r.events:
            if x.kind in ("setitem", "setattr", "delitem", "aug", "delattr") and x.obj is not None and hasattr(x.obj, "op") and of_file(x.obj, h):
                wrong = (x, "assigns to %s of a file opened for reading" % (show(x.obj)[:60] + ("." + x.name if isinstance(x.name, str) else "[...]")))
            elif x.kind == "call" and x.f is not None and x.f.op == "attr" and x.f.args[1] in WRITERS and of_file(x.f.args[0], h):
                wrong = (x, "calls %s on a file opened for reading" % x.f.args[1])
            elif x.kind == "call" and name_of(x.f) == "setattr" and x.args and of_file(x.args[0], h):
                wrong = (x, "sets an attribute of a file opened for reading")
            elif x.kind == "call" and name_of(x.f) in CHANGERS and any(a is p for a in x.args[:1 if name_of(x.f).startswith("shutil.copy") else 2]):
                if not name_of(x.f).startswith("shutil.copy"):
                    wrong = (x, "%s on the input file %s" % (name_of(x.f), show(p)[:60]))
        if wrong:
            ctx.bad(k, wrong[1], wrong[0])
        else:
            ctx.ok(k, "", e)


def risky(x):
    return x.kind in ("call", "getitem", "raise", "return", "binop", "aug", "setitem", "delitem", "break", "yield")


def catches_all(types):
    return types in (None, (), "*") or any(t in ("*", "BaseException", "Exception") for t in (types if isinstance(types, (tuple, list)) else (types,)))


def handed(y, f, h):
    """the return of the open file from a helper to its caller"""
    return y.kind == "return" and y.fn is not f and y.val is not None and any(x is h for x in choices(y.val))


def fate(f, r, e):
    """('ok'|'bad'|'escapes'|None, explanation, event)"""
    h = e.res
    mine = lambda t: t is not None and hasattr(t, "op") and any(x is h for x in choices(t))
    has = lambda t: t is not None and hasattr(t, "op") and contains(t, lambda x: x is h)
    later = [x for x in r.events if (x.seq or 0) > (e.seq or 0)]
    n = len(e.loops or ())
    # a context manager
    for x in later:
        if x.kind == "with" and x.val is not None and (mine(x.val) or x.val.op in ("call", "new") and "closing" in show(x.val)[:30] and has(x.val)):
            between = [y for y in later if y.seq < x.seq and risky(y) and not handed(y, f, h) and not (y.kind == "call" and (y.res is x.val or has(y.res)))]
            if between:
                return "bad", "is not closed when %s fails" % (show(between[0].f)[:40] if between[0].f is not None else between[0].kind), between[0]
            return "ok", "with", x
        if x.kind == "call" and name_of(x.f) == "enter_context" and any(mine(a) for a in x.args):
            return "ok", "exit stack", x
    # kept
    for x in later:
        if x.kind in ("setattr", "setitem") and mine(x.val) and x.obj.op in ("self", "arg", "attr", "class", "global"):
            return "bad", "stays open: it is kept in %s" % show(x.obj)[:40], x
    # handed to the caller
    for x in later:
        if x.kind in ("return", "yield") and x.fn is e.fn and f is e.fn and x.val is not None and (
                mine(x.val) or x.val.op == "tuple" and any(mine(y) for y in x.val.args)):
            if x.kind == "return" and not any(c[0] in ("finally", "finallyguarded") for c in x.ctx or ()):
                return "escapes", "", x
    # a close that happens on every path
    closes = [x for x in later if x.kind == "call" and x.f is not None and x.f.op == "attr" and x.f.args[1] == "close" and mine(x.f.args[0])]
    g0 = set(e.guards or ())
    for x in closes:
        if (x.loops or ())[:n] != (e.loops or ()) or len(x.loops or ()) > n:
            continue
        extra = [g for g in (x.guards or ()) if g not in g0 and not has(g) and g.op != "forall"]
        tids = [c[1] for c in x.ctx or () if c[0] == "finally"]
        for tid in tids:
            gap = [y for y in later if y.seq < x.seq and risky(y) and not any(c == ("finallyguarded", tid) for c in y.ctx or ())
                   and not handed(y, f, h) and y is not x]
            if gap:
                y = gap[0]
                return "bad", "is not closed when %s fails before the closing is arranged" % (show(y.f)[:40] if y.f is not None else y.kind), y
            if extra and not any(y.kind == "return" for y in later if y.seq < x.seq):
                return None, "closed under %s" % show(extra[0])[:60], x
            return "ok", "finally", x
    plain = [x for x in closes if not any(c[0] in ("finally", "except") for c in x.ctx or ())]
    for x in plain:
        gap = [y for y in later if y.seq < x.seq and risky(y) and not handed(y, f, h)]
        if not gap:
            return "ok", "closed at once", x
        caught = [c[1] for z in closes for c in z.ctx or () if c[0] == "except" and catches_all(c[2])]
        y = [y for y in gap if not any(c[0] in ("try", "except") and c[1] in caught for c in y.ctx or ())]
        if not y:
            return "ok", "closed in a handler of every error and on the normal path", x
        y = y[0]
        return "bad", "is not closed when %s fails" % (show(y.f)[:60] if y.f is not None else y.kind), y
    if closes:
        if any(len(x.loops or ()) < n for x in closes):
            return "bad", "only the last file opened is closed", closes[0]
        return None, "closed in an unrecognised place", closes[0]
    # kept or passed on
    for x in later:
        if x.kind in ("setattr", "setitem") and has(x.val):
            return "bad", "stays open: it is kept in %s and never closed" % show(x.obj)[:40], x
        if x.kind == "call" and x.f is not None and x.f.op not in ("ext", "attr") and any(mine(a) for a in x.args):
            return None, "passed to %s" % show(x.f)[:40], x
    return "bad", "is never closed", e


@rule("C02", "closed", 6)
def closed(ctx):
    """Every file the package opens for reading is closed whether or not the reads succeed: it is the subject of a with statement, or closed in a finally
    clause whose try follows the opening at once."""
    waiting, judged = {}, set()
    for o, f, r, e in inputs(ctx):
        k = "%s in %s" % (o.key, f.qual.replace("pyconform.", "", 1))
        v, why, x = fate(f, r, e)
        if v == "escapes":
            if any(o.fn.qual.endswith(n) for n in ENTRIES):
                ctx.ok(k, "documented entry point: the file is handed to the caller", e)
            else:
                waiting[id(o.node)] = (o, k, e)
            continue
        judged.add(id(o.node))
        ctx.check(k, {"ok": True, "bad": False, None: None}[v], "the file %s %s" % (show(path_of(e))[:60], why), x, note=why)
    for i, (o, k, e) in waiting.items():
        ctx.check(k, True if i in judged else None, "handed to a caller that is not analysed", e, note="judged in its callers")


@rule("C02", "sites", 5)
def sites(ctx):
    """The places that read input — the read node, the input description, the time ordering and both ports — open their files through a recognised
    opening call."""
    want = {"flownodes.ReadNode.__init__": 0, "flownodes.ReadNode.__getitem__": 0, "datasets.InputDatasetDesc.__init__": 0,
            "mapdates.get_files_in_order": 0, "climIO.NetCDF4PyPort.open_file": 0, "climIO.PyNioPort.open_file": 0}
    for o, f, r, e in inputs(ctx):
        for w in want:
            if f.qual.endswith(w):
                want[w] += 1
    for w, n in want.items():
        ctx.check(w, True if n else None, "no opening call recognised", ctx.p.func(w) if not n else None, note="%d" % n)
