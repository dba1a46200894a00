"""C19 C21: parallel steps, and the command line of the execution tool"""
import os

from .engine import SELF
from .pev import Lazy, Made, Tok, Unknown, Wrong
from .q import exc_name, is_call, kwarg, name_of
from .rule import TimeUp, limited, rule, term
from .rules_data import root
from .rules_flow import field, flow
from .terms import contains, cval, is_const, mk, not_, show, walk

COLLECTIVE = ("partition", "sync", "ration", "allreduce", "collect", "divide", "barrier", "Barrier", "bcast", "gather", "scatter", "allgather", "reduce")
RANKED = ("is_manager", "get_rank", "get_color", "get_group", "Get_rank")
COMMON = ("Duplicate",)                                                # the same value on every rank
SHARED = ("WeightBalanced", "EqualStride", "EqualLength", "SortedStride")     # every item to exactly one rank
STOP = ("DatasetDesc.__init__", "DataFlow.__init__", "WriteNode.execute")


def comm_like(t, r):
    """may this term be a communicator? everything but what is known to be something else"""
    s = show(t, 4)
    return "comm" in s.lower() or "Comm" in s


def rank_dependent(t, r, seen=None):
    """does the value depend on which rank evaluates it?"""
    seen = set() if seen is None else seen
    if not hasattr(t, "op") or t in seen:
        return False
    seen.add(t)
    go = lambda x: rank_dependent(x, r, seen)
    if t.op == "call":
        f = t.args[0]
        if f.op == "attr" and f.args[1] in RANKED and comm_like(f.args[0], r):
            return True
        if f.op == "attr" and f.args[1] in COLLECTIVE and comm_like(f.args[0], r):
            if f.args[1] in ("allreduce", "bcast", "allgather"):
                return False
            fn = dict(t.args[2]).get("func") if len(t.args) > 2 else None
            if fn is None and len(t.args[1]) > 1:
                fn = t.args[1][1]
            if fn is not None and fn.op in ("call", "new"):
                n = name_of(fn.args[0]) if fn.op == "call" else fn.args[0]
                if n and n.split(".")[-1] in COMMON:
                    return False
            return True
    if t.op == "alloc":
        for x in r.an.recs.get(t, ()):
            if any(go(y) for y in [x.key, x.val] + list(x.guards or ()) + list(x.loops or ())):
                return True
        return False
    if t.op == "phi":
        return any(go(x) for x in r.an.phis.get(t, ()))
    return any(go(y) for x in t.args for y in (x if isinstance(x, tuple) else (x,)) if hasattr(y, "op")) or any(
        go(z) for x in t.args if isinstance(x, tuple) for y in x if isinstance(y, tuple) for z in y if hasattr(z, "op"))


def collective(e):
    if e.kind != "call":
        return None
    n = name_of(e.f)
    if e.f.op == "attr" and e.f.args[1] in COLLECTIVE and "comm" in show(e.f.args[0], 6).lower():
        return e.f.args[1]
    if method(e) == "execute" and e.f.args[0].op == "new" and e.f.args[0].args[0].endswith("DataFlow"):
        return "execute"
    if n and n.split(".")[-1] == "create_comm":
        return "create_comm"
    return None


def parallel(ctx):
    """[(function, result)] of the functions that communicate"""
    if "parallel" not in ctx.cache:
        out = []
        for m in ctx.p.modules.values():
            todo = [(f, None) for f in m.functions()] + [(f, c) for c in m.classes() for f in c.methods.values()]
            for f, c in todo:
                r = ctx.run(f, cls=c, opaque=STOP + (("DataFlow.execute",) if f.name != "execute" else ()))
                if any(collective(e) for e in r.events):
                    out.append((f, r))
        ctx.cache["parallel"] = out
    return ctx.cache["parallel"]


@rule("C19", "same-steps", 8)
def same_steps(ctx):
    """No collective step lies under a condition, in a loop or after an early exit whose condition depends on the rank: the value of is_manager or
    get_rank, anything computed only on one rank, or a rank's own part of a partition."""
    n = {}
    for f, r in parallel(ctx):
        for e in r.events:
            c = collective(e)
            if not c:
                continue
            q = "%s %s" % (f.qual.replace("pyconform.", "", 1), c)
            n[q] = n.get(q, 0) + 1
            dep = [g for g in list(e.guards or ()) + list(e.loops or ()) if rank_dependent(g, r)]
            ctx.check("%s %d" % (q, n[q]), not dep, "%s takes place only under %s, which differs between the ranks" % (c, show(dep[0])[:80] if dep else ""), e)


@rule("C19", "lone-errors", 1)
def lone_errors(ctx):
    """Between the start and the last collective step no error is raised by code that only some ranks execute (the others would wait for ever)."""
    for f, r in parallel(ctx):
        steps = [e.seq for e in r.events if collective(e)]
        short = f.qual.replace("pyconform.", "", 1)
        lone = [e for e in r.events if e.kind == "raise" and e.seq < max(steps) and any(rank_dependent(g, r) for g in e.guards)
                and not any(c[0] in ("try",) for c in e.ctx or ())]
        n = {}
        for e in lone:
            x = exc_name(e.val) or "error"
            n[x] = n.get(x, 0) + 1
            ctx.bad("%s %s%s on one rank" % (short, x, " %d" % n[x] if n[x] > 1 else ""), "raised on one rank only while the others wait in the next step", e)
        if not lone:
            ctx.ok("%s errors" % short)


def partitions(r):
    return [e for e in r.events if e.kind == "call" and e.f.op == "attr" and e.f.args[1] == "partition" and "comm" in show(e.f.args[0], 6).lower()]


def pfunc(e):
    fn = kwarg(e, "func", 1)
    if fn is None or is_const(fn):
        return "default"
    if fn.op in ("call", "new"):
        n = name_of(fn.args[0]) if fn.op == "call" else fn.args[0]
        return n.split(".")[-1] if n else None
    return None


@rule("C19", "one-writer", 5)
def one_writer(ctx):
    """All output files, and each once, are handed to the partition by size; every rank, the manager included, gets its own part; the loop over that part
    executes the write node of each file, with the chunk sizes and the deflate level of the call, and with history on or off as the call says."""
    c = ctx.p.cls("dataflow.DataFlow")
    fn = c.methods["execute"]
    r = next((r for f, r in parallel(ctx) if f is fn), None)
    if r is None:
        ctx.unknown("DataFlow.execute", "no collective step found", ctx.place(fn))
        return
    writes = [e for e in r.events if e.kind == "call" and e.f is not None and (e.f.op == "attr" and e.f.args[1] == "execute" or
                                                                         e.f.op == "bound" and e.f.args[1].name == "execute")]
    if not writes:
        ctx.bad("writes", "no write node is executed", ctx.place(fn))
        return
    parts = partitions(r)
    _, init = flow(ctx)
    nodes = None
    for e in writes:
        recv = e.f.args[0]
        if recv.op == "sub" and recv.args[0].op == "attr" and recv.args[0].args[0] is SELF:
            nodes, key = recv.args[0].args[1], recv.args[1]
        elif recv.op == "elem":
            nodes, key = None, recv
        else:
            ctx.unknown("writes", "the write node is %s" % show(recv)[:60], e)
            continue
        own = [x for x in walk(key) if is_call(x, "partition")]
        if any(x.op == "popped" for x in walk(key)):
            ctx.check("writes", None, "the file written is %s" % show(key)[:60], e)
            continue
        if not own and key.op in ("elem", "ite", "sub"):
            ls = [l for l in e.loops or () if contains(l, lambda x: is_call(x, "partition"))]
            own = ls
        if not e.loops or not own:
            ctx.check("writes", False, "the files written are not those of this rank's part: %s" % show(key)[:60], e)
            continue
        ctx.check("writes", key.op in ("elem", "ite") or None, "the file written is %s" % show(key)[:60], e)
        part = [x for x in walk(key) if x.op == "slice"] + [x for l in e.loops or () for x in walk(l) if x.op == "slice"]
        ctx.check("all of the part", not part, "only some files of this rank's part are written", e)
        inloop = [g for g in e.guards if contains(g, lambda x: x is key)]
        ctx.check("all written", not inloop, "a file of this rank's part is not written unless %s" % (show(inloop[0])[:60] if inloop else ""), e)
        # parameters
        for name, pos in (("chunks", 0), ("deflate", 1)):
            v = kwarg(e, name, pos)
            a = mk("arg", name)
            if v is None:
                ctx.bad("passes " + name, "%s is not passed to the write node" % name, e)
                continue
            leaves = alternatives(r.norm(v))
            good = all(x is a or name == "chunks" and restricted(x, a) for x in leaves)
            ctx.check("passes " + name, True if good else (False if all(not contains(x, lambda y: y is a) for x in leaves) or any(is_const(x) for x in leaves)
                                                           else None), "the write node gets %s" % show(v)[:80], e)
    # history
    on = [e for e in r.events if e.kind == "call" and method(e) == "enable_history"]
    off = [e for e in r.events if e.kind == "call" and method(e) == "disable_history"]
    h = mk("arg", "history")
    w0 = min(e.seq for e in writes)
    for name, es, cond in (("history on", on, h), ("history off", off, not_(h))):
        if not es:
            ctx.check(name, False if (on or off) and name == "history on" else None, "history is not set", ctx.place(fn))
            continue
        good = any(cond in e.guards for e in es) or not any(h in e.guards or not_(h) in e.guards for e in es)
        wrong = all(not_(cond) in e.guards for e in es)
        late = all(e.seq > w0 for e in es)
        ctx.check(name, False if wrong or late else (True if good else None), "history is %s" % ("set the other way round" if wrong else "set after the file is written"),
                  es[0])
    # the data handed out
    done = set()
    for e in parts:
        pf = pfunc(e)
        data = kwarg(e, "data", 0)
        key = "partition %s" % pf
        if key in done:
            continue
        done.add(key)
        inv = kwarg(e, "involved", 2)
        ctx.check("involved", False if inv is None or is_const(inv) and not cval(inv) else (True if is_const(inv) else None),
                  "the manager takes no part: its files are never written", e)
        ctx.check("function", True if pf in SHARED or pf == "default" else (False if pf in COMMON else None),
                  "%s gives the same files to every rank" % pf, e)
        d = r.norm(data)
        names = [x.args[1] for x in walk(d) if x.op == "attr" and x.args[0] is SELF]
        if len(set(names)) != 1:
            ctx.unknown("data", "partitioned: %s" % show(d)[:80], e)
            continue
        a = names[0]
        # pairs for the weighted partition, names for the others
        pairs = any(is_call(x, "items") for x in walk(data)) or any(is_call(x, "items") for x in walk(d)) or pairs_of(r, data, a)
        ctx.check("data form", None if pairs is None else (pairs == (pf == "WeightBalanced")), "the partition function %s gets %s" % (
            pf, "pairs" if pairs else "bare names: files are not weighted"), e)
        cut = [x for x in walk(d) if x.op == "slice" or is_call(x, "head", "islice")]
        part = d.op == "coll" and any(en[3] for en in d.args[1])
        ctx.check("data complete", False if cut or part else True, "only some of the files are handed out", e)
        t = field(init, a)
        wn = field(init, nodes) if nodes else None
        if wn is None or t.op != "coll" or t.args[0] != "dict":
            ctx.check("files", True if nodes == a else None, "sizes are %s" % show(t)[:60], e)
            continue
        ok = False
        for op, k, v, guards, loops in t.args[1]:
            if op == "set" and not guards and len(loops) == 1 and (root(loops[0]) is wn or covers(loops[0], wn)):
                ok = True
        ctx.check("files", ok or (False if len(t.args[1]) == 1 and t.args[1][0][3] else None), "not every write node has an entry in %s" % a, e)


def covers(l, wn):
    return contains(l, lambda x: x is wn)


def pairs_of(r, data, a):
    for x in walk(data):
        if x.op == "alloc":
            for rec in r.an.recs.get(x, ()):
                if any(is_call(l, "items") for l in rec.loops or ()):
                    return True
                if rec.val is not None and rec.val.op == "tuple" and len(rec.val.args) == 2:
                    return True
                if rec.val is not None and rec.val.op == "elem":
                    return any(is_call(y, "items") for y in walk(rec.val))
                if rec.op in ("extend", "update"):
                    return any(is_call(y, "items") for y in walk(rec.val))
    return False


def method(e):
    return e.f.args[1] if e.f.op == "attr" else e.f.args[1].name if e.f.op == "bound" else None


def alternatives(t):
    if t.op == "ite":
        return alternatives(t.args[1]) + alternatives(t.args[2])
    if t.op in ("choice",):
        return [y for x in t.args for y in alternatives(x)]
    return [t]


def restricted(x, a):
    """a part of the mapping given: the same values under the same keys"""
    if x.op == "coll" and x.args[0] == "dict":
        for op, k, v, guards, loops in x.args[1]:
            if op == "set" and k.op == "elem" and v.op == "sub" and v.args[0] is a and v.args[1] is k:
                continue
            if op == "set" and v.op == "sub" and v.args[0] is a:
                continue
            if op == "update" and v is a or op == "set" and v is a:
                continue
            return False
        return True
    return False


# the command line ----------------------------------------------------------------------------------------------------
OPTIONS = {"--chunk": ("-c", "many"), "--deflate": ("-d", "one"), "--debug": (None, "flag"), "--error": ("-e", "flag"), "--stdfile": ("-f", "one"),
           "--module": ("-m", "many"), "--no_history": ("-n", "flag"), "--serial": ("-s", "flag")}


class Args:
    """the options of a parser as they are declared, and the values they take for a command line"""

    def __init__(self, ctx, r):
        self.options, self.problem = {}, None
        for e in r.events:
            if e.kind != "call" or method(e) != "add_argument":
                continue
            if e.loops or e.guards:
                self.problem = "options are added conditionally"
            flags = [cval(a) for a in e.args if is_const(a)]
            kw = dict(e.kw)
            if len(flags) != len(e.args) or not flags:
                self.problem = "flags of an option are not constants"
                continue
            long = next((f for f in flags if f.startswith("--")), flags[0])
            dest = kw.get("dest")
            dest = cval(dest) if dest is not None else long.lstrip("-").replace("-", "_")
            self.options[long] = dict(flags=flags, dest=dest, kw=kw, e=e, positional=not flags[0].startswith("-"))

    def value(self, o, an, given):
        """of an option: given its texts, or None where it is absent"""
        kw = o["kw"]
        c = lambda k, d: cval(kw[k]) if k in kw and is_const(kw[k]) else d
        act = c("action", "store")
        default = self.plain(kw.get("default"), an)
        if given is True and act in ("append", "store") and c("nargs", None) != "?":
            raise Wrong("the option %s requires a value" % o["flags"][-1])
        if act == "store_true":
            return True if given else (False if "default" not in kw else default)
        if act == "store_false":
            return False if given else (True if "default" not in kw else default)
        if act == "store_const":
            return c("const", None) if given else default
        if act == "append":
            base = list(default) if isinstance(default, list) else []
            return base + list(given) if given else default
        if act == "store":
            many = c("nargs", None) in ("*", "+")
            if o["positional"]:
                return list(given or ()) if many else (given or [None])[0]
            return default if not given else list(given) if many else given[-1]
        raise Unknown("action %s" % act)

    @staticmethod
    def plain(t, an):
        if t is None:
            return None
        return Lazy(an, {}).ev(t)


class Cli(Lazy):
    def turns(self, l, env):
        if is_call(l, "enumerate") and mk("elem", l) not in env:
            v = self.ev(l.args[1][0], env)
            if isinstance(v, (Tok, Made)):
                raise Unknown(show(l, 3))
            out = []
            for i, x in enumerate(v):
                e = dict(env)
                e[mk("elem", l)] = (i, x)
                self.bind(e, l.args[1][0], x)
                e[mk("idx", l.args[1][0])] = i
                out.append(e)
            return out
        return super().turns(l, env)

    def call(self, t, env):
        try:
            return super().call(t, env)
        except Unknown:
            n = (name_of(t.args[0]) or "").split(".")[-1]
            if t.args[0].op == "ext" and n[:1].isupper():
                return Made(n, [], {})
            raise

    def content(self, a, env):
        # a dictionary made from pairs
        recs = self.an.recs[a]
        if a.args[0] == "dict" and len(recs) == 1:
            x = recs[0].val
            if recs[0].op == "set" and x is not None and x.op == "sub" and recs[0].key is x.args[1] and x.args[1].op == "elem" and x.args[1].args[0] is x.args[0]:
                x = x.args[0]
            elif recs[0].op != "update":
                return super().content(a, env)
            if not recs[0].guards or all(self.holds(g, env) for g in recs[0].guards):
                v = self.ev(x, env)
                if isinstance(v, list):
                    return dict(v)
        return super().content(a, env)

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t not in env and t.op == "ext":
            return Tok(t.args[0])
        if t not in env and t.op == "sub" and t.args[1].op == "const":
            v = self.ev(t.args[0], env)
            if isinstance(v, Tok) and v.name == "parsed":
                return Tok("args")
        return super().ev(t, env)


def command(ctx):
    if "command" not in ctx.cache:
        fn = ctx.p.func("cli.xconform.main")
        r = ctx.run(fn, opaque=STOP + ("DataFlow.execute",))
        ctx.cache["command"] = (fn, r, Args(ctx, r))
    return ctx.cache["command"]


def session(r, a, given, manager=True, exists=True, matched=True, descriptor=True):
    """the traced events that happen for a command line: [(event, environment)] and the world, or Unknown"""
    ns = {o["dest"]: a.value(o, r.an, given.get(n)) for n, o in a.options.items()}
    attrs = {("args", k): (lambda v: lambda x: v)(v) for k, v in ns.items()}
    comm = Tok("comm")

    def partition(c, x=None, func=None, involved=False, tag=None, **k):
        # the manager gets a part only if it asks for one
        return x if involved is not False or not manager else None
    bcast = lambda c, x=None, **k: x

    def globbed(*x, **k):
        # a name with a star matches two files
        if not matched:
            return []
        return [v for n in x[-1:] for v in ([n.replace("*", "1"), n.replace("*", "2")] if "*" in n else [n])]
    calls = {"ArgumentParser": lambda *x, **k: Tok("parser"), "parse_args": lambda *x, **k: Tok("args"), "parse_known_args": lambda *x, **k: Tok("parsed"), "create_comm": lambda **k: comm,
             "is_manager": lambda c: manager, "get_rank": lambda c: 0 if manager else 1, "get_size": lambda c: 2, "exists": lambda *x, **k: exists,
             "isfile": lambda *x, **k: exists, "glob": globbed, "iglob": globbed,
             "partition": partition, "load": lambda *x, **k: Tok("spec"), "loads": lambda *x, **k: Tok("spec"), "bcast": bcast}
    w = Cli(r.an, {}, calls=calls, attrs=attrs)
    for e in r.events:
        if e.kind == "call" and method(e) == "partition":
            x = kwarg(e, "data", 0)
            if not manager and x is not None:
                # what the manager sends
                names = [y.args[0].split(".")[-1] for y in walk(x) if y.op == "new"]
                if "InputDatasetDesc" in names:
                    w.env[e.res] = Made("InputDatasetDesc", [], {}) if given.get("infiles") and matched else None
                elif "OutputDatasetDesc" in names:
                    w.env[e.res] = Made("OutputDatasetDesc", [], {})
    out = []
    for e in r.events:
        if e.kind == "enter" or e.kind == "return" and e.fn is not r.fn and getattr(e.fn, "qual", None) != r.fn.qual:
            continue
        for env in w.happens(e.loops or (), e.guards, w.env):
            out.append((e, env))
            if e.kind == "raise" and not e.loops:
                return out, w
    return out, w


def made(out, cls):
    return [(e, env) for e, env in out if e.kind == "call" and e.res is not None and e.res.op == "new" and e.res.args[0].endswith(cls)]


def executions(out):
    return [(e, env) for e, env in out if collective(e) == "execute"]


def seen(w, v, env):
    if v is None:
        return None
    x = w.ev(v, env)
    return x


BASE = {"--stdfile": ["spec.json"], "infiles": ["in*.nc"]}
EXECUTE = ("chunks", "serial", "history", "scomm", "deflate", "debug")
NAMED = {"chunks": {}, "serial": False, "history": False, "scomm": None, "deflate": None, "debug": False}
LINES = {"nothing else": {}, "one chunk": {"--chunk": [("time", 5)]}, "two chunks": {"--chunk": [("time", 5), ("lev", 1)]}, "deflate": {"--deflate": [3]},
         "deflate zero": {"--deflate": [0]}, "debug": {"--debug": True}, "error": {"--error": True}, "no history": {"--no_history": True}, "serial": {"--serial": True},
         "module": {"--module": ["/m1.py"]}, "modules": {"--module": ["/m1.py", "/m2.py"]}, "two inputs": {"infiles": ["a*.nc", "b.nc"]},
         "everything": {"--chunk": [("time", 5)], "--deflate": [0], "--debug": True, "--error": True, "--no_history": True, "--serial": True,
                        "--module": ["/m1.py", "/m2.py"]}}


def attempt(ctx, key, f, where):
    try:
        with limited(40):
            return f()
    except TimeUp as u:
        ctx.unknown(key, "not decided: %s" % u, where)
    except Unknown as u:
        ctx.unknown(key, "not decided: %s" % str(u)[:90], where)
    except Wrong as x:
        ctx.bad(key, "raises %s" % str(x)[:90], where)
    except (AttributeError, KeyError, TypeError, ValueError, IndexError) as x:
        if os.environ.get("VERIF_STRICT"):
            raise
        ctx.unknown(key, "not decided: internal %r" % (x,), where)
    return None


@rule("C21", "options", 9)
def options(ctx):
    """The documented options exist under their short and long names, with the kind of value documented: a flag, one value, a value each time it is given."""
    fn, r, a = command(ctx)
    if a.problem:
        ctx.unknown("options", a.problem, ctx.place(fn))
        return
    for n, (short, kind) in OPTIONS.items():
        o = a.options.get(n)
        if o is None:
            ctx.bad(n, "no such option", ctx.place(fn))
            continue

        def run():
            texts = {"flag": True, "one": ["x"], "many": ["x", "y"]}[kind]
            got, none = a.value(o, r.an, texts), a.value(o, r.an, None)
            good = (short is None or short in o["flags"]) and got == {"flag": got, "one": "x", "many": ["x", "y"]}[kind] and got != none
            ctx.check(n, good, "given %s it has the value %r, not given %r" % (texts, got, none), o["e"])
        attempt(ctx, n, run, o["e"])
    pos = [o for o in a.options.values() if o["positional"]]
    ctx.check("input files", len(pos) == 1 and "nargs" in pos[0]["kw"] and cval(pos[0]["kw"]["nargs"]) == "*", "the input files are not any number of names", ctx.place(fn))
    if pos:
        for w, (n, o) in enumerate(list(a.options.items())):
            if o is pos[0] and n != "infiles":
                a.options["infiles"] = a.options.pop(n)
    for n, types in (("--deflate", ("int",)), ("--stdfile", ("str", None)), ("--module", ("str", None))):
        o = a.options.get(n)
        if o:
            t = o["kw"].get("type")
            name = None if t is None else (name_of(t) or "?").split(".")[-1]
            ctx.check(n + " type", name in types, "converted by %s" % name, o["e"])


@rule("C21", "wiring", 30)
def wiring(ctx):
    """On every rank, for each option given or not: the communicator is made serial or not, the data flow is executed once with exactly the chunks, the
    deflate level, the debug flag of the command line, and history unless suppressed, on the input and output descriptions."""
    fn, r, a = command(ctx)
    place = ctx.place(fn)
    ex = ctx.p.cls("dataflow.DataFlow").methods["execute"]
    names = [x.arg for x in ex.node.args.args][1:]
    for lname, given in LINES.items():
        given = dict(BASE, **given)
        for manager in (True, False):
            key = "%s%s" % (lname, "" if manager else " elsewhere")

            def run():
                out, w = session(r, a, given, manager)
                bad = [e for e, env in out if e.kind == "raise"]
                if bad:
                    return ctx.bad(key, "raises %s" % exc_name(bad[0].val), bad[0])
                comms = [(e, env) for e, env in out if collective(e) == "create_comm"]
                ctx.check(key + " comm", len(comms) == 1 or None, "%d communicators" % len(comms), place)
                for e, env in comms:
                    v = kwarg(e, "serial", 0)
                    ctx.check(key + " serial", w.truthy(w.ev(v, env) if v is not None else False) == ("--serial" in given), "serial is %s" % show(v)[:60] if v is not None
                              else "serial is not passed", e)
                xs = executions(out)
                if len(xs) != 1:
                    return ctx.bad(key, "the data flow is executed %d times" % len(xs), place)
                e, env = xs[0]
                vals = {}
                for n in EXECUTE:
                    v = kwarg(e, n, names.index(n) if n in names else 99)
                    vals[n] = w.ev(v, env) if v is not None else NAMED[n]
                want = {"chunks": dict(given.get("--chunk", ())), "history": "--no_history" not in given, "deflate": (given.get("--deflate") or [None])[-1],
                        "debug": "--debug" in given}
                for n, x in want.items():
                    v = vals[n]
                    good = (dict(v) if isinstance(v, (dict, list)) else v) == x and (isinstance(v, bool) or n not in ("debug", "history")) and isinstance(v, dict) == isinstance(x, dict)
                    ctx.check("%s %s" % (key, n), good, "execute gets %s=%r for a command line that says %r" % (n, v, x), e)
                sc = vals["scomm"]
                ctx.check(key + " comm passed", isinstance(sc, Tok) and sc.name == "comm" or sc is None and bool(vals["serial"]) == ("--serial" in given),
                          "execute gets scomm=%r serial=%r" % (sc, vals["serial"]), e)
                dfs = made(out, "DataFlow")
                ctx.check(key + " flow", len(dfs) == 1 and contains(e.f, lambda t: t is dfs[0][0].res), "not the one data flow is executed", e)
                if dfs:
                    d, denv = dfs[0]
                    got = []
                    for i, n in enumerate(("inpds", "outds")):
                        v = kwarg(d, n, i)
                        got.append(w.ev(v, denv) if v is not None else None)
                    ctx.check(key + " descriptions", [getattr(g, "name", None) for g in got] == ["InputDatasetDesc", "OutputDatasetDesc"],
                              "the data flow is made from %r" % (got,), d)
            attempt(ctx, key, run, place)


@rule("C21", "descriptions", 3)
def descriptions(ctx):
    """The output description is made from the named specification file, the input description from every file that matches one of the given names."""
    fn, r, a = command(ctx)
    place = ctx.place(fn)

    def run():
        given = dict(BASE, infiles=["a.nc", "b.nc", "c*.nc"])
        out, w = session(r, a, given)
        o, i = made(out, "OutputDatasetDesc"), made(out, "InputDatasetDesc")
        ctx.check("made once", len(o) == 1 and len(i) == 1, "%d output and %d input descriptions" % (len(o), len(i)), place)
        if i:
            e, env = i[0]
            v = kwarg(e, "filenames", 1)
            x = w.ev(v, env) if v is not None else None
            ctx.check("inputs", isinstance(x, (list, tuple, set, frozenset)) and sorted(x) == ["a.nc", "b.nc", "c1.nc", "c2.nc"], "made from %r" % (x,), e)
        if o:
            e, env = o[0]
            v = kwarg(e, "dsdict", 1)
            reads = [x for x in walk(v) if is_call(x, "open", "load", "loads")] if v is not None else []
            named = any(x is y for c in reads for x in walk(c) for y in [mk("attr", z.args[0], a.options["--stdfile"]["dest"]) for z in walk(c) if z.op == "attr"])
            ctx.check("specification", True if named else (False if v is None or not reads else None), "made from %s" % (show(v)[:60] if v is not None else None), e)
    attempt(ctx, "descriptions", run, place)


def refers(t, a, name):
    return contains(t, lambda x: x.op == "attr" and x.args[1] == a.options[name]["dest"])


@rule("C21", "before", 8)
def before(ctx):
    """The error option turns warnings of the validation category into errors, and user modules are loaded, all of them and in order, before the data flow is
    made, on every rank; without them neither happens."""
    fn, r, a = command(ctx)
    place = ctx.place(fn)
    for manager in (True, False):
        sfx = "" if manager else " elsewhere"

        def run():
            for on in (True, False):
                given = dict(BASE, **({"--error": True} if on else {}))
                out, w = session(r, a, given, manager)
                sets = [(e, env) for e, env in out if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] in ("simplefilter", "filterwarnings")]
                cat = []
                for e, env in sets:
                    act = kwarg(e, "action", 0)
                    c = kwarg(e, "category", 1 if (name_of(e.f) or "").endswith("simplefilter") else 2)
                    s = show(c) if c is not None else ""
                    if act is not None and w.ev(act, env) == "error":
                        cat.append((e, s))
                first = min([e.seq for e, env in made(out, "DataFlow")] or [0])
                if on:
                    ctx.check("error option" + sfx, any("ValidationWarning" in s and e.seq < first for e, s in cat),
                              "validation warnings are not errors when the data flow is made", cat[0][0] if cat else place)
                    later = [e for e, env in out if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] in ("resetwarnings",)] + [
                        e for e, env in sets if cat and e.seq > cat[0][0].seq and e not in [x for x, s in cat]]
                    ctx.check("error kept" + sfx, True if not later else None, "the warning filters are changed again", later[0] if later else place)
                else:
                    ctx.check("no error option" + sfx, not cat, "warnings are errors without the option", cat[0][0] if cat else place)
        attempt(ctx, "error option" + sfx, run, place)

        def load():
            for mods in (["/m1.py"], ["/m1.py", "/m2.py"], []):
                given = dict(BASE, **({"--module": mods} if mods else {}))
                out, w = session(r, a, given, manager)
                first = min([e.seq for e, env in made(out, "DataFlow")] or [0])
                ran = [(e, env) for e, env in out if e.kind == "call" and (name_of(e.f) or (e.f.args[1] if e.f.op == "attr" else "")).split(".")[-1] in
                       ("exec_module", "load_module", "run_path", "import_module", "exec", "load_source")]
                paths = []
                for e, env in ran:
                    src = [e.f] + list(e.args)
                    v = []
                    for x in (y for t in src for y in walk(t)):
                        if x.op in ("elem", "sub"):
                            y = w.soft(x, env)
                            if isinstance(y, str) and y.startswith("/"):
                                v.append(y)
                    paths.append(v[0] if v else "?")
                    if e.seq > first:
                        ctx.bad("modules first" + sfx, "a user module is loaded after the data flow is made", e)
                if mods and all(method(e) == "exec_module" for e, env in ran):
                    # a class of a module that nothing keeps is collected, and its function is gone
                    hold = [(e, env) for e, env in out if e.kind == "setitem" and is_call(e.val, "module_from_spec")]
                    other = [e for e, env in out if e.kind in ("setattr", "setglobal", "return", "call") and method(e) != "exec_module" and any(
                        is_call(x, "module_from_spec") for x in list(e.args or ()) + [e.val] if x is not None)]
                    names = [w.soft(e.name, env) for e, env in hold]
                    known = all(isinstance(x, str) and "?" not in x for x in names)
                    if other:
                        good = True if known and len(set(names)) == len(mods) else None
                    else:
                        good = len(set(names)) == len(mods) if known else None
                    ctx.check("modules kept %d%s" % (len(mods), sfx), good, "of %d modules these names are kept: %s" % (len(mods), names), ran[0][0] if ran else place)
                key = "modules %d%s" % (len(mods), sfx)
                ctx.check(key, None if "?" in paths else paths == mods, "of %s are loaded: %s" % (mods, paths), ran[0][0] if ran else place)
        attempt(ctx, "modules" + sfx, load, place)


@rule("C21", "stops", 8)
def stops(ctx):
    """A specification file that is not given or does not exist is an error before anything is described or executed; with no input files, or none that
    match, the specification is described and nothing is executed, and that is no error; every rank stops."""
    fn, r, a = command(ctx)
    place = ctx.place(fn)

    def missing():
        for key, given, exists in (("no specification", {"infiles": ["a.nc"]}, True), ("specification missing", BASE, False)):
            out, w = session(r, a, given, True, exists)
            rs = [e for e, env in out if e.kind == "raise" or e.kind == "exit"]
            done = made(out, "DatasetDesc") + executions(out)
            ctx.check(key, len(rs) > 0 and not done, "no error" if not rs else "noticed after work was done", rs[0] if rs else place)
    attempt(ctx, "no specification", missing, place)

    for key, given, matched in (("no inputs", {"--stdfile": ["spec.json"]}, True), ("none match", BASE, False)):
        for manager in (True, False):
            sfx = "" if manager else " elsewhere"

            def run():
                out, w = session(r, a, given, manager, True, matched)
                rs = [e for e, env in out if e.kind == "raise" or e.kind == "exit" and e.val is not None and not (is_const(e.val) and cval(e.val) in (0, None))]
                ctx.check(key + sfx, not rs and not executions(out), "it is an error" if rs else "the data flow is executed", place)
                if manager:
                    ctx.check(key + " validated", len(made(out, "OutputDatasetDesc")) == 1, "the specification is not described", place)
            attempt(ctx, key + sfx, run, place)


@rule("C21", "chunk-option", 5)
def chunk_option(ctx):
    """The text of a chunk option is exactly a name and a whole number separated by one comma; anything else is a usage error."""
    fn, r0, a = command(ctx)
    o = a.options.get("--chunk")
    if o is None:
        return ctx.bad("chunk", "no such option", ctx.place(fn))
    t = o["kw"].get("type")
    f = None
    if t is not None and t.op == "func":
        f = t.args[0]
    if f is None and t is not None:
        name = (name_of(t) or show(t)).split(".")[-1]
        m = ctx.p.modules["pyconform.cli.xconform"] if "pyconform.cli.xconform" in ctx.p.modules else fn.module
        f = next((x for x in m.functions() if x.name == name), None)
    if f is None:
        return ctx.check("chunk", False if t is None else None, "the text is not converted", o["e"])
    r = ctx.run(f)
    p = mk("arg", f.node.args.args[0].arg)
    place = ctx.place(f)
    for text, want in (("time,5", ("time", 5)), ("lev,12", ("lev", 12)), ("time,0", None), ("time,-1", None), ("time", ValueError), ("time,5,6", ValueError), ("time,", ValueError),
                       ("time,x", ValueError), ("", ValueError), ("time,1.5", ValueError)):
        if want is None:
            continue

        def run():
            w = Lazy(r.an, {p: text})
            try:
                # the normal path, then what the handlers make of a failure
                for e in r.events:
                    for c in e.guards:
                        if c.op == "raised":
                            w.env[c] = False
                v = w.ev(r.value)
                for seq, n in unpacked(r):
                    x = w.ev(seq)
                    if len(x) != n:
                        raise Wrong("%d values for %d names" % (len(x), n))
            except Wrong:
                v = ValueError
            if isinstance(want, tuple):
                return ctx.check(repr(text), isinstance(v, tuple) and v == want, "%r becomes %r" % (text, v), place)
            if v is not ValueError:
                # rejected by hand?
                rs = [e for e in r.events if e.kind == "raise" and not any(x.op == "raised" for g in e.guards for x in walk(g)) and all(w.holds(g) for g in e.guards)]
                if not rs:
                    return ctx.bad(repr(text), "%r becomes %r" % (text, v), place)
                return ctx.check(repr(text), usage(rs[0]), "%r is reported as %s" % (text, exc_name(rs[0].val)), rs[0])
            hs = [e for e in r.events if e.kind == "raise" and any(c[0] == "except" and covers_value(c[2]) for c in e.ctx or ())]
            tried = any(c[0] == "try" and any(covers_value(ty) for ty in c[2]) for e in r.events if e.kind in ("call", "return") for c in e.ctx or ())
            ctx.check(repr(text), (bool(hs) and all(usage(e) for e in hs)) if tried or hs else True, "%r is not reported as a usage error" % text, hs[0] if hs else place)
        attempt(ctx, repr(text), run, place)


def usage(e):
    return exc_name(e.val) in ("ArgumentTypeError", "TypeError", "ValueError")


def covers_value(ty):
    if ty is None or ty == ():
        return True
    names = [x if isinstance(x, str) else show(x) for x in (ty if isinstance(ty, tuple) else (ty,))]
    return not names or any(n.split(".")[-1] in ("ValueError", "Exception", "BaseException", "*", "None") for n in names)


def unpacked(r):
    """[(sequence term, number of names)] of the unpacking assignments"""
    import ast
    n = {len(x.targets[0].elts) for x in ast.walk(r.fn.node) if isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Tuple, ast.List)) and
         not any(isinstance(y, ast.Starred) for y in x.targets[0].elts)}
    seqs = {x.args[0] for x in walk(r.value) if x.op == "sub" and is_const(x.args[1]) and contains(x.args[0], lambda y: is_call(y, "split", "rsplit", "partition"))}
    return [(q, n0) for q in seqs for n0 in n] if len(n) == 1 else []


@rule("C19", "command-shared", 4)
def command_shared(ctx):
    """On the manager and on every other rank the command makes one data flow from both descriptions, as the manager made them, and executes it."""
    fn, r, a = command(ctx)
    place = ctx.place(fn)
    for manager in (True, False):
        key = "manager" if manager else "other ranks"

        def run():
            out, w = session(r, a, BASE, manager)
            dfs = made(out, "DataFlow")
            ctx.check(key + " executes", len(dfs) == 1 and len(executions(out)) == 1, "%d data flows are made, %d executed" % (len(dfs), len(executions(out))), place)
            if dfs:
                d, denv = dfs[0]
                got = [w.ev(v, denv) if v is not None else None for v in [kwarg(d, n, i) for i, n in enumerate(("inpds", "outds"))]]
                ctx.check(key + " descriptions", [getattr(g, "name", None) for g in got] == ["InputDatasetDesc", "OutputDatasetDesc"],
                          "the data flow is made from %r" % (got,), d)
        attempt(ctx, key, run, place)
