"""C29: the dependency report"""
import ast

from .pev import Lazy, Made, Tok, Unknown, Wrong
from .q import exc_name, is_call, kwarg, name_of
from .rule import rule
from .rules_mpi import Args, Cli, attempt, method
from .rules_parse import Node, Parse
from .terms import cval, is_const, mk, show, walk


class Tree(Node):
    def __init__(self, name, **fields):
        super().__init__(name, [], fields)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


V = lambda k, *ind: Tree("VarType", key=k, ind=list(ind))
O = lambda k, *a: Tree("OpType", key=k, args=list(a))
F = lambda k, a, /, **kw: Tree("FuncType", key=k, args=list(a), kwds=kw)


def names_in(t):
    """what has to be found"""
    if not isinstance(t, Tree):
        return set()
    if t.name == "VarType":
        return {t.kw["key"]}
    out = set()
    for a in list(t.kw["args"]) + list((t.kw.get("kwds") or {}).values()):
        out |= names_in(a)
    return out


class Search(Parse):
    """sets are objects, changed by the calls"""

    def __init__(self, an, env, fname, **k):
        super().__init__(an, env, **k)
        self.objs, self.fname = {}, fname

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in env:
            return env[t]
        if t.op == "alloc" and t in self.an.recs and t.args[0] == "set":
            if t not in self.objs:
                self.objs[t] = set()
                v = Lazy.content(self, t, env)
                self.objs[t] = set(v)
            return self.objs[t]
        if t.op == "attr":
            v = self.ev(t.args[0], env)
            if isinstance(v, Tree):
                if t.args[1] not in v.kw:
                    raise Wrong("no attribute %s" % t.args[1])
                return v.kw[t.args[1]]
        if t.op == "isinstance":
            v = self.ev(t.args[0], env)
            if isinstance(v, Tree):
                ks = [self.kind(x) for x in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],))]
                if "tuple" in ks:
                    return True
        return super().ev(t, env)

    def call(self, t, env):
        f, args, kw = t.args[0], t.args[1], dict(t.args[2]) if len(t.args) > 2 else {}
        n = (name_of(f) or "").split(".")[-1] or (f.args[1] if f.op == "attr" else None)
        if n == self.fname:
            obj = self.ev(args[0] if args else kw["obj"], env)
            acc = args[1] if len(args) > 1 else kw.get("vars")
            acc = self.ev(acc, env) if acc is not None else None
            if acc is None:
                acc = set()
            if not isinstance(acc, set):
                raise Unknown("accumulated in %r" % (acc,))
            acc |= names_in(obj)
            return acc
        if f.op == "attr" and n in ("add", "update", "append", "extend", "union"):
            s = self.ev(f.args[0], env)
            if isinstance(s, set):
                xs = [self.ev(a, env) for a in args]
                if n == "union":
                    return s.union(*xs)
                for x in xs:
                    s.update([x] if n in ("add", "append") else x)
                return None
        return super().call(t, env)


@rule("C29", "search", 9)
def search(ctx):
    """For each kind of parsed expression the result holds the names of exactly its variables: its own key, or those found in each argument and each keyword
    argument (by induction over the depth of the expression), added to those found before."""
    fn = ctx.p.func("cli.vardeps.variable_search")
    r = ctx.run(fn, opaque=("variable_search",))
    ps = [a.arg for a in fn.node.args.args]
    place = ctx.place(fn)
    defs = fn.node.args.defaults + [d for d in fn.node.args.kw_defaults if d is not None]
    ctx.check("no shared default", all(isinstance(d, ast.Constant) for d in defs), "the accumulated set is shared between searches", place)
    worlds = {"variable": V("x"), "indexed variable": V("x", 3), "operation": O("+", V("a"), V("b")), "sign": O("-", V("a")),
              "operation on results": O("*", O("+", V("a"), V("b")), F("f", [V("c")])), "function": F("f", [V("a"), V("b"), V("c")]), "no arguments": F("f", []),
              "keyword arguments": F("f", [], k=V("a"), m=V("b")), "both": F("f", [V("a"), 1.0], k=O("-", V("b")), m=V("c")), "number": 2.5, "text": "abc",
              "same name twice": O("+", V("a"), V("a"))}
    for key, obj in worlds.items():
        for before in (None, {"q"}):
            if before and len(ps) < 2:
                continue
            k = key + (" after others" if before else "")

            def run():
                env = {mk("arg", ps[0]): obj}
                for p in ps[1:]:
                    env[mk("arg", p)] = set(before) if before else None
                w = Search(r.an, env, fn.name)
                for e in r.events:
                    if e.kind == "raise":
                        for x in w.happens(e.loops or (), e.guards, w.env):
                            return ctx.bad(k, "raises %s" % exc_name(e.val), e)
                    if e.kind == "call" and e.res is not None:
                        for x in w.happens(e.loops or (), e.guards, w.env):
                            for t in walk(e.res):
                                if t.op == "phi" and t not in x:
                                    # the set made before the loop is the one that is passed on
                                    x[t] = w.ev(r.an.phis[t][0], x)
                            w.ev(e.res, x)
                v = w.ev(r.value)
                if not isinstance(v, (set, list, tuple, frozenset)):
                    return ctx.bad(k, "the result is %r" % (v,), place)
                want = names_in(obj) | (before or set())
                ctx.check(k, set(v) == want, "finds %s instead of %s" % (sorted(v), sorted(want)), place)
            attempt(ctx, k, run, place)


LINES = ["a = x + y\n", "  b=f(c=1)  # note\n", "# e = z\n", "\n", "c = p == q\n", "d = 1.0\n", "junk\n", "bb = 2.0\n"]
PARSED = {"x + y": {"x", "y"}, "f(c=1)": {"v"}, "p == q": {"p", "q"}, "1.0": set(), "2.0": set()}
TEXTS = {"a": "x + y", "b": "f(c=1)", "c": "p == q", "d": "1.0", "bb": "2.0"}
STD = {"a": {"definition": "x + y", "attributes": {"frequency": "mon", "realm": "atmos"}}, "b": {"definition": "f(c=1)"}, "c": {"definition": "p == q", "attributes": {}},
       "d": {"definition": "1.0", "attributes": {"frequency": "day"}}, "n": {"definition": [1.0, 2.0]}, "o": {"attributes": {}}, "bb": {"definition": "2.0"}}


class Report(Cli):
    def ev(self, t, env=None):
        e = self.env if env is None else env
        if t not in e and t.op == "raised":
            return False
        return super().ev(t, env)


def reports(ctx):
    if "reports" not in ctx.cache:
        fn = ctx.p.func("cli.vardeps.main")
        r = ctx.run(fn, opaque=("variable_search", "print_columnar", "parse_definition"))
        ctx.cache["reports"] = (fn, r, Args(ctx, r))
    return ctx.cache["reports"]


@rule("C29", "report", 20)
def report(ctx):
    """From a definitions file (comments, empty lines, equals signs in the definition) and from a specification file: every definition asked for, or all of
    them, is parsed as it stands and reported with all its variables, a name without definition is reported, and the final list is the union."""
    fn, r, a = reports(ctx)
    place = ctx.place(fn)
    pos = next((n for n, o in a.options.items() if o["positional"]), None)
    for source in ("definitions", "specification"):
        for asked in ((), ("a", "zz"), ("c", "bb", "b", "d"), ("n", "zz", "a")):
            key = "%s %s" % (source, ",".join(asked) or "all")

            def run():
                given = {"--deffile": True if source == "definitions" else None, "--filename": ["file"], pos: list(asked)}
                ns = {o["dest"]: a.value(o, r.an, given.get(n)) for n, o in a.options.items()}
                attrs = {("args", k): (lambda v: lambda x: v)(v) for k, v in ns.items()}
                parsed = []

                def parse(s):
                    if s not in PARSED:
                        raise Unknown("parsing %r" % (s,))
                    return ("parsed", s)

                def found(p, **k):
                    if not isinstance(p, tuple):
                        raise Unknown("searching %r" % (p,))
                    return set(PARSED[p[1]])
                calls = {"ArgumentParser": lambda *x, **k: Tok("parser"), "parse_args": lambda *x, **k: Tok("args"), "exists": lambda *x: True, "isfile": lambda *x: True,
                         "open": lambda *x, **k: list(LINES), "readlines": lambda x: list(x), "load": lambda *x, **k: dict(STD), "parse_definition": parse,
                         "variable_search": found, "sorted": lambda x, **k: sorted(x)}
                w = Report(r.an, {}, calls=calls, attrs=attrs)
                want = list(asked) or sorted(TEXTS)
                known = [v for v in want if v in TEXTS]
                shown, final, said = {}, [], []
                for e in r.events:
                    if e.kind == "raise":
                        for env in w.happens(e.loops or (), e.guards, w.env):
                            return ctx.bad(key, "raises %s" % exc_name(e.val), e)
                    if e.kind != "call":
                        continue
                    n = (name_of(e.f) or show(e.f)).split(".")[-1].rstrip(">")
                    if n == "parse_definition":
                        for env in w.happens(e.loops or (), e.guards, w.env, e.seq):
                            parsed.append(w.ev(e.args[0], env))
                    elif n == "print_columnar":
                        for env in w.happens(e.loops or (), e.guards, w.env, e.seq):
                            x = w.ev(e.args[0], env)
                            h = kwarg(e, "header", 3)
                            h = w.ev(h, env) if h is not None else ""
                            v = [k for k in want if h.strip().split(":")[0].split("[")[0].strip() == k]
                            if v:
                                shown[v[0]] = set(x)
                            else:
                                final.append(set(x))
                    elif n == "print":
                        for env in w.happens(e.loops or (), e.guards, w.env, e.seq):
                            said.append(" ".join(str(w.soft(x, env)) for x in e.args))
                texts = [PARSED and p for p in parsed]
                ctx.check(key + " parsed", sorted(texts) == sorted(TEXTS[v] for v in known), "parsed are %s" % texts, place)
                for v in known:
                    deps = PARSED[TEXTS[v]]
                    if deps:
                        ctx.check("%s variable %s" % (key, v), shown.get(v) == deps, "reported for %s: %s" % (v, shown.get(v)), place)
                    else:
                        ctx.check("%s variable %s" % (key, v), any(v in s.split(":")[0].split() for s in said) and v not in shown, "nothing is said about %s" % v, place)
                for v in want:
                    if v not in TEXTS:
                        ctx.check("%s undefined" % key, any(v in s.split(":")[0].split() for s in said), "nothing is said about %s" % v, place)
                union = set().union(*[PARSED[TEXTS[v]] for v in known])
                ctx.check(key + " complete list", final == [union], "the complete list is %s" % final, place)
            attempt(ctx, key, run, place)


@rule("C29", "parse-errors", 1)
def parse_errors(ctx):
    """A definition that cannot be parsed is not reported as having no dependencies."""
    fn, r, a = reports(ctx)
    n = 0
    tries = {}
    for e in r.events:
        if e.kind == "call" and (name_of(e.f) or show(e.f)).split(".")[-1].rstrip(">") == "parse_definition":
            for c in e.ctx or ():
                if c[0] == "try":
                    tries[c[1]] = e
    if not tries:
        ctx.ok("errors end the report")
    for tid, e in tries.items():
        for h in r.events:
            if h.kind == "handlerend" and h.name == tid and cval(h.val) != "raises":
                said = [p for p in r.events if p.kind == "call" and name_of(p.f) == "print" and any(c[0] == "except" and c[1] == tid for c in p.ctx or ())]
                none = [p for p in said if any("No dependencies" in t for x in p.args for t in texts_of(x))]
                stop = [x for x in r.events if x.kind in ("break", "return") and any(c[0] == "except" and c[1] == tid for c in x.ctx or ())]
                ctx.check("the others", not stop, "after a definition that cannot be parsed the others are not reported", stop[0] if stop else h)
                ctx.check("handler", False if none or not said else True, "a definition that cannot be parsed is reported as %s" % ("having no dependencies" if none else "nothing"), h)


def texts_of(t):
    for x in walk(t):
        if x.op == "const" and isinstance(cval(x), str):
            yield cval(x)
        for y in x.args:
            if isinstance(y, str):
                yield y
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, str):
                        yield z


@rule("C29", "columns", 4)
def columns(ctx):
    """Every name handed to the column printer is printed: its rows cover the whole list."""
    fn = ctx.p.func("cli.vardeps.print_columnar")
    r = ctx.run(fn)
    place = ctx.place(fn)
    ps = [a.arg for a in fn.node.args.args]
    for n in (1, 2, 3, 7):
        for width in (30, 10000000):
            key = "%d names in %d" % (n, width)

            def run():
                xs = ["n%d" % i for i in range(n)]
                vals = {"x": xs, "textwidth": width, "indent": 0, "header": "h:"}
                w = Grid(r.an, {mk("arg", p): vals[p] for p in ps if p in vals})
                out = []
                for e in r.events:
                    if e.kind == "call" and name_of(e.f) == "print":
                        for env in w.happens(e.loops or (), e.guards, w.env, e.seq):
                            out.append(" ".join(str(w.ev(x, env)) for x in e.args))
                got = " ".join(out).replace(",", " ").split()
                ctx.check(key, sorted(x for x in got if x in xs) == sorted(xs), "printed: %s" % got, place)
            attempt(ctx, key, run, place)


class Grid(Lazy):
    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t not in env and t.op == "join":
            return self.ev(t.args[0], env).join(str(x) for x in self.ev(t.args[1], env)) if hasattr(t.args[0], "op") else t.args[0].join(
                str(x) for x in self.ev(t.args[1], env))
        if t not in env and t.op == "fmt":
            return str(self.ev(t.args[0], env))
        return super().ev(t, env)

    def call(self, t, env):
        n = name_of(t.args[0])
        if n == "range":
            return list(range(*[self.ev(x, env) for x in t.args[1]]))
        if n in ("max", "min") and len(t.args[1]) == 2:
            return (max if n == "max" else min)(*[self.ev(x, env) for x in t.args[1]])
        if n in ("max", "min") and len(t.args[1]) == 1:
            v = list(self.ev(t.args[1][0], env))
            if not v:
                raise Wrong("max of nothing")
            return max(v) if n == "max" else min(v)
        return super().call(t, env)
