"""C14: definitions mean what ordinary arithmetic notation means"""
import ast
import itertools

from .grammar import DFA, Grammar, Unreadable, difference, preempted, sequence
from .engine import SELF
from .loader import AnalysisBroken
from .pev import Lazy, Made, Tok, Unknown, Wrong
from .q import exc_name, is_call, name_of, raises_always, subst
from .rule import rule, term
from .rules_funcs import concrete, functions, short
from .terms import NONE, attr, cmp_, const, contains, cval, is_const, mk, not_, show, walk

P = mk("arg", "p")
KINDS = ("OpType", "FuncType", "VarType")
BINARY = {"POW": "**", "**": "**", "-": "-", "+": "+", "*": "*", "/": "/", "<": "<", ">": ">", "LEQ": "<=", "GEQ": ">=", "EQ": "=="}
LEVEL = {"**": 5, "*": 3, "/": 3, "+": 2, "-": 2, "<": 1, ">": 1, "<=": 1, ">=": 1, "==": 0}     # == may be on the level of < or below it
SIGN = 4


def module(ctx):
    for n, m in ctx.p.modules.items():
        if n.endswith("parsing"):
            return m
    raise AnalysisBroken("no module parsing")


def grammar(ctx):
    if "grammar" not in ctx.cache:
        try:
            ctx.cache["grammar"] = Grammar(module(ctx)).build()
        except Unreadable as u:
            ctx.cache["grammar"] = u
    g = ctx.cache["grammar"]
    if isinstance(g, Unreadable):
        raise AnalysisBroken("grammar: %s" % g)
    return g


# ---------------------------------------------------------------- values of grammar symbols
class Num(Tok):
    """a constant of which only the identity is known"""


class Node(Made):
    """a parsed operation, function or variable"""


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Parse(Lazy):
    """values of the terms of a grammar action"""

    defaults = {}

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in env:
            return env[t]
        if t.op == "isinstance":
            v = self.ev(t.args[0], env)
            names = [self.kind(x) for x in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],))]
            if None in names:
                raise Unknown(show(t, 3))
            if isinstance(v, Node):
                return v.name in names
            if isinstance(v, Num):
                return any(n in ("int", "float", "Number", "Real", "Integral", "complex") for n in names)
            if isinstance(v, str):
                return "str" in names
            if isinstance(v, Tok):
                raise Unknown(show(t, 3))
            return type(v).__name__ in names
        if t.op in ("un", "neg"):
            v = self.ev(t.args[-1], env)
            if isinstance(v, (Num, Made)):
                if t.op == "un" and t.args[0] == "+":
                    return v
                return Made("neg", [v], {})
        if t.op == "slice" and any(x.op == "star" for x in t.args):
            xs = []
            for x in t.args:
                if x.op == "star":
                    xs += list(self.ev(x.args[0], env))
            return self.cut(xs)
        if t.op == "slice":
            return self.cut([self.ev(x, env) for x in t.args])
        if t.op == "ext":
            return Ext(t.args[0])
        if t.op == "cmp" and t.args[0] in ("<", "<=", ">", ">=", "==", "!="):
            x, y = self.ev(t.args[1], env), self.ev(t.args[2], env)
            if any(isinstance(v, (Num, Made)) for v in (x, y)):
                return compared(t.args[0], x, y)
        return super().ev(t, env)

    @staticmethod
    def cut(xs):
        if len(xs) == 1:
            return Made("slice", [None, xs[0], None], {})
        if not 1 < len(xs) < 4:
            raise Wrong("slice of %d" % len(xs))
        return Made("slice", list(xs) + [None] * (3 - len(xs)), {})

    def kind(self, t):
        if t.op == "call" and name_of(t.args[0]) in ("collections.namedtuple", "namedtuple", "typing.NamedTuple") and t.args[1]:
            return cval(t.args[1][0]) if is_const(t.args[1][0]) else None
        if t.op == "class":
            return t.args[0].name
        if t.op == "ext":
            return t.args[0].split(".")[-1]
        return None

    def arith(self, op, x, y):
        if any(isinstance(v, (Num, Made)) for v in (x, y)):
            if any(isinstance(v, (Node, list, dict, str)) for v in (x, y)):
                raise Wrong("%r %s %r" % (x, op, y))
            return Made("bin", [op, x, y], {})
        return super().arith(op, x, y)

    def call(self, t, env):
        f, args, kw = t.args[0], t.args[1], t.args[2] if len(t.args) > 2 else ()
        k = self.kind(f)
        if f.op == "call" and k or k in KINDS:
            xs = []
            for x in args:
                if x.op == "star":
                    xs += list(self.ev(x.args[0], env))
                else:
                    xs.append(self.ev(x, env))
            return node(k, xs, self.kws(kw, env), self.defaults)
        if f.op not in ("ext", "attr"):
            g = self.ev(f, env)
            if isinstance(g, Ext):
                return self.named(g.name, [self.ev(x, env) for x in args], t)
            raise Unknown(show(t, 3))
        n = name_of(f)
        if n and (n.startswith("operator.") or n in ("pow", "float.__pow__")):
            return self.named(n, [self.ev(x, env) for x in args], t)
        if f.op == "ext" and n in ("abs", "float", "int", "round", "complex", "bool") and args:
            return Made("call " + n, [self.ev(x, env) for x in args], {})
        if f.op == "attr" and f.args[1] in ("_replace",):
            raise Unknown(show(t, 3))
        return super().call(t, env)

    def named(self, n, xs, t):
        n = n.split(".")[-1].strip("_")
        if n in ("add", "sub", "mul", "truediv", "pow", "floordiv", "mod") and len(xs) == 2:
            return self.arith({"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**", "floordiv": "//", "mod": "%"}[n], *xs)
        if n in ("lt", "le", "gt", "ge", "eq", "ne") and len(xs) == 2:
            return compared({"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[n], *xs)
        if n == "neg":
            return Made("neg", [xs[0]], {})
        if n == "pos":
            return xs[0]
        raise Unknown(show(t, 3))


def compared(op, x, y):
    if op in (">", ">="):
        op, x, y = {">": "<", ">=": "<="}[op], y, x
    return Made("cmp", [op, x, y], {})


def node(kind, xs, kw, defaults):
    fields, dflt = defaults.get(kind, (None, ()))
    if fields is None:
        raise Unknown("fields of %s" % kind)
    vals = list(xs)
    for i in range(len(xs), len(fields)):
        j = i - (len(fields) - len(dflt))
        if fields[i] in kw:
            vals.append(kw[fields[i]])
        elif j >= 0:
            vals.append(dflt[j])
        else:
            raise Wrong("%s without %s" % (kind, fields[i]))
    if len(vals) > len(fields):
        raise Wrong("too many values for %s" % kind)
    return Node(kind, vals, {})


def shapes(ctx):
    """fields and default values of the three result types"""
    m = module(ctx)
    out = {}
    for n, (k, v) in m.bind.items():
        if k == "assign" and isinstance(v, ast.Call) and ast.unparse(v.func).endswith("namedtuple"):
            try:
                name, fields = ast.literal_eval(v.args[0]), ast.literal_eval(v.args[1])
                d = [ast.literal_eval(kw.value) for kw in v.keywords if kw.arg == "defaults"]
            except ValueError:
                continue
            if isinstance(fields, str):
                fields = fields.replace(",", " ").split()
            out[name] = (list(fields), list(d[0]) if d else [])
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == "__defaults__":
            try:
                name = s.targets[0].value.value.id
                out[name] = (out[name][0], list(ast.literal_eval(s.value)))
            except (AttributeError, KeyError, ValueError):
                pass
    return out


# ---------------------------------------------------------------- what each production should give
def arrays(tag):
    return [("operation", Node("OpType", ["+", [Tok(tag + "a"), Tok(tag + "b")]], {})), ("function", Node("FuncType", [Tok(tag + "f"), [], {}], {})),
            ("variable", Node("VarType", [Tok(tag + "v"), []], {})), ("constant", Num(tag))]


def values(sym, i, g):
    """the values a grammar symbol may have: [(label, value)]"""
    tag = "%s%d" % (sym if len(sym) > 1 else "t", i)
    if sym in ("array_like",):
        return arrays(tag)
    if sym in ("argument", "index", "slice_argument"):
        return arrays(tag) + {"argument": [("text", "txt%d" % i)], "index": [("slice", Made("slice", [None, Num(tag), None], {}))],
                              "slice_argument": [("none", None)]}[sym]
    if sym in ("argument_list", "index_list"):
        return [("list", [Num(tag + "x"), Node("VarType", [Tok(tag + "y"), []], {})]), ("one", [Num(tag + "z")])] + \
            ([("empty", [])] if sym == "argument_list" else [])
    if sym == "keyword_dict":
        return [("keywords", {"old%d" % i: Num(tag)})]
    if sym in ("UINT", "UFLOAT"):
        return [("constant", Num(tag))]
    if sym == "STRING":
        return [("text", "txt%d" % i)]
    if sym == "NAME":
        return [("name", "name%d" % i)]
    if sym == "function":
        return [("function", Node("FuncType", [Tok(tag), [], {}], {}))]
    if sym == "variable":
        return [("variable", Node("VarType", [Tok(tag), []], {}))]
    if sym == "slice":
        return [("slice", Made("slice", [None, Num(tag), None], {}))]
    if sym in g.literals:
        return [("", sym)]
    if sym in BINARY:
        return [("", BINARY[sym])]
    return None


def N(kind, *xs):
    return Node(kind, list(xs), {})


def typed(*xs):
    return any(isinstance(x, Node) for x in xs)


def same(v):
    return lambda p: p[v]


ERROR = Tok("a type error: nothing stands before the comma")
REFERENCE = {
    "function : NAME ( )": lambda p: N("FuncType", p[1], [], {}),
    "array_like : UFLOAT": same(1), "array_like : UINT": same(1), "array_like : function": same(1), "array_like : variable": same(1),
    "array_like : ( array_like )": same(2),
    "function : NAME ( argument_list , keyword_dict )": lambda p: N("FuncType", p[1], p[3], p[5]) if p[3] else ERROR,
    "function : NAME ( argument_list )": lambda p: N("FuncType", p[1], p[3], {}),
    "function : NAME ( keyword_dict )": lambda p: N("FuncType", p[1], [], p[3]),
    "argument_list : argument_list , argument": lambda p: p[1] + [p[3]] if p[1] else ERROR,
    "argument_list : argument": lambda p: [p[1]], "argument_list : <empty>": lambda p: [],
    "argument : array_like": same(1), "argument : STRING": same(1),
    "keyword_dict : keyword_dict , NAME = argument": lambda p: dict(p[1], **{p[3]: p[5]}),
    "keyword_dict : NAME = argument": lambda p: {p[1]: p[3]},
    "variable : NAME [ index_list ]": lambda p: N("VarType", p[1], p[3]), "variable : NAME": lambda p: N("VarType", p[1], []),
    "index_list : index_list , index": lambda p: p[1] + [p[3]], "index_list : index": lambda p: [p[1]],
    "index : slice": same(1), "index : array_like": same(1),
    "slice : slice_argument : slice_argument : slice_argument": lambda p: Made("slice", [p[1], p[3], p[5]], {}),
    "slice : slice_argument : slice_argument": lambda p: Made("slice", [p[1], p[3], None], {}),
    "slice_argument : array_like": same(1), "slice_argument : <empty>": lambda p: None,
    "array_like : - array_like": lambda p: N("OpType", "-", [p[2]]) if typed(p[2]) else Made("neg", [p[2]], {}),
    "array_like : + array_like": same(2),
}
for _t, _o in BINARY.items():
    if _t != "**":
        REFERENCE["array_like : array_like %s array_like" % _t] = lambda p, o=_o: N("OpType", o, [p[1], p[3]]) if typed(p[1], p[3]) else (
            compared(o, p[1], p[3]) if o in ("<", ">", "<=", ">=", "==") else Made("bin", [o, p[1], p[3]], {}))


def equal(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, Made):
        return x.name == y.name and len(x.args) == len(y.args) and all(equal(a, b) for a, b in zip(x.args, y.args))
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(equal(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return list(x) == list(y) and all(equal(x[k], y[k]) for k in x)
    if isinstance(x, Tok):
        return x is y
    return x == y


def arithmetic(v):
    """is this an expression of constants only, written in another way?"""
    return isinstance(v, Num) or isinstance(v, (int, float)) or isinstance(v, Made) and v.name in ("neg", "bin", "cmp") and all(
        isinstance(a, str) or arithmetic(a) for a in v.args)


def number(v, at):
    if isinstance(v, Num):
        return at[v.name]
    if isinstance(v, (int, float)):
        return v
    a = [x if isinstance(x, str) else number(x, at) for x in v.args]
    if v.name == "neg":
        return -a[0]
    o, x, y = a
    return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "**": lambda: x ** y, "<": lambda: x < y,
            "<=": lambda: x <= y, "==": lambda: x == y, "//": lambda: x // y, "%": lambda: x % y, "!=": lambda: x != y}[o]()


def agrees(x, y):
    """True / False"""
    if equal(x, y):
        return True
    if arithmetic(x) and arithmetic(y):
        names = sorted({n.name for v in (x, y) for n in nums(v)})
        import itertools
        for vs in itertools.product((2, 3, 0.5, 7), repeat=len(names)):
            at = dict(zip(names, vs))
            a, b = number(x, at), number(y, at)
            if a != b or type(a) is not type(b):
                return False
        return True
    return False


def nums(v):
    if isinstance(v, Num):
        return [v]
    return [n for a in v.args for n in nums(a)] if isinstance(v, Made) else []


MUTATE = {"append": list.append, "extend": list.extend, "insert": list.insert, "update": dict.update, "setdefault": dict.setdefault}


def action(ctx, fn, syms, an_r, defaults):
    """what the grammar action leaves in p[0] for these values"""
    r = an_r
    p = [None] + list(syms)
    w = Parse(r.an, {P: p})
    w.defaults = defaults
    met = {}
    for e in r.events:
        if e.kind not in ("setitem", "call", "raise", "getitem", "setattr", "aug", "delitem"):
            continue
        if e.kind == "aug" and e.obj is not None and e.obj.op != "sub":
            continue
        if e.loops:
            raise Unknown("a loop in a grammar action")
        for x in e.guards:
            if x not in met:        # a condition is met or not when it is first reached, before later stores
                met[x] = w.holds(x)
        if not all(met[x] for x in e.guards):
            continue
        if e.kind == "getitem":
            k = e.args[0] if e.args else e.name
            if e.obj is P and hasattr(k, "op"):
                w.ev(mk("sub", e.obj, k))
            continue
        if e.kind == "raise":
            return ("raises", exc_name(e.val))
        if e.kind == "setitem":
            if e.obj.op in ("alloc",):
                continue
            o = w.ev(e.obj)
            k = w.ev(e.name) if hasattr(e.name, "op") else e.name
            v = w.ev(e.val)
            if not isinstance(o, (list, dict)):
                raise Unknown("store into %r" % (o,))
            try:
                o[k] = v
            except TypeError as t:
                raise Wrong(str(t))
        elif e.kind == "call" and e.f.op == "attr" and e.f.args[1] in MUTATE and e.f.args[0].op != "alloc":
            o = w.ev(e.f.args[0])
            if isinstance(o, (list, dict)):
                try:
                    MUTATE[e.f.args[1]](o, *[w.ev(a) for a in e.args])
                except TypeError as t:
                    raise Wrong(str(t))
        elif e.kind in ("setattr", "aug", "delitem"):
            raise Unknown("%s in a grammar action" % e.kind)
    return ("value", p[0])


def copied(v):
    if isinstance(v, list):
        return [copied(x) for x in v]
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    return v


@rule("C14", "actions", 100)
def actions(ctx):
    """The action of each production gives, for every kind of operand, the node that the notation means: operations on anything but two constants become
    an operation node with the operator as written and the operands in order, two constants are folded with that operator, and arguments, keywords and
    indices are collected in order and complete."""
    import itertools
    g = grammar(ctx)
    dfl = shapes(ctx)
    runs = {}
    for prod in g.productions:
        ref = REFERENCE.get(prod.text)
        if ref is None:
            ctx.unknown(prod.text, "production without a reference meaning", ctx.place(prod.fn))
            continue
        if prod.fn.name not in runs:
            arg = prod.fn.node.args.args[0].arg
            runs[prod.fn.name] = ctx.run(prod.fn, args={arg: P})
        r = runs[prod.fn.name]
        vs = [values(s, i + 1, g) for i, s in enumerate(prod.rhs)]
        for combo in itertools.product(*vs):
            label = " ".join(l for l, _ in combo if l)
            key = "%s [%s]" % (prod.text, label)
            want = ref([None] + [copied(v) for _, v in combo])
            try:
                how, got = action(ctx, prod.fn, [copied(v) for _, v in combo], r, dfl)
            except Unknown as u:
                ctx.unknown(key, str(u), ctx.place(prod.fn))
                continue
            except Wrong as u:
                ctx.bad(key, "the action fails: %s" % u, ctx.place(prod.fn))
                continue
            if want is ERROR:
                ctx.check(key, how == "raises" and got == "TypeError", "a missing argument is silently accepted", ctx.place(prod.fn))
            elif how == "raises":
                ctx.bad(key, "the action raises %s" % got, ctx.place(prod.fn))
            else:
                ctx.check(key, agrees(got, want), "gives %r where the notation means %r" % (got, want), ctx.place(prod.fn))


@rule("C14", "repeated", 1)
def repeated(ctx):
    """A keyword given twice is an error, not a silent choice of one of the values."""
    g = grammar(ctx)
    for prod in g.productions:
        if prod.lhs == "keyword_dict" and "keyword_dict" in prod.rhs and "NAME" in prod.rhs:
            arg = prod.fn.node.args.args[0].arg
            r = ctx.run(prod.fn, args={arg: P})
            syms = []
            for i, s in enumerate(prod.rhs):
                v = values(s, i + 1, g)[0][1]
                syms.append({"same": Num("old")} if s == "keyword_dict" else "same" if s == "NAME" else v)
            try:
                how, got = action(ctx, prod.fn, syms, r, shapes(ctx))
                ctx.check(prod.text, how == "raises", "a repeated keyword silently replaces the earlier value", ctx.place(prod.fn))
            except Unknown as u:
                ctx.unknown(prod.text, str(u), ctx.place(prod.fn))
            except Wrong as u:
                ctx.ok(prod.text, str(u))


@rule("C14", "productions", 30)
def productions(ctx):
    """The notation is complete: every form of number, call, index, slice, sign and binary operation is a production, and a definition is any of them."""
    g = grammar(ctx)
    have = {p.text for p in g.productions}
    new = sorted(have - set(REFERENCE))
    for t in REFERENCE:
        if t == "function : NAME ( )" and "argument_list : <empty>" in have or t == "argument_list : <empty>" and "function : NAME ( )" in have:
            continue
        if t in ("array_like : array_like %s array_like" % o for o in ("==",)):
            continue
        ctx.check(t, True if t in have else (None if new else False), "this form is no longer accepted" if not new else "other productions: %s" % new[:2],
                  module(ctx).rel)
    ctx.check("start", True if g.start == "array_like" else (None if g.start not in g.nonterminals or new else False), "a definition is a %s" % g.start,
              module(ctx).rel)
    for k, la, kind, ns in g.conflicts:
        ctx.bad("conflict %s on %s" % (kind, la), "%s is settled by default for %s" % (kind, [g.prods[n].text for n in ns]), module(ctx).rel)


@rule("C14", "precedence", 60)
def precedence(ctx):
    """In every state of the LALR automaton in which an operand is complete and an operator follows, the automaton groups as notation does: reduce what
    binds at least as tightly (binary operators group to the left), read on before what binds more tightly; powers bind tighter than signs."""
    g = grammar(ctx)
    done = set()
    for k, items in g.states.items():
        for n, d, la in items:
            p = g.prods[n]
            if n == 0 or d != len(p.rhs) or la not in BINARY:
                continue
            if len(p.rhs) == 3 and p.rhs[0] == p.rhs[2] == p.lhs and p.rhs[1] in BINARY:
                left = LEVEL[BINARY[p.rhs[1]]]
                name = BINARY[p.rhs[1]]
            elif len(p.rhs) == 2 and p.rhs[1] == p.lhs and p.rhs[0] in "+-":
                left, name = SIGN, "sign " + p.rhs[0]
            else:
                continue
            right = LEVEL[BINARY[la]]
            if {name, BINARY[la]} & {"=="} and name != BINARY[la] and {left, right} <= {0, 1}:
                continue
            act, q = g.action.get((k, la), ("error", None))
            want = "reduce" if left >= right else "shift"
            key = "%s then %s" % (name, BINARY[la])
            if (key, act) in done:
                continue
            done.add((key, act))
            ctx.check(key, act == want, "a %s b %s c is grouped to the %s" % (name, BINARY[la], "left" if act == "reduce" else "right" if act == "shift" else
                                                                             "nothing: it is an error"), "%s:%s" % (module(ctx).rel, p.line))


TOKENS = {
    "UFLOAT": r"([0-9]+\.[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+",
    "UINT": r"[0-9]+",
    "NAME": r"[a-zA-Z_][a-zA-Z0-9_]*",
    "POW": r"\*\*", "LEQ": r"<=", "GEQ": r">=", "EQ": r"==",
    "STRING": r'''"([^"\\]|\\[^\n])*"|'([^'\\]|\\[^\n])*\'''',
}


@rule("C14", "tokens", 16)
def tokens(ctx):
    """The text of every token is what it is in ordinary notation (compared as languages), no token takes the beginning of another one's text, numbers and
    texts get the value written, only blanks are skipped, and any other character is an error."""
    g = grammar(ctx)
    m = module(ctx)
    try:
        rs = g.token_rules()
        ds = {n: DFA(x) for n, x, f in rs}
    except Unreadable as u:
        ctx.unknown("tokens", str(u), m.rel)
        return
    for n, x in TOKENS.items():
        if n not in ds:
            ctx.check("token " + n, None, "not defined under this name", m.rel)
            continue
        w = difference(ds[n], DFA(x, 0))
        ctx.check("token " + n, w is None, "%r is %s %s" % (w, "not" if w is not None and accepts(DFA(x, 0), w) else "wrongly", n), m.rel)
    order = [n for n, _, _ in rs]
    for i, a in enumerate(order):
        for b in order[i + 1:]:
            w = preempted(ds[a], ds[b])
            ctx.check("order %s %s" % (a, b), w is None, "%r is read as %s followed by something else" % (w, a), m.rel)
    used = {s for p in g.productions for s in p.rhs if s not in g.nonterminals}
    for s in sorted(used):
        if len(s) == 1:
            ctx.check("literal %s" % s, s in g.literals, "%r is used in the grammar but no character of the lexer" % s, m.rel)
        else:
            ctx.check("listed %s" % s, s in g.tokens and s in ds, "token %s is not listed or has no expression" % s, m.rel)
    # values
    for n, x, f in rs:
        if f is None or n not in ("UINT", "UFLOAT", "STRING"):
            continue
        t = mk("arg", f.node.args.args[0].arg)
        r = ctx.run(f)
        sets = [e for e in r.events if e.kind == "setattr" and e.obj is t and e.name == "value"]
        key = "value %s" % n
        old = mk("attr", t, "value")
        if len(sets) != 1 or sets[0].guards or sets[0].loops:
            ctx.check(key, False if not sets else None, "the value of the text is not converted" if not sets else "set in %d places" % len(sets), ctx.place(f))
            continue
        v = r.norm(sets[0].val)
        if n == "STRING":
            good = v is mk("sub", old, mk("slice", const(1), const(-1), const(None))) or None
            if good is None and v.op == "sub" and v.args[1].op == "slice" and all(is_const(x) for x in v.args[1].args):
                good = False
        else:
            want = {"UINT": ("int",), "UFLOAT": ("float",)}[n]
            good = v.op == "call" and name_of(v.args[0]) in want and len(v.args[1]) == 1 and v.args[1][0] is old
            if not good and not (v.op == "call" and name_of(v.args[0]) in ("int", "float", "abs", "round") or v is old):
                good = None
        ctx.check(key, good, "the value is %s" % show(v), ctx.place(f))
        ctx.check("kept %s" % n, True if r.value is t or any(x is t for x in (r.norm(r.value),)) else (False if is_const(r.value) else None),
                  "the token is not returned: it is silently dropped", ctx.place(f))
    skipped = [(n, v) for n, (k, v) in m.bind.items() if n.startswith("t_ignore") and k == "assign"]
    for n, v in skipped:
        try:
            s = sequence(v)
            ctx.check(n, n == "t_ignore" and set(s) <= set(" \t\r\n\f\v"), "%s skips %r" % (n, s), m.rel)
        except Unreadable as u:
            ctx.unknown(n, str(u), m.rel)
    for n in m.bind:
        if n.startswith("t_ignore_"):
            ctx.bad(n, "text is silently dropped", m.rel)


def accepts(d, w):
    q = d.start
    for c in w:
        q = d.step(q, c)
    return d.accepts(q)


@rule("C14", "errors", 3)
def errors(ctx):
    """Text that is no definition raises a type error, at an unknown character as well as at an unexpected token or the end; parsing is not resumed."""
    m = module(ctx)
    for n in ("t_error", "p_error"):
        b = m.bind.get(n)
        if b is None or b[0] != "func":
            ctx.bad(n, "%s is not defined: errors are reported by the library and dropped" % n, m.rel)
            continue
        r = ctx.run(b[1])
        rs = r.raises()
        ok = raises_always(r) if rs else False
        types = {exc_name(e.val) for e in rs}
        ctx.check(n, bool(ok and types <= {"TypeError"}), "not every error raises a TypeError (%s)" % (sorted(map(str, types)) or "nothing is raised"),
                  ctx.place(b[1]))
    for p in grammar(ctx).productions:
        if "error" in p.rhs:
            ctx.bad(p.text, "a production that recovers from errors drops text", ctx.place(p.fn))
    fn = ctx.p.func("parsing.parse_definition")
    r = ctx.run(fn)
    arg = mk("arg", fn.node.args.args[0].arg)
    v = r.norm(r.value) if r.value is not None else None
    good = v is not None and v.op == "call" and (name_of(v.args[0]) or "").endswith("parse") and v.args[1] and v.args[1][0] is arg
    if not good and v is not None and contains(v, lambda x: x is arg) and not is_const(v):
        good = None
        for x in walk(v.args[1][0] if v.op == "call" and v.args[1] else v):
            if x.op == "sub" or x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("split", "partition", "rsplit", "rpartition"):
                good = False
    ctx.check("parse_definition", good, "gives %s" % show(v)[:80], ctx.place(fn))
    caught = [e for e in r.events if e.kind == "handler"]
    ctx.check("parse_definition errors", not caught or None, "errors are caught", ctx.place(fn))


# ---------------------------------------------------------------- operators
def emitted(ctx):
    """the operators that end up in operation nodes: {(text, number of operands)}"""
    out = {}
    for p in grammar(ctx).productions:
        if len(p.rhs) == 3 and p.rhs[0] == p.rhs[2] == p.lhs and p.rhs[1] in BINARY:
            out[BINARY[p.rhs[1]], 2] = p
        elif len(p.rhs) == 2 and p.rhs == ("-", p.lhs):
            out["-", 1] = p
    return out


def table(ctx):
    """{operator: {number of operands: class}} as written"""
    for n, m in ctx.p.modules.items():
        if n.endswith(".functions") or n == "functions":
            b = m.bind.get("__OPERATORS__")
            if b is None or b[0] != "assign" or not isinstance(b[1], ast.Dict):
                raise AnalysisBroken("operator table")
            out = {}
            for k, v in zip(b[1].keys, b[1].values):
                if not isinstance(k, ast.Constant) or not isinstance(v, ast.Dict):
                    raise AnalysisBroken("operator table: %s" % ast.unparse(k))
                for j, c in zip(v.keys, v.values):
                    x = m.bind.get(c.id) if isinstance(c, ast.Name) else None
                    if not isinstance(j, ast.Constant) or x is None or x[0] != "class":
                        raise AnalysisBroken("operator table: %s" % ast.unparse(c))
                    out[k.value, j.value] = x[1]
            return m, out
    raise AnalysisBroken("operator table")


@rule("C14", "operators", 10)
def operators(ctx):
    """Every operator the grammar can leave in an operation node has an entry in the operator table for its number of operands, and that entry is the class
    of that operator."""
    m, tab = table(ctx)
    for (o, n), p in emitted(ctx).items():
        c = tab.get((o, n))
        ctx.check("%s with %d" % (o, n), c is not None, "the grammar accepts %s but no operator class evaluates it" % o, ctx.place(p.fn))
    for (o, n), c in tab.items():
        key = cls_const(c, "key")
        num = cls_const(c, "numargs")
        ctx.check("class of %s with %d" % (o, n), None if key is None and num is None else (key in (None, o) and num in (None, n)),
                  "%s %d is evaluated by %s, which is %s with %s" % (o, n, c.name, key, num), c.qual if hasattr(c, "qual") else c.name)


def cls_const(c, name):
    for k in c.mro() if hasattr(c, "mro") and callable(c.mro) else [c]:
        for s in k.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and isinstance(s.value, ast.Constant):
                return s.value.value
    return None


@rule("C14", "applied", 6)
def applied(ctx):
    """Evaluating an operator applies that operator to its operands in the order written."""
    m, tab = table(ctx)
    for (o, n), c in sorted(tab.items()):
        f = c.find_method("__getitem__")
        r = ctx.run(f, cls=c)
        v = r.norm(r.value)
        xs = [operand(x) for x in leafvalues(v)]
        got = form(v)
        key = "%s with %d" % (o, n)
        want = ("neg", 0) if n == 1 and o == "-" else (o, 0, 1)
        ctx.check(key, None if got is None else got == want, "%s computes %s" % (c.name, got), ctx.place(f))
        if got is None or got != want:
            continue
        ix = mk("arg", f.params()[1])
        for kinds in itertools.product(("number", "whole number", "node"), repeat=n):
            u = subst(v, {x: const(yes) for x in walk(v) for yes in [kind_test(x, kinds)] if yes is not None})
            ops = u.args[-n:] if u.op in ("un", "neg", "bin") else ()
            ok = True if ops else None
            for i, (x, k) in enumerate(zip(ops, kinds)):
                arg = mk("sub", attr(SELF, "arguments"), const(i))
                good = arg if k != "node" else mk("sub", arg, ix)
                if x is not good:
                    ok = False if x in (arg, mk("sub", arg, ix), mk("sub", arg, NONE)) else None
                    break
            ctx.check("%s of %s" % (key, " and ".join(kinds)), ok, "a %s" % " and a ".join("%s gives %s" % (k, term(x)) for k, x in zip(kinds, ops)), ctx.place(f))


PYTHON = {"number": {"float"}, "whole number": {"int"}, "node": set()}


def kind_test(t, kinds):
    """the truth of a test of the kind of an operand"""
    if t.op == "isinstance" and is_operand(t.args[0], len(kinds)):
        k = kinds[operand(t.args[0])]
        names = {(name_of(x) or show(x)).split(".")[-1].strip("<>") for x in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],))}
        if names & PYTHON[k] or k != "node" and names & {"Number", "Real", "object"}:
            return True
        if k == "node" and names & {"FlowNode", "object"}:
            return True
        return False if names <= {"str", "float", "int", "bool", "Number", "Real", "Integral", "complex", "NoneType", "bytes", "tuple", "list", "dict", "FlowNode"} and not (k == "whole number" and "Integral" in names) else None
    if t.op == "cmp" and t.args[0] == "is" and is_const(t.args[2]) and cval(t.args[2]) is None and is_operand(t.args[1], len(kinds)):
        return False
    return None


def is_operand(t, n):
    return t.op == "sub" and t.args[0] is attr(SELF, "arguments") and is_const(t.args[1]) and cval(t.args[1]) in range(n)


def leafvalues(v):
    return list(walk(v))


def operand(t):
    """the number of the argument a term is the value of"""
    while True:
        if t.op == "ite":
            a, b = operand(t.args[1]), operand(t.args[2])
            return a if a == b else None
        if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "arguments" and is_const(t.args[1]):
            return cval(t.args[1])
        if t.op == "sub" and t.args[0].op in ("sub", "ite"):
            t = t.args[0]
            continue
        return None


def form(t):
    if t.op in ("ite",):
        a, b = form(t.args[1]), form(t.args[2])
        return a if a == b else None
    if t.op in ("un", "neg"):
        i = operand(t.args[-1])
        return None if i is None else ("neg", i)
    if t.op == "bin":
        i, j = operand(t.args[1]), operand(t.args[2])
        return None if i is None or j is None else (t.args[0], i, j)
    return None


@rule("C14", "lookup", 3)
def lookup(ctx):
    """Looking up an operator gives the entry of the table for that operator and number of operands, an unknown one is a key error."""
    fn = ctx.p.func("functions.find_operator")
    r = ctx.run(fn)
    ks = [mk("arg", a.arg) for a in fn.node.args.args]
    m, tab = table(ctx)
    ops = {}
    for (o, n), c in tab.items():
        ops.setdefault(o, {})[n] = Tok(c.name)
    for o in sorted(ops) + ["?"]:
        for n in (1, 2, 3):
            env = {ks[0]: o, ks[1]: n}
            w = Lazy(r.an, env)
            key = "%s with %d" % (o, n)
            try:
                res = result(r, w)
            except Unknown as u:
                ctx.unknown(key, str(u), ctx.place(fn))
                continue
            want = ops.get(o, {}).get(n)
            if want is None:
                ctx.check(key, res == ("raises", "KeyError"), "an operator that does not exist gives %s" % (res,), ctx.place(fn))
            else:
                ctx.check(key, res[0] == "value" and repr(res[1]) == "<class %s>" % want.name, "gives %s" % (res,), ctx.place(fn))


def result(r, w):
    """('value', v) or ('raises', name)"""
    for e in r.events:
        if e.kind in ("raise", "getitem"):
            try:
                if not w.happens(e.loops or (), e.guards, w.env, e.seq):
                    continue
                if e.kind == "raise":
                    return ("raises", exc_name(e.val))
                k = e.args[0] if e.args else e.name
                w.ev(mk("sub", e.obj, k if hasattr(k, "op") else const(k)))
            except Wrong as x:
                return ("raises", "KeyError" if "KeyError" in str(x) else str(x))
    try:
        return ("value", w.ev(r.value))
    except Wrong as x:
        return ("raises", "KeyError" if "KeyError" in str(x) else str(x))


@rule("C14", "stored-tables", 1)
def stored_tables(ctx):
    """The parser tables kept in the source tree are used as long as their signature is that of the grammar; then they are the tables of the grammar."""
    g = grammar(ctx)
    m = module(ctx)
    tabs = [x for n, x in ctx.p.modules.items() if n.endswith("parsetab")]
    if not tabs:
        ctx.ok("no stored tables", "generated from the grammar")
        return
    t = tabs[0]
    get = {}
    for s in t.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            try:
                get[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    fns = []
    for p in g.productions:
        if p.fn not in fns:
            fns.append(p.fn)
    prec = m.bind["precedence"][1]
    docs = "".join(ast.get_docstring(f.node, clean=False) or "" for f in fns)
    stored = get.get("_lr_signature", "")
    # the library sorts nothing but keeps the token list in its own order: compare without it
    i = stored.find("".join("".join(p) for p in sequence(prec)))
    if not stored.endswith(docs) or i != (len(g.start) if g.start_given else 0) or sorted(stored[i + len("".join("".join(p) for p in sequence(prec))):
                                                                                         len(stored) - len(docs)].split()) != sorted(g.tokens):
        ctx.ok("signature", "the stored tables are of another grammar and are not used")
        return
    prods = get.get("_lr_productions", [])
    bad = None
    for k, p in enumerate(g.productions):
        if k + 1 >= len(prods):
            bad = "production %s is missing" % p.text
            break
        q = prods[k + 1]
        want = ("%s -> %s" % (p.lhs, " ".join(p.rhs) or "<empty>"), p.lhs, len(p.rhs), p.fn.name)
        if tuple(q[:4]) != want:
            bad = "production %s is stored as %s" % (p.text, q[:4])
            break
    ctx.check("productions", bad is None, bad or "", t.rel)
    act, goto = {}, {}
    for sym, (states, vals) in get.get("_lr_action_items", {}).items():
        for a, b in zip(states, vals):
            act[a, sym] = b
    for sym, (states, vals) in get.get("_lr_goto_items", {}).items():
        for a, b in zip(states, vals):
            goto[a, sym] = b
    k0 = frozenset([(0, 0)])
    pair, todo, bad = {k0: 0}, [k0], None

    def meet(k, s):
        if k in pair:
            return pair[k] == s
        pair[k] = s
        todo.append(k)
        return True

    terms = {s for p in g.productions for s in p.rhs if s not in g.nonterminals} | {"$end"}
    while todo and bad is None:
        k = todo.pop()
        s = pair[k]
        for a in sorted(terms):
            x = g.action.get((k, a), ("error", None))
            y = act.get((s, a))
            if x[0] == "error":
                good = y is None
            elif x[0] == "shift":
                good = y is not None and y > 0 and meet(g.goto[k, a], y)
            else:
                good = y is not None and y <= 0 and -y == x[1].number
            if not good:
                bad = "after %s with %s next the stored tables differ from the grammar (%s stored for %s)" % (
                    [g.prods[n].text for n, d in k][:1], a, y, x[0] + (" " + x[1].text if x[1] else ""))
                break
        for n in sorted(g.nonterminals):
            if (k, n) in g.goto and bad is None:
                if (s, n) not in goto or not meet(g.goto[k, n], goto[s, n]):
                    bad = "after %s the stored tables do not continue with %s as the grammar does" % ([g.prods[i].text for i, d in k][:1], n)
    ctx.check("tables", bad is None, bad or "", t.rel, note="%d states" % len(pair))
