"""The grammar written in the docstrings of a PLY parser module, its LALR(1) automaton with PLY's rules of precedence, and its tokens as finite automata."""
import ast
import re


class Unreadable(Exception):
    pass


class Production:
    def __init__(self, number, lhs, rhs, prec, fn, line):
        self.number, self.lhs, self.rhs, self.prec, self.fn, self.line = number, lhs, tuple(rhs), prec, fn, line

    @property
    def text(self):
        return "%s : %s" % (self.lhs, " ".join(self.rhs) or "<empty>")


def sequence(node):
    """a literal sequence of an assignment, following + of literal sequences"""
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return tuple(sequence(node.left)) + tuple(sequence(node.right))
    try:
        return ast.literal_eval(node)
    except Exception:
        raise Unreadable("not a literal: %s" % ast.unparse(node)[:60])


class Grammar:
    def __init__(self, module):
        """module: loader.ModuleInfo of the parser"""
        self.module = module
        b = module.bind
        get = lambda n, d=None: sequence(b[n][1]) if n in b and b[n][0] == "assign" and b[n][1] is not None else d
        self.tokens = tuple(get("tokens", ()))
        lits = get("literals", ())
        self.literals = tuple(lits)
        self.levels = {}
        for i, lev in enumerate(get("precedence", ())):
            for t in lev[1:]:
                self.levels[t] = (lev[0], i + 1)
        fns = [v for k, v in b.values() if k == "func" and v.name.startswith("p_") and v.name != "p_error"]
        fns.sort(key=lambda f: f.node.lineno)
        self.start = None
        self.productions = []
        for c in ast.walk(module.tree):
            if isinstance(c, ast.Call) and ast.unparse(c.func) in ("yacc.yacc", "yacc", "ply.yacc.yacc"):
                for kw in c.keywords:
                    if kw.arg == "start":
                        self.start = sequence(kw.value)
                    elif kw.arg in ("module", "method", None):
                        raise Unreadable("yacc(%s=...)" % kw.arg)
        if "start" in b and b["start"][0] == "assign":
            self.start = get("start")
        for f in fns:
            doc = ast.get_docstring(f.node, clean=False)
            if doc:
                self.parse(f, doc)
        if not self.productions:
            raise Unreadable("no productions")
        self.start_given = self.start is not None
        if self.start is None:
            self.start = self.productions[0].lhs
        self.nonterminals = {p.lhs for p in self.productions}
        self.by_lhs = {}
        for p in self.productions:
            self.by_lhs.setdefault(p.lhs, []).append(p)

    def parse(self, f, doc):
        lhs = None
        for n, line in enumerate(doc.splitlines()):
            ws = line.split()
            if not ws:
                continue
            if ws[0] == "|":
                if lhs is None:
                    raise Unreadable("misplaced |")
                syms = ws[1:]
            else:
                if len(ws) < 2 or ws[1] not in (":", "::="):
                    raise Unreadable("production %r" % line)
                lhs, syms = ws[0], ws[2:]
            alts, cur = [], []
            for s in syms:
                if s == "|":
                    alts.append(cur)
                    cur = []
                else:
                    cur.append(s)
            for rhs in alts + [cur]:
                prec = None
                if "%prec" in rhs:
                    i = rhs.index("%prec")
                    if i + 2 != len(rhs):
                        raise Unreadable("%%prec in %r" % line)
                    prec = self.levels.get(rhs[i + 1])
                    if prec is None:
                        raise Unreadable("no precedence %s" % rhs[i + 1])
                    rhs = rhs[:i]
                out = []
                for s in rhs:
                    if s[0] in "'\"":
                        c = ast.literal_eval(s)
                        if len(c) != 1:
                            raise Unreadable("literal %s" % s)
                        out.append(c)
                    else:
                        out.append(s)
                self.productions.append(Production(len(self.productions) + 1, lhs, out, prec, f, f.node.lineno + n))

    def settle(self):
        for p in self.productions:
            if p.prec is None:
                terms = [s for s in p.rhs if s not in self.nonterminals]
                p.prec = self.levels.get(terms[-1], ("right", 0)) if terms else ("right", 0)

    # ------------------------------------------------------------ LALR(1)
    def build(self):
        self.settle()
        nullable, first = set(), {n: set() for n in self.nonterminals}
        ch = True
        while ch:
            ch = False
            for p in self.productions:
                if p.lhs not in nullable and all(s in nullable for s in p.rhs):
                    nullable.add(p.lhs)
                    ch = True
                for s in p.rhs:
                    new = first[s] if s in self.nonterminals else {s}
                    if not new <= first[p.lhs]:
                        first[p.lhs] |= new
                        ch = True
                    if s not in nullable:
                        break

        def firsts(seq, la):
            out = set()
            for s in seq:
                out |= first[s] if s in self.nonterminals else {s}
                if s not in nullable:
                    return out
            return out | {la}

        start = Production(0, "S'", (self.start,), ("right", 0), None, 0)
        prods = [start] + self.productions

        def closure(items):
            out = set(items)
            todo = list(items)
            while todo:
                n, dot, la = todo.pop()
                p = prods[n]
                if dot < len(p.rhs) and p.rhs[dot] in self.nonterminals:
                    for q in self.by_lhs[p.rhs[dot]]:
                        for t in firsts(p.rhs[dot + 1:], la):
                            it = (q.number, 0, t)
                            if it not in out:
                                out.add(it)
                                todo.append(it)
            return frozenset(out)

        # LR(0) cores with merged lookaheads, to a fixed point
        def core(items):
            return frozenset((n, d) for n, d, _ in items if d > 0 or n == 0)

        kernels = {}
        k0 = frozenset([(0, 0)])
        kernels[k0] = {(0, 0, "$end")}
        todo = [k0]
        self.goto = {}
        while todo:
            k = todo.pop()
            c = closure(kernels[k])
            moves = {}
            for n, d, la in c:
                p = prods[n]
                if d < len(p.rhs):
                    moves.setdefault(p.rhs[d], set()).add((n, d + 1, la))
            for s, items in moves.items():
                kk = frozenset((n, d) for n, d, _ in items)
                self.goto[k, s] = kk
                if kk not in kernels:
                    kernels[kk] = set()
                if not items <= kernels[kk]:
                    kernels[kk] |= items
                    todo.append(kk)
        self.states = {k: closure(v) for k, v in kernels.items()}
        self.prods = prods
        self.conflicts = []     # (state, lookahead, chosen, other) settled by default only
        self.action = {}        # (state, terminal) -> ('shift', None) | ('reduce', production) | ('error', None)
        for k, items in self.states.items():
            red = {}
            for n, d, la in items:
                p = prods[n]
                if d == len(p.rhs):
                    red.setdefault(la, set()).add(n)
            for la, ns in red.items():
                if len(ns) > 1:
                    self.conflicts.append((k, la, "reduce/reduce", tuple(sorted(ns))))
                p = prods[min(ns)]
                act = ("reduce", p)
                if (k, la) in self.goto and la not in self.nonterminals:
                    rp, rl = p.prec
                    sp, sl = self.levels.get(la, ("right", 0))
                    if sl < rl or sl == rl and rp == "left":
                        act = ("reduce", p)
                        if not sl and not rl:
                            self.conflicts.append((k, la, "shift/reduce", (p.number,)))
                    elif sl == rl and rp == "nonassoc":
                        act = ("error", None)
                    else:
                        act = ("shift", None)
                        if not rl:
                            self.conflicts.append((k, la, "shift/reduce", (p.number,)))
                self.action[k, la] = act
            for (kk, s) in list(self.goto):
                if kk == k and s not in self.nonterminals and (k, s) not in self.action:
                    self.action[k, s] = ("shift", None)
        return self

    def token_rules(self):
        """[(token, regular expression, kind)] in the order PLY tries them"""
        m = self.module
        fns, strs = [], []
        for n, (k, v) in m.bind.items():
            if not n.startswith("t_") or n in ("t_error", "t_ignore", "t_eof"):
                continue
            if k == "func":
                doc = ast.get_docstring(v.node, clean=False)
                if not doc:
                    raise Unreadable("token %s without expression" % n)
                fns.append((v.node.lineno, n[2:], doc, v))
            elif k == "assign":
                strs.append((n[2:], sequence(v)))
        fns.sort(key=lambda x: x[0])
        strs.sort(key=lambda x: -len(x[1]))
        return [(n, x, f) for _, n, x, f in fns] + [(n, x, None) for n, x in strs]


# ---------------------------------------------------------------- regular expressions as automata
ALPHABET = [chr(c) for c in range(32, 127)] + ["\t", "\n", "\u00e9"]     # one character stands for all outside ASCII


class NFA:
    def __init__(self):
        self.n = 0
        self.eps, self.tr = {}, {}

    def new(self):
        self.n += 1
        return self.n - 1


def compile_regex(text, flags=re.VERBOSE):
    """(NFA, start, end) of a regular expression; greedy and lazy repetitions are the same language"""
    try:
        from re import _parser as sp
    except ImportError:
        import sre_parse as sp
    tree = sp.parse(text, flags)
    nfa = NFA()

    def chars(items):
        out, negate = set(), False
        for op, av in items:
            op = str(op)
            if op == "NEGATE":
                negate = True
            elif op == "LITERAL":
                out.add(chr(av))
            elif op == "RANGE":
                out |= {c for c in ALPHABET if av[0] <= ord(c) <= av[1]}
            elif op == "CATEGORY":
                k = str(av)
                cl = {"CATEGORY_DIGIT": "0123456789", "CATEGORY_SPACE": " \t\n",
                      "CATEGORY_WORD": "".join(c for c in ALPHABET if c.isalnum() or c == "_")}.get(k)
                if cl is None:
                    raise Unreadable("character class %s" % k)
                out |= set(cl)
            else:
                raise Unreadable("in set: %s" % op)
        return set(ALPHABET) - out if negate else out

    def seq(items, s):
        for op, av in items:
            s = one(str(op), av, s)
        return s

    def one(op, av, s):
        e = nfa.new()
        if op == "LITERAL":
            nfa.tr.setdefault((s, chr(av)), set()).add(e)
        elif op == "NOT_LITERAL":
            for c in ALPHABET:
                if c != chr(av):
                    nfa.tr.setdefault((s, c), set()).add(e)
        elif op == "ANY":
            for c in ALPHABET:
                if c != "\n":
                    nfa.tr.setdefault((s, c), set()).add(e)
        elif op == "IN":
            for c in chars(av):
                nfa.tr.setdefault((s, c), set()).add(e)
        elif op == "BRANCH":
            for alt in av[1]:
                x = nfa.new()
                nfa.eps.setdefault(s, set()).add(x)
                nfa.eps.setdefault(seq(alt, x), set()).add(e)
        elif op == "SUBPATTERN":
            nfa.eps.setdefault(seq(av[-1], s), set()).add(e)
        elif op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            for _ in range(lo):
                s = seq(sub, s)
            if str(hi) == "MAXREPEAT":
                x = nfa.new()
                nfa.eps.setdefault(s, set()).add(x)
                y = seq(sub, x)
                nfa.eps.setdefault(y, set()).add(x)
                nfa.eps.setdefault(x, set()).add(e)
            else:
                nfa.eps.setdefault(s, set()).add(e)
                for _ in range(hi - lo):
                    s = seq(sub, s)
                    nfa.eps.setdefault(s, set()).add(e)
        else:
            raise Unreadable("expression part %s" % op)
        return e

    s = nfa.new()
    return nfa, s, seq(tree, s)


class DFA:
    """subset automaton, built on demand"""

    def __init__(self, text, flags=re.VERBOSE):
        self.nfa, s, self.end = compile_regex(text, flags)
        self.start = self.close({s})
        self.memo = {}

    def close(self, ss):
        out, todo = set(ss), list(ss)
        while todo:
            for y in self.nfa.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def step(self, q, c):
        if (q, c) not in self.memo:
            self.memo[q, c] = self.close({y for x in q for y in self.nfa.tr.get((x, c), ())})
        return self.memo[q, c]

    def accepts(self, q):
        return self.end in q


def difference(a, b):
    """a text in one language and not in the other, None if they are the same"""
    seen, todo = {(a.start, b.start)}, [(a.start, b.start, "")]
    while todo:
        p, q, w = todo.pop(0)
        if a.accepts(p) != b.accepts(q):
            return w
        for c in ALPHABET:
            x = (a.step(p, c), b.step(q, c))
            if x not in seen and (x[0] or x[1]):
                seen.add(x)
                todo.append((x[0], x[1], w + c))
    return None


def preempted(a, b):
    """a text of b some prefix of which is a text of a"""
    seen, todo = set(), [(a.start, b.start, False, "")]
    while todo:
        p, q, hit, w = todo.pop(0)
        hit = hit or bool(w) and a.accepts(p)
        if hit and b.accepts(q):
            return w
        for c in ALPHABET:
            x = (a.step(p, c), b.step(q, c), hit)
            if x[1] and (x[0] or hit) and x not in seen:
                seen.add(x)
                todo.append(x + (w + c,))
    return None
