"""Interprocedural gated-SSA value-flow analysis (one linear abstract pass, branches merged, no path enumeration).

Every expression gets a normalised term over the function's inputs; every effect (call, attribute or item store, in-place
operation, raise, return) becomes an event with the guards, loops and handler contexts it is under.  Calls into the package
are inlined up to a bound, so extracting or inlining a helper does not change the result.
"""
import ast

from .loader import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo, Project
from .terms import (FALSE, NONE, TRUE, T, and_, attr, cmp_, const, contains, cval, is_const, ite, literals, mk, not_, or_,
                    rebuild, show, truth, walk)

SELF = mk("self")
MAXDEPTH = 14
MAXSTEPS = 400000

STRIP = {"list", "tuple", "sorted", "set", "iter", "reversed", "frozenset"}
OPER = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "pow": "**", "mod": "%",
        "iadd": "+", "isub": "-", "imul": "*", "itruediv": "/", "ifloordiv": "//", "ipow": "**"}
OPCMP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
COLL_NEW = {"list": "list", "dict": "dict", "set": "set", "collections.OrderedDict": "dict",
            "collections.defaultdict": "dict", "frozenset": "set"}
MUTATORS = {"append", "extend", "add", "update", "insert", "remove", "pop", "clear", "discard", "setdefault", "sort",
            "reverse", "popitem", "difference_update", "intersection_update"}


class Event:
    __slots__ = ("kind", "f", "args", "kw", "obj", "name", "val", "res", "guards", "loops", "ctx", "fn", "node", "seq", "heap", "via")

    def __init__(self, kind, **k):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, k.get(s))

    def where(self):
        return "%s:%s" % (self.fn.module.rel if self.fn else "?", getattr(self.node, "lineno", "?"))

    def __repr__(self):
        if self.kind == "call":
            b = "%s(%s)" % (show(self.f), ", ".join([show(a) for a in self.args] + ["%s=%s" % (k, show(v)) for k, v in self.kw]))
        elif self.kind in ("setattr", "setitem", "aug"):
            b = "%s.%s = %s" % (show(self.obj), show(self.name) if isinstance(self.name, T) else self.name, show(self.val))
        else:
            b = show(self.val) if self.val is not None else ""
        return "<%s %s | %s | %s %s>" % (self.kind, b, ", ".join(show(g) for g in self.guards), [show(l) for l in self.loops], self.ctx)


class State:
    # soft: the guards that hold because an early return, break or continue was not taken; left: this state ended in one
    __slots__ = ("env", "heap", "guards", "dead", "soft", "left")

    def __init__(self, env, heap, guards):
        self.env, self.heap, self.guards, self.dead = env, heap, guards, False
        self.soft, self.left = (), False

    def copy(self):
        s = State(dict(self.env), dict(self.heap), self.guards)
        s.dead = self.dead
        s.soft, s.left = self.soft, self.left
        return s


class Rec:
    """one content record of a collection allocation"""
    __slots__ = ("op", "key", "val", "guards", "loops", "seq")

    def __init__(self, op, key, val, guards, loops, seq):
        self.op, self.key, self.val, self.guards, self.loops, self.seq = op, key, val, guards, loops, seq


class Frame:
    def __init__(self, fn, module, cls, parent=None, term=None):
        self.fn, self.module, self.cls, self.parent = fn, module, cls, parent
        self.returns, self.yields, self.loopstack = [], [], []
        self.globals_ = set()
        self.nonlocals = set()
        self.state_env_owner = None
        self.term = term


class LoopCtl:
    def __init__(self):
        self.breaks, self.continues = [], []


class Result:
    """analysis of one root function"""

    def __init__(self, an, fn, value, events, state, returns):
        self.an, self.fn, self.value, self.events, self.state, self.returns = an, fn, value, events, state, returns

    def calls(self, pred=None):
        return [e for e in self.events if e.kind == "call" and (pred is None or pred(e))]

    def raises(self):
        return [e for e in self.events if e.kind == "raise"]

    def norm(self, t, **k):
        return self.an.norm(t, **k)


class Engine:
    def __init__(self, proj, opaque=(), types=None, assume=None, ret_types=None, inline_ctors=(), attr_types=None,
                 depth=MAXDEPTH, inline_props=True, summaries=None):
        """opaque: names ('PhysArray.convert', 'convert', or full quals) never inlined
        types: {term: ClassInfo}; attr_types: {attribute name: ClassInfo} class hints for unknown receivers
        assume: {term: constant term} conditional constant propagation seeds
        inline_ctors: class quals (short names ok) whose __init__ is inlined at construction"""
        self.p = proj
        self.opaque = set(opaque)
        self.types = {k: v for k, v in (types or {}).items() if not isinstance(v, str)}
        self.kinds = {k: v for k, v in (types or {}).items() if isinstance(v, str)}
        self.attr_types = dict(attr_types or {})
        self.assume = dict(assume or {})
        self.ret_types = dict(ret_types or {})
        self.inline_ctors = set(inline_ctors)
        self.maxdepth = depth
        self.inline_props = inline_props
        self.summaries = dict(summaries or {})
        self.guard_times, self.keyed = {}, {}
        self.events, self.recs, self.alloc_kind, self.alloc_ctx, self.alloc_loops = [], {}, {}, {}, {}
        self.alloc_guards = {}
        self.phis = {}
        self.loopinfo = {}
        self.closures = {}
        self.seq = 0
        self.ids = 0
        self.loops, self.ctx, self.stack = (), (), []
        self.quiet = 0
        self.steps = 0
        self.node = None
        self.state = None
        self.gcache = {}
        self.functions = set()

    # ---------------------------------------------------------------- roots
    def run(self, fn, cls=None, args=None, self_term=SELF, heap=None):
        cls = cls or fn.cls
        self.state = State({}, dict(heap or {}), ())
        if cls is not None and not fn.is_static:
            self.types.setdefault(self_term, cls)
        bound = {}
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if fn.cls is not None and not fn.is_static and params:
            bound[params[0]] = self_term if not fn.is_classmethod else mk("class", fn.cls)
            params = params[1:]
        for p in params + [x.arg for x in a.kwonlyargs]:
            bound[p] = (args or {}).get(p, mk("arg", p))
        if a.vararg:
            bound[a.vararg.arg] = (args or {}).get(a.vararg.arg, mk("arg", "*" + a.vararg.arg))
        if a.kwarg:
            bound[a.kwarg.arg] = (args or {}).get(a.kwarg.arg, mk("arg", "**" + a.kwarg.arg))
        fr = Frame(fn, fn.module, cls)
        self.stack = [fr]
        self.functions.add(fn.qual)
        self.state.env = bound
        if isinstance(fn.node, ast.Lambda):
            v = self.ev(fn.node.body)
            fr.returns.append((self.state.copy(), v))
        else:
            self.block(fn.node.body)
        if not self.state.dead:
            fr.returns.append((self.state, NONE))
        base = State({}, {}, ())
        val, st = self._fold_returns(fr.returns, base)
        self.state = st
        return Result(self, fn, val, self.events, st, fr.returns)

    def _fold_returns(self, returns, base):
        if not returns:
            st = base.copy()
            st.dead = True
            return mk("never"), st
        st = self.merge([s for s, _ in returns])
        conds = self._conds([s for s, _ in returns])
        val = returns[-1][1]
        for (s, v), c in list(zip(returns, conds))[:-1][::-1]:
            val = ite(c, v, val)
        return val, st

    # ---------------------------------------------------------------- states
    def _conds(self, states):
        common = set(states[0].guards)
        for s in states[1:]:
            common &= set(s.guards)
        conds, neg = [], set()
        for s in states:
            lits = [g for g in s.guards if g not in common and g not in neg]
            c = and_(*lits)
            conds.append(c)
            neg.add(not_(c))
        return conds

    def merge(self, states):
        states = [s for s in states]
        if len(states) == 1:
            s = states[0].copy()
            s.dead = False
            return s
        conds = self._conds(states)
        common = set(states[0].guards)
        for s in states[1:]:
            common &= set(s.guards)
        out = State({}, {}, tuple(g for g in states[0].guards if g in common))
        out.soft = tuple(g for g in out.guards if any(g in s.soft for s in states))
        # facts shared as disjunction are dropped
        for attr_ in ("env", "heap"):
            keys = []
            ks = set()
            for s in states:
                for k in getattr(s, attr_):
                    if k not in ks:
                        ks.add(k)
                        keys.append(k)
            tgt = getattr(out, attr_)
            for k in keys:
                def get(s):
                    v = getattr(s, attr_).get(k)
                    if v is None:
                        v = mk("unbound", k) if attr_ == "env" else (attr(k[0], k[1]) if k[1] != "@data" else mk("data0", k[0]))
                    return v
                v = get(states[-1])
                for s, c in list(zip(states, conds))[:-1][::-1]:
                    v = ite(c, get(s), v)
                tgt[k] = v
        return out

    def implied(self, c):
        """True/False when the current guards decide c, else None"""
        v = truth(c)
        if v is not None:
            return v
        gs = self.state.guards
        if c in gs:
            return True
        n = not_(c)
        if n in gs:
            return False
        if c.op == "and":
            vs = [self.implied(x) for x in c.args]
            if all(v is True for v in vs):
                return True
            if any(v is False for v in vs):
                return False
            return None
        if c.op == "or":
            vs = [self.implied(x) for x in c.args]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
            return None
        if c.op == "not":
            v = self.implied(c.args[0])
            return None if v is None else not v
        if c.op == "cmp" and c.args[0] in ("==", "is") and is_const(c.args[2]):
            x, k = c.args[1], c.args[2]
            for g in gs:
                if g.op == "cmp" and g.args[0] in ("==", "is") and g.args[1] is x and is_const(g.args[2]) and g.args[2] is not k:
                    return False
                if g.op == "isinstance" and g.args[0] is x and is_const(k, None):
                    return False
                if g is x and is_const(k, None):
                    return False
            if is_const(k, None) and (self.type_of(x) is not None or x in self.kinds):
                return False
        if c.op == "isinstance":
            k = self.type_of(c.args[0])
            if k is not None:
                want = self._isinst_classes(c.args[1])
                if want is not None:
                    if any(k.has_base(w.name) for w in want):
                        return True
                    if not any(w.has_base(k.name) for w in want):
                        return False
            for g in gs:
                if g.op == "cmp" and g.args[0] == "is" and g.args[1] is c.args[0] and is_const(g.args[2], None):
                    return False
            if c.args[0].op in ("coll", "alloc", "tuple", "str") or c.args[0] in self.kinds:
                return self._lit_isinstance(c.args[0], c.args[1])
        if c.op == "nonempty":
            if c.args[0].op == "tuple" and not any(x.op == "star" for x in c.args[0].args):
                return bool(c.args[0].args)
        # truthiness of x versus x is None
        if c.op not in ("cmp", "isinstance", "forall", "any", "nonempty"):
            for g in gs:
                if g.op == "cmp" and g.args[0] == "is" and g.args[1] is c and is_const(g.args[2], None):
                    return False
        return None

    def _isinst_classes(self, t):
        ts = t.args if t.op == "tuple" else (t,)
        out = []
        for x in ts:
            if x.op == "class":
                out.append(x.args[0])
            elif x.op == "ext":
                return None if any(b in x.args[0] for b in ("numpy", "object")) else out
        return out

    def _lit_isinstance(self, v, t):
        kind = self.kinds.get(v) or {"tuple": "tuple", "str": "str"}.get(v.op) or self.alloc_kind.get(v) or (v.args[0] if v.op == "coll" else None)
        ts = t.args if t.op == "tuple" else (t,)
        names = [x.args[0] for x in ts if x.op == "ext"]
        if kind is None or len(names) != len(ts) and not all(x.op in ("ext", "class") for x in ts):
            return None
        return kind in [n.split(".")[-1] for n in names]

    def refine(self, t):
        k = 0
        while t.op == "ite" and k < 50:
            v = self.implied(t.args[0])
            if v is None:
                break
            t = t.args[1] if v else t.args[2]
            k += 1
        return t

    # ---------------------------------------------------------------- events
    def emit(self, kind, **k):
        self.seq += 1
        if self.quiet:
            return None
        e = Event(kind, guards=self.state.guards, loops=self.loops, ctx=self.ctx, fn=self.stack[-1].fn if self.stack else None,
                  node=self.node, seq=self.seq, heap=self.state.heap.copy() if self.state else {},
                  via=tuple(f.fn.qual for f in self.stack if f.fn), **k)
        self.events.append(e)
        return e

    def new_id(self):
        self.ids += 1
        return self.ids

    def alloc(self, kind, recs=()):
        t = mk("alloc", kind, self.new_id())
        self.alloc_kind[t] = kind
        self.recs[t] = []
        self.alloc_ctx[t] = (len(self.state.guards), len(self.loops))
        self.alloc_guards[t] = frozenset(self.state.guards)
        self.alloc_loops[t] = self.loops
        for op, k, v in recs:
            self.record(t, op, k, v)
        return t

    def since(self, t):
        """the conditions that came after a collection was made"""
        own = self.alloc_guards.get(t, ())
        return tuple(g for g in self.state.guards if g not in own)

    def record(self, t, op, k, v):
        if t in self.recs:
            g0, l0 = self.alloc_ctx[t]
            self.seq += 1
            own = self.alloc_loops.get(t, ())
            # what was made in another loop over the same is the one made for the same element
            loops = self.loops[l0:] if self.loops[:l0] == own else [l for l in self.loops if l not in own]
            self.recs[t].append(Rec(op, k, v, self.since(t), tuple(loops), self.seq))

    # ---------------------------------------------------------------- normal form
    def norm(self, t, upto=None, memo=None, _depth=0):
        """freeze allocations into content terms, drop identities"""
        memo = {} if memo is None else memo
        busy = set()

        def go(x):
            if x in memo:
                return memo[x]
            if x.op == "alloc" and x in self.recs:
                if x in busy:
                    return mk("cyclic")
                busy.add(x)
                recs = []
                for r in self.recs[x]:
                    if upto is not None and r.seq > upto:
                        continue
                    recs.append((r.op, go(r.key) if isinstance(r.key, T) else None, go(r.val) if isinstance(r.val, T) else None,
                                 tuple(go(g) for g in r.guards), tuple(go(l) for l in r.loops)))
                busy.discard(x)
                kind = x.args[0]
                y = self.coll(kind, recs)
                memo[x] = y
                return y
            if x.op == "new":
                y = mk("new", x.args[0], tuple(go(a) for a in x.args[1]), tuple((k, go(v)) for k, v in x.args[2]), 0)
                memo[x] = y
                return y

            def conv(a):
                if isinstance(a, T):
                    return go(a)
                if isinstance(a, tuple):
                    return tuple(conv(b) for b in a)
                return a
            na = tuple(conv(a) for a in x.args)
            y = self._mk(x.op, na) if na != x.args else x
            memo[x] = y
            return y
        return go(t)

    @staticmethod
    def _mk(op, na):
        if op == "ite":
            return ite(*na)
        if op == "and":
            return and_(*na)
        if op == "or":
            return or_(*na)
        if op == "not":
            return not_(na[0])
        if op == "cmp":
            return cmp_(*na)
        return mk(op, *na)

    @staticmethod
    def coll(kind, recs):
        """display without loops/guards -> plain items"""
        return mk("coll", kind, tuple(recs))

    # ---------------------------------------------------------------- types
    def type_of(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == "new":
            return self._cls_by_qual(t.args[0])
        if t.op == "super":
            return t.args[4]
        if t.op == "ite":
            a, b = self.type_of(t.args[1]), self.type_of(t.args[2])
            return a if a is b else None
        if t.op == "call":
            f = t.args[0]
            nm = f.args[1] if f.op == "attr" else (f.args[0].name if f.op == "func" else f.args[0] if f.op == "ext" else None)
            if nm in self.ret_types:
                return self.ret_types[nm]
        if t.op == "attr" and t.args[1] in self.attr_types:
            return self.attr_types[t.args[1]]
        if self.state is not None:
            for g in self.state.guards:
                if g.op == "isinstance" and g.args[0] is t and g.args[1].op == "class":
                    return g.args[1].args[0]
        return None

    def _cls_by_qual(self, q):
        m, _, n = q.rpartition(".")
        mod = self.p.modules.get(m)
        if mod:
            r = self.p.resolve(mod, n)
            if r and r[0] == "class":
                return r[1]
        return None

    def is_opaque(self, fn):
        q = fn.qual
        short = (fn.cls.name + "." if fn.cls else "") + fn.name
        return q in self.opaque or short in self.opaque or fn.name in self.opaque

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            if self.state.dead:
                break
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise AnalysisBroken("analysis budget exceeded in %s" % self.stack[0].fn.qual)
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken("statement %s not supported (%s:%d)" % (type(s).__name__, self.stack[-1].module.rel, s.lineno))
        m(s)

    def s_Pass(self, s):
        pass

    s_Import = s_ImportFrom = None

    def s_Import(self, s):
        for a in s.names:
            r = self.p.resolve_dotted(a.name if a.asname else a.name.split(".")[0])
            self.state.env[a.asname or a.name.split(".")[0]] = self._resolved(r) if r else mk("ext", a.name)

    def s_ImportFrom(self, s):
        base = self.stack[-1].module._from_base(s)
        for a in s.names:
            r = self.p.resolve_dotted(base + "." + a.name)
            self.state.env[a.asname or a.name] = self._resolved(r) if r else mk("ext", base + "." + a.name)

    def s_Global(self, s):
        self.stack[-1].globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.stack[-1].nonlocals.update(s.names)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        op = BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(t)
            val = self.ev(s.value)
            self.node = s
            cls = self.type_of(cur)
            if cur.op == "alloc" and op in ("+", "|"):
                self.emit("call", f=attr(cur, "extend"), args=(val,), kw=(), res=NONE)
                if cur.args[0] == "list" or op == "|":
                    self._extend(cur, val)
                return
            if cls is not None and cls.has_base("PhysArray"):
                self._inplace(cur, op, val)
                return
            self.emit("aug", obj=cur, name=op, val=val)
            self.state.env[t.id] = self.binop(op, cur, val)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            val = self.ev(s.value)
            if cur.op == "alloc" and op in ("+", "|"):
                self._extend(cur, val)
                self.emit("call", f=attr(cur, "extend"), args=(val,), kw=(), res=NONE)
                return
            self.setattr(o, t.attr, self.binop(op, cur, val))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.index(t.slice)
            cur = self.getitem(o, i)
            val = self.ev(s.value)
            self.setitem(o, i, self.binop(op, cur, val))

    INPLACE = {"+": "__iadd__", "-": "__isub__", "*": "__imul__", "/": "__itruediv__", "//": "__ifloordiv__", "**": "__ipow__"}

    def _inplace(self, cur, op, val):
        self.emit("aug", obj=cur, name=op, val=val)
        k = (cur, "@data")
        self.state.heap[k] = mk("bin", op, self.state.heap.get(k, mk("data0", cur)), val)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.state.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value), self.index(t.slice)
                self.emit("delitem", obj=o, name=i)
                self.record(o, "del", i, None)
            elif isinstance(t, ast.Attribute):
                self.emit("delattr", obj=self.ev(t.value), name=t.attr)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.node = s
        fr = self.stack[-1]
        self.emit("return", val=v)
        fr.returns.append((self.state.copy(), v))
        self.state.dead = self.state.left = True

    def s_Raise(self, s):
        v = self.ev(s.exc) if s.exc is not None else mk("reraise")
        c = self.ev(s.cause) if s.cause is not None else None
        self.node = s
        self.emit("raise", val=v, obj=c)
        self.state.dead = True

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.guard(c)

    def s_FunctionDef(self, s):
        fi = FuncInfo(self.stack[-1].module, s, cls=None)
        fi.qual = (self.stack[-1].fn.qual if self.stack[-1].fn else "?") + ".<locals>." + s.name
        t = mk("closure", self.new_id(), s.name)
        self.closures[t] = (fi, self.state.env, self.stack[-1])
        self.state.env[s.name] = t

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        self.state.env[s.name] = mk("localclass", s.name)

    def guard(self, c, at=None):
        for l in literals(c):
            if l not in self.state.guards and truth(l) is not True:
                self.guard_times.setdefault(l, []).append((self.seq if at is None else at, self.loops))
                self.state.guards = self.state.guards + (l,)

    def branch(self, c, then, els):
        """then/els: callables run under c / not c; returns None. Merges."""
        v = self.implied(c)
        if v is True:
            return then()
        if v is False:
            return els()
        base = self.state
        at = self.seq
        s1 = base.copy()
        self.state = s1
        self.guard(c, at)
        r1 = then()
        s1 = self.state
        s2 = base.copy()
        self.state = s2
        self.guard(not_(c), at)
        r2 = els()
        s2 = self.state
        self.join(base, c, s1, s2)
        if s1.dead and s2.dead:
            return None
        if s1.dead:
            return r2
        if s2.dead:
            return r1
        if r1 is not None and r2 is not None:
            return ite(c, r1, r2)
        return None

    def join(self, base, c, s1, s2):
        if s1.dead or s2.dead:
            self.state = s1 if s2.dead else s2
            if s1.dead and s2.dead:
                s1.left = s1.left or s2.left
            elif (s1.left if s1.dead else s2.left):
                self.state.soft += tuple(g for g in self.state.guards if g not in base.guards and g in set(literals(not_(c) if s1.dead else c)))
            return
        out = self.merge([s1, s2])
        e1 = [g for g in s1.soft if g not in out.guards]
        e2 = [g for g in s2.soft if g not in out.guards]
        for e, k in ((e1, not_(c)), (e2, c)):
            if e:
                g = or_(k, and_(*e))
                if truth(g) is None and g not in out.guards:
                    out.guards += (g,)
                    out.soft += (g,)
        out.left = s1.left or s2.left
        self.state = out

    def s_If(self, s):
        c = self.cond(s.test)
        self.node = s
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def cond(self, e):
        t = self.ev(e)
        return self.as_cond(t)

    def as_cond(self, t):
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "bool" and len(t.args[1]) == 1:
            return self.as_cond(t.args[1][0])
        if t.op == "len":
            return mk("nonempty", t.args[0])
        if t.op in ("alloc", "coll"):
            if t.op == "alloc" and not self.recs.get(t) and not self.quiet:
                return FALSE
            if t.op == "alloc" and any(not r.guards and not r.loops and r.op == "append" for r in self.recs.get(t, ())):
                return TRUE
            return mk("nonempty", t)
        if t.op == "ite":
            return ite(t.args[0], self.as_cond(t.args[1]), self.as_cond(t.args[2]))
        if t.op == "and":
            return and_(*[self.as_cond(x) for x in t.args])
        if t.op == "or":
            return or_(*[self.as_cond(x) for x in t.args])
        if t.op == "not":
            return not_(self.as_cond(t.args[0]))
        return t

    # loops ---------------------------------------------------------------
    def s_For(self, s):
        it = self.ev(s.iter)
        # small literal sequences are unrolled
        items = self._literal_items(it)
        if items is not None and len(items) <= 6:
            lc = LoopCtl()
            self.stack[-1].loopstack.append(lc)
            for x in items:
                if self.state.dead:
                    break
                self.assign(s.target, x)
                self.block(s.body)
                live = ([] if self.state.dead else [self.state]) + lc.continues
                lc.continues = []
                if live:
                    self.state = self.merge(live)
            self.stack[-1].loopstack.pop()
            if not self.state.dead:
                self.block(s.orelse)
            live = ([] if self.state.dead else [self.state]) + lc.breaks
            if live:
                self.state = self.merge(live)
            return
        self._loop(it, lambda: self.bind_iter(s.target, it), s.body, s.orelse, s)

    def _literal_items(self, it):
        if it.op == "tuple" and not any(x.op == "star" for x in it.args):
            return list(it.args)
        if it.op == "alloc" and it.args[0] in ("list", "set") and it in self.recs:
            rs = self.recs[it]
            if rs and all(r.op == "append" and not r.guards and not r.loops for r in rs):
                return [r.val for r in rs]
        return None

    def s_While(self, s):
        self._loop(None, None, s.body, s.orelse, s, test=s.test)

    def _loop(self, it, bind, body, orelse, node, test=None):
        fr = self.stack[-1]
        base = self.state.copy()
        lid = self.new_id()
        tag = mk("while", lid) if it is None else it
        # dry run: which names and object attributes are carried?
        self.quiet += 1
        saved = (self.loops, {k: len(v) for k, v in self.recs.items()}, list(fr.returns))
        self.loops = self.loops + (tag,)
        dry = LoopCtl()
        fr.loopstack.append(dry)
        self._loop_pass(bind, body, test)
        fr.loopstack.pop()
        changed, leaving = {}, {}
        for at in ("env", "heap"):
            b = getattr(base, at)

            def differs(st):
                return [k for k, v in getattr(st, at).items() if b.get(k) is not v and (k in b or at == "heap")]

            changed[at] = differs(self.state)
            for st in dry.continues:
                changed[at] += [k for k in differs(st) if k not in changed[at]]
            leaving[at] = []            # changed only on the way out of the loop
            for st in dry.breaks:
                leaving[at] += [k for k in differs(st) if k not in changed[at] and k not in leaving[at]]
        self.quiet -= 1
        self.loops = saved[0]
        for k, n in saved[1].items():
            del self.recs[k][n:]
        for k in list(self.recs):
            if k not in saved[1]:
                del self.recs[k]
        fr.returns[:] = saved[2]
        # real pass
        self.state = base.copy()
        phis = {}
        for at in ("env", "heap"):
            tgt = getattr(self.state, at)
            for k in changed[at]:
                ph = mk("phi", lid, k if at == "env" else "%s.%s" % (k[0].n, k[1]))
                phis[at, k] = (ph, tgt.get(k))
                init = tgt.get(k)
                cl = self.type_of(init) if init is not None else None
                if cl is not None:
                    self.types[ph] = cl
                tgt[k] = ph
        self.loops = self.loops + (tag,)
        lc = LoopCtl()
        fr.loopstack.append(lc)
        g0 = self.state.guards
        c = self._loop_pass(bind, body, test)
        fr.loopstack.pop()
        self.loops = self.loops[:-1]
        live = ([] if self.state.dead else [self.state]) + lc.continues
        end = self.merge(live) if live else None
        self.loopinfo[lid] = (tag, c, end, list(lc.breaks), dict(phis))
        after = base.copy()
        for at in ("env", "heap"):
            tgt = getattr(after, at)
            for k in changed[at]:
                ph, init = phis[at, k]
                outs = [getattr(end, at).get(k, ph)] if end is not None else []
                outs += [getattr(b, at).get(k, ph) for b in lc.breaks]
                if init is None:
                    init = attr(k[0], k[1]) if at == "heap" and k[1] != "@data" else mk("data0", k[0]) if at == "heap" else mk("unbound", k)
                v = outs[-1] if outs else ph
                for o in outs[:-1]:
                    if o is not v:
                        v = mk("choice", o, v)
                self.phis[ph] = (init, v)
                tgt[k] = mk("loop", tag if it is not None else mk("while", c if c is not None else TRUE), init, v, ph)
                if init in self.types or self.type_of(init) is not None:
                    self.types.setdefault(tgt[k], self.type_of(init))
            for k in leaving[at]:
                init = tgt.get(k)
                if init is None:
                    init = attr(k[0], k[1]) if at == "heap" and k[1] != "@data" else mk("data0", k[0]) if at == "heap" else mk("unbound", k)
                ph = mk("phi", lid, k if at == "env" else "%s.%s" % (k[0].n, k[1]))
                v = init
                for o in [getattr(b, at).get(k, init) for b in lc.breaks]:
                    if o is not v:
                        v = mk("choice", o, v)
                self.phis[ph] = (init, v)
                tgt[k] = mk("loop", tag if it is not None else mk("while", c if c is not None else TRUE), init, v, ph)
                if init in self.types or self.type_of(init) is not None:
                    self.types.setdefault(tgt[k], self.type_of(init))
            if end is not None:
                for k, v in getattr(end, at).items():
                    if k not in tgt:
                        tgt[k] = v if at == "heap" else mk("last", tag, v)
        if end is None and not lc.breaks and it is None and test is not None and truth(c) is True:
            after.dead = True
        # facts that hold after every iteration
        if end is not None and it is not None and not lc.breaks:
            for g in end.guards[len(g0):] if end.guards[:len(g0)] == g0 else ():
                fa = mk("forall", tag, g)
                if fa not in after.guards:
                    after.guards = after.guards + (fa,)
        if it is None and c is not None and not lc.breaks and not contains(c, lambda x: x.op == "phi"):
            pass
        self.state = after
        if orelse and not self.state.dead:
            self.block(orelse)

    def _loop_pass(self, bind, body, test):
        c = None
        if bind is not None:
            bind()
        if test is not None:
            c = self.cond(test)
            self.guard(c)
        self.block(body)
        return c

    def s_Break(self, s):
        ls = self.stack[-1].loopstack
        if ls:
            ls[-1].breaks.append(self.state.copy())
        self.emit("break")
        self.state.dead = self.state.left = True

    def s_Continue(self, s):
        ls = self.stack[-1].loopstack
        if ls:
            ls[-1].continues.append(self.state.copy())
        self.state.dead = self.state.left = True

    def bind_iter(self, target, it):
        """bind a for/comprehension target to the element term(s) of it"""
        v = self.elem(it)
        self.assign(target, v)

    def elem(self, it):
        if it.op == "call" and it.args[0].op == "ext":
            n, a = it.args[0].args[0], it.args[1]
            if n == "zip" and a and not any(x.op == "star" for x in a):
                return mk("tuple", *[self.elem(x) for x in a])
            if n == "enumerate" and a:
                return mk("tuple", mk("idx", self.strip(a[0])), self.elem(a[0]))
            if n == "range" and len(a) == 1 and a[0].op == "len":
                return mk("idx", a[0].args[0])
            if n in STRIP and len(a) >= 1:
                return self.elem(a[0])
            if n == "map" and len(a) == 2:
                return self.call(a[0], (self.elem(a[1]),), ())
        if it.op == "call" and it.args[0].op == "attr" and not it.args[1]:
            o, m = it.args[0].args
            if m == "items":
                k = mk("elem", self.strip(o))
                return mk("tuple", k, self.getitem(o, k))
            if m == "keys":
                return mk("elem", self.strip(o))
            if m == "values":
                return self.getitem(o, mk("elem", self.strip(o)))
        if it.op in ("alloc", "coll", "tuple"):
            pass
        it = self.strip(it)
        if it.op == "alloc" and it.args[0] in ("list", "set", "tuple", "gen") and self.recs.get(it):
            rs = self.recs[it]
            if len(rs) == 1 and rs[0].op == "append":
                return rs[0].val          # element of a comprehension / single-append list
        if it.op == "ite":
            a, b = self.elem(it.args[1]), self.elem(it.args[2])
            return ite(it.args[0], a, b)
        return mk("elem", it)

    def strip(self, it):
        while it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] in STRIP and len(it.args[1]) >= 1:
            it = it.args[1][0]
        if it.op == "call" and it.args[0].op == "attr" and it.args[0].args[1] == "keys" and not it.args[1]:
            return self.strip(it.args[0].args[0])
        return it

    # with / try ------------------------------------------------------------
    def s_With(self, s):
        n = 0
        ms = []
        for item in s.items:
            m = self.ev(item.context_expr)
            self.emit("with", val=m)
            ms.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, m)
            self.ctx = self.ctx + (("with", m),)
            n += 1
        self.block(s.body)
        self.ctx = self.ctx[:len(self.ctx) - n]
        dead = self.state.dead
        for m in reversed(ms):
            self.emit("withexit", val=m)
        self.state.dead = dead

    def s_Try(self, s):
        tid = self.new_id()
        before = self.state.copy()
        ctx0 = self.ctx
        self.ctx = ctx0 + (("finallyguarded", tid),) if s.finalbody else ctx0
        ctx1 = self.ctx
        if s.handlers:
            types = tuple(self._handler_types(h) for h in s.handlers)
            self.ctx = self.ctx + (("try", tid, types),)
        self.block(s.body)
        self.ctx = ctx1
        body_dead = self.state.dead
        after_body_heap = self.state.heap
        if not self.state.dead:
            self.block(s.orelse)
        states = [self.state]
        for h in s.handlers:
            st = before.copy()
            # stores made before the exception may have happened
            self.state = st
            ty = self._handler_types(h)
            self.guard(mk("raised", tid, ty))
            self.ctx = ctx1 + (("except", tid, ty),)
            if h.name:
                st.env[h.name] = mk("exc", tid, ty)
            self.emit("handler", val=ty, name=tid)
            st.left = False
            self.block(h.body)
            self.node = h
            self.emit("handlerend", val=const("goes on" if not self.state.dead else "leaves" if self.state.left else "raises"), name=tid)
            self.ctx = ctx1
            states.append(self.state)
        live = [x for x in states if not x.dead]
        if len(live) > 1 and not states[0].dead:
            # normal completion: mark the normal path as not raised
            g = [mk("raised", tid, self._handler_types(h)) for h in s.handlers]
            for q in g:
                if not_(q) not in states[0].guards:
                    states[0].guards = states[0].guards + (not_(q),)
        if live:
            self.state = self.merge(live)
        else:
            self.state = states[0]
            self.state.dead = True
        if s.finalbody:
            dead = self.state.dead
            if dead:
                st = before.copy()
                st.heap = dict(states[0].heap)
                self.state = st
            self.ctx = ctx0 + (("finally", tid),)
            self.block(s.finalbody)
            self.ctx = ctx0
            self.state.dead = dead or self.state.dead
        self.ctx = ctx0

    s_TryStar = s_Try

    def _handler_types(self, h):
        if h.type is None:
            return ("*",)
        self.quiet += 1
        t = self.ev(h.type)
        self.quiet -= 1
        ts = t.args if t.op == "tuple" else (t,)
        out = []
        for x in ts:
            if x.op == "ext":
                out.append(x.args[0].split(".")[-1])
            elif x.op == "class":
                out.append(x.args[0].name)
            else:
                out.append(show(x))
        return tuple(out)

    # ---------------------------------------------------------------- stores
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.stack[-1]
            if t.id in fr.globals_:
                self.emit("setglobal", name=t.id, val=v)
                self.state.heap[(mk("module", fr.module.name), t.id)] = v
            else:
                self.state.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.refine(v)
            items = self._unpack(v, len(t.elts)) if not any(isinstance(e, ast.Starred) for e in t.elts) else None
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("rest", v, i))
                else:
                    self.assign(e, items[i] if items is not None else self.getitem(v, const(i)))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def _unpack(self, v, n):
        if v.op == "tuple" and len(v.args) == n and not any(x.op == "star" for x in v.args):
            return list(v.args)
        if v.op == "alloc":
            it = self._literal_items(v)
            if it is not None and len(it) == n:
                return it
            rs = self.recs.get(v, ())
            if len(rs) == 1 and rs[0].op == "append" and len(rs[0].loops) == 1:
                pass
        if v.op == "ite":
            a, b = self._unpack(v.args[1], n), self._unpack(v.args[2], n)
            if a and b:
                return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        return None

    def setattr(self, o, name, v):
        o = self.refine(o)
        if o.op == "ite":
            self.branch(o.args[0], lambda: self.setattr(o.args[1], name, v), lambda: self.setattr(o.args[2], name, v))
            return
        cls = self.type_of(o)
        cn = self.p.canon_attr(cls, name)
        self.emit("setattr", obj=o, name=cn, val=v)
        self.state.heap[(o, cn)] = v

    def setitem(self, o, i, v):
        o = self.refine(o)
        if o.op == "ite":
            self.branch(o.args[0], lambda: self.setitem(o.args[1], i, v), lambda: self.setitem(o.args[2], i, v))
            return
        if o.op == "attr" and o.args[1] == "_optinfo" and is_const(i):
            self.emit("setattr", obj=o.args[0], name=cval(i), val=v)
            self.state.heap[(o.args[0], cval(i))] = v
            return
        self.emit("setitem", obj=o, name=i, val=v)
        if o.op == "alloc":
            self.record(o, "set", i, v)
        else:
            self.state.heap[(o, ("item", i))] = v
            k = (o, "@data")
            if k in self.state.heap or self.type_of(o) is not None:
                self.state.heap[k] = mk("store", self.state.heap.get(k, mk("data0", o)), i, v)

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("expression %s not supported (%s:%d)" % (type(e).__name__, self.stack[-1].module.rel, getattr(e, "lineno", 0)))
        t = m(e)
        if t in self.assume:
            return self.assume[t]
        return t

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.refine(self.lookup(e.id))

    def lookup(self, name):
        env = self.state.env
        if name in env and name not in self.stack[-1].globals_:
            return env[name]
        fr = self.stack[-1]
        f = fr
        cenv = getattr(fr, "closure_env", None)
        while cenv is not None:
            if name in cenv[0]:
                return cenv[0][name]
            cenv = getattr(cenv[1], "closure_env", None)
        g = self.state.heap.get((mk("module", fr.module.name), name))
        if g is not None:
            return g
        return self.global_(fr.module, name)

    def global_(self, module, name):
        r = self.p.resolve(module, name)
        if r is None:
            return mk("unknown", name)
        return self._resolved(r)

    def _resolved(self, r):
        k = r[0]
        if k == "func":
            return mk("func", r[1])
        if k == "class":
            return mk("class", r[1])
        if k == "module":
            return mk("module", r[1].name)
        if k == "ext":
            return mk("ext", r[1])
        if k == "global":
            return self.global_value(r[1], r[2], r[3])
        return mk("unknown", str(r))

    def global_value(self, m, name, expr):
        key = (m.name, name)
        if key in self.gcache:
            return self.gcache[key]
        if expr is None:
            v = mk("global", m.name, name)
        else:
            self.gcache[key] = mk("global", m.name, name)
            st, stack, loops, ctx, node = self.state, self.stack, self.loops, self.ctx, self.node
            self.state = State({}, {}, ())
            self.stack = [Frame(None, m, None)]
            self.loops, self.ctx = (), ()
            self.quiet += 1
            try:
                v = self.ev(expr)
            finally:
                self.quiet -= 1
                self.state, self.stack, self.loops, self.ctx, self.node = st, stack, loops, ctx, node
        self.gcache[key] = v
        return v

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.state.env[e.target.id] = v
        return v

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.node = e if not isinstance(e, ast.AST) else self.node
        return self.refine(self.getattr(o, e.attr))

    def getattr(self, o, name):
        o = self.refine(o)
        if o.op == "ite":
            a, b = o.args[1], o.args[2]
            c = o.args[0]
            return self.branch_value(c, lambda: self.getattr(a, name), lambda: self.getattr(b, name))
        if o.op == "module":
            m = self.p.modules.get(o.args[0])
            if m is not None:
                r = self.p.resolve(m, name) or self.p.resolve_dotted(m.name + "." + name)
                if r:
                    return self._resolved(r)
            return mk("ext", o.args[0] + "." + name)
        if o.op == "ext":
            return mk("ext", o.args[0] + "." + name)
        if o.op == "superobj":
            cls, self_t = o.args
            c0 = self.type_of(self_t) or cls
            f = c0.find_method(name, after=cls) if c0 is not None else None
            if f is not None:
                return mk("bound", self_t, f)
            return mk("supermeth", cls, name, self_t)
        if o.op == "class":
            c = o.args[0]
            f = c.find_method(name)
            if f is not None:
                if f.is_classmethod:
                    return mk("bound", o, f)
                return mk("func", f)
            owner, ex = c.find_attr(name)
            if owner is not None:
                h = self.state.heap.get((o, name))
                return h if h is not None else self.global_value_expr(owner, name, ex)
            f = c.find_prop(name)
            if f is not None:
                return mk("func", f)
            if name in ("__name__",):
                return const(c.name)
            return attr(o, name)
        cls = self.type_of(o)
        if name == "__class__" and cls is not None and o.op != "self":
            return mk("class", cls)
        cn = self.p.canon_attr(cls, name)
        h = self.state.heap.get((o, cn))
        if h is not None:
            return h
        if cls is not None:
            f = cls.find_method(name)
            if f is not None:
                if f.is_static:
                    return mk("func", f)
                return mk("bound", o, f)
            pf = cls.find_prop(name)
            if pf is not None and cn == name and self.inline_props and not self.is_opaque(pf) and not cls.has_base("PhysArray") \
                    and name not in self.p._per.get(pf.cls.qual, {}).values():
                return self.inline(pf, (o,), (), self_t=o)
            if pf is None:
                owner, ex = cls.find_attr(name)
                if owner is not None:
                    return self.global_value_expr(owner, name, ex)
        t = self.attr_model(o, cn)
        if t is not None:
            return t
        t = attr(o, cn)
        return self.assume.get(t, t)

    def attr_model(self, o, name):
        """metadata carried over by PhysArray construction and numpy operations on PhysArrays"""
        if o.op == "new" and o.args[0].endswith(".PhysArray") and name in ("units", "name", "dimensions", "positive"):
            kw = dict(o.args[2])
            pos = {"name": 1, "units": 2, "dimensions": 3, "positive": 4}[name]
            v = kw.get(name)
            if v is None and len(o.args[1]) > pos:
                v = o.args[1][pos]
            src = o.args[1][0] if o.args[1] else kw.get("indata")
            if v is not None:
                if name == "positive" and not is_const(v, ""):
                    return v
                if name != "positive" and not is_const(v, None):
                    return v
            return self.meta_of(src, name)
        if o.op == "supercall" and name in ("units", "name", "positive"):
            return self.getattr(o.args[2], name)
        if o.op == "supercall" and name == "dimensions" and o.args[1] not in ("transpose", "__getitem__", "mean", "sum", "min", "max"):
            return self.getattr(o.args[2], name)
        return None

    def meta_of(self, src, name):
        if src is None:
            return mk("unknownmeta", name)
        if src.op == "const":
            if name == "positive":
                return NONE
            if name == "dimensions":
                return mk("tuple")
            if name == "units":
                return mk("call", mk("ext", "cf_units.Unit"), (const(1),), ())
            return const(str(cval(src)))
        t = self.getattr(src, name)
        return t

    def global_value_expr(self, owner, name, ex):
        key = (owner.qual, name)
        if key not in self.gcache:
            self.gcache[key] = attr(mk("class", owner), name)
            st, stack, loops, ctx, node = self.state, self.stack, self.loops, self.ctx, self.node
            self.state = State({}, {}, ())
            self.stack = [Frame(None, owner.module, owner)]
            # class body names
            self.loops, self.ctx = (), ()
            self.quiet += 1
            try:
                for k, v in owner.attrs.items():
                    if k != name and any(isinstance(n, ast.Name) and n.id == k for n in ast.walk(ex)):
                        self.state.env[k] = self.global_value_expr(owner, k, v)
                self.gcache[key] = self.ev(ex)
            finally:
                self.quiet -= 1
                self.state, self.stack, self.loops, self.ctx, self.node = st, stack, loops, ctx, node
        return self.gcache[key]

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.index(e.slice)
        return self.refine(self.getitem(o, i))

    def index(self, s):
        return self.ev(s)

    def e_Slice(self, e):
        f = lambda x: self.ev(x) if x is not None else NONE
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def getitem(self, o, i):
        o = self.refine(o)
        if o.op == "ite":
            c, a, b = o.args
            return self.branch_value(c, lambda: self.getitem(a, i), lambda: self.getitem(b, i))
        if i.op == "ite" and o.op in ("tuple", "alloc"):
            return ite(i.args[0], self.getitem(o, i.args[1]), self.getitem(o, i.args[2]))
        if o.op == "attr" and o.args[1] == "_optinfo" and is_const(i):
            return self.getattr(o.args[0], cval(i))
        if o.op == "tuple" and is_const(i) and isinstance(cval(i), int) and not any(x.op == "star" for x in o.args):
            k = cval(i)
            if -len(o.args) <= k < len(o.args):
                return o.args[k]
        if o.op == "tuple" and i.op == "slice" and all(is_const(x) for x in i.args) and not any(x.op == "star" for x in o.args):
            return mk("tuple", *o.args[slice(*[cval(x) for x in i.args])])
        if o.op == "alloc" and o in self.recs:
            rs = self.recs[o]
            if o.args[0] == "dict":
                if is_const(i):
                    best = None
                    for r in rs:
                        if r.op == "set" and r.key is i and not r.guards and not r.loops:
                            best = r.val
                        elif r.op != "set" or not is_const(r.key) or r.loops or r.guards:
                            best = None if r.op != "set" or not is_const(r.key) or r.key is i else best
                    if best is not None:
                        return best
                elif rs and all(r.op == "set" and is_const(r.key) and not r.guards and not r.loops for r in rs) and len(rs) <= 12:
                    v = mk("keyerror", i)
                    for r in rs[::-1]:
                        v = ite(cmp_("==", i, r.key), r.val, v)
                    return v
                if rs and len(rs) == 1 and rs[0].op == "set" and len(rs[0].loops) == 1 and not rs[0].guards and rs[0].key is i:
                    return rs[0].val
            elif o.args[0] in ("list", "tuple"):
                items = self._literal_items(o)
                if items is not None and is_const(i) and isinstance(cval(i), int) and -len(items) <= cval(i) < len(items):
                    return items[cval(i)]
        if i.op == "idx" and i.args[0] is self.strip(o):
            return mk("elem", self.strip(o))
        h = self.state.heap.get((o, ("item", i))) if o.op != "alloc" else None
        if h is not None:
            return h
        cls = self.type_of(o)
        if cls is not None:
            f = cls.find_method("__getitem__")
            if f is not None and not self.is_opaque(f):
                return self.inline(f, (o, i), (), self_t=o)
        t = mk("sub", o, i)
        self.emit("getitem", obj=o, name=i, res=t)
        return self.assume.get(t, t)

    def branch_value(self, c, fa, fb):
        v = self.implied(c)
        if v is not None:
            return fa() if v else fb()
        base = self.state
        self.state = base.copy()
        self.guard(c)
        a = fa()
        s1 = self.state
        self.state = base.copy()
        self.guard(not_(c))
        b = fb()
        s2 = self.state
        self.join(base, c, s1, s2)
        if s1.dead or s2.dead:
            return mk("never") if s1.dead and s2.dead else b if s1.dead else a
        return ite(c, a, b)

    def e_Tuple(self, e):
        return mk("tuple", *self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                items = self._literal_items(v)
                if items is not None:
                    out.extend(items)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        vals = self._elts(e.elts)
        t = self.alloc("list")
        for v in vals:
            if v.op == "star":
                self._extend(t, v.args[0])
            else:
                self.record(t, "append", None, v)
        return t

    def e_Set(self, e):
        vals = self._elts(e.elts)
        t = self.alloc("set")
        for v in vals:
            self.record(t, "append", None, v) if v.op != "star" else self._extend(t, v.args[0])
        return t

    def e_Dict(self, e):
        items = [(self.ev(k) if k is not None else None, self.ev(v)) for k, v in zip(e.keys, e.values)]
        t = self.alloc("dict")
        for k, v in items:
            if k is None:
                self._update(t, v)
            else:
                self.record(t, "set", k, v)
        return t

    def _update(self, t, v):
        v = self.refine(v)
        if v.op == "alloc" and v in self.recs and v.args[0] == "dict":
            for r in list(self.recs[v]):
                g0, l0 = self.alloc_ctx.get(t, (0, 0))
                self.seq += 1
                if t in self.recs:
                    self.recs[t].append(Rec(r.op, r.key, r.val, self.since(t) + r.guards,
                                            tuple(self.loops[l0:]) + r.loops, self.seq))
            return
        sv = self.strip(v)
        if sv.op == "call" and sv.args[0].op == "ext" and sv.args[0].args[0] == "zip" and len(sv.args[1]) == 2 and t in self.recs:
            el = self.elem(sv)
            g0, l0 = self.alloc_ctx[t]
            self.seq += 1
            self.recs[t].append(Rec("set", el.args[0], el.args[1], self.since(t), tuple(self.loops[l0:]) + (sv,), self.seq))
            return
        if sv.op == "call" and sv.args[0].op == "attr" and sv.args[0].args[1] == "items" and not sv.args[1]:
            return self._update(t, sv.args[0].args[0])
        if t in self.recs:
            k = mk("elem", sv)
            g0, l0 = self.alloc_ctx[t]
            self.seq += 1
            self.recs[t].append(Rec("set", k, mk("sub", sv, k), self.since(t), tuple(self.loops[l0:]) + (sv,), self.seq))

    def _extend(self, t, v):
        v = self.refine(v)
        if t not in self.recs:
            return
        g0, l0 = self.alloc_ctx[t]
        if v.op == "ite":
            for c, x in ((v.args[0], v.args[1]), (not_(v.args[0]), v.args[2])):
                st = self.state
                self.state = st.copy()
                self.guard(c)
                self._extend(t, x)
                self.state = st
            return
        if v.op == "tuple":
            for x in v.args:
                self.record(t, "append", None, x)
            return
        sv = self.strip(v)
        if sv.op == "alloc" and sv in self.recs and sv is not t and self._tag(v) is sv:
            for r in list(self.recs[sv]):
                self.seq += 1
                self.recs[t].append(Rec(r.op if r.op != "set" else "append", None, r.val if r.op != "set" else r.key,
                                        self.since(t) + r.guards, tuple(self.loops[l0:]) + r.loops, self.seq))
            return
        self.seq += 1
        tag = self._tag(v)
        el = self.elem(v) if tag is sv or sv.op != "alloc" else mk("elem", sv)
        self.recs[t].append(Rec("append", None, el, self.since(t), tuple(self.loops[l0:]) + (tag,), self.seq))

    def e_Starred(self, e):
        return mk("star", self.ev(e.value))

    def e_ListComp(self, e):
        return self.comp("list", e.elt, None, e.generators)

    def e_SetComp(self, e):
        return self.comp("set", e.elt, None, e.generators)

    def e_GeneratorExp(self, e):
        return self.comp("gen", e.elt, None, e.generators)

    def e_DictComp(self, e):
        return self.comp("dict", e.value, e.key, e.generators)

    def comp(self, kind, elt, key, gens):
        t = self.alloc(kind)
        outer = self.state
        env0 = dict(outer.env)
        loops0 = self.loops
        self.state = outer.copy()
        g0 = self.state.guards

        def go(i):
            if i == len(gens):
                if key is not None:
                    k = self.ev(key)
                    v = self.ev(elt)
                    self.record(t, "set", k, v)
                else:
                    self.record(t, "append", None, self.ev(elt))
                return
            g = gens[i]
            it = self.ev(g.iter)
            items = self._literal_items(it)
            if items is not None and 1 < len(items) <= 6 or (items is not None and len(items) == 1):
                for x in items:
                    st = self.state
                    self.state = st.copy()
                    self.assign(g.target, x)
                    for c in g.ifs:
                        self.guard(self.cond(c))
                    go(i + 1)
                    st2 = self.state
                    self.state = st
                    self.state.heap = st2.heap
                return
            src = self.strip(it)
            if self._tag(it) is src and src.op == "alloc" and src in self.recs and len(self.recs[src]) == 1 and self.recs[src][0].op == "append" and self.recs[src][0].loops:
                r = self.recs[src][0]       # comprehension over a comprehension: fuse
                self.loops = self.loops + r.loops
                for q in r.guards:
                    self.guard(q)
                self.assign(g.target, r.val)
                k = len(r.loops)
            else:
                self.loops = self.loops + (self._tag(it),)
                self.bind_iter(g.target, it)
                k = 1
            for c in g.ifs:
                self.guard(self.cond(c))
            go(i + 1)
            self.loops = self.loops[:len(self.loops) - k]
        go(0)
        self.loops = loops0
        heap = self.state.heap
        self.state = outer
        self.state.heap = heap
        self.state.env = env0
        return t

    def _tag(self, it):
        """what a loop ranges over; an order imposed on it is kept"""
        if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] in ("sorted", "reversed") and len(it.args[1]) == 1:
            return mk("call", it.args[0], (self.strip(it),), it.args[2])
        return self.strip(it)

    def e_Lambda(self, e):
        t = mk("closure", self.new_id(), "<lambda>")
        fake = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)],
                               decorator_list=[], returns=None, type_comment=None)
        ast.copy_location(fake, e)
        fi = FuncInfo(self.stack[-1].module, fake, cls=None)
        self.closures[t] = (fi, self.state.env, self.stack[-1])
        return t

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = [self.ev(e.values[0])]
        st = self.state
        saved = st.guards
        for x in e.values[1:]:
            c = self.as_cond(vals[-1])
            v = self.implied(c)
            if v is not None and v != isand:
                break       # short circuit decided
            self.guard(c if isand else not_(c))
            vals.append(self.ev(x))
        self.state.guards = saved
        r = vals[-1]
        conds = [self.as_cond(v) for v in vals]
        if all(v.op in ("cmp", "not", "and", "or", "isinstance", "nonempty", "any", "forall", "const", "raised", "hasattr")
               and (v.op != "const" or isinstance(cval(v), bool)) for v in vals):
            return and_(*conds) if isand else or_(*conds)
        # value semantics: a or b -> ite(a, a, b)
        for v, c in list(zip(vals, conds))[:-1][::-1]:
            r = ite(c, r, v) if isand else ite(c, v, r)
        return r

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.as_cond(v))
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool):
                return const(-cval(v))
            return mk("un", "-", v)
        if isinstance(e.op, ast.UAdd):
            return v if v.op == "const" else mk("un", "+", v)
        return mk("un", "~", v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.node = self.node
        return self.binop(BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        if op == "%" and (a.op == "str" or is_const(a) and isinstance(cval(a), str)):
            return self.percent(a, b)
        if op == "+":
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
            sa, sb = self._strparts(a), self._strparts(b)
            if sa is not None or sb is not None:
                if sa is not None and sb is not None or (a.op == "str" or b.op == "str" or is_const(a) or is_const(b)):
                    return self.mkstr((sa if sa is not None else [a]) + (sb if sb is not None else [b]))
            if a.op == "alloc" or b.op == "alloc" or a.op == "tuple" or b.op == "tuple":
                kind = a.args[0] if a.op == "alloc" else b.args[0] if b.op == "alloc" else "tuple"
                if kind in ("list", "tuple", "gen"):
                    t = self.alloc(kind)
                    self._extend(t, a)
                    self._extend(t, b)
                    return t
        if op == "*" and is_const(a) and not is_const(b) and b.op == "tuple":
            a, b = b, a
        if op == "*" and a.op == "tuple" and is_const(b) and isinstance(cval(b), int) and 0 <= cval(b) < 8:
            return mk("tuple", *(a.args * cval(b)))
        if a.op == "const" and b.op == "const":
            x, y = cval(a), cval(b)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                try:
                    return const({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y,
                                  "%": lambda: x % y}[op]())
                except Exception:
                    pass
        t = mk("bin", op, a, b)
        ca, cb = self.type_of(a), self.type_of(b)
        if ca is not None and ca.has_base("PhysArray") or cb is not None and cb.has_base("PhysArray"):
            self.emit("binop", obj=a, name=op, val=b, res=t)
        return t

    # strings
    def _strparts(self, t):
        if t.op == "str":
            return list(t.args)
        if is_const(t) and isinstance(cval(t), str):
            return [t]
        return None

    def mkstr(self, parts):
        out = []
        for p in parts:
            if p.op == "str":
                out.extend(p.args)
            elif is_const(p) and isinstance(cval(p), str) and out and is_const(out[-1]) and isinstance(cval(out[-1]), str):
                out[-1] = const(cval(out[-1]) + cval(p))
            elif is_const(p) and cval(p) == "":
                continue
            else:
                out.append(p)
        # merge adjacent constants
        res = []
        for p in out:
            if res and is_const(p) and isinstance(cval(p), str) and is_const(res[-1]) and isinstance(cval(res[-1]), str):
                res[-1] = const(cval(res[-1]) + cval(p))
            else:
                res.append(p)
        if not res:
            return const("")
        if len(res) == 1 and is_const(res[0]) and isinstance(cval(res[0]), str):
            return res[0]
        return mk("str", *res)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec)
                parts.append(self.fmtval(x, {-1: None, 115: None, 114: "r", 97: "a"}[v.conversion],
                                         cval(spec) if spec is not None and is_const(spec) else ("" if spec is None else "?")))
        return self.mkstr(parts)

    def fmtval(self, x, conv, spec):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "str" and len(x.args[1]) == 1:
            x = x.args[1][0]
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "repr" and len(x.args[1]) == 1:
            x, conv = x.args[1][0], "r"
        if conv == "r":
            return mk("repr", x)
        if spec:
            return mk("fmt", x, spec)
        if x.op == "const" and isinstance(cval(x), (int, str)) and not isinstance(cval(x), bool):
            return const(str(cval(x)))
        return x

    def percent(self, a, b):
        if not is_const(a):
            return mk("bin", "%", a, b)
        import re
        s = cval(a)
        vals = list(b.args) if b.op == "tuple" else [b]
        parts, pos, k = [], 0, 0
        for m in re.finditer(r"%([-#0 +]*\d*(?:\.\d+)?)([sdrifgxe%])", s):
            parts.append(const(s[pos:m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                parts.append(const("%"))
                continue
            if k >= len(vals):
                return mk("bin", "%", a, b)
            parts.append(self.fmtval(vals[k], "r" if m.group(2) == "r" else None, m.group(1) + m.group(2) if m.group(1) else ""))
            k += 1
        parts.append(const(s[pos:]))
        return self.mkstr(parts)

    def format(self, s, args, kw):
        import string
        parts, auto = [], 0
        kwd = dict(kw)
        if any(a.op == "star" for a in args):
            return None
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                name, rest = field, ""
                for i, ch in enumerate(field):
                    if ch in ".[":
                        name, rest = field[:i], field[i:]
                        break
                if name == "":
                    x = args[auto]
                    auto += 1
                elif name.isdigit():
                    x = args[int(name)]
                else:
                    x = kwd[name]
                while rest.startswith("."):
                    nm = rest[1:].split(".")[0].split("[")[0]
                    x = self.getattr(x, nm)
                    rest = rest[1 + len(nm):]
                if rest:
                    return None
                parts.append(self.fmtval(x, conv if conv == "r" else None, spec))
        except (IndexError, KeyError, ValueError):
            return mk("badformat", const(s), tuple(args))
        return self.mkstr(parts)

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            rr = right
            if isinstance(op, (ast.In, ast.NotIn)):
                items = self._literal_items(right)
                if items is not None and len(items) <= 12:
                    rr = mk("tuple", *items)
                elif right.op == "alloc" and right.args[0] == "dict" and self.recs.get(right) and \
                        all(x.op == "set" and is_const(x.key) and not x.guards and not x.loops for x in self.recs[right]):
                    rr = mk("tuple", *[x.key for x in self.recs[right]])
                else:
                    rr = self.strip(right)
                if rr.op == "attr" and False:
                    pass
            c = self._cmp(CMP[type(op)], left, rr)
            out.append(c)
            left = right
        return and_(*out)

    def _cmp(self, op, a, b):
        if a.op == "ite" and b.op == "const":
            return ite(a.args[0], self._cmp(op, a.args[1], b), self._cmp(op, a.args[2], b))
        neg = {"!=": "==", "is not": "is", "not in": "in"}.get(op)
        if neg:
            return not_(self._cmp(neg, a, b))
        c = cmp_(op, a, b)
        return self.assume.get(c, c)

    def e_IfExp(self, e):
        c = self.cond(e.test)
        return self.branch_value(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.emit("yield", val=v)
        self.stack[-1].yields.append((self.state.guards, v))
        return mk("sent")

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        self.emit("yield", val=mk("star", v))
        return mk("sent")

    def e_Await(self, e):
        return self.ev(e.value)

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in self.state.env:
            return self._super(e)
        ft = self.ev(f)
        args = self._elts(e.args)
        kw = []
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v.op == "alloc" and v in self.recs and all(r.op == "set" and is_const(r.key) and isinstance(cval(r.key), str)
                                                              and not r.guards and not r.loops for r in self.recs[v]):
                    kw.extend((cval(r.key), r.val) for r in self.recs[v])
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        node = self.node
        self.node = e
        r = self.call(ft, tuple(args), tuple(kw))
        self.node = node
        return self.refine(r)

    def _super(self, e):
        fr = self.stack[-1]
        f = fr
        if e.args:
            c = self.ev(e.args[0])
            s = self.ev(e.args[1]) if len(e.args) > 1 else None
            if c.op == "class":
                return mk("superobj", c.args[0], s)
            return mk("superobj", fr.cls, s)
        fn = fr.fn
        cls = fn.cls
        first = fn.params()[0] if fn.params() else None
        return mk("superobj", cls, self.state.env.get(first, SELF))

    def call(self, ft, args, kw):
        ft = self.refine(ft)
        o = ft.op
        if o == "ite":
            c, a, b = ft.args
            return self.branch_value(c, lambda: self.call(a, args, kw), lambda: self.call(b, args, kw))
        if o == "func":
            fn = ft.args[0]
            if fn.is_property:
                pass
            return self.inline(fn, args, kw, ft=ft)
        if o == "bound":
            return self.inline(ft.args[1], (ft.args[0],) + args, kw, self_t=ft.args[0], ft=ft)
        if o == "closure":
            fi, env, fr = self.closures[ft]
            return self.inline(fi, args, kw, closure=(env, fr), ft=ft)
        if o == "class":
            return self.construct(ft, args, kw)
        if o == "supermeth":
            cls, name, self_t = ft.args
            t = mk("supercall", cls, name, self_t, args, kw)
            self.types[t] = self.type_of(self_t)
            if cls is not None and not cls.has_base("PhysArray"):
                self.types.pop(t)
            self.emit("call", f=ft, args=args, kw=kw, res=t)
            if name.startswith("__i") and name in self.INPLACE.values():
                k = (self_t, "@data")
                self.state.heap[k] = mk("superop", name, self.state.heap.get(k, mk("data0", self_t)), args)
            return t
        if o == "ext":
            r = self.ext_call(ft.args[0], args, kw, ft)
            if r is not None:
                return r
        if o == "attr":
            r = self.meth_call(ft, args, kw)
            if r is not None:
                return r
        if o == "partial":
            return self.call(ft.args[0], ft.args[1] + args, ft.args[2] + kw)
        cls = self.type_of(ft)
        if cls is not None:
            f = cls.find_method("__call__")
            if f is not None:
                return self.inline(f, (ft,) + args, kw, self_t=ft, ft=ft)
        t = mk("call", ft, args, kw)
        self.emit("call", f=ft, args=args, kw=kw, res=t)
        return self.assume.get(t, t)

    def construct(self, ft, args, kw):
        c = ft.args[0]
        t = mk("new", c.qual, args, kw, self.new_id())
        self.emit("call", f=ft, args=args, kw=kw, res=t)
        if c.name in self.inline_ctors or c.qual in self.inline_ctors or "*" in self.inline_ctors and not c.has_base("PhysArray"):
            f = c.find_method("__init__")
            if f is not None:
                self.inline(f, (t,) + args, kw, self_t=t)
        if c.has_base("PhysArray"):
            # metadata is fixed at construction time
            for n in ("units", "name", "dimensions", "positive"):
                v = self.attr_model(t, n)
                if v is not None:
                    self.state.heap[(t, n)] = v
            src = args[0] if args else dict(kw).get("indata")
            if src is not None and (src, "@data") in self.state.heap:
                self.state.heap[(t, "@data")] = self.state.heap[(src, "@data")]
        if c.name == "namedtuple":
            pass
        return t

    def inline(self, fn, args, kw, self_t=None, closure=None, ft=None):
        fterm = ft if ft is not None else mk("func", fn)
        rec = sum(1 for f in self.stack if f.fn is not None and f.fn.node is fn.node)
        isgen = self._is_gen(fn)
        if self.is_opaque(fn) or rec >= 1 and (rec >= 2 or len(self.stack) > 3 and rec >= 1) or len(self.stack) > self.maxdepth or isgen \
                or any(a.op == "star" for a in args) and not fn.node.args.vararg or any(k == "**" for k, _ in kw) and not fn.node.args.kwarg:
            if fterm.op == "bound":
                callee = attr(fterm.args[0], fterm.args[1].name)
                t = mk("call", callee, args[1:], kw)
            elif self_t is not None and fn.cls is not None:
                callee = attr(self_t, fn.name)
                t = mk("call", callee, args[1:], kw)
                args = args[1:]
            else:
                callee = fterm
                t = mk("call", callee, args, kw)
            if fterm.op == "bound":
                args = args[1:]
            self.emit("call", f=callee, args=args, kw=kw, res=t)
            if fn.name in self.ret_types:
                self.types[t] = self.ret_types[fn.name]
            if fn.name in self.summaries and callee.op == "attr":
                r = self.summaries[fn.name](self, callee.args[0], args, kw, t)
                if r is not None:
                    return r
            return self.assume.get(t, t)
        if not fn.is_property:
            e = self.emit("enter", f=fterm, args=args, kw=kw, name=fn.qual)
        else:
            e = None
        self.functions.add(fn.qual)
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        pos = list(args)
        if fn.is_classmethod and fn.cls is not None and (not pos or pos[0].op != "class"):
            pos = [mk("class", fn.cls)] + pos
        if fn.is_static and fterm.op == "bound":
            pos = pos[1:]
        for p in params:
            if pos and pos[0].op != "star":
                bound[p] = pos.pop(0)
            else:
                break
        if a.vararg:
            bound[a.vararg.arg] = mk("tuple", *pos) if not (len(pos) == 1 and pos[0].op == "star") else pos[0].args[0]
        extra = []
        for k, v in kw:
            if k in params + [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            else:
                extra.append((k, v))
        saved_state_env = self.state.env
        ndef = len(a.defaults)
        defs = dict(zip([x.arg for x in (a.posonlyargs + a.args)][-ndef:] if ndef else [], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        fr = Frame(fn, fn.module, fn.cls)
        if closure is not None:
            fr.closure_env = closure
        outer_node = self.node
        self.stack.append(fr)
        self.state.env = {}
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in bound:
                if p in defs:
                    if isinstance(defs[p], ast.Constant):
                        bound[p] = const(defs[p].value)
                    else:
                        dv = self.ev(defs[p])
                        if dv.op == "alloc":
                            dkey = ("default", fn.qual, p)
                            if dkey not in self.gcache:
                                self.gcache[dkey] = dv
                            elif self.gcache[dkey] not in self.recs:
                                self.gcache[dkey] = dv
                            dv = self.gcache[dkey]
                        bound[p] = dv
                else:
                    bound[p] = mk("missing", p)
        if a.kwarg:
            t = self.alloc("dict")
            for k, v in extra:
                if k == "**":
                    self._update(t, v)
                else:
                    self.record(t, "set", const(k), v)
            bound[a.kwarg.arg] = t
        self.state.env = bound
        base_guards = self.state.guards
        ctx0, loops0 = self.ctx, self.loops
        if isinstance(fn.node, ast.Lambda):
            v = self.ev(fn.node.body)
            fr.returns.append((self.state.copy(), v))
            self.state.dead = True
        else:
            self.block(fn.node.body)
        if not self.state.dead:
            fr.returns.append((self.state, NONE))
        self.ctx, self.loops = ctx0, loops0
        dead_state = self.state
        val, st = self._fold_returns(fr.returns, dead_state)
        st.env = saved_state_env
        st.left = False
        self.state = st
        self.stack.pop()
        self.node = outer_node
        if e is not None:
            e.res = val
        return val

    def _is_gen(self, fn):
        g = getattr(fn, "_isgen", None)
        if g is None:
            g = False
            todo = list(fn.node.body) if isinstance(fn.node.body, list) else []
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            fn._isgen = g
        return g

    # ---------------------------------------------------------------- models of builtins
    def ext_call(self, name, args, kw, ft):
        n = len(args)
        base = name.split(".")[-1]
        star = any(a.op == "star" for a in args)
        if name in ("len",) and n == 1:
            x = self.strip(args[0])
            items = self._literal_items(x) if x.op != "alloc" or not self.quiet else None
            if x.op == "tuple" and items is not None:
                return const(len(items))
            return mk("len", x)
        if name == "isinstance" and n == 2:
            t = mk("isinstance", args[0], self._types_tuple(args[1]))
            if args[0].op == "ite":
                a = args[0]
                return ite(a.args[0], self.ext_call(name, (a.args[1], args[1]), kw, ft), self.ext_call(name, (a.args[2], args[1]), kw, ft))
            if args[0].op == "const":
                v = self._const_isinstance(cval(args[0]), args[1])
                if v is not None:
                    return TRUE if v else FALSE
            t = self.assume.get(t, t)
            v = self.implied(t)
            return t if v is None else (TRUE if v else FALSE)
        if name == "bool" and n == 1:
            c = self.as_cond(args[0])
            v = truth(c)
            if v is not None:
                return TRUE if v else FALSE
            if c.op in ("cmp", "not", "and", "or", "isinstance", "nonempty", "any", "forall"):
                return c
            return mk("call", ft, args, kw)
        if name in ("tuple", "list", "set", "frozenset", "dict", "collections.OrderedDict", "sorted", "collections.defaultdict"):
            return self.coll_call(name, args, kw, ft)
        if name in ("any", "all") and n == 1:
            x = self.strip(args[0])
            if x.op == "alloc" and x in self.recs and not star:
                rs = self.recs[x]
                cs = []
                for r in rs:
                    if r.op != "append":
                        return None
                    c = self.as_cond(r.val)
                    c = and_(*(list(r.guards) + [c])) if name == "any" else or_(*([not_(g) for g in r.guards] + [c]))
                    for l in r.loops[::-1]:
                        c = mk("any" if name == "any" else "forall", l, c)
                    cs.append(c)
                return or_(*cs) if name == "any" else and_(*cs)
            if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "map":
                c = self.as_cond(self.call(x.args[1][0], (self.elem(x.args[1][1]),), ()))
                return mk("any" if name == "any" else "forall", self.strip(x.args[1][1]), c)
            return None
        if name == "map" and n == 2:
            t = self.alloc("gen")
            self.loops = self.loops + (self._tag(args[1]),)
            st = self.state
            self.state = st.copy()
            v = self.call(args[0], (self.elem(args[1]),), ())
            self.record(t, "append", None, v)
            heap = self.state.heap
            self.state = st
            self.state.heap = heap
            self.loops = self.loops[:-1]
            return t
        if name == "filter" and n == 2:
            t = self.alloc("gen")
            self.loops = self.loops + (self._tag(args[1]),)
            st = self.state
            self.state = st.copy()
            el = self.elem(args[1])
            if not is_const(args[0], None):
                self.guard(self.as_cond(self.call(args[0], (el,), ())))
            else:
                self.guard(self.as_cond(el))
            self.record(t, "append", None, el)
            self.state = st
            self.loops = self.loops[:-1]
            return t
        if name == "getattr" and n >= 2 and is_const(args[1]):
            if n == 2:
                return self.getattr(args[0], cval(args[1]))
            v = self.getattr(args[0], cval(args[1]))
            if self.type_of(args[0]) is not None or v.op not in ("attr",):
                return v
            return mk("getattr", args[0], args[1], args[2])
        if name == "setattr" and n == 3 and is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2])
            return NONE
        if name == "str" and n == 1 and not kw:
            x = args[0]
            if x.op == "str" or is_const(x) and isinstance(cval(x), str):
                return x
            if is_const(x):
                return const(str(cval(x)))
            if x.op == "attr" and x.args[1] == "name":
                return x
            cls = self.type_of(x)
            if cls is not None and cls.has_base("PhysArray"):
                return self.getattr(x, "name")
            return mk("call", ft, args, kw)
        if name == "slice":
            a = list(args) + [NONE] * 3
            if n == 1:
                return mk("slice", NONE, a[0], NONE)
            if 1 < n <= 3 and not star:
                return mk("slice", a[0], a[1], a[2])
            return None
        if name == "type" and n == 1:
            c = self.type_of(args[0])
            if c is not None and args[0].op != "self":
                return mk("class", c)
            return mk("typeof", args[0])
        if name == "issubclass" and n == 2 and args[0].op == "class" and args[1].op == "class":
            return TRUE if args[0].args[0].has_base(args[1].args[0].name) else FALSE
        if name.startswith("operator."):
            if base in OPER and n == 2:
                return self.binop(OPER[base], args[0], args[1])
            if base in OPCMP and n == 2:
                return cmp_(OPCMP[base], args[0], args[1])
            if base == "neg" and n == 1:
                return mk("un", "-", args[0])
            if base == "not_" and n == 1:
                return not_(self.as_cond(args[0]))
            if base == "contains" and n == 2:
                return cmp_("in", args[1], args[0])
            if base == "getitem" and n == 2:
                return self.getitem(args[0], args[1])
        if name == "functools.partial" and n >= 1:
            return mk("partial", args[0], args[1:], kw)
        if name in ("int", "float") and n == 1 and is_const(args[0]) and isinstance(cval(args[0]), (int, float)):
            return const({"int": int, "float": float}[name](cval(args[0])))
        if name in ("sys.exit", "exit", "quit", "os._exit"):
            self.emit("call", f=ft, args=args, kw=kw, res=mk("never"))
            self.emit("exit", val=args[0] if args else NONE)
            self.state.dead = True
            return mk("never")
        if name in ("copy.copy", "copy.deepcopy") and n >= 1:
            t = mk("call", ft, args, kw)
            self.emit("call", f=ft, args=args, kw=kw, res=t)
            if base == "deepcopy" or True:
                return t
        return None

    def _types_tuple(self, t):
        if t.op == "alloc":
            items = self._literal_items(t)
            if items:
                t = mk("tuple", *items)
        if t.op == "tuple":
            return mk("tuple", *sorted(t.args, key=lambda x: show(x))) if len(t.args) > 1 else t.args[0]
        return t

    def _const_isinstance(self, v, t):
        ts = t.args if t.op == "tuple" else (t,)
        py = {"str": str, "int": int, "float": float, "list": list, "tuple": tuple, "dict": dict, "slice": slice, "bool": bool,
              "bytes": bytes, "set": set, "complex": complex, "numbers.Number": (int, float)}
        out = False
        for x in ts:
            if x.op == "ext" and x.args[0] in py:
                out = out or isinstance(v, py[x.args[0]])
            elif x.op in ("class", "ext"):
                continue
            else:
                return None
        return out

    def coll_call(self, name, args, kw, ft):
        kind = COLL_NEW.get(name, name)
        if name == "sorted":
            by = dict(kw).get("key")
            if by is not None and by.op in ("closure", "func", "bound") and len(args) == 1:
                saved, self.state = self.state, self.state.copy()
                self.quiet += 1
                self.keyed[by, args[0]] = self.call(by, (self.elem(args[0]),), ())
                self.quiet -= 1
                self.state = saved
            self.emit("order", f=ft, args=tuple(args), kw=tuple(kw))
            return mk("call", ft, args, kw)
        if name == "collections.defaultdict":
            args = args[1:]
        if not args and kind != "tuple":
            t = self.alloc(kind)
            for k, v in kw:
                if k == "**":
                    self._update(t, v)
                else:
                    self.record(t, "set", const(k), v)
            return t
        if not args:
            return mk("tuple")
        if len(args) != 1 or args[0].op == "star":
            return None
        x = self.refine(args[0])
        if x.op == "ite":
            return self.branch_value(x.args[0], lambda: self.coll_call(name, (x.args[1],), kw, ft), lambda: self.coll_call(name, (x.args[2],), kw, ft))
        if kind == "tuple":
            items = self._literal_items(x)
            if items is not None and not self.quiet:
                return mk("tuple", *items)
            if x.op == "tuple":
                return x
            if x.op == "alloc" and x in self.recs and x.args[0] in ("gen", "list", "tuple", "set"):
                t = self.alloc("tuple")
                self._extend(t, x)
                return t
            return mk("call", mk("ext", "tuple"), (x,), ())
        if kind == "dict":
            t = self.alloc("dict")
            y = self.strip(x)
            if y.op == "alloc" and y in self.recs and y.args[0] != "dict":
                for r in list(self.recs[y]):
                    kv = self._unpack(r.val, 2) if r.op == "append" and r.val is not None else None
                    if kv is None:
                        return mk("call", ft, args, kw)
                    self.seq += 1
                    self.recs[t].append(Rec("set", kv[0], kv[1], r.guards, r.loops, self.seq))
            elif y.op == "alloc" and y in self.recs:
                self._update(t, y)
            elif y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] == "zip":
                el = self.elem(y)
                self.recs[t].append(Rec("set", el.args[0], el.args[1], (), (y,), self.seq))
            elif y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] == "items":
                self._update(t, y.args[0].args[0])
            else:
                self._update(t, y)
            for k, v in kw:
                self.record(t, "set", const(k), v)
            return t
        t = self.alloc(kind)
        self._extend(t, x)
        return t

    def meth_call(self, ft, args, kw):
        o, m = ft.args
        n = len(args)
        if m == "format" and (is_const(o) and isinstance(cval(o), str)):
            r = self.format(cval(o), args, kw)
            if r is not None:
                return r
        if m == "join" and n == 1 and is_const(o) and isinstance(cval(o), str):
            x = args[0]
            items = self._literal_items(self.strip(x))
            if items is not None:
                parts = []
                for i, it in enumerate(items):
                    if i:
                        parts.append(o)
                    parts.append(it)
                return self.mkstr(parts)
            return mk("join", o, x)
        if o.op == "alloc" and o in self.recs and m in MUTATORS:
            self.emit("call", f=ft, args=args, kw=kw, res=NONE)
            kind = o.args[0]
            if m in ("append", "add") and n == 1:
                self.record(o, "append", None, args[0])
                return NONE
            if m in ("extend",) and n == 1:
                self._extend(o, args[0])
                return NONE
            if m == "update":
                for a in args:
                    if kind == "set":
                        self._extend(o, a)
                    else:
                        y = self.strip(a)
                        if y.op == "alloc" and y.args[0] in ("gen", "list") and y in self.recs:
                            for r in list(self.recs[y]):
                                kv = self._unpack(r.val, 2)
                                if kv:
                                    g0, l0 = self.alloc_ctx[o]
                                    self.seq += 1
                                    self.recs[o].append(Rec("set", kv[0], kv[1], self.since(o) + r.guards,
                                                            tuple(self.loops[l0:]) + r.loops, self.seq))
                        else:
                            self._update(o, a)
                for k, v in kw:
                    self.record(o, "set", const(k), v)
                return NONE
            if m == "insert" and n == 2:
                self.record(o, "insert", args[0], args[1])
                return NONE
            if m == "setdefault" and n >= 1:
                d = args[1] if n > 1 else NONE
                self.record(o, "setdefault", args[0], d)
                return mk("setdefault", o, args[0], d)
            if m in ("remove", "discard", "pop", "clear", "popitem"):
                self.record(o, "del", args[0] if args else None, None)
                return mk("popped", o, args)
            self.record(o, m, None, None)
            return NONE
        if m == "get" and n in (1, 2) and not kw:
            d = args[1] if n == 2 else NONE
            cls = self.type_of(o)
            if cls is None:
                if o.op == "alloc" and o.args[0] == "dict" and self.recs.get(o) and is_const(args[0]):
                    v = self.getitem(o, args[0])
                    if v.op != "sub":
                        return v
                if o.op == "alloc" and o.args[0] == "dict" and self.recs.get(o) is not None and \
                        all(r.op == "set" and is_const(r.key) and not r.guards and not r.loops for r in self.recs[o]) and len(self.recs[o]) <= 12:
                    if is_const(args[0]) and not any(r.key is args[0] for r in self.recs[o]):
                        return d
                    v = d
                    for r in self.recs[o][::-1]:
                        v = ite(cmp_("==", args[0], r.key), r.val, v)
                    return v
                c = cmp_("in", args[0], self.strip(o))
                c = self.assume.get(c, c)
                # d.get(k, x)  ==  d[k] if k in d else x
                guards = self.state.guards
                self.state.guards = tuple(guards) + (c,)
                v = self.getitem(o, args[0])
                self.state.guards = guards
                return self.refine(ite(c, v, d))
        if m in ("keys", "items", "values") and n == 0:
            t = mk("call", ft, args, kw)
            return t
        if o.op == "const" and isinstance(cval(o), str) and not kw and all(a.op == "const" for a in args) \
                and m in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace"):
            try:
                r = getattr(cval(o), m)(*[cval(a) for a in args])
                if isinstance(r, (str, bool)):
                    return const(r)
                if isinstance(r, list):
                    return self.alloc("list", [("append", None, const(x)) for x in r])
            except Exception:
                pass
        cls = self.type_of(o)
        if cls is not None and cls.has_base("PhysArray") and m in ("copy", "astype"):
            t = mk("call", ft, args, kw)
            self.emit("call", f=ft, args=args, kw=kw, res=t)
            self.derive(t, o, cls)
            return t
        return None

    # ---------------------------------------------------------------- physical arrays
    def data(self, o):
        return self.state.heap.get((o, "@data"), mk("data0", o))

    def derive(self, t, src, cls=None, data=None, **over):
        """t: a new physical array with the metadata of src except for those given, and data a term over the data of src"""
        self.types[t] = cls or self.type_of(src)
        for n in ("units", "name", "dimensions", "positive"):
            v = over[n] if n in over else self.getattr(src, n)
            if v is not None:
                self.state.heap[(t, n)] = v
        self.state.heap[(t, "@data")] = data if data is not None else self.data(src)
