"""Values of terms in abstract worlds: given values for some terms (inputs, collections), what every condition and selection built on them is."""
import itertools
import math
from bisect import bisect_right
from functools import cmp_to_key

from .q import is_call, name_of
from .terms import cval, is_const, mk, not_, show


class Unknown(Exception):
    pass


class Wrong(Exception):
    """evaluating raises: a missing key, an index out of range, a name without value"""


def parts(args):
    """the terms directly below"""
    for x in args:
        if hasattr(x, "op"):
            yield x
        elif isinstance(x, (tuple, list)):
            yield from parts(x)


class Tok:
    """some value of which only the identity is known"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


class Made:
    """an object made by a call, with the values it was made from"""

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join([repr(a) for a in self.args] + ["%s=%r" % kv for kv in sorted(self.kw.items())]))

    def __eq__(self, o):
        return isinstance(o, Made) and repr(self) == repr(o)

    __hash__ = None


TYPES = {"str": str, "int": int, "float": float, "bool": bool, "complex": complex, "dict": dict, "list": list, "tuple": tuple, "set": set, "NoneType": type(None),
         "string_types": str, "basestring": str, "unicode": str, "integer_types": int, "Integral": int, "OrderedDict": dict, "slice": slice, "ellipsis": type(Ellipsis),
         "Sequence": (str, list, tuple), "Mapping": dict, "MutableMapping": dict, "Iterable": (str, list, tuple, dict, set), "Number": (int, float, complex), "Real": (int, float), "Set": (set, frozenset),
         "frozenset": frozenset, "bytes": bytes}
STRMETH = {"capitalize": str.capitalize, "strip": str.strip, "lower": str.lower, "upper": str.upper, "split": str.split, "lstrip": str.lstrip, "rstrip": str.rstrip,
           "startswith": str.startswith, "endswith": str.endswith, "replace": str.replace, "join": str.join, "isspace": str.isspace,
           "partition": str.partition, "rpartition": str.rpartition, "find": str.find, "count": str.count, "rsplit": str.rsplit, "isdigit": str.isdigit,
           "rfind": str.rfind, "index": str.index, "rindex": str.rindex, "title": str.title, "isalpha": str.isalpha, "isalnum": str.isalnum, "splitlines": str.splitlines,
           "removesuffix": str.removesuffix, "removeprefix": str.removeprefix, "zfill": str.zfill}
CMP = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y,
       ">=": lambda x, y: x >= y, "is": lambda x, y: x is y if x is None or isinstance(x, (bool, Tok)) else x == y and type(x) is type(y)}


class World:
    """env: term -> value.  made: constructors to turn into Made.  calls: name -> function of evaluated arguments."""

    def __init__(self, env, calls=(), attrs=None, sets=False):
        self.env, self.calls, self.attrs = dict(env), dict(calls), attrs or {}
        self.sets = sets

    def holds(self, t, env=None):
        return self.truthy(self.ev(t, self.env if env is None else env))

    @staticmethod
    def truthy(v):
        if isinstance(v, Tok):
            raise Unknown("truth of %r" % v)
        return True if isinstance(v, Made) else bool(v)

    def ev(self, t, env=None):
        env = self.env if env is None else env
        go = lambda x: self.ev(x, env)
        if t in env:
            return env[t]
        o, a = t.op, t.args
        if o == "const":
            return cval(t)
        if o == "tuple":
            return tuple(go(x) for x in a)
        if o == "not":
            return not self.truthy(go(a[0]))
        if o == "and":
            # an undecided part does not matter where another is false
            und = None
            for x in a:
                try:
                    if not self.truthy(go(x)):
                        return False
                except (Unknown, Wrong) as u:
                    und = u
            if und:
                raise und
            return True
        if o == "or":
            und = None
            for x in a:
                try:
                    if self.truthy(go(x)):
                        return True
                except (Unknown, Wrong) as u:
                    und = u
            if und:
                raise und
            return False
        if o == "ite":
            return go(a[1]) if self.truthy(go(a[0])) else go(a[2])
        if o == "keyerror":
            raise Wrong("KeyError: %s" % show(a[0] if a else t, 2))
        if o == "last":
            if a[0].op == "while":
                raise Unknown(show(t, 3))
            ts = self.turns(a[0], {k: v for k, v in env.items() if k != mk("elem", a[0])})
            if not ts:
                raise Wrong("UnboundLocalError")
            return self.ev(a[1], ts[-1])
        if o == "unbound":
            raise Wrong("no value for %s" % a[0])
        if o == "nonempty" or o == "len":
            v = go(a[0])
            if isinstance(v, (Tok, Made)) or not hasattr(v, "__len__"):
                raise Unknown(show(t, 3))
            return len(v) > 0 if o == "nonempty" else len(v)
        if o == "isinstance":
            v = go(a[0])
            if isinstance(v, (Tok, Made)):
                raise Unknown(show(t, 3))
            names = self.typenames(a[1])
            return any(isinstance(v, TYPES[n]) for n in names)
        if o == "cmp":
            return self.compare(a[0], go(a[1]), go(a[2]))
        if o == "sub":
            return self.item(go(a[0]), a[1], env)
        if o in ("str", "join"):
            return self.text(t, env)
        if o == "repr":
            return repr(go(a[0])) if a else Tok("repr")
        if o == "coll":
            return self.coll(t, env)
        if o in ("any", "forall"):
            for e in self.turns(a[0], env):
                if self.truthy(self.ev(a[1], e)) == (o == "any"):
                    return o == "any"
            return o == "forall"
        if o == "loop":
            acc = go(a[1])
            for e in self.turns(a[0], env):
                e[a[3]] = acc
                acc = self.ev(a[2], e)
            return acc
        if o == "bin":
            return self.arith(a[0], go(a[1]), go(a[2]))
        if o in ("un", "neg"):
            v = go(a[-1])
            if isinstance(v, (int, float)):
                return -v
        if o == "attr" and a[1] in ("start", "stop", "step"):
            v = go(a[0])
            if isinstance(v, slice):
                return getattr(v, a[1])
        if o == "attr":
            v = go(a[0])
            if isinstance(v, Made):
                f = self.attrs.get((v.name, a[1]))
                if f is not None:
                    return f(v)
            elif isinstance(v, Tok):
                f = self.attrs.get((v.name, a[1]))
                if f is not None:
                    return f(v)
        if o == "new":
            return self.make(a[0].split(".")[-1], a[1], a[2], env)
        if o == "call":
            return self.call(t, env)
        if o == "class":
            return Tok("class " + a[0].name)
        raise Unknown(show(t, 3))

    def typenames(self, t):
        out = []
        for x in t.args if t.op == "tuple" else (t,):
            n = x.args[0] if x.op in ("ext", "const") else x.args[1] if x.op == "attr" else None
            n = getattr(n, "name", n)
            n = n.split(".")[-1] if isinstance(n, str) else None
            if n not in TYPES:
                raise Unknown("type %s" % show(x, 3))
            out.append(n)
        return out

    def compare(self, op, x, y):
        if op == "not in":
            return not self.compare("in", x, y)
        if op == "is not":
            return not self.compare("is", x, y)
        if op == "in":
            if isinstance(y, (Tok, Made)):
                raise Unknown("in %r" % y)
            if isinstance(x, Tok) and isinstance(y, str):
                raise Unknown("%r in text" % x)
            try:
                return x in y
            except TypeError:
                raise Wrong("%r in %r" % (x, y))
        if op not in CMP:
            raise Unknown(op)
        if isinstance(x, Tok) and isinstance(y, Tok) and x is not y or isinstance(x, Tok) != isinstance(y, Tok) and not (x is None or y is None) and \
                op not in ("is",):
            if op in ("==", "!=") and isinstance(x, Tok) and isinstance(y, Tok):
                return op == "!="
            raise Unknown("%r %s %r" % (x, op, y))
        try:
            return CMP[op](x, y)
        except TypeError:
            raise Wrong("%r %s %r" % (x, op, y))

    def item(self, b, i, env):
        if i.op == "slice":
            lo, hi, st = [self.ev(x, env) for x in i.args]
            i = slice(lo, hi, st)
        else:
            i = self.ev(i, env)
        if isinstance(b, (Tok, Made)):
            raise Unknown("%r[%r]" % (b, i))
        try:
            return b[i]
        except (KeyError, IndexError) as x:
            raise Wrong("%s: %r" % (type(x).__name__, i))
        except TypeError as x:
            raise Wrong(str(x))

    def text(self, t, env):
        out = []
        for x in t.args[0] if t.args and isinstance(t.args[0], tuple) else t.args:
            if isinstance(x, str):
                out.append(x)
                continue
            if not hasattr(x, "op"):
                out.append("?")
                continue
            try:
                v = self.ev(x, env)
                out.append(v if isinstance(v, str) else str(v))
            except Unknown:
                out.append("?")
        return "".join(out) or "?"

    def arith(self, op, x, y):
        if isinstance(x, (Tok, Made)) or isinstance(y, (Tok, Made)):
            raise Unknown("%r %s %r" % (x, op, y))
        try:
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "%" and isinstance(x, (int, float)):
                return x % y
            if op == "//":
                return x // y
            if op == "/":
                return x / y
            if op in ("&", "|", "^"):
                return {"&": x & y, "|": x | y, "^": x ^ y}[op]
        except ZeroDivisionError as z:
            raise Wrong(str(z))
        except TypeError as z:
            raise Wrong(str(z))
        raise Unknown("operator %s" % op)

    def kws(self, kw, env):
        out = {}
        for k, v in kw:
            if k == "**":
                d = self.ev(v, env)
                if not isinstance(d, dict):
                    raise Unknown("**%r" % (d,))
                out.update(d)
            else:
                out[k] = self.ev(v, env)
        return out

    def values(self, args, env):
        out = []
        for x in args:
            if x.op == "star":
                v = self.ev(x.args[0], env)
                if not isinstance(v, (list, tuple)):
                    raise Unknown("*%r" % (v,))
                out += v
            else:
                out.append(self.ev(x, env))
        return out

    def soft(self, t, env):
        """a value, or a token for one that is not understood"""
        try:
            return self.ev(t, env)
        except Unknown:
            return Tok(show(t, 3))

    def make(self, name, args, kw, env):
        return Made(name, [self.soft(x, env) for x in args if x.op != "star"], {k: v for k, v in self.kws(kw, env).items()})

    def call(self, t, env):
        f, args, kw = t.args[0], t.args[1], t.args[2] if len(t.args) > 2 else ()
        name = name_of(f)
        if name is None:
            raise Unknown(show(t, 3))
        name = name.split(".")[-1]
        if name in self.calls:
            recv = [self.ev(f.args[0], env)] if f.op == "attr" else []
            given = recv + [self.soft(x, env) for x in args]
            try:
                return self.calls[name](*given, **self.kws(kw, env))
            except (LookupError, TypeError, ValueError, AttributeError) as x:
                raise Unknown("%s of %r: %r" % (name, given, x))
        if f.op == "attr":
            v = self.ev(f.args[0], env)
            xs = [self.ev(x, env) for x in args]
            if isinstance(v, str) and name in STRMETH:
                try:
                    return STRMETH[name](v, *xs)
                except (ValueError, TypeError) as x:
                    raise Wrong(str(x))
            if isinstance(v, str) and name == "format":
                return v
            if isinstance(v, dict):
                if name == "get":
                    return v.get(xs[0], xs[1] if len(xs) > 1 else None)
                if name in ("keys", "values"):
                    return list(getattr(v, name)())
                if name == "items":
                    return [tuple(i) for i in v.items()]
                if name == "copy":
                    return dict(v)
            if isinstance(v, (set, frozenset)) and name in ("issubset", "issuperset", "union", "difference", "intersection"):
                return getattr(v, name)(*xs)
            if isinstance(v, (list, tuple)) and name in ("index", "count"):
                return getattr(v, name)(*xs)
            if isinstance(v, (str, list, tuple, dict, int, float, type(None))) and not hasattr(v, name):
                raise Wrong("AttributeError: %s of %r" % (name, v))
            raise Unknown(show(t, 3))
        xs = self.values(args, env)
        if name == "new":
            raise Unknown(show(t, 3))
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter") and len(xs) <= 1:
            if xs and (isinstance(xs[0], (Tok, Made)) or not hasattr(xs[0], "__iter__")):
                raise Unknown(show(t, 3))
            v = list(xs[0]) if xs else []
            if name == "sorted" and kw:
                return self.sorted_by(args[0], v, dict(kw), env)
            return {"tuple": tuple, "set": set, "frozenset": frozenset, "sorted": sorted, "reversed": lambda z: z[::-1]}.get(name, list)(v)
        if name in ("dict", "OrderedDict") and len(xs) <= 1:
            d = dict(xs[0]) if xs else {}
            d.update(self.kws(kw, env))
            return d
        if name in ("str", "repr"):
            return str(xs[0])
        if name == "bool" and len(xs) == 1:
            return self.truthy(xs[0])
        if name == "int" and len(xs) == 1 and isinstance(xs[0], (int, float, str)):
            try:
                return int(xs[0])
            except ValueError as v:
                raise Wrong(str(v))
        if name == "float" and len(xs) == 1 and isinstance(xs[0], (int, float, str)):
            try:
                return float(xs[0])
            except ValueError as v:
                raise Wrong(str(v))
        if name == "next" and len(xs) >= 1 and isinstance(xs[0], (list, tuple)):
            if xs[0]:
                return xs[0][0]
            if len(xs) > 1:
                return xs[1]
            raise Wrong("StopIteration")
        if name in ("any", "all") and len(xs) == 1:
            return (any if name == "any" else all)(self.truthy(x) for x in xs[0])
        if name in ("max", "min", "sum") and xs and isinstance(xs[0], (list, tuple, dict)) and len(xs) == 1:
            return {"max": max, "min": min, "sum": sum}[name](xs[0])
        if name == "abs" and len(xs) == 1 and isinstance(xs[0], (int, float)):
            return abs(xs[0])
        if name in ("max", "min") and len(xs) > 1 and all(isinstance(x, (int, float)) for x in xs) and not kw:
            return {"max": max, "min": min}[name](xs)
        if name == "divmod" and len(xs) == 2 and all(isinstance(x, (int, float)) for x in xs):
            return divmod(*xs)
        if name == "prod" and len(xs) == 1 and isinstance(xs[0], (list, tuple)) and all(isinstance(x, (int, float)) for x in xs[0]) and not kw:
            return math.prod(xs[0])
        if name == "slice" and f.op == "ext" and 1 <= len(xs) <= 3:
            return slice(*xs)
        if name == "product" and f.op == "ext":
            return list(itertools.product(*xs, **self.kws(kw, env)))
        if name == "ceil" and len(xs) == 1 and isinstance(xs[0], (int, float)):
            return math.ceil(xs[0])
        if name == "zip":
            return [tuple(x) for x in zip(*xs)]
        if name == "deepcopy" or name == "copy":
            return xs[0]
        if name == "range":
            return list(range(*xs))
        if name == "len":
            return len(xs[0])
        if name == "enumerate":
            return [tuple(x) for x in enumerate(xs[0])]
        raise Unknown(show(t, 3))

    def coll(self, t, env):
        kind, entries = t.args
        out = {} if kind == "dict" else []
        for op, key, val, guards, loops in entries:
            for e in self.happens(loops, guards, env):
                if op == "set" and kind == "dict":
                    out[self.ev(key, e)] = self.ev(val, e)
                elif op == "append" and kind != "dict":
                    out.append(self.ev(val, e))
                elif op == "add" and kind != "dict":
                    out.append(self.ev(val, e))
                elif op in ("extend", "update") and val is not None:
                    v = self.ev(val, e)
                    if isinstance(v, (Tok, Made)):
                        raise Unknown("coll of %r" % v)
                    if kind == "dict":
                        out.update(v)
                    else:
                        out.extend(v)
                else:
                    raise Unknown("coll %s" % op)
        return out if kind in ("dict", "list") else tuple(out) if kind == "tuple" else frozenset(out) if kind in ("set", "frozenset") else out

    def nest(self, loops, env, *where, guards=()):
        envs = [dict(env)]
        for l in loops:
            envs = [e2 for e in envs for e2 in self.turns(l, e) if not self.excluded(guards, e2)]
        return envs

    def excluded(self, guards, env):
        """does a condition already fail here?"""
        for g in guards:
            try:
                if not self.holds(g, env):
                    return True
            except (Unknown, Wrong):
                pass
        return False

    def together(self, guards, env):
        """do all conditions hold? one that does not settles it, whatever the others"""
        und = None
        for g in guards:
            try:
                if not self.holds(g, env):
                    return False
            except (Unknown, Wrong) as u:
                und = u if und is None or isinstance(u, Unknown) else und
        if und:
            raise und
        return True

    def happens(self, loops, guards, env, *where):
        """the environments of the passes in which all conditions hold"""
        for g in guards:
            # the conditions outside the loops may keep these from being reached
            try:
                if not self.holds(g, env):
                    return []
            except Unknown:
                pass
            except Wrong:
                break
        return [e for e in self.nest(loops, env, *where, guards=guards) if self.together(guards, e)]

    def turns(self, l, env):
        """the environments of the passes of a loop"""
        if mk("elem", l) in env:        # already in this loop
            return [dict(env)]
        if is_call(l, "zip") and l.args[1]:
            vs = [self.ev(x, env) for x in l.args[1]]
            out = []
            for tup in zip(*vs):
                e = dict(env)
                for x, v in zip(l.args[1], tup):
                    self.bind(e, x, v)
                out.append(e)
            return out
        if is_call(l, "items", "keys", "values") and l.args[0].op == "attr":
            d = l.args[0].args[0]
            if mk("elem", d) in env:
                return [dict(env)]
            v = self.ev(d, env)
            if not isinstance(v, dict):
                raise Unknown("loop over %s" % show(l, 3))
            out = []
            for k in v:
                e = dict(env)
                e[mk("elem", d)] = k
                e[mk("elem", l)] = {"items": (k, v[k]), "keys": k, "values": v[k]}[name_of(l.args[0])]
                out.append(e)
            return out
        v = self.ev(l, env)
        if isinstance(v, (Tok, Made)) or not hasattr(v, "__iter__"):
            raise Unknown("loop over %s" % show(l, 3))
        out = []
        for x in v:
            e = dict(env)
            self.bind(e, l, x)
            out.append(e)
        return out

    def sorted_by(self, l, v, kw, env):
        down = self.truthy(self.ev(kw["reverse"], env)) if "reverse" in kw else False
        by = kw.get("key")
        if set(kw) - {"key", "reverse"}:
            raise Unknown("sorted by %s" % sorted(kw))
        if by is None or is_const(by):
            return sorted(v, reverse=down)
        body = getattr(getattr(self, "an", None), "keyed", {}).get((by, l))
        if body is None:
            raise Unknown("sorted by %s" % show(by, 3))
        ks = []
        for x in v:
            e = {k: y for k, y in env.items() if k != "#memo"}
            self.bind(e, l, x)
            ks.append(self.ev(body, e))
        if any(isinstance(k, (Tok, Made, Obj)) for k in ks):
            raise Unknown("sorted by %s" % show(body, 3))
        return [v[i] for i in sorted(range(len(v)), key=lambda i: ks[i], reverse=down)]

    def bind(self, e, l, x):
        e[mk("elem", l)] = x
        if is_call(l, "enumerate") and l.args[0].op == "ext" and len(l.args[1]) == 1 and isinstance(x, tuple) and len(x) == 2:
            e[mk("idx", l.args[1][0])] = x[0]
            self.bind(e, l.args[1][0], x[1])
        if is_call(l, "range") and len(l.args[1]) == 1 and l.args[1][0].op == "len":
            src = l.args[1][0].args[0]
            e[mk("idx", src)] = x
            if mk("elem", src) not in e:
                try:
                    self.bind(e, src, self.ev(src, e)[x])
                except (Unknown, Wrong, TypeError, KeyError, IndexError):
                    pass
        if is_call(l, "sorted", "list", "tuple", "reversed", "set", "frozenset", "iter") and l.args[0].op == "ext" and len(l.args[1]) == 1:
            self.bind(e, l.args[1][0], x)
        if is_call(l, "keys") and l.args[0].op == "attr" and not l.args[1]:
            self.bind(e, l.args[0].args[0], x)
        if l.op == "ite":
            self.bind(e, l.args[1] if self.holds(l.args[0], e) else l.args[2], x)


class Lazy(World):
    """collections made on the way are evaluated from what is stored in them"""

    def __init__(self, an, env, **k):
        super().__init__(env, **k)
        self.an = an
        self.busy = set()
        self.breaks = [b for b in an.events if b.kind == "break" and b.loops and "while" not in [l.op for l in b.loops]]

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in env:
            return env[t]
        if t.op == "alloc" and t in self.an.recs:
            return self.content(t, env)
        if t.op == "sub" and t.args[0].op == "alloc" and t.args[0] in self.an.recs and t.args[0] not in env and t.args[0].args[0] == "dict":
            k = self.ev(t.args[1], env)
            if isinstance(k, (str, int)) and all(r.op == "set" for r in self.an.recs[t.args[0]]):
                found = [x for x in self.stored(t.args[0], env, k)]
                if not found:
                    raise Wrong("KeyError: %r" % k)
                return found[-1]
        return super().ev(t, env)

    def turns(self, l, env):
        if l.op == "while":
            return [dict(env)]
        if l.op == "alloc" and mk("elem", l) not in env:
            out = []
            for x in self.ev(l, env):
                e = dict(env)
                self.bind(e, l, x)
                out.append(e)
            return self.alike(l, out, env)
        if mk("elem", l) in env:
            return super().turns(l, env)
        return self.alike(l, super().turns(l, env), env)

    def alike(self, l, envs, env):
        """a pass over what was made pass by pass is also a pass over what it was made from"""
        if is_call(l, "zip"):
            for a in l.args[1]:
                envs = self.alike(a, envs, env)
            return envs
        if is_call(l, "enumerate") and len(l.args[1]) == 1:
            return self.alike(l.args[1][0], envs, env)
        if l.op not in ("alloc", "ite", "call") or not envs:
            return envs
        try:
            src = self.sources(l, env)
            if src is None or len(src) < len(envs):
                return envs
            if len(src) == len(envs) and l.op == "alloc":
                return [{**s, **e} for e, (_, s) in zip(envs, src)]
            left, out = list(src), []
            for e in envs:
                if mk("elem", l) not in e:
                    return envs
                n = next((n for n, (v, _) in enumerate(left) if v == e[mk("elem", l)]), None)
                if n is None:
                    return envs
                out.append({**left.pop(n)[1], **e})
            return out
        except (Unknown, Wrong):
            return envs

    def sources(self, l, env):
        """[(an element, the pass that it comes from)]"""
        if l.op == "ite":
            return self.sources(l.args[1] if self.holds(l.args[0], env) else l.args[2], env)
        if is_call(l, "sorted", "list", "tuple", "iter", "reversed") and l.args[0].op == "ext" and len(l.args[1]) == 1:
            return self.sources(l.args[1][0], env)
        recs = self.an.recs.get(l, ()) if l.op == "alloc" else ()
        if len(recs) != 1 or recs[0].op != "append" or recs[0].val.op == "elem" or len(recs[0].loops or ()) != 1 or mk("elem", recs[0].loops[0]) in env or recs[0].loops[0] is l:
            return None
        return [(self.ev(recs[0].val, x), x) for x in self.turns(recs[0].loops[0], env) if self.together(recs[0].guards, x)]

    def bind(self, e, l, x):
        super().bind(e, l, x)
        recs = [r for r in self.an.recs.get(l, ()) if r.op in ("set", "append", "add")] if l.op == "alloc" else ()
        if len(recs) == 1:
            y = recs[0].key if l.args[0] == "dict" else recs[0].val
            if y.op == "elem":
                e[y] = x
            elif y.op == "tuple" and isinstance(x, tuple) and len(x) == len(y.args):
                e.update((a, b) for a, b in zip(y.args, x) if a.op in ("elem", "idx"))

    def fresh(self, env, loops):
        """without the passes of these loops, which are other passes than those of the same loops elsewhere"""
        own = {mk("elem", l) for l in loops if mk("elem", l) not in self.env}
        return {k: v for k, v in env.items() if k not in own} if own & set(env) else env

    def nest(self, loops, env, seq=None, outer=(), guards=()):
        """the passes of loops that are not broken off before"""
        envs = [dict(env)]
        envs[0]["#passes"] = ()
        for i, l in enumerate(loops):
            br = [b for b in self.breaks if b.loops == tuple(outer) + tuple(loops[:i + 1])]
            nxt = []
            for e in envs:
                for n, e2 in enumerate(self.turns(l, e)):
                    e2["#passes"] = e.get("#passes", ()) + (n,)
                    stop = [b for b in br if self.together(b.guards, e2)]
                    if not any(seq is not None and b.seq < seq for b in stop) and not self.excluded(guards, e2):
                        nxt.append(e2)
                    if stop:
                        break
            envs = nxt
        return envs

    def stored(self, a, env, key=None):
        for r in self.an.recs[a]:
            if key is not None and is_const(r.key) and cval(r.key) != key:
                continue
            for e in self.happens(r.loops, r.guards, self.fresh(env, r.loops), r.seq, self.an.alloc_loops.get(a, ())):
                if key is None or self.ev(r.key, e) == key:
                    yield self.ev(r.val, e)

    def ordered(self, a, env):
        """what is stored, in the order in which it happens: pass by pass of the loops that records have in common"""
        outer = self.an.alloc_loops.get(a, ())
        recs = list(self.an.recs[a])
        for n, r in enumerate(recs):
            if not r.loops or not any(s is not r and s.loops[:1] == r.loops[:1] for s in recs):
                continue
            out = []
            for m, s in enumerate(recs):
                for e in self.happens(s.loops, s.guards, self.fresh(env, s.loops), s.seq, outer):
                    out.append((s, e.get("#passes", ()), m, e))

            def before(x, y):
                n = 0
                while n < min(len(x[0].loops), len(y[0].loops)) and x[0].loops[n] is y[0].loops[n]:
                    n += 1
                x, y = (x[1][:n], x[2], x[1]), (y[1][:n], y[2], y[1])
                return (x > y) - (x < y)
            for s, _, _, e in sorted(out, key=cmp_to_key(before)):
                yield s, e
            return
        for r in recs:
            for e in self.happens(r.loops, r.guards, self.fresh(env, r.loops), r.seq, outer):
                yield r, e

    def content(self, a, env):
        if a in self.busy:
            raise Unknown("cyclic")
        self.busy.add(a)
        try:
            kind = a.args[0]
            out = {} if kind == "dict" else []
            for r, e in self.ordered(a, env):
                if kind == "dict" and r.op == "set":
                    out[self.ev(r.key, e)] = self.ev(r.val, e)
                elif kind == "dict" and r.op == "update":
                    out.update(self.ev(r.val, e))
                elif kind != "dict" and r.op in ("append", "add"):
                    out.append(self.ev(r.val, e))
                elif kind != "dict" and r.op == "extend":
                    v = self.ev(r.val, e)
                    if not isinstance(v, (list, tuple)):
                        raise Unknown("extended by %r" % (v,))
                    out.extend(v)
                elif kind == "list" and r.op == "insert":
                    k = self.ev(r.key, e)
                    if not isinstance(k, int):
                        raise Unknown("insert at %r" % (k,))
                    out.insert(k, self.ev(r.val, e))
                elif kind == "dict" and r.op in ("del", "pop"):
                    out.pop(self.ev(r.key, e), None)
                elif kind == "list" and r.op == "set":
                    e = {**e, a: list(out)}
                    k = slice(*[self.ev(x, e) for x in r.key.args]) if r.key.op == "slice" else self.ev(r.key, e)
                    out[k] = self.ev(r.val, e)
                else:
                    raise Unknown("%s of a collection" % r.op)
            return out if kind in ("dict", "list", "gen") else tuple(out) if kind == "tuple" else frozenset(out)
        finally:
            self.busy.discard(a)


class Obj:
    """an object with known attributes; methods are Python functions over values"""

    def __init__(self, kind, **fields):
        self.kind, self.fields = kind, fields

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.fields.get("label", self.fields.get("name", "")))


def needed(an):
    """the carried values on which anything that happens depends"""
    if getattr(an, "needed_phis", None) is None:
        seen, found, todo = set(), set(), []

        def look(x):
            if hasattr(x, "op"):
                todo.append(x)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    look(y)
        for e in an.events:
            for x in (e.f, e.args, e.kw, e.obj, e.name, e.val, e.res, e.guards, e.loops):
                look(x)
        for rs in an.recs.values():
            for r in rs:
                look((r.key, r.val, r.guards, r.loops))
        for tag, cond, end, breaks, phis in an.loopinfo.values():
            look((tag, cond))
            for s in [end] + list(breaks):
                look(s.guards if s is not None else ())
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "phi":
                found.add(t)
                look(an.phis.get(t))
            look(t.args)
        an.needed_phis = found
    return an.needed_phis


class Steps(Lazy):
    """loops with carried values are followed pass by pass; objects have attributes and methods"""
    limit = 40
    cells = True        # are items of collections carried from pass to pass as well?

    def __init__(self, an, env, **k):
        super().__init__(an, env, **k)
        self.starting = set()

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in env:
            return env[t]
        if t.op == "attr":
            v = self.ev(t.args[0], env)
            if isinstance(v, Obj):
                if t.args[1] not in v.fields:
                    return self.missing(v, t.args[1])
                return v.fields[t.args[1]]
        if t.op == "isinstance":
            v = self.ev(t.args[0], env)
            if isinstance(v, Obj):
                ks = [(name_of(x) or show(x)).split(".")[-1] for x in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],))]
                return v.kind in ks
        if t.op == "slice":
            return slice(*[self.ev(x, env) for x in t.args])
        if t.op == "loop" and len(t.args) == 4 and t.args[3].op == "phi":
            return self.after(t, env)
        if t.op == "attr" and isinstance(t.args[1], tuple) and t.args[1][0] == "item":
            return self.item(self.ev(t.args[0], env), t.args[1][1], env)
        if t.op == "phi" and t in self.an.phis:
            if self.per_pass(t) and mk("elem", self.an.phis[t][0].args[0]) in env:
                return self.ev(self.an.phis[t][0], env)
        return super().ev(t, env)

    def per_pass(self, ph):
        """the item of a dictionary at the key of the pass: no pass before has changed it"""
        init = self.an.phis[ph][0]
        return init.op == "attr" and isinstance(init.args[1], tuple) and init.args[1][0] == "item" and init.args[1][1] is mk("elem", init.args[0])

    def missing(self, obj, name):
        raise Wrong("no attribute %s" % name)

    @staticmethod
    def truthy(v):
        return True if isinstance(v, Obj) else World.truthy(v)

    def call(self, t, env):
        f = t.args[0]
        if f.op == "attr":
            try:
                v = self.ev(f.args[0], env)
            except Unknown:
                v = None
            if isinstance(v, Obj):
                m = v.fields.get(f.args[1])
                if m is None:
                    m = self.missing(v, f.args[1])
                if not callable(m):
                    raise Unknown(show(t, 3))
                return m(*[self.ev(x, env) for x in t.args[1]], **self.kws(t.args[2] if len(t.args) > 2 else (), env))
        return super().call(t, env)

    def item(self, b, i, env):
        if isinstance(b, Obj):
            g = b.fields.get("__getitem__")
            if g is None:
                raise Unknown("item of %r" % b)
            return g(slice(*[self.ev(x, env) for x in i.args]) if i.op == "slice" else self.ev(i, env))
        return super().item(b, i, env)

    def infos(self, l):
        return [(lid, i) for lid, i in self.an.loopinfo.items() if i[0] is l]

    def carried(self, info, state, e):
        """the values of the carried names in this state"""
        out = {}
        for (at, k), (ph, init) in info[4].items():
            if self.per_pass(ph) or not self.cells and at == "heap" or ph not in needed(self.an):
                continue
            t = getattr(state, at).get(k, ph)
            try:
                out[ph] = self.ev(t, e)
            except Unknown:
                pass
        return out

    def initial(self, info, env):
        out = {}
        for (at, k), (ph, init) in info[4].items():
            if self.per_pass(ph) or not self.cells and at == "heap" or ph not in needed(self.an):
                continue
            try:
                out[ph] = self.ev(self.an.phis[ph][0], env)
            except (Unknown, Wrong):
                pass
        return out

    def passes(self, l, info, env):
        """[environments of the passes], carried values afterwards"""
        if id(info) in self.starting:
            raise Unknown("cyclic")
        self.starting.add(id(info))
        try:
            return self.followed(l, info, env)
        finally:
            self.starting.discard(id(info))

    def followed(self, l, info, env):
        tag, cond, end, breaks, phis = info
        mine = {ph for ph, _ in phis.values()}
        outer = {k: v for k, v in env.items() if k not in mine}
        vals = self.initial(info, outer)
        out = []
        each = None if l.op == "while" else iter(super().turns(l, outer))
        for n in range(self.limit + 1):
            if each is None:
                e = dict(outer)
            else:
                e = next(each, None)
                if e is None:
                    return out, vals
            e.update(vals)
            if cond is not None and not self.holds(cond, e):
                return out, vals
            if n == self.limit:
                break
            out.append(e)
            for b in breaks:
                if self.together(b.guards, e):
                    return out, self.carried(info, b, e)
            if end is None or not self.together(end.guards, e):
                return out, vals        # left by a return or an exception
            vals = self.carried(info, end, e)
        raise Unknown("no end of the loop")

    def turns(self, l, env):
        every = self.infos(l)
        inf = [i for lid, i in every if i[4] or l.op == "while"]
        if l.op == "while" and any(ph in env for i in inf for ph, _ in i[4].values()) or mk("elem", l) in env:
            return [dict(env)]
        if not inf:
            return super().turns(l, env)
        if len(inf) == 1:
            return self.passes(l, inf[0], env)[0]
        # several loops over the same thing: which one is meant is decided by the conditions
        out, done = [], 0
        for i in inf:
            try:
                ps = self.passes(l, i, env)[0]
            except (Unknown, Wrong):
                continue
            done += 1
            mine = {ph for ph, _ in i[4].values()}
            for n, e in enumerate(ps):
                if n == len(out):
                    out.append(e)
                else:
                    out[n].update({k: v for k, v in e.items() if k in mine})
        return out if done or len(inf) == len(every) else super().turns(l, env)

    def after(self, t, env):
        ph = t.args[3]
        info = self.an.loopinfo.get(ph.args[0])
        if info is None:
            raise Unknown(show(t, 3))
        env = {k: v for k, v in env.items() if k != mk("elem", info[0])}
        vals = self.passes(info[0], info, env)[1]
        if ph not in vals:
            raise Unknown(show(t, 3))
        return vals[ph]


class When(int):
    """a point of the program, and the loops that begin after it"""


class Timed(Steps):
    """what is read from a collection is what was stored in it by then: conditions and values are evaluated as of the point of the program they belong to"""
    cells = False

    def __init__(self, an, env, **k):
        super().__init__(an, env, **k)
        self.order = sorted(an.events, key=lambda e: e.seq)
        self.seqs = [e.seq for e in self.order]
        self.since, self.known, self.extra, self.purity = {}, {}, {}, {}
        if not hasattr(self.an, "whole"):
            self.an.whole = {a: tuple(rs) for a, rs in self.an.recs.items()}
        self.whole = self.an.whole

    def tested(self, g, seq):
        """when the condition was looked at: before the first of the effects that are all subject to it"""
        if (g, seq) not in self.since:
            n = bisect_right(self.seqs, seq) - 1
            at = seq
            other = not_(g)
            while n >= 0 and (g in (self.order[n].guards or ()) or other in (self.order[n].guards or ())):
                at = self.order[n].seq
                n -= 1
            made = [(s, ls) for s, ls in self.an.guard_times.get(g, ()) if s <= seq]
            if made:
                # the loops entered since then do not matter
                s, ls = made[-1]
                inner = {l for e in self.order[bisect_right(self.seqs, s):bisect_right(self.seqs, seq)] for l in e.loops or ()} - set(ls)
                if inner:
                    at = When(at)
                    at.gone = frozenset(inner)
            self.since[g, seq] = at
        return self.since[g, seq]

    def turns(self, l, env):
        if mk("elem", l) in env:
            return [dict(env)]
        env = {k: v for k, v in env.items() if k != "#memo"}
        inf = self.infos(l)
        carries = any(ph in needed(self.an) and not self.per_pass(ph) and at != "heap" for _, i in inf for (at, k), (ph, init) in i[4].items())
        if l.op == "ite" and not carries:
            branch = l.args[1] if self.holds(l.args[0], env) else l.args[2]
            out = self.turns(branch, env)
            for e in out:
                self.bind(e, l, e[mk("elem", branch)])
        elif self.mine(l, env) and l.args[0] == "list" and not carries and all(r.op == "append" for r in self.an.recs[l]):
            # the passes in which the elements were added
            out = []
            for r, x in self.ordered(l, env):
                e = dict(env)
                for k in r.loops:
                    e.update((y, x[y]) for y in x if hasattr(y, "op") and y not in env)
                self.bind(e, l, self.ev(r.val, x))
                out.append(e)
        else:
            out = super().turns(l, env)
        for n, e in enumerate(out):
            e["#n", l] = n
            e["#memo"] = {}
        return out

    def fresh(self, env, loops):
        loops = [x for l in loops for x in self.ways(l)]
        gone = {mk("elem", l) for l in loops if mk("elem", l) not in self.env} | {("#n", l) for l in loops}
        return {k: v for k, v in env.items() if k not in gone and k != "#memo"} if gone & set(env) else env

    def ways(self, l):
        """a loop over one thing or another is a loop over either"""
        yield l
        if l.op == "ite":
            for x in l.args[1:]:
                yield from self.ways(x)
        elif l.op == "alloc":
            for r in self.an.recs.get(l, ()):
                for x in r.loops:
                    yield from self.ways(x)
        elif is_call(l, "items", "keys", "values") and l.args[0].op == "attr" and not l.args[1]:
            yield from self.ways(l.args[0].args[0])
        elif is_call(l, "zip", "enumerate", "sorted", "list", "tuple", "reversed", "set", "frozenset", "iter") and l.args[0].op == "ext":
            for x in l.args[1]:
                yield from self.ways(x)

    def pure(self, t):
        """is the value the same whenever it is looked at?"""
        if t not in self.purity:
            self.purity[t] = t.op not in ("alloc", "phi", "loop", "coll", "choice", "popped", "setdefault", "data0", "raised") and all(self.pure(x) for x in parts(t.args))
        return self.purity[t]

    def at(self, seq, env):
        gone = seq.gone if isinstance(seq, When) else ()
        if gone:
            env = {k: v for k, v in env.items() if not (isinstance(k, tuple) and k[0] == "#n" and k[1] in gone) and k != "#memo"}
        return dict(env, **{"#at": int(seq)})

    def settled(self, guards, seq, env):
        return self.together_at([(g, self.tested(g, seq)) for g in guards], env)

    def together_at(self, pairs, env):
        und = None
        for g, s in pairs:
            try:
                if not self.holds(g, self.at(s, env)):
                    return False
            except (Unknown, Wrong) as u:
                und = u if und is None or isinstance(u, Unknown) else und
        if und:
            raise und
        return True

    def nest(self, loops, env, seq=None, outer=(), guards=(), until=None):
        """the passes of the loops, as far as they have come by then"""
        envs = [(dict(env, **{"#passes": ()}), until is not None)]
        shared = -1
        while until is not None and shared + 1 < len(loops) and ("#n", loops[shared + 1]) in until and mk("elem", loops[shared + 1]) in until and self.one_loop(loops[shared + 1], seq, until["#at"]):
            shared += 1
        for i, l in enumerate(loops):
            br = [b for b in self.breaks if b.loops == tuple(outer) + tuple(loops[:i + 1])]
            nxt = []
            for e, current in envs:
                known = current and ("#n", l) in until and mk("elem", l) in until and self.one_loop(l, seq, until["#at"])
                for n, e2 in enumerate(self.turns(l, e)):
                    if known and n > until["#n", l]:
                        break
                    e2["#passes"] = e.get("#passes", ()) + (n,)
                    now = known and n == until["#n", l]
                    if current and not now and not known and not seq < until.get("#at", seq + 1) or now and i == shared and not seq < until.get("#at", seq + 1):
                        continue
                    stop = [b for b in br if self.settled(b.guards, b.seq, e2)] if not now else []
                    if not any(seq is not None and b.seq < seq for b in stop) and not self.excluded(guards, e2):
                        nxt.append((e2, now))
                    if stop:
                        break
            envs = nxt
        return [e for e, _ in envs if until is None or loops or seq < until.get("#at", seq + 1)]

    def one_loop(self, l, s, u):
        """are these two points in the same loop, not in two loops over the same thing?"""
        if (l, s, u) not in self.since:
            lo, hi = bisect_right(self.seqs, min(s, u)), bisect_right(self.seqs, max(s, u))
            self.since[l, s, u] = all(l in (e.loops or ()) for e in self.order[lo:hi])
        return self.since[l, s, u]

    def occasions(self, loops, guards, env, seq, outer=()):
        """the passes in which something happens at this point of the program"""
        for g in guards:
            try:
                if not self.holds(g, self.at(self.tested(g, seq), env)):
                    return []
            except Unknown:
                pass
            except Wrong:
                break
        return [self.at(seq, e) for e in self.nest(loops, self.at(seq, env), seq, outer, [(g, self.tested(g, seq)) for g in guards]) if self.settled(guards, seq, e)]

    def happens(self, loops, guards, env, seq=None, outer=()):
        if seq is None:
            return super().happens(loops, guards, env)
        return self.occasions(loops, guards, env, seq, outer)

    def ordered(self, a, env):
        """what has been stored by now, in the order in which it happened"""
        outer = self.an.alloc_loops.get(a, ())
        out = []
        for m, r in enumerate(self.an.recs[a]):
            here = self.fresh(env, r.loops)
            if "#at" in env and r.seq >= env["#at"]:
                if not any(("#n", l) in env for l in r.loops):
                    continue
            elif any(self.fails(g, self.tested(g, r.seq), here) for g in r.guards):
                continue
            for e in self.nest(r.loops, self.at(r.seq, here), r.seq, outer, [(g, self.tested(g, r.seq)) for g in r.guards], env if "#at" in env else None):
                if self.settled(r.guards, r.seq, e):
                    out.append((r, e.get("#passes", ()), m, self.at(r.seq, e)))

        def before(x, y):
            n = 0
            while n < min(len(x[0].loops), len(y[0].loops)) and x[0].loops[n] is y[0].loops[n]:
                n += 1
            x, y = (x[1][:n], x[2], x[1]), (y[1][:n], y[2], y[1])
            return (x > y) - (x < y)
        return [(r, e) for r, _, _, e in sorted(out, key=cmp_to_key(before))]

    def excluded(self, guards, env):
        return any(self.fails(g, s, env) for g, s in guards)

    def fails(self, g, seq, env):
        """is this condition false whatever the pass?"""
        try:
            return not self.holds(g, self.at(seq, env))
        except (Unknown, Wrong):
            return False

    def now(self, env):
        return env.get("#at"), tuple(sorted((id(k[1]), n) for k, n in env.items() if isinstance(k, tuple) and k[0] == "#n"))

    def when(self, a, env):
        """the point in time, as far as it matters: everything has been stored, or now"""
        at = env.get("#at")
        if at is not None and not self.an.alloc_loops.get(a) and not self.extra.get((a,)):
            if all(r.seq < at and not any(("#n", l) in env and (not self.pure(l) or self.one_loop(l, r.seq, at)) for l in r.loops) for r in self.whole.get(a, ())):
                return ("all",)
        return self.now(env)

    def content(self, a, env):
        mark = (a,) + self.when(a, env)
        if "#at" in env and mark in self.known:
            return self.known[mark]
        if mark in self.busy:
            raise Unknown("cyclic")
        self.busy.add(mark)
        held, self.busy = self.busy, self.busy - {a}
        try:
            out = super().content(a, env)
            if isinstance(out, dict):
                for k, v in self.extra.get(self.instance(a, env), ()):
                    out[k] = v
            if "#at" in env:
                self.known[mark] = out
            return out
        finally:
            self.busy = held
            self.busy.discard(mark)

    def lookup(self, a, k, env):
        """(the value stored last under this key,) or None"""
        mark = (a, k) + self.when(a, env) if isinstance(k, (str, int)) else None
        if mark not in self.known or mark is None:
            v = self.found(a, k, env)
            v = v and v[0]
            if mark is None:
                return v
            self.known[mark] = v
        return self.known[mark]

    def found(self, a, k, env):
        recs = self.an.recs[a]
        if a.args[0] != "dict" or not isinstance(k, (str, int)) or any(r.op not in ("set", "del", "pop") for r in recs):
            c = self.content(a, env)
            try:
                return (c[k],), None
            except (KeyError, IndexError, TypeError):
                return None
        found = None
        same = {r: not (is_const(r.key) and cval(r.key) != k) for r in recs}
        whole = self.an.recs[a]
        self.an.recs[a] = [r for r in whole if same[r]]
        try:
            hits = list(self.ordered(a, env))
        finally:
            self.an.recs[a] = whole
        for r, e in hits:
            if is_const(r.key) or self.ev(r.key, e) == k:
                found = (r, e) if r.op == "set" else None
        for x, v in self.extra.get(self.instance(a, env), ()):
            if x == k:
                return (v,), None
        return found and ((self.ev(found[0].val, found[1]),), found)

    def instance(self, a, env):
        """which of the objects that are made here"""
        return (a,) + tuple((l, env.get(("#n", l))) for l in self.an.alloc_loops.get(a, ()))

    def target(self, t, env):
        """the object that is made on the way and reached by this term, or None"""
        if t.op == "ite":
            return self.target(t.args[1] if self.holds(t.args[0], env) else t.args[2], env)
        if self.mine(t, env):
            return self.instance(t, env)
        if t.op in ("sub", "setdefault") and self.mine(t.args[0], env):
            v = self.found(t.args[0], self.ev(t.args[1], env), env)
            r = v and v[1]
            if r and self.mine(r[0].val, r[1]):
                return self.instance(r[0].val, r[1])
        return None

    def mine(self, x, env):
        return x.op == "alloc" and x in self.an.recs and x not in env

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in env:
            return env[t]
        o = t.op
        memo = env.get("#memo")
        if memo is not None and o not in ("const", "arg", "elem", "ext"):
            if t in memo:
                return memo[t]
            if self.pure(t):
                memo[t] = super().ev(t, env)
                return memo[t]
        if self.mine(t, env):
            # the object itself: what will be in it
            return self.content(t, {k: v for k, v in env.items() if k != "#at"})
        if o == "sub" and self.mine(t.args[0], env) and t.args[1].op != "slice":
            k = self.ev(t.args[1], env)
            v = self.lookup(t.args[0], k, env)
            if v is None:
                raise Wrong("KeyError: %r" % (k,))
            return v[0]
        if "#at" in env:
            if o == "cmp" and t.args[0] in ("in", "not in"):
                c = t.args[2]
                if c.op == "call" and c.args[0].op == "attr" and c.args[0].args[1] == "keys":
                    c = c.args[0].args[0]
                if self.mine(c, env):
                    k = self.ev(t.args[1], env)
                    there = self.lookup(c, k, env) is not None if c.args[0] == "dict" else k in self.content(c, env)
                    return there == (t.args[0] == "in")
            if o in ("len", "nonempty") and self.mine(t.args[0], env):
                v = self.content(t.args[0], env)
                return len(v) if o == "len" else len(v) > 0
            if o == "call" and t.args[0].op == "attr" and self.mine(t.args[0].args[0], env):
                c = t.args[0].args[0]
                if t.args[0].args[1] == "get" and t.args[1]:
                    v = self.lookup(c, self.ev(t.args[1][0], env), env)
                    return v[0] if v is not None else self.ev(t.args[1][1], env) if len(t.args[1]) > 1 else None
                if t.args[0].args[1] in ("keys", "values", "items", "index", "count", "copy"):
                    return super().ev(t, {**env, c: self.content(c, env)})
        return super().ev(t, env)


class Fix(Lazy):
    """The contents of collections built in loops, as the least solution of what their stores put in (every store only adds; what is popped
    from a work list is any element that was ever put on it)."""

    def __init__(self, an, env, **k):
        super().__init__(an, env, **k)
        self.local = set()
        self.items = {}         # collection -> [(record number, key, value)]
        self.here = None
        self.deleted = set()

    def solve(self, limit=60):
        # collections that depend on the pass of a loop around them are evaluated where they are used
        self.step()
        self.local = {a for a, x in self.failed.items() if isinstance(x, Unknown)}
        self.items = {}
        for _ in range(limit):
            if not self.step():
                return
        raise Unknown("no fixed point")

    def step(self):
        grew = False
        self.failed = {}
        for a in list(self.an.recs):
            if a in self.env or a in self.local:
                continue
            for r in self.an.recs[a]:
                if r.op in ("del", "pop", "clear", "discard", "remove"):
                    self.deleted.add(a)
                    continue
                if r.op not in ("set", "append", "add", "extend", "update", "insert"):
                    continue
                try:
                    for key, val in self.added(a, r):
                        have = self.items.setdefault(a, [])
                        if not any(s == r.seq and same(k, key) and same(v, val) for s, k, v in have):
                            have.append((r.seq, key, val))
                            grew = True
                except (Unknown, Wrong) as u:
                    self.items.setdefault(a, [])
                    self.failed[a] = u
        return grew

    def added(self, a, r):
        out = []
        here = (r.seq, set(r.loops) | set(self.an.alloc_loops.get(a, ())))
        for e in self.passes(r.loops, [x for x in (r.key, r.val) if hasattr(x, "op")] + list(r.guards), r, a, here):
            if r.op in ("extend", "update"):
                v = self.at(r.val, e, here)
                out.extend(v.items() if isinstance(v, dict) else [(None, x) for x in v])
            else:
                out.append((self.at(r.key, e, here) if r.op == "set" else None, self.at(r.val, e, here)))
        return out

    def at(self, t, e, here):
        old, self.here = self.here, here
        try:
            return self.ev(t, e)
        finally:
            self.here = old

    def passes(self, loops, terms, r, a=None, here=None):
        """the environments in which a record or event with these loops happens; terms: what it says, its conditions last"""
        old, self.here = self.here, here or (r.seq, set(r.loops or ()))
        try:
            out = []
            for e in self.pops(list(loops) + terms, self.env):
                if any(self.fails(g, e, a) for g in r.guards):
                    continue
                try:
                    for e2 in self.nest(loops, e, r.seq, () if a is None else self.an.alloc_loops.get(a, ())):
                        if all(self.goes(g, e2, a) for g in r.guards):
                            out.append(e2)
                except Wrong:
                    if a is None:
                        raise
            return out
        finally:
            self.here = old

    def fails(self, g, e, a):
        try:
            return not self.goes(g, e, a)
        except (Unknown, Wrong):
            return False

    def goes(self, g, e, a):
        # a condition that only keeps what is there already from being put in again, or that there is something left to take
        if g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "in" and g.args[0].args[2] is a:
            return True
        if g.op == "nonempty" and g.args[0] in self.deleted:
            return True
        if g.op == "not" and g.args[0].op == "cmp" and g.args[0].args[0] == "in":
            x = g.args[0].args[2]
            if x in self.items:
                # true the first time: not counting what is put in under this very condition
                by = {q.seq for q in self.an.recs[x] if g in q.guards}
                k = self.ev(g.args[0].args[1], e)
                return not any(same(k, kk if kk is not None else v) for s, kk, v in self.visible(x) if s not in by)
        return self.truthy(self.ev(g, e))

    def pops(self, terms, e):
        from .terms import walk
        todo = []
        for t in terms:
            for x in walk(t):
                if x.op == "popped" and x not in e and x not in todo:
                    todo.append(x)
        envs = [e]
        for x in todo:
            nxt = []
            for e2 in envs:
                for v in self.elements(x.args[0]):
                    e3 = dict(e2)
                    e3[x] = v
                    nxt.append(e3)
            envs = nxt
        return envs

    def visible(self, a):
        if self.here is None:
            return list(self.items.get(a, ()))
        seq, loops = self.here
        by = {q.seq: set(q.loops) | set(self.an.alloc_loops.get(a, ())) for q in self.an.recs[a]}
        # what is put in before, or in a pass of a loop around both (but not around the collection itself, which is new in every pass)
        new = set(self.an.alloc_loops.get(a, ()))
        return [(s, k, v) for s, k, v in self.items.get(a, ()) if s < seq or by[s] & loops - new]

    def elements(self, a):
        v = self.ev(a, self.env) if a in self.env else None
        if v is not None:
            return list(v)
        if a.op == "alloc":
            return [k if k is not None else v for s, k, v in self.visible(a)]
        return list(self.ev(a))

    def ev(self, t, env=None):
        env = self.env if env is None else env
        if t in env:
            return env[t]
        if t.op == "alloc":
            if t in self.local:
                return self.content(t, env)
            vis = self.visible(t) if t in self.an.recs else []
            if t.args[0] == "dict":
                return {k: v for s, k, v in vis}
            vs = []
            for s, k, v in vis:
                if not any(same(v, w) for w in vs) or t.args[0] not in ("set",):
                    vs.append(v)
            return tuple(vs) if t.args[0] == "tuple" else vs if t.args[0] != "set" else frozenset(vs)
        if t.op == "phi" and t in self.an.phis:
            return self.ev(self.an.phis[t][0], env)
        if t.op == "attr" and isinstance(t.args[1], tuple) and t.args[1][0] == "item":
            from .terms import const
            k = t.args[1][1]
            return self.ev(mk("sub", t.args[0], k if hasattr(k, "op") else const(k)), env)
        return World.ev(self, t, env)


def same(x, y):
    return x is y or type(x) is type(y) and not isinstance(x, Tok) and x == y
