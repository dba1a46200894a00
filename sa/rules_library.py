"""C24: every name taken from a library exists in the installed library; integers where integers are required."""
import ast
import builtins
import glob
import os
import sys

from .engine import SELF
from .q import name_of
from .rule import rule
from .rules_io import package
from .terms import cval, is_const, show, walk


# ------------------------------------------------------------- library contents
def site_packages():
    return sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + [p for p in sys.path if p.endswith(("site-packages", "dist-packages"))]


def standard():
    return os.path.dirname(os.__file__)


TYPESHED = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/mypy/typeshed/stdlib"]


def version(test):
    """the truth of a condition on the version of the interpreter, None for another condition"""
    if isinstance(test, ast.BoolOp):
        vs = [version(v) for v in test.values]
        if isinstance(test.op, ast.And):
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Attribute) and isinstance(test.left.value, ast.Name) and test.left.value.id == "sys":
        try:
            other = ast.literal_eval(test.comparators[0])
        except ValueError:
            return None
        mine = {"version_info": (3, 12), "platform": "linux"}.get(test.left.attr)
        if mine is None or type(mine) is not type(other):
            return None
        o = test.ops[0]
        if isinstance(mine, tuple):
            mine = mine[:len(other)]
        for k, f in ((ast.GtE, lambda: mine >= other), (ast.Gt, lambda: mine > other), (ast.Lt, lambda: mine < other), (ast.LtE, lambda: mine <= other), (ast.Eq, lambda: mine == other), (ast.NotEq, lambda: mine != other)):
            if isinstance(o, k):
                return f()
    return None


class Library:
    """what the modules that are installed define, read from their sources and stubs (nothing is imported)"""

    def __init__(self):
        self.cache, self.weak = {}, {}

    def files(self, mod):
        rel = mod.replace(".", "/")
        out = []
        roots = [standard()] + TYPESHED if mod.split(".")[0] in sys.stdlib_module_names else site_packages()
        for root in roots:
            for f in ("%s/%s/__init__.pyi", "%s/%s.pyi", "%s/%s/__init__.py", "%s/%s.py"):
                p = f % (root, rel)
                if os.path.isfile(p):
                    out.append(p)
        return out

    def compiled(self, mod):
        """is there a module of compiled code only"""
        rel = mod.replace(".", "/")
        return mod in sys.builtin_module_names or any(glob.glob("%s/%s.*so" % (root, rel)) for root in site_packages() + [standard() + "/lib-dynload"])

    def exists(self, mod):
        return bool(self.files(mod)) or self.compiled(mod)

    def names(self, mod):
        """(names that the module has, is that all); None for a module that is not installed"""
        if mod not in self.cache:
            fs = self.files(mod)
            if not fs:
                self.cache[mod] = (set(), False) if self.compiled(mod) else None
            else:
                self.cache[mod] = (set(), True)        # for cycles
                out, full, stubbed = set(), True, False
                for f in fs:
                    try:
                        tree = ast.parse(open(f, encoding="utf-8").read())
                    except (SyntaxError, ValueError, OSError):
                        full = False
                        continue
                    this = self.collect(tree.body, mod, f.endswith(("__init__.py", "__init__.pyi")), out, f.endswith(".pyi"))
                    stubbed = stubbed or this and f.endswith(".pyi")
                    full = full and this
                # (a stub says all there is)
                self.cache[mod] = (out, full or stubbed)
        return self.cache[mod]

    def collect(self, body, mod, pkg, out, stub=False):
        full = True
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
                if not isinstance(s, ast.ClassDef):
                    out |= {x for g in ast.walk(s) if isinstance(g, ast.Global) for x in g.names}
                if s.name == "__getattr__" and os.path.basename(mod) not in ("numpy",):
                    full = False
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            out.add(n.id)
                if isinstance(s, ast.AugAssign) or isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                    out |= {n.value for n in ast.walk(s.value) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if not stub or a.asname == a.name:
                        out.add((a.asname or a.name).split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.base(s, mod, pkg)
                for a in s.names:
                    if a.name != "*":
                        # (what a stub imports is not passed on, unless it is renamed to itself)
                        if not stub or a.asname == a.name:
                            out.add(a.asname or a.name)
                        if base == "builtins":
                            self.weak.setdefault(mod, set()).add(a.asname or a.name)
                        continue
                    got = self.names(base)
                    if got is None or not got[1]:
                        full = False
                    if got is not None:
                        out |= got[0] - self.weak.get(base, set())
            elif isinstance(s, ast.Delete) and not stub:
                out -= {t.id for t in s.targets if isinstance(t, ast.Name)}
            elif isinstance(s, ast.If) and version(s.test) is not None:
                full = self.collect(s.body if version(s.test) else s.orelse, mod, pkg, out, stub) and full
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                if isinstance(s, ast.For):
                    out |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                    full = full and not any(isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("setattr", "globals") for n in ast.walk(s))
                for b in (getattr(s, "body", []), getattr(s, "orelse", []), getattr(s, "finalbody", [])) + tuple(h.body for h in getattr(s, "handlers", [])):
                    full = self.collect(b, mod, pkg, out, stub) and full
            elif isinstance(s, ast.Expr) and any(isinstance(n, ast.Call) and getattr(n.func, "id", "") == "globals" for n in ast.walk(s)):
                full = False
        return full

    def base(self, s, mod, pkg):
        if not s.level:
            return s.module or ""
        parts = mod.split(".")
        parts = parts if pkg else parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def has(self, mod, name):
        """True, False or None (not known)"""
        got = self.names(mod)
        if got is None:
            return None
        if name in got[0] or name in ("__name__", "__file__", "__doc__", "__path__", "__dict__", "__version__") or self.exists(mod + "." + name):
            return True
        return False if got[1] else None

    def klass(self, mod, name, seen=()):
        """(names of a class with those of its bases, is that all)"""
        out, full = set(), True
        for f in self.files(mod):
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            for s in ast.walk(tree):
                if isinstance(s, ast.ClassDef) and s.name == name:
                    full = self.collect(s.body, mod, False, out) and full
                    out |= {n.attr for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
                    for b in s.bases:
                        bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                        if bn in ("object", "Generic") or isinstance(b, ast.Subscript):
                            continue
                        if bn is None or (mod, bn) in seen:
                            full = False
                            continue
                        o2, f2 = self.klass(mod, bn, seen + ((mod, name),))
                        out |= o2
                        full = full and f2 and bool(o2)
        return out, full


LIB = Library()


# ----------------------------------------------------------------------- scopes
class Scope:
    def __init__(self, node, outer, isclass=False):
        self.node, self.outer, self.isclass = node, outer, isclass
        self.names, self.imports, self.globals = set(), {}, set()


def bound_names(node, sc, base):
    """binds in sc all that the statements of a scope bind (not those of the functions in it)"""
    todo = list(ast.iter_child_nodes(node))
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = node.args
        sc.names |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            sc.names.add(n.name)
            todo += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # the variables of comprehensions are their own
            todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
            continue
        if isinstance(n, ast.Global):
            sc.globals |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            sc.globals |= set(n.names)
        elif isinstance(n, ast.Import):
            for a in n.names:
                name = a.asname or a.name.split(".")[0]
                sc.imports.setdefault(name, set()).add(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                sc.imports.setdefault(a.asname or a.name, set()).add("." * n.level + (n.module or "") + "." + a.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            sc.names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            sc.names.add(n.name)
        todo += list(ast.iter_child_nodes(n))


def caught(stack):
    """is what happens here under an attempt that expects a missing name, or in a branch for a version"""
    for n, field in stack:
        if isinstance(n, ast.Try) and field == "body":
            for h in n.handlers:
                ts = {getattr(x, "id", getattr(x, "attr", None)) for x in ast.walk(h.type) if isinstance(x, (ast.Name, ast.Attribute))} if h.type is not None else {"Exception"}
                if ts & {"Exception", "BaseException", "ImportError", "ModuleNotFoundError", "NameError", "AttributeError"}:
                    return True
        if isinstance(n, (ast.If, ast.IfExp)) and field in ("body", "orelse"):
            if any(isinstance(x, ast.Attribute) and x.attr in ("version_info", "version", "hexversion", "__version__") or isinstance(x, ast.Name) and x.id in ("hasattr", "PY2", "PY3", "getattr") for x in ast.walk(n.test)):
                return True
    return False


class Uses(ast.NodeVisitor):
    """every use of a name and of an attribute of an imported module, with the scope it is in"""

    def __init__(self, mod):
        self.mod, self.stack, self.found, self.unbound, self.imported = mod, [], [], [], []
        self.scope = Scope(mod.tree, None)
        bound_names(mod.tree, self.scope, mod)
        self.where = []
        self.visit(mod.tree)

    def look(self, name):
        """('import', paths), 'local' or None"""
        sc, first = self.scope, True
        while sc is not None:
            if (first or not sc.isclass) and name not in sc.globals:
                if name in sc.names:
                    return "local"
                if name in sc.imports:
                    return ("import", sc.imports[name])
            sc, first = sc.outer, False
        top = self.scope
        while top.outer is not None:
            top = top.outer
        if name in top.names:
            return "local"
        return ("import", top.imports[name]) if name in top.imports else None

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    self.stack.append((n, f))
                    self.visit(x)
                    self.stack.pop()

    def inner(self, n, sc, parts):
        self.scope = sc
        for f, x in parts:
            self.stack.append((n, f))
            self.visit(x)
            self.stack.pop()
        self.scope = sc.outer

    def visit_FunctionDef(self, n):
        for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(x)
        sc = Scope(n, self.scope)
        bound_names(n, sc, self.mod)
        self.where.append(n.name)
        self.inner(n, sc, [("fn", x) for x in n.body])
        self.where.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        for x in n.bases + n.decorator_list:
            self.visit(x)
        sc = Scope(n, self.scope, True)
        bound_names(n, sc, self.mod)
        self.where.append(n.name)
        self.inner(n, sc, [("body", x) for x in n.body])
        self.where.pop()

    def visit_Lambda(self, n):
        for x in n.args.defaults:
            self.visit(x)
        sc = Scope(n, self.scope)
        bound_names(n, sc, self.mod)
        self.inner(n, sc, [("body", n.body)])

    def comp(self, n):
        sc = Scope(n, self.scope)
        for g in n.generators:
            sc.names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.scope = sc
        self.generic_visit(n)
        self.scope = sc.outer

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.imported.append((n.level, n.module or "", a.name, n, caught(self.stack), list(self.where)))

    def visit_Import(self, n):
        for a in n.names:
            self.imported.append((0, a.name, None, n, caught(self.stack), list(self.where)))

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and self.look(n.id) is None:
            self.unbound.append((n.id, n, caught(self.stack), list(self.where)))

    def visit_Attribute(self, n):
        path, x = [n.attr], n.value
        while isinstance(x, ast.Attribute):
            path.insert(0, x.attr)
            x = x.value
        if isinstance(x, ast.Name):
            k = self.look(x.id)
            if isinstance(k, tuple):
                self.found.append((k[1], tuple(path), n, caught(self.stack), list(self.where)))
                return
        self.generic_visit(n)


def scan(ctx):
    if "library uses" not in ctx.cache:
        ctx.cache["library uses"] = [(m, Uses(m)) for m in ctx.p.modules.values() if not m.name.endswith("parsetab")]
    return ctx.cache["library uses"]


def at(m, n, where):
    return "%s:%d %s" % (m.rel, n.lineno, ".".join([m.name] + where))


def vanished(paths, attrs):
    """(longest known path, name) that is not there, 'ok' or None"""
    res = None
    for p in paths:
        if p.startswith("."):
            return None
        mod = p
        # the import may be of a name in a module
        while mod and LIB.names(mod) is None:
            mod = mod.rpartition(".")[0]
        if not mod:
            return None
        rest = p[len(mod):].strip(".").split(".") if p != mod else []
        for name in rest + list(attrs):
            has = LIB.has(mod, name)
            if has is False:
                res = (mod, name)
                break
            if has and LIB.names(mod + "." + name) is not None and LIB.files(mod + "." + name):
                mod = mod + "." + name
                continue
            return "ok" if has else None
        else:
            return "ok"
    return res


@rule("C24", "library-names", 150)
def library_names(ctx):
    """Every attribute of a library module that any function uses, and every name imported, is defined by the installed library."""
    own = {m.name.split(".")[0] for m in ctx.p.modules.values()}
    for m, u in scan(ctx):
        for paths, attrs, n, soft, where in u.found:
            if soft or any(p.split(".")[0] in own or p.startswith(".") for p in paths):
                continue
            v = vanished(paths, attrs)
            key = "%s %s.%s" % (".".join([m.name] + where), sorted(paths)[0], ".".join(attrs))
            if v is None:
                ctx.unknown(key, "the contents of the module are not known", at(m, n, where))
            elif v == "ok":
                ctx.ok(key, "defined", at(m, n, where))
            else:
                ctx.bad(key, "there is no %s in %s" % (v[1], v[0]), at(m, n, where))
        for level, mod, name, n, soft, where in u.imported:
            if soft or level or mod.split(".")[0] in own or mod == "__future__":
                continue
            key = "%s import %s %s" % (".".join([m.name] + where), mod, name or "")
            if not LIB.exists(mod):
                # what is not installed here may be elsewhere; of the standard library all is here
                top = mod.split(".")[0]
                if LIB.exists(top) or top in VANISHED:
                    ctx.bad(key, "there is no module %s" % mod, at(m, n, where))
                else:
                    ctx.unknown(key, "%s is not installed" % mod, at(m, n, where))
                continue
            has = True if name in (None, "*") else LIB.has(mod, name)
            if has is None:
                ctx.unknown(key, "the contents of the module are not known", at(m, n, where))
            else:
                ctx.check(key, has, "there is no %s in %s" % (name, mod), at(m, n, where))


# modules of the standard library of earlier versions
VANISHED = {"imp", "ConfigParser", "StringIO", "cStringIO", "Queue", "cPickle", "urllib2", "commands", "sets", "asyncore", "asynchat", "distutils", "smtpd", "__builtin__", "exceptions", "string_", "UserDict",
            "itertools_", "md5", "sha", "popen2", "new", "thread", "dummy_threading", "formatter", "symbol", "parser_", "binhex", "macpath"}


@rule("C24", "unbound-names", 1)
def unbound_names(ctx):
    """Every name a function uses is bound in the module, in an enclosing scope or among the built-in names of the installed interpreter."""
    known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__", "__module__", "__qualname__", "__loader__", "__builtins__", "__annotations__"}
    n = 0
    for m, u in scan(ctx):
        if m.star_imports and any(not s.startswith("pyconform") for s in m.star_imports):
            continue
        stars = set()
        for s in m.star_imports:
            for o in ctx.p.modules.values():
                if o.name == s:
                    stars |= set(o.bind)
        for node in ast.walk(m.tree):
            n += isinstance(node, ast.Name)
        for name, node, soft, where in u.unbound:
            if name in known or name in stars or soft:
                continue
            ctx.bad("%s %s" % (".".join([m.name] + where), name), "the name %s is not bound anywhere and is not built in" % name, at(m, node, where))
    ctx.check("names", n > 0, "no name is used", "", "%d uses of names" % n)


class Assigned:
    """forward, over the statements of a function: the local names that may be bound; a use of one that cannot be bound yet fails on every path that reaches it"""

    def __init__(self, fn, mod):
        sc = Scope(fn, None)
        bound_names(fn, sc, mod)
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.local = (set(sc.names) | set(sc.imports)) - set(sc.globals) - params
        for x in ast.walk(fn):
            if isinstance(x, ast.Nonlocal):
                self.local -= set(x.names)
        self.early, self.stack, self.quiet, self.now = [], [], 0, set()
        self.block(fn.body, set())

    # the state is the set of names that may be bound; None where no path arrives
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def use(self, e, st, shadow=frozenset()):
        if e is None:
            return st
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                if e.id in self.local and e.id not in st and e.id not in shadow and not self.quiet and not caught(self.stack):
                    self.early.append((e.id, e))
                return st
            return st | {e.id}
        if isinstance(e, ast.NamedExpr):
            return self.use(e.value, st, shadow) | {e.target.id}
        if isinstance(e, ast.Lambda):
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            sh = set(shadow)
            for i, g in enumerate(e.generators):
                st = self.use(g.iter, st, sh if i else shadow)
                sh |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for c in g.ifs:
                    st = self.use(c, st, sh)
            if isinstance(e, ast.GeneratorExp) and e not in self.now:
                return st                 # evaluated later
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                st = self.use(x, st, sh)
            return st
        if isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ("tuple", "list", "set", "dict", "frozenset", "sorted", "any", "all", "sum", "min", "max", "OrderedDict") and e.func.id not in self.local
                                        or isinstance(e.func, ast.Attribute) and e.func.attr == "join"):
            self.now |= {x for x in e.args[:1] if isinstance(x, ast.GeneratorExp)}
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.keyword, ast.comprehension)):
                st = self.use(x.value if isinstance(x, ast.keyword) else x, st, shadow)
        return st

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        return set().union(*sts) if sts else None

    def bindings(self, body):
        """what the statements may bind"""
        out = set()
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif isinstance(x, ast.alias):
                    out.add((x.asname or x.name).split(".")[0])
        return out

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                st = self.use(d, st)
            return st | {s.name}
        if isinstance(s, ast.ClassDef):
            for d in s.bases + s.decorator_list:
                st = self.use(d, st)
            return st | {s.name} | self.bindings(s.body)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name).split(".")[0] for a in s.names}
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                st = self.use(x, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Assign):
            st = self.use(s.value, st)
            for t in s.targets:
                st = self.use(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.use(s.target, self.use(s.value, st))
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                st = self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            return self.use(s.target, self.use(s.value, st))
        if isinstance(s, ast.If):
            st = self.use(s.test, st)
            self.stack.append((s, "body"))
            a = self.block(s.body, set(st))
            self.stack.pop()
            self.stack.append((s, "orelse"))
            b = self.block(s.orelse, set(st))
            self.stack.pop()
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.use(s.iter, st)
            before = st
            st = st | self.bindings([s])
            self.first(s, before)
            self.block(s.body, set(st))
            self.block(s.orelse, set(st))
            return st
        if isinstance(s, ast.While):
            before = self.use(s.test, set(st))
            st = st | self.bindings([s])
            self.first(s, before)
            self.block(s.body, set(st))
            self.block(s.orelse, set(st))
            if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                return None
            return st
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.use(i.context_expr, st)
                st = self.use(i.optional_vars, st)
            after = self.block(s.body, set(st))
            return st | self.bindings(s.body) if after is None else after
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            self.stack.append((s, "body"))
            a = self.block(s.body, set(st))
            self.stack.pop()
            during = st | self.bindings(s.body)
            if a is not None:
                a = self.block(s.orelse, a)
            outs = [a]
            for h in s.handlers:
                outs.append(self.block(h.body, during | ({h.name} if h.name else set())))
            if s.finalbody:
                every = during | self.bindings(s.orelse) | self.bindings([x for h in s.handlers for x in h.body]) | {h.name for h in s.handlers if h.name}
                end = self.block(s.finalbody, every)
                if end is None:
                    return None
                out = self.join(*outs)
                return None if out is None else out | self.bindings(s.finalbody)
            return self.join(*outs)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = st - {t.id}
                else:
                    st = self.use(t, st)
            return st
        if isinstance(s, ast.Match):
            st = self.use(s.subject, st)
            return st | self.bindings(s.cases) | {x.name for c in s.cases for x in ast.walk(c.pattern) if getattr(x, "name", None)}
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                st = self.use(x, st)
        return st

    def first(self, s, before):
        """the first turn of a loop, up to its first branch: what only a later statement of the loop binds is not bound yet"""
        st = set(before) | ({x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if hasattr(s, "target") else set())
        for x in s.body:
            if not isinstance(x, (ast.Assign, ast.Expr, ast.AugAssign)) or any(isinstance(y, (ast.IfExp, ast.BoolOp, ast.comprehension)) for y in ast.walk(x)):
                return
            st = self.stmt(x, st)


def unset(ctx, c):
    """(attribute, where) that a constructor, or a method it calls, reads from its object where nothing can have set it"""
    init = c.find_method("__init__")
    if init is None or not known_bases(ctx, c):
        return []
    family = [c] + list(ctx.p.subclasses(c.name))
    given = set()
    for k in set(x for f in family for x in f.mro() if not isinstance(x, str)):
        given |= set(k.methods) | set(k.props)
        for s in k.node.body:
            given |= {y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    for k in family[1:]:
        for y in ast.walk(k.node):
            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                given.add(y.attr)
    if any(n in given for n in ("__getattr__", "__getattribute__", "__slots__")) or any(isinstance(y, ast.Name) and y.id in ("setattr", "vars") or isinstance(y, ast.Attribute) and y.attr == "__dict__" for k in c.mro() if not isinstance(k, str) for y in ast.walk(k.node)):
        return []
    r = ctx.run(init, cls=c)
    out = []
    for e in r.events:
        for t in [e.obj, e.val] + list(e.args or ()) + [v for k, v in e.kw or ()] + list(e.loops or ()):
            if t is None or not hasattr(t, "op"):
                continue
            for x in certain(t):
                if x.op == "attr" and x.args[0] is SELF and x.args[1] not in given and not x.args[1].startswith("__"):
                    if not any(x.args[1] == n for n, w in out) and not any(g[0] == "try" for g in e.ctx or ()):
                        out.append((x.args[1], "%s:%d %s" % (c.module.rel, getattr(e.node, "lineno", 0), e.fn.qual if hasattr(e.fn, "qual") else "")))
    return out


def known_bases(ctx, c):
    """are all the classes it derives from written in the project"""
    return all(not isinstance(k, str) or k.split(".")[-1] == "object" for k in c.mro())


def certain(t):
    """the parts of a value that are needed whatever happens"""
    todo = [t]
    while todo:
        x = todo.pop()
        yield x
        if x.op in ("ite", "phi", "choice", "loop", "while", "and", "or", "coll", "closure"):
            continue
        for y in x.args:
            ys = [y]
            while ys:
                z = ys.pop()
                if hasattr(z, "op"):
                    todo.append(z)
                elif isinstance(z, tuple):
                    ys += z


@rule("C24", "early-names", 100)
def early_names(ctx):
    """No function uses one of its local names where no path has bound it yet, and no constructor reads an attribute of its object where nothing has set it."""
    for m, u in scan(ctx):
        where = {}

        def names(n, path):
            for x in ast.iter_child_nodes(n):
                q = path + [x.name] if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else path
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    where[x] = q
                names(x, q)
        names(m.tree, [])
        for fn, path in where.items():
            seen = set()
            a = Assigned(fn, m)
            for name, node in a.early:
                if name not in seen:
                    seen.add(name)
                    ctx.bad("%s %s" % (".".join([m.name] + path), name), "the name %s is used where nothing has bound it yet" % name, at(m, node, path))
            if not seen:
                ctx.ok(".".join([m.name] + path), "%d local names" % len(a.local))
        for c in m.classes():
            for name, place in unset(ctx, c):
                ctx.bad("%s.%s.__init__ self.%s" % (m.name, c.name, name), "the attribute %s is read where nothing has set it yet" % name, place)


# ---------------------------------------------------------------------- methods
BUILTIN = {"dict": dict, "list": list, "set": set, "tuple": tuple, "str": str}


def type_of(t):
    """a type of which the attributes are known: a built-in type, ('lib', module, class), or None"""
    op = t.op
    if op == "const":
        v = cval(t)
        return type(v) if isinstance(v, (str, int, float)) and not isinstance(v, bool) else None
    if op in ("str", "join", "fmt", "repr"):
        return str
    if op == "tuple":
        return tuple
    if op in ("coll", "alloc") and t.args and isinstance(t.args[0], str):
        return BUILTIN.get(t.args[0])
    if op == "call":
        f = t.args[0]
        if f.op == "ext":
            n = f.args[0]
            if n in BUILTIN:
                return BUILTIN[n]
            if n in ("netCDF4.Dataset", "cf_units.Unit"):
                return ("lib",) + tuple(n.rsplit(".", 1))
            if n in ("datetime.datetime", "datetime.datetime.now", "datetime.datetime.utcnow"):
                import datetime
                return datetime.datetime
            if n == "open":
                import io
                return io.TextIOWrapper
        if f.op == "attr" and type_of(f.args[0]) is str and f.args[1] in ("strip", "lower", "upper", "replace", "join", "format", "rstrip", "lstrip"):
            return str
        if f.op == "attr" and type_of(f.args[0]) is str and f.args[1] in ("split", "rsplit", "splitlines"):
            return list
        if f.op == "attr" and f.args[1] == "createVariable" and type_of(f.args[0]) == ("lib", "netCDF4", "Dataset"):
            return ("lib", "netCDF4", "Variable")
    if op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] in ("variables", "dimensions") and type_of(t.args[0].args[0]) == ("lib", "netCDF4", "Dataset"):
        return ("lib", "netCDF4", "Variable" if t.args[0].args[1] == "variables" else "Dimension")
    return None


@rule("C24", "methods", 40)
def methods(ctx):
    """Every method that is called on a string, a container, a file, a units or a netCDF object exists for that type in the installed version."""
    seen = {}
    for fn, r in package(ctx):
        for e in r.events:
            if e.kind != "call" or e.f is None or e.f.op != "attr":
                continue
            t, name = type_of(e.f.args[0]), e.f.args[1]
            if t is None or not isinstance(name, str):
                continue
            if isinstance(t, tuple):
                has, full = LIB.klass(t[1], t[2])
                good = True if name in has else None if not has else False
                # (attributes of a netCDF file are attributes of the object, but they are no methods)
                tn = ".".join(t[1:])
            else:
                good, tn = hasattr(t, name), t.__name__
            key = "%s %s.%s" % (e.fn.qual if e.fn is not None else fn.qual, tn, name)
            seen.setdefault((key, good), (e, tn, name))
    for (key, good), (e, tn, name) in sorted(seen.items(), key=lambda x: x[0][0]):
        ctx.check(key, good, "a %s has no method %s" % (tn, name), spot(e, e.fn))


def spot(e, fn):
    return "%s:%s %s" % (fn.module.rel, getattr(e.node, "lineno", getattr(fn.node, "lineno", "?")), fn.qual) if fn is not None else ""


# --------------------------------------------------------------------- integers
FLOATING = {"float", "numpy.floor", "numpy.ceil", "numpy.rint", "numpy.round", "numpy.around", "numpy.mean", "numpy.true_divide", "numpy.divide", "operator.truediv", "numpy.sqrt", "math.sqrt", "numpy.float64",
            "numpy.float32", "time.time", "numpy.fix", "numpy.trunc", "math.log", "math.log10", "numpy.log10", "numpy.log"}
KEEPS = {"abs", "max", "min", "sum", "numpy.abs", "numpy.absolute", "numpy.maximum", "numpy.minimum", "divmod"}


def division(t, depth=0):
    """a true division whose value the term passes on as a number that is not an integer, or None"""
    if depth > 25:
        return None
    op = t.op
    go = lambda x: division(x, depth + 1)
    if op == "bin":
        o, a, b = t.args
        if o == "/":
            return t
        if o in ("+", "-", "*", "//", "%", "**"):
            return go(a) or go(b)
        return None
    if op == "const":
        return t if isinstance(cval(t), float) else None
    if op in ("neg", "maybeneg", "un"):
        return go(t.args[-1])
    if op == "ite":
        return go(t.args[1]) or go(t.args[2])
    if op == "call":
        f, args = t.args[0], t.args[1]
        n = f.args[0] if f.op == "ext" else None
        if n == "round":
            return go(args[0]) if len(args) > 1 else None
        if n in FLOATING:
            return t
        if n in KEEPS:
            for a in args:
                d = go(a)
                if d is not None:
                    return d
    return None


SHAPES = {"numpy.zeros": 0, "numpy.ones": 0, "numpy.empty": 0, "numpy.full": 0, "numpy.ma.zeros": 0, "numpy.ma.empty": 0, "numpy.ma.ones": 0, "numpy.ma.masked_all": 0, "numpy.eye": 0, "numpy.identity": 0,
          "numpy.reshape": 1, "numpy.repeat": 1, "numpy.tile": 1, "numpy.linspace": 2, "numpy.roll": 1, "numpy.broadcast_to": 1, "numpy.resize": 1, "numpy.take": 1}
ALLARGS = {"range", "slice", "datetime.datetime", "datetime.date", "itertools.islice", "numpy.index_exp"}


def parts(t):
    if t.op == "tuple":
        return list(t.args)
    if t.op == "coll":
        return [x[2] for x in t.args[1] if len(x) > 2]
    return [t]


def sinks(t):
    """(what, [terms that must be integers]) of one term"""
    if t.op == "call":
        f, args, kw = t.args[0], t.args[1], t.args[2] if len(t.args) > 2 else ()
        n = f.args[0] if f.op == "ext" else None
        if n in ALLARGS:
            yield n, list(args[1:] if n == "itertools.islice" else args)
        elif n in SHAPES:
            k = SHAPES[n]
            got = list(args[k:k + 1]) + [v for x, v in kw if x in ("shape", "repeats", "num", "reps", "newshape")]
            yield n, [p for a in got for p in parts(a)]
        elif f.op == "attr" and f.args[1] in ("reshape", "createDimension", "resize", "repeat"):
            got = args[1:] if f.args[1] == "createDimension" else args
            yield f.args[1], [p for a in got for p in parts(a)]
    elif t.op == "sub":
        o = t.args[0]
        if type_of(o) is dict:
            return
        yield "index", index_parts(t.args[1])


def index_parts(i):
    out = []
    for p in parts(i):
        out += [x for x in p.args] if p.op == "slice" else [p]
    return out


@rule("C24", "integers", 150)
def integers(ctx):
    """No true division, and nothing else that is a floating point number, reaches an index, a slice bound, the limits of a range, a shape, a repetition count or a part of a date without being
    converted."""
    seen = {}
    for fn, r in package(ctx):
        terms = {}
        for e in r.events:
            if e.kind == "order":
                continue
            tops = [x for x in (e.val, e.res, e.obj, e.name, e.f) if x is not None and hasattr(x, "op")]
            tops += [a for a in (e.args or ()) if hasattr(a, "op")] + [v for k, v in (e.kw or ()) if hasattr(v, "op")]
            if e.kind in ("getitem", "setitem", "delitem") and e.name is not None and hasattr(e.name, "op") and type_of(e.obj) is not dict:
                found(seen, e.fn or fn, "index", index_parts(e.name), e, fn)
            for x in tops:
                for s in walk(x, None) if x not in terms else ():
                    if s not in terms:
                        terms[s] = e
        for s, e in terms.items():
            for what, ps in sinks(s):
                found(seen, e.fn or fn, what, ps, e, fn)
    for key, (bad, e, fn) in sorted(seen.items()):
        ctx.check(key, bad is None, "%s is no integer" % (show(bad, 5) if bad is not None else ""), spot(e, e.fn or fn))


def found(seen, fn, what, ps, e, root):
    for p in ps:
        if not hasattr(p, "op") or is_const(p) and not isinstance(cval(p), float):
            continue
        d = division(p)
        key = "%s %s %s" % (fn.qual, what, show(p, 4)[:80])
        if d is not None or key not in seen:
            seen[key] = (p if d is not None else None, e, root)
