"""Parses every module of the package under analysis and resolves names, imports, classes and methods."""
import ast
import builtins
import hashlib
import os


class FuncInfo:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = node.name
        self.qual = (cls.qual + "." if cls else module.name + ".") + node.name
        self.decorators = {ast.unparse(d) for d in node.decorator_list}
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = "property" in self.decorators or any(d.endswith(".getter") for d in self.decorators)
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node = module, node
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods, self.props, self.setters, self.attrs = {}, {}, {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(module, s, cls=self)
                if f.is_setter:
                    self.setters[s.name] = f
                elif f.is_property:
                    self.props[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
        self.bases = []   # resolved later: ClassInfo or dotted external string

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if isinstance(c, ClassInfo):
                if c in out:
                    continue
                out.append(c)
                todo = list(c.bases) + todo
            else:
                out.append(c)
        return out

    def find_method(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name]
            else:
                return None     # external base: unknown from here on
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def find_prop(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.props:
                return c.props[name]
        return None

    def has_base(self, name):
        """name: repo class name, or dotted external name"""
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if c.name == name or c.qual == name:
                    return True
            elif c == name or c.split(".")[-1] == name:
                return True
        return False

    def __repr__(self):
        return "<C %s>" % self.qual


class ModuleInfo:
    def __init__(self, name, path, rel, source):
        self.name, self.path, self.rel, self.source = name, path, rel, source
        self.tree = ast.parse(source, filename=rel)
        self.bind = {}      # name -> ('func',FuncInfo)|('class',ClassInfo)|('import',dotted)|('assign',expr)
        self.star_imports = []
        self.is_pkg = path.endswith("__init__.py")

    def collect(self, body=None):
        for s in self.tree.body if body is None else body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bind[s.name] = ("func", FuncInfo(self, s))
            elif isinstance(s, ast.ClassDef):
                self.bind[s.name] = ("class", ClassInfo(self, s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.bind[a.asname] = ("import", a.name)
                    else:
                        self.bind[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._from_base(s)
                for a in s.names:
                    if a.name == "*":
                        self.star_imports.append(base)
                    else:
                        self.bind[a.asname or a.name] = ("import", (base + "." if base else "") + a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ([t] if isinstance(t, ast.Name) else getattr(t, "elts", [])):
                        if isinstance(n, ast.Name):
                            self.bind[n.id] = ("assign", s.value if n is t else None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.bind[s.target.id] = ("assign", s.value)
            elif isinstance(s, ast.Try):
                self.collect(s.body)
                for h in s.handlers:
                    pre = dict(self.bind)
                    self.collect(h.body)
                    for k in pre:       # names bound in the try body win, but values assigned on both ways are either
                        self.bind[k] = self.either(pre[k], self.bind[k])
                self.collect(s.orelse)
                self.collect(s.finalbody)
            elif isinstance(s, (ast.If, ast.With)):
                self.collect(s.body)
                pre = dict(self.bind)
                self.collect(getattr(s, "orelse", []))
                for k in pre:
                    if self.bind[k] is not pre[k] and getattr(s, "orelse", []):
                        self.bind[k] = self.either(pre[k], self.bind[k])

    @staticmethod
    def either(a, b):
        if a[0] == b[0] == "assign" and a is not b and (a[1] is None or b[1] is None or ast.dump(a[1]) != ast.dump(b[1])):
            return ("assign", None)
        return a

    def _from_base(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def classes(self):
        return [v for k, v in self.bind.values() if k == "class"]

    def functions(self):
        return [v for k, v in self.bind.values() if k == "func"]


class AnalysisBroken(Exception):
    """The analysis itself cannot give an answer (vanished anchor, unparsable source)."""


class Project:
    def __init__(self, root="/repo", package="pyconform"):
        self.root, self.package = root, package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s not found" % base)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        self.modules[name] = ModuleInfo(name, path, rel, src)
                    except SyntaxError as e:
                        raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        for m in self.modules.values():
            m.collect()
        for m in self.modules.values():
            for c in m.classes():
                for b in c.node.bases:
                    c.bases.append(self._resolve_base(m, b))
        self._canon = self._property_aliases()

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].source.encode() + b"\0")
        return h.hexdigest()[:16]

    def _resolve_base(self, m, node):
        r = self.resolve_expr(m, node)
        if r and r[0] == "class":
            return r[1]
        if r and r[0] == "ext":
            return r[1]
        return ast.unparse(node)

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.resolve(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            if b is None:
                return None
            return self.member(b, node.attr)
        return None

    def member(self, b, attr):
        if b[0] == "module":
            return self.resolve(b[1], attr) or None
        if b[0] == "ext":
            return ("ext", b[1] + "." + attr)
        return None

    def resolve_dotted(self, dotted):
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if dotted.split(".")[0] == self.package:
            head, _, tail = dotted.rpartition(".")
            b = self.resolve_dotted(head) if head else None
            if b and b[0] == "module":
                return self.resolve(b[1], tail)
            return None
        return ("ext", dotted)

    def resolve(self, m, name, _seen=()):
        if name in m.bind:
            kind, v = m.bind[name]
            if kind in ("func", "class"):
                return (kind, v)
            if kind == "import":
                if v.startswith(m.name + ".") and v in _seen:
                    return None
                return self.resolve_dotted(v)
            return ("global", m, name, v)
        for base in m.star_imports:
            r = self.resolve_dotted(base)
            if r and r[0] == "module":
                x = self.resolve(r[1], name)
                if x:
                    return x
        if hasattr(builtins, name):
            return ("ext", name)
        return None

    # --- property aliases: `_label` <-> `label` -------------------------------------------------
    def _property_aliases(self):
        """per class: private storage attribute -> public property name; plus package-unique map"""
        per, allm = {}, {}
        for m in self.modules.values():
            for c in m.classes():
                for n, f in c.props.items():
                    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Return):
                        v = body[0].value
                        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self":
                            per.setdefault(c.qual, {})[v.attr] = n
                            allm.setdefault(v.attr, set()).add(n)
        self._per = per
        return {k: next(iter(v)) for k, v in allm.items() if len(v) == 1}

    def canon_attr(self, cls, attr):
        if cls is not None:
            for c in cls.mro():
                if isinstance(c, ClassInfo):
                    a = self._per.get(c.qual, {}).get(attr)
                    if a:
                        return a
            return attr
        return self._canon.get(attr, attr)

    # --- anchors ---------------------------------------------------------------------------------
    def module(self, short):
        n = self.package + "." + short
        if n not in self.modules:
            raise AnalysisBroken("module %s not found" % n)
        return self.modules[n]

    def cls(self, short):
        mod, name = short.rsplit(".", 1)
        m = self.module(mod)
        r = self.resolve(m, name)
        if not r or r[0] != "class":
            raise AnalysisBroken("class %s not found" % short)
        return r[1]

    def func(self, short):
        """'physarray.PhysArray.__add__' or 'indexing.join' -> FuncInfo (methods found through the MRO)"""
        parts = short.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if self.package + "." + mod in self.modules:
                m = self.modules[self.package + "." + mod]
                rest = parts[i:]
                r = self.resolve(m, rest[0])
                if len(rest) == 1 and r and r[0] == "func":
                    return r[1]
                if len(rest) == 2 and r and r[0] == "class":
                    f = r[1].find_method(rest[1]) or r[1].find_prop(rest[1])
                    if f:
                        return f
                break
        raise AnalysisBroken("function %s not found" % short)

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes():
                yield c

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.functions():
                yield f
            for c in m.classes():
                for f in list(c.methods.values()) + list(c.props.values()) + list(c.setters.values()):
                    yield f

    def subclasses(self, name):
        return [c for c in self.all_classes() if c.name != name and c.has_base(name)]
