"""Index of the real source: modules, classes, functions, MRO.

Everything the verifier executes is an ``ast`` node parsed from the files under
<root> on this very run; nothing is transcribed by hand.
"""
import ast
import os


class Unsupported(Exception):
    pass


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_property = "property" in self.decorators
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)
        self.is_classmethod = "classmethod" in self.decorators
        self.is_static = "staticmethod" in self.decorators
        self.is_contextmanager = any(
            d in ("contextmanager", "contextlib.contextmanager")
            for d in self.decorators
        )
        known = {"property", "classmethod", "staticmethod", "contextmanager",
                 "contextlib.contextmanager", "overload", "typing.overload"}
        self.other_decorators = [
            d for d in self.decorators if d not in known and not d.endswith(".setter")
        ]
        self.is_generator = _has_yield(node)

    def source(self):
        return ast.unparse(self.node)

    @property
    def lineno(self):
        return self.node.lineno

    def __repr__(self):
        return "<fn %s>" % self.qual


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.bases = [ast.unparse(b).split("[")[0].split(".")[-1] for b in node.bases]
        self.methods = {}
        self.setters = {}
        self.classvars = {}
        self.annots = {}
        for s in node.body:
            self._scan(s)

    def _scan(self, s):
        if isinstance(s, ast.FunctionDef):
            fi = FuncInfo(
                "%s.%s.%s" % (self.module.name, self.name, s.name), s, self.module, self
            )
            if fi.is_setter:
                self.setters[s.name] = fi
            else:
                self.methods[s.name] = fi
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.annots[s.target.id] = s.annotation
            if s.value is not None:
                self.classvars[s.target.id] = s.value
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.classvars[t.id] = s.value
        elif isinstance(s, ast.If):
            for b in s.body + s.orelse:
                self._scan(b)

    @property
    def is_enum(self):
        return any(b in ("Enum", "EnumWithDefault", "IntEnum") for b in self.bases)

    @property
    def is_namedtuple(self):
        return "NamedTuple" in self.bases


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.names = {}
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.names.setdefault(
                    s.name, None
                )
                self.names[s.name] = (
                    "func",
                    FuncInfo("%s.%s" % (self.name, s.name), s, self),
                )
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ("class", ClassInfo(s.name, s, self))
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.names[a.asname or a.name] = (
                        "import",
                        ("." * s.level) + (s.module or ""),
                        a.name,
                    )
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.names[a.asname or a.name.split(".")[0]] = ("module", a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("assign", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.names[s.target.id] = ("assign", s.value)
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)


class Program:
    def __init__(self, root="/repo/core", pkg="ipyflow"):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.errors = []
        self.harness = {}
        for dp, dn, fn in os.walk(os.path.join(root, pkg)):
            dn[:] = [d for d in dn if d not in ("__pycache__", "resources")]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                name = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                src = open(path, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    self.errors.append((path, str(e)))
                    continue
                self.modules[name] = Module(name, path, tree, src)
        for m in self.modules.values():
            for nm, ent in m.names.items():
                if ent and ent[0] == "class":
                    # prefer data-model classes over same-named protocol stubs
                    if nm in self.classes and m.name in (
                        "ipyflow.singletons",
                    ):
                        continue
                    self.classes[nm] = ent[1]

    def mro(self, cname):
        out, todo = [], [cname]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            ci = self.classes.get(c)
            out.append(c)
            if ci is not None:
                todo.extend(b for b in ci.bases if b != c)
        return [c for c in out if c in self.classes]

    def is_subclass(self, c, d):
        return c == d or d in self.mro(c)

    def lookup(self, cname, attr):
        """('method', FuncInfo) | ('classvar', ClassInfo, expr|None) | None"""
        for c in self.mro(cname):
            ci = self.classes[c]
            if attr in ci.methods:
                return ("method", ci.methods[attr])
            if attr in ci.classvars:
                return ("classvar", ci, ci.classvars[attr])
        for c in self.mro(cname):
            ci = self.classes[c]
            if attr in ci.annots:
                return ("annot", ci, ci.annots[attr])
        return None

    def lookup_setter(self, cname, attr):
        for c in self.mro(cname):
            ci = self.classes[c]
            if attr in ci.setters:
                return ci.setters[attr]
        return None

    def add_harness(self, modname, src):
        """A client of real code (never a copy of it): a function whose body the
        specification writes, with names resolved in module ``modname``."""
        fn = ast.parse(src).body[0]
        q = "harness:%s:%s" % (modname, fn.name)
        m = self.modules.get(modname)
        if m is not None:
            self.harness[q] = FuncInfo(q, fn, m)
        return q

    def func(self, qual):
        """Resolve 'mod.func' / 'mod.Class.meth' ('@setter' suffix for setters)."""
        if qual.startswith("harness:"):
            return self.harness.get(qual)
        setter = qual.endswith("@setter")
        q = qual[: -len("@setter")] if setter else qual
        parts = q.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            ent = m.names.get(rest[0])
            if len(rest) == 1:
                if ent and ent[0] == "func":
                    return ent[1]
                return None
            if ent and ent[0] == "class" and len(rest) == 2:
                ci = ent[1]
                return (ci.setters if setter else ci.methods).get(rest[1])
        return None
