"""Base class of a verification world: schemas, intrinsics, contracts."""
import ast

import z3

from . import types as T
from .engine import Meta, Sc
from .program import Unsupported
from .types import (
    TAny, TBool, TDict, TEnum, TId, TInt, TList, TOpt, TRef, TSet, TStr, TTup,
)


class World:
    inv_timeout = 800

    def __init__(self):
        self.fields = {}
        self.globs = {"$alloc": TSet(TRef("$any", True))}
        self.tuples = {}
        self.names = {}
        self.intrinsics = {}
        self.externs = {}
        self.constructors = {}
        self.methods = {}
        self.allocatable = set()
        self.contracts = []
        self.ignored = set()
        self.guards = {}  # field key -> (name, fn(eng, st, ref)): what must hold when it is assigned
        self.shares = []
        self._axioms = []
        self.enums = {}
        self.inline_only = set()
        self.ann_alias = set()

    def declare(self, cls, **fields):
        for k, ty in fields.items():
            self.fields["%s.%s" % (cls, k)] = ty

    def axioms(self, eng, st):
        return list(self._axioms)

    def self_type(self, cls):
        if cls in self.tuples:
            return self.tuples[cls]
        return TRef(cls)

    def field_key(self, prog, cls, name):
        for c in prog.mro(cls) or [cls]:
            k = "%s.%s" % (c, name)
            if k in self.fields:
                return k
        k = "%s.%s" % (cls, name)
        return k if k in self.fields else None

    def glob_key(self, prog, cls, name):
        for c in prog.mro(cls) or [cls]:
            k = "%s.%s" % (c, name)
            if k in self.globs:
                return k
        return None

    def ignored_field(self, cls, name):
        return "%s.%s" % (cls, name) in self.ignored

    def intrinsic_method(self, prog, cls, name):
        for c in prog.mro(cls) or [cls]:
            h = self.methods.get("%s.%s" % (c, name))
            if h is not None:
                return h
        return self.methods.get("%s.%s" % (cls, name))

    def enum_type(self, prog, name):
        if name not in self.enums:
            ci = prog.classes[name]
            members = []
            for s in ci.node.body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and not t.id.startswith("__"):
                            members.append(t.id)
            self.enums[name] = TEnum(name, members)
        return self.enums[name]

    def allow_share(self, root, keys, troot, tkeys):
        for a, b in self.shares:
            if root[0] == "f" and troot[0] == "f" and root[1] == a and troot[1] == b:
                return True
        return False

    def isinstance_hook(self, eng, st, v, cls):
        return None

    def find_contract(self, fi, selfcls, eng, st, bound):
        q = fi.qual + ("@setter" if fi.is_setter else "")
        if q in self.inline_only:
            return None
        cs = [c for c in self.contracts
              if c.use and c.qual == q and (c.selfcls is None or c.selfcls == selfcls)
              and c.accepts(eng, st, bound)]
        if len(cs) > 1:
            for c in cs:
                if c.applicable(eng, st, bound, selfcls):
                    return c
            return None
        return cs[0] if cs else None

    # annotations ------------------------------------------------------------
    ANN = {"int": TInt, "bool": TBool, "str": TStr, "IdType": TId, "Any": TAny}

    def ann_type(self, ann, eng, st):
        try:
            return self._ann(ann, eng)
        except Unsupported:
            return None

    def _ann(self, a, eng):
        prog = eng.prog
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                return self._ann(ast.parse(a.value, mode="eval").body, eng)
            if a.value is None:
                return T.TNone
            raise Unsupported("annotation")
        if isinstance(a, ast.Name):
            if a.id in self.ANN:
                return self.ANN[a.id]
            if a.id in self.tuples:
                return self.tuples[a.id]
            if a.id in self.ann_alias:
                return TRef(eng.top_contract.selfcls)
            ci = prog.classes.get(a.id)
            if ci is not None:
                if ci.is_enum:
                    return self.enum_type(prog, a.id)
                return TRef(a.id)
            raise Unsupported("annotation %s" % a.id)
        if isinstance(a, ast.Attribute):
            return TAny
        if isinstance(a, ast.Subscript):
            n = ast.unparse(a.value).split(".")[-1]
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if n in ("Set", "FrozenSet", "set", "frozenset"):
                return TSet(self._ann(args[0], eng))
            if n in ("Dict", "Mapping", "dict", "DefaultDict"):
                return TDict(self._ann(args[0], eng), self._ann(args[1], eng))
            if n in ("List", "list", "Sequence"):
                return TList(self._ann(args[0], eng))
            if n == "Optional":
                t = self._ann(args[0], eng)
                return TRef(t.cls, True) if isinstance(t, TRef) else TOpt(t)
            if n in ("Tuple", "tuple"):
                return TTup([(None, self._ann(x, eng)) for x in args])
            if n == "Union":
                ts = {ast.unparse(x) for x in args}
                if ts == {"str", "int"}:
                    return TId
        raise Unsupported("annotation %s" % ast.unparse(a))
