"""Path-based symbolic executor over the real function ASTs (see DESIGN.md §2).

Values
  Sc(ty, z)            scalar: z3 term with a static type
  Tup(items, cname)    tuple (meta-level)
  Loc(root, keys, ty)  mutable container, identified by where it lives
  Meta(kind, ...)      classes, functions, bound methods, generators, ...
"""
import ast
import itertools
import os
import time

import z3

from . import solve
from . import types as T
from .program import FuncInfo, Unsupported
from .types import (
    NULL, TAny, TBool, TDict, TEnum, TId, TInt, TList, TNone, TOpt, TRef, TSet,
    TStr, TTup, fresh, is_container, opt_parts,
)

LIGHT = int(__import__('os').environ.get('PYVC_LIGHT', '1'))
def FA(xs, body, patterns=()):
    """a quantifier with the given triggers where the solver accepts them"""
    try:
        return z3.ForAll(xs, body, patterns=list(patterns))
    except z3.Z3Exception:
        return z3.ForAll(xs, body)


TRACE = bool(os.environ.get("PYVC_TRACE"))
INF = z3.Const("INF", z3.IntSort())
BoolT, BoolF = z3.BoolVal(True), z3.BoolVal(False)


class Sc:
    __slots__ = ("ty", "z")

    def __init__(self, ty, z):
        self.ty, self.z = ty, z

    def __repr__(self):
        return "Sc(%s,%s)" % (self.ty, self.z)


class Tup:
    def __init__(self, items, cname=None):
        self.items = list(items)
        self.cname = cname

    def __repr__(self):
        return "Tup(%s)" % self.items


class Loc:
    """root: ('r', rid) | ('f', 'Cls.attr', ref) | ('g', name); keys: z3 terms."""

    def __init__(self, root, keys=(), ty=None):
        self.root, self.keys, self.ty = root, tuple(keys), ty

    def __repr__(self):
        return "Loc(%s,%s,%s)" % (self.root, self.keys, self.ty)


class Meta:
    def __init__(*pos, **d):
        pos[0].kind = pos[1]
        pos[0].__dict__.update(d)

    def __repr__(self):
        return "Meta(%s,%s)" % (self.kind, {k: v for k, v in self.__dict__.items() if k != "kind"})


class Poison:
    pass


NONE = Sc(TNone, None)
TRUE = Sc(TBool, BoolT)
FALSE = Sc(TBool, BoolF)


class Frame:
    def __init__(self, env, module, fn=None, selfcls=None, yieldh=None, closure=None):
        self.env, self.module, self.fn = env, module, fn
        self.selfcls, self.yieldh, self.closure = selfcls, yieldh, closure
        self.globals_decl = set()
        self.loop_ord = 0

    def copy(self):
        f = Frame(dict(self.env), self.module, self.fn, self.selfcls, self.yieldh, self.closure)
        f.globals_decl = self.globals_decl
        f.loop_ord = self.loop_ord
        return f


class State:
    def __init__(self):
        self.heap, self.globs, self.roots, self.rty, self.fwd = {}, {}, {}, {}, {}
        self.pc = []
        self.frames, self.susp, self.pend, self.snaps = [], [], [], []

    def copy(self):
        s = State()
        s.heap, s.globs = dict(self.heap), dict(self.globs)
        s.roots, s.rty, s.fwd = dict(self.roots), dict(self.rty), dict(self.fwd)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.susp = [f.copy() for f in self.susp]
        s.pend = list(self.pend)
        s.snaps = list(self.snaps)
        return s

    def snap(self):
        """Remember the heap here (a specification may name it: the state some loop ended in)."""
        s = State()
        s.heap, s.globs, s.roots, s.rty = dict(self.heap), dict(self.globs), dict(self.roots), dict(self.rty)
        s.fwd = dict(self.fwd)
        self.snaps.append(s)
        return self

    def assume(self, c):
        if not z3.is_true(c):
            self.pc.append(("c", c))

    def define(self, c):
        if not z3.is_true(c):
            self.pc.append(("d", c))

    def zpc(self):
        return [c for _, c in self.pc]

    @property
    def env(self):
        return self.frames[-1].env


NEXT = ("next",)
BREAK = ("break",)
CONTINUE = ("continue",)

EXC_BASES = {
    "KeyError": ["LookupError", "Exception"],
    "IndexError": ["LookupError", "Exception"],
    "ValueError": ["Exception"],
    "TypeError": ["Exception"],
    "AttributeError": ["Exception"],
    "AssertionError": ["Exception"],
    "StopIteration": ["Exception"],
    "RuntimeError": ["Exception"],
    "NotImplementedError": ["RuntimeError", "Exception"],
    "SyntaxError": ["Exception"],
    "ImportError": ["Exception"],
    "Exception": [],
}


class Ob:
    def __init__(self, name, pc, goal, where=""):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where
        self.status, self.backend, self.secs, self.detail = None, None, 0.0, ""


class Engine:
    def __init__(self, prog, world):
        self.specfns = {}
        self.prog = prog
        self.w = world  # schemas, contracts, intrinsics (see world.py)
        self.sinks = []
        self.obs = []
        self.rid = 0
        self.top_contract = None
        self.depth = 0
        self.dry = 0  # >0: obligations are not recorded (discovery runs)
        self.mod_cache, self.mod_of = {}, {}
        self.lossy = False
        self.modphase = 0  # >0: only the set of modified locations is wanted
        self.rec, self.play = None, None  # loop invariants inferred / to reuse, in order of encounter
        self.inits = {}
        self.inlined = set()
        self.loop_log = []
        self.axioms = []

    # ------------------------------------------------------------------ state
    def heap_get(self, st, key):
        if key not in st.heap:
            ty = self.w.fields[key]
            if key not in self.inits:
                self.inits[key] = z3.Const("H_" + key.replace(".", "_"), z3.ArraySort(T.Ref, ty.sort()))
            st.heap[key] = self.inits[key]
        return st.heap[key]

    def glob_get(self, st, name):
        if name not in st.globs:
            ty = self.w.globs[name]
            k = "g:" + name
            if k not in self.inits:
                self.inits[k] = z3.Const("G_" + name.replace(".", "_"), ty.sort())
            st.globs[name] = self.inits[k]
        return st.globs[name]

    def new_root(self, st, ty, z=None, lazy=None):
        self.rid += 1
        rid = self.rid
        st.roots[rid] = z
        st.rty[rid] = ty if ty is not None else ("lazy", lazy)
        return Loc(("r", rid), (), None)

    def resolve(self, st, loc):
        root, keys = loc.root, loc.keys
        while root[0] == "r" and root[1] in st.fwd:
            r2, k2 = st.fwd[root[1]]
            root, keys = r2, tuple(k2) + keys
        return root, keys

    def root_ty(self, st, root):
        if root[0] == "r":
            return st.rty[root[1]]
        if root[0] == "f":
            return self.w.fields[root[1]]
        return self.w.globs[root[1]]

    def loc_ty(self, st, loc):
        root, keys = self.resolve(st, loc)
        ty = self.root_ty(st, root)
        for _ in keys:
            ty = ty.val
        return ty

    def is_lazy(self, st, loc):
        return isinstance(self.loc_ty(st, loc), tuple)

    def materialize(self, st, loc, ty):
        t = self.loc_ty(st, loc)
        if isinstance(t, tuple):
            kind = t[1]
            if kind == "dict" and not isinstance(ty, TDict) or kind == "set" and not isinstance(ty, TSet) or kind == "list" and not isinstance(ty, TList):
                raise Unsupported("cannot type empty %s as %s" % (kind, ty))
            root, keys = self.resolve(st, loc)
            st.rty[root[1]] = ty
            st.roots[root[1]] = T.empty_of(ty)

    def root_val(self, st, root):
        if root[0] == "r":
            return st.roots[root[1]]
        if root[0] == "f":
            return z3.Select(self.heap_get(st, root[1]), root[2])
        return self.glob_get(st, root[1])

    def set_root(self, st, root, z):
        if root[0] == "r":
            st.roots[root[1]] = z
        elif root[0] == "f":
            st.heap[root[1]] = z3.Store(self.heap_get(st, root[1]), root[2], z)
        else:
            st.globs[root[1]] = z

    def read(self, st, loc):
        root, keys = self.resolve(st, loc)
        z = self.root_val(st, root)
        ty = self.root_ty(st, root)
        if isinstance(ty, tuple):
            raise Unsupported("read of untyped empty container")
        for k in keys:
            z = self.dict_val(ty, z, k)
            ty = ty.val
        return z

    def write(self, st, loc, z):
        root, keys = self.resolve(st, loc)
        ty = self.root_ty(st, root)

        def upd(ty, cur, keys):
            if not keys:
                return z
            k = keys[0]
            if ty.default:
                inner = z3.Select(cur, k)
                return z3.Store(cur, k, upd(ty.val, inner, keys[1:]))
            none, some, isn, iss, val = opt_parts(ty.val.sort())
            inner = val(z3.Select(cur, k))
            return z3.Store(cur, k, some(upd(ty.val, inner, keys[1:])))

        self.set_root(st, root, upd(ty, self.root_val(st, root), keys))

    # dict primitives (default dicts are total maps)
    def dict_has(self, ty, z, k):
        if ty.default:
            return BoolT
        return opt_parts(ty.val.sort())[3](z3.Select(z, k))

    def dict_val(self, ty, z, k):
        if ty.default:
            return z3.Select(z, k)
        return opt_parts(ty.val.sort())[4](z3.Select(z, k))

    def dict_store(self, ty, z, k, v):
        if ty.default:
            return z3.Store(z, k, v)
        return z3.Store(z, k, opt_parts(ty.val.sort())[1](v))

    # ------------------------------------------------------------- conversion
    def to_z(self, st, v, ty):
        """Encode value v as a z3 term of static type ty."""
        if isinstance(v, Poison):
            raise Unsupported("use of a container alias after its slot was overwritten")
        if isinstance(v, Loc):
            if isinstance(ty, TOpt):
                return opt_parts(ty.inner.sort())[1](self.to_z(st, v, ty.inner))
            if not is_container(ty):
                raise Unsupported("container where %s expected" % ty)
            self.materialize(st, v, ty)
            vt = self.loc_ty(st, v)
            if vt != ty:
                raise Unsupported("container type %s where %s expected" % (vt, ty))
            return self.read(st, v)
        if isinstance(v, Tup):
            if isinstance(ty, TTup):
                if len(ty.fields) != len(v.items):
                    raise Unsupported("tuple arity")
                return ty.dt()[1](*[self.to_z(st, i, t) for i, (_, t) in zip(v.items, ty.fields)])
            if isinstance(ty, TOpt):
                return opt_parts(ty.inner.sort())[1](self.to_z(st, v, ty.inner))
            raise Unsupported("tuple where %s expected" % ty)
        if isinstance(v, Sc):
            if v.ty == ty:
                return v.z
            if isinstance(ty, TRef):
                if v.ty is TNone:
                    return NULL
                if isinstance(v.ty, TRef):
                    return v.z
            if isinstance(ty, TOpt):
                none, some, *_ = opt_parts(ty.inner.sort())
                if v.ty is TNone:
                    return none
                if isinstance(v.ty, TOpt) and v.ty.inner == ty.inner:
                    return v.z
                return some(self.to_z(st, v, ty.inner))
            if isinstance(v.ty, TOpt) and not isinstance(ty, TOpt):
                # only legal where the value is known present
                none, some, isn, iss, val = opt_parts(v.ty.inner.sort())
                if not solve.entails_quick(st.zpc(), iss(v.z)):
                    if ty is TAny:
                        return z3.If(isn(v.z), T.ANY_NONE, self.to_z(st, Sc(v.ty.inner, val(v.z)), ty))
                    raise Unsupported("optional %s where %s expected" % (v.ty, ty))
                return self.to_z(st, Sc(v.ty.inner, val(v.z)), ty)
            if ty in (TAny, TId):
                if v.ty is TNone:
                    return T.ANY_NONE if ty is TAny else z3.Const("id_none", T.IdSort)
                if v.ty is TAny and ty is TId:
                    return T.unbox_fn(T.AnySort, T.IdSort)(v.z)
                return T.box_fn(v.ty.sort(), ty.sort())(v.z)
            if v.ty is TAny:
                return T.unbox_fn(T.AnySort, ty.sort())(v.z)
            if v.ty is TId and ty in (TInt, TStr):
                # an id used where the code has checked (or assumes) it is an int / str
                return T.unbox_fn(T.IdSort, ty.sort())(v.z)
            if ty is TInt and v.ty is TBool:
                return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Meta) and ty is TAny:
            return self.meta_any(v)
        raise Unsupported("cannot encode %s as %s" % (v, ty))

    def meta_any(self, v):
        """An opaque value for a class, builtin or function object."""
        if v.kind in ("class", "enumclass", "builtin", "excclass", "extern"):
            return z3.Const("any_" + v.name, T.AnySort)
        if v.kind == "func":
            return z3.Const("any_fn_" + v.fi.qual, T.AnySort)
        return fresh("any_meta", T.AnySort)

    def from_z(self, st, z, ty, loc=None):
        """Wrap a z3 term of static type ty as a value (containers: loc or fresh root)."""
        if is_container(ty):
            return loc if loc is not None else self.new_root(st, ty, z)
        if isinstance(ty, TRef) and not ty.nullable:
            st.define(z != NULL)
        return Sc(ty, z)

    def fresh_val(self, st, ty, name):
        if isinstance(ty, Meta):
            return ty
        z = fresh(name, ty.sort())
        self.typing(st, z, ty)
        return self.from_z(st, z, ty)

    def typing(self, st, z, ty):
        for a in self.typing_axioms(z, ty):
            st.define(a)

    def typing_axioms(self, z, ty):
        """Well-typedness of a fresh value: no null among non-null refs, len >= 0."""
        out = []
        if isinstance(ty, TRef) and not ty.nullable:
            out.append(z != NULL)
        elif isinstance(ty, TSet):
            if isinstance(ty.elem, TRef) and not ty.elem.nullable:
                out.append(z3.Not(z3.Select(z, NULL)))
        elif isinstance(ty, TList):
            ln = ty.dt()[2](z)
            out.append(ln >= 0)
            if isinstance(ty.elem, TRef) and not ty.elem.nullable:
                i = z3.Int("i!ty")
                e = z3.Select(ty.dt()[3](z), i)
                out.append(FA([i], z3.Implies(z3.And(i >= 0, i < ln), e != NULL), patterns=[e]))
        elif isinstance(ty, TDict) and not ty.default:
            none, some, isn, iss, val = opt_parts(ty.val.sort())
            if isinstance(ty.key, TRef) and not ty.key.nullable:
                out.append(isn(z3.Select(z, NULL)))
            if isinstance(ty.val, TRef) and not ty.val.nullable:
                k = z3.Const("k!ty", ty.key.sort())
                e = z3.Select(z, k)
                out.append(FA([k], z3.Implies(iss(e), val(e) != NULL), patterns=[e]))
        return out

    def static_ty(self, st, v):
        if isinstance(v, Sc):
            return v.ty
        if isinstance(v, Loc):
            t = self.loc_ty(st, v)
            if isinstance(t, tuple):
                raise Unsupported("untyped empty container")
            return t
        if isinstance(v, Tup):
            return TTup([(None, self.static_ty(st, i)) for i in v.items])
        raise Unsupported("no static type for %s" % v)

    def unify(self, a, b):
        if a == b:
            return a
        if a is TNone:
            a, b = b, a
        if b is TNone:
            if isinstance(a, TRef):
                return TRef(a.cls, True)
            if isinstance(a, TOpt):
                return a
            return TOpt(a)
        if isinstance(a, TRef) and isinstance(b, TRef):
            if a.cls == b.cls:
                return TRef(a.cls, True)
            if self.prog.is_subclass(a.cls, b.cls):
                return TRef(b.cls, a.nullable or b.nullable)
            if self.prog.is_subclass(b.cls, a.cls):
                return TRef(a.cls, a.nullable or b.nullable)
        if isinstance(a, TOpt) and a.inner == b:
            return a
        if isinstance(b, TOpt) and b.inner == a:
            return b
        if {a, b} == {TInt, TBool}:
            return TInt
        raise Unsupported("cannot unify %s and %s" % (a, b))

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, where=""):
        if self.dry:
            return
        self.obs.append(Ob(name, list(self.axioms) + st.zpc(), goal, where))

    def feasible(self, st):
        return solve.feasible(self.axioms + st.zpc(), LIGHT and self.dry > 0 or LIGHT == 2)

    def branch(self, st, cond):
        """[(state, bool)] for the feasible sides of cond."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.copy()
        a.assume(cond)
        if self.feasible(a):
            out.append((a, True))
        b = st.copy()
        b.assume(z3.Not(cond))
        if not out or self.feasible(b):  # one side is possible
            out.append((b, False))
        return out

    def raise_(self, st, exc, detail=""):
        self.sinks[-1].append((st, ("raise", exc, detail)))

    # -------------------------------------------------------------- functions
    def bind_args(self, st, fi, args, kwargs, node=None):
        """-> dict name -> value (defaults evaluated)"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = list(args)
        for n in names:
            if args:
                bound[n] = args.pop(0)
        if args:
            if a.vararg is None:
                raise Unsupported("too many args for %s" % fi.qual)
            bound[a.vararg.arg] = Meta("clist", items=args)
        elif a.vararg is not None:
            bound[a.vararg.arg] = Meta("clist", items=[])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                bound[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            raise Unsupported("unexpected kwargs %s for %s" % (list(extra), fi.qual))
        if a.kwarg is not None:
            bound[a.kwarg.arg] = Meta("ckw", items=extra)
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in bound:
                r = self.ev(st, d)
                if len(r) != 1:
                    raise Unsupported("default of %s" % n)
                bound[n] = r[0][1]
        for n in names + kwonly:
            if n not in bound:
                raise Unsupported("missing arg %s for %s" % (n, fi.qual))
        return bound

    def call_func(self, st, fi, args, kwargs, selfcls=None, closure=None, force_inline=False):
        """-> [(state, value)] (exceptions go to the sink)."""
        if fi.other_decorators:
            raise Unsupported("decorated function %s" % fi.qual)
        st.frames.append(Frame({}, fi.module, fi, selfcls))
        bound = self.bind_args(st, fi, args, kwargs)
        st.frames.pop()
        if fi.is_generator:
            return [(st, Meta("gen", fi=fi, bound=bound, selfcls=selfcls, cm=fi.is_contextmanager, closure=closure))]
        if not force_inline:
            c = self.w.find_contract(fi, selfcls, self, st, bound)
            if c is not None:
                return self.apply_contract(st, c, bound, selfcls)
        return self.inline(st, fi, bound, selfcls, closure)

    def inline(self, st, fi, bound, selfcls, closure=None):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("inline depth (recursion without contract?) at %s" % fi.qual)
        self.inlined.add(fi.qual)
        st.frames.append(Frame(dict(bound), fi.module, fi, selfcls, closure=closure))
        outs = self.exec_block(st, fi.node.body)
        self.depth -= 1
        res = []
        for s, o in outs:
            s.frames.pop()
            if o[0] == "next":
                res.append((s, NONE))
            elif o[0] == "ret":
                res.append((s, o[1]))
            elif o[0] == "raise":
                self.sinks[-1].append((s, o))
            else:
                raise Unsupported("outcome %s escapes %s" % (o[0], fi.qual))
        return res

    def apply_contract(self, st, c, bound, selfcls):
        return c.apply(self, st, bound, selfcls)

    # ------------------------------------------------------------- generators
    def run_gen(self, st, gen, handler):
        """Inline generator body; handler(st, value) -> [(st, outcome)] runs in the
        consumer's frame.  -> [(st, outcome)] with outcome next/raise/genexit."""
        fi = gen.fi
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("generator depth")
        self.inlined.add(fi.qual)

        def h(s, v):
            f = s.frames.pop()
            s.susp.append(f)
            outs = handler(s, v)
            for s2, o in outs:
                s2.frames.append(s2.susp.pop())
            return outs

        st.frames.append(Frame(dict(gen.bound), fi.module, fi, gen.selfcls, yieldh=h, closure=gen.closure))
        outs = self.exec_block(st, fi.node.body)
        self.depth -= 1
        res = []
        for s, o in outs:
            s.frames.pop()
            if o[0] in ("next", "ret"):
                res.append((s, NEXT))
            else:
                res.append((s, o))
        return res

    def do_yield(self, st, v):
        h = st.frames[-1].yieldh
        if h is None:
            raise Unsupported("yield outside an inlined generator")
        return h(st, v)

    # ------------------------------------------------------------- statements
    def exec_block(self, st, body):
        cur = [(st, NEXT)]
        for s in body:
            nxt = []
            for st1, o in cur:
                if o[0] != "next":
                    nxt.append((st1, o))
                else:
                    nxt.extend(self.exec_stmt(st1, s))
            cur = nxt
            if len(cur) > 1 and getattr(self.top_contract, "merge", False):
                cur = self.merge_paths(cur)
            if len(cur) > 600:
                raise Unsupported("path explosion")
        return cur

    def merge_paths(self, outs):
        """Join the paths that fall through into one (values become case distinctions)."""
        go = [st for st, o in outs if o[0] == "next"]
        rest = [x for x in outs if x[1][0] != "next"]
        done = []
        for st in go:
            for i, d in enumerate(done):
                m = self.merge2(d, st)
                if m is not None:
                    done[i] = m
                    break
            else:
                done.append(st)
        return [(st, NEXT) for st in done] + rest

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        ca = z3.And(*[z for k, z in a.pc[n:] if k == "c"])
        cb = z3.And(*[z for k, z in b.pc[n:] if k == "c"])
        if len(a.frames) != len(b.frames) or a.fwd != b.fwd or len(a.susp) != len(b.susp) or a.pend != b.pend:
            return None
        m = a.copy()
        sel = fresh("path", z3.BoolSort())  # which of the two ran (their conditions may overlap)

        def pick(x, y):
            return x if x.eq(y) else z3.If(sel, x, y)

        def val(x, y):
            if x is y:
                return x
            if isinstance(x, Sc) and isinstance(y, Sc):
                if x.ty == y.ty:
                    return x if x.z.eq(y.z) else Sc(x.ty, pick(x.z, y.z))
                if isinstance(x.ty, TRef) and isinstance(y.ty, TRef) and x.ty.cls == y.ty.cls:
                    return Sc(TRef(x.ty.cls, True), pick(x.z, y.z))
                for p, q in ((x, y), (y, x)):
                    if q.ty is TNone and isinstance(p.ty, (TRef, TOpt)):
                        ty = TRef(p.ty.cls, True) if isinstance(p.ty, TRef) else p.ty
                        return Sc(ty, pick(self.to_z(m, x, ty), self.to_z(m, y, ty)))
                return None
            if isinstance(x, Loc) and isinstance(y, Loc) and repr(x.__dict__) == repr(y.__dict__):
                return x
            if isinstance(x, Meta) and isinstance(y, Meta) and repr(x.__dict__) == repr(y.__dict__):
                return x
            if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items) and x.cname == y.cname:
                it = [val(p, q) for p, q in zip(x.items, y.items)]
                return None if any(i is None for i in it) else Tup(it, x.cname)
            return None
        for fa, fb, fm in zip(a.frames + a.susp, b.frames + b.susp, m.frames + m.susp):
            if fa.fn is not fb.fn or fa.module is not fb.module:
                return None
            for k in list(fm.env):
                if k not in fb.env:
                    del fm.env[k]
                    continue
                v = val(fa.env[k], fb.env[k])
                if v is None:
                    return None
                fm.env[k] = v
        for d, e, mk in ((m.heap, b.heap, self.heap_get), (m.globs, b.globs, self.glob_get)):
            for k in set(d) | set(e):
                x, y = mk(a, k), mk(b, k)
                d[k] = pick(x, y)
        for k, z in b.roots.items():
            if k not in m.roots:
                m.roots[k], m.rty[k] = z, b.rty[k]
            elif m.rty[k] != b.rty[k]:
                return None
            elif isinstance(m.rty[k], tuple) or z is None or m.roots[k] is None:
                if m.roots[k] is not z:
                    return None
            else:
                m.roots[k] = pick(m.roots[k], z)
        m.snaps = a.snaps + [x for x in b.snaps if not any(x is y for y in a.snaps)]
        m.pc = list(a.pc[:n])
        for c, pc in ((sel, a.pc[n:]), (z3.Not(sel), b.pc[n:])):
            for k, z in pc:
                m.pc.append((k, z3.Implies(c, z)))
        return m

    def exec_stmt(self, st, s):
        self.sinks.append([])
        try:
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is None:
                raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
            outs = m(st, s)
        finally:
            raised = self.sinks.pop()
        return outs + raised

    def x_Pass(self, st, s):
        return [(st, NEXT)]

    def x_Expr(self, st, s):
        e = s.value
        if isinstance(e, ast.Constant):
            return [(st, NEXT)]
        if isinstance(e, ast.Yield):
            out = []
            vals = self.ev(st, e.value) if e.value is not None else [(st, NONE)]
            for s1, v in vals:
                out.extend(self.do_yield(s1, v))
            return out
        if isinstance(e, ast.YieldFrom):
            out = []
            for s1, v in self.ev(st, e.value):
                out.extend(self.iterate(s1, v, None, lambda s2, x: self.do_yield(s2, x), s))
            return out
        return [(s1, NEXT) for s1, _ in self.ev(st, e)]

    def x_Return(self, st, s):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(s1, ("ret", v)) for s1, v in self.ev(st, s.value)]

    def x_Break(self, st, s):
        return [(st, BREAK)]

    def x_Continue(self, st, s):
        return [(st, CONTINUE)]

    def x_Global(self, st, s):
        st.frames[-1].globals_decl = st.frames[-1].globals_decl | set(s.names)
        return [(st, NEXT)]

    def x_Import(self, st, s):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Meta("module", name=a.name)
        return [(st, NEXT)]

    def x_ImportFrom(self, st, s):
        for a in s.names:
            st.env[a.asname or a.name] = self.resolve_import(s.module, a.name)
        return [(st, NEXT)]

    def x_FunctionDef(self, st, s):
        fi = FuncInfo(st.frames[-1].fn.qual + ".<locals>." + s.name, s, st.frames[-1].module)
        st.env[s.name] = Meta("func", fi=fi, closure=len(st.frames) - 1)
        raise Unsupported("nested function")

    def x_Raise(self, st, s):
        if s.exc is None:
            cur = st.env.get("$exc")
            if cur is None:
                raise Unsupported("bare raise")
            return [(st, cur)]
        e = s.exc
        nm = e.func if isinstance(e, ast.Call) else e
        return [(st, ("raise", ast.unparse(nm).split(".")[-1], ""))]

    def x_Assert(self, st, s):
        out = []
        for s1, c in self.ev_cond(st, s.test):
            for s2, b in self.branch(s1, c):
                if b:
                    out.append((s2, NEXT))
                else:
                    out.append((s2, ("raise", "AssertionError", "line %d" % s.lineno)))
        return out

    def x_If(self, st, s):
        out = []
        for s1, c in self.ev_cond(st, s.test):
            for s2, b in self.branch(s1, c):
                out.extend(self.exec_block(s2, s.body if b else s.orelse))
        return out

    def x_Assign(self, st, s):
        out = []
        for s1, v in self.ev(st, s.value):
            ok = [s1]
            for t in s.targets:
                ok = [s3 for s2 in ok for s3 in self.assign(s2, t, v)]
            out.extend((s2, NEXT) for s2 in ok)
        return out

    def x_AnnAssign(self, st, s):
        if s.value is None:
            return [(st, NEXT)]
        out = []
        for s1, v in self.ev(st, s.value):
            if isinstance(v, Loc) and self.is_lazy(s1, v) and isinstance(s.target, ast.Name):
                ty = self.w.ann_type(s.annotation, self, s1)
                if isinstance(ty, TDict) and is_container(ty.val) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "defaultdict":
                    ty = TDict(ty.key, ty.val, default=True)
                if ty is not None and is_container(ty):
                    self.materialize(s1, v, ty)
            if isinstance(v, Sc) and isinstance(s.target, ast.Name):
                ty = self.w.ann_type(s.annotation, self, s1)
                if ty is not None and not is_container(ty) and ty != v.ty:
                    try:
                        v = Sc(ty, self.to_z(s1, v, ty))
                    except Unsupported:
                        pass
            out.extend((s2, NEXT) for s2 in self.assign(s1, s.target, v))
        return out

    def x_AugAssign(self, st, s):
        out = []
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        for s1, cur in self.ev(st, load):
            for s2, v in self.ev(s1, s.value):
                if isinstance(cur, Loc):
                    # in-place update of the container
                    self.inplace(s2, cur, s.op, v)
                    out.append((s2, NEXT))
                else:
                    for s3, r in self.binop(s2, s.op, cur, v):
                        out.extend((s4, NEXT) for s4 in self.assign(s3, t, r))
        return out

    def inplace(self, st, loc, op, v):
        ty = self.loc_ty(st, loc)
        if isinstance(ty, tuple) and isinstance(v, Loc):
            self.materialize(st, loc, self.loc_ty(st, v))
            ty = self.loc_ty(st, loc)
        if isinstance(ty, TSet):
            z = self.set_op(st, op, self.read(st, loc), self.as_set(st, v, ty.elem), ty)
            self.write(st, loc, z)
            return
        if isinstance(ty, TList) and isinstance(op, ast.Add):
            self.list_extend(st, loc, v)
            return
        raise Unsupported("in-place op on %s" % (ty,))

    def x_Delete(self, st, s):
        cur = [st]
        for t in s.targets:
            nxt = []
            for s0 in cur:
                if not isinstance(t, ast.Subscript):
                    if isinstance(t, ast.Name):
                        s0.env.pop(t.id, None)
                        nxt.append(s0)
                        continue
                    raise Unsupported("del target")
                for s1, base in self.ev(s0, t.value):
                    for s2, k in self.ev(s1, t.slice):
                        ty = self.loc_ty(s2, base) if isinstance(base, Loc) else None
                        if not isinstance(ty, TDict) or ty.default:
                            raise Unsupported("del on %s" % (ty,))
                        kz = self.to_z(s2, k, ty.key)
                        for s3, b in self.branch(s2, self.dict_has(ty, self.read(s2, base), kz)):
                            if b:
                                self.dict_delete(s3, base, ty, kz)
                                nxt.append(s3)
                            else:
                                self.raise_(s3, "KeyError", "del line %d" % s.lineno)
            cur = nxt
        return [(s0, NEXT) for s0 in cur]

    def dict_delete(self, st, loc, ty, kz):
        self.detach(st, loc, kz)
        none = opt_parts(ty.val.sort())[0]
        self.write(st, loc, z3.Store(self.read(st, loc), kz, none))

    def detach(self, st, loc, kz):
        """The slot loc[kz] is about to be overwritten/removed: aliases of the old
        value become independent roots (same key) or poison (key may coincide)."""
        root, keys = self.resolve(st, loc)
        n = len(keys)
        fixed = {}

        def fix(v):
            if isinstance(v, Tup):
                v.items = [fix(i) for i in v.items]
                return v
            if not isinstance(v, Loc):
                return v
            r, ks = self.resolve(st, v)
            if len(ks) <= n or r[:2] != root[:2]:
                return v
            same = []
            if r[0] == "f":
                same.append(r[2] == root[2])
            same += [a == b for a, b in zip(ks[:n], keys)]
            same.append(ks[n] == kz)
            c = z3.simplify(z3.And(*same))
            if z3.is_false(c):
                return v
            if not z3.is_true(c):
                if solve.entails_quick(self.axioms + st.zpc(), z3.Not(c)):
                    return v
                if not solve.entails_quick(self.axioms + st.zpc(), c):
                    return Poison()
            key = (r, ks)
            k2 = str(key)
            if k2 not in fixed:
                ty = self.loc_ty(st, v)
                fixed[k2] = self.new_root(st, ty, self.read(st, v))
            return fixed[k2]

        for f in st.frames + st.susp:
            for nme in list(f.env):
                f.env[nme] = fix(f.env[nme])

    def x_Try(self, st, s):
        outs = self.exec_block(st, s.body)
        res = []
        for s1, o in outs:
            if o[0] == "raise":
                handled = False
                for h in s.handlers:
                    if self.exc_match(o[1], h.type):
                        handled = True
                        if h.name:
                            s1.env[h.name] = Meta("exc", name=o[1])
                        s1.env["$exc"] = o
                        res.extend(self.exec_block(s1, h.body))
                        break
                if not handled:
                    res.append((s1, o))
            elif o[0] == "next" and s.orelse:
                res.extend(self.exec_block(s1, s.orelse))
            else:
                res.append((s1, o))
        if not s.finalbody:
            return res
        fin = []
        for s1, o in res:
            for s2, o2 in self.exec_block(s1, s.finalbody):
                fin.append((s2, o if o2[0] == "next" else o2))
        return fin

    def exc_match(self, name, typ):
        if typ is None:
            return True
        if isinstance(typ, ast.Tuple):
            return any(self.exc_match(name, t) for t in typ.elts)
        t = ast.unparse(typ).split(".")[-1]
        return t == name or t in EXC_BASES.get(name, ["Exception"]) or t == "BaseException"

    def x_With(self, st, s):
        if len(s.items) != 1:
            inner = ast.With(items=s.items[1:], body=s.body)
            ast.copy_location(inner, s)
            outer = ast.With(items=s.items[:1], body=[inner])
            ast.copy_location(outer, s)
            return self.x_With(st, outer)
        it = s.items[0]
        out = []
        for s1, cm in self.ev(st, it.context_expr):
            if isinstance(cm, Meta) and cm.kind == "nullcm":
                out.extend(self.exec_block(s1, s.body))
                continue
            if not (isinstance(cm, Meta) and cm.kind == "gen" and cm.cm):
                raise Unsupported("with on %s" % cm)
            self.uid = getattr(self, "uid", 0) + 1
            mark = self.uid

            def handler(s2, v, mark=mark):
                starts = [s2]
                if it.optional_vars is not None:
                    starts = self.assign(s2, it.optional_vars, v)
                res = []
                for s3 in starts:
                    for s4, o in self.exec_block(s3, s.body):
                        if o[0] in ("raise",):
                            s4.pend.append((mark, "raised"))
                            res.append((s4, o))
                        elif o[0] == "genexit":
                            s4.pend.append((mark, "raised"))
                            res.append((s4, o))
                        else:
                            s4.pend.append((mark, o))
                            res.append((s4, NEXT))
                return res

            for s2, o in self.run_gen(s1, cm, handler):
                pend = [q for m_, q in s2.pend if m_ == mark]
                s2.pend = [e_ for e_ in s2.pend if e_[0] != mark]
                if o[0] == "next":
                    if len(pend) != 1:
                        raise Unsupported("contextmanager yielding %d times" % len(pend))
                    out.append((s2, NEXT if pend[0] == "raised" else pend[0]))
                else:
                    out.append((s2, o))
        return out

    def x_For(self, st, s):
        out = []
        for s1, coll in self.ev(st, s.iter):
            def body(s2, x, s=s):
                res = []
                for s3 in self.assign(s2, s.target, x):
                    res.extend(self.exec_block(s3, s.body))
                return res

            out.extend(self.iterate(s1, coll, s.orelse, body, s))
        return out

    def iterate(self, st, coll, orelse, body, node):
        """Run body(st, x) for each element; handles break/else."""
        orelse = orelse or []

        def finish(s1):
            return self.exec_block(s1, orelse) if orelse else [(s1, NEXT)]

        if isinstance(coll, Meta) and coll.kind == "gen":
            self.uid = getattr(self, "uid", 0) + 1
            me = self.uid

            def handler(s2, v):
                res = []
                for s3, o in body(s2, v):
                    if o[0] in ("next", "continue"):
                        res.append((s3, NEXT))
                    elif o[0] == "genexit":
                        res.append((s3, o))
                    else:
                        res.append((s3, ("genexit", o, me)))
                return res

            # a genexit raised by an outer generator's consumer must keep its identity
            out = []
            for s2, o in self.run_gen(st, coll, handler):
                if o[0] == "next":
                    out.extend(finish(s2))
                elif o[0] == "genexit" and o[2] == me:
                    p = o[1]
                    if p[0] == "break":
                        out.append((s2, NEXT))
                    elif p[0] in ("ret", "raise"):
                        out.append((s2, p))
                    else:
                        out.append((s2, o))
                else:
                    out.append((s2, o))
            return out
        items = self.concrete_items(st, coll)
        if items is not None:
            cur = [st]
            out = []
            for x in items:
                nxt = []
                for s1 in cur:
                    for s2, o in body(s1, x):
                        if o[0] in ("next", "continue"):
                            nxt.append(s2)
                        elif o[0] == "break":
                            out.append((s2, NEXT))
                        else:
                            out.append((s2, o))
                cur = nxt
                if len(cur) > 600:
                    raise Unsupported("path explosion in unrolled loop")
            for s1 in cur:
                out.extend(finish(s1))
            return out
        return self.cut_for(st, coll, finish, body, node)

    def concrete_items(self, st, coll):
        if isinstance(coll, Tup):
            return coll.items
        if isinstance(coll, Meta) and coll.kind == "clist":
            return coll.items
        if isinstance(coll, Meta) and coll.kind == "enumclass":
            return [Sc(coll.ty, coll.ty.consts[m]) for m in coll.ty.members]
        if isinstance(coll, Loc):
            t = self.loc_ty(st, coll)
            if isinstance(t, tuple):
                return []
            root, keys = self.resolve(st, coll)
            if isinstance(t, TList) and not keys and root[0] == "r":
                z = z3.simplify(st.roots[root[1]])
                ln = z3.simplify(t.dt()[2](z))
                if z3.is_int_value(ln) and ln.as_long() <= 8:
                    return [
                        self.from_z(st, z3.simplify(z3.Select(t.dt()[3](z), i)), t.elem)
                        for i in range(ln.as_long())
                    ]
        return None

    # ------------------------------------------------------- loops over symbols
    def present(self, st, ty, z):
        """Which keys a dict has.  A defaultdict is a total map here: its keys are any
        set that includes every key whose value is not the (empty) default."""
        if not ty.default:
            return lambda k: self.dict_has(ty, z, k)
        d = fresh("keys", z3.ArraySort(ty.key.sort(), z3.BoolSort()))
        y = z3.Const("y!k", ty.key.sort())
        st.define(FA([y], z3.Implies(z3.Select(z, y) != T.empty_of(ty.val), z3.Select(d, y)), patterns=[z3.Select(d, y)]))
        return lambda k: z3.Select(d, k)

    def coll_view(self, st, coll):
        """-> (elem_sort_key_type, member(k)->Bool, mk(st,k)->value, src path or None)"""
        if isinstance(coll, Meta) and coll.kind == "keysview":
            coll = coll.loc
        if isinstance(coll, Loc):
            ty = self.loc_ty(st, coll)
            z = self.read(st, coll)
            if isinstance(ty, TSet):
                return ty.elem, (lambda k: z3.Select(z, k)), (lambda s, k: self.from_z(s, k, ty.elem)), coll
            if isinstance(ty, TDict):
                return ty.key, self.present(st, ty, z), (lambda s, k: self.from_z(s, k, ty.key)), coll
            if isinstance(ty, TList):
                ln, arr = ty.dt()[2](z), ty.dt()[3](z)
                return TInt, (lambda k: z3.And(k >= 0, k < ln)), (lambda s, k: self.from_z(s, z3.Select(arr, k), ty.elem)), coll
        if isinstance(coll, Meta):
            if coll.kind in ("items", "values"):
                loc = coll.loc
                ty = self.loc_ty(st, loc)
                z = self.read(st, loc)
                root, keys = self.resolve(st, loc)

                def mk(s, k):
                    if is_container(ty.val):
                        v = Loc(root, keys + (k,), None)
                    else:
                        v = self.from_z(s, self.dict_val(ty, self.read(s, loc), k), ty.val)
                    if coll.kind == "values":
                        return v
                    return Tup([self.from_z(s, k, ty.key), v])

                return ty.key, self.present(st, ty, z), mk, loc
            if coll.kind == "range":
                # iteration k (counting from 0) visits lo + k * step
                return TInt, (lambda k: z3.And(k >= 0, k < coll.size)), (lambda s, k: Sc(TInt, coll.lo + coll.step * k)), None
            if coll.kind == "enumerate":
                kt, mem, mk, src = self.coll_view(st, coll.inner)
                if kt is not TInt:
                    raise Unsupported("enumerate over unordered")
                return kt, mem, (lambda s, k: Tup([Sc(TInt, k), mk(s, k)])), src
        raise Unsupported("iteration over %s" % coll)

    def snapshot(self, st):
        return (dict(st.heap), dict(st.globs), dict(st.roots), [dict(f.env) for f in st.frames], [dict(f.env) for f in st.susp], dict(st.fwd))

    def diff(self, base, st, mod):
        """Add to mod the locations on which st differs from base state."""
        ch = False
        for k, z in st.heap.items():
            b = base.heap.get(k, self.inits.get(k))
            if b is None or not b.eq(z):
                ch |= ("f", k) not in mod
                mod.add(("f", k))
        for k, z in st.globs.items():
            b = base.globs.get(k, self.inits.get("g:" + k))
            if b is None or not b.eq(z):
                ch |= ("g", k) not in mod
                mod.add(("g", k))
        for r, z in base.roots.items():
            z2 = st.roots.get(r)
            if r in st.fwd and r not in base.fwd:
                if ("fwd", r) not in mod:
                    ch = True
                mod.add(("fwd", r))
            elif (z is None) != (z2 is None) or (z is not None and not z.eq(z2)):
                ch |= ("r", r) not in mod
                mod.add(("r", r))
                if st.rty[r] != base.rty[r]:
                    ch |= ("rty", r, st.rty[r]) not in mod
                    mod.add(("rty", r, st.rty[r]))
            elif st.rty[r] != base.rty[r]:
                ch |= ("rty", r, st.rty[r]) not in mod
                mod.add(("rty", r, st.rty[r]))
        for which, fs, bs in (("frames", st.frames, base.frames), ("susp", st.susp, base.susp)):
            if len(fs) != len(bs):
                raise Unsupported("frame mismatch in loop")
            for i, (f, b) in enumerate(zip(fs, bs)):
                for n, v in f.env.items():
                    if n == "$exc":
                        continue
                    if n not in b.env:
                        ch |= ("del", which, i, n) not in mod
                        mod.add(("del", which, i, n))
                    elif not self.same_val(v, b.env[n]):
                        ty = None
                        try:
                            t1 = self.static_ty(st, v)
                            t0 = self.static_ty(base, b.env[n])
                            ty = self.unify(t0, t1)
                        except Unsupported:
                            ty = "bad"
                        key = ("env", which, i, n)
                        old = [m for m in mod if m[:4] == key]
                        if not old:
                            mod.add(key + (ty,))
                            ch = True
                        elif old[0][4] != ty:
                            try:
                                ty2 = self.unify(old[0][4], ty) if "bad" not in (ty, old[0][4]) else "bad"
                            except Unsupported:
                                ty2 = "bad"
                            if ty2 != old[0][4]:
                                mod.discard(old[0])
                                mod.add(key + (ty2,))
                                ch = True
        return ch

    def same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty != b.ty:
                return False
            if a.z is None or b.z is None:
                return a.z is b.z
            return a.z.eq(b.z)
        if isinstance(a, Loc) and isinstance(b, Loc):
            return a.root[:2] == b.root[:2] and str(a.root) == str(b.root) and str(a.keys) == str(b.keys)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        return False

    def havoc(self, st, mod):
        s = st.copy()
        for m in sorted(mod, key=str):
            if m[0] == "f":
                cur = self.heap_get(s, m[1])
                nz = fresh("H_" + m[1].replace(".", "_"), cur.sort())
                s.heap[m[1]] = nz
                ty = self.w.fields[m[1]]
                if isinstance(ty, TRef) and not ty.nullable:
                    pass
            elif m[0] == "g":
                cur = self.glob_get(s, m[1])
                z = fresh("G_" + m[1].replace(".", "_"), cur.sort())
                self.typing(s, z, self.w.globs[m[1]])
                s.globs[m[1]] = z
            elif m[0] == "r":
                ty = s.rty[m[1]]
                if isinstance(ty, tuple):
                    ty2 = [x[2] for x in mod if x[0] == "rty" and x[1] == m[1]]
                    if not ty2:
                        raise Unsupported("untyped container modified in loop")
                    ty = ty2[0]
                    s.rty[m[1]] = ty
                z = fresh("c%d" % m[1], ty.sort())
                self.typing(s, z, ty)
                s.roots[m[1]] = z
            elif m[0] == "rty":
                if isinstance(s.rty[m[1]], tuple):
                    s.rty[m[1]] = m[2]
                    z = fresh("c%d" % m[1], m[2].sort())
                    self.typing(s, z, m[2])
                    s.roots[m[1]] = z
            elif m[0] == "fwd":
                raise Unsupported("container created before a loop is stored into the heap inside it")
        for m in sorted(mod, key=str):
            if m[0] == "env":
                f = getattr(s, m[1])[m[2]]
                if m[4] == "bad" or m[4] is None:
                    f.env[m[3]] = Poison()
                else:
                    f.env[m[3]] = self.fresh_val(s, m[4], "v_" + m[3])
            elif m[0] == "del":
                f = getattr(s, m[1])[m[2]]
                f.env.pop(m[3], None)
        return s

    def cut_for(self, st, coll, finish, body, node):
        self.loop_count = getattr(self, "loop_count", 0)
        kt, mem, mk, src = self.coll_view(st, coll)
        ksort = kt.sort()
        entry = st
        ordered = kt is TInt and not (isinstance(coll, Meta) and coll.kind in ("items", "values"))

        def one_iter(cands, seen_mk):
            """From a havocked state: returns (head_state, x_key, outs)"""
            h = self.havoc(entry, mod)
            seen, seen_ax = seen_mk(h)
            L = LoopView(self, entry, h, seen, mem, kt, node, coll, mk)
            for ax in seen_ax:
                h.define(ax)
            for nm, fn in cands:
                for z in _aslist(fn(L)):
                    h.assume(z)
            return h, seen, L

        def mk_seen(h):
            if ordered:
                i = fresh("idx", z3.IntSort())
                return ("idx", i), [i >= 0]
            a = fresh("seen", z3.ArraySort(ksort, z3.BoolSort()))
            k = z3.Const("k!seen", ksort)
            return ("set", a), [FA([k], z3.Implies(z3.Select(a, k), mem(k)), patterns=[z3.Select(a, k)])]

        def in_seen(seen, k):
            return k < seen[1] if seen[0] == "idx" else z3.Select(seen[1], k)

        up_rec, up_play = self.rec, self.play
        # 1. modified set
        mod = self.mod_start(entry, node)
        self.dry += 1
        self.modphase += 1
        self.rec, self.play = None, None
        try:
            for _ in range(12):
                h = self.havoc(entry, mod)
                x = fresh("x", ksort)
                h.define(mem(x))
                hv = h.copy()
                outs = body(h, mk(h, x))
                ch = False
                for s1, o in outs:
                    ch |= self.diff(hv, s1, mod)
                if not ch:
                    break
            else:
                raise Unsupported("modified set did not converge")
        finally:
            self.dry -= 1
            self.modphase -= 1
        self.mod_done(entry, node, mod)
        last = (h, x, outs) if self.modphase else None
        must = None
        if src is not None:
            root, keys = self.resolve(entry, src)
            tag = {"f": ("f", root[1]), "g": ("g", root[1]), "r": ("r", root[1])}[root[0]]
            if tag in mod:
                must = "iterated collection unchanged"
        # 2. candidates (Houdini)
        cands = [] if self.modphase else self.candidates(entry, node, coll, mem, kt, mod, mk)
        if must:
            z0 = self.read(entry, src)
            if isinstance(coll, Meta) and coll.kind in ("items", "values"):
                # values may be replaced, keys may not be added or removed
                ty, kk = self.loc_ty(entry, src), z3.Const("k!must", ksort)
                has = (lambda z, k: z3.Select(z, k) != T.empty_of(ty.val)) if ty.default else (lambda z, k: self.dict_has(ty, z, k))
                keys_same = lambda L: z3.ForAll([kk], z3.Implies(has(self.read(L.st, src), kk), mem(kk)) if ty.default else
                                                has(self.read(L.st, src), kk) == has(z0, kk))
                cands.insert(0, (must, keys_same))
            else:
                cands.insert(0, (must, lambda L: self.read(L.st, src) == z0))
        passive = set()
        if cands:
            sx = ("idx", fresh("idx", z3.IntSort())) if ordered else ("set", fresh("seen", z3.ArraySort(ksort, z3.BoolSort())))
            hx = self.havoc(entry, mod)
            passive = {nm for nm, fn in cands if nm != must and not self.depends(
                fn, LoopView(self, entry, entry, sx, mem, kt, node, coll, mk),
                LoopView(self, entry, hx, sx, mem, kt, node, coll, mk), sx[1])}
        ninit = len(cands)
        # a loop met again in the same place keeps the invariants inferred there
        replay, children = None, []
        if up_play:
            replay, children = up_play.pop(0)
        # initial check
        kept = []
        for nm, fn in cands:
            if replay is not None:
                if nm in replay:
                    kept.append((nm, fn))
                continue
            seen0 = ("idx", z3.IntVal(0)) if ordered else ("set", z3.K(ksort, BoolF))
            L0 = LoopView(self, entry, entry, seen0, mem, kt, node, coll, mk)
            try:
                zs = _aslist(fn(L0))
            except Unsupported:
                continue
            if self.quick_all(entry, zs, "init " + nm, node):
                kept.append((nm, fn))
        cands = kept
        while replay is None and (cands or not self.modphase):
            self.dry += 1
            self.rec, self.play = [], None
            try:
                h, seen, L = one_iter(cands, mk_seen)
                if ordered:
                    x = seen[1]
                    h.define(mem(x))
                else:
                    x = fresh("x", ksort)
                    h.define(mem(x))
                    h.define(z3.Not(in_seen(seen, x)))
                outs = body(h, mk(h, x))
            finally:
                self.dry -= 1
            children = self.rec
            bad = set()
            for s1, o in outs:
                if o[0] not in ("next", "continue"):
                    continue
                seen2 = ("idx", seen[1] + 1) if ordered else ("set", z3.Store(seen[1], x, BoolT))
                L1 = LoopView(self, entry, s1, seen2, mem, kt, node, coll, mk)
                for nm, fn in cands:
                    if nm in bad or nm in passive:
                        continue
                    try:
                        zs = _aslist(fn(L1))
                    except Unsupported:
                        bad.add(nm)
                        continue
                    if not self.quick_all(s1, zs, "step " + nm, node):
                        bad.add(nm)
            if not bad:
                last = (h, x, outs) if self.dry else None
                break
            cands = [(nm, fn) for nm, fn in cands if nm not in bad]
            if must and must in bad:
                raise Unsupported("loop modifies the collection it iterates (line %d)" % node.lineno)
        # 3. record obligations for the surviving invariants and run for real
        self.rec, self.play = None, ([(a, _deep(b)) for a, b in children] if not self.modphase else None)
        if not self.dry:
            self.loop_log.append((node.lineno, [n for n, _ in cands], ninit))
            seen0 = ("idx", z3.IntVal(0)) if ordered else ("set", z3.K(ksort, BoolF))
            L0 = LoopView(self, entry, entry, seen0, mem, kt, node, coll, mk)
            for nm, fn in cands:
                for z in _aslist(fn(L0)):
                    self.oblige(entry, "loop-init:%s@%d" % (nm, node.lineno), z)
        if last is not None:
            outs = last[2]  # nothing is recorded in a dry run: the last pass will do
        else:
            h, seen, L = one_iter(cands, mk_seen)
            if ordered:
                x = seen[1]
                h.define(mem(x))
            else:
                x = fresh("x", ksort)
                h.define(mem(x))
                h.define(z3.Not(in_seen(seen, x)))
            outs = body(h, mk(h, x)) if self.feasible(h) else []
        res = []
        for s1, o in outs:
            if o[0] in ("next", "continue"):
                if self.dry:
                    continue
                seen2 = ("idx", seen[1] + 1) if ordered else ("set", z3.Store(seen[1], x, BoolT))
                L1 = LoopView(self, entry, s1, seen2, mem, kt, node, coll, mk)
                for nm, fn in cands:
                    if nm in passive:
                        continue
                    for z in _aslist(fn(L1)):
                        self.oblige(s1, "loop-step:%s@%d" % (nm, node.lineno), z)
            elif o[0] == "break":
                res.append((s1, NEXT))
            else:
                res.append((s1, o))
        self.rec, self.play = up_rec, up_play
        if up_rec is not None:
            up_rec.append(([nm for nm, _ in cands], children))
        # 4. exit
        e = self.havoc(entry, mod)
        if ordered:
            n = fresh("n_end", z3.IntSort())
            k = z3.Int("k!end")
            e.define(n >= 0)
            if isinstance(coll, Loc):
                ty = self.loc_ty(entry, coll)
                e.define(n == ty.dt()[2](self.read(entry, coll)))
            elif coll.kind == "range":
                e.define(n == coll.size)
            elif coll.kind == "enumerate":
                ty = self.loc_ty(entry, coll.inner)
                e.define(n == ty.dt()[2](self.read(entry, coll.inner)))
            seenE = ("idx", n)
        else:
            a = fresh("seenE", z3.ArraySort(ksort, z3.BoolSort()))
            k = z3.Const("k!seen", ksort)
            e.define(FA([k], z3.Select(a, k) == mem(k), patterns=[z3.Select(a, k)]))
            seenE = ("set", a)
        LE = LoopView(self, entry, e, seenE, mem, kt, node, coll, mk, final=True)
        for nm, fn in cands:
            for z in _aslist(fn(LE)):
                e.assume(z)
        e.snap()
        res = [(s1.snap() if o == NEXT else s1, o) for s1, o in res]
        res.extend(finish(e))
        return res

    def mod_key(self, st, node):
        return (id(node), tuple(id(fr.fn) for fr in st.frames))

    def mod_start(self, st, node):
        """heap and global parts of what the loop was seen to modify before (havocking more is sound)"""
        return set(self.mod_cache.get(self.mod_key(st, node), ()))

    def mod_done(self, st, node, mod):
        self.mod_of[id(node)] = mod
        self.mod_cache.setdefault(self.mod_key(st, node), set()).update(m for m in mod if m[0] in ("f", "g"))

    def depends(self, fn, L0, L1, seen):
        """False when a candidate says nothing about what the loop changes (it is then an entry fact)"""
        try:
            a = _aslist(fn(L0))
        except Unsupported:
            return False
        try:
            b = _aslist(fn(L1))
        except Unsupported:
            return True
        if len(a) != len(b) or any(not z3.eq(x, y) for x, y in zip(a, b)):
            return True
        return seen is not None and any(_occurs(seen, x) for x in a)

    def quick_all(self, st, goals, what, node):
        t = time.time()
        res = []
        ok = all(res.append(self.quick(st, z)) or res[-1] for z in goals)
        if TRACE and not ok:
            print("  goal %d of %d failed" % (len(res), len(goals)))
        if TRACE:
            if not ok and os.environ.get("PYVC_DUMP") and os.environ["PYVC_DUMP"] in what and "step" in what:
                for z in st.zpc()[-int(os.environ.get("PYVC_DUMPN", "14")):]:
                    print("    |", str(z).replace("\n", " ")[:900])
                print("   GOAL", [str(g)[:3000] for g in goals])
            print("%s%s@%d: %s %.2fs" % ("  " * len(st.frames), what, node.lineno, ok, time.time() - t), flush=True)
        return ok

    def quick(self, st, goal):
        r = solve.quick(self.axioms + st.zpc(), goal, max(self.w.inv_timeout, getattr(self.top_contract, 'inv_timeout', 0)))
        if r == "unknown" and not self.modphase:
            # an invariant given up for lack of time: later refutations prove nothing
            self.lossy = True
        return r == "proved"

    def candidates(self, st, node, coll, mem, kt, mod, mk):
        c = self.top_contract
        out = []
        if c is not None:
            for nm, fn in c.loop_candidates(self, st, node, coll, kt):
                out.append((nm, fn))
        # frame candidates: heap fields not touched at refs other than self etc. are
        # up to the contract; generic: defaultless
        return out

    def x_While(self, st, s):
        entry = st
        mod = self.mod_start(entry, s)

        def body(h):
            """-> (continuing outcomes, exits)"""
            cont, exits = [], []
            self.sinks.append([])
            conds = self.ev_cond(h, s.test)
            raised = self.sinks.pop()
            exits.extend(raised)
            for s1, c in conds:
                for s2, b in self.branch(s1, c):
                    if b:
                        for s3, o in self.exec_block(s2, s.body):
                            if o[0] in ("next", "continue"):
                                cont.append(s3)
                            elif o[0] == "break":
                                exits.append((s3, ("brk",)))
                            else:
                                exits.append((s3, o))
                    else:
                        exits.append((s2, ("done",)))
            return cont, exits

        up_rec, up_play = self.rec, self.play
        self.dry += 1
        self.modphase += 1
        self.rec, self.play = None, None
        try:
            for _ in range(12):
                h = self.havoc(entry, mod)
                hv = h.copy()
                cont, _ex = body(h)
                ch = False
                for s1 in cont:
                    ch |= self.diff(hv, s1, mod)
                if not ch:
                    break
            else:
                raise Unsupported("modified set did not converge")
        finally:
            self.dry -= 1
            self.modphase -= 1
        self.mod_done(entry, s, mod)
        last = (cont, _ex) if self.modphase else None
        cands = [] if self.modphase else self.candidates(entry, s, None, None, None, mod, None)
        passive = set()
        if cands:
            hx = self.havoc(entry, mod)
            passive = {nm for nm, fn in cands if not self.depends(
                fn, LoopView(self, entry, entry, None, None, None, s, None, None),
                LoopView(self, entry, hx, None, None, None, s, None, None), None)}
        ninit = len(cands)
        L0 = LoopView(self, entry, entry, None, None, None, s, None, None)
        replay, children = None, []
        if up_play:
            replay, children = up_play.pop(0)
        kept = []
        for nm, fn in cands:
            if replay is not None:
                if nm in replay:
                    kept.append((nm, fn))
                continue
            try:
                zs = _aslist(fn(L0))
            except Unsupported:
                continue
            if self.quick_all(entry, zs, "init " + nm, s):
                kept.append((nm, fn))
        cands = kept

        def head():
            h = self.havoc(entry, mod)
            L = LoopView(self, entry, h, None, None, None, s, None, None)
            for nm, fn in cands:
                for z in _aslist(fn(L)):
                    h.assume(z)
            return h

        while replay is None and (cands or not self.modphase):
            self.dry += 1
            self.rec, self.play = [], None
            try:
                cont, _ex = body(head())
            finally:
                self.dry -= 1
            children = self.rec
            bad = set()
            for s1 in cont:
                L1 = LoopView(self, entry, s1, None, None, None, s, None, None)
                for nm, fn in cands:
                    if nm in bad or nm in passive:
                        continue
                    try:
                        zs = _aslist(fn(L1))
                    except Unsupported:
                        bad.add(nm)
                        continue
                    if not self.quick_all(s1, zs, "step " + nm, s):
                        bad.add(nm)
            if not bad:
                last = (cont, _ex) if self.dry else None
                break
            cands = [(nm, fn) for nm, fn in cands if nm not in bad]
        if not self.dry:
            self.loop_log.append((s.lineno, [n for n, _ in cands], ninit))
            for nm, fn in cands:
                for z in _aslist(fn(L0)):
                    self.oblige(entry, "loop-init:%s@%d" % (nm, s.lineno), z)
        self.rec, self.play = None, ([(a, _deep(b)) for a, b in children] if not self.modphase else None)
        cont, exits = body(head()) if last is None else last
        self.rec, self.play = up_rec, up_play
        if up_rec is not None:
            up_rec.append(([nm for nm, _ in cands], children))
        for s1 in (cont if not self.dry else ()):
            L1 = LoopView(self, entry, s1, None, None, None, s, None, None)
            for nm, fn in cands:
                if nm in passive:
                    continue
                for z in _aslist(fn(L1)):
                    self.oblige(s1, "loop-step:%s@%d" % (nm, s.lineno), z)
        res = []
        for s1, o in exits:
            if o[0] in ("done", "brk"):
                s1.snap()
            if o[0] == "done":
                res.extend(self.exec_block(s1, s.orelse) if s.orelse else [(s1, NEXT)])
            elif o[0] == "brk":
                res.append((s1, NEXT))
            else:
                res.append((s1, o))
        return res

    # ------------------------------------------------------------- assignment
    def assign(self, st, t, v):
        """-> [states]"""
        if isinstance(t, ast.Name):
            fr = st.frames[-1]
            if t.id in fr.globals_decl:
                name = fr.module.name.split(".")[-1] + "." + t.id
                if name not in self.w.globs:
                    raise Unsupported("global %s" % name)
                st.globs[name] = self.to_z(st, v, self.w.globs[name])
            else:
                fr.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts))
            cur = [st]
            for e, x in zip(t.elts, items):
                cur = [s2 for s1 in cur for s2 in self.assign(s1, e, x)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s1, o in self.ev(st, t.value):
                out.extend(self.set_attr(s1, o, t.attr, v))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s1, o in self.ev(st, t.value):
                for s2, k in self.ev(s1, t.slice):
                    self.set_item(s2, o, k, v)
                    out.append(s2)
            return out
        if isinstance(t, ast.Starred):
            raise Unsupported("starred target")
        raise Unsupported("assignment target %s" % type(t).__name__)

    def unpack(self, st, v, n):
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise Unsupported("unpack arity")
            return v.items
        if isinstance(v, Sc) and isinstance(v.ty, TTup):
            if len(v.ty.fields) != n:
                raise Unsupported("unpack arity")
            return [self.from_z(st, acc(v.z), t) for acc, (_, t) in zip(v.ty.dt()[2], v.ty.fields)]
        if isinstance(v, Meta) and v.kind == "clist" and len(v.items) == n:
            return v.items
        raise Unsupported("unpack %s" % v)

    def store_into(self, st, v, ty, loc):
        """Store value v in slot loc of type ty (ownership transfer of fresh roots)."""
        if isinstance(v, Loc):
            self.materialize(st, v, ty) if is_container(ty) else None
            z = self.to_z(st, v, ty)
            root, keys = self.resolve(st, v)
            troot, tkeys = self.resolve(st, loc)
            if root[0] == "r" and not keys:
                self.write(st, loc, z)
                if is_container(ty):
                    st.fwd[root[1]] = (troot, tkeys)
            else:
                same = str((root, keys)) == str((troot, tkeys))
                if not same:
                    if not self.w.allow_share(root, keys, troot, tkeys):
                        raise Unsupported("container shared between %s and %s" % (root[:2], troot[:2]))
                    self.write(st, loc, z)
        else:
            self.write(st, loc, self.to_z(st, v, ty))

    def set_item(self, st, o, k, v):
        if not isinstance(o, Loc):
            raise Unsupported("item assignment on %s" % o)
        ty = self.loc_ty(st, o)
        if isinstance(ty, tuple):
            if ty[1] != "dict":
                raise Unsupported("item assignment on untyped list")
            vt = self.static_ty(st, v)
            self.materialize(st, o, TDict(self.static_ty(st, k), vt))
            ty = self.loc_ty(st, o)
        if isinstance(ty, TDict):
            kz = self.to_z(st, k, ty.key)
            if is_container(ty.val):
                self.detach(st, o, kz)
            self.store_into(st, v, ty.val, Loc(*self.extend(st, o, kz)))
            return
        raise Unsupported("item assignment on %s" % ty)

    def extend(self, st, loc, kz):
        root, keys = self.resolve(st, loc)
        return root, keys + (kz,)

    def set_attr(self, st, o, name, v):
        if isinstance(o, Sc) and isinstance(o.ty, TRef):
            out = []
            for s1 in self.nonnull(st, o, "." + name):
                key = self.w.field_key(self.prog, o.ty.cls, name)
                setter = self.prog.lookup_setter(o.ty.cls, name)
                if setter is not None and key is None:
                    for s2, _ in self.call_func(s1, setter, [o, v], {}, o.ty.cls):
                        out.append(s2)
                    continue
                if key is None:
                    if self.w.ignored_field(o.ty.cls, name):
                        out.append(s1)
                        continue
                    raise Unsupported("unknown field %s.%s" % (o.ty.cls, name))
                ty = self.w.fields[key]
                if is_container(ty):
                    self.detach_field(s1, key, o.z)
                if key in self.w.guards:
                    nm, fn = self.w.guards[key]
                    self.oblige(s1, nm, fn(self, s1, o.z))
                self.store_into(s1, v, ty, Loc(("f", key, o.z)))
                out.append(s1)
            return out
        if isinstance(o, Meta) and o.kind == "class":
            key = self.w.glob_key(self.prog, o.name, name)
            if key is None:
                raise Unsupported("class attr %s.%s" % (o.name, name))
            ty = self.w.globs[key]
            if is_container(ty):
                self.detach_glob(st, key)
            self.store_into(st, v, ty, Loc(("g", key)))
            return [st]
        raise Unsupported("attribute assignment on %s" % o)

    def detach_field(self, st, key, refz):
        """Whole container field about to be replaced: aliases keep the old value."""
        self._detach_root(st, lambda r: r[0] == "f" and r[1] == key and r[2] is not None, lambda r: r[2] == refz)

    def detach_glob(self, st, key):
        self._detach_root(st, lambda r: r[0] == "g" and r[1] == key, lambda r: BoolT)

    def _detach_root(self, st, pred, samef):
        fixed = {}

        def fix(v):
            if isinstance(v, Tup):
                v.items = [fix(i) for i in v.items]
                return v
            if isinstance(v, Meta) and v.kind in ("items", "values"):
                return Meta(v.kind, loc=fix(v.loc))
            if not isinstance(v, Loc):
                return v
            r, ks = self.resolve(st, v)
            if not pred(r):
                return v
            c = z3.simplify(samef(r))
            if z3.is_false(c):
                return v
            if not z3.is_true(c):
                if solve.entails_quick(self.axioms + st.zpc(), z3.Not(c)):
                    return v
                if not solve.entails_quick(self.axioms + st.zpc(), c):
                    return Poison()
            base = str(r)
            if base not in fixed:
                fixed[base] = self.new_root(st, self.root_ty(st, r), self.root_val(st, r))
            nr = fixed[base]
            return Loc(nr.root, ks, None)

        for f in st.frames + st.susp:
            for nme in list(f.env):
                f.env[nme] = fix(f.env[nme])

    def nonnull(self, st, o, what):
        """States where the receiver is not None (AttributeError otherwise)."""
        if not o.ty.nullable:
            return [st]
        out = []
        for s1, b in self.branch(st, o.z != NULL):
            if b:
                out.append(s1)
            else:
                self.raise_(s1, "AttributeError", "None%s" % what)
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(st, e)

    def evs(self, st, es):
        """Evaluate a list of expressions left to right -> [(st, [vals])]."""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s1, vs in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(s1, e.value):
                        items = self.concrete_items(s2, v)
                        if items is None:
                            if isinstance(v, Meta) and v.kind == "genexp":
                                items = self.concrete_genexp(s2, v)
                            if items is None:
                                nxt.append((s2, vs + [Meta("star", v=v)]))
                                continue
                        nxt.append((s2, vs + list(items)))
                else:
                    for s2, v in self.ev(s1, e):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, st, e):
        v = e.value
        if v is None:
            return [(st, NONE)]
        if v is True:
            return [(st, TRUE)]
        if v is False:
            return [(st, FALSE)]
        if isinstance(v, int):
            return [(st, Sc(TInt, z3.IntVal(v)))]
        if isinstance(v, str):
            return [(st, Meta("str", s=v))] if False else [(st, Sc(TStr, T.str_const(v)))]
        if isinstance(v, float):
            return [(st, Sc(TAny, fresh("float", T.AnySort)))]
        if v is Ellipsis:
            return [(st, NONE)]
        raise Unsupported("constant %r" % (v,))

    def e_JoinedStr(self, st, e):
        return [(st, Sc(TStr, fresh("fstr", T.StrSort)))]

    def e_Name(self, st, e):
        n = e.id
        fr = st.frames[-1]
        if n in fr.globals_decl:
            return [(st, self.module_name(st, fr.module, n))]
        if n in fr.env:
            v = fr.env[n]
            if isinstance(v, Poison):
                raise Unsupported("use of poisoned alias %s" % n)
            return [(st, v)]
        c = fr.closure
        if c is not None and n in c:
            return [(st, c[n])]
        return [(st, self.module_name(st, fr.module, n))]

    BUILTINS = {
        "len", "set", "list", "dict", "tuple", "sorted", "isinstance", "getattr", "hasattr",
        "min", "max", "any", "all", "cast", "range", "enumerate", "zip", "id", "hash", "type",
        "frozenset", "str", "int", "bool", "float", "print", "sum", "repr", "iter", "next",
        "reversed", "issubclass", "abs", "super", "defaultdict", "map", "filter", "object", "callable",
    }

    def module_name(self, st, module, n):
        key = (module.name, n)
        if key in self.w.names:
            return self.w.names[key]
        ent = module.names.get(n)
        if ent is None:
            if n in self.BUILTINS:
                return Meta("builtin", name=n)
            if n in EXC_BASES:
                return Meta("excclass", name=n)
            if n == "__name__":
                return Sc(TStr, T.str_const(module.name))
            raise Unsupported("name %s in %s" % (n, module.name))
        return self.entity(st, module, n, ent)

    def entity(self, st, module, n, ent):
        if ent[0] == "func":
            q = ent[1].qual
            if q in self.w.intrinsics:
                return Meta("intrinsic", fn=self.w.intrinsics[q], name=q)
            return Meta("func", fi=ent[1], closure=None)
        if ent[0] == "class":
            return self.class_meta(n)
        if ent[0] == "import":
            return self.resolve_import(ent[1], ent[2], st)
        if ent[0] == "module":
            return Meta("module", name=ent[1])
        if ent[0] == "assign":
            g = module.name.split(".")[-1] + "." + n
            if isinstance(ent[1], ast.Call) and ast.unparse(ent[1].func).split("[")[0] == "ContextVar":
                return Meta("ctxvar", glob=g, module=module)
            if g in self.w.globs:
                ty = self.w.globs[g]
                if is_container(ty):
                    return Loc(("g", g), (), None)
                return self.from_z(st, self.glob_get(st, g), ty)
            val = ent[1]
            if isinstance(val, ast.Call) and ast.unparse(val.func).endswith("getLogger"):
                return Meta("logger")
            if isinstance(val, ast.Name) or isinstance(val, ast.Constant) or isinstance(val, (ast.Tuple, ast.Call, ast.UnaryOp)):
                st.frames.append(Frame({}, module))
                r = self.ev(st, val)
                for s, _ in r:
                    s.frames.pop()
                if len(r) == 1:
                    return r[0][1]
            raise Unsupported("module constant %s.%s" % (module.name, n))
        raise Unsupported("entity %s" % (ent,))

    def resolve_import(self, mod, name, st=None):
        key = (mod, name)
        if key in self.w.names:
            return self.w.names[key]
        m = self.prog.modules.get(mod)
        if m is not None:
            ent = m.names.get(name)
            if ent is not None:
                return self.entity(st, m, name, ent)
            if "%s.%s" % (mod, name) in self.prog.modules:
                return Meta("module", name="%s.%s" % (mod, name))
        if name in self.BUILTINS:
            return Meta("builtin", name=name)
        if mod == "contextlib" and name in ("suppress",):
            return Meta("builtin", name=name)
        return Meta("extern", name="%s.%s" % (mod, name))

    def class_meta(self, name):
        ci = self.prog.classes.get(name)
        if ci is not None and ci.is_enum:
            ty = self.w.enum_type(self.prog, name)
            return Meta("enumclass", name=name, ty=ty)
        return Meta("class", name=name)

    def e_Attribute(self, st, e):
        out = []
        for s1, o in self.ev(st, e.value):
            out.extend(self.get_attr(s1, o, e.attr))
        return out

    def get_attr(self, st, o, name):
        if isinstance(o, Poison):
            raise Unsupported("poisoned alias")
        if isinstance(o, Loc):
            return [(st, Meta("cmeth", loc=o, name=name))]
        if isinstance(o, Sc):
            if isinstance(o.ty, TRef):
                out = []
                for s1 in self.nonnull(st, o, "." + name):
                    out.extend(self.ref_attr(s1, o, name))
                return out
            if isinstance(o.ty, TTup):
                return self.tup_attr(st, o, name)
            if isinstance(o.ty, TOpt):
                none, some, isn, iss, val = opt_parts(o.ty.inner.sort())
                out = []
                for s1, b in self.branch(st, iss(o.z)):
                    if b:
                        out.extend(self.get_attr(s1, self.from_z(s1, val(o.z), o.ty.inner), name))
                    else:
                        self.raise_(s1, "AttributeError", "None.%s" % name)
                return out
            if o.ty is TNone:
                self.raise_(st, "AttributeError", "None.%s" % name)
                return []
            if isinstance(o.ty, TEnum) and name in ("name", "value"):
                f = z3.Function("enum_%s_%s" % (o.ty.ename, name), o.ty.sort(), T.StrSort)
                return [(st, Sc(TStr, f(o.z)))]
            if o.ty is TStr:
                return [(st, Meta("strmeth", v=o, name=name))]
            raise Unsupported("attribute %s on %s" % (name, o.ty))
        if isinstance(o, Tup):
            if o.cname:
                return self.tup_attr(st, o, name)
            raise Unsupported("attribute %s on tuple" % name)
        if isinstance(o, Meta):
            k = o.kind
            if k == "class":
                return self.class_attr(st, o.name, name)
            if k == "enumclass":
                if name in o.ty.consts:
                    return [(st, Sc(o.ty, o.ty.consts[name]))]
                if name.upper() in o.ty.consts:
                    return [(st, Sc(o.ty, o.ty.consts[name.upper()]))]
                m = self.prog.lookup(o.name, name)
                if m and m[0] == "method":
                    return [(st, Meta("bound", self=o, fi=m[1], cls=o.name))]
            if k == "module":
                key = (o.name, name)
                if key in self.w.names:
                    return [(st, self.w.names[key])]
                mod = self.prog.modules.get(o.name)
                if mod is not None and name in mod.names:
                    return [(st, self.entity(st, mod, name, mod.names[name]))]
                return [(st, Meta("extern", name="%s.%s" % (o.name, name)))]
            if k == "ctxvar":
                return [(st, Meta("ctxmeth", glob=o.glob, name=name))]
            if k == "logger":
                return [(st, Meta("noop"))]
            if k == "super":
                m = None
                for c in self.prog.mro(o.cls)[1:]:
                    if name in self.prog.classes[c].methods:
                        m = self.prog.classes[c].methods[name]
                        break
                if m is None:
                    return [(st, Meta("noop"))]
                return [(st, Meta("bound", self=o.self, fi=m, cls=o.cls))]
            if k in ("items", "values", "clist", "gen", "genexp", "keysview", "asdictv"):
                return [(st, Meta("vmeth", v=o, name=name))]
            if k == "extern":
                return [(st, Meta("extern", name=o.name + "." + name))]
        raise Unsupported("attribute %s on %s" % (name, o))

    def ref_attr(self, st, o, name):
        cls = o.ty.cls
        if name == "__class__":
            return [(st, Meta("class", name=cls))]
        key = self.w.field_key(self.prog, cls, name)
        if key is not None:
            ty = self.w.fields[key]
            if is_container(ty):
                return [(st, Loc(("f", key, o.z), (), None))]
            return [(st, self.from_z(st, z3.Select(self.heap_get(st, key), o.z), ty))]
        ik = self.w.intrinsic_method(self.prog, cls, name)
        if ik is not None:
            return [(st, Meta("intrinsic", fn=ik, name="%s.%s" % (cls, name), self=o))]
        m = self.prog.lookup(cls, name)
        if m is None:
            raise Unsupported("no attribute %s.%s" % (cls, name))
        if m[0] == "method":
            fi = m[1]
            if fi.is_property:
                return self.call_func(st, fi, [o], {}, cls)
            if fi.is_classmethod:
                return [(st, Meta("bound", self=Meta("class", name=cls), fi=fi, cls=cls))]
            if fi.is_static:
                return [(st, Meta("func", fi=fi, closure=None))]
            return [(st, Meta("bound", self=o, fi=fi, cls=cls))]
        return self.class_attr(st, cls, name)

    def tup_attr(self, st, o, name):
        if isinstance(o, Sc):
            for (f, t), acc in zip(o.ty.fields, o.ty.dt()[2]):
                if f == name:
                    return [(st, self.from_z(st, acc(o.z), t))]
            cname = o.ty.cname
        else:
            cname = o.cname
            flds = self.w.tuples[cname].fields
            for (f, t), it in zip(flds, o.items):
                if f == name:
                    return [(st, it)]
        if name == "__class__":
            return [(st, Meta("class", name=cname))]
        if name == "_asdict":
            return [(st, Meta("asdict", v=o))]
        if cname is None:
            raise Unsupported("tuple attribute %s" % name)
        m = self.prog.lookup(cname, name)
        if m and m[0] == "method":
            fi = m[1]
            if fi.is_property:
                return self.call_func(st, fi, [o], {}, cname)
            if fi.is_classmethod:
                return [(st, Meta("bound", self=Meta("class", name=cname), fi=fi, cls=cname))]
            if fi.is_static:
                return [(st, Meta("func", fi=fi, closure=None))]
            return [(st, Meta("bound", self=o, fi=fi, cls=cname))]
        raise Unsupported("attribute %s.%s" % (cname, name))

    def class_attr(self, st, cls, name):
        key = self.w.glob_key(self.prog, cls, name)
        if key is not None:
            ty = self.w.globs[key]
            if is_container(ty):
                return [(st, Loc(("g", key), (), None))]
            return [(st, self.from_z(st, self.glob_get(st, key), ty))]
        ik = self.w.intrinsic_method(self.prog, cls, name)
        if ik is not None:
            return [(st, Meta("intrinsic", fn=ik, name="%s.%s" % (cls, name), self=Meta("class", name=cls)))]
        m = self.prog.lookup(cls, name)
        if m is None:
            raise Unsupported("class attribute %s.%s" % (cls, name))
        if m[0] == "method":
            fi = m[1]
            if fi.is_classmethod:
                return [(st, Meta("bound", self=Meta("class", name=cls), fi=fi, cls=cls))]
            return [(st, Meta("func", fi=fi, closure=None))]
        if m[0] == "classvar" and isinstance(m[2], ast.Constant):
            return self.e_Constant(st, m[2])
        raise Unsupported("class attribute %s.%s" % (cls, name))

    # conditions ---------------------------------------------------------------
    def truth(self, st, v):
        if isinstance(v, Sc):
            t = v.ty
            if t is TBool:
                return v.z
            if t is TNone:
                return BoolF
            if t is TInt:
                return v.z != 0
            if isinstance(t, TRef):
                for dunder in ("__bool__", "__len__"):
                    m = self.prog.lookup(t.cls, dunder)
                    if m and m[0] == "method":
                        raise Unsupported("truth of %s with %s" % (t.cls, dunder))
                return v.z != NULL if t.nullable else BoolT
            if isinstance(t, TOpt):
                none, some, isn, iss, val = opt_parts(t.inner.sort())
                return z3.And(iss(v.z), self.truth(st, Sc(t.inner, val(v.z))))
            if t is TStr:
                return v.z != T.str_const("")
            if isinstance(t, TTup):
                return BoolT if t.fields else BoolF
            if isinstance(t, TEnum):
                return BoolT
            if t is TId:
                raise Unsupported("truth of id")
            if t is TAny:
                return z3.Function("any_truth", T.AnySort, z3.BoolSort())(v.z)
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items) or bool(v.cname))
        if isinstance(v, Loc):
            t = self.loc_ty(st, v)
            if isinstance(t, tuple):
                return BoolF
            z = self.read(st, v)
            if isinstance(t, TList):
                return t.dt()[2](z) > 0
            if isinstance(t, TSet):
                return self.nonempty(st, z, t)
            if isinstance(t, TDict) and not t.default:
                return self.nonempty_dict(st, z, t)
        if isinstance(v, Meta):
            if v.kind in ("class", "func", "bound", "enumclass", "builtin"):
                return BoolT
            if v.kind == "clist":
                return z3.BoolVal(bool(v.items))
        raise Unsupported("truth of %s" % (v,))

    def nonempty(self, st, z, t):
        x = z3.Const("x!ne", t.elem.sort())
        return z3.Exists([x], z3.Select(z, x))

    def nonempty_dict(self, st, z, t):
        x = z3.Const("x!ne", t.key.sort())
        return z3.Exists([x], self.dict_has(t, z, x))

    def ev_cond(self, st, e):
        """-> [(st, z3 Bool)]"""
        if isinstance(e, ast.BoolOp):
            return self.cond_boolop(st, isinstance(e.op, ast.And), e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, z3.Not(c)) for s, c in self.ev_cond(st, e.operand)]
        return [(s, self.truth(s, v)) for s, v in self.ev(st, e)]

    def cond_boolop(self, st, is_and, values):
        out = []
        for s1, c in self.ev_cond(st, values[0]):
            if len(values) == 1:
                out.append((s1, c))
                continue
            cs = z3.simplify(c)
            stop = z3.is_false(cs) if is_and else z3.is_true(cs)
            if stop:
                out.append((s1, c))
                continue
            # try a merged evaluation
            trial = s1.copy()
            trial.assume(c if is_and else z3.Not(c))
            if not self.feasible(trial):
                out.append((s1, BoolF if is_and else BoolT))
                continue
            n = len(trial.pc)
            self.sinks.append([])
            base = trial.copy()
            rs = self.cond_boolop(trial, is_and, values[1:])
            sink = self.sinks.pop()
            if len(rs) == 1 and not sink and self.unchanged(base, rs[0][0]) and all(k == "d" for k, _ in rs[0][0].pc[n:]):
                s2, c2 = rs[0]
                for k, d in s2.pc[n:]:
                    s1.define(z3.Implies(c if is_and else z3.Not(c), d))
                for r, z in s2.roots.items():
                    if r not in s1.roots:
                        s1.roots[r] = z
                        s1.rty[r] = s2.rty[r]
                out.append((s1, z3.And(c, c2) if is_and else z3.Or(c, c2)))
            else:
                out.extend(rs)
                self.sinks[-1].extend(sink)
                other = s1.copy()
                other.assume(z3.Not(c) if is_and else c)
                if self.feasible(other):
                    out.append((other, BoolF if is_and else BoolT))
        return out

    def unchanged(self, a, b):
        for k, z in b.heap.items():
            z0 = a.heap.get(k, self.inits.get(k))
            if not z0.eq(z):
                return False
        for k, z in b.globs.items():
            z0 = a.globs.get(k, self.inits.get("g:" + k))
            if not z0.eq(z):
                return False
        for r, z in a.roots.items():
            z2 = b.roots.get(r)
            if (z is None) != (z2 is None) or (z is not None and not z.eq(z2)):
                return False
        return a.fwd.keys() == b.fwd.keys()

    def e_BoolOp(self, st, e):
        is_and = isinstance(e.op, ast.And)
        # value semantics
        cur = [(st, None)]
        out = []
        pend = self.ev(st, e.values[0])
        for i, nxt in enumerate(e.values[1:] + [None]):
            newp = []
            for s1, v in pend:
                if nxt is None:
                    out.append((s1, v))
                    continue
                if isinstance(v, Sc) and v.ty is TBool:
                    pass
                for s2, b in self.branch(s1, self.truth(s1, v)):
                    if b == is_and:
                        newp.extend(self.ev(s2, nxt))
                    else:
                        if isinstance(v, Sc) and isinstance(v.ty, TOpt) and b:
                            v2 = self.from_z(s2, opt_parts(v.ty.inner.sort())[4](v.z), v.ty.inner)
                        elif isinstance(v, Sc) and isinstance(v.ty, TRef) and v.ty.nullable and b:
                            v2 = Sc(TRef(v.ty.cls), v.z)
                        else:
                            v2 = v
                        out.append((s2, v2))
            pend = newp
        return out

    def e_UnaryOp(self, st, e):
        if isinstance(e.op, ast.Not):
            return [(s, Sc(TBool, z3.Not(c))) for s, c in self.ev_cond(st, e.operand)]
        out = []
        for s, v in self.ev(st, e.operand):
            if isinstance(e.op, ast.USub) and isinstance(v, Sc) and v.ty is TInt:
                out.append((s, Sc(TInt, z3.simplify(-v.z))))
            else:
                raise Unsupported("unary %s" % type(e.op).__name__)
        return out

    def e_IfExp(self, st, e):
        out = []
        for s1, c in self.ev_cond(st, e.test):
            br = self.branch(s1, c)
            if len(br) == 2:
                # try to merge into an ite
                (sa, _), (sb, _) = br if br[0][1] else (br[1], br[0])
                na, nb = len(sa.pc), len(sb.pc)
                ba, bb = sa.copy(), sb.copy()
                self.sinks.append([])
                ra, rb = self.ev(sa, e.body), self.ev(sb, e.orelse)
                sink = self.sinks.pop()
                if len(ra) == 1 and len(rb) == 1 and not sink and self.unchanged(ba, ra[0][0]) and self.unchanged(bb, rb[0][0]) \
                        and isinstance(ra[0][1], Sc) and isinstance(rb[0][1], Sc) \
                        and all(k == "d" for k, _ in ra[0][0].pc[na:]) and all(k == "d" for k, _ in rb[0][0].pc[nb:]):
                    try:
                        ty = self.unify(ra[0][1].ty, rb[0][1].ty)
                        za, zb = self.to_z(ra[0][0], ra[0][1], ty), self.to_z(rb[0][0], rb[0][1], ty)
                        for k, d in ra[0][0].pc[na:]:
                            s1.define(z3.Implies(c, d))
                        for k, d in rb[0][0].pc[nb:]:
                            s1.define(z3.Implies(z3.Not(c), d))
                        out.append((s1, Sc(ty, z3.If(c, za, zb))))
                        continue
                    except Unsupported:
                        pass
                out.extend(ra)
                out.extend(rb)
                self.sinks[-1].extend(sink)
            else:
                for s2, b in br:
                    out.extend(self.ev(s2, e.body if b else e.orelse))
        return out

    def e_Compare(self, st, e):
        if len(e.ops) > 1:
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), e))
                left = r
            return [(s, Sc(TBool, c)) for s, c in self.cond_boolop(st, True, parts)]
        out = []
        m = self.len_vs_zero(e)
        if m:
            inner, positive = m
            for s1, v in self.ev(st, inner):
                if isinstance(v, Loc) and not self.is_lazy(s1, v) and isinstance(self.loc_ty(s1, v), TSet):
                    z = self.truth(s1, v)
                    out.append((s1, Sc(TBool, z if positive else z3.Not(z))))
                else:
                    for s2, a in self.b_len(s1, [v], {}, e.left):
                        for s3, z in self.compare(s2, e.ops[0], a, Sc(TInt, z3.IntVal(e.comparators[0].value))):
                            out.append((s3, Sc(TBool, z)))
            return out
        for s1, a in self.ev(st, e.left):
            for s2, b in self.ev(s1, e.comparators[0]):
                for s3, z in self.compare(s2, e.ops[0], a, b):
                    out.append((s3, Sc(TBool, z)))
        return out

    def len_vs_zero(self, e):
        """len(x) compared with 0 (or 1) for emptiness: (x, true if non-empty is asked)"""
        l, r, op = e.left, e.comparators[0], e.ops[0]
        if not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and len(l.args) == 1 and not l.keywords):
            return None
        if not (isinstance(r, ast.Constant) and type(r.value) is int):
            return None
        return {(0, ast.Eq): (l.args[0], False), (0, ast.NotEq): (l.args[0], True), (0, ast.Gt): (l.args[0], True), (0, ast.LtE): (l.args[0], False),
                (1, ast.GtE): (l.args[0], True), (1, ast.Lt): (l.args[0], False)}.get((r.value, type(op)))

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq_states(st, a, b)
            return [(s, z3.Not(z) if isinstance(op, ast.NotEq) else z) for s, z in r]
        if isinstance(op, (ast.Is, ast.IsNot)):
            z = self.is_(st, a, b)
            return [(st, z3.Not(z) if isinstance(op, ast.IsNot) else z)]
        if isinstance(op, (ast.In, ast.NotIn)):
            z = self.contains(st, a, b)
            return [(st, z3.Not(z) if isinstance(op, ast.NotIn) else z)]
        if isinstance(a, Loc) and isinstance(b, Loc) or isinstance(a, Meta) or isinstance(b, Meta):
            return [(st, self.set_compare(st, op, a, b))]
        lt = self.lt
        if isinstance(op, ast.Lt):
            return [(st, lt(st, a, b))]
        if isinstance(op, ast.Gt):
            return [(st, lt(st, b, a))]
        if isinstance(op, ast.LtE):
            return [(st, z3.Not(lt(st, b, a)))]
        if isinstance(op, ast.GtE):
            return [(st, z3.Not(lt(st, a, b)))]
        raise Unsupported("compare")

    def set_compare(self, st, op, a, b):
        ta = self.set_elem_ty(st, a) or self.set_elem_ty(st, b)
        if ta is None:
            raise Unsupported("comparison of untyped sets")
        za, zb = self.as_set(st, a, ta), self.as_set(st, b, ta)
        x = z3.Const("x!sub", ta.sort())
        sub = lambda p, q: FA([x], z3.Implies(z3.Select(p, x), z3.Select(q, x)), patterns=[z3.Select(p, x)])
        if isinstance(op, ast.LtE):
            return sub(za, zb)
        if isinstance(op, ast.GtE):
            return sub(zb, za)
        raise Unsupported("set comparison")

    def is_(self, st, a, b):
        if isinstance(a, Meta) or isinstance(b, Meta):
            if isinstance(a, Meta) and isinstance(b, Meta):
                if a.kind == b.kind and a.kind in ("class", "enumclass"):
                    return z3.BoolVal(a.name == b.name)
                if a.kind == b.kind == "func":
                    return z3.BoolVal(a.fi is b.fi)
            if (isinstance(b, Sc) and b.ty is TNone) or (isinstance(a, Sc) and a.ty is TNone):
                return BoolF
            if isinstance(a, Sc) and a.ty is TAny:
                return a.z == self.meta_any(b)
            if isinstance(b, Sc) and b.ty is TAny:
                return b.z == self.meta_any(a)
            raise Unsupported("is on meta")
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty is TNone:
                a, b = b, a
            if b.ty is TNone:
                if a.ty is TNone:
                    return BoolT
                if isinstance(a.ty, TRef):
                    return a.z == NULL if a.ty.nullable else BoolF
                if isinstance(a.ty, TOpt):
                    return opt_parts(a.ty.inner.sort())[2](a.z)
                if a.ty is TAny:
                    return a.z == T.ANY_NONE
                return BoolF
            if isinstance(a.ty, TRef) and isinstance(b.ty, TRef):
                return a.z == b.z
            if isinstance(a.ty, TEnum) and a.ty == b.ty:
                return a.z == b.z
            if a.ty is TBool and b.ty is TBool:
                return a.z == b.z
            if a.ty is TAny and b.ty is TAny:
                return a.z == b.z
        if isinstance(a, (Loc, Tup)) and isinstance(b, Sc) and b.ty is TNone:
            return BoolF
        if isinstance(b, (Loc, Tup)) and isinstance(a, Sc) and a.ty is TNone:
            return BoolF
        raise Unsupported("is on %s, %s" % (a, b))

    def eq_states(self, st, a, b):
        """== may dispatch to a user-defined __eq__."""
        cn = None
        for v in (a, b):
            if isinstance(v, Sc) and isinstance(v.ty, TTup) and v.ty.cname:
                cn = v
        if cn is not None and cn is a:
            m = self.prog.lookup(a.ty.cname, "__eq__")
            if m and m[0] == "method":
                out = []
                for s, r in self.call_func(st, m[1], [a, b], {}, a.ty.cname):
                    out.append((s, self.truth(s, r)))
                return out
        if isinstance(a, Sc) and isinstance(a.ty, TRef):
            m = self.prog.lookup(a.ty.cls, "__eq__")
            if m and m[0] == "method":
                out = []
                for s, r in self.call_func(st, m[1], [a, b], {}, a.ty.cls):
                    out.append((s, self.truth(s, r)))
                return out
        return [(st, self.eq(st, a, b))]

    def eq(self, st, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return BoolF
            return z3.And(*[self.eq(st, x, y) for x, y in zip(a.items, b.items)]) if a.items else BoolT
        if isinstance(a, Sc) and isinstance(a.ty, TTup) and isinstance(b, Tup):
            return a.z == self.to_z(st, b, a.ty)
        if isinstance(b, Sc) and isinstance(b.ty, TTup) and isinstance(a, Tup):
            return b.z == self.to_z(st, a, b.ty)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty is TNone or b.ty is TNone:
                return self.is_(st, a, b)
            if isinstance(a.ty, TRef) and isinstance(b.ty, TRef):
                return a.z == b.z
            if a.ty == b.ty:
                return a.z == b.z
            if isinstance(a.ty, TEnum) or isinstance(b.ty, TEnum):
                if isinstance(a.ty, TEnum) and isinstance(b.ty, TEnum):
                    return BoolF
            try:
                return a.z == self.to_z(st, b, a.ty)
            except Unsupported:
                return b.z == self.to_z(st, a, b.ty)
        if isinstance(a, (Loc, Meta)) or isinstance(b, (Loc, Meta)):
            if isinstance(a, Loc) and isinstance(b, Loc):
                ta, tb = self.loc_ty(st, a), self.loc_ty(st, b)
                if isinstance(ta, tuple) and isinstance(tb, tuple):
                    return BoolT
                if isinstance(ta, tuple):
                    self.materialize(st, a, tb)
                if isinstance(tb, tuple):
                    self.materialize(st, b, ta)
                ta, tb = self.loc_ty(st, a), self.loc_ty(st, b)
                if ta != tb:
                    raise Unsupported("== on %s and %s" % (ta, tb))
                if isinstance(ta, TSet):
                    x = z3.Const("x!eq", ta.elem.sort())
                    za, zb = self.read(st, a), self.read(st, b)
                    return za == zb
                if isinstance(ta, TDict):
                    return self.read(st, a) == self.read(st, b)
                if isinstance(ta, TList):
                    la, lb = ta.dt()[2], ta.dt()[3]
                    za, zb = self.read(st, a), self.read(st, b)
                    i = z3.Int("i!eq")
                    return z3.And(la(za) == la(zb), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < la(za)), z3.Select(lb(za), i) == z3.Select(lb(zb), i))))
            if isinstance(a, Sc) and a.ty is TNone or isinstance(b, Sc) and b.ty is TNone:
                return BoolF
            if isinstance(a, Meta) and isinstance(b, Meta) and a.kind == "class" == b.kind:
                return z3.BoolVal(a.name == b.name)
        raise Unsupported("== on %s, %s" % (a, b))

    def lt(self, st, a, b):
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty in (TInt, TBool) and b.ty in (TInt, TBool):
                return self.to_z(st, a, TInt) < self.to_z(st, b, TInt)
            if isinstance(a.ty, TOpt) or isinstance(b.ty, TOpt):
                ia = a.ty.inner if isinstance(a.ty, TOpt) else a.ty
                return self.lt(st, Sc(ia, self.to_z(st, a, ia)), Sc(ia, self.to_z(st, b, ia)))
        ia, ib = self.tup_items(st, a), self.tup_items(st, b)
        if ia is not None and ib is not None:
            r = z3.BoolVal(len(ia) < len(ib))
            for x, y in reversed(list(zip(ia, ib))):
                r = z3.Or(self.lt(st, x, y), z3.And(self.eq(st, x, y), r))
            return r
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty == b.ty and a.ty in (TStr, TId, TAny):
            f = z3.Function("lt_" + a.ty.name, a.ty.sort(), a.ty.sort(), z3.BoolSort())
            return f(a.z, b.z)
        raise Unsupported("< on %s, %s" % (a, b))

    def tup_items(self, st, v):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Sc) and isinstance(v.ty, TTup):
            return [Sc(t, acc(v.z)) for acc, (_, t) in zip(v.ty.dt()[2], v.ty.fields)]
        return None

    def contains(self, st, a, b):
        if isinstance(b, (Tup,)) or isinstance(b, Meta) and b.kind in ("clist",):
            items = b.items
            return z3.Or(*[self.eq(st, a, x) for x in items]) if items else BoolF
        if isinstance(b, Sc) and isinstance(b.ty, TOpt) and is_container(b.ty.inner):
            raise Unsupported("in optional container")
        if isinstance(b, Loc):
            t = self.loc_ty(st, b)
            if isinstance(t, tuple):
                return BoolF
            z = self.read(st, b)
            if isinstance(t, TSet):
                return z3.Select(z, self.to_z(st, a, t.elem))
            if isinstance(t, TDict):
                if t.default:
                    raise Unsupported("in defaultdict")
                return self.dict_has(t, z, self.to_z(st, a, t.key))
            if isinstance(t, TList):
                i = z3.Int("i!in")
                return z3.Exists([i], z3.And(i >= 0, i < t.dt()[2](z), z3.Select(t.dt()[3](z), i) == self.to_z(st, a, t.elem)))
        if isinstance(b, Meta) and b.kind == "keysview":
            return self.contains(st, a, b.loc)
        if isinstance(b, Sc) and b.ty is TStr:
            return z3.Function("str_contains", T.StrSort, T.StrSort, z3.BoolSort())(b.z, self.to_z(st, a, TStr))
        raise Unsupported("in %s" % (b,))

    # arithmetic / set algebra ---------------------------------------------------
    def e_BinOp(self, st, e):
        out = []
        for s1, a in self.ev(st, e.left):
            for s2, b in self.ev(s1, e.right):
                out.extend(self.binop(s2, e.op, a, b))
        return out

    def binop(self, st, op, a, b):
        a, b = (Sc(x.ty.inner, self.to_z(st, x, x.ty.inner)) if isinstance(x, Sc) and isinstance(x.ty, TOpt) and x.ty.inner is TInt else x for x in (a, b))
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty in (TInt, TBool) and b.ty in (TInt, TBool) and not (
            a.ty is TBool and b.ty is TBool and isinstance(op, (ast.BitAnd, ast.BitOr))
        ):
            x, y = self.to_z(st, a, TInt), self.to_z(st, b, TInt)
            if isinstance(op, ast.Add):
                return [(st, Sc(TInt, x + y))]
            if isinstance(op, ast.Sub):
                return [(st, Sc(TInt, x - y))]
            if isinstance(op, ast.Mult):
                return [(st, Sc(TInt, x * y))]
        if isinstance(a, Sc) and a.ty is TStr and isinstance(op, ast.Mod):
            return [(st, Sc(TStr, fresh("fmt", T.StrSort)))]
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty is TStr and b.ty is TStr and isinstance(op, ast.Add):
            f = z3.Function("str_cat", T.StrSort, T.StrSort, T.StrSort)
            return [(st, Sc(TStr, f(a.z, b.z)))]
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty is TBool and b.ty is TBool:
            if isinstance(op, ast.BitAnd):
                return [(st, Sc(TBool, z3.And(a.z, b.z)))]
            if isinstance(op, ast.BitOr):
                return [(st, Sc(TBool, z3.Or(a.z, b.z)))]
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            et = self.set_elem_ty(st, a) or self.set_elem_ty(st, b)
            if et is None:
                if isinstance(a, Loc) and isinstance(b, Loc):
                    return [(st, self.new_root(st, None, None, lazy="set"))]
            else:
                ty = TSet(et)
                z = self.set_op(st, op, self.as_set(st, a, et), self.as_set(st, b, et), ty)
                return [(st, self.new_root(st, ty, z))]
        if isinstance(op, ast.Add) and (isinstance(a, Loc) or isinstance(b, Loc)):
            ta = self.loc_ty(st, a)
            if isinstance(ta, TList):
                r = self.new_root(st, ta, self.read(st, a))
                self.list_extend(st, r, b)
                return [(st, r)]
        if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        raise Unsupported("binop %s on %s, %s" % (type(op).__name__, a, b))

    def set_elem_ty(self, st, v):
        if isinstance(v, Loc):
            t = self.loc_ty(st, v)
            if isinstance(t, TSet):
                return t.elem
            if isinstance(t, TDict):
                return t.key
            if isinstance(t, TList):
                return t.elem
        if isinstance(v, Meta):
            if v.kind == "keysview":
                t = self.loc_ty(st, v.loc)
                return t.key if isinstance(t, TDict) else None
            if v.kind == "clist" and v.items:
                return self.static_ty(st, v.items[0])
            if v.kind == "values":
                t = self.loc_ty(st, v.loc)
                return t.val
        return None

    def as_set(self, st, v, et):
        """Value as a z3 set over et."""
        ty = TSet(et)
        if isinstance(v, Loc):
            t = self.loc_ty(st, v)
            if isinstance(t, tuple):
                return T.empty_of(ty)
            z = self.read(st, v)
            if isinstance(t, TSet):
                if t != ty and not (isinstance(t.elem, TRef) and isinstance(et, TRef)):
                    raise Unsupported("set of %s where %s expected" % (t.elem, et))
                return z
            if isinstance(t, TDict):
                if t.default:
                    raise Unsupported("keys of defaultdict")
                return self.def_set(st, et, lambda x: self.dict_has(t, z, x))
            if isinstance(t, TList):
                i = z3.Int("i!as")
                ln, arr = t.dt()[2](z), t.dt()[3](z)
                r = fresh("setof", ty.sort())
                x = z3.Const("x!as", et.sort())
                st.define(FA([i], z3.Implies(z3.And(i >= 0, i < ln), z3.Select(r, z3.Select(arr, i))), patterns=[z3.Select(arr, i)]))
                st.define(FA([x], z3.Implies(z3.Select(r, x), z3.Exists([i], z3.And(i >= 0, i < ln, z3.Select(arr, i) == x))), patterns=[z3.Select(r, x)]))
                return r
        if isinstance(v, Meta) and v.kind == "keysview":
            return self.as_set(st, v.loc, et)
        if isinstance(v, Meta) and v.kind == "clist" or isinstance(v, Tup):
            z = T.empty_of(ty)
            for it in v.items:
                z = z3.Store(z, self.to_z(st, it, et), BoolT)
            return z
        if isinstance(v, Meta) and v.kind == "genexp":
            r = self.comp_set(st, v.node, v.env)
            return self.as_set(r[0], r[1], et)
        if isinstance(v, Meta) and v.kind == "values":
            t = self.loc_ty(st, v.loc)
            z = self.read(st, v.loc)
            r = fresh("vals", ty.sort())
            k = z3.Const("k!v", t.key.sort())
            x = z3.Const("x!v", et.sort())
            st.define(FA([k], z3.Implies(self.dict_has(t, z, k), z3.Select(r, self.dict_val(t, z, k))), patterns=[z3.Select(z, k)]))
            st.define(FA([x], z3.Implies(z3.Select(r, x), z3.Exists([k], z3.And(self.dict_has(t, z, k), self.dict_val(t, z, k) == x))), patterns=[z3.Select(r, x)]))
            return r
        raise Unsupported("as set: %s" % (v,))

    def def_set(self, st, et, pred, name="set"):
        r = fresh(name, z3.ArraySort(et.sort(), z3.BoolSort()))
        x = z3.Const("x!d", et.sort())
        st.define(FA([x], z3.Select(r, x) == pred(x), patterns=[z3.Select(r, x)]))
        return r

    def set_op(self, st, op, a, b, ty):
        f = {
            ast.BitOr: lambda p, q: z3.Or(p, q),
            ast.BitAnd: lambda p, q: z3.And(p, q),
            ast.Sub: lambda p, q: z3.And(p, z3.Not(q)),
            ast.BitXor: lambda p, q: z3.Xor(p, q),
        }[type(op)]
        e = T.empty_of(ty)
        if isinstance(op, ast.BitOr):
            if a.eq(e):
                return b
            if b.eq(e):
                return a
        return self.def_set(st, ty.elem, lambda x: f(z3.Select(a, x), z3.Select(b, x)), "sop")

    # literals ---------------------------------------------------------------------
    def e_Tuple(self, st, e):
        return [(s, Tup(vs)) for s, vs in self.evs(st, e.elts)]

    def e_List(self, st, e):
        out = []
        for s, vs in self.evs(st, e.elts):
            if not vs:
                out.append((s, self.new_root(s, None, None, lazy="list")))
            else:
                try:
                    ty = self.static_ty(s, vs[0])
                    for v in vs[1:]:
                        ty = self.unify(ty, self.static_ty(s, v))
                    if is_container(ty):
                        raise Unsupported("list of containers")
                    lt = TList(ty)
                    arr = z3.K(z3.IntSort(), self.to_z(s, vs[0], ty))
                    for i, v in enumerate(vs):
                        arr = z3.Store(arr, i, self.to_z(s, v, ty))
                    out.append((s, self.new_root(s, lt, lt.dt()[1](z3.IntVal(len(vs)), arr))))
                except Unsupported:
                    out.append((s, Meta("clist", items=vs)))
        return out

    def e_Set(self, st, e):
        out = []
        for s, vs in self.evs(st, e.elts):
            ty = TSet(self.static_ty(s, vs[0]))
            z = T.empty_of(ty)
            for v in vs:
                z = z3.Store(z, self.to_z(s, v, ty.elem), BoolT)
            out.append((s, self.new_root(s, ty, z)))
        return out

    def e_Dict(self, st, e):
        if not e.keys:
            return [(st, self.new_root(st, None, None, lazy="dict"))]
        out = []
        for s, vs in self.evs(st, [k for k in e.keys] + list(e.values)):
            n = len(e.keys)
            if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
                out.append((s, Meta("cdict", items={k.value: v for k, v in zip(e.keys, vs[n:])})))
                continue
            kt, vt = self.static_ty(s, vs[0]), self.static_ty(s, vs[n])
            r = self.new_root(s, TDict(kt, vt), T.empty_of(TDict(kt, vt)))
            for k, v in zip(vs[:n], vs[n:]):
                self.set_item(s, r, k, v)
            out.append((s, r))
        return out

    def e_Lambda(self, st, e):
        return [(st, Meta("lambda", node=e, env=dict(st.env), module=st.frames[-1].module, selfcls=st.frames[-1].selfcls))]

    def e_Subscript(self, st, e):
        out = []
        for s1, o in self.ev(st, e.value):
            if isinstance(e.slice, ast.Slice):
                raise Unsupported("slicing")
            for s2, k in self.ev(s1, e.slice):
                out.extend(self.get_item(s2, o, k, e))
        return out

    def get_item(self, st, o, k, node):
        if isinstance(o, Loc):
            t = self.loc_ty(st, o)
            if isinstance(t, tuple):
                self.raise_(st, "KeyError" if t[1] == "dict" else "IndexError")
                return []
            if isinstance(t, TDict):
                kz = self.to_z(st, k, t.key)
                z = self.read(st, o)
                out = []
                for s1, b in self.branch(st, self.dict_has(t, z, kz)):
                    if not b:
                        self.raise_(s1, "KeyError", "line %s" % getattr(node, "lineno", "?"))
                        continue
                    if is_container(t.val):
                        root, keys = self.resolve(s1, o)
                        out.append((s1, Loc(root, keys + (kz,), None)))
                    else:
                        out.append((s1, self.from_z(s1, self.dict_val(t, z, kz), t.val)))
                return out
            if isinstance(t, TList):
                z = self.read(st, o)
                i = self.to_z(st, k, TInt)
                ln, arr = t.dt()[2](z), t.dt()[3](z)
                idx = z3.simplify(z3.If(i < 0, i + ln, i))
                out = []
                for s1, b in self.branch(st, z3.And(idx >= 0, idx < ln)):
                    if b:
                        out.append((s1, self.from_z(s1, z3.Select(arr, idx), t.elem)))
                    else:
                        self.raise_(s1, "IndexError")
                return out
        items = self.concrete_items(st, o)
        if items is None:
            items = self.tup_items(st, o)
        if items is not None and isinstance(k, Sc) and z3.is_int_value(z3.simplify(k.z)):
            i = z3.simplify(k.z).as_long()
            try:
                return [(st, items[i])]
            except IndexError:
                self.raise_(st, "IndexError")
                return []
        if isinstance(o, Meta) and o.kind == "extern":
            return [(st, o)]
        if isinstance(o, Meta) and o.kind in ("class",):
            return [(st, o)]
        raise Unsupported("subscript on %s" % (o,))

    # comprehensions -----------------------------------------------------------------
    def e_SetComp(self, st, e):
        return [self.comp_set(st, e, None)]

    def e_ListComp(self, st, e):
        items = self.concrete_genexp(st, Meta("genexp", node=e, env=dict(st.env)))
        if items is not None:
            return [(st, Meta("clist", items=items))]
        return [self.comp_list(st, e, None)]

    def e_GeneratorExp(self, st, e):
        return [(st, Meta("genexp", node=e, env=dict(st.env)))]

    def concrete_genexp(self, st, g):
        """Values of a generator expression over concrete iterables, else None."""
        node = g.node
        if len(node.generators) != 1 or node.generators[0].ifs:
            return None
        base = st.copy()
        base.frames.append(self._scope(base, g.env))
        self.sinks.append([])
        try:
            r = self.ev(base, node.generators[0].iter)
        except Unsupported:
            return None
        finally:
            sink = self.sinks.pop()
        if len(r) != 1 or sink:
            return None
        items = self.concrete_items(r[0][0], r[0][1])
        if items is None:
            return None
        st.frames.append(self._scope(st, g.env))
        vals = []
        for it in items:
            cur = self.assign(st, node.generators[0].target, it)
            if len(cur) != 1 or cur[0] is not st:
                raise Unsupported("comprehension target")
            self.sinks.append([])
            rs = self.ev(st, node.elt)
            sink = self.sinks.pop()
            if len(rs) != 1 or sink or rs[0][0] is not st:
                raise Unsupported("branching concrete comprehension")
            vals.append(rs[0][1])
        st.frames.pop()
        return vals

    def _scope(self, st, env):
        f = st.frames[-1]
        nf = Frame(dict(env if env is not None else f.env), f.module, f.fn, f.selfcls, None, f.closure)
        return nf

    def qeval(self, st, node, env, elts):
        """Evaluate comprehension clauses for arbitrary elements.
        -> (xs, [(cond, [vals], state)], excs)  with aux constants skolemised."""
        s1 = st.copy()
        s1.frames.append(self._scope(s1, env))
        n0 = T._fresh[0]
        base_pc = len(s1.pc)
        xs = []
        states = [s1]
        base = s1.copy()
        self.sinks.append([])
        for gen in node.generators:
            nxt = []
            for s in states:
                for s2, coll in self.ev(s, gen.iter):
                    items = self.concrete_items(s2, coll)
                    if items is not None:
                        for it in items:
                            s3 = s2.copy()
                            for s4 in self.assign(s3, gen.target, it):
                                nxt.append(s4)
                        continue
                    if isinstance(coll, Meta) and coll.kind == "genexp":
                        raise Unsupported("nested generator expression")
                    kt, mem, mk, _ = self.coll_view(s2, coll)
                    x = fresh("q", kt.sort())
                    xs.append(x)
                    s2.assume(mem(x))
                    for s3 in self.assign(s2, gen.target, mk(s2, x)):
                        nxt.append(s3)
            states = nxt
            for cond in gen.ifs:
                nxt = []
                for s in states:
                    for s2, c in self.ev_cond(s, cond):
                        s2.assume(c)
                        nxt.append(s2)
                states = nxt
        leaves = []
        for s in states:
            for s2, vs in self.evs(s, elts):
                if not self.unchanged(base, s2):
                    raise Unsupported("side effect in comprehension")
                leaves.append((s2, vs))
        excs = self.sinks.pop()
        def split(s2):
            """path condition, and the definitions made on it (each guarded by the
            conditions under which it was made)"""
            conds, defs = [], []
            for k, c in s2.pc[base_pc:]:
                if k == "c":
                    conds.append(c)
                else:
                    defs.append(z3.Implies(z3.And(*conds), c) if conds else c)
            return (z3.And(*conds) if conds else BoolT), defs
        res = []
        for s2, vs in leaves:
            cond, defs = split(s2)
            res.append((cond, vs, s2, defs))
        eres = []
        for s2, o in excs:
            cond, defs = split(s2)
            eres.append((cond, o, defs))
        return xs, res, eres, n0

    def skolem(self, st, xs, n0, exprs, defs):
        """Replace aux constants introduced under the binder by functions of xs; add
        their definitions (universally closed) to st; return rewritten exprs."""
        acc = {}
        seen = set()
        for e in list(exprs) + list(defs):
            solve._consts(e, acc, seen)
        aux = []
        xid = {x.get_id() for x in xs}
        for c in acc.values():
            nm = c.decl().name()
            if "!" in nm and c.get_id() not in xid:
                tail = nm.rsplit("!", 1)[1]
                if tail.isdigit() and int(tail) > n0:
                    aux.append(c)
        subs = []
        for c in aux:
            T._fresh[0] += 1
            f = z3.Function("sk_%s_%d" % (c.decl().name().replace("!", "_"), T._fresh[0]), *[x.sort() for x in xs], c.sort())
            subs.append((c, f(*xs)))
        rw = (lambda e: z3.substitute(e, *subs)) if subs else (lambda e: e)
        for d in defs:
            d2 = rw(d)
            st.define(z3.ForAll(xs, d2) if xs else d2)
        return [rw(e) for e in exprs]

    def handle_comp_excs(self, st, xs, n0, eres):
        """Fork exceptional paths of a comprehension; constrain st to the normal one."""
        for cond, o, defs in eres:
            (c2,) = self.skolem(st, xs, n0, [cond], defs)
            ex = z3.Exists(xs, c2) if xs else c2
            bad = st.copy()
            bad.assume(ex)
            if self.feasible(bad):
                self.sinks[-1].append((bad, o))
            st.assume(z3.Not(ex))

    def comp_set(self, st, node, env):
        xs, res, eres, n0 = self.qeval(st, node, env, [node.elt])
        self.handle_comp_excs(st, xs, n0, eres)
        if not res:
            return (st, self.new_root(st, None, None, lazy="set"))
        et = self.static_ty(res[0][2], res[0][1][0])
        for r in res[1:]:
            et = self.unify(et, self.static_ty(r[2], r[1][0]))
        items = []
        for cond, vs, s2, defs in res:
            z = self.to_z(s2, vs[0], et)
            c2, z2 = self.skolem(st, xs, n0, [cond, z], defs)
            items.append((c2, z2))
        ty = TSet(et)
        r = fresh("comp", ty.sort())
        y = z3.Const("y!c", et.sort())
        if len(xs) == 1 and all(z.eq(xs[0]) for _, z in items) and xs[0].sort() == et.sort():
            body = z3.Or(*[z3.substitute(c, (xs[0], y)) for c, _ in items])
            st.define(FA([y], z3.Select(r, y) == body, patterns=[z3.Select(r, y)]))
        else:
            for c, z in items:
                ax = z3.Implies(c, z3.Select(r, z))
                st.define(z3.ForAll(xs, ax) if xs else ax)
            body = z3.Or(*[z3.And(c, z == y) for c, z in items])
            st.define(FA([y], z3.Implies(z3.Select(r, y), z3.Exists(xs, body) if xs else body), patterns=[z3.Select(r, y)]))
        return (st, self.new_root(st, ty, r))

    def comp_list(self, st, node, env):
        """List comprehension over one symbolic source."""
        if len(node.generators) == 1 and not node.generators[0].ifs:
            base = st.copy()
            base.frames.append(self._scope(base, env))
            self.sinks.append([])
            cr = self.ev(base, node.generators[0].iter)
            self.sinks.pop()
            if len(cr) == 1 and isinstance(cr[0][1], Loc) and isinstance(self.loc_ty(cr[0][0], cr[0][1]), TList):
                src = self.loc_ty(cr[0][0], cr[0][1])
                zsrc = self.read(cr[0][0], cr[0][1])
                xs, res, eres, n0 = self.qeval(st, node, env, [node.elt])
                self.handle_comp_excs(st, xs, n0, eres)
                et = self.static_ty(res[0][2], res[0][1][0])
                lt = TList(et)
                r = fresh("lcomp", lt.sort())
                st.define(lt.dt()[2](r) == src.dt()[2](zsrc))
                for cond, vs, s2, defs in res:
                    c2, z2 = self.skolem(st, xs, n0, [cond, self.to_z(s2, vs[0], et)], defs)
                    st.define(z3.ForAll(xs, z3.Implies(c2, z3.Select(lt.dt()[3](r), xs[0]) == z2)))
                return (st, self.new_root(st, lt, r))
        s2, sv = self.comp_set(st, node, env)
        return self.list_of_set(s2, sv)

    def list_of_set(self, st, sv):
        t = self.loc_ty(st, sv)
        if isinstance(t, tuple):
            return (st, self.new_root(st, None, None, lazy="list"))
        z = self.read(st, sv)
        return (st, self.mk_list_of_members(st, t.elem, z))

    def mk_list_of_members(self, st, et, zset):
        """A list (arbitrary order) whose elements are exactly the set's members."""
        lt = TList(et)
        r = fresh("lst", lt.sort())
        ln, arr = lt.dt()[2](r), lt.dt()[3](r)
        i, j = z3.Ints("i!l j!l")
        x = z3.Const("x!l", et.sort())
        pos = z3.Function("pos!%s" % r.decl().name(), et.sort(), z3.IntSort())
        st.define(ln >= 0)
        st.define(FA([i], z3.Implies(z3.And(i >= 0, i < ln), z3.Select(zset, z3.Select(arr, i))), patterns=[z3.Select(arr, i)]))
        st.define(FA([x], z3.Implies(z3.Select(zset, x), z3.And(pos(x) >= 0, pos(x) < ln, z3.Select(arr, pos(x)) == x)), patterns=[z3.Select(zset, x)]))
        st.define(FA([i], z3.Implies(z3.And(i >= 0, i < ln), pos(z3.Select(arr, i)) == i), patterns=[z3.Select(arr, i)]))
        return self.new_root(st, lt, r)

    def e_DictComp(self, st, e):
        xs, res, eres, n0 = self.qeval(st, e, None, [e.key, e.value])
        self.handle_comp_excs(st, xs, n0, eres)
        if not res:
            return [(st, self.new_root(st, None, None, lazy="dict"))]
        kt = self.static_ty(res[0][2], res[0][1][0])
        vt = self.static_ty(res[0][2], res[0][1][1])
        for r in res[1:]:
            kt = self.unify(kt, self.static_ty(r[2], r[1][0]))
            vt = self.unify(vt, self.static_ty(r[2], r[1][1]))
        items = []
        for cond, vs, s2, defs in res:
            c2, k2, v2 = self.skolem(st, xs, n0, [cond, self.to_z(s2, vs[0], kt), self.to_z(s2, vs[1], vt)], defs)
            items.append((c2, k2, v2))
        ty = TDict(kt, vt)
        d = fresh("dcomp", ty.sort())
        y = z3.Const("y!c", kt.sort())
        has = lambda k: self.dict_has(ty, d, k)
        val = lambda k: self.dict_val(ty, d, k)
        if len(xs) == 1 and all(k.eq(xs[0]) for _, k, _ in items):
            hb = z3.Or(*[z3.substitute(c, (xs[0], y)) for c, _, _ in items])
            st.define(FA([y], has(y) == hb, patterns=[z3.Select(d, y)]))
            for c, k, v in items:
                c, v = z3.substitute(c, (xs[0], y)), z3.substitute(v, (xs[0], y))
                st.define(FA([y], z3.Implies(c, val(y) == v), patterns=[z3.Select(d, y)]))
        else:
            for c, k, v in items:
                ax = z3.Implies(c, has(k))
                st.define(z3.ForAll(xs, ax))
            body = z3.Or(*[z3.And(c, k == y, val(y) == v) for c, k, v in items])
            st.define(FA([y], z3.Implies(has(y), z3.Exists(xs, body)), patterns=[z3.Select(d, y)]))
        return [(st, self.new_root(st, ty, d))]

    def quant(self, st, v, universal):
        """any()/all() over a value."""
        if isinstance(v, Meta) and v.kind == "genexp":
            items = None
            try:
                items = self.concrete_genexp(st, v)
            except Unsupported:
                pass
            if items is not None:
                cs = [self.truth(st, i) for i in items]
                if universal:
                    return z3.And(*cs) if cs else BoolT
                return z3.Or(*cs) if cs else BoolF
            xs, res, eres, n0 = self.qeval(st, v.node, v.env, [v.node.elt])
            # short-circuit: exceptions may be skipped; over-approximate by forking
            self.handle_comp_excs(st, xs, n0, eres)
            parts = []
            for cond, vs, s2, defs in res:
                t = self.truth(s2, vs[0])
                c2, t2 = self.skolem(st, xs, n0, [cond, t], defs)
                parts.append((c2, t2))
            if universal:
                b = z3.And(*[z3.Implies(c, t) for c, t in parts]) if parts else BoolT
                return z3.ForAll(xs, b) if xs else b
            b = z3.Or(*[z3.And(c, t) for c, t in parts]) if parts else BoolF
            return z3.Exists(xs, b) if xs else b
        items = self.concrete_items(st, v)
        if items is not None:
            cs = [self.truth(st, i) for i in items]
            return (z3.And(*cs) if cs else BoolT) if universal else (z3.Or(*cs) if cs else BoolF)
        raise Unsupported("any/all over %s" % (v,))

    # calls -----------------------------------------------------------------------
    def e_Call(self, st, e):
        out = []
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = st.frames[-1]
            return [(st, Meta("super", cls=fr.fn.cls.name if fr.fn.cls else fr.selfcls, self=fr.env.get("self", fr.env.get("cls"))))]
        for s1, f in self.ev(st, e.func):
            if isinstance(f, Meta) and f.kind in ("noop",):
                out.append((s1, NONE))
                continue
            lazy_ok = isinstance(f, Meta)
            for s2, args in self.evs(s1, e.args):
                cur = [(s2, {})]
                for kw in e.keywords:
                    nxt = []
                    for s3, kws in cur:
                        for s4, v in self.ev(s3, kw.value):
                            if kw.arg is None:
                                if isinstance(v, Meta) and v.kind == "ckw":
                                    nxt.append((s4, {**kws, **v.items}))
                                    continue
                                raise Unsupported("** argument")
                            nxt.append((s4, {**kws, kw.arg: v}))
                    cur = nxt
                for s3, kws in cur:
                    out.extend(self.call(s3, f, args, kws, e))
        return out

    def call(self, st, f, args, kwargs, node):
        if isinstance(f, Sc) and isinstance(f.ty, TRef):
            m = self.prog.lookup(f.ty.cls, "__call__")
            if m:
                return self.call_func(st, m[1], [f] + args, kwargs, f.ty.cls)
        if isinstance(f, Sc) and f.ty is TAny and getattr(self.w, "call_any", None):
            r = self.w.call_any(self, st, f, args, kwargs)
            if r is not None:
                return r
        if not isinstance(f, Meta):
            raise Unsupported("call of %s" % (f,))
        k = f.kind
        if k == "func":
            return self.call_func(st, f.fi, args, kwargs, f.fi.cls.name if f.fi.cls else None)
        if k == "bound":
            if any(isinstance(a, Meta) and a.kind == "star" for a in args):
                raise Unsupported("symbolic *args")
            return self.call_func(st, f.fi, [f.self] + args, kwargs, f.cls)
        if k == "intrinsic":
            a = ([f.self] if getattr(f, "self", None) is not None else []) + args
            return f.fn(self, st, a, kwargs)
        if k == "noop":
            return [(st, NONE)]
        if k == "lambda":
            st.frames.append(Frame(dict(f.env), f.module, None, f.selfcls))
            for a, v in zip(f.node.args.args, args):
                st.env[a.arg] = v
            rs = self.ev(st, f.node.body)
            for s, _ in rs:
                s.frames.pop()
            return rs
        if k == "cmeth":
            return self.container_method(st, f.loc, f.name, args, kwargs, node)
        if k == "asdict":
            o = f.v
            return [(st, Meta("asdictv", v=o))]
        if k == "vmeth":
            return self.view_method(st, f.v, f.name, args, kwargs)
        if k == "ctxmeth":
            return self.ctx_method(st, f, args)
        if k == "builtin":
            return self.builtin(st, f.name, args, kwargs, node)
        if k == "class":
            return self.construct(st, f.name, args, kwargs)
        if k == "enumclass":
            if len(args) == 1 and isinstance(args[0], Sc) and args[0].ty == f.ty:
                return [(st, args[0])]
        if k == "strmeth":
            return self.str_method(st, f, args)
        if k == "extern":
            h = self.w.externs.get(f.name)
            if h is not None:
                return h(self, st, args, kwargs)
        raise Unsupported("call of %s" % (f,))

    def str_method(self, st, f, args):
        if f.name in ("strip", "lower", "upper", "join", "format", "rstrip", "lstrip"):
            fn = z3.Function("str_" + f.name, T.StrSort, T.StrSort)
            if f.name in ("join", "format"):
                return [(st, Sc(TStr, fresh("str_" + f.name, T.StrSort)))]
            return [(st, Sc(TStr, fn(f.v.z)))]
        if f.name in ("startswith", "endswith"):
            fn = z3.Function("str_" + f.name, T.StrSort, T.StrSort, z3.BoolSort())
            return [(st, Sc(TBool, fn(f.v.z, self.to_z(st, args[0], TStr))))]
        raise Unsupported("str.%s" % f.name)

    def view_method(self, st, v, name, args, kwargs):
        if v.kind == "asdictv" and name == "values":
            items = self.tup_items(st, v.v)
            return [(st, Tup(items))]
        if v.kind == "clist" and name == "append":
            v.items = v.items + [args[0]]
            raise Unsupported("append to concrete list")
        raise Unsupported("method %s on %s" % (name, v.kind))

    def ctx_method(self, st, f, args):
        g = f.glob
        if g not in self.w.globs:
            raise Unsupported("context variable %s" % g)
        ty = self.w.globs[g]
        if f.name == "get":
            return [(st, Sc(ty, self.glob_get(st, g)))]
        if f.name == "set":
            old = self.glob_get(st, g)
            st.globs[g] = self.to_z(st, args[0], ty)
            return [(st, Meta("token", glob=g, old=old))]
        if f.name == "reset":
            t = args[0]
            if not (isinstance(t, Meta) and t.kind == "token" and t.glob == g):
                raise Unsupported("reset with foreign token")
            st.globs[g] = t.old
            return [(st, NONE)]
        raise Unsupported("ContextVar.%s" % f.name)

    def construct(self, st, cname, args, kwargs):
        if cname in self.w.tuples:
            ty = self.w.tuples[cname]
            ci = self.prog.classes[cname]
            names = [f for f, _ in ty.fields]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for n in names:
                if n not in vals:
                    if n in ci.classvars:
                        vals[n] = self.ev(st, ci.classvars[n])[0][1]
                    else:
                        raise Unsupported("missing field %s" % n)
            items = [vals[n] for n in names]
            return [(st, Sc(ty, ty.dt()[1](*[self.to_z(st, v, t) for v, (_, t) in zip(items, ty.fields)])))]
        h = self.w.constructors.get(cname)
        if h is not None:
            return h(self, st, args, kwargs)
        init = self.prog.lookup(cname, "__init__")
        if cname in self.w.allocatable:
            r = fresh("new_" + cname, T.Ref)
            al = self.glob_get(st, "$alloc")
            st.define(r != NULL)
            st.define(z3.Not(z3.Select(al, r)))
            st.globs["$alloc"] = z3.Store(al, r, BoolT)
            obj = Sc(TRef(cname), r)
            out = []
            if init is None:
                return [(st, obj)]
            for s, _ in self.call_func(st, init[1], [obj] + args, kwargs, cname, force_inline=True):
                out.append((s, obj))
            return out
        raise Unsupported("construction of %s" % cname)

    # containers --------------------------------------------------------------------
    def container_method(self, st, loc, name, args, kwargs, node):
        t = self.loc_ty(st, loc)
        kind = t[1] if isinstance(t, tuple) else {TSet: "set", TDict: "dict", TList: "list"}[type(t)]
        m = getattr(self, "c_%s_%s" % (kind, name), None)
        if m is None:
            raise Unsupported("%s.%s" % (kind, name))
        return m(st, loc, t, args, kwargs, node)

    def _lazy_set(self, st, loc, t, et):
        if isinstance(t, tuple):
            self.materialize(st, loc, TSet(et))
            return self.loc_ty(st, loc)
        return t

    def c_set_add(self, st, loc, t, args, kw, node):
        t = self._lazy_set(st, loc, t, self.static_ty(st, args[0]) if isinstance(t, tuple) else None)
        self.write(st, loc, z3.Store(self.read(st, loc), self.to_z(st, args[0], t.elem), BoolT))
        return [(st, NONE)]

    def c_set_discard(self, st, loc, t, args, kw, node):
        if isinstance(t, tuple):
            return [(st, NONE)]
        self.write(st, loc, z3.Store(self.read(st, loc), self.to_z(st, args[0], t.elem), BoolF))
        return [(st, NONE)]

    def c_set_remove(self, st, loc, t, args, kw, node):
        out = []
        k = self.to_z(st, args[0], t.elem)
        for s, b in self.branch(st, z3.Select(self.read(st, loc), k)):
            if b:
                self.write(s, loc, z3.Store(self.read(s, loc), k, BoolF))
                out.append((s, NONE))
            else:
                self.raise_(s, "KeyError", "set.remove")
        return out

    def c_set_clear(self, st, loc, t, args, kw, node):
        if not isinstance(t, tuple):
            self.write(st, loc, T.empty_of(t))
        return [(st, NONE)]

    def c_set_copy(self, st, loc, t, args, kw, node):
        return [(st, self.new_root(st, t, self.read(st, loc)))]

    def _setop_args(self, st, loc, t, args, op, inplace):
        for a in args:
            if isinstance(a, Meta) and a.kind == "star":
                z = self.star_union(st, loc, a.v, op)
                t = self.loc_ty(st, loc)
                if inplace:
                    self.write(st, loc, z)
                    return [(st, NONE)]
                return [(st, self.new_root(st, t, z))]
        if isinstance(t, tuple):
            et = None
            for a in args:
                et = et or self.set_elem_ty(st, a)
            if et is None:
                g = [a for a in args if isinstance(a, Meta) and a.kind == "genexp"]
                if g:
                    s2, sv = self.comp_set(st, g[0].node, g[0].env)
                    args = [sv if a is g[0] else a for a in args]
                    et = self.set_elem_ty(st, sv)
            if et is None:
                return [(st, NONE if inplace else self.new_root(st, None, None, lazy="set"))]
            self.materialize(st, loc, TSet(et))
            t = self.loc_ty(st, loc)
        z = self.read(st, loc)
        for a in args:
            z = self.set_op(st, op, z, self.as_set(st, a, t.elem), t)
        if inplace:
            self.write(st, loc, z)
            return [(st, NONE)]
        return [(st, self.new_root(st, t, z))]

    def star_union(self, st, loc, v, op):
        """s.union(*(f(x) for x in S))"""
        if not isinstance(op, ast.BitOr) or not (isinstance(v, Meta) and v.kind == "genexp"):
            raise Unsupported("symbolic *args")
        xs, res, eres, n0 = self.qeval(st, v.node, v.env, [v.node.elt])
        self.handle_comp_excs(st, xs, n0, eres)
        items = []
        et = None
        for cond, vs, s2, defs in res:
            ety = self.static_ty(s2, vs[0])
            if not isinstance(ety, TSet):
                raise Unsupported("union of %s" % ety)
            et = ety.elem
            c2, z2 = self.skolem(st, xs, n0, [cond, self.read(s2, vs[0])], defs)
            items.append((c2, z2))
        t = self.loc_ty(st, loc)
        if isinstance(t, tuple):
            self.materialize(st, loc, TSet(et))
        base = self.read(st, loc)
        r = fresh("bigU", z3.ArraySort(et.sort(), z3.BoolSort()))
        y = z3.Const("y!u", et.sort())
        for c, z in items:
            st.define(FA(xs + [y], z3.Implies(z3.And(c, z3.Select(z, y)), z3.Select(r, y)), patterns=[z3.Select(z, y)]))
        st.define(FA([y], z3.Implies(z3.Select(base, y), z3.Select(r, y)), patterns=[z3.Select(base, y)] if not base.eq(T.empty_of(TSet(et))) else []))
        st.define(FA([y], z3.Implies(z3.Select(r, y), z3.Or(z3.Select(base, y), *[z3.Exists(xs, z3.And(c, z3.Select(z, y))) for c, z in items])), patterns=[z3.Select(r, y)]))
        return r

    def c_set_update(self, st, loc, t, args, kw, node):
        return self._setop_args(st, loc, t, args, ast.BitOr(), True)

    def c_set_union(self, st, loc, t, args, kw, node):
        return self._setop_args(st, loc, t, args, ast.BitOr(), False)

    def c_set_difference_update(self, st, loc, t, args, kw, node):
        if isinstance(t, tuple):
            return [(st, NONE)]
        return self._setop_args(st, loc, t, args, ast.Sub(), True)

    def c_set_difference(self, st, loc, t, args, kw, node):
        return self._setop_args(st, loc, t, args, ast.Sub(), False)

    def c_set_intersection(self, st, loc, t, args, kw, node):
        return self._setop_args(st, loc, t, args, ast.BitAnd(), False)

    def c_set_intersection_update(self, st, loc, t, args, kw, node):
        return self._setop_args(st, loc, t, args, ast.BitAnd(), True)

    def c_set_issubset(self, st, loc, t, args, kw, node):
        return [(st, Sc(TBool, self.set_compare(st, ast.LtE(), loc, args[0])))]

    def c_dict_keys(self, st, loc, t, args, kw, node):
        if isinstance(t, tuple):
            return [(st, Meta("clist", items=[]))]
        return [(st, Meta("keysview", loc=loc))]

    def c_dict_items(self, st, loc, t, args, kw, node):
        if isinstance(t, tuple):
            return [(st, Meta("clist", items=[]))]
        return [(st, Meta("items", loc=loc))]

    def c_dict_values(self, st, loc, t, args, kw, node):
        if isinstance(t, tuple):
            return [(st, Meta("clist", items=[]))]
        return [(st, Meta("values", loc=loc))]

    def c_dict_clear(self, st, loc, t, args, kw, node):
        if not isinstance(t, tuple):
            if t.default:
                raise Unsupported("clear of defaultdict")
            self.write(st, loc, T.empty_of(t))
        return [(st, NONE)]

    def c_dict_copy(self, st, loc, t, args, kw, node):
        return [(st, self.new_root(st, t, self.read(st, loc)))]

    def c_dict_get(self, st, loc, t, args, kw, node):
        default = args[1] if len(args) > 1 else kw.get("default", NONE)
        if isinstance(t, tuple):
            return [(st, default)]
        kz = self.to_z(st, args[0], t.key)
        z = self.read(st, loc)
        out = []
        if not is_container(t.val) and isinstance(default, Sc):
            try:
                ty = self.unify(t.val, default.ty)
                vz = self.to_z(st, Sc(t.val, self.dict_val(t, z, kz)), ty)
                dz = self.to_z(st, default, ty)
                if not t.default:
                    if isinstance(t.val, TRef) and not t.val.nullable:
                        st.define(z3.Implies(self.dict_has(t, z, kz), self.dict_val(t, z, kz) != NULL))
                    return [(st, Sc(ty, z3.If(self.dict_has(t, z, kz), vz, dz)))]
            except Unsupported:
                pass
        if t.default:
            # total-map model: absent == default; get() may miss the default value
            root, keys = self.resolve(st, loc)
            if is_container(t.val):
                return [(st, Loc(root, keys + (kz,), None))]
            raise Unsupported("get on defaultdict of scalars")
        for s, b in self.branch(st, self.dict_has(t, z, kz)):
            if b:
                if is_container(t.val):
                    root, keys = self.resolve(s, loc)
                    out.append((s, Loc(root, keys + (kz,), None)))
                else:
                    out.append((s, self.from_z(s, self.dict_val(t, z, kz), t.val)))
            else:
                d = default
                if isinstance(d, Loc) and self.is_lazy(s, d) and is_container(t.val):
                    try:
                        self.materialize(s, d, t.val)
                    except Unsupported:
                        pass
                out.append((s, d))
        return out

    def c_dict_setdefault(self, st, loc, t, args, kw, node):
        d = args[1] if len(args) > 1 else NONE
        if isinstance(t, tuple):
            raise Unsupported("setdefault on untyped dict")
        kz = self.to_z(st, args[0], t.key)
        z = self.read(st, loc)
        if t.default:
            raise Unsupported("setdefault on defaultdict")
        dz = self.to_z(st, d, t.val)
        nz = self.dict_store(t, z, kz, z3.If(self.dict_has(t, z, kz), self.dict_val(t, z, kz), dz))
        self.write(st, loc, nz)
        root, keys = self.resolve(st, loc)
        if is_container(t.val):
            return [(st, Loc(root, keys + (kz,), None))]
        return [(st, self.from_z(st, self.dict_val(t, nz, kz), t.val))]

    def c_dict_pop(self, st, loc, t, args, kw, node):
        if isinstance(t, tuple):
            if len(args) > 1:
                return [(st, args[1])]
            self.raise_(st, "KeyError")
            return []
        kz = self.to_z(st, args[0], t.key)
        z = self.read(st, loc)
        out = []
        if t.default:
            raise Unsupported("pop on defaultdict")
        for s, b in self.branch(st, self.dict_has(t, z, kz)):
            if b:
                v = self.dict_val(t, z, kz)
                val = self.new_root(s, t.val, v) if is_container(t.val) else self.from_z(s, v, t.val)
                self.detach(s, loc, kz)
                self.dict_delete(s, loc, t, kz)
                out.append((s, val))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                self.raise_(s, "KeyError", "pop line %s" % getattr(node, "lineno", "?"))
        return out

    def c_list_append(self, st, loc, t, args, kw, node):
        if isinstance(t, tuple):
            et = self.static_ty(st, args[0])
            if is_container(et):
                raise Unsupported("list of containers")
            self.materialize(st, loc, TList(et))
            t = self.loc_ty(st, loc)
        z = self.read(st, loc)
        dt, mk, ln, arr = t.dt()
        self.write(st, loc, mk(ln(z) + 1, z3.Store(arr(z), ln(z), self.to_z(st, args[0], t.elem))))
        return [(st, NONE)]

    def c_list_index(self, st, loc, t, args, kw, node):
        """the first position whose element matches; ValueError when there is none.
        Arbitrary objects match by `same_element` (identity or ==), an uninterpreted relation."""
        if isinstance(t, tuple) or len(args) != 1 or kw:
            raise Unsupported("list.index")
        dt, mk, ln, arr = t.dt()
        z, v = self.read(st, loc), self.to_z(st, args[0], t.elem)
        match = (lambda e: T.SAME_ELEMENT(e, v)) if t.elem is TAny else (lambda e: e == v)
        k, i = fresh("index", z3.IntSort()), z3.Int("i!ix")
        out = []
        miss, hit = st.copy(), st
        miss.assume(FA([i], z3.Implies(z3.And(0 <= i, i < ln(z)), z3.Not(match(z3.Select(arr(z), i))))))
        self.raise_(miss, "ValueError", "list.index")
        hit.assume(z3.And(0 <= k, k < ln(z), match(z3.Select(arr(z), k))))
        hit.assume(FA([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(match(z3.Select(arr(z), i))))))
        return [(hit, Sc(TInt, k))]

    def c_list_extend(self, st, loc, t, args, kw, node):
        self.list_extend(st, loc, args[0])
        return [(st, NONE)]

    def c_list_clear(self, st, loc, t, args, kw, node):
        if not isinstance(t, tuple):
            self.write(st, loc, T.empty_of(t))
        return [(st, NONE)]

    def list_extend(self, st, loc, v):
        items = self.concrete_items(st, v)
        t = self.loc_ty(st, loc)
        if items is not None:
            for it in items:
                self.c_list_append(st, loc, self.loc_ty(st, loc), [it], {}, None)
            return
        tv = self.loc_ty(st, v) if isinstance(v, Loc) else None
        if isinstance(t, tuple) and isinstance(tv, TList):
            self.materialize(st, loc, tv)
            t = tv
        if isinstance(tv, TList) and tv == t:
            dt, mk, ln, arr = t.dt()
            a, b = self.read(st, loc), self.read(st, v)
            r = fresh("cat", t.sort())
            i = z3.Int("i!cat")
            st.define(ln(r) == ln(a) + ln(b))
            st.define(FA([i], z3.Select(arr(r), i) == z3.If(i < ln(a), z3.Select(arr(a), i), z3.Select(arr(b), i - ln(a))), patterns=[z3.Select(arr(r), i)]))
            self.write(st, loc, r)
            return
        raise Unsupported("list extend")

    # builtins ------------------------------------------------------------------------
    def builtin(self, st, name, args, kwargs, node):
        m = getattr(self, "b_" + name, None)
        if m is None:
            raise Unsupported("builtin %s" % name)
        return m(st, args, kwargs, node)

    def b_print(self, st, args, kw, node):
        return [(st, NONE)]

    def b_len(self, st, args, kw, node):
        v = args[0]
        items = self.concrete_items(st, v) if not (isinstance(v, Loc) and not self.is_lazy(st, v) and not isinstance(self.loc_ty(st, v), TList)) else None
        if items is not None:
            return [(st, Sc(TInt, z3.IntVal(len(items))))]
        if isinstance(v, Meta) and v.kind in ("keysview", "items", "values"):
            v = v.loc
        if isinstance(v, Loc):
            t = self.loc_ty(st, v)
            z = self.read(st, v)
            if isinstance(t, TList):
                return [(st, Sc(TInt, t.dt()[2](z)))]
            if isinstance(t, TDict) and not t.default:
                s = self.as_set(st, v, t.key)
                return [(st, Sc(TInt, self.card(st, s, t.key)))]
            if isinstance(t, TSet):
                return [(st, Sc(TInt, self.card(st, z, t.elem)))]
        if isinstance(v, Sc) and v.ty is TStr:
            f = z3.Function("str_len", T.StrSort, z3.IntSort())
            st.define(f(v.z) >= 0)
            st.define((f(v.z) == 0) == (v.z == T.str_const("")))
            return [(st, Sc(TInt, f(v.z)))]
        raise Unsupported("len of %s" % (v,))

    def card(self, st, z, et):
        """|z| with the ground facts used by the code: non-negative, 0 iff empty, and
        subset+equal cardinality implies equality (pairwise over known terms)."""
        f = z3.Function("card_" + et.name.replace("[", "_").replace("]", "_").replace(",", "_").replace("?", "N"), z.sort(), z3.IntSort())
        x = z3.Const("x!card", et.sort())
        st.define(f(z) >= 0)
        st.define((f(z) == 0) == z3.Not(z3.Exists([x], z3.Select(z, x))))
        y = z3.Const("y!card", et.sort())
        st.define(z3.Implies(f(z) == 1, z3.ForAll([x, y], z3.Implies(z3.And(z3.Select(z, x), z3.Select(z, y)), x == y))))
        known = self.__dict__.setdefault("card_terms", {}).setdefault(et.name, [])
        for o in known:
            for a, b in ((z, o), (o, z)):
                sub = z3.ForAll([x], z3.Implies(z3.Select(a, x), z3.Select(b, x)))
                st.define(z3.Implies(sub, f(a) <= f(b)))
                st.define(z3.Implies(z3.And(sub, f(a) == f(b)), z3.ForAll([x], z3.Select(a, x) == z3.Select(b, x))))
        if not any(k.eq(z) for k in known):
            known.append(z)
        return f(z)

    def b_set(self, st, args, kw, node):
        if not args:
            return [(st, self.new_root(st, None, None, lazy="set"))]
        v = args[0]
        if isinstance(v, Meta) and v.kind == "genexp":
            return [self.comp_set(st, v.node, v.env)]
        if isinstance(v, Meta) and v.kind == "gen":
            return self.gen_collect(st, v, "set")
        et = self.set_elem_ty(st, v)
        if et is None:
            items = self.concrete_items(st, v)
            if items:
                et = self.static_ty(st, items[0])
            else:
                return [(st, self.new_root(st, None, None, lazy="set"))]
        return [(st, self.new_root(st, TSet(et), self.as_set(st, v, et)))]

    b_frozenset = b_set

    def gen_collect(self, st, gen, kind):
        """Materialise `yield from <coll>` style generators."""
        body = [x for x in gen.fi.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.YieldFrom):
            st.frames.append(Frame(dict(gen.bound), gen.fi.module, gen.fi, gen.selfcls))
            rs = self.ev(st, body[0].value.value)
            out = []
            for s, v in rs:
                s.frames.pop()
                out.extend(self.builtin(s, kind, [v], {}, None))
            return out
        # for-loop with guarded yield: build via cut loop is unsupported
        raise Unsupported("collecting generator %s" % gen.fi.qual)

    def b_list(self, st, args, kw, node):
        if not args:
            return [(st, self.new_root(st, None, None, lazy="list"))]
        v = args[0]
        if isinstance(v, Meta) and v.kind == "gen":
            return self.gen_collect(st, v, "list")
        items = None
        if isinstance(v, Tup) or isinstance(v, Meta) and v.kind == "clist":
            return [(st, Meta("clist", items=list(v.items)))]
        if isinstance(v, Meta) and v.kind == "genexp":
            return [self.comp_list(st, v.node, v.env)]
        if isinstance(v, Loc):
            t = self.loc_ty(st, v)
            if isinstance(t, tuple):
                return [(st, self.new_root(st, None, None, lazy="list"))]
            if isinstance(t, TList):
                return [(st, self.new_root(st, t, self.read(st, v)))]
        if isinstance(v, Meta) and v.kind in ("items", "values"):
            loc = v.loc
            t = self.loc_ty(st, loc)
            if v.kind == "items":
                # freeze a snapshot of the dict: iteration over a copy
                snap = self.new_root(st, t, self.read(st, loc))
                return [(st, Meta("items", loc=snap))]
        et = self.set_elem_ty(st, v)
        if et is None:
            raise Unsupported("list(%s)" % (v,))
        return [(st, self.mk_list_of_members(st, et, self.as_set(st, v, et)))]

    def b_tuple(self, st, args, kw, node):
        v = args[0] if args else Tup([])
        if isinstance(v, Tup) or isinstance(v, Sc) and isinstance(v.ty, TTup):
            return [(st, Tup(self.tup_items(st, v)))]
        if isinstance(v, Meta) and v.kind == "asdictvals":
            return [(st, Tup(self.tup_items(st, v.v)))]
        return self.b_list(st, args, kw, node)

    def b_sorted(self, st, args, kw, node):
        v = args[0]
        key = kw.get("key")
        rev = kw.get("reverse")
        if isinstance(v, Meta) and v.kind == "gen":
            out = []
            for s, lv in self.gen_collect(st, v, "list"):
                out.extend(self.b_sorted(s, [lv], kw, node))
            return out
        if isinstance(v, Meta) and v.kind == "genexp":
            st, v = self.comp_list(st, v.node, v.env)
        if isinstance(v, Meta) and v.kind in ("items",):
            # sorted(d.items()): a dict has one entry per key; sort by key
            raise Unsupported("sorted(items)")
        if isinstance(v, Loc) and isinstance(self.loc_ty(st, v), TList):
            t = self.loc_ty(st, v)
            zset = None
            src = self.read(st, v)
            et = t.elem
            zset = self.as_set(st, v, et)
            r = fresh("sorted", t.sort())
            dt, mk, ln, arr = t.dt()
            st.define(ln(r) == ln(src))
            # permutation witnessed by a bijection on indices
            i, j = z3.Ints("i!s j!s")
            p = z3.Function("perm!%s" % r.decl().name(), z3.IntSort(), z3.IntSort())
            q = z3.Function("perminv!%s" % r.decl().name(), z3.IntSort(), z3.IntSort())
            inr = lambda a: z3.And(a >= 0, a < ln(r))
            st.define(FA([i], z3.Implies(inr(i), z3.And(inr(p(i)), q(p(i)) == i, z3.Select(arr(r), i) == z3.Select(arr(src), p(i)))), patterns=[z3.Select(arr(r), i)]))
            st.define(FA([j], z3.Implies(inr(j), z3.And(inr(q(j)), p(q(j)) == j, z3.Select(arr(src), j) == z3.Select(arr(r), q(j)))), patterns=[z3.Select(arr(src), j)]))
            res = self.new_root(st, t, r)
        else:
            et = self.set_elem_ty(st, v)
            if et is None:
                return [(st, self.new_root(st, None, None, lazy="list"))]
            zset = self.as_set(st, v, et)
            res = self.mk_list_of_members(st, et, zset)
            t = self.loc_ty(st, res)
            r = self.read(st, res)
            dt, mk, ln, arr = t.dt()
        # ordering by key
        n0 = T._fresh[0]
        x, y = fresh("sx", et.sort()), fresh("sy", et.sort())
        tmp = st.copy()
        tmp.assume(z3.Select(zset, x))
        tmp.assume(z3.Select(zset, y))
        b = len(tmp.pc)

        def keyof(s, z):
            val = self.from_z(s, z, et)
            if key is None:
                return [(s, val)]
            return self.call(s, key, [val], {}, node)

        self.sinks.append([])
        ks = []
        for s1, kx in keyof(tmp, x):
            for s2, ky in keyof(s1, y):
                ks.append((s2, kx, ky))
        sink = self.sinks.pop()
        if sink or not ks:
            raise Unsupported("raising sort key")
        le = []
        alldefs = []
        for s2, kx, ky in ks:
            conds = [c for k, c in s2.pc[b:] if k == "c"]
            pre = [z3.Select(zset, x), z3.Select(zset, y)]
            for k, c in s2.pc[b:]:
                if k == "c":
                    pre.append(c)
                else:
                    alldefs.append(z3.Implies(z3.And(*pre), c))
            c = z3.Not(self.lt(s2, ky, kx)) if not (rev is not None and z3.is_true(z3.simplify(self.truth(s2, rev)))) else z3.Not(self.lt(s2, kx, ky))
            le.append(z3.Implies(z3.And(*conds), c) if conds else c)
        (le2,) = self.skolem(st, [x, y], n0 + 2, [z3.And(*le)], alldefs)
        i, j = z3.Ints("i!o j!o")
        le3 = z3.substitute(le2, (x, z3.Select(arr(r), i)), (y, z3.Select(arr(r), j)))
        st.define(FA([i, j], z3.Implies(z3.And(i >= 0, i < j, j < ln(r)), le3), patterns=[z3.MultiPattern(z3.Select(arr(r), i), z3.Select(arr(r), j))]))
        return [(st, res)]

    def b_any(self, st, args, kw, node):
        return [(st, Sc(TBool, self.quant(st, args[0], False)))]

    def b_all(self, st, args, kw, node):
        return [(st, Sc(TBool, self.quant(st, args[0], True)))]

    def b_cast(self, st, args, kw, node):
        return [(st, args[1])]

    def b_id(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Sc):
            f = z3.Function("py_id_" + v.ty.sort().name(), v.ty.sort(), z3.IntSort())
            return [(st, Sc(TInt, f(v.z)))]
        raise Unsupported("id")

    def b_float(self, st, args, kw, node):
        if node and isinstance(node.args[0], ast.Constant) and node.args[0].value == "inf":
            return [(st, Sc(TInt, INF))]
        raise Unsupported("float()")

    def b_str(self, st, args, kw, node):
        return [(st, Sc(TStr, fresh("str", T.StrSort)))]

    b_repr = b_str

    def b_int(self, st, args, kw, node):
        if args and isinstance(args[0], Sc) and args[0].ty in (TInt, TBool):
            return [(st, Sc(TInt, self.to_z(st, args[0], TInt)))]
        raise Unsupported("int()")

    def b_bool(self, st, args, kw, node):
        return [(st, Sc(TBool, self.truth(st, args[0])))]

    def b_type(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Sc) and isinstance(v.ty, TRef):
            return [(st, Meta("class", name=v.ty.cls))]
        raise Unsupported("type()")

    def b_dict(self, st, args, kw, node):
        if not args and not kw:
            return [(st, self.new_root(st, None, None, lazy="dict"))]
        if args and isinstance(args[0], Loc):
            t = self.loc_ty(st, args[0])
            if isinstance(t, TDict):
                return [(st, self.new_root(st, t, self.read(st, args[0])))]
        raise Unsupported("dict()")

    def b_defaultdict(self, st, args, kw, node):
        return [(st, self.new_root(st, None, None, lazy="dict"))]

    def b_range(self, st, args, kw, node):
        zs = [self.to_z(st, a, TInt) for a in args]
        if len(zs) == 1:
            zs = [z3.IntVal(0)] + zs
        step = z3.simplify(zs[2]) if len(zs) == 3 else z3.IntVal(1)
        if not z3.is_int_value(step) or step.as_long() not in (1, -1):
            raise Unsupported("range step")
        step = step.as_long()
        size = zs[1] - zs[0] if step == 1 else zs[0] - zs[1]
        return [(st, Meta("range", lo=zs[0], hi=zs[1], step=step, size=z3.If(size > 0, size, 0)))]

    def b_reversed(self, st, args, kw, node):
        r = args[0]
        if isinstance(r, Meta) and r.kind == "range":
            if r.step == 1:
                lo, hi, step = r.lo + r.size - 1, r.lo - 1, -1
            else:
                lo, hi, step = r.lo - r.size + 1, r.lo + 1, 1
            return [(st, Meta("range", lo=lo, hi=hi, step=step, size=r.size))]
        raise Unsupported("builtin reversed")

    def b_enumerate(self, st, args, kw, node):
        items = self.concrete_items(st, args[0])
        if items is not None:
            return [(st, Meta("clist", items=[Tup([Sc(TInt, z3.IntVal(i)), x]) for i, x in enumerate(items)]))]
        return [(st, Meta("enumerate", inner=args[0]))]

    def b_zip(self, st, args, kw, node):
        ls = [self.concrete_items(st, a) for a in args]
        if all(x is not None for x in ls):
            return [(st, Meta("clist", items=[Tup(list(t)) for t in zip(*ls)]))]
        raise Unsupported("zip")

    def b_iter(self, st, args, kw, node):
        return [(st, args[0])]

    def _minmax(self, st, args, is_max):
        if len(args) == 1:
            items = self.concrete_items(st, args[0])
            if items is None:
                raise Unsupported("min/max over symbolic")
            args = items
        acc = args[0]
        for v in args[1:]:
            c = self.lt(st, acc, v) if is_max else self.lt(st, v, acc)
            if isinstance(acc, Sc) and isinstance(v, Sc):
                ty = self.unify(acc.ty, v.ty)
                acc = Sc(ty, z3.If(c, self.to_z(st, v, ty), self.to_z(st, acc, ty)))
            else:
                raise Unsupported("min/max of non-scalars")
        return [(st, acc)]

    def b_max(self, st, args, kw, node):
        return self._minmax(st, args, True)

    def b_min(self, st, args, kw, node):
        return self._minmax(st, args, False)

    def b_hash(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Tup):
            ty = self.static_ty(st, v)
            z = self.to_z(st, v, ty)
            f = z3.Function("hash_" + z.sort().name(), z.sort(), z3.IntSort())
            return [(st, Sc(TInt, f(z)))]
        if isinstance(v, Sc):
            f = z3.Function("hash_" + v.ty.sort().name(), v.ty.sort(), z3.IntSort())
            return [(st, Sc(TInt, f(v.z)))]
        raise Unsupported("hash")

    def b_isinstance(self, st, args, kw, node):
        v, c = args
        cls = []
        for x in (c.items if isinstance(c, Tup) else [c]):
            if isinstance(x, Meta) and x.kind in ("class", "enumclass", "builtin", "excclass"):
                cls.append(x.name)
            elif isinstance(x, Meta) and x.kind == "extern":
                cls.append(x.name)
            else:
                raise Unsupported("isinstance against %s" % (x,))
        r = self.isinst(st, v, cls)
        return [(st, Sc(TBool, r))]

    def isinst(self, st, v, cls):
        h = self.w.isinstance_hook(self, st, v, cls)
        if h is not None:
            return h
        if isinstance(v, Sc):
            t = v.ty
            if t is TNone:
                return z3.BoolVal("NoneType" in cls)
            if t is TInt:
                return z3.BoolVal("int" in cls)
            if t is TBool:
                return z3.BoolVal("int" in cls or "bool" in cls)
            if t is TStr:
                return z3.BoolVal("str" in cls)
            if t is TId:
                if "int" in cls and "str" in cls:
                    return BoolT
                if "int" in cls or "str" in cls:
                    f = z3.Function("id_is_int", T.IdSort, z3.BoolSort())(v.z)
                    return f if "int" in cls else z3.Not(f)
                return BoolF
            if isinstance(t, TTup):
                return z3.BoolVal(t.cname in cls or "tuple" in cls)
            if isinstance(t, TEnum):
                return z3.BoolVal(any(self.prog.is_subclass(t.ename, c) for c in cls))
            if isinstance(t, TRef):
                yes = any(self.prog.is_subclass(t.cls, c) for c in cls)
                if yes:
                    return v.z != NULL if t.nullable else BoolT
                if any(c in self.prog.classes and self.prog.is_subclass(c, t.cls) for c in cls):
                    raise Unsupported("isinstance downcast")
                return BoolF
            if isinstance(t, TOpt):
                none, some, isn, iss, val = opt_parts(t.inner.sort())
                return z3.And(iss(v.z), self.isinst(st, Sc(t.inner, val(v.z)), cls))
            if t is TAny:
                st.define(z3.And(*[z3.Not(self.any_is(T.ANY_NONE, c)) for c in cls if c != "NoneType"]) if cls else BoolT)
                return z3.Or(*[self.any_is(v.z, c) for c in cls])
        if isinstance(v, Tup):
            return z3.BoolVal("tuple" in cls or v.cname in cls)
        if isinstance(v, Loc):
            t = self.loc_ty(st, v)
            k = t[1] if isinstance(t, tuple) else {TSet: "set", TDict: "dict", TList: "list"}[type(t)]
            return z3.BoolVal(k in cls or (k == "list" and ("typing.Sequence" in cls or "collections.abc.Sequence" in cls)))
        raise Unsupported("isinstance of %s" % (v,))

    def any_is(self, z, c):
        return z3.Function("isinst_" + c, T.AnySort, z3.BoolSort())(z)

    def b_object(self, st, args, kw, node):
        return [(st, Sc(TAny, fresh("object", T.AnySort)))]

    def b_getattr(self, st, args, kw, node):
        name = T.str_value(args[1].z) if isinstance(args[1], Sc) and args[1].ty is TStr else None
        if name is None:
            raise Unsupported("dynamic getattr")
        o = args[0]
        if len(args) == 3 and isinstance(o, Sc) and isinstance(o.ty, TRef):
            if not self.has_static_attr(o.ty.cls, name):
                if o.ty.nullable:
                    pass
                return [(st, args[2])]
        elif len(args) == 3:
            raise Unsupported("getattr with default on %s" % (o,))
        return self.get_attr(st, o, name)

    def b_hasattr(self, st, args, kw, node):
        n = node.args[1]
        if isinstance(n, ast.Constant) and isinstance(args[0], Loc):
            t = self.loc_ty(st, args[0])
            k = t[1] if isinstance(t, tuple) else {TSet: "set", TDict: "dict", TList: "list"}[type(t)]
            return [(st, Sc(TBool, z3.BoolVal(hasattr({"set": set, "dict": dict, "list": list}[k], n.value))))]
        if isinstance(n, ast.Constant) and isinstance(args[0], Sc) and isinstance(args[0].ty, TRef):
            return [(st, Sc(TBool, z3.BoolVal(self.has_static_attr(args[0].ty.cls, n.value))))]
        raise Unsupported("hasattr")

    def has_static_attr(self, cls, name):
        return self.w.field_key(self.prog, cls, name) is not None or self.prog.lookup(cls, name) is not None


def _deep(rec):
    return [(a, _deep(b)) for a, b in rec]


def _occurs(c, z):
    todo, done = [z], set()
    while todo:
        e = todo.pop()
        if e.get_id() in done:
            continue
        done.add(e.get_id())
        if z3.eq(e, c):
            return True
        todo.extend([e.body()] if z3.is_quantifier(e) else e.children())
    return False


def _aslist(z):
    if z is None:
        return []
    if isinstance(z, (list, tuple)):
        return list(z)
    return [z]


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t2):
        ast.copy_location(n, t)
    return t2


class LoopView:
    """What a loop-invariant template sees."""

    def __init__(self, eng, entry, st, seen, mem, kt, node, coll, mk, final=False):
        self.eng, self.entry, self.st, self._seen, self.mem, self.kt = eng, entry, st, seen, mem, kt
        self.node, self.coll, self.mk, self.final = node, coll, mk, final

    def seen(self, k):
        if self._seen[0] == "idx":
            return z3.And(k >= 0, k < self._seen[1])
        return z3.Select(self._seen[1], k)

    @property
    def idx(self):
        return self._seen[1]

    def ctx(self):
        """Specification view of the entry state of the function under contract."""
        from .verify import SpecCtx
        e = self.eng
        return SpecCtx(e, e.pre_state, e.pre_state, e.entry_args, None)

    def modifies(self, key):
        """does the loop assign this field (or global)?"""
        return any(m[0] in ("f", "g") and m[1] == key for m in self.eng.mod_of.get(id(self.node), ()))

    def assigns(self, name):
        """does the loop assign this local variable?"""
        return any(m[0] == "env" and m[3] == name for m in self.eng.mod_of.get(id(self.node), ()))

    def f(self, key):
        return self.eng.heap_get(self.st, key)

    def f0(self, key):
        return self.eng.heap_get(self.entry, key)

    def g(self, name):
        return self.eng.glob_get(self.st, name)

    def g0(self, name):
        return self.eng.glob_get(self.entry, name)

    def locals_of(self, ty, st=None, lazy=False):
        """{name: z3 value} of the innermost frame's locals with static type ty
        (lazy: also containers that are still empty and may turn out to be of this type)."""
        st = st or self.st
        out = {}
        kind = {TSet: "set", TDict: "dict"}.get(type(ty))
        for n, v in st.frames[-1].env.items():
            try:
                if lazy and isinstance(v, Loc) and self.eng.is_lazy(st, v):
                    if st.rty[v.root[1]] == ("lazy", kind):
                        out[n] = T.empty_of(ty)
                    continue
                if self.eng.static_ty(st, v) == ty:
                    out[n] = self.eng.read(st, v) if isinstance(v, Loc) else v.z
            except Unsupported:
                continue
        return out

    def local(self, name, st=None):
        st = st or self.st
        v = st.frames[-1].env.get(name)
        if v is None:
            return None
        if isinstance(v, Loc):
            return self.eng.read(st, v)
        return v.z if isinstance(v, Sc) else v

    def val(self, v, st=None):
        st = st or self.st
        return self.eng.read(st, v) if isinstance(v, Loc) else v.z
