"""Contracts, their verification against the real body, their use at call sites."""
import ast
import multiprocessing as mp
import os
import time
import traceback

import z3

from . import solve
from . import types as T
from .engine import Engine, Frame, Loc, Meta, Sc, State, Tup, NONE, _aslist
from .program import Unsupported
from .types import NULL, TNone, TOpt, TRef, is_container


class SpecCtx:
    """Pre/post view handed to requires/ensures."""

    def __init__(self, eng, pre, post, args, res=None, selfcls=None, case=None):
        self.eng, self.pre, self.post, self.args, self.res = eng, pre, post, args, res
        self.selfcls, self.case = selfcls, case

    def _z(self, st, v):
        if isinstance(v, Loc):
            return self.eng.read(st, v)
        if isinstance(v, Sc):
            return v.z
        if isinstance(v, Tup):
            return self.eng.to_z(st, v, self.eng.static_ty(st, v))
        return v

    def arg(self, n):
        return self._z(self.pre, self.args[n])

    def arg1(self, n):
        return self._z(self.post, self.args[n])

    def f(self, key):
        return self.eng.heap_get(self.pre, key)

    def f1(self, key):
        return self.eng.heap_get(self.post, key)

    def g(self, name):
        return self.eng.glob_get(self.pre, name)

    def g1(self, name):
        return self.eng.glob_get(self.post, name)

    def after(self):
        """the same view with the final state as the current one"""
        return SpecCtx(self.eng, self.post, self.post, self.args, None, self.selfcls, self.case)

    def snapshots(self):
        """Views of the state after each loop this path left (own body only)."""
        return [SpecCtx(self.eng, p, p, self.args, None, self.selfcls, self.case) for p in self.post.snaps]

    def containers(self, ty):
        """Every container of this type that existed at such a point or at the end."""
        out = []
        for p in self.post.snaps + [self.post]:
            for k, z in p.roots.items():
                if p.rty.get(k) == ty and not any(z.eq(o) for o in out):
                    out.append(z)
        return out

    @property
    def result(self):
        return self._z(self.post, self.res)

    def result_as(self, ty):
        return self.eng.to_z(self.post, self.res, ty)


def _guarded(fn):
    """a template over another kind of loop than it was written for does not apply"""
    def g(lv):
        try:
            return fn(lv)
        except z3.Z3Exception as e:
            raise Unsupported("template does not apply: %s" % e)
    return g


class Contract:
    """qual: qualified function; selfcls: static class of self for this case;
    params: {name: Ty | Meta}; requires/ensures: fn(SpecCtx)->[(name, z3)];
    modifies: field/global keys and 'arg:<name>'; raises: {Exc: fn(SpecCtx)->z3};
    invs: fn() -> [(name, fn(LoopView))]."""

    def __init__(self, qual, selfcls=None, case="", params=None, ret=None, requires=None,
                 ensures=None, modifies=(), raises=None, invs=None, prop=None, axioms=None,
                 trusted=False, use=True, may_raise=False, exc_ensures=None, note="", inv_timeout=0, merge=False):
        self.qual, self.selfcls, self.case = qual, selfcls, case
        self.params = params or {}
        self.ret = ret
        self.requires = requires or (lambda s: [])
        self.ensures = ensures or (lambda s: [])
        self.modifies = tuple(modifies)
        self.raises = raises or {}
        self.invs = invs
        self.prop = prop
        self.axioms = axioms
        self.trusted = trusted
        self.use = use  # available at call sites
        self.may_raise = may_raise
        self.exc_ensures = exc_ensures
        self.note = note
        self.inv_timeout = inv_timeout
        self.merge = merge

    @property
    def label(self):
        return self.qual + (("[%s]" % (self.case or self.selfcls)) if (self.case or self.selfcls) else "")

    def loop_candidates(self, eng, st, node, coll, kt):
        return [(nm, _guarded(fn)) for nm, fn in self.invs()] if self.invs else []

    # -- call site
    def accepts(self, eng, st, bound):
        """Do the argument types fit this contract's parameter types?"""
        for n, v in bound.items():
            ty = self.params.get(n)
            if ty is None or isinstance(ty, Meta):
                continue
            if isinstance(ty, Sc):
                if not (isinstance(v, Sc) and (v.ty is ty.ty if ty.z is None or v.z is None else v.z.eq(ty.z))):
                    return False
                continue
            try:
                if is_container(ty):
                    if not isinstance(v, Loc):
                        return False
                    vt = eng.loc_ty(st, v)
                    if not isinstance(vt, tuple) and vt != ty:
                        return False
                elif isinstance(v, (Sc, Tup)):
                    vt = eng.static_ty(st, v)
                    if vt == ty:
                        continue
                    if isinstance(ty, TRef) and isinstance(vt, TRef):
                        continue
                    if isinstance(ty, (TOpt,)) or ty is T.TAny or vt is TNone:
                        continue
                    if isinstance(vt, TOpt) and vt.inner == ty and isinstance(v, Sc):
                        bound[n] = Sc(ty, eng.to_z(st, v, ty))  # known present, or else unsupported
                        continue
                    return False
                else:
                    return False
            except Unsupported:
                return False
        return True

    def applicable(self, eng, st, bound, selfcls):
        s = SpecCtx(eng, st, st, dict(bound), None, selfcls, self.case)
        try:
            return all(solve.entails_quick(eng.axioms + st.zpc(), z) for _, z in self.requires(s))
        except (Unsupported, KeyError, z3.Z3Exception):
            return False

    def apply(self, eng, st, bound, selfcls):
        fi = eng.prog.func(self.qual)
        pre = st.copy()
        args = {}
        for n, v in bound.items():
            ty = self.params.get(n)
            if ty is not None and not isinstance(ty, (Meta, Sc)):
                if is_container(ty):
                    if isinstance(v, Loc):
                        eng.materialize(st, v, ty)
                        eng.materialize(pre, v, ty)
                        args[n] = v
                    else:
                        raise Unsupported("argument %s of %s" % (n, self.label))
                else:
                    args[n] = Sc(ty, eng.to_z(st, v, ty))
            else:
                args[n] = v
        pre = st.copy()
        s = SpecCtx(eng, pre, pre, args, None, selfcls, self.case)
        for nm, z in self.requires(s):
            eng.oblige(st, "pre-of-%s:%s" % (self.label, nm), z)
        for exc, cond in self.raises.items():
            c = cond(s)
            bad = st.copy()
            bad.assume(c)
            if eng.feasible(bad):
                eng.sinks[-1].append((bad, ("raise", exc, "from %s" % self.label)))
            st.assume(z3.Not(c))
        for m in self.modifies:
            if m.startswith("arg:"):
                v = args[m[4:]]
                z = T.fresh("post_" + m[4:], eng.loc_ty(st, v).sort())
                eng.typing(st, z, eng.loc_ty(st, v))
                eng.write(st, v, z)
            elif m in eng.w.fields:
                cur = eng.heap_get(st, m)
                st.heap[m] = T.fresh("H_" + m.replace(".", "_"), cur.sort())
            else:
                cur = eng.glob_get(st, m)
                st.globs[m] = T.fresh("G_" + m.replace(".", "_"), cur.sort())
        res = NONE
        if self.may_raise:
            excs = ("AnyError",) if self.may_raise is True else self.may_raise
            for exc in excs:
                bad = st.copy()
                if self.exc_ensures:
                    sx = SpecCtx(eng, pre, bad, args, None, selfcls, self.case)
                    for nm, z in self.exc_ensures(sx):
                        bad.assume(z)
                if eng.feasible(bad):
                    eng.sinks[-1].append((bad, ("raise", exc, "from %s" % self.label)))
        if self.ret is not None:
            res = eng.fresh_val(st, self.ret, "ret_" + fi.name)
        s2 = SpecCtx(eng, pre, st, args, res, selfcls, self.case)
        for nm, z in self.ensures(s2):
            st.define(z)
        eng.used_contracts.add(self.label)
        if any(m.startswith("arg:") for m in self.modifies):
            st.snap()
        return [(st, res)]


def opaque_body(inner=None):
    """Body of a ``with`` client: checks ``inner`` on entry, then either returns or
    raises an arbitrary exception (its own net effect on the tracked state is nil)."""
    def body(eng, st, args, kw):
        for nm, z in (inner(eng, st) if inner else []):
            eng.oblige(st, "in-body:%s" % nm, z)
        bad = st.copy()
        eng.sinks[-1].append((bad, ("raise", "AnyError", "body")))
        return [(st, NONE)]
    return Meta("intrinsic", fn=body, name="BODY")


def _qual(fi):
    return fi.qual + ("@setter" if fi.is_setter else "")


class FnResult:
    def __init__(self, contract):
        self.label = contract.label
        self.prop = contract.prop
        self.status = None
        self.reason = ""
        self.obs = []
        self.paths = 0
        self.inlined = []
        self.used = []
        self.cover = None
        self.loops = []
        self.secs = 0.0
        self.lineno = None
        self.file = None
        self.lossy = False


def generate(prog, world, c):
    """Symbolically execute the function of contract c; returns (FnResult, engine)."""
    r = FnResult(c)
    t0 = time.time()
    fi = prog.func(c.qual)
    if fi is None:
        r.status, r.reason = "missing", "function %s not found in the current source" % c.qual
        return r, None
    r.lineno, r.file = fi.lineno, fi.module.path
    eng = Engine(prog, world)
    eng.top_contract = c
    eng.top_fi = fi
    eng.used_contracts = set()
    try:
        st = State()
        eng.sinks = [[]]
        st.frames.append(Frame({}, fi.module, fi, c.selfcls))
        eng.axioms = list(world.axioms(eng, st))
        if c.axioms:
            eng.axioms += list(c.axioms(eng))
        args = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            ty = c.params.get(n)
            if ty is None:
                if n == "self" and c.selfcls:
                    ty = world.self_type(c.selfcls)
                elif n == "cls" and c.selfcls:
                    ty = eng.class_meta(c.selfcls)
                else:
                    ann = [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg == n][0]
                    ty = world.ann_type(ann, eng, st) if ann is not None else None
                    if ty is None:
                        raise Unsupported("no type for parameter %s" % n)
                c.params.setdefault(n, ty)
            if isinstance(ty, (Meta, Tup, Sc)):
                args[n] = ty
            else:
                args[n] = eng.fresh_val(st, ty, "p_" + n)
        if a.vararg is not None:
            args[a.vararg.arg] = c.params.get(a.vararg.arg, Meta("clist", items=[]))
        if a.kwarg is not None:
            args[a.kwarg.arg] = Meta("ckw", items={})
        # parameter containers the function receives
        s0 = SpecCtx(eng, st, st, args, None, c.selfcls, c.case)
        for nm, z in c.requires(s0):
            st.assume(z)
        # vacuity guard: the precondition must be satisfiable
        r.cover = solve.sat_cover(eng.axioms + st.zpc())
        pre = st.copy()
        eng.pre_state, eng.entry_args = pre, args
        st.frames.pop()
        is_gen = fi.is_generator
        if is_gen:
            raise Unsupported("generator top-level: use a harness contract")
        outs = [(s, ("ret", v)) for s, v in eng.inline(st, fi, dict(args), c.selfcls)]
        outs += eng.sinks.pop()
        r.paths = len(outs)
        nret = 0
        for i, (s, o) in enumerate(outs):
            if o[0] == "raise":
                s.frames.append(Frame({}, fi.module, fi, c.selfcls))
                sx = SpecCtx(eng, pre, s, args, None, c.selfcls, c.case)
                if o[1] in c.raises:
                    eng.oblige(s, "raises-%s[path %d]" % (o[1], i), c.raises[o[1]](SpecCtx(eng, pre, pre, args)))
                elif c.may_raise and (c.may_raise is True or o[1] in c.may_raise):
                    for nm, z in (c.exc_ensures(sx) if c.exc_ensures else []):
                        eng.oblige(s, "exc-post:%s[%s path %d]" % (nm, o[1], i), z)
                else:
                    eng.oblige(s, "no-%s(%s)[path %d]" % (o[1], o[2], i), z3.BoolVal(False))
                continue
            nret += 1
            v = o[1]
            s.frames.append(Frame({}, fi.module, fi, c.selfcls))
            if c.ret is not None:
                if is_container(c.ret):
                    if isinstance(v, Loc):
                        eng.materialize(s, v, c.ret)
                    elif isinstance(v, Meta) and v.kind == "clist" and isinstance(c.ret, T.TList):
                        lv = eng.new_root(s, c.ret, T.empty_of(c.ret))
                        for it in v.items:
                            eng.c_list_append(s, lv, c.ret, [it], {}, None)
                        v = lv
                elif not isinstance(v, Meta):
                    v = Sc(c.ret, eng.to_z(s, v, c.ret))
            sx = SpecCtx(eng, pre, s, args, v, c.selfcls, c.case)
            for nm, z in c.ensures(sx):
                eng.oblige(s, "post:%s[path %d]" % (nm, i), z)
            # the paths of the normal exit also honour the raises clauses
            for exc, cond in c.raises.items():
                eng.oblige(s, "raises-iff-%s[path %d]" % (exc, i), z3.Not(cond(SpecCtx(eng, pre, pre, args))))
            # frame
            for k, z in s.heap.items():
                if k in c.modifies:
                    continue
                b = eng.inits[k]
                if not b.eq(z):
                    eng.oblige(s, "frame:%s[path %d]" % (k, i), z == pre.heap.get(k, b))
            for k, z in s.globs.items():
                if k in c.modifies or k.startswith("$"):
                    continue
                b = eng.inits["g:" + k]
                if not b.eq(z):
                    eng.oblige(s, "frame:%s[path %d]" % (k, i), z == pre.globs.get(k, b))
            for n, v0 in args.items():
                if isinstance(v0, Loc) and "arg:" + n not in c.modifies:
                    try:
                        z0, z1 = eng.read(pre, v0), eng.read(s, v0)
                    except Unsupported:
                        continue
                    if not z0.eq(z1):
                        eng.oblige(s, "frame:arg %s[path %d]" % (n, i), z0 == z1)
        if nret == 0 and not c.raises:
            eng.oblige(pre, "some-normal-exit", z3.BoolVal(False))
        r.status = "generated"
    except Unsupported as e:
        r.status, r.reason = "unsupported", str(e)
    except RecursionError:
        r.status, r.reason = "unsupported", "recursion limit"
    except z3.Z3Exception as e:
        r.status, r.reason = "unsupported", "z3: %s" % str(e)[:300] + traceback.format_exc()[-600:]
    except Exception as e:
        r.status, r.reason = "unsupported", "engine: %s" % traceback.format_exc()[-900:]
    r.obs = eng.obs
    r.inlined = sorted(eng.inlined)
    r.used = sorted(eng.used_contracts)
    r.loops = eng.loop_log
    r.lossy = eng.lossy
    r.secs = time.time() - t0
    return r, eng


def discharge(r, budget_s=120, refute=True):
    """Prove every obligation of r (sequentially, in this process)."""
    t0 = time.time()
    worst = "proved"
    rank = {"proved": 0, "unknown": 1, "refuted": 2}
    for ob in r.obs:
        if time.time() - t0 > budget_s:
            ob.status, ob.backend = "unknown", "budget"
        else:
            st, be, secs, det = solve.prove(ob.pc, ob.goal)
            ob.status, ob.backend, ob.secs, ob.detail = st, be, secs, det
            if st == "unknown" and refute:
                m = solve.refute_finite(ob.pc, ob.goal)
                if m is not None:
                    ob.status, ob.backend, ob.detail = "refuted", "z3-finite-scope", m
            if ob.status == "refuted" and r.lossy:
                ob.status, ob.backend = "unknown", "invariant inference incomplete"
        if rank[ob.status] > rank[worst]:
            worst = ob.status
    r.status = worst
    if not r.obs:
        r.status, r.reason = "unsupported", "zero obligations"
    if r.cover == "unsat":
        r.status, r.reason = "unsupported", "precondition is unsatisfiable (vacuous)"
    r.secs += time.time() - t0


def _job(arg):
    prog, world, c, budget = arg
    import sys
    sys.setrecursionlimit(20000)
    try:
        r, eng = generate(prog, world, c)
        if r.status == "generated":
            discharge(r, budget)
    except BaseException:
        r = FnResult(c)
        r.status, r.reason = "unsupported", traceback.format_exc()[-900:]
    out = {
        "function": r.label, "status": r.status, "reason": r.reason, "paths": r.paths,
        "secs": round(r.secs, 3), "cover": r.cover, "inlined": r.inlined, "contracts_used": r.used,
        "line": r.lineno, "file": r.file, "loops": r.loops,
        "stats": dict(solve.STATS),
        "obligations": [
            {"name": o.name, "status": o.status or "not-checked", "backend": o.backend,
             "secs": round(o.secs, 3), "detail": o.detail if o.status == "refuted" else ""}
            for o in r.obs
        ],
    }
    return out


def _worker(i, arg, q):
    q.put((i, _job(arg)))


def run_all(prog, world, contracts, budget=120, jobs=None, wall=600):
    """Verify contracts in parallel forked processes (one per contract)."""
    jobs = jobs or min(8, os.cpu_count() or 2)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = list(enumerate(contracts))
    running = {}
    res = [None] * len(contracts)
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            i, c = todo.pop(0)
            p = ctx.Process(target=_worker, args=(i, (prog, world, c, budget), q))
            p.start()
            running[i] = (p, time.time(), c)
        try:
            i, out = q.get(timeout=0.2)
            res[i] = out
            p, _, _ = running.pop(i)
            p.join(5)
        except Exception:
            pass
        now = time.time()
        for i, (p, ts, c) in list(running.items()):
            dead = not p.is_alive() and q.empty()
            if now - ts > budget * 2 + 30 or now - t0 > wall or dead:
                if dead:
                    time.sleep(0.3)
                    if not q.empty():
                        continue
                p.kill()
                running.pop(i)
                res[i] = {"function": c.label, "status": "unknown",
                          "reason": "worker died" if dead else "time budget exhausted", "obligations": [], "paths": 0,
                          "secs": now - ts, "cover": None, "inlined": [], "contracts_used": [],
                          "line": None, "file": None, "loops": [], "stats": {}}
        if now - t0 > wall:
            for i, c in todo:
                res[i] = {"function": c.label, "status": "unknown", "reason": "not started: time budget",
                          "obligations": [], "paths": 0, "secs": 0, "cover": None, "inlined": [],
                          "contracts_used": [], "line": None, "file": None, "loops": [], "stats": {}}
            todo = []
    return res
