"""C02 slices: exactly the version-adjusted transitive dependencies, once each, in time order."""
import z3

from pyvc import types as T
from pyvc.types import NULL, TBool, TId, TInt, TList, TRef, TSet
from pyvc.verify import Contract

from .c01 import V
from .ipyworld import SETTINGS, TS, ts_cell, ts_lt, ts_mk, ts_stmt

MIX = "ipyflow.slicing.mixin.SliceableMixin."
NM = z3.Const("n!", T.Ref), z3.Const("m!", T.Ref)


class S:
    """Vocabulary: time stamps, version adjustment, one dependency step, reachability."""

    def __init__(self, w, cls):
        self.w, self.cls = w, cls
        self.vs = {c: V(w, cls, c) for c in ("DYNAMIC", "STATIC")}
        self.adj = z3.Function("adjust_" + cls, T.Ref, T.Ref, T.Ref)
        self.R = z3.Function("reach_" + cls, T.Ref, T.Ref, z3.BoolSort())

    def ts(self, s, x):
        if self.cls == "Cell":
            return ts_mk(z3.Select(s.f("Cell.cell_ctr"), x), z3.IntVal(-1))
        return z3.Select(s.f("Statement._timestamp"), x)

    def override(self, s, x):
        return z3.BoolVal(False) if self.cls == "Cell" else z3.Select(s.f("Statement.override"), x)

    def enabled(self, s, c):
        return z3.Select(s.f("MutableDataflowSettings.%s_slicing_enabled" % c.lower()), SETTINGS)

    def prev(self, s, x):
        return self.vs["DYNAMIC"].prev(s, x)

    def cur(self, s, k):
        return self.vs["DYNAMIC"].current(s, k)

    def parent(self, s, n, k, c):
        v = self.vs[c]
        return z3.And(self.enabled(s, c), v.has(s.f(v.P), n, k))

    def step(self, s, n, k):
        """The version of parent k that n depended on."""
        return self.adj(self.cur(s, k), n)

    def defs(self, s):
        """adjust: go back to the last version not newer than the dependent (overriding
        statements stand for themselves); R: any reflexive transitive relation containing
        every dependency step (the least such relation is 'transitively depends on')."""
        n, m = NM
        p, q = z3.Const("p!", T.Ref), z3.Const("q!k", T.IdSort)
        r = z3.Const("r!", T.Ref)
        adj, R = self.adj, self.R
        newer = z3.And(ts_lt(self.ts(s, n), self.ts(s, p)), z3.Not(self.override(s, p)))
        out = [
            ("def adjust", z3.ForAll([p, n], adj(p, n) == z3.If(p == NULL, NULL, z3.If(newer, adj(self.prev(s, p), n), p)), patterns=[adj(p, n)])),
            ("R reflexive", z3.ForAll([n], R(n, n), patterns=[R(n, n)])),
            ("R transitive", z3.ForAll([n, m, r], z3.Implies(z3.And(R(n, m), R(m, r)), R(n, r)), patterns=[z3.MultiPattern(R(n, m), R(m, r))])),
        ]
        for c in self.vs:
            v = self.vs[c]
            out += [
                ("R contains %s steps" % c, z3.ForAll([n, q], z3.Implies(self.parent(s, n, q, c), R(n, self.step(s, n, q))), patterns=[v.has(s.f(v.P), n, q)])),
                ("recorded %s parents are known and existed then" % c, z3.ForAll([n, q], z3.Implies(v.has(s.f(v.P), n, q),
                    z3.And(v.tracked(s, q), self.cur(s, q) != NULL, self.step(s, n, q) != NULL)), patterns=[v.has(s.f(v.P), n, q)])),
            ]
        return out

    def closed(self, s, n, C, only=None):
        """Every dependency of n is in C."""
        q = z3.Const("q!k", T.IdSort)
        return z3.And(*[z3.ForAll([q], z3.Implies(self.parent(s, n, q, c), z3.Select(C, self.step(s, n, q)))) for c in self.vs])


def contracts(w):
    out = []
    for cls in ("Cell", "Statement"):
        out += family(w, S(w, cls))
    return out


def family(w, d):
    cls = d.cls
    SET = TSet(TRef(cls))
    n, m = NM
    out = []

    def grown(s, C0, C1, who):
        """C1 extends C0 by things reachable from who, each with all its dependencies."""
        x = z3.Const("x!n", T.Ref)
        fresh_in = z3.And(z3.Select(C1, x), z3.Not(z3.Select(C0, x)))
        return [
            ("nothing is lost", z3.ForAll([x], z3.Implies(z3.Select(C0, x), z3.Select(C1, x)))),
            ("only dependencies are added", z3.ForAll([x], z3.Implies(fresh_in, who(x)))),
            ("every added element comes with all its version-adjusted parents in the enabled contexts",
             z3.ForAll([x], z3.Implies(fresh_in, d.closed(s, x, C1)))),
        ]

    def post(s):
        C0, C1, me = s.arg("closure"), s.arg1("closure"), s.arg("self")
        return grown(s, C0, C1, lambda x: d.R(me, x)) + [("the seed is in its slice", z3.Select(C1, me))]

    def invs():
        x, q = z3.Const("x!n", T.Ref), z3.Const("q!k", T.IdSort)

        def sets(lv):
            """every local/argument set of this element type in the current frame"""
            return lv.locals_of(SET)

        def c0(lv):
            return lv.ctx().arg("closure")

        def c1(lv, st=None):
            return lv.eng.read(st or lv.st, lv.eng.entry_args["closure"])

        def me(lv):
            return lv.ctx().arg("self")
        res = [
            ("closure only grows", lambda lv: z3.ForAll([x], z3.Implies(z3.Select(c1(lv, lv.entry), x), z3.Select(c1(lv), x)))),
            ("added elements are dependencies", lambda lv: z3.ForAll([x], z3.Implies(z3.And(z3.Select(c1(lv), x), z3.Not(z3.Select(c0(lv), x))), d.R(me(lv), x)))),
            ("added elements other than self are complete", lambda lv: z3.ForAll([x], z3.Implies(
                z3.And(z3.Select(c1(lv), x), z3.Not(z3.Select(c0(lv), x)), x != me(lv)), d.closed(lv.ctx(), x, c1(lv))))),
        ]

        def seen(lv):
            if lv.kt is None:
                raise Unsupported("while")
            return z3.ForAll([q], z3.Implies(lv.seen(q), z3.Select(c1(lv), d.step(lv.ctx(), me(lv), q))))
        res.append(("visited parents are in the closure", seen))

        def walk(lv):
            if lv.kt is not None:
                raise Unsupported("for")
            refs = dict(lv.locals_of(TRef(cls)))
            refs.update(lv.locals_of(TRef(cls, True)))
            ids = lv.locals_of(TId)
            eqs = []
            for i in ids.values():
                for nm, r in refs.items():
                    if not r.eq(me(lv)):
                        eqs.append(d.adj(r, me(lv)) == d.step(lv.ctx(), me(lv), i))
            return eqs
        res.append(("going back keeps the adjusted version", walk))
        return res

    out.append(Contract(MIX + "_make_slice_helper", cls, cls, params={"closure": SET},
                        requires=lambda s: d.defs(s), ensures=post, modifies=("arg:closure",), invs=invs))

    # slices of several seeds
    seedty = {"obj": TRef(cls), "ts": TS}
    if cls == "Cell":
        seedty["ctr"] = TInt
    LR = TList(TRef(cls))

    def seed_obj(s, z, kind):
        if kind == "obj":
            return z
        if cls == "Cell":
            return T.opt_parts(T.Ref)[4](z3.Select(s.g("Cell._cell_by_cell_ctr"), ts_cell(z) if kind == "ts" else z))
        lt = w.globs["Statement._stmts_by_ts"].val
        return z3.Select(lt.dt()[3](T.opt_parts(lt.sort())[4](z3.Select(s.g("Statement._stmts_by_ts"), z))), 0)

    for kind, ety in seedty.items():
        for seed_only in (False, True):
            LT = TList(ety)
            case = "%s seeds by %s%s" % (cls, kind, ", seeds only" if seed_only else "")

            def req(s, seed_only=seed_only, kind=kind):
                r = d.defs(s) + [("seed_only", s.arg("seed_only") == z3.BoolVal(seed_only))]
                return r

            def mpost(s, seed_only=seed_only, kind=kind, LT=LT):
                L = s.result
                ln, at = LR.dt()[2](L), LR.dt()[3](L)
                i, j, x = z3.Int("i!"), z3.Int("j!"), z3.Const("x!n", T.Ref)
                seeds = s.arg("seeds")
                sl, sa = LT.dt()[2](seeds), LT.dt()[3](seeds)
                inr = lambda i: z3.And(0 <= i, i < ln)
                member = lambda y, tag: z3.Exists([z3.Int("w!" + tag)], z3.And(inr(z3.Int("w!" + tag)), z3.Select(at, z3.Int("w!" + tag)) == y))
                isseed = lambda y: z3.Exists([j], z3.And(0 <= j, j < sl, seed_obj(s, z3.Select(sa, j), kind) == y))
                res = [
                    ("no element twice", z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i != j), z3.Select(at, i) != z3.Select(at, j)))),
                    ("in time order", z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), z3.Not(ts_lt(d.ts(s, z3.Select(at, j)), d.ts(s, z3.Select(at, i))))))),
                    ("every seed is in the slice", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sl), member(seed_obj(s, z3.Select(sa, j), kind), "a")))),
                ]
                if seed_only:
                    res.append(("only the seeds", z3.ForAll([i], z3.Implies(inr(i), isseed(z3.Select(at, i))))))
                else:
                    q = z3.Const("q!k", T.IdSort)
                    for c in d.vs:
                        res.append(("every %s dependency of an element is in the slice" % c.lower(), z3.ForAll([i, q], z3.Implies(
                            z3.And(inr(i), d.parent(s, z3.Select(at, i), q, c)), member(d.step(s, z3.Select(at, i), q), "b")))))
                    res.append(("only dependencies of the seeds", z3.ForAll([i], z3.Implies(inr(i), z3.Exists([j], z3.And(
                        0 <= j, j < sl, d.R(seed_obj(s, z3.Select(sa, j), kind), z3.Select(at, i))))))))
                return res

            def minvs(seed_only=seed_only, kind=kind, LT=LT):
                x, j = z3.Const("x!n", T.Ref), z3.Int("j!")

                def each(f):
                    def g(lv):
                        cs = list(lv.locals_of(SET).values())
                        if len(cs) != 1 or lv.kt is not TInt:
                            raise Unsupported("not the seed loop")
                        s = lv.ctx()
                        sa = LT.dt()[3](s.arg("seeds"))
                        return f(lv, s, cs[0], lambda j: seed_obj(s, z3.Select(sa, j), kind))
                    return g
                return [
                    ("visited seeds are in", each(lambda lv, s, C, so: z3.ForAll([j], z3.Implies(lv.seen(j), z3.Select(C, so(j)))))),
                    ("complete so far", each(lambda lv, s, C, so: z3.ForAll([x], z3.Implies(z3.Select(C, x), d.closed(s, x, C))))),
                    ("only dependencies so far", each(lambda lv, s, C, so: z3.ForAll([x], z3.Implies(z3.Select(C, x), z3.Exists([j], z3.And(lv.seen(j), d.R(so(j), x))))))),
                    ("only seeds so far", each(lambda lv, s, C, so: z3.ForAll([x], z3.Implies(z3.Select(C, x), z3.Exists([j], z3.And(lv.seen(j), so(j) == x)))))),
                ]
            out.append(Contract(MIX + "make_multi_slice", cls, case, params={"seeds": LT, "seed_only": TBool}, ret=LR,
                                requires=req, ensures=mpost, invs=minvs,
                                may_raise=("KeyError", "IndexError") if kind != "obj" else False))
    return out


from pyvc.program import Unsupported  # noqa: E402
