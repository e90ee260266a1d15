"""C08 the dependency graph reported in a schedule is consistent."""
import z3

from pyvc import types as T
from pyvc.program import Unsupported
from pyvc.types import NULL, TBool, TDict, TId, TInt, TList, TOpt, TRef, TSet
from pyvc.verify import Contract

from .c01 import G, V
from .c05 import MS, in_order, int_ids, pos
from .c06 import A, B, F, FE, M, Dag, dag_like, fld
from .c07 import LC
from .ipyworld import FLOW, SETTINGS, SYM, TS, ts_cell

MAP = TDict(TId, TSet(TId))


def contracts(w):
    w.declare("Cell", last_check_result=TRef("CheckerResult", True))
    w.declare("CheckerResult", modified=TSet(SYM))
    w.declare("Symbol", is_implicit_virtual=TBool, updated_timestamps=TSet(TS))
    d = Dag(w)
    I, X, Y = z3.Int("i!"), z3.Const("x!c", T.Ref), z3.Const("y!", T.Ref)
    _, _, _, iss, val = T.opt_parts(TSet(TId).sort())
    cid = lambda s, x: z3.Select(s.f("Cell.cell_id"), x)
    nth = lambda s, i: z3.Select(LC.dt()[3](s.arg("cells_to_check")), i)
    inr = lambda s, i: z3.And(0 <= i, i < LC.dt()[2](s.arg("cells_to_check")))
    has = lambda m, a, b: z3.And(iss(z3.Select(m, a)), z3.Select(val(z3.Select(m, a)), b))

    def req(s):
        r = int_ids(w, s) + d.known(s, lambda x: z3.BoolVal(True))
        r.append(("the checked cells exist", z3.ForAll([I], z3.Implies(inr(s, I), nth(s, I) != NULL))))
        i2 = z3.Int("i2!")
        r.append(("one per id", z3.ForAll([I, i2], z3.Implies(z3.And(inr(s, I), inr(s, i2), cid(s, nth(s, I)) == cid(s, nth(s, i2))), nth(s, I) == nth(s, i2)))))
        return r

    def checked(s, a):
        return z3.Exists([I], z3.And(inr(s, I), cid(s, nth(s, I)) == a))

    Y = z3.Const("s!", T.Ref)
    vs = {c: V(w, "Cell", c) for c in ("DYNAMIC", "STATIC")}

    def live(s, c, x, b):
        """x's recorded dependency on b in context c that still matters: some symbol left
        after dropping removed and internal ones, which b writes according to its last
        check and wrote in its last execution"""
        v = vs[c]
        p = v.current(s, b)
        S = lambda y: z3.And(v.edge(s.f(v.P), x, b, y), z3.Not(z3.Select(z3.Select(s.f("Cell.static_removed_symbols"), x), y)),
                             z3.Not(z3.Select(s.f("Symbol.is_implicit_virtual"), y)))
        chk = z3.Select(s.f("Cell.last_check_result"), p)
        ctr = z3.Select(s.f("Cell.cell_ctr"), p)
        t = z3.Const("t!u", TS.sort())
        upd = lambda y: z3.Exists([t], z3.And(z3.Select(z3.Select(s.f("Symbol.updated_timestamps"), y), t), ts_cell(t) == ctr))
        return z3.And(z3.Exists([Y], S(Y)),
                      z3.Or(chk == NULL, z3.Exists([Y], z3.And(S(Y), z3.Not(z3.Select(z3.Select(s.f("Cell.static_writes"), p), Y)))),
                            z3.Exists([Y], z3.And(S(Y), z3.Select(z3.Select(s.f("CheckerResult.modified"), chk), Y)))),
                      z3.Or(ctr < 0, z3.Exists([Y], z3.And(S(Y), upd(Y)))))

    def post(s, io=True, on=()):
        P0, P1, C0, C1 = fld(s, "cell_parents"), fld(s, "cell_parents", True), fld(s, "cell_children"), fld(s, "cell_children", True)
        exact = []
        if not io:
            exact = [("in any-order flow exactly the live dependencies are reported", z3.ForAll([I, B], z3.Implies(inr(s, I),
                has(P1, cid(s, nth(s, I)), B) == z3.Or(*[live(s, c, nth(s, I), B) for c in on]))))]
        return exact + [
            ("every checked cell has its parents reported", z3.ForAll([I], z3.Implies(inr(s, I), iss(z3.Select(P1, cid(s, nth(s, I))))))),
            ("reported parents are recorded, permitted dependencies", z3.ForAll([I, B], z3.Implies(z3.And(inr(s, I), has(P1, cid(s, nth(s, I)), B)), d.parent(s, nth(s, I), B)))),
            ("children are exactly the converse of parents", z3.ForAll([A, B], has(C1, B, A) == z3.Or(has(C0, B, A), has(P1, A, B)))),
            ("every checked cell has its children reported", z3.ForAll([I], z3.Implies(inr(s, I), iss(z3.Select(C1, cid(s, nth(s, I))))))),
        ]

    def invs(on=()):
        me = lambda lv: lv.ctx().arg("self")
        P = lambda lv: z3.Select(lv.f(F + "cell_parents"), me(lv))
        C = lambda lv: z3.Select(lv.f(F + "cell_children"), me(lv))
        C0 = lambda lv: z3.Select(lv.f0(F + "cell_children"), me(lv))

        def ints(f):
            def g(lv):
                if lv.kt is not TInt:
                    raise Unsupported("not the cells loop")
                return f(lv, lv.ctx())
            return g

        def ids(f, needs=None):
            def g(lv):
                if lv.kt != TId:
                    raise Unsupported("not an id loop")
                if needs and not lv.modifies(F + needs):
                    raise Unsupported("not modified here")
                return f(lv, lv.ctx())
            return g

        def acc(lv, s, n):
            """an accumulated set only holds dependencies of the cell at hand"""
            sets = lv.locals_of(TSet(TId))
            refs = [r for r in lv.locals_of(TRef("Cell"), lv.entry).values() if not r.eq(s.arg("self"))]
            if not sets or len(refs) <= n:
                raise Unsupported("none")
            return [z3.ForAll([B], z3.Implies(z3.Select(z, B), d.parent(s, refs[n], B))) for z in sets.values()]

        def liveacc(lv, s, c):
            if lv.modifies(F + "cell_children"):
                raise Unsupported("not the parents loop")
            g = z3.simplify(lv.g0("context.slicing_ctx_var"))
            other = "STATIC" if c == "DYNAMIC" else "DYNAMIC"
            if g.sexpr().endswith("_%s)" % other):
                raise Unsupported("pass over the other context")
            refs = [r for r in lv.locals_of(TRef("Cell"), lv.entry).values() if not r.eq(s.arg("self"))]
            e = lv.locals_of(TSet(TId), lv.entry)
            sets = {n: z for n, z in lv.locals_of(TSet(TId)).items() if n in e}
            if not sets or len(refs) != 1:
                raise Unsupported("none")
            return [z3.ForAll([B], z3.Select(z, B) == z3.Or(z3.Select(e[n], B), z3.And(lv.seen(B), live(s, c, refs[0], B)))) for n, z in sets.items()]

        def livesofar(lv, s, cs):
            if not lv.modifies(F + "cell_parents"):
                raise Unsupported("not the parents loop")
            cs = [c for c in cs if c in on]
            return z3.ForAll([I, B], z3.Implies(z3.And(inr(s, I), lv.seen(I)), has(P(lv), cid(s, nth(s, I)), B) == z3.Or(*[live(s, c, nth(s, I), B) for c in cs])))

        def one(lv, s):
            e = list(lv.locals_of(TId, lv.entry).values())
            if not e:
                raise Unsupported("no id")
            return [z3.ForAll([A, B], has(C(lv), B, A) == z3.Or(has(C0(lv), B, A), z3.And(A == i, lv.seen(B)))) for i in e]
        return [
            ("reported so far", ints(lambda lv, s: z3.ForAll([I], z3.Implies(lv.seen(I), iss(z3.Select(P(lv), cid(s, nth(s, I)))))))),
            ("reported so far are dependencies", ints(lambda lv, s: z3.ForAll([I, B], z3.Implies(z3.And(inr(s, I), lv.seen(I), has(P(lv), cid(s, nth(s, I)), B)), d.parent(s, nth(s, I), B))))),
            ] + [("live of one/" + c.lower(), ids(lambda lv, s, c=c: liveacc(lv, s, c))) for c in on] + ([
            ("live so far", ints(lambda lv, s: livesofar(lv, s, ["DYNAMIC", "STATIC"])))] if on else []) + [
            ("accumulated dependencies", ids(lambda lv, s: acc(lv, s, 0))),
            ("accumulated dependencies/2", ids(lambda lv, s: acc(lv, s, 1))),
            ("converse of visited", ids(lambda lv, s: z3.ForAll([A, B], has(C(lv), B, A) == z3.Or(has(C0(lv), B, A), z3.And(lv.seen(A), has(P(lv), A, B)))), "cell_children")),
            ("converse of one", ids(one, "cell_children")),
            ("children kept", ints(lambda lv, s: z3.ForAll([A, B], has(C(lv), B, A) == has(C0(lv), B, A)))),
            ("children keys kept", lambda lv: z3.ForAll([B], z3.Implies(iss(z3.Select(C0(lv), B)), iss(z3.Select(C(lv), B))))),
            ("children reported", ints(lambda lv, s: z3.ForAll([I], z3.Implies(lv.seen(I), iss(z3.Select(C(lv), cid(s, nth(s, I)))))))),
        ]
    out = []
    for io in (True, False):
        for dyn, sta in ((True, True), (True, False), (False, True)):
            def creq(s, io=io, dyn=dyn, sta=sta):
                return [("order", in_order(w, s) if io else z3.Not(in_order(w, s))), ("dynamic", d.enabled(s, "DYNAMIC") == dyn), ("static", d.enabled(s, "STATIC") == sta)] + req(s)
            out.append(Contract(FE + "_compute_filtered_parents", "FrontendCheckerResult", "%s%s%s" % ("in order" if io else "any order", ",dynamic" if dyn else "", ",static" if sta else ""),
                                params={"cells_to_check": LC}, requires=creq, ensures=lambda s, io=io, on=tuple(c for c, f in (("DYNAMIC", dyn), ("STATIC", sta)) if f): post(s, io, on), invs=lambda on=() if io else tuple(c for c, f in (("DYNAMIC", dyn), ("STATIC", sta)) if f): invs(on),
                                modifies=(F + "cell_parents", F + "cell_children"), inv_timeout=0 if io else 4000))
    return out
