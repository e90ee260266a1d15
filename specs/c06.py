"""C06 waiter links and ready-maker links."""
import z3

from pyvc import types as T
from pyvc.program import Unsupported
from pyvc.types import TBool, TDict, TId, TOpt, TRef, TSet
from pyvc.verify import Contract

from .c01 import G, V
from .c05 import MS, in_order, int_ids, pos
from .ipyworld import FLOW, SETTINGS, SYM

FE = "ipyflow.frontend.FrontendCheckerResult."
F = "FrontendCheckerResult."
A, B, M = (z3.Const(n, T.IdSort) for n in ("a!", "b!", "m!"))


def fld(s, nm, post=False):
    return z3.Select((s.f1 if post else s.f)(F + nm), s.arg("self"))


def has(links, a, b):
    return z3.Select(z3.Select(links, a), b)


def contracts(w):
    return [closure(w)] + ready_makers(w)


def closure(w):
    R = z3.Function("reaches", T.IdSort, T.IdSort, z3.BoolSort())

    def req(s):
        """R: any relation containing the direct links and closed under going on through
        waiting cells (being in all of these is being reached)."""
        W, L = fld(s, "waiting_cells"), fld(s, "waiter_links")
        return [
            ("R contains the direct links", z3.ForAll([A, B], z3.Implies(z3.And(z3.Select(W, A), has(L, A, B)), R(A, B)))),
            ("R goes on through waiting cells", z3.ForAll([A, M, B], z3.Implies(z3.And(z3.Select(W, A), z3.Select(W, M), R(A, M), R(M, B)), R(A, B)),
                                                          patterns=[z3.MultiPattern(R(A, M), R(M, B))])),
        ]

    def closed_at(W, L, a, bound):
        return z3.ForAll(bound, z3.Implies(z3.And(z3.Select(W, a), z3.Select(W, M), has(L, a, M), has(L, M, B), B != a), has(L, a, B)))

    def post(s):
        W, L0, L1 = fld(s, "waiting_cells"), fld(s, "waiter_links"), fld(s, "waiter_links", True)
        K0, K1 = fld(s, "ready_maker_links"), fld(s, "ready_maker_links", True)
        wits = []
        for sn in s.snapshots():
            L = fld(sn, "waiter_links")
            wits.append(z3.And(
                z3.ForAll([A, B], z3.Implies(z3.And(z3.Select(W, A), has(L0, A, B), A != B), has(L, A, B))),
                closed_at(W, L, A, [A, M, B]),
                z3.ForAll([A, B], z3.Implies(z3.And(z3.Select(W, A), has(L, A, B), z3.Not(z3.Select(W, B))), has(L1, A, B)))))
        return [
            ("only reached, non-waiting cells", z3.ForAll([A, B], z3.Implies(z3.And(z3.Select(W, A), has(L1, A, B)), z3.And(R(A, B), z3.Not(z3.Select(W, B)))))),
            ("every reached non-waiting cell (it contains, outside the waiting cells, a relation that contains the direct links and is closed)", z3.Or(*wits)),
            ("links of cells that do not wait are untouched", z3.ForAll([A, B], z3.Implies(z3.Not(z3.Select(W, A)), has(L1, A, B) == has(L0, A, B)))),
            ("ready makers are exactly the converse", z3.ForAll([A, B], has(K1, B, A) == z3.Or(has(K0, B, A), z3.And(z3.Select(W, A), has(L1, A, B))))),
            ("waiting cells unchanged", fld(s, "waiting_cells", True) == W),
        ]

    def invs():
        def st(f):
            def g(lv):
                s = lv.ctx()
                me = s.arg("self")
                cur, ent = z3.Select(lv.f(F + "waiter_links"), me), z3.Select(lv.f0(F + "waiter_links"), me)
                return f(lv, fld(s, "waiting_cells"), fld(s, "waiter_links"), cur, ent)
            return g

        def flags(lv, st=None):
            return lv.locals_of(TBool, st)

        def changed_or(lv, z):
            fl = flags(lv)
            if not fl:
                raise Unsupported("no flag")
            return [z3.Or(v, z) for v in fl.values()]

        def sets(lv):
            return lv.locals_of(TSet(TId))

        def over_ids(lv):
            if lv.kt is None:
                raise Unsupported("while")

        def closed_while(lv, W, L0, cur, ent):
            if lv.kt is not None:
                raise Unsupported("for")
            return changed_or(lv, closed_at(W, cur, A, [A, M, B]))

        def same_flag(lv):
            """the flag is raised, or nothing changed since the loop began"""
            fe = flags(lv, lv.entry)
            return {n: z for n, z in flags(lv).items() if n in fe}

        def unchanged(lv, W, L0, cur, ent):
            over_ids(lv)
            return [z3.Or(z, z3.ForAll([A, B], has(cur, A, B) == has(ent, A, B))) for z in same_flag(lv).values()]

        def seen_closed(lv, W, L0, cur, ent):
            over_ids(lv)
            return [z3.Or(z, z3.ForAll([A, M, B], z3.Implies(z3.And(lv.seen(A), z3.Select(W, M), has(cur, A, M), has(cur, M, B), B != A), has(cur, A, B)))) for z in same_flag(lv).values()]

        def acc_lower(lv, W, L0, cur, ent):
            """an accumulator contains what it started with and the links of visited waiting cells"""
            over_ids(lv)
            out = []
            e = lv.locals_of(TSet(TId), lv.entry)
            for n, z in sets(lv).items():
                if n in e:
                    out.append(z3.ForAll([B], z3.Implies(z3.Select(e[n], B), z3.Select(z, B))))
                    out.append(z3.ForAll([M, B], z3.Implies(z3.And(lv.seen(M), z3.Select(W, M), has(cur, M, B)), z3.Select(z, B))))
            if not out:
                raise Unsupported("no accumulator")
            return out

        def acc_upper(lv, W, L0, cur, ent):
            over_ids(lv)
            ids = lv.locals_of(TId, lv.entry)
            out = [z3.ForAll([B], z3.Implies(z3.And(z3.Select(W, i), z3.Select(z, B)), R(i, B))) for z in sets(lv).values() for i in ids.values()]
            if not out:
                raise Unsupported("no accumulator")
            return out

        def only_reached(lv, W, L0, cur, ent):
            return z3.ForAll([A, B], z3.Implies(z3.And(z3.Select(W, A), has(cur, A, B)), R(A, B)))

        def direct(lv, W, L0, cur, ent):
            return z3.ForAll([A, B], z3.Implies(z3.And(z3.Select(W, A), has(L0, A, B), A != B), has(cur, A, B)))

        def others(lv, W, L0, cur, ent):
            return z3.ForAll([A, B], z3.Implies(z3.Not(z3.Select(W, A)), has(cur, A, B) == has(L0, A, B)))

        def final_cut(lv, W, L0, cur, ent):
            over_ids(lv)
            return z3.ForAll([A, B], has(cur, A, B) == z3.And(has(ent, A, B), z3.Not(z3.And(lv.seen(A), z3.Select(W, B)))))

        def makers(lv, W, L0, cur, ent):
            over_ids(lv)
            me = lv.ctx().arg("self")
            k, k0 = z3.Select(lv.f(F + "ready_maker_links"), me), z3.Select(lv.f0(F + "ready_maker_links"), me)
            return z3.ForAll([A, B], has(k, B, A) == z3.Or(has(k0, B, A), z3.And(lv.seen(A), has(cur, A, B))))

        def makers_one(lv, W, L0, cur, ent):
            over_ids(lv)
            me = lv.ctx().arg("self")
            k, k0 = z3.Select(lv.f(F + "ready_maker_links"), me), z3.Select(lv.f0(F + "ready_maker_links"), me)
            ids = [i for i in lv.locals_of(TId, lv.entry).values()]
            if not ids:
                raise Unsupported("no id")
            return [z3.ForAll([A, B], has(k, B, A) == z3.Or(has(k0, B, A), z3.And(A == i, lv.seen(B)))) for i in ids]
        return [(n, st(f)) for n, f in (
            ("only reached", only_reached), ("direct links kept", direct), ("non-waiting links kept", others),
            ("closed unless changed", closed_while), ("unchanged unless flagged", unchanged), ("visited closed unless flagged", seen_closed),
            ("accumulated enough", acc_lower), ("accumulated only reached", acc_upper),
            ("waiting cells cut", final_cut), ("makers of visited", makers), ("makers of one", makers_one))]

    return Contract(FE + "_compute_waiter_and_ready_maker_links", "FrontendCheckerResult", requires=req, ensures=post, invs=invs,
                    modifies=(F + "waiter_links", F + "ready_maker_links"), use=False)


def dag_like(w, s):
    E = w.enum_type(w.prog, "ExecutionSchedule")
    e = z3.Select(s.f(MS + "exec_schedule"), SETTINGS)
    return z3.Or(e == E.consts["DAG_BASED"], e == E.consts["HYBRID_DAG_LIVENESS_BASED"])


class Dag:
    """Recorded, permitted (see C05) dependencies in the enabled contexts."""

    def __init__(self, w):
        self.w = w
        self.vs = {c: V(w, "Cell", c) for c in ("DYNAMIC", "STATIC")}
        self.cur = self.vs["DYNAMIC"].current
        self.tracked = self.vs["DYNAMIC"].tracked

    def enabled(self, s, c):
        return z3.Select(s.f(MS + "%s_slicing_enabled" % c.lower()), SETTINGS)

    def parent_in(self, s, x, k, c):
        v = self.vs[c]
        return z3.And(self.enabled(s, c), v.has(s.f(v.P), x, k),
                      z3.Or(z3.Not(in_order(self.w, s)), pos(self.w, s, x) > pos(self.w, s, v.current(s, k))))

    def parent(self, s, x, k):
        return z3.Or(*[self.parent_in(s, x, k, c) for c in self.vs])

    def known(self, s, who):
        """the recorded neighbours of the cells in question are known"""
        x, q = z3.Const("x!c", T.Ref), z3.Const("q!", T.IdSort)
        return [("recorded parents are known (%s)" % c.lower(), z3.ForAll([x, q], z3.Implies(z3.And(who(x), v.has(s.f(v.P), x, q)), self.tracked(s, q)),
                                                                      patterns=[v.has(s.f(v.P), x, q)])) for c, v in self.vs.items()]


def ready_makers(w):
    d = Dag(w)
    SY = z3.Const("y!", T.Ref)
    WS, KS = TDict(TId, TSet(SYM)), TDict(SYM, TSet(TId), default=True)
    _, _, _, iss, val = T.opt_parts(TSet(SYM).sort())
    _, _, _, hasid, getid = T.opt_parts(T.IdSort)
    out = []

    def want(s, a, b, dag):
        if dag:
            base = z3.And(d.parent(s, d.cur(s, a), b), z3.Or(z3.Select(fld(s, "ready_cells"), b), z3.Select(fld(s, "waiting_cells"), b)))
        else:
            ws = z3.Select(s.arg("waiting_symbols_by_cell_id"), a)
            base = z3.Exists([SY], z3.And(iss(ws), z3.Select(val(ws), SY), z3.Select(z3.Select(s.arg("killing_cell_ids_for_symbol"), SY), b)))
        last = s.arg("last_executed_cell_id")
        return z3.And(base, z3.Implies(in_order(w, s), pos(w, s, d.cur(s, b)) < pos(w, s, d.cur(s, a))),
                      z3.Not(z3.And(hasid(last), getid(last) == b)))

    for dag in (True, False):
        for io in (True, False):
            def req(s, dag=dag, io=io):
                W = fld(s, "waiting_cells")
                who = lambda x: z3.Exists([A], z3.And(z3.Select(W, A), d.cur(s, A) == x))
                x = z3.Const("x!c", T.Ref)
                r = [("schedule", dag_like(w, s) if dag else z3.Not(dag_like(w, s))), ("order", in_order(w, s) if io else z3.Not(in_order(w, s)))] + int_ids(w, s)
                r.append(("waiting cells are known", z3.ForAll([A], z3.Implies(z3.Select(W, A), z3.And(d.tracked(s, A), d.cur(s, A) != T.NULL)))))
                if dag:
                    r += d.known(s, lambda x: z3.BoolVal(True))
                else:
                    r.append(("killing cells are known", z3.ForAll([SY, B], z3.Implies(z3.Select(z3.Select(s.arg("killing_cell_ids_for_symbol"), SY), B), d.tracked(s, B)))))
                return r

            def post(s, dag=dag):
                W, L0, L1 = fld(s, "waiting_cells"), fld(s, "waiter_links"), fld(s, "waiter_links", True)
                return [("a waiting cell's links are exactly the cells that can make it ready", z3.ForAll([A, B], z3.Implies(z3.Select(W, A), has(L1, A, B) == want(s, A, B, dag)))),
                        ("other links unchanged", z3.ForAll([A, B], z3.Implies(z3.Not(z3.Select(W, A)), has(L1, A, B) == has(L0, A, B))))]

            def invs(dag=dag):
                def cur(lv):
                    return z3.Select(lv.f(F + "waiter_links"), lv.ctx().arg("self"))

                def done(lv):
                    if lv.kt != TId:
                        raise Unsupported("other loop")
                    s = lv.ctx()
                    return z3.ForAll([A, B], z3.Implies(lv.seen(A), has(cur(lv), A, B) == want(s, A, B, dag)))

                def rest(lv):
                    s = lv.ctx()
                    return z3.ForAll([A, B], z3.Implies(z3.Not(lv.seen(A)), has(cur(lv), A, B) == has(fld(s, "waiter_links"), A, B)))

                def collected(lv, j):
                    if lv.kt != SYM:
                        raise Unsupported("not a loop over symbols")
                    ks = lv.ctx().arg("killing_cell_ids_for_symbol")
                    e, c = lv.locals_of(TSet(TId), lv.entry, lazy=True), lv.locals_of(TSet(TId), lazy=True)
                    ns = [n for n in c if n in e][j:j + 1]
                    if not ns:
                        raise Unsupported("nothing is collected")
                    out = []
                    for n in ns:
                        out.append(z3.ForAll([B, SY], z3.Implies(z3.And(lv.seen(SY), z3.Select(z3.Select(ks, SY), B)), z3.Select(c[n], B))))
                        out.append(z3.ForAll([B], z3.Implies(z3.Select(e[n], B), z3.Select(c[n], B))))
                        out.append(z3.ForAll([B], z3.Implies(z3.Select(c[n], B), z3.Or(z3.Select(e[n], B), z3.Exists([SY], z3.And(lv.seen(SY), z3.Select(z3.Select(ks, SY), B)))))))
                    return out
                return [("visited done", done), ("rest untouched", rest)] + [("collected so far/%d" % j, lambda lv, j=j: collected(lv, j)) for j in range(4)]
            out.append(Contract(FE + "_compute_ready_making_cells", "FrontendCheckerResult", "%s,%s" % ("dag" if dag else "liveness", "in order" if io else "any order"),
                                params={"waiting_symbols_by_cell_id": WS, "killing_cell_ids_for_symbol": KS, "last_executed_cell_id": TOpt(TId)},
                                requires=req, ensures=post, invs=invs, modifies=(F + "waiter_links",)))
    return out
