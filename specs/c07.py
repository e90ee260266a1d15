"""C07 which cells wait for others (dependency-graph schedules)."""
import z3

from pyvc import types as T
from pyvc.engine import Sc
from pyvc.program import Unsupported
from pyvc.types import NULL, TAny, TBool, TDict, TId, TInt, TList, TOpt, TRef, TSet, TStr, TTup
from pyvc.verify import Contract

from .c01 import G, V
from .c05 import MS, in_order, int_ids, pos
from .c06 import A, B, F, FE, M, Dag, dag_like, fld
from .ipyworld import FLOW, SETTINGS, SYM, TS, ts_cell, ts_stmt

LC = TList(TRef("Cell"))


def contracts(w):
    d = Dag(w)
    out = []
    I, X = z3.Int("i!"), z3.Const("x!c", T.Ref)
    Wt = z3.Function("must_wait", T.IdSort, z3.BoolSort())
    cid = lambda s, x: z3.Select(s.f("Cell.cell_id"), x)

    def nth(s, i):
        return z3.Select(LC.dt()[3](s.arg("cells_to_check")), i)

    def inr(s, i):
        return z3.And(0 <= i, i < LC.dt()[2](s.arg("cells_to_check")))

    def busy(s, wait):
        """ready or (in the given set) waiting"""
        return lambda k: z3.Or(z3.Select(fld(s, "ready_cells"), k), wait(k))

    def closed(s, i, wait):
        x = nth(s, i)
        return z3.ForAll([B], z3.Implies(z3.And(d.parent(s, x, B), busy(s, wait)(B)), wait(cid(s, x))))

    for io in (True, False):
        for dag in (True, False):
            def req(s, dag=dag, io=io):
                W = fld(s, "waiting_cells")
                r = [("schedule", dag_like(w, s) if dag else z3.Not(dag_like(w, s))), ("order", in_order(w, s) if io else z3.Not(in_order(w, s)))] + int_ids(w, s)
                r.append(("waiting cells are known", z3.ForAll([A], z3.Implies(z3.Select(W, A), z3.And(d.tracked(s, A), d.cur(s, A) != NULL)))))
                r.append(("the checked cells are the cells of the notebook", z3.ForAll([I], z3.Implies(inr(s, I), z3.And(
                    nth(s, I) != NULL, d.tracked(s, cid(s, nth(s, I))), d.cur(s, cid(s, nth(s, I))) == nth(s, I))))))
                q = z3.Const("q!", T.IdSort)
                r.append(("an id names the cell with that id", z3.ForAll([q], z3.Implies(d.tracked(s, q), cid(s, d.cur(s, q)) == q))))
                if dag:
                    r += d.known(s, lambda x: z3.BoolVal(True))
                r.append(("must_wait contains the waiting cells", z3.ForAll([A], z3.Implies(z3.Select(W, A), Wt(A)))))
                r.append(("must_wait is closed", z3.ForAll([I, B], z3.Implies(z3.And(inr(s, I), d.parent(s, nth(s, I), B), busy(s, Wt)(B)), Wt(cid(s, nth(s, I)))))))
                return r

            def post(s, dag=dag):
                W0, W1 = fld(s, "waiting_cells"), fld(s, "waiting_cells", True)
                R0, R1 = fld(s, "ready_cells"), fld(s, "ready_cells", True)
                N0, N1 = fld(s, "new_ready_cells"), fld(s, "new_ready_cells", True)
                if not dag:
                    return [("nothing changes", z3.And(W1 == W0, R1 == R0, N1 == N0, s.f1("Cell._ready") == s.f("Cell._ready")))]
                rd0, rd1 = s.f("Cell._ready"), s.f1("Cell._ready")
                return [
                    ("only cells that must wait (they are in every closed set)", z3.ForAll([A], z3.Implies(z3.Select(W1, A), Wt(A)))),
                    ("cells that waited still wait", z3.ForAll([A], z3.Implies(z3.Select(W0, A), z3.Select(W1, A)))),
                    ("waiting cells are known", z3.ForAll([A], z3.Implies(z3.Select(W1, A), z3.And(d.tracked(s, A), d.cur(s, A) != NULL)))),
                    ("every cell with a ready or waiting dependency waits", z3.ForAll([I], z3.Implies(inr(s, I), closed(s, I, lambda k: z3.Select(W1, k))))),
                    ("ready cells that wait are not ready, the others stay", z3.ForAll([A], z3.Select(R1, A) == z3.And(z3.Select(R0, A), z3.Not(z3.Select(W1, A))))),
                    ("likewise newly ready cells", z3.ForAll([A], z3.Select(N1, A) == z3.And(z3.Select(N0, A), z3.Not(z3.Select(W1, A))))),
                    ("exactly the waiting cells lose their ready mark", z3.ForAll([X], z3.Select(rd1, X) == z3.And(z3.Select(rd0, X), z3.Not(z3.Exists([A], z3.And(z3.Select(W1, A), d.cur(s, A) == X)))))),
                ]

            def invs():
                def cur(lv, nm="waiting_cells"):
                    return z3.Select(lv.f(F + nm), lv.ctx().arg("self"))

                def ent(lv, nm="waiting_cells"):
                    return z3.Select(lv.f0(F + nm), lv.ctx().arg("self"))
                W = lambda lv: (lambda k: z3.Select(cur(lv), k))

                def must(lv):
                    return z3.ForAll([A], z3.Implies(z3.Select(cur(lv), A), Wt(A)))

                def kept(lv):
                    return z3.ForAll([A], z3.Implies(z3.Select(ent(lv), A), z3.Select(cur(lv), A)))

                def tracked(lv):
                    s = lv.ctx()
                    return z3.ForAll([A], z3.Implies(z3.Select(cur(lv), A), z3.And(d.tracked(s, A), d.cur(s, A) != NULL)))

                def snap(lv):
                    """some set recorded on the way is contained in the current one"""
                    out = [z3.ForAll([A], z3.Implies(z3.Select(z, A), z3.Select(cur(lv), A))) for n, z in lv.locals_of(TSet(TId)).items()]
                    if not out:
                        raise Unsupported("no set")
                    return out

                def visited(lv):
                    """a visited cell waits, or has no dependency that was ready or waiting when the pass began"""
                    if lv.kt is not TInt:
                        raise Unsupported("not the cells loop")
                    s = lv.ctx()
                    return z3.ForAll([I], z3.Implies(lv.seen(I), z3.Or(W(lv)(cid(s, nth(s, I))), z3.ForAll([B], z3.Implies(
                        d.parent(s, nth(s, I), B), z3.Not(z3.Or(z3.Select(fld(s, "ready_cells"), B), z3.Select(ent(lv), B))))))))

                def flagged(lv):
                    """a change is flagged, or every cell is done"""
                    s = lv.ctx()
                    if lv.kt is not None:
                        raise Unsupported("for")
                    fl = lv.locals_of(TBool)
                    if not fl:
                        raise Unsupported("no flag")
                    return [z3.Or(z, z3.ForAll([I], z3.Implies(inr(s, I), closed(s, I, W(lv))))) for z in fl.values()]

                def unchanged(lv):
                    fe = lv.locals_of(TBool, lv.entry)
                    out = [z3.Or(z, z3.ForAll([A], z3.Select(cur(lv), A) == z3.Select(ent(lv), A))) for n, z in lv.locals_of(TBool).items() if n in fe]
                    if not out:
                        raise Unsupported("no flag")
                    return out

                def marks(lv):
                    if lv.kt != TId:
                        raise Unsupported("not a loop over ids")
                    s = lv.ctx()
                    return z3.ForAll([X], z3.Select(lv.f("Cell._ready"), X) == z3.And(z3.Select(lv.f0("Cell._ready"), X),
                        z3.Not(z3.Exists([A], z3.And(lv.seen(A), d.cur(s, A) == X)))))

                def blocked(lv):
                    """a flag says whether some dependency seen so far is ready or waiting"""
                    if lv.kt != TId:
                        raise Unsupported("not a loop over ids")
                    b, b0 = lv.locals_of(TBool), lv.locals_of(TBool, lv.entry)
                    ns = [n for n in b if n in b0 and lv.assigns(n)]
                    if not ns:
                        raise Unsupported("no flag")
                    r = fld(lv.ctx(), "ready_cells")
                    return [b[n] == z3.Or(b0[n], z3.Exists([A], z3.And(lv.seen(A), z3.Or(z3.Select(r, A), W(lv)(A))))) for n in ns]
                return [("blocked so far", blocked), ("only must-wait", must), ("waiting kept", kept), ("waiting cells known", tracked), ("earlier set kept", snap),
                        ("visited", visited), ("done unless flagged", flagged), ("unchanged unless flagged", unchanged), ("marks", marks)]
            out.append(Contract(FE + "_compute_dag_based_waiters", "FrontendCheckerResult", "%s,%s" % ("dag" if dag else "liveness", "in order" if io else "any order"),
                                params={"cells_to_check": LC}, requires=req, ensures=post, invs=invs,
                                modifies=(F + "waiting_cells", F + "ready_cells", F + "new_ready_cells", "Cell._ready"), use=False))
            out.append(Contract(FE + "_compute_dag_based_waiters", "FrontendCheckerResult", "for callers: %s,%s" % ("dag" if dag else "liveness", "in order" if io else "any order"),
                                params={"cells_to_check": LC}, requires=lambda s, req=req: [x for x in req(s) if not x[0].startswith("must_wait")],
                                ensures=lambda s, post=post: [x for x in post(s) if not x[0].startswith("only cells that must")], invs=invs,
                                modifies=(F + "waiting_cells", F + "ready_cells", F + "new_ready_cells", "Cell._ready"), trusted=True, note="the contract of the same case, without its first clause"))
    return out + per_cell(w)


def per_cell(w):
    """The status one check gives one cell."""
    w.declare("ResolvedSymbol", sym=SYM, is_deep=TBool, timestamp=TS)
    w.declare("CheckerResult", live=TSet(TRef("ResolvedSymbol")), unresolved_live_refs=TSet(TRef("LiveSymbolRef")),
              used_cells=TSet(TInt), live_cells=TSet(TInt), dead=TSet(SYM), modified=TSet(SYM), typechecks=TBool)
    w.declare("NotebookFlow", settings=TRef("DataflowSettings"), _min_new_ready_cell_counter=TInt, _min_forced_reactive_cell_counter=TInt)
    w.declare("Symbol", visible_timestamp=TOpt(TS))
    w.declare("DataflowSettings", mark_phantom_cell_usages_unsafe=TBool)
    d = Dag(w)
    X, Y, L = z3.Const("x!c", T.Ref), z3.Const("y!c", T.Ref), z3.Const("l!", T.Ref)
    E = w.enum_type(w.prog, "ExecutionSchedule")
    sched = lambda s: z3.Select(s.f(MS + "exec_schedule"), SETTINGS)
    cid = lambda s, x: z3.Select(s.f("Cell.cell_id"), x)
    ctr = lambda s, x: z3.Select(s.f("Cell.cell_ctr"), x)
    waits_at = z3.Function("symbol_waits_at", T.Ref, z3.IntSort(), z3.BoolSort())
    out = []
    T_ = dict(trusted=True)
    EDG = ("Cell.raw_static_parents", "Cell.raw_static_children")
    CR = TRef("CheckerResult")
    SP = d.vs["STATIC"].P

    def stay(s):
        return [("recorded parents stay known", z3.ForAll([X, A], z3.Implies(d.vs["STATIC"].has(s.f1(SP), X, A), d.tracked(s, A)), patterns=[d.vs["STATIC"].has(s.f1(SP), X, A)]))]
    out.append(Contract("ipyflow.data_model.cell.Cell.check_and_resolve_symbols", "Cell", params={"update_liveness_time_versions": TBool}, ret=CR, modifies=EDG,
                        may_raise=("SyntaxError", "AnyError"), ensures=lambda s: [("a result", s.result != NULL)] + stay(s), exc_ensures=stay,
                        note="the static check changes no reported status, ready mark, position or counter; its findings are arbitrary", **T_))
    out.append(Contract("ipyflow.data_model.cell.Cell.compute_phantom_cell_info", "Cell", params={"used_cells": TSet(TInt)}, ret=TDict(TId, TSet(TInt)), note="an arbitrary table; changes nothing", **T_))
    out.append(Contract("ipyflow.analysis.resolved_symbols.ResolvedSymbol.is_waiting_at_position", "ResolvedSymbol", params={"pos": TInt}, ret=TBool,
                        ensures=lambda s: [("a fixed answer", s.result == waits_at(s.arg("self"), s.arg("pos")))], note="a fixed but arbitrary answer per symbol use and position", **T_))
    out.append(Contract(FE + "_compute_stale_parents", "FrontendCheckerResult", params={"cell": TRef("Cell")}, modifies=(F + "stale_parents",), note="touches only the stale parents", **T_))
    out.append(Contract(FE + "_compute_stale_parent_makers", "FrontendCheckerResult", modifies=(F + "stale_parents_by_executed_cell_by_child", F + "stale_parents_by_child_by_executed_cell"),
                        note="touches only the stale parents by executed cell", **T_))
    RET = TTup([("ready", TBool), ("new_ready", TBool)], "Readiness")
    fst, snd = (lambda z: RET.dt()[2][0](z)), (lambda z: RET.dt()[2][1](z))
    wset = lambda s: fld(s, "waiting_cells")

    def rreq(s):
        return [("the cell", s.arg("cell") != NULL), ("the check", s.arg("checker_result") != NULL)] + int_ids(w, s) + d.known(s, lambda x: z3.BoolVal(True))

    def rpost(s):
        c, r = s.arg("cell"), s.result
        return [("a waiting cell is neither ready nor newly ready", z3.Implies(z3.Select(wset(s), cid(s, c)), z3.And(z3.Not(fst(r)), z3.Not(snd(r))))),
                ("a newly ready cell is ready and was run before", z3.Implies(snd(r), z3.And(fst(r), ctr(s, c) > 0)))]

    def rinvs():
        def new(n):
            def g(lv):
                s = lv.ctx()
                b = [(x, z) for x, z in sorted(lv.locals_of(TBool).items()) if lv.assigns(x)]
                pairs = [(z, y) for x, z in b for m, y in b if x != m]
                if len(pairs) <= n:
                    raise Unsupported("no such pair")
                z, y = pairs[n]
                return z3.Implies(z, z3.And(y, ctr(s, s.arg("cell")) > 0))
            return g
        return [("newly ready is ready/%d" % n, new(n)) for n in range(6)]
    for dead, nm in ((TSet(SYM), "with dead symbols"), (Sc(T.TNone, None), "no dead symbols")):
        out.append(Contract("ipyflow.data_model.cell.Cell.get_max_used_live_symbol_cell_counter", "Cell", nm, params={"live_symbols": TSet(TRef("ResolvedSymbol")), "filter_to_reactive": TBool,
                            "filter_to_cascading_reactive": TBool, "dead_symbols": dead}, ret=TInt, note="an arbitrary number; changes nothing", **T_))
    for io in (True, False):
        for ek in ("DAG_BASED", "HYBRID_DAG_LIVENESS_BASED", "LIVENESS_BASED"):
            for dyn, sta in ((True, True), (True, False), (False, True)):
                if ek == "LIVENESS_BASED" and (dyn, sta) != (True, True):
                    continue

                def creq(s, io=io, ek=ek, dyn=dyn, sta=sta):
                    r = [("order", in_order(w, s) if io else z3.Not(in_order(w, s))), ("schedule", sched(s) == E.consts[ek])]
                    if ek != "LIVENESS_BASED":
                        r += [("dynamic", d.enabled(s, "DYNAMIC") == dyn), ("static", d.enabled(s, "STATIC") == sta)]
                    return r + rreq(s)
                out.append(Contract(FE + "_compute_readiness", "FrontendCheckerResult", "%s,%s%s%s" % ("in order" if io else "any order", ek.split("_")[0].lower(), ",dynamic" if dyn else "", ",static" if sta else ""),
                                    params={"cell": TRef("Cell"), "checker_result": CR}, ret=RET, requires=creq, ensures=rpost, invs=rinvs, use=False))
    out.append(Contract(FE + "_compute_readiness", "FrontendCheckerResult", "for callers", params={"cell": TRef("Cell"), "checker_result": CR}, ret=RET, requires=rreq, ensures=rpost, trusted=True,
                        note="the cases above together"))

    CELLP, LASTP = TRef("Cell"), TOpt(TInt)
    _, _, _, hasc, _ = T.opt_parts(T.Ref)
    _, _, _, hasi, geti = T.opt_parts(z3.IntSort())
    WS, KS = TDict(TId, TSet(SYM)), TDict(SYM, TSet(TId), default=True)
    PH = TDict(TId, TDict(TId, TSet(TInt)))
    UNS = F + "unsafe_order_cells"

    def late(s, c):
        """in in-order flow, at or above the last executed cell"""
        p = s.arg("last_executed_cell_pos")
        return z3.And(in_order(w, s), hasi(p), pos(w, s, c) <= geti(p))

    def oreq(s):
        t, byn = z3.Select(s.f("ResolvedSymbol.timestamp"), L), s.g("Cell._cell_by_cell_ctr")
        return [("the cell", s.arg("cell") != NULL)] + int_ids(w, s) + d.known(s, lambda x: z3.BoolVal(True)) + [
            ("initialised versions were written by known cells", z3.ForAll([L], z3.Implies(z3.And(ts_cell(t) > -1, ts_stmt(t) > -1), hasc(z3.Select(byn, ts_cell(t)))))),
            ("live symbols are there", z3.ForAll([X, L], z3.Implies(z3.Select(z3.Select(s.f("CheckerResult.live"), X), L), L != NULL)))]

    def opost(s):
        c, r = s.arg("cell"), s.result
        me, liveness = cid(s, c), sched(s) == E.consts["LIVENESS_BASED"]
        rd0, rd1 = s.f("Cell._ready"), s.f1("Cell._ready")
        b = lambda nm: (fld(s, nm), fld(s, nm, True))
        (W0, W1), (R0, R1), (N0, N1), (T0, T1) = (b(n) for n in ("waiting_cells", "ready_cells", "new_ready_cells", "typecheck_error_cells"))
        ok = r != NULL
        isr = z3.Select(rd1, c)
        plus = lambda S0, S1, cond: z3.ForAll([A], z3.Select(S1, A) == z3.Or(z3.Select(S0, A), z3.And(A == me, cond)))
        lives = z3.Select(s.f("CheckerResult.live"), r)
        unres = z3.Select(s.f("CheckerResult.unresolved_live_refs"), r)
        waits = z3.Or(z3.Exists([L], z3.And(z3.Select(lives, L), waits_at(L, pos(w, s, c)))), z3.Exists([L], z3.Select(unres, L)))
        mn, mt = z3.Select(s.f("NotebookFlow._min_new_ready_cell_counter"), FLOW), z3.Select(s.f("NotebookFlow.min_timestamp"), FLOW)
        now = s.g("Cell._cell_counter")
        return [
            ("a cell whose check fails is not reported", z3.Implies(z3.Not(ok), z3.And(W1 == W0, R1 == R0, N1 == N0, T1 == T0))),
            ("nor marked ready", z3.Implies(z3.And(z3.Not(ok), isr), z3.Select(rd0, c))),
            ("only the cell's own ready mark changes", z3.ForAll([X], z3.Implies(X != c, z3.Select(rd1, X) == z3.Select(rd0, X)))),
            ("the cell is reported ready exactly when it is marked ready", z3.Implies(ok, plus(R0, R1, isr))),
            ("a waiting cell is not marked ready", z3.Implies(z3.And(ok, z3.Select(W1, me)), z3.Not(isr))),
            ("only the cell itself becomes newly ready, when it is marked ready, ran before and is not barred by its position", z3.ForAll([A], z3.Implies(z3.Select(N1, A), z3.Or(z3.Select(N0, A),
                z3.And(ok, A == me, isr, ctr(s, c) > 0, z3.Not(late(s, c))))))),
            ("a cell that becomes ready is newly ready unless barred by its position", z3.Implies(z3.And(ok, isr, z3.Not(z3.Select(rd0, c)), ctr(s, c) > 0, z3.Not(late(s, c)), now >= mn, now >= mt), z3.Select(N1, me))),
            ("newly ready cells stay so", z3.ForAll([A], z3.Implies(z3.Select(N0, A), z3.Select(N1, A)))),
            ("in dependency-graph schedules no cell is found waiting here", z3.Implies(z3.Not(liveness), W1 == W0)),
            ("in the liveness schedule the cell waits exactly when it uses a symbol that waits there or cannot be found", z3.Implies(z3.And(ok, liveness), plus(W0, W1, waits))),
            ("the symbols listed are those of the cell", z3.ForAll([Y, A], z3.Implies(z3.Select(z3.Select(s.arg1("killing_cell_ids_for_symbol"), Y), A),
                z3.Or(z3.Select(z3.Select(s.arg("killing_cell_ids_for_symbol"), Y), A), A == me)))),
            ("typecheck errors are reported exactly when the cell does not typecheck", z3.Implies(ok, plus(T0, T1, z3.Not(z3.Select(s.f("CheckerResult.typechecks"), r))))),
        ] + stay(s)
    def oinvs():
        def killers(lv):
            s = lv.ctx()
            ks = list(lv.locals_of(KS).values())
            if not ks:
                raise Unsupported("no table")
            return [z3.ForAll([Y, A], z3.Implies(z3.Select(z3.Select(k, Y), A), z3.Or(z3.Select(z3.Select(s.arg("killing_cell_ids_for_symbol"), Y), A), A == cid(s, s.arg("cell"))))) for k in ks]

        def waiting(lv):
            if lv.kt != TRef("ResolvedSymbol"):
                raise Unsupported("not a loop over uses")
            s = lv.ctx()
            p, sy = pos(w, s, s.arg("cell")), s.f("ResolvedSymbol.sym")
            zs = list(lv.locals_of(TSet(SYM), lazy=True).values())
            return [z3.And(z3.ForAll([Y], z3.Implies(z3.Select(z, Y), z3.Exists([L], z3.And(lv.seen(L), waits_at(L, p), z3.Select(sy, L) == Y)))),
                           z3.ForAll([L], z3.Implies(z3.And(lv.seen(L), waits_at(L, p)), z3.Select(z, z3.Select(sy, L))))) for z in zs]
        return [("symbols listed so far are those of the cell", killers), ("symbols waited for so far", waiting)]
    CARGS = {"cell": CELLP, "update_liveness_time_versions": TBool, "last_executed_cell_pos": LASTP, "waiting_symbols_by_cell_id": WS, "killing_cell_ids_for_symbol": KS, "phantom_cell_info": PH}
    for io in (True, False):
        for live in (True, False):
            def creq(s, io=io, live=live):
                return [("order", in_order(w, s) if io else z3.Not(in_order(w, s))), ("schedule", (sched(s) == E.consts["LIVENESS_BASED"]) == live)] + oreq(s)
            out.append(Contract(FE + "_check_one_cell", "FrontendCheckerResult", "%s,%s" % ("in order" if io else "any order", "liveness" if live else "dag"), params=dict(CARGS), ret=TRef("CheckerResult", True), requires=creq,
                                ensures=opost, invs=oinvs, merge=True, use=False,
                                modifies=EDG + (F + "waiting_cells", F + "ready_cells", F + "new_ready_cells", F + "typecheck_error_cells", UNS, F + "stale_parents", F + "stale_parents_by_executed_cell_by_child",
                                                F + "stale_parents_by_child_by_executed_cell", "Cell._ready", "arg:waiting_symbols_by_cell_id", "arg:killing_cell_ids_for_symbol", "arg:phantom_cell_info")))
    out.append(Contract(FE + "_check_one_cell", "FrontendCheckerResult", "for callers", params=dict(CARGS), ret=TRef("CheckerResult", True), requires=oreq, ensures=opost, trusted=True, note="the cases above together",
                        modifies=out[-1].modifies))
    return out + whole(w, d, E, sched, stay, EDG, hasc, hasi, geti, ctr, cid)


def whole(w, d, E, sched, stay, EDG, hasc, hasi, geti, ctr, cid):
    """The statuses of one whole schedule computation."""
    w.declare("FrontendCheckerResult", unsafe_order_symbol_usage=TDict(TId, TList(TAny), default=True))
    X, Y, L, I, J = z3.Const("x!c", T.Ref), z3.Const("y!c", T.Ref), z3.Const("l!", T.Ref), z3.Int("i!"), z3.Int("j!")
    out = []
    CR = TRef("CheckerResult")
    last_of = lambda s: s.arg("last_executed_cell_id")
    _, _, _, hasid, getid = T.opt_parts(T.IdSort)
    T_ = dict(trusted=True)
    FCR = "FrontendCheckerResult"
    out.append(Contract(FE + "_compute_waiter_and_ready_maker_links", FCR, "for callers", modifies=(F + "waiter_links", F + "ready_maker_links"), note="touches only the links (C06)", **T_))
    out.append(Contract(FE + "_compute_unsafe_order_usages", FCR, params={"cells_to_check": LC}, modifies=(F + "unsafe_order_symbol_usage",), note="touches only the unsafe usages", **T_))
    out.append(Contract(FE + "_compute_filtered_parents", FCR, "for callers", params={"cells_to_check": LC}, modifies=(F + "cell_parents", F + "cell_children"), note="touches only the reported graph (C08)", **T_))
    def mreq(s):
        return [("waiting cells are known", z3.ForAll([A], z3.Implies(z3.Select(fld(s, "waiting_cells"), A), z3.And(d.tracked(s, A), d.cur(s, A) != NULL)))),
                ("killing cells are known", z3.ForAll([Y, B], z3.Implies(z3.Select(z3.Select(s.arg("killing_cell_ids_for_symbol"), Y), B), d.tracked(s, B))))] + int_ids(w, s) + d.known(s, lambda x: z3.BoolVal(True))
    out.append(Contract(FE + "_compute_ready_making_cells", FCR, "for callers", params={"waiting_symbols_by_cell_id": TDict(TId, TSet(SYM)), "killing_cell_ids_for_symbol": TDict(SYM, TSet(TId), default=True),
                        "last_executed_cell_id": TOpt(TId)}, requires=mreq, modifies=(F + "waiter_links",), note="touches only the waiter links (C06 together)", **T_))
    RES = TDict(TId, CR)

    def rel(s):
        p = s.arg("last_executed_cell_pos")
        R = fld(s, "ready_cells")
        out = []
        for nm in ("forced_reactive_cells", "forced_cascading_reactive_cells"):
            f0, f1 = fld(s, nm), fld(s, nm, True)
            out += [("%s: only ready cells are added, in in-order flow none above the last executed" % nm, z3.ForAll([A], z3.Implies(z3.Select(f1, A), z3.Or(z3.Select(f0, A),
                        z3.And(z3.Select(R, A), z3.Or(z3.Not(in_order(w, s)), pos(w, s, d.cur(s, A)) >= p)))))),
                    ("%s: none is taken away" % nm, z3.ForAll([A], z3.Implies(z3.Select(f0, A), z3.Select(f1, A))))]
        return out

    def linv():
        def one(nm):
            def g(lv):
                if lv.kt != TId:
                    raise Unsupported("not over ids")
                s = lv.ctx()
                cur, p = z3.Select(lv.f(F + nm), s.arg("self")), s.arg("last_executed_cell_pos")
                return [z3.ForAll([A], z3.Implies(z3.Select(cur, A), z3.Or(z3.Select(fld(s, nm), A), z3.And(z3.Select(fld(s, "ready_cells"), A),
                        z3.Or(z3.Not(in_order(w, s)), pos(w, s, d.cur(s, A)) >= p))))), z3.ForAll([A], z3.Implies(z3.Select(fld(s, nm), A), z3.Select(cur, A)))]
            return g
        return [("forced so far", one("forced_reactive_cells")), ("cascading so far", one("forced_cascading_reactive_cells"))]

    def known_ready(s):
        return z3.ForAll([A], z3.Implies(z3.Select(fld(s, "ready_cells"), A), z3.And(d.tracked(s, A), d.cur(s, A) != NULL)))
    out.append(Contract(FE + "_compute_reactive_cells_for_reactive_symbols", FCR, params={"checker_results_by_cid": RES, "last_executed_cell_pos": TInt},
                        requires=lambda s: int_ids(w, s) + [("ready cells are known", known_ready(s))] , ensures=rel, invs=linv, modifies=(F + "forced_reactive_cells", F + "forced_cascading_reactive_cells")))
    LAST = FE + "_get_last_executed_pos_and_handle_reactive_tags"

    def lpost(s):
        i, r = last_of(s), s.result
        c = d.cur(s, getid(i))
        f0, f1 = fld(s, "forced_reactive_cells"), fld(s, "forced_reactive_cells", True)
        t = z3.Const("t!g", T.StrSort)
        return [("the position of the last executed cell, if any", z3.If(hasid(i), z3.And(hasi(r), geti(r) == pos(w, s, c)), z3.Not(hasi(r)))),
                ("the cells reacting to one of its tags are forced", z3.ForAll([A], z3.Select(f1, A) == z3.Or(z3.Select(f0, A), z3.And(hasid(i), z3.Exists([t], z3.And(
                    z3.Select(z3.Select(s.f("Cell.tags"), c), t), z3.Select(z3.Select(s.g("Cell._reactive_cells_by_tag"), t), A)))))))]

    def linvs():
        def tags(lv):
            s = lv.ctx()
            cur, ent = z3.Select(lv.f(F + "forced_reactive_cells"), s.arg("self")), z3.Select(lv.f0(F + "forced_reactive_cells"), s.arg("self"))
            by = s.g("Cell._reactive_cells_by_tag")
            if lv.kt is TStr:
                t = z3.Const("t!g", T.StrSort)
                return z3.ForAll([A], z3.Select(cur, A) == z3.Or(z3.Select(ent, A), z3.Exists([t], z3.And(lv.seen(t), z3.Select(z3.Select(by, t), A)))))
            return z3.ForAll([A], z3.Select(cur, A) == z3.Or(z3.Select(ent, A), lv.seen(A)))
        return [("forced so far", tags)]
    out.append(Contract(LAST, FCR, params={"last_executed_cell_id": TOpt(TId)}, ret=TOpt(TInt),
                        requires=lambda s: int_ids(w, s) + [("the last executed cell is known", z3.Implies(hasid(last_of(s)), z3.And(d.tracked(s, getid(last_of(s))), d.cur(s, getid(last_of(s))) != NULL)))],
                        ensures=lpost, invs=linvs, modifies=(F + "forced_reactive_cells",)))

    nth = lambda s, i: z3.Select(LC.dt()[3](s.arg("cells_to_check")), i)
    inr = lambda s, i: z3.And(0 <= i, i < LC.dt()[2](s.arg("cells_to_check")))
    q = z3.Const("q!", T.IdSort)
    nolast = lambda s: z3.Select(s.f("NotebookFlow.last_executed_cell_id"), FLOW)
    lastid = lambda s: z3.If(hasid(last_of(s)), last_of(s), nolast(s))

    def nreq(s):
        r = int_ids(w, s) + d.known(s, lambda x: z3.BoolVal(True))
        t, byn = z3.Select(s.f("ResolvedSymbol.timestamp"), L), s.g("Cell._cell_by_cell_ctr")
        r += [("nothing is reported yet (%s)" % nm, z3.ForAll([A], z3.Not(z3.Select(fld(s, nm), A)))) for nm in ("waiting_cells", "ready_cells", "new_ready_cells")]
        r += [
            ("the checked cells are the cells of the notebook", z3.ForAll([I], z3.Implies(inr(s, I), z3.And(nth(s, I) != NULL, d.tracked(s, cid(s, nth(s, I))), d.cur(s, cid(s, nth(s, I))) == nth(s, I))))),
            ("each once", z3.ForAll([I, J], z3.Implies(z3.And(inr(s, I), inr(s, J), nth(s, I) == nth(s, J)), I == J))),
            ("an id names the cell with that id", z3.ForAll([q], z3.Implies(d.tracked(s, q), z3.And(d.cur(s, q) != NULL, cid(s, d.cur(s, q)) == q)))),
            ("live symbols are there", z3.ForAll([X, L], z3.Implies(z3.Select(z3.Select(s.f("CheckerResult.live"), X), L), L != NULL))),
            ("initialised versions were written by known cells", z3.ForAll([L], z3.Implies(z3.And(ts_cell(t) > -1, ts_stmt(t) > -1), hasc(z3.Select(byn, ts_cell(t)))))),
            ("the last executed cell is known", z3.And(*[z3.Implies(hasid(i), d.tracked(s, getid(i))) for i in (last_of(s), nolast(s))])),
        ]
        return r

    def status(s, W, R, N, rd):
        """what holds of the reported sets and the ready marks throughout"""
        li = lastid(s)
        return [
            ("newly ready cells are ready", z3.ForAll([A], z3.Implies(z3.Select(N, A), z3.Select(R, A)))),
            ("reported ready cells carry the ready mark", z3.ForAll([A], z3.Implies(z3.Select(R, A), z3.And(d.tracked(s, A), z3.Select(rd, d.cur(s, A)))))),
            ("other cells carry it only from before", z3.ForAll([X], z3.Implies(z3.And(z3.Select(rd, X), z3.Not(z3.Select(s.f("Cell._ready"), X))), z3.And(z3.Select(R, cid(s, X)), d.cur(s, cid(s, X)) == X)))),
            ("a waiting cell neither is ready nor carries the mark", z3.ForAll([A], z3.Implies(z3.Select(W, A), z3.And(d.tracked(s, A), z3.Not(z3.Select(R, A)), z3.Not(z3.Select(rd, d.cur(s, A))))))),
            ("in in-order flow no cell at or above the last executed one is newly ready", z3.ForAll([A], z3.Implies(z3.And(z3.Select(N, A), in_order(w, s), hasid(li)), pos(w, s, d.cur(s, A)) > pos(w, s, d.cur(s, getid(li)))))),
        ]

    def npost(s, live):
        W, R, N = (fld(s, nm, True) for nm in ("waiting_cells", "ready_cells", "new_ready_cells"))
        r = status(s, W, R, N, s.f1("Cell._ready"))
        if not live:
            r.append(("every checked cell with a ready or waiting dependency waits", z3.ForAll([I, B], z3.Implies(z3.And(inr(s, I), d.parent(s.after(), nth(s, I), B), z3.Or(z3.Select(R, B), z3.Select(W, B))), z3.Select(W, cid(s, nth(s, I)))))))
        return r

    def ninvs():
        def get(lv):
            s = lv.ctx()
            if lv.kt is not TInt or not lv.modifies("Cell._ready"):
                raise Unsupported("not the main loop")
            me = s.arg("self")
            return s, [z3.Select(lv.f(F + nm), me) for nm in ("waiting_cells", "ready_cells", "new_ready_cells")] + [lv.f("Cell._ready")]

        def st(n):
            def g(lv):
                s, v = get(lv)
                return status(s, *v)[n][1]
            return g

        def fresh_(lv):
            s, (W, R, N, rd) = get(lv)
            out = []
            for z in lv.locals_of(LC).values():
                c = z3.Select(LC.dt()[3](z), I)
                out.append(z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < LC.dt()[2](z), z3.Not(lv.seen(I))), z3.And(*[z3.Not(z3.Select(S, cid(s, c))) for S in (W, R, N)]))))
            if not out:
                raise Unsupported("no list")
            return out

        def kn(lv):
            s, _ = get(lv)
            H = lv.f(d.vs["STATIC"].P)
            return z3.ForAll([X, A], z3.Implies(d.vs["STATIC"].has(H, X, A), d.tracked(s, A)), patterns=[d.vs["STATIC"].has(H, X, A)])

        def killers(lv):
            s, _ = get(lv)
            ks = list(lv.locals_of(TDict(SYM, TSet(TId), default=True)).values())
            if not ks:
                raise Unsupported("no table")
            return [z3.ForAll([Y, A], z3.Implies(z3.Select(z3.Select(k, Y), A), d.tracked(s, A))) for k in ks]
        return [("status/%d" % n, st(n)) for n in range(5)] + [("cells to come are not reported", fresh_), ("recorded parents stay known", kn), ("listed cells are known", killers)]
    for io in (True, False):
        for live in (True, False):
            def creq(s, io=io, live=live):
                return [("order", in_order(w, s) if io else z3.Not(in_order(w, s))), ("schedule", (sched(s) == E.consts["LIVENESS_BASED"]) == live)] + nreq(s)
            out.append(Contract(FE + "compute_frontend_checker_result", FCR, "%s,%s" % ("in order" if io else "any order", "liveness" if live else "dag"),
                                params={"cells_to_check": LC, "update_liveness_time_versions": TBool, "last_executed_cell_id": TOpt(TId)}, ret=TRef(FCR), requires=creq,
                                ensures=lambda s, live=live: npost(s, live), invs=ninvs, merge=True, use=False,
                                modifies=EDG + ("Cell._ready",) + tuple(F + n for n in ("waiting_cells", "ready_cells", "new_ready_cells", "typecheck_error_cells", "unsafe_order_cells", "stale_parents", "stale_parents_by_executed_cell_by_child",
                                                "stale_parents_by_child_by_executed_cell", "forced_reactive_cells", "forced_cascading_reactive_cells", "waiter_links", "ready_maker_links", "unsafe_order_symbol_usage", "cell_parents", "cell_children"))))
    return out
