"""C09 staleness: an update makes everything downstream of it wait, nothing else, and clears itself."""
import z3

from pyvc import types as T
from pyvc.engine import Loc, Meta, Sc
from pyvc.program import Unsupported
from pyvc.types import NULL, TAny, TBool, TDict, TId, TInt, TList, TOpt, TRef, TSet, TStr
from pyvc.verify import Contract

from . import c20
from .ipyworld import FLOW, SYM, TS, opaque, ts_mk

U_ = "ipyflow.data_model.utils.update_protocol.UpdateProtocol."
Q_ = "ipyflow.data_model.symbol.Symbol."
TRACER = z3.Const("TRACER", T.Ref)
X, Y, N = z3.Const("x!y", T.Ref), z3.Const("y!y", T.Ref), z3.Const("n!y", T.Ref)
Down = z3.Function("downstream", T.Ref, z3.BoolSort())
Up = z3.Function("touched", T.Ref, z3.BoolSort())
S = z3.Select
NS = TRef("Namespace", True)


def declare(w):
    c20.declare(w)
    w.declare("Symbol", namespace=NS, containing_namespace=NS, obj_id=TInt, required_timestamp=TS, fresher_ancestors=TSet(SYM),
              fresher_ancestor_timestamps=TSet(TS), disable_warnings=TBool, timestamp=TS, is_import=TBool, is_module=TBool,
              cells_where_deep_live=TSet(TRef("Cell")), _temp_disable_warnings=TBool)
    w.declare("Namespace", cloned_from=NS, obj_id=TInt, is_module=TBool, namespace_waiting_symbols=TSet(SYM), max_descendent_timestamp=TS,
              members=TSet(SYM), own_members=TSet(SYM))
    w.declare("NotebookFlow", aliases=TDict(TInt, TSet(SYM)), namespaces=TDict(TInt, TRef("Namespace")), updated_symbols=TSet(SYM))
    w.declare("DataflowTracer", this_stmt_updated_symbols=TSet(SYM))
    w.declare("UpdateProtocol", updated_sym=SYM, seen=TSet(SYM))
    opaque(w, "Cell.add_used_cell_counter", modifies=("Cell._used_cell_counters_by_live_symbol",))
    opaque(w, "Symbol.refresh", modifies=("Symbol._timestamp", "Symbol.timestamp"))

    def members(eng, st, args, kw):
        excl = kw.get("exclude_class")
        key = "Namespace.own_members" if excl is not None else "Namespace.members"
        eng.used_contracts.add("opaque:Namespace.all_symbols_this_indentation")
        r = eng.new_root(st, TSet(SYM), S(eng.heap_get(st, key), args[0].z))
        return [(st, r)]
    w.methods["Namespace.all_symbols_this_indentation"] = members


class View:
    """one state (heap getter f, globals getter g)"""

    def __init__(self, w, f, me):
        self.w, self.f, self.me = w, f, me

    def fld(self, k, x):
        return S(self.f(k), x)

    @property
    def seen(self):
        return self.fld("UpdateProtocol.seen", self.me)

    @property
    def u(self):
        return self.fld("UpdateProtocol.updated_sym", self.me)

    def child(self, x, y):
        ty = self.w.fields["Symbol.children"]
        return T.opt_parts(ty.val.sort())[3](S(S(self.f("Symbol.children"), x), y))

    def E(self, x, y):
        n = self.fld("Symbol.namespace", y)
        c = self.fld("Namespace.cloned_from", n)
        c2i = z3.And(n != NULL, c != NULL, self.fld("Namespace.obj_id", c) == self.fld("Symbol.obj_id", x))
        return z3.And(self.child(x, y), z3.Or(x == self.u, z3.Not(c2i)))

    def alias(self, n, x):
        """x is a symbol for the object whose namespace is n"""
        ty = TSet(SYM)
        p = T.opt_parts(ty.sort())
        e = S(S(self.f("NotebookFlow.aliases"), FLOW), self.fld("Namespace.obj_id", n))
        return z3.And(p[3](e), S(p[4](e), x))

    def req(self, x):
        return self.fld("Symbol.required_timestamp", x)

    def nws(self, n, x):
        return S(self.fld("Namespace.namespace_waiting_symbols", n), x)

    def fresh(self, x):
        return self.fld("Symbol.fresher_ancestors", x)

    def elig(self, x):
        return z3.And(z3.Not(S(self.fld("NotebookFlow.updated_symbols", FLOW), x)), z3.Not(S(self.fld("DataflowTracer.this_stmt_updated_symbols", TRACER), x)),
                      z3.Not(self.fld("Symbol.disable_warnings", x)), x != self.u)

    def holder(self, x):
        return z3.Exists([N, Y], z3.And(self.alias(N, x), self.nws(N, Y)))


def now(s):
    return z3.If(z3.Const("TRACER_INITIALIZED", z3.BoolSort()),
                 ts_mk(s.g("Cell._cell_counter") + s.g("timestamp._cell_offset"), S(s.f("DataflowTracer._module_stmt_counter"), TRACER) + s.g("timestamp._stmt_offset")),
                 ts_mk(z3.IntVal(-1), z3.IntVal(-1)))


UNINIT = ts_mk(z3.IntVal(-1), z3.IntVal(-1))
MARKS = ("UpdateProtocol.seen", "Symbol.required_timestamp", "Symbol.fresher_ancestors", "Symbol.fresher_ancestor_timestamps", "Namespace.namespace_waiting_symbols")


def contracts(w):
    declare(w)
    out = []

    def closure(s):
        v = View(w, s.f, s.arg("self"))
        cn = v.fld("Symbol.containing_namespace", X)
        nsp = S(S(s.f("NotebookFlow.namespaces"), FLOW), v.fld("Symbol.obj_id", X))
        p = T.opt_parts(TRef("Namespace").sort())
        return [("downstream is closed under users", z3.ForAll([X, Y], z3.Implies(z3.And(Down(X), v.E(X, Y)), Down(Y)))),
                ("downstream is closed under containers", z3.ForAll([X, Y], z3.Implies(z3.And(Down(X), cn != NULL, z3.Not(v.fld("Namespace.is_module", cn)), v.alias(cn, Y)), Down(Y)))),
                ("downstream is closed under members", z3.ForAll([X, Y], z3.Implies(z3.And(Down(X), p[3](nsp), S(v.fld("Namespace.own_members", p[4](nsp)), Y)), Down(Y)))),
                ("users are symbols", z3.ForAll([X, Y], z3.Implies(v.child(X, Y), z3.And(X != NULL, Y != NULL)))), ("an updated symbol", v.u != NULL)]

    def rel(a, b, t, sym=None, skip=None, also=None):
        """what happened between views a and b (now = t): list of (name, formula).
        sym: the start (left to the caller by the namespace walks)."""
        new = z3.And(S(b.seen, X), z3.Not(S(a.seen, X)))
        hit = new if sym is None else z3.Or(new, X == sym)
        exc = z3.BoolVal(False) if also is None else also(X)
        marked = z3.Or(z3.And(b.req(X) == t, S(b.fresh(X), b.u)), b.holder(X))
        return [("seen grows", z3.ForAll([X], z3.Implies(S(a.seen, X), S(b.seen, X)))),
                ("only downstream symbols are seen", z3.ForAll([X], z3.Implies(new, Down(X)))),
                ("users of what is newly seen are seen", z3.ForAll([X, Y], z3.Implies(z3.And(new, z3.Not(exc), b.E(X, Y)), S(b.seen, Y)))),
                ("what is newly seen waits or holds something that waits", z3.ForAll([X], z3.Implies(z3.And(new, X != NULL, *([X != sym] if sym is not None else []), b.elig(X)), marked))),
                ("nothing else is marked", z3.ForAll([X], z3.Implies(z3.Not(hit), z3.And(b.req(X) == a.req(X), b.fresh(X) == a.fresh(X))))),
                ("marks are of now", z3.ForAll([X], z3.Or(b.req(X) == a.req(X), z3.And(b.req(X) == t, a.elig(X))))),
                ("waiting members are kept", z3.ForAll([X, Y], z3.Implies(a.nws(X, Y), b.nws(X, Y)))),
                ("waiting members are downstream members", z3.ForAll([X, Y], z3.Implies(z3.And(b.nws(X, Y), z3.Not(a.nws(X, Y))), z3.And(Down(Y), b.fld("Symbol.containing_namespace", Y) == X)))),
                ("fresher ancestors are kept", z3.ForAll([X, Y], z3.Implies(S(a.fresh(X), Y), S(b.fresh(X), Y))))]

    def invs():
        def g(f):
            def h(lv):
                s = lv.ctx()
                a, b = View(w, lv.f0, s.arg("self")), View(w, lv.f, s.arg("self"))
                return f(lv, s, a, b)
            return h
        cands = []
        dummy = [n for n, _ in rel_names]
        for i, n in enumerate(dummy):
            cands.append((n, g(lambda lv, s, a, b, i=i: rel(a, b, now(s))[i][1])))
        cands.append(("users of what is newly seen are seen, visited apart", g(lambda lv, s, a, b: rel(a, b, now(s), also=lv.seen)[2][1] if lv.kt == SYM else None)))
        cands.append(("visited are seen", g(lambda lv, s, a, b: z3.ForAll([Y], z3.Implies(lv.seen(Y), S(b.seen, Y))) if lv.kt == SYM else None)))
        cands.append(("nothing else but visited is marked", g(lambda lv, s, a, b: z3.ForAll([X], z3.Implies(z3.And(z3.Or(z3.Not(S(b.seen, X)), S(a.seen, X)), z3.Not(lv.seen(X))),
                                                                                                   z3.And(b.req(X) == a.req(X), b.fresh(X) == a.fresh(X)))) if lv.kt == SYM else None)))
        cands.append(("visited users of the owner are seen", g(lambda lv, s, a, b: z3.ForAll([Y], z3.Implies(z3.And(lv.seen(Y), b.E(owner(lv), Y)), S(b.seen, Y))) if owner(lv) is not None else None)))
        cands.append(("users of visited are seen", g(lambda lv, s, a, b: z3.ForAll([X, Y], z3.Implies(z3.And(lv.seen(X), b.E(X, Y)), S(b.seen, Y))) if lv.kt == SYM else None)))
        return [(n, chk(f)) for n, f in cands]

    def owner(lv):
        """the symbol whose users the loop runs over"""
        c = lv.coll
        if isinstance(c, Meta):
            c = getattr(c, "loc", None) or getattr(c, "base", None)
        if isinstance(c, Loc) and c.root[:2] == ("f", "Symbol.children"):
            return c.root[2]
        return None

    def chk(f):
        def h(lv):
            r = f(lv)
            if r is None:
                raise Unsupported("n/a")
            return r
        return h
    rel_names = [(n, None) for n in ("seen grows", "only downstream symbols are seen", "users of what is newly seen are seen", "what is newly seen waits or holds something that waits",
                                     "nothing else is marked", "marks are of now", "waiting members are kept", "waiting members are downstream members", "fresher ancestors are kept")]

    def req(s):
        return closure(s) + [("the start is downstream", Down(s.arg("sym")))]

    def views(s):
        return View(w, s.f, s.arg("self")), View(w, s.f1, s.arg("self"))

    def dpost(s):
        a, b = views(s)
        sym, skip = s.arg("sym"), s.arg("skip_seen_check")
        done = z3.Or(skip, z3.Not(S(a.seen, sym)))
        r = dict(rel(a, b, now(s)))
        r2 = dict(rel(a, b, now(s), sym=sym))
        r["nothing else is marked"] = r2["nothing else is marked"]
        return list(r.items()) + [("the start is seen", S(b.seen, sym)),
                                  ("its users are seen", z3.Implies(done, z3.ForAll([Y], z3.Implies(b.E(sym, Y), S(b.seen, Y))))),
                                  ("the start waits", z3.Implies(z3.And(done, b.elig(sym)), z3.Or(z3.And(b.req(sym) == now(s), S(b.fresh(sym), b.u))))),
                                  ("an unvisited start is untouched", z3.Implies(z3.Not(done), z3.And(b.req(sym) == a.req(sym), b.fresh(sym) == a.fresh(sym))))]

    def npost(s):
        a, b = views(s)
        sym = s.arg("sym")
        r = dict(rel(a, b, now(s)))
        r["users of what is newly seen are seen"] = dict(rel(a, b, now(s), also=lambda x: x == sym))["users of what is newly seen are seen"]
        r["what is newly seen waits or holds something that waits"] = dict(rel(a, b, now(s), sym=sym))["what is newly seen waits or holds something that waits"]
        return list(r.items()) + [("the start is seen", S(b.seen, sym))]
    P = {"sym": SYM, "skip_seen_check": TBool}
    for n, post in (("_propagate_waiting_to_deps", dpost), ("_propagate_waiting_to_namespace_parents", npost), ("_propagate_waiting_to_namespace_children", npost)):
        out.append(Contract(U_ + n, "UpdateProtocol", "", params=P, requires=req, ensures=post, invs=invs, merge=True, modifies=MARKS))

    # -- the updated symbols themselves
    def upclosure(s, refresh):
        v = View(w, s.f, s.arg("self"))
        cn, ns = v.fld("Symbol.containing_namespace", X), v.fld("Symbol.namespace", X)
        go = z3.And(Up(X), z3.Not(v.fld("Symbol.is_import", X)))
        return [("touched is closed under containers", z3.ForAll([X, Y], z3.Implies(z3.And(go, z3.Not(v.fld("Symbol.is_module", X)), cn != NULL, v.alias(cn, Y)), Up(Y)))),
                ("touched is closed under members", z3.Implies(refresh, z3.ForAll([X, Y], z3.Implies(z3.And(go, ns != NULL, S(v.fld("Namespace.members", ns), Y)), Up(Y)))))]

    def crel(a, b, also=None):
        new = z3.And(S(b.seen, X), z3.Not(S(a.seen, X)))
        cn = b.fld("Symbol.containing_namespace", X)
        return [("seen grows", z3.ForAll([X], z3.Implies(S(a.seen, X), S(b.seen, X)))),
                ("only touched symbols", z3.ForAll([X], z3.Implies(new, z3.And(Up(X), z3.Not(b.fld("Symbol.is_import", X)))))),
                ("containers too", z3.ForAll([X, Y], z3.Implies(z3.And(new, z3.Not(b.fld("Symbol.is_module", X)), cn != NULL, b.alias(cn, Y), z3.Not(b.fld("Symbol.is_import", Y))), S(b.seen, Y)))),
                ("touched symbols no longer wait", z3.ForAll([X], b.req(X) == z3.If(new, UNINIT, a.req(X)))),
                ("their containers no longer hold them as waiting", z3.ForAll([X], z3.Implies(z3.And(new, z3.Not(b.fld("Symbol.is_module", X)), cn != NULL), z3.Not(b.nws(cn, X))))),
                ("no member starts waiting", z3.ForAll([X, Y], z3.Implies(b.nws(X, Y), a.nws(X, Y))))]

    def cinvs():
        def g(f):
            def h(lv):
                s = lv.ctx()
                if "updated_symbols" not in s.args:
                    raise Unsupported("n/a")
                return f(lv, View(w, lv.f0, s.arg("self")), View(w, lv.f, s.arg("self")))
            return h
        return [(n, g(lambda lv, a, b, i=i: crel(a, b)[i][1])) for i, n in enumerate(("seen grows", "only touched", "containers too", "touched do not wait", "containers", "no member"))] + [
            ("visited are seen", g(lambda lv, a, b: z3.ForAll([Y], z3.Implies(z3.And(lv.seen(Y), z3.Not(b.fld("Symbol.is_import", Y))), S(b.seen, Y)))))]

    def cpost(s):
        a, b = views(s)
        return crel(a, b) + [("the given symbols are seen", z3.ForAll([X], z3.Implies(z3.And(S(s.arg("updated_symbols"), X), z3.Not(b.fld("Symbol.is_import", X))), S(b.seen, X))))]
    CM = ("UpdateProtocol.seen", "Symbol.required_timestamp", "Namespace.namespace_waiting_symbols", "Namespace.max_descendent_timestamp", "Cell._used_cell_counters_by_live_symbol")
    out.append(Contract(U_ + "_collect_updated_symbols_and_refresh_namespaces", "UpdateProtocol", "", params={"updated_symbols": TSet(SYM), "refresh_descendent_namespaces": TBool},
                        requires=lambda s: upclosure(s, s.arg("refresh_descendent_namespaces")) + [("the given symbols are touched", z3.ForAll([X], z3.Implies(S(s.arg("updated_symbols"), X), Up(X))))],
                        ensures=cpost, invs=cinvs, modifies=CM))
    out.append(Contract(U_ + "_maybe_get_duped_attrsub_updated_syms", "UpdateProtocol", "", trusted=True, ret=TSet(SYM), note="assumed empty (containers whose attributes double as subscripts are out of scope)",
                        ensures=lambda s: [("none", z3.ForAll([X], z3.Not(S(s.result, X))))]))

    # -- the whole protocol
    def direct(s, x):
        me = s.arg("self")
        u = S(s.f("UpdateProtocol.updated_sym"), me)
        p = T.opt_parts(TSet(SYM).sort())
        e = S(S(s.f("NotebookFlow.aliases"), FLOW), S(s.f("Symbol.obj_id"), u))
        return z3.If(s.arg("mutated"), S(p[4](e), x), x == u)

    def areq(s):
        me = s.arg("self")
        v = View(w, s.f, me)
        p = T.opt_parts(TSet(SYM).sort())
        return closure(s) + upclosure(s, s.arg("propagate_to_namespace_descendents")) + [
            ("the symbol is registered under its object", p[3](S(S(s.f("NotebookFlow.aliases"), FLOW), S(s.f("Symbol.obj_id"), v.u)))),
            ("directly updated symbols are touched", z3.ForAll([X], z3.Implies(direct(s, X), Up(X)))),
            ("touched symbols are downstream", z3.ForAll([X], z3.Implies(Up(X), Down(X)))),
            ("nothing is seen yet", z3.ForAll([X], z3.Not(S(v.seen, X))))]

    def apost(s):
        a, b = views(s)
        nd = s.arg("new_deps")
        imp = lambda x: b.fld("Symbol.is_import", x)
        T0, T1 = a.fld("DataflowTracer.this_stmt_updated_symbols", TRACER), b.fld("DataflowTracer.this_stmt_updated_symbols", TRACER)
        IN = lambda x: z3.Or(z3.And(direct(s, x), z3.Not(imp(x))), z3.And(S(T1, x), z3.Not(S(T0, x))))
        return [("updated symbols no longer wait", z3.ForAll([X], z3.Implies(IN(X), b.req(X) == UNINIT))),
                ("updated symbols are seen", z3.ForAll([X], z3.Implies(IN(X), z3.And(S(b.seen, X), S(T1, X))))),
                ("only touched symbols count as updated", z3.ForAll([X], z3.Implies(z3.And(S(T1, X), z3.Not(S(T0, X))), z3.And(Up(X), z3.Not(imp(X)))))),
                ("users of what is seen are seen, up to the new dependencies", z3.ForAll([X, Y], z3.Implies(z3.And(S(b.seen, X), z3.Or(IN(X), z3.Not(S(nd, X))), b.E(X, Y)), S(b.seen, Y)))),
                ("what is seen waits or holds something that waits", z3.ForAll([X], z3.Implies(z3.And(S(b.seen, X), X != NULL, z3.Not(S(nd, X)), b.elig(X)),
                                                                                                 z3.Or(z3.And(b.req(X) == now(s), S(b.fresh(X), b.u)), b.holder(X))))),
                ("nothing else starts to wait", z3.ForAll([X], z3.Implies(b.req(X) != a.req(X), z3.Or(b.req(X) == UNINIT, z3.And(Down(X), z3.Not(S(nd, X)), b.elig(X), b.req(X) == now(s))))))]
    out.append(Contract(U_ + "__call__", "UpdateProtocol", "", params={"new_deps": TSet(SYM)}, requires=areq, ensures=apost, invs=lambda: invs() + ainvs(),
                        merge=True, modifies=MARKS + CM + ("DataflowTracer.this_stmt_updated_symbols", "Symbol._timestamp", "Symbol.timestamp")))

    # -- reading the marks
    Wts = z3.Function("waits", T.Ref, z3.BoolSort())

    def wdef(s, x):
        f = lambda k, y: S(s.f(k), y)
        ns = f("Symbol.namespace", x)
        mt = f("NotebookFlow.min_timestamp", FLOW)
        cellnum = lambda t: TS.dt()[2][0](t)
        a, b = cellnum(f("Symbol._timestamp", x)), cellnum(f("Symbol.required_timestamp", x))
        held = z3.Exists([Y], z3.And(S(f("Namespace.namespace_waiting_symbols", ns), Y), z3.Or(mt == -1, Wts(Y))))
        quiet = z3.Or(f("Symbol.disable_warnings", x), f("Symbol._temp_disable_warnings", x))
        shallow = z3.If(a > mt, a, mt) < b
        return z3.And(z3.Not(quiet), shallow), z3.And(z3.Not(quiet), z3.Or(shallow, z3.And(ns != NULL, held)))
    out.append(Contract(Q_ + "is_waiting", "Symbol", "", ret=TBool,
                        requires=lambda s: [("waits is what the marks say", z3.ForAll([X], z3.Implies(X != NULL, Wts(X) == wdef(s, X)[1])))] if s.eng.top_contract.qual == Q_ + "is_waiting" else [],
                        ensures=lambda s: [("as marked, directly or through what it holds", z3.Implies(z3.BoolVal(s.eng.top_contract.qual == Q_ + "is_waiting"), s.result == Wts(s.arg("self"))))]))
    out.append(Contract(Q_ + "is_shallow_stale", "Symbol", "", ret=TBool, ensures=lambda s: [("as marked directly", s.result == wdef(s, s.arg("self"))[0])]))
    def ainvs():
        return []
    return out
