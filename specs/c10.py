"""C10 the symbol graph: parents and children mirror each other; overwrite replaces, augment adds."""
import z3

from pyvc import types as T
from pyvc.engine import NONE, Meta
from pyvc.program import Unsupported
from pyvc.types import NULL, TAny, TBool, TDict, TInt, TList, TOpt, TRef, TSet
from pyvc.verify import Contract

from . import c20
from .ipyworld import FLOW, SYM, TS, opaque

S_ = "ipyflow.data_model.symbol.Symbol."
OTHER = ("Symbol._implicit", "Symbol.required_timestamp", "Symbol.fresher_ancestors", "Symbol.fresher_ancestor_timestamps", "Symbol.call_scope",
         "Symbol.func_def_stmt", "Symbol._cascading_reactive_cell_num", "Namespace.scope_name", "Namespace.original_symbol",
         "NotebookFlow.updated_reactive_symbols", "NotebookFlow.updated_deep_reactive_symbols", "arg:new_deps")
X, Y = z3.Const("x!y", T.Ref), z3.Const("y!y", T.Ref)


def contracts(w):
    c20.declare(w)
    w.declare("Symbol", obj_id=TInt, cached_obj_id=TOpt(TInt), is_import=TBool, is_immutable=TBool, is_globally_accessible=TBool,
              is_mutation_virtual_symbol=TBool, is_underscore=TBool, is_class=TBool, obj=TAny, obj_type=TAny,
              namespace=TRef("Namespace", True), containing_namespace=TRef("Namespace", True), stmt_node=TAny, name=TAny,
              _implicit=TBool, required_timestamp=TS, fresher_ancestors=TSet(SYM), fresher_ancestor_timestamps=TSet(TS),
              call_scope=TRef("Scope", True), func_def_stmt=TAny, _cascading_reactive_cell_num=TInt, is_garbage=TBool, is_subscript=TBool,
              watchpoints=TRef("Watchpoints"), containing_scope=TRef("Scope"))
    w.declare("Namespace", scope_name=TAny, original_symbol=TRef("Symbol", True))
    w.declare("NotebookFlow", blocked_reactive_timestamps_by_symbol=TDict(SYM, TAny), updated_reactive_symbols=TSet(SYM),
              updated_deep_reactive_symbols=TSet(SYM), aliases=TDict(TInt, TSet(SYM)))
    w.declare("DataflowTracer", pending_class_namespaces=TRef("PendingClasses"))
    w.declare("Scope", _symbol_by_name=TDict(TAny, SYM))
    w.declare("Namespace", _subscript_symbol_by_name=TDict(TAny, SYM))
    opaque(w, "Watchpoints.clear", "Namespace.upsert_symbol_for_name")
    P = lambda s, x, y, post=False: c20.edge(w, s, "parents", x, y, post)
    C = lambda s, x, y, post=False: c20.edge(w, s, "children", x, y, post)
    sym = lambda s, post=False: z3.ForAll([X, Y], P(s, X, Y, post) == C(s, Y, X, post))

    def req(s):
        return [("edges mirror", sym(s)), ("the symbol is registered under its object", w.fields["NotebookFlow.aliases"] and T.opt_parts(TSet(SYM).sort())[3](z3.Select(z3.Select(s.f("NotebookFlow.aliases"), FLOW), z3.Select(s.f("Symbol.obj_id"), s.arg("self"))))), ("edges join symbols", z3.ForAll([X, Y], z3.Implies(P(s, X, Y), z3.And(X != NULL, Y != NULL))))]

    def kept(s):
        return z3.ForAll([X, Y], z3.And(P(s, X, Y, True) == P(s, X, Y), C(s, X, Y, True) == C(s, X, Y)))

    def upost(s):
        me, nd = s.arg("self"), s.arg("new_deps")
        fl = lambda n: z3.Select(s.f("Symbol." + n), me)
        oi = w.fields["Symbol.cached_obj_id"]
        skip = z3.Or(z3.And(fl("is_import"), fl("cached_obj_id") == oi.some(fl("obj_id"))), z3.And(s.arg("mutated"), fl("is_immutable")))
        ow = z3.And(s.arg("overwrite"), z3.Not(z3.Select(nd, me)), z3.Not(z3.Exists([X], z3.And(z3.Select(nd, X), P(s, X, me)))))
        new = z3.And(z3.Select(nd, Y), Y != me)
        return [("skipped updates change no edge", z3.Implies(skip, kept(s))),
                ("edges still mirror each other", sym(s, True)),
                ("dependencies are the new ones, plus the old ones unless overwritten",
                 z3.Implies(z3.Not(skip), z3.ForAll([Y], P(s, me, Y, True) == z3.Or(new, z3.And(P(s, me, Y), z3.Not(ow)))))),
                ("no other symbol's dependencies change", z3.ForAll([X, Y], z3.Implies(X != me, P(s, X, Y, True) == P(s, X, Y))))]
    def invs():
        def at(lv, attr, x, y, old):
            ty = w.fields["Symbol." + attr]
            iss = T.opt_parts(ty.val.sort())[3]
            return iss(z3.Select(z3.Select((lv.f0 if old else lv.f)("Symbol." + attr), x), y))

        def form(attr, mine, add):
            """the loop adds / removes, for each visited symbol v, the entry (me, v) or (v, me)"""
            def f(lv):
                if lv.kt != SYM or not lv.modifies("Symbol." + attr):
                    raise Unsupported("not over symbols")
                me = lv.ctx().arg("self")
                hit = z3.And(X == me, lv.seen(Y)) if mine else z3.And(Y == me, lv.seen(X))
                new, old = at(lv, attr, X, Y, False), at(lv, attr, X, Y, True)
                return z3.ForAll([X, Y], new == (z3.Or(old, hit) if add else z3.And(old, z3.Not(hit))))
            return f
        return [("%s %s %s" % (a, "of this" if m else "of visited", "added" if add else "removed"), form(a, m, add))
                for a in ("parents", "children") for m in (True, False) for add in (True, False)] + [
               ]
    out = [Contract(S_ + "update_deps", "Symbol", "", params={"new_deps": TSet(SYM), "prev_obj": TAny}, requires=req, ensures=upost, invs=invs, merge=True,
                    modifies=("Symbol.parents", "Symbol.children") + OTHER)]
    out.append(Contract(S_ + "collect_self_garbage", "Symbol", "", invs=invs, requires=lambda s: req(s) + [("garbage", z3.Select(s.f("Symbol.is_garbage"), s.arg("self")))],
                        ensures=lambda s: [("no other symbol keeps an edge to it", z3.ForAll([X], z3.Implies(X != s.arg("self"), z3.And(z3.Not(P(s, X, s.arg("self"), True)), z3.Not(C(s, X, s.arg("self"), True)))))),
                                           ("edges between other symbols are kept", z3.ForAll([X, Y], z3.Implies(z3.And(X != s.arg("self"), Y != s.arg("self")),
                                               z3.And(P(s, X, Y, True) == P(s, X, Y), C(s, X, Y, True) == C(s, X, Y)))))],
                        modifies=("Symbol.parents", "Symbol.children", "NotebookFlow.blocked_reactive_timestamps_by_symbol", "Scope._symbol_by_name",
                                  "Namespace._subscript_symbol_by_name")))

    def up(eng, st, args, kw):
        eng.used_contracts.add("opaque:UpdateProtocol(...)(...)")
        return [(st, Meta("intrinsic", fn=lambda eng, st, a, k: [(st, NONE)], name="UpdateProtocol"))]
    w.names[("ipyflow.data_model.utils.update_protocol", "UpdateProtocol")] = Meta("intrinsic", fn=up, name="UpdateProtocol")
    opaque(w, "PendingClasses.pop", ret=TRef("Namespace"))

    def trusted(qual, **kw):
        out.append(Contract(qual, kw.pop("selfcls", "Symbol"), "", trusted=True, note="assumed not to touch dependency edges between existing symbols", **kw))
    for n in ("refresh", "update_usage_info", "_refresh_cached_obj", "_handle_possible_widget_creation", "_handle_possible_mercury_widget_creation",
              "bump_cascading_reactive_cell_num", "_remove_self_from_aliases"):
        trusted(S_ + n)
    for n in ("_should_cancel_propagation", "is_cascading_reactive_at_counter", "_is_underscore_or_simple_assign"):
        trusted(S_ + n, ret=TBool)
    trusted("ipyflow.data_model.namespace.Namespace.update_obj_ref", selfcls="Namespace", params={"obj": TAny})
    return out
