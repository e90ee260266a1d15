"""The ipyflow-specific static model: field types, singletons, enums.

Everything here is *typing* and *environment* information (assumptions listed in
the evidence); function bodies always come from /repo's current source.
"""
import z3

from pyvc import types as T
from pyvc.engine import INF, NONE, Meta, Sc, Tup
from pyvc.types import (
    NULL, TAny, TBool, TDict, TId, TInt, TList, TOpt, TRef, TSet, TStr, TTup,
)
from pyvc.world import World

TS = TTup([("cell_num", TInt), ("stmt_num", TInt)], "Timestamp")
SYM = TRef("Symbol")
EDGES = TDict(TId, TSet(SYM))
FLOW = z3.Const("FLOW", T.Ref)
SETTINGS = z3.Const("MUT_SETTINGS", T.Ref)


def ts_cell(t):
    return TS.dt()[2][0](t)


def ts_stmt(t):
    return TS.dt()[2][1](t)


def ts_mk(a, b):
    return TS.dt()[1](a, b)


def ts_lt(a, b):
    return z3.Or(ts_cell(a) < ts_cell(b), z3.And(ts_cell(a) == ts_cell(b), ts_stmt(a) < ts_stmt(b)))


def opaque(w, *names, ret=None, modifies=()):
    """Methods of objects outside the model: arguments are evaluated, the listed state
    becomes arbitrary, an arbitrary value is returned; everything else is assumed kept."""
    def make(name):
        def call(eng, st, args, kw):
            for m in modifies:
                if m in eng.w.fields:
                    st.heap[m] = T.fresh("H_" + m.replace(".", "_"), eng.heap_get(st, m).sort())
                else:
                    st.globs[m] = T.fresh("G_" + m.replace(".", "_"), eng.glob_get(st, m).sort())
            eng.used_contracts.add("opaque:" + name)
            return [(st, NONE if ret is None else eng.fresh_val(st, ret, "ret"))]
        return call
    for n in names:
        w.methods[n] = make(n)
        w.externs[n] = w.methods[n]


def make_world(prog):
    w = World()
    w.prog = prog
    # the mixin's methods are verified once per class that mixes it in
    w.ann_alias.add("SliceableMixin")
    w.tuples["Timestamp"] = TS
    E = lambda n: w.enum_type(prog, n)

    w.declare(
        "Cell",
        cell_id=TId, cell_ctr=TInt, tags=TSet(TStr), prev_cell=TRef("Cell", True),
        raw_dynamic_parents=EDGES, raw_dynamic_children=EDGES,
        raw_static_parents=EDGES, raw_static_children=EDGES,
        used_symbols=TSet(SYM), static_removed_symbols=TSet(SYM),
        static_writes=TSet(SYM), dynamic_writes=TSet(SYM), _pending_dynamic_writes=TSet(SYM),
        _ready=TBool, _placeholder_id=TBool, reactive_tags=TSet(TStr),
        history=TList(TInt), current_content=TStr, executed_content=TOpt(TStr),
        error_in_exec=TOpt(TAny), skipped_due_to_memoization_ctr=TInt,
        _used_cell_counters_by_live_symbol=TDict(SYM, TSet(TInt), default=True),
        memoized_output_level=TOpt(TAny), captured_output=TOpt(TAny),
    )
    w.declare(
        "Statement",
        stmt_node=TAny, _timestamp=TS, _finished=TBool, override=TBool,
        prev_stmt=TRef("Statement", True),
        raw_dynamic_parents=EDGES, raw_dynamic_children=EDGES,
        raw_static_parents=EDGES, raw_static_children=EDGES,
    )
    w.declare("NotebookFlow", mut_settings=TRef("MutableDataflowSettings"), is_test=TBool,
              fake_edge_sym=SYM, min_timestamp=TInt, last_executed_cell_id=TOpt(TId),
              is_dev_mode=TBool, updated_symbols=TSet(SYM))
    w.declare(
        "MutableDataflowSettings",
        static_slicing_enabled=TBool, dynamic_slicing_enabled=TBool,
        exec_schedule=E("ExecutionSchedule"), flow_order=E("FlowDirection"),
        exec_mode=E("ExecutionMode"), interface=E("Interface"), pull_reactive_updates=TBool,
        push_reactive_updates=TBool, push_reactive_updates_to_cousins=TBool,
        lint_out_of_order_usages=TBool, reactivity_mode=E("ReactivityMode"),
        dataflow_enabled=TBool,
    )
    w.declare("Symbol", shallow_timestamp=TS, _timestamp=TS)
    LINKS = TDict(TId, TSet(TId), default=True)
    w.declare(
        "FrontendCheckerResult",
        cell_parents=TDict(TId, TSet(TId)), cell_children=TDict(TId, TSet(TId)),
        waiting_cells=TSet(TId), ready_cells=TSet(TId), new_ready_cells=TSet(TId),
        forced_reactive_cells=TSet(TId), forced_cascading_reactive_cells=TSet(TId),
        typecheck_error_cells=TSet(TId), waiter_links=LINKS, ready_maker_links=LINKS,
        stale_parents=LINKS, unsafe_order_cells=TDict(TId, TSet(TRef("Cell")), default=True),
        stale_parents_by_executed_cell_by_child=TDict(TId, TDict(TId, TSet(TId))),
        stale_parents_by_child_by_executed_cell=TDict(TId, TDict(TId, TSet(TId))),
        allow_new_ready=TBool,
    )
    w.globs.update({
        "context.slicing_ctx_var": TOpt(E("SlicingContext")),
        "timestamp._cell_offset": TInt,
        "timestamp._stmt_offset": TInt,
        "Cell._current_cell_by_cell_id": TDict(TId, TRef("Cell")),
        "Cell._cell_by_cell_ctr": TDict(TInt, TRef("Cell")),
        "Cell._cell_counter": TInt,
        "Cell._position_by_cell_id": TDict(TId, TInt),
        "Cell._cell_id_by_position": TDict(TInt, TId),
        "Cell._reactive_cells_by_tag": TDict(TStr, TSet(TId), default=True),
        "Cell._cells_by_tag": TDict(TStr, TSet(TRef("Cell")), default=True),
        "Cell._override_current_cell": TRef("Cell", True),
        "Statement._stmts_by_id": TDict(TId, TList(TRef("Statement"))),
        "Statement._stmts_by_ts": TDict(TS, TList(TRef("Statement"))),
    })

    def const(v):
        return lambda eng, st, args, kw: [(st, v)]

    def flow_(eng, st, args, kw):
        return [(st, Sc(TRef("NotebookFlow"), FLOW))]

    w.names[("ipyflow.singletons", "flow")] = Meta("intrinsic", fn=flow_, name="flow")

    def cells_(eng, st, args, kw):
        if args:
            from pyvc.program import Unsupported
            raise Unsupported("cells(x)")
        return [(st, Meta("class", name="Cell"))]

    w.names[("ipyflow.models", "cells")] = Meta("intrinsic", fn=cells_, name="cells")
    for nm, cl in (("statements", "Statement"), ("timestamps", "Timestamp"), ("symbols", "Symbol"),
                   ("namespaces", "Namespace"), ("scopes", "Scope")):
        w.names[("ipyflow.models", nm)] = Meta("intrinsic", fn=const(Meta("class", name=cl)), name=nm)

    def tracer_init(eng, st, args, kw):
        return [(st, Sc(TBool, z3.Const("TRACER_INITIALIZED", z3.BoolSort())))]

    w.names[("ipyflow.singletons", "tracer_initialized")] = Meta("intrinsic", fn=tracer_init, name="tracer_initialized")
    w.names[("ipyflow.singletons", "tracer")] = Meta("intrinsic", fn=const(Sc(TRef("DataflowTracer"), z3.Const("TRACER", T.Ref))), name="tracer")
    w.declare("DataflowTracer", _module_stmt_counter=TInt)

    def axioms(eng, st):
        return [
            FLOW != NULL, SETTINGS != NULL,
            z3.Select(eng.heap_get(st, "NotebookFlow.mut_settings"), FLOW) == SETTINGS,
            INF > 1000000000,
            z3.Const("TRACER", T.Ref) != NULL,
        ]

    w.axioms = axioms
    return w
