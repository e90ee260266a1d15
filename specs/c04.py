"""C04 timestamps."""
import z3

from pyvc import types as T
from pyvc.engine import Meta, NONE, Sc, Tup
from pyvc.types import TBool, TInt, TNone, TOpt, TRef, TTup, TAny
from pyvc.verify import Contract, opaque_body

from .ipyworld import TS, ts_cell, ts_lt, ts_mk, ts_stmt

Q = "ipyflow.data_model.timestamp.Timestamp."


def contracts(w):
    out = []
    out.append(Contract(Q + "__eq__", "Timestamp", "vs Timestamp", params={"other": TS}, ret=TBool,
        ensures=lambda s: [("equal iff both components equal",
            s.result == z3.And(ts_cell(s.arg("self")) == ts_cell(s.arg("other")), ts_stmt(s.arg("self")) == ts_stmt(s.arg("other"))))]))
    out.append(Contract(Q + "__ne__", "Timestamp", "vs Timestamp", params={"other": TS}, ret=TBool,
        ensures=lambda s: [("ne is the negation of eq",
            s.result == z3.Not(z3.And(ts_cell(s.arg("self")) == ts_cell(s.arg("other")), ts_stmt(s.arg("self")) == ts_stmt(s.arg("other")))))]))
    out.append(Contract(Q + "plus", "Timestamp", ret=TS,
        ensures=lambda s: [("componentwise sum", s.result == ts_mk(ts_cell(s.arg("self")) + s.arg("cell_num_delta"), ts_stmt(s.arg("self")) + s.arg("stmt_num_delta")))]))
    out.append(Contract(Q + "is_initialized", "Timestamp", ret=TBool,
        ensures=lambda s: [("initialized iff both components above the sentinel", s.result == z3.And(ts_cell(s.arg("self")) > -1, ts_stmt(s.arg("self")) > -1))]))

    for nm, op, f in (("lt", "<", lambda a, b: ts_lt(a, b)), ("le", "<=", lambda a, b: z3.Not(ts_lt(b, a))),
                      ("gt", ">", lambda a, b: ts_lt(b, a)), ("ge", ">=", lambda a, b: z3.Not(ts_lt(a, b)))):
        hc = w.prog.add_harness("ipyflow.data_model.timestamp", "def %s_client(a, b):\n    return a %s b\n" % (nm, op))
        out.append(Contract(hc, None, "", params={"a": TS, "b": TS}, ret=TBool,
                            ensures=lambda s, f=f: [("lexicographic order", s.result == f(s.arg("a"), s.arg("b")))]))
    out.append(Contract(Q + "current", "Timestamp", "", ret=TS,
        ensures=lambda s: [("current counters plus the enclosing offsets, or uninitialized", s.result == z3.If(
            z3.Const("TRACER_INITIALIZED", z3.BoolSort()),
            ts_mk(s.g("Cell._cell_counter") + s.g("timestamp._cell_offset"), z3.Select(s.f("DataflowTracer._module_stmt_counter"), z3.Const("TRACER", T.Ref)) + s.g("timestamp._stmt_offset")),
            ts_mk(z3.IntVal(-1), z3.IntVal(-1))))]))

    h = w.prog.add_harness("ipyflow.data_model.timestamp", """
def offset_client(cell_offset, stmt_offset, BODY):
    with Timestamp.offset(cell_offset, stmt_offset):
        BODY()
""")

    def inner(eng, st):
        a = eng.entry_args
        return [("offsets add up inside the block", z3.And(
            eng.glob_get(st, "timestamp._cell_offset") == eng.glob_get(eng.pre_state, "timestamp._cell_offset") + a["cell_offset"].z,
            eng.glob_get(st, "timestamp._stmt_offset") == eng.glob_get(eng.pre_state, "timestamp._stmt_offset") + a["stmt_offset"].z))]

    out.append(Contract(h, None, "", params={"cell_offset": TInt, "stmt_offset": TInt, "BODY": opaque_body(inner)}, may_raise=("AnyError",),
        exc_ensures=lambda s: [("offsets restored on exception", z3.And(s.g1("timestamp._cell_offset") == s.g("timestamp._cell_offset"), s.g1("timestamp._stmt_offset") == s.g("timestamp._stmt_offset")))],
        ensures=lambda s: [("offsets restored", z3.And(s.g1("timestamp._cell_offset") == s.g("timestamp._cell_offset"), s.g1("timestamp._stmt_offset") == s.g("timestamp._stmt_offset")))],
        modifies=("timestamp._cell_offset", "timestamp._stmt_offset")))
    return out
