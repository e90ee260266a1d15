"""C13 memoized results are reused only for an earlier run of the same text whose recorded inputs are unchanged."""
import z3

from pyvc import types as T
from pyvc.engine import Loc, Sc, Tup
from pyvc.program import Unsupported
from pyvc.types import NULL, TAny, TBool, TDict, TInt, TList, TOpt, TRef, TStr, TTup
from pyvc.verify import Contract

from .ipyworld import SYM, TS

C_ = "ipyflow.data_model.cell.Cell."
MIN = TTup([("symbol", SYM), ("ts_at_execution", TS), ("mem_ts_at_execution", TOpt(TS)), ("obj_id_at_execution", TInt), ("comparable", TAny)], "MemoizedInput")
MOUT = TTup([("symbol", SYM), ("ts_at_execution", TS), ("value", TAny), ("comparable", TAny)], "MemoizedOutput")
MEX = TTup([("inputs", TList(MIN)), ("outputs", TList(MOUT)), ("displayed_output", TAny), ("cell_ctr", TInt)], "MemoizedCellExecution")

COMP = z3.Function("comparable_now", T.Ref, T.AnySort)
EQF = z3.Function("equality_now", T.Ref, T.AnySort)
OCOMP = z3.Function("comparable_of", T.AnySort, T.AnySort)
OEQ = z3.Function("equality_of", T.AnySort, T.AnySort)
OSIZE = z3.Function("size_of", T.AnySort, z3.IntSort())
APP = z3.Function("apply_equality", T.AnySort, T.AnySort, T.AnySort, z3.BoolSort())
NULLV = z3.Const("Symbol_NULL", T.AnySort)
STAMP = z3.Function("timestamp_now", T.Ref, TS.sort())
MEMTS = z3.Function("memoize_timestamp_now", T.Ref, TOpt(TS).sort())


def at(lst, ty, i):
    return z3.Select(ty.dt()[3](lst), i)


def contracts(w):
    w.tuples.update(MemoizedInput=MIN, MemoizedOutput=MOUT, MemoizedCellExecution=MEX)
    w.globs["Cell._memoized_executions"] = TDict(TStr, TDict(TInt, MEX))
    w.declare("Symbol", is_import=TBool, obj_id=TInt)
    w.names[("ipyflow.data_model.symbol", "Symbol.NULL")] = Sc(TAny, NULLV)
    w.globs["Symbol.NULL"] = TAny

    def comparable(eng, st, args, kw):
        eng.used_contracts.add("opaque:Symbol.make_memoize_comparable (runtime checked)")
        return [(st, Tup([Sc(TAny, COMP(args[0].z)), Sc(TAny, EQF(args[0].z))]))]
    w.methods["Symbol.make_memoize_comparable"] = comparable

    def comparable_obj(eng, st, args, kw):
        eng.used_contracts.add("opaque:Symbol.make_memoize_comparable_for_obj (runtime checked)")
        v = eng.to_z(st, args[-2], TAny)
        return [(st, Tup([Sc(TAny, OCOMP(v)), Sc(TAny, OEQ(v)), Sc(TInt, OSIZE(v))]))]
    w.methods["Symbol.make_memoize_comparable_for_obj"] = comparable_obj

    def apply_(eng, st, f, args, kw):
        if len(args) == 2 and all(isinstance(a, Sc) and a.ty is TAny for a in args):
            return [(st, Sc(TBool, APP(f.z, args[0].z, args[1].z)))]
    w.call_any = apply_

    def prop(name, fn, ty):
        w.declare("Symbol", **{name: ty})
    prop("timestamp", STAMP, TS)
    prop("memoize_timestamp", MEMTS, TOpt(TS))
    f = lambda i: MIN.dt()[2][i]

    def same(s, inp):
        """the input is as it was when the execution was recorded"""
        sym, ts, mts, oid, comp = [f(i)(inp) for i in range(5)]
        null = s.g("Symbol.NULL")
        _, some, isn, iss, val = T.opt_parts(TS.sort())
        now, mem = z3.Select(s.f("Symbol.timestamp"), sym), z3.Select(s.f("Symbol.memoize_timestamp"), sym)
        cell = lambda t: TS.dt()[2][0](t)
        bycomp = z3.And(COMP(sym) != null, EQF(sym) != T.ANY_NONE, APP(EQF(sym), COMP(sym), comp))
        bytime = z3.Or(z3.Select(s.f("Symbol.is_import"), sym), cell(now) == cell(ts),
                       z3.And(z3.Select(s.f("Symbol.obj_id"), sym) == oid, iss(mem),
                              z3.Or(val(mem) == ts, mem == mts, z3.And(isn(mts), val(mem) == TS.dt()[1](-1, -1)))))
        return z3.If(comp != null, bycomp, bytime)

    def intact(s, out):
        """the stored value is still as the execution left it (or cannot be told)"""
        val, comp = MOUT.dt()[2][2](out), MOUT.dt()[2][3](out)
        null = s.g("Symbol.NULL")
        return z3.Or(comp == null, z3.And(OCOMP(val) != null, OEQ(val) != T.ANY_NONE, APP(OEQ(val), OCOMP(val), comp)))
    i = z3.Int("i!m")
    CT = z3.Const("ctr!m", z3.IntSort())
    tbl = TDict(TStr, TDict(TInt, MEX))

    def runs(s):
        me = s.arg("self")
        ec = z3.Select(s.f("Cell.executed_content"), me)
        _, some, isn, iss, val = T.opt_parts(T.TStr.sort())
        text = z3.If(iss(ec), val(ec), T.str_const(""))
        return s.eng, text, me

    def rec(s, k):
        eng, text, me = runs(s)
        z = s.g("Cell._memoized_executions")
        inner = eng.dict_val(tbl, z, text)
        return z3.And(eng.dict_has(tbl, z, text), eng.dict_has(tbl.val, inner, k)), eng.dict_val(tbl.val, inner, k)

    def usable(s, k):
        has, r = rec(s, k)
        ins = MEX.dt()[2][0](r)
        n = TList(MIN).dt()[2](ins)
        outs = MEX.dt()[2][1](r)
        no = TList(MOUT).dt()[2](outs)
        return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < no), intact(s, at(outs, TList(MOUT), i)))), has, k < z3.Select(s.f("Cell.cell_ctr"), s.arg("self")),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), same(s, at(ins, TList(MIN), i)))))

    def req(s):
        has, r = rec(s, CT)
        return [("records carry the counter they are filed under", z3.ForAll([CT], z3.Implies(has, MEX.dt()[2][3](r) == CT)))]

    def post(s):
        me = s.arg("self")
        _, some, isn, iss, val = T.opt_parts(z3.IntSort())
        r = s.result_as(TOpt(TInt))
        lvl = z3.Select(s.f("Cell.memoized_output_level"), me)
        off = z3.Or(T.opt_parts(T.AnySort)[2](lvl), z3.Select(s.f("Cell.prev_cell"), me) == NULL)
        return [("a run is named only for memoized cells run before", z3.Implies(iss(r), z3.Not(off))),
                ("the run named is earlier, of the same text, with every recorded input unchanged", z3.Implies(iss(r), usable(s, val(r)))),
                ("none named: every earlier run of the text has a changed input", z3.Implies(z3.And(isn(r), z3.Not(off)), z3.ForAll([CT], z3.Not(usable(s, CT)))))]

    def invs():
        def inner(lv):
            s = lv.ctx()
            if not isinstance(lv.coll, Loc) or lv.eng.loc_ty(lv.st, lv.coll) != TList(MIN):
                raise Unsupported("not over inputs")
            ls = lv.eng.read(lv.st, lv.coll)
            return z3.ForAll([i], z3.Implies(lv.seen(i), same(s, at(ls, TList(MIN), i))))

        def outer(lv):
            s = lv.ctx()
            if lv.kt is not TInt or isinstance(lv.coll, Loc) and lv.eng.loc_ty(lv.st, lv.coll) == TList(MIN):
                raise Unsupported("not over runs")
            return z3.ForAll([CT], z3.Implies(lv.seen(CT), z3.Not(usable(s, CT))))
        return [("inputs seen are unchanged", inner), ("runs seen are unusable", outer)]
    return [Contract(C_ + "get_memoized_counter", "Cell", "", requires=req, ensures=post, invs=invs, ret=TOpt(TInt))]
