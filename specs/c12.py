"""C12 list elements: symbols stay attached to the elements they describe."""
import z3

from pyvc import types as T
from pyvc.engine import Sc
from pyvc.program import Unsupported
from pyvc.types import NULL, TAny, TBool, TDict, TInt, TList, TOpt, TRef, TSet, TTup
from pyvc.verify import Contract

from .ipyworld import SYM, opaque

NS = "ipyflow.data_model.namespace.Namespace."
LH = "ipyflow.tracing.external_calls.list_handlers."
SUB, OBJ, NAME, SOBJ = "Namespace._subscript_symbol_by_name", "Namespace.obj", "Symbol.name", "Symbol.obj"
I, J = z3.Int("i!e"), z3.Int("j!e")
LST = TList(TAny)
SUBT = TDict(TInt, SYM)
OLD = z3.Function("element_before", z3.IntSort(), T.AnySort)  # ghost: the list before the edit
_, _, ISN, ISS, VAL = T.opt_parts(SYM.sort())


def contracts(w):
    w.declare("Namespace", _subscript_symbol_by_name=SUBT, obj=LST, _symbol_by_name=TDict(TAny, SYM), cloned_from=TRef("Namespace", True))
    w.declare("Symbol", name=TInt, obj=TAny, _is_dangling_on_edges=TBool)
    w.declare("Scope", _symbol_by_name=TDict(TAny, SYM))
    opaque(w, "Symbol.invalidate_cached", "Symbol.update_deps", "Symbol.mark_garbage")
    sub = lambda f, me, i: z3.Select(z3.Select(f(SUB), me), i)
    ln = lambda s, me: LST.dt()[2](z3.Select(s.f(OBJ), me))
    at = lambda s, me, i: z3.Select(LST.dt()[3](z3.Select(s.f(OBJ), me)), i)
    me = lambda s: s.arg("self")
    out = []

    def names(f, m):
        return z3.ForAll([I], z3.Implies(ISS(sub(f, m, I)), z3.Select(f(NAME), VAL(sub(f, m, I))) == I))

    def others(s, m):
        X = z3.Const("n!o", T.Ref)
        return ("other lists keep their symbols", z3.ForAll([X], z3.Implies(X != m, z3.Select(s.f1(SUB), X) == z3.Select(s.f(SUB), X))))

    def range_(f, m, n):
        return z3.ForAll([I], z3.Implies(ISS(sub(f, m, I)), z3.And(0 <= I, I < n, VAL(sub(f, m, I)) != NULL)))

    def reqs(n):
        return lambda s: [("names are positions", names(s.f, me(s))), ("within the list", range_(s.f, me(s), n(s)))]

    ob = lambda s: z3.ForAll([X_], z3.Select(s.f1(SOBJ), X_) == z3.Select(s.f(SOBJ), X_))
    X_ = z3.Const("x!o", T.Ref)

    # one symbol moves
    def moved(s, o, n):
        a, b = s.arg("from_idx"), s.arg("to_idx")
        return z3.If(ISS(sub(o, me(s), a)), z3.If(I == b, sub(o, me(s), a), z3.If(I == a, NO, sub(o, me(s), I))), sub(o, me(s), I))
    NO = T.opt_parts(SYM.sort())[0]
    NO = NO() if callable(NO) and not isinstance(NO, z3.ExprRef) else NO

    def remap_post(s):
        a, b, m = s.arg("from_idx"), s.arg("to_idx"), me(s)
        x = VAL(sub(s.f, m, a))
        return [("the symbol moves, others stay", z3.ForAll([I], sub(s.f1, m, I) == moved(s, s.f, I))), others(s, m),
                ("its name follows", z3.ForAll([X_], z3.Select(s.f1(NAME), X_) == z3.If(z3.And(X_ == x, ISS(sub(s.f, m, a))), b, z3.Select(s.f(NAME), X_))))]
    MODS = (SUB, NAME, "Symbol._is_dangling_on_edges")
    out.append(Contract(NS + "_remap_sym", "Namespace", params={"from_idx": TInt, "to_idx": TInt, "prev_obj": TAny},
                        requires=lambda s: [("apart", s.arg("from_idx") != s.arg("to_idx"))], ensures=remap_post, modifies=MODS))

    def loops():
        def shape(lv, j):
            """how many positions were moved: the index of a counted loop, or what a counter of
            any other loop stands for (positions n-1-c, c-pos-1, c-pos or pos-c)"""
            if not lv.modifies(SUB) or lv.kt not in (TInt, None):
                raise Unsupported("another loop")
            if lv.kt is TInt:
                if j:
                    raise Unsupported("a counted loop")
                return [lv.idx]
            s = lv.ctx()
            cs = [z for n, z in lv.locals_of(TInt).items() if lv.assigns(n)]
            if not j or not cs:
                raise Unsupported("no counter")
            n, p = ln(s, me(s)), s.arg("pos")
            return [(n - 1 - c, c - p - 1, c - p)[j - 1] for c in cs]

        def moved(lv, j, up):
            s = lv.ctx()
            m, p, n = me(s), s.arg("pos"), ln(s, me(s))
            o, c = sub(lv.f0, m, I), sub(lv.f, m, I)
            out = []
            for k in shape(lv, j):
                if j:
                    out.append(z3.And(0 <= k, k <= n))
                if up:  # positions n-1, n-2, ... were filled
                    if j:
                        out.append(k <= z3.If(n - 1 > p, n - 1 - p, 0))
                    out.append(z3.ForAll([I], c == z3.If(z3.And(n - k <= I, I < n), sub(lv.f0, m, I - 1), z3.If(z3.And(I == n - 1 - k, k > 0), NO, o))))
                else:
                    if j:
                        out.append(k <= n - p)
                    out.append(z3.ForAll([I], c == z3.If(z3.And(p <= I, I < p + k), sub(lv.f0, m, I + 1), z3.If(z3.And(I == p + k, k > 0), NO, o))))
            return out

        def nm(lv):
            if not lv.modifies(SUB):
                raise Unsupported("another loop")
            return names(lv.f, me(lv.ctx()))

        def oth(lv):
            if not lv.modifies(SUB):
                raise Unsupported("another loop")
            m = me(lv.ctx())
            return z3.ForAll([X_], z3.Implies(X_ != m, z3.Select(lv.f(SUB), X_) == z3.Select(lv.f0(SUB), X_)))
        return [("moved %s so far%s" % ("up" if up else "down", "/%d" % j if j else ""), lambda lv, j=j, up=up: moved(lv, j, up)) for up in (True, False) for j in range(4)] + [("names", nm), ("other lists", oth)]

    def up_post(s):
        m, p, n = me(s), s.arg("pos"), ln(s, me(s))
        return [("elements from the position on move up", z3.ForAll([I], sub(s.f1, m, I) == z3.If(z3.And(I > p, I < n), sub(s.f, m, I - 1), z3.If(z3.And(I == p, p < n - 1), NO, sub(s.f, m, I))))),
                ("names are positions", names(s.f1, m)), others(s, m)]
    out.append(Contract(NS + "shuffle_symbols_upward_from", "Namespace", params={"pos": TInt}, invs=loops,
                        requires=lambda s: reqs(lambda s: ln(s, me(s)) - 1)(s) + [("a position", z3.And(0 <= s.arg("pos"), s.arg("pos") < ln(s, me(s))))],
                        ensures=up_post, modifies=MODS))

    def down_post(s):
        m, p, n = me(s), s.arg("pos"), ln(s, me(s))
        return [("elements after the position move down", z3.ForAll([I], sub(s.f1, m, I) == z3.If(z3.And(p <= I, I < n), sub(s.f, m, I + 1), z3.If(z3.And(I == n, p < n), NO, sub(s.f, m, I))))),
                ("names are positions", names(s.f1, m)), others(s, m)]
    out.append(Contract(NS + "_shuffle_symbols_downward_to", "Namespace", params={"pos": TInt}, invs=loops,
                        requires=lambda s: reqs(lambda s: ln(s, me(s)) + 1)(s) + [("a removed position", z3.And(0 <= s.arg("pos"), s.arg("pos") <= ln(s, me(s)), ISN(sub(s.f, me(s), s.arg("pos")))))],
                        ensures=down_post, modifies=MODS))

    # deletion of one element, by position from either end
    def del_req(s):
        n, i = ln(s, me(s)) + 1, s.arg("name")
        return reqs(lambda s: n)(s) + [("a position in the list before the deletion", z3.And(-n <= i, i < n))]

    def del_post(s):
        m, n = me(s), ln(s, me(s)) + 1
        p = z3.If(s.arg("name") < 0, s.arg("name") + n, s.arg("name"))
        return [("elements after the deleted one move down", z3.ForAll([I], sub(s.f1, m, I) == z3.If(z3.And(p <= I, I < n), sub(s.f, m, I + 1), sub(s.f, m, I)))),
                ("names are positions", names(s.f1, m)), others(s, m)]
    out.append(Contract(NS + "delete_symbol_for_name", "Namespace", "of an element", params={"name": TInt, "is_subscript": Sc(TBool, z3.BoolVal(True))},
                        requires=del_req, ensures=del_post, modifies=MODS))

    # lookup
    def look_post(s):
        m, i, n = me(s), s.arg("name"), ln(s, me(s))
        return [("the symbol at that position, counted from either end",
                 s.result == z3.If(i >= 0, held(s.f, m, i), held(s.f, m, i + n)))]
    held = lambda f, m, i: z3.If(ISS(sub(f, m, i)), VAL(sub(f, m, i)), NULL)
    out.append(Contract(NS + "_lookup_subscript", "Namespace", params={"name": TInt}, ret=TRef("Symbol", True), requires=reqs(lambda s: ln(s, me(s))), ensures=look_post))

    # recording an element
    ST = w.enum_type(w.prog, "SymbolType")
    w.declare("Symbol", symbol_type=ST, symbol_node=TAny, is_subscript=TBool, containing_scope=TRef("Scope", True))
    w.globs["Symbol.NULL"] = TAny
    SUBSC = Sc(ST, ST.consts["SUBSCRIPT"])

    def new_symbol(eng, st, args, kw):
        """a new symbol is none of those recorded so far and carries the given name and object (constructor otherwise outside the model)"""
        eng.used_contracts.add("opaque:Symbol(...)")
        r, n = T.fresh("new_symbol", T.Ref), z3.Const("n!s", T.Ref)
        st.define(r != NULL)
        tab = eng.heap_get(st, SUB)
        st.define(z3.ForAll([n, I], z3.Not(z3.And(ISS(z3.Select(z3.Select(tab, n), I)), VAL(z3.Select(z3.Select(tab, n), I)) == r))))
        a = dict(zip(("name", "symbol_type", "obj", "containing_scope"), args), **kw)
        for k, ty in (("name", TInt), ("symbol_type", ST), ("obj", TAny)):
            f = "Symbol." + k
            st.heap[f] = z3.Store(eng.heap_get(st, f), r, eng.to_z(st, a[k], ty))
        st.heap["Symbol.is_subscript"] = z3.Store(eng.heap_get(st, "Symbol.is_subscript"), r, eng.to_z(st, a["symbol_type"], ST) == ST.consts["SUBSCRIPT"])
        return [(st, Sc(SYM, r))]
    w.constructors["Symbol"] = new_symbol
    opaque(w, "Symbol.update_stmt_node")
    out.append(Contract("ipyflow.data_model.symbol.Symbol.update_obj_ref", "Symbol", params={"obj": TAny, "refresh_cached": TBool}, trusted=True,
                        ensures=lambda s: [("only this symbol's object", s.f1(SOBJ) == z3.Store(s.f(SOBJ), me(s), s.arg("obj")))], modifies=(SOBJ,),
                        note="assumed to replace only this symbol's object"))

    def effect(s, m, i, obj):
        """the symbol at position i (from either end) describes obj; all others are kept"""
        n = ln(s, m)
        p = z3.If(i < 0, i + n, i)
        x = VAL(sub(s.f1, m, p))
        return [("the position has a symbol for the object", z3.And(ISS(sub(s.f1, m, p)), x != NULL, z3.Select(s.f1(SOBJ), x) == obj)),
                ("a symbol already there is kept", z3.Implies(ISS(sub(s.f, m, p)), sub(s.f1, m, p) == sub(s.f, m, p))),
                ("a new symbol is new", z3.Implies(z3.Not(ISS(sub(s.f, m, p))), z3.ForAll([X_, I], z3.Implies(ISS(sub(s.f, X_, I)), VAL(sub(s.f, X_, I)) != x)))),
                ("other positions keep their symbols", z3.ForAll([I], z3.Implies(I != p, sub(s.f1, m, I) == sub(s.f, m, I)))),
                ("other symbols keep their objects", z3.ForAll([X_], z3.Implies(X_ != x, z3.Select(s.f1(SOBJ), X_) == z3.Select(s.f(SOBJ), X_)))),
                ("names are positions", names(s.f1, m)), others(s, m), ("subscripts", z3.ForAll([I], z3.Implies(ISS(sub(s.f1, m, I)), z3.Select(s.f1("Symbol.is_subscript"), VAL(sub(s.f1, m, I))))))]

    def subscr(s, m):
        return z3.ForAll([I], z3.Implies(ISS(sub(s.f, m, I)), z3.Select(s.f("Symbol.is_subscript"), VAL(sub(s.f, m, I)))))

    def ins_req(s, m, i):
        n = ln(s, m)
        return [("names are positions", names(s.f, m)), ("within the list", range_(s.f, m, n)), ("a position", z3.And(-n <= i, i < n)), ("subscripts", subscr(s, m))]
    UMODS = (SUB, NAME, SOBJ, "Symbol.containing_scope", "Symbol.symbol_type", "Symbol.symbol_node", "Symbol.is_subscript")
    out.append(Contract("ipyflow.data_model.scope.Scope._upsert_symbol_for_name_inner", "Namespace", "of an element",
                        params={"name": TInt, "obj": TAny, "deps": TSet(SYM), "symbol_type": SUBSC, "stmt_node": TAny, "symbol_node": TAny, "implicit": TBool},
                        requires=lambda s: ins_req(s, me(s), s.arg("name")), ensures=lambda s: effect(s, me(s), s.arg("name"), s.arg("obj")),
                        modifies=UMODS + ("arg:deps",)))
    
    # the whole edit: symbols that described their elements before still do afterwards
    out.append(Contract("ipyflow.data_model.scope.Scope.upsert_symbol_for_name", "Namespace", "of an element", trusted=True,
                        params={"name": TInt, "obj": TAny, "deps": TSet(SYM), "stmt_node": TAny, "overwrite": TBool, "is_subscript": Sc(TBool, z3.BoolVal(True)), "propagate": TBool}, ret=SYM,
                        requires=lambda s: ins_req(s, me(s), s.arg("name")), ensures=lambda s: effect(s, me(s), s.arg("name"), s.arg("obj")), modifies=UMODS,
                        note="assumed to change symbol tables exactly as _upsert_symbol_for_name_inner (under contract), which it calls once"))
    ns = lambda s: s.arg("namespace")

    def describes(f, m, elem, n):
        return z3.ForAll([I], z3.Implies(ISS(sub(f, m, I)), z3.And(0 <= I, I < n, z3.Select(f(SOBJ), VAL(sub(f, m, I))) == elem(I))))

    def before(n):
        return lambda s: [("names are positions", names(s.f, ns(s))), ("within the list", range_(s.f, ns(s), n(s))), ("subscripts", subscr(s, ns(s))),
                          ("symbols describe their elements", describes(s.f, ns(s), OLD, n(s)))]
    after = lambda s: [("symbols describe their elements", describes(s.f1, ns(s), lambda i: at(s, ns(s), i), ln(s, ns(s)))), ("names are positions", names(s.f1, ns(s)))]
    oldp = lambda s: opt_int(s, "remove_pos")
    io = T.opt_parts(z3.IntSort())

    def opt_int(s, f):
        return z3.Select(s.f("%s.%s" % (s.selfname, f)), me(s))
    TARGS = TList(TTup([("obj", TAny), ("syms", TSet(SYM))], "Arg"))
    w.declare("ListInsert", insert_pos=TOpt(TInt), args=TARGS, stmt_node=TAny)
    for c in ("ListRemove", "ListPop"):
        w.declare(c, remove_pos=TOpt(TInt))
    for c in ("ListExtend", "ListAppend"):
        w.declare(c, orig_len=TInt, arg_syms=TSet(SYM))
    N1 = TRef("Namespace")
    pm = {"namespace": N1}
    for c in ("ListRemove", "ListPop"):
        def rreq(s, c=c):
            p, n = z3.Select(s.f(c + ".remove_pos"), me(s)), ln(s, ns(s)) + 1
            q = z3.If(io[4](p) < 0, io[4](p) + n, io[4](p))
            return before(lambda s: n)(s) + [("one element was removed there", z3.And(io[3](p), 0 <= q, q < n, z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < n - 1), at(s, ns(s), I) == OLD(z3.If(I < q, I, I + 1))))))]
        out.append(Contract(LH + "ListRemove.handle_namespace", c, params=pm, requires=rreq, ensures=after, modifies=MODS))

    def ireq(s):
        p, n = z3.Select(s.f("ListInsert.insert_pos"), me(s)), ln(s, ns(s)) - 1
        q = z3.If(io[4](p) < 0, io[4](p) + n, io[4](p))
        q = z3.If(q < 0, 0, z3.If(q > n, n, q))
        return before(lambda s: n)(s) + [("both arguments are known", TARGS.dt()[2](z3.Select(s.f("ListInsert.args"), me(s))) >= 2), ("one element was inserted there", z3.And(n >= 0, io[3](p), z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < n + 1, I != q), at(s, ns(s), I) == OLD(z3.If(I < q, I, I - 1))))))]
    out.append(Contract(LH + "ListInsert.handle_namespace", "ListInsert", params=pm, requires=ireq, ensures=after, modifies=UMODS + MODS))

    def ext_inv(lv, CUR):
        if lv.kt is not TInt:
            raise Unsupported("another loop")
        s = lv.ctx()
        m, k = ns(s), z3.Select(s.f(CUR + ".orig_len"), me(s)) + lv.idx
        return [z3.ForAll([I], z3.Implies(ISS(sub(lv.f, m, I)), z3.And(0 <= I, I < k, VAL(sub(lv.f, m, I)) != NULL, z3.Select(lv.f("Symbol.is_subscript"), VAL(sub(lv.f, m, I))),
                z3.Select(lv.f(SOBJ), VAL(sub(lv.f, m, I))) == at(s, m, I)))), names(lv.f, m)]
    for CUR in ("ListExtend", "ListAppend"):
        def ereq(s, c=CUR):
            n = z3.Select(s.f(c + ".orig_len"), me(s))
            return before(lambda s: n)(s) + [("elements were appended", z3.And(0 <= n, n <= ln(s, ns(s)), z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < n), at(s, ns(s), I) == OLD(I)))))]
        def invs(c=CUR):
            return [("appended so far", lambda lv: ext_inv(lv, c))]
        out.append(Contract(LH + "ListExtend.handle_namespace", CUR, params=pm, requires=ereq, ensures=after, invs=invs, modifies=UMODS + MODS))

    # what the call was given: lengths and positions are read off the list before it changes
    TLA = TList(TAny)
    for c in ("ListExtend", "ListAppend", "ListRemove"):
        w.declare(c, caller_self=TLA)
    ln0 = lambda s, c: TLA.dt()[2](z3.Select(s.f(c + ".caller_self"), me(s)))
    at0 = lambda s, c, i: z3.Select(TLA.dt()[3](z3.Select(s.f(c + ".caller_self"), me(s))), i)
    for c in ("ListExtend", "ListAppend"):
        out.append(Contract(LH + "ListExtend.initialize", c, modifies=(c + ".orig_len",),
                            ensures=lambda s, c=c: [("the length before the call", z3.Select(s.f1(c + ".orig_len"), me(s)) == ln0(s, c))]))

    def removed(s, c="ListRemove"):
        old, new = z3.Select(s.f(c + ".remove_pos"), me(s)), z3.Select(s.f1(c + ".remove_pos"), me(s))
        hit = lambda i: T.SAME_ELEMENT(at0(s, c, i), s.arg("remove_val"))
        first = z3.And(io[3](new), 0 <= io[4](new), io[4](new) < ln0(s, c), hit(io[4](new)), z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < io[4](new)), z3.Not(hit(I)))))
        return [("the first element that equals the argument, if there is one", z3.Or(first, z3.And(new == old, z3.ForAll([I], z3.Implies(z3.And(0 <= I, I < ln0(s, c)), z3.Not(hit(I)))))))]
    out.append(Contract(LH + "ListRemove.process_arg", "ListRemove", params={"remove_val": TAny}, modifies=("ListRemove.remove_pos",), ensures=removed))

    def given(c, f, arg, keep):
        def e(s):
            old, new = z3.Select(s.f(c + f), me(s)), z3.Select(s.f1(c + f), me(s))
            took = z3.And(io[3](new), io[4](new) == s.arg(arg))
            return [("the position that was given", z3.If(io[3](old), new == old, took) if keep else took)]
        return e
    out.append(Contract(LH + "ListPop.process_arg", "ListPop", params={"pop_pos": TInt}, modifies=("ListPop.remove_pos",), ensures=given("ListPop", ".remove_pos", "pop_pos", False)))
    out.append(Contract(LH + "ListInsert.process_arg", "ListInsert", params={"insert_pos": TInt}, modifies=("ListInsert.insert_pos",), ensures=given("ListInsert", ".insert_pos", "insert_pos", True)))
    return out
