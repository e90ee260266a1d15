"""C17 cell versions: one counter per execution, lookups by id and counter, history, tags."""
import z3

from pyvc import types as T
from pyvc.engine import NONE, Meta, Sc
from pyvc.types import NULL, TAny, TBool, TDict, TId, TInt, TList, TOpt, TRef, TSet, TStr
from pyvc.program import Unsupported
from pyvc.verify import Contract

from .c01 import G as SLICE
from .ipyworld import SETTINGS, SYM, TS, opaque, ts_cell

CELL = "ipyflow.data_model.cell.Cell."
CUR, BYC, CTR, TAG, RTAG = ("Cell._current_cell_by_cell_id", "Cell._cell_by_cell_ctr", "Cell._cell_counter", "Cell._cells_by_tag", "Cell._reactive_cells_by_tag")
_, _, _, HAS, GET = T.opt_parts(T.Ref)
K, X, N, S = z3.Const("k!v", T.IdSort), z3.Const("x!v", T.Ref), z3.Int("n!v"), z3.Const("t!v", TStr.sort())
HIST, TAGS = TList(TInt), TList(TStr)


def tagged(lst, t):
    i = z3.Int("i!t")
    _, _, ln, at = TAGS.dt()
    return z3.Exists([i], z3.And(0 <= i, i < ln(lst), z3.Select(at(lst), i) == t))


def declare(w):
    w.allocatable.add("Cell")
    for f in ("static", "dynamic"):
        w.shares.append(("Cell.raw_%s_children" % f,) * 2)
    w.declare("Cell", last_check_content=TOpt(TStr), last_check_cell_ctr=TOpt(TInt), last_check_result=TAny, last_ast_content=TOpt(TStr),
              override_live_refs=TAny, override_dead_refs=TAny, _cached_ast=TAny, _cached_typecheck_result=TOpt(TBool), _extra_stmt=TAny,
              tags=TList(TStr))
    w.declare("NotebookFlow", settings=TRef("Settings"))
    w.declare("Settings", mark_typecheck_failures_unsafe=TBool)
    # sets are modelled by identity, so no hashed cell may change its hash
    w.guards["Cell.cell_id"] = ("a cell changes its hash only while it is in no lookup set", lambda eng, st, x:
                             z3.ForAll([S], z3.Not(z3.Select(z3.Select(eng.glob_get(st, TAG), S), x))))
    ipy = z3.Const("IPYTHON_COUNTER", z3.IntSort())
    w.names[("ipyflow.data_model.cell", "ipy_cell_counter")] = Meta("intrinsic", fn=lambda e, st, a, k: [(st, Sc(TInt, ipy))], name="ipy_cell_counter")
    return ipy


def contracts(w):
    ipy = declare(w)
    fld = lambda s, n, x, post=False: z3.Select((s.f1 if post else s.f)("Cell." + n), x)

    def tables(s, post=False):
        g = s.g1 if post else s.g
        al = g("$alloc")
        cur, byc = g(CUR), g(BYC)
        return [
            ("an id is looked up to a cell with that id", z3.ForAll([K], z3.Implies(HAS(z3.Select(cur, K)), z3.And(
                fld(s, "cell_id", GET(z3.Select(cur, K)), post) == K, GET(z3.Select(cur, K)) != NULL, z3.Select(al, GET(z3.Select(cur, K))))))),
            ("a counter is looked up to the cell executed then", z3.ForAll([N], z3.Implies(HAS(z3.Select(byc, N)), z3.And(
                fld(s, "cell_ctr", GET(z3.Select(byc, N)), post) == N, GET(z3.Select(byc, N)) != NULL, z3.Select(al, GET(z3.Select(byc, N))), N <= g(CTR), N > -1)))),
            ("the version found by id is the latest one", z3.ForAll([N, K], z3.Implies(z3.And(HAS(z3.Select(byc, N)), fld(s, "cell_id", GET(z3.Select(byc, N)), post) == K),
                z3.And(HAS(z3.Select(cur, K)), fld(s, "cell_ctr", GET(z3.Select(cur, K)), post) >= N)))),
            ("only cells carrying a tag are found by it", z3.ForAll([S, X], z3.Implies(z3.Select(z3.Select(g(TAG), S), X), z3.And(z3.Select(al, X), tagged(fld(s, "tags", X, post), S))))),
            ("no version is newer than the counter", z3.And(g(CTR) >= 0, z3.ForAll([K], z3.Implies(HAS(z3.Select(cur, K)), fld(s, "cell_ctr", GET(z3.Select(cur, K)), post) <= g(CTR))))),
        ]

    def req(s):
        bump = s.arg("bump_cell_counter")
        return tables(s) + [
            ("the shell agrees about the counter", z3.Or(z3.Not(s.arg("validate_ipython_counter")), z3.Not(bump), ipy == s.g(CTR) + 1)),
            ("cells that are not run are new", z3.Or(bump, z3.Not(HAS(z3.Select(s.g(CUR), s.arg("cell_id")))))),
        ]

    def post(s):
        r, bump, i = s.result, s.arg("bump_cell_counter"), s.arg("cell_id")
        old = z3.Select(s.g(CUR), i)
        ctr = z3.If(bump, s.g(CTR) + 1, -1)
        h, h0 = fld(s, "history", r, True), fld(s, "history", GET(old))
        ln, at = HIST.dt()[2], HIST.dt()[3]
        return tables(s, True) + [
            ("a new version with the next counter", z3.And(z3.Not(z3.Select(s.g("$alloc"), r)), fld(s, "cell_id", r, True) == i, fld(s, "cell_ctr", r, True) == ctr,
                s.g1(CTR) == z3.If(bump, s.g(CTR) + 1, s.g(CTR)), fld(s, "current_content", r, True) == s.arg("content"))),
            ("it follows the previous version of the cell", fld(s, "prev_cell", r, True) == z3.If(HAS(old), GET(old), NULL)),
            ("found by id", z3.ForAll([K], z3.Select(s.g1(CUR), K) == z3.If(K == i, T.opt_parts(T.Ref)[1](r), z3.Select(s.g(CUR), K)))),
            ("found by counter", z3.ForAll([N], z3.Select(s.g1(BYC), N) == z3.If(z3.And(bump, N == ctr), T.opt_parts(T.Ref)[1](r), z3.Select(s.g(BYC), N)))),
            ("the history gets the new counter", z3.And(
                ln(h) == z3.If(HAS(old), ln(h0), 0) + z3.If(bump, 1, 0),
                z3.Implies(bump, z3.Select(at(h), ln(h) - 1) == ctr),
                z3.ForAll([N], z3.Implies(z3.And(HAS(old), 0 <= N, N < ln(h0)), z3.Select(at(h), N) == z3.Select(at(h0), N))))),
            ("tags are kept and added", z3.ForAll([S], tagged(fld(s, "tags", r, True), S) == z3.Or(tagged(s.arg("tags"), S), z3.And(HAS(old), tagged(fld(s, "tags", GET(old)), S))))),
            ("the new version replaces the previous one under each of its tags", z3.ForAll([S, X], z3.Select(z3.Select(s.g1(TAG), S), X) == z3.If(X == r, tagged(fld(s, "tags", r, True), S),
                z3.And(z3.Select(z3.Select(s.g(TAG), S), X), z3.Not(z3.And(HAS(old), X == GET(old))))))),
            ("other versions stay as they were", z3.ForAll([X], z3.Implies(X != r, z3.And(*[fld(s, n, X, True) == fld(s, n, X) for n in ("cell_id", "cell_ctr", "prev_cell", "history", "tags", "current_content")])))),
        ]
    def invs():
        def moved(add):
            def inv(lv):
                if lv.kt is not TInt:
                    raise Unsupported("another loop")
                i = z3.Int("i!l")
                el = lv.val(lv.mk(lv.st, i))
                if el.sort() != TStr.sort():
                    raise Unsupported("another loop")
                hit = lambda c: z3.And(X == c, z3.Exists([i], z3.And(lv.seen(i), lv.mem(i), el == S)))
                s = lv.ctx()
                prev = z3.Select(s.g(CUR), s.arg("cell_id"))
                cs = [c for c in lv.locals_of(TRef("Cell"), lv.entry).values()]
                was, now = z3.Select(z3.Select(lv.g0(TAG), S), X), z3.Select(z3.Select(lv.g(TAG), S), X)
                if not add:
                    return z3.ForAll([S, X], now == z3.And(was, z3.Not(hit(GET(prev)))))
                new = [c for c in cs if c.decl().name().startswith("new_")]
                if not new:
                    raise Unsupported("no new cell")
                return [z3.ForAll([S, X], now == z3.Or(was, hit(c))) for c in new]
            return inv
        return [("the previous version leaves its tags", moved(False)), ("the new version joins its tags", moved(True))]
    return lookups(w) + rename(w, tables) + [Contract(CELL + "create_and_track", "Cell", "", ret=TRef("Cell"),
                     params={"cell_id": TId, "content": TStr, "tags": TAGS, "bump_cell_counter": TBool, "validate_ipython_counter": TBool, "placeholder_id": TBool, "memoized_output_level": TOpt(TAny)},
                     requires=req, ensures=post, invs=invs, modifies=(CUR, BYC, CTR, TAG, RTAG, "$alloc") + tuple(k for k in w.fields if k.startswith("Cell.")))]


def rename(w, tables):
    """Giving a cell another id (a placeholder becomes the id the interface uses)."""
    IN = z3.Function("version_of", T.Ref, T.Ref, z3.BoolSort())
    Y, P = z3.Const("y!v", T.Ref), z3.Int("p!v")
    INTID = T.opt_parts(T.IdSort)
    fld = lambda s, n, x, post=False: z3.Select((s.f1 if post else s.f)("Cell." + n), x)
    prev = lambda s, x: fld(s, "prev_cell", x)
    POS, BYP = "Cell._position_by_cell_id", "Cell._cell_id_by_position"

    def intag(tab, t, x):
        return z3.Select(z3.Select(tab, t), x)

    none, some, isn, HASE, GETE = T.opt_parts(TSet(SYM).sort())
    VS = {c: "Cell.raw_%s_" % c.lower() for c in ("DYNAMIC", "STATIC")}
    SC = w.enum_type(w.prog, "SlicingContext")
    MS = "MutableDataflowSettings."

    def enabled(s, c):
        return z3.Select(s.f(MS + "%s_slicing_enabled" % c.lower()), SETTINGS)

    def key(H, x, k):
        return HASE(z3.Select(z3.Select(H, x), k))

    def edge(H, x, k, y):
        d = z3.Select(z3.Select(H, x), k)
        return z3.And(HASE(d), z3.Select(GETE(d), y))

    def renamed(now, was, x, hit, old, new):
        return z3.If(hit, edge(now, x, K, Y) == z3.If(K == new, edge(was, x, old, Y), z3.And(K != old, edge(was, x, K, Y))), z3.Select(now, x) == z3.Select(was, x))

    def latest(cur, ids, x):
        c = z3.Select(cur, z3.Select(ids, x))
        return z3.And(HAS(c), GET(c) == x)

    def listed(cur, ids, x):
        c = z3.Select(cur, z3.Select(ids, x))
        return z3.And(HAS(c), IN(GET(c), x))

    def rec(s):
        return z3.And(z3.ForAll([X, Y], z3.Implies(X == Y, IN(X, Y)), patterns=[IN(X, Y)]),
                      z3.ForAll([X, Y], z3.Implies(z3.And(prev(s, X) != NULL, IN(prev(s, X), Y)), IN(X, Y)), patterns=[IN(prev(s, X), Y)]),
                      z3.ForAll([X, Y], z3.Implies(IN(X, Y), z3.Or(X == Y, z3.And(prev(s, X) != NULL, IN(prev(s, X), Y)))), patterns=[z3.MultiPattern(IN(X, Y), prev(s, X))]),
                      z3.ForAll([X, Y], z3.Implies(z3.And(IN(X, Y), prev(s, Y) != NULL), IN(X, prev(s, Y))), patterns=[z3.MultiPattern(IN(X, Y), prev(s, Y))]))

    def req(s):
        me, new, up = s.arg("self"), s.arg("new_id"), s.arg("update_edges")
        old = fld(s, "cell_id", me)
        return [(n, z3.Implies(up, z)) for n, z in tables(s)] + [
            ("the versions of a cell", rec(s)),
            ("no cell is an earlier version of itself", z3.ForAll([X, Y], z3.Implies(z3.And(prev(s, X) != NULL, IN(prev(s, X), Y)), X != Y), patterns=[IN(prev(s, X), Y)])),
            ("found by its own tags only", z3.ForAll([S, Y], z3.Implies(intag(s.g(TAG), S, Y), tagged(fld(s, "tags", Y), S)))),
            ("all versions have the id", z3.ForAll([Y], z3.Implies(IN(me, Y), fld(s, "cell_id", Y) == old))),
            ("renames the latest version", z3.Implies(up, z3.And(HAS(z3.Select(s.g(CUR), old)), GET(z3.Select(s.g(CUR), old)) == me))),
            ("to an unused id", z3.Implies(up, z3.And(new != old, z3.Not(HAS(z3.Select(s.g(CUR), new))), z3.Not(INTID_has(s, new)),
                z3.ForAll([S], z3.Not(intag(s.g(RTAG), S, new)))))),
            ("versions share their id", z3.Implies(up, z3.ForAll([K, Y], z3.Implies(z3.And(HAS(z3.Select(s.g(CUR), K)), IN(GET(z3.Select(s.g(CUR), K)), Y)), fld(s, "cell_id", Y) == K)))),
        ] + [("neighbours are known and others (%s)" % c.lower(), z3.Implies(up, z3.ForAll([K], z3.Implies(z3.Or(key(s.f(v + "parents"), me, K), key(s.f(v + "children"), me, K)),
              z3.And(K != old, HAS(z3.Select(s.g(CUR), K))))))) for c, v in VS.items()] + [
            ("no edges to the new id (%s)" % c.lower(), z3.Implies(up, z3.ForAll([X], z3.And(z3.Not(key(s.f(v + "parents"), X, new)), z3.Not(key(s.f(v + "children"), X, new)))))) for c, v in VS.items()] + [
            ("executed versions are versions of the latest one", z3.Implies(up, z3.ForAll([N], z3.Implies(z3.And(HAS(z3.Select(s.g(BYC), N)), fld(s, "cell_id", GET(z3.Select(s.g(BYC), N))) == old), IN(me, GET(z3.Select(s.g(BYC), N))))))),
        ]

    def INTID_has(s, k):
        return T.opt_parts(z3.IntSort())[3](z3.Select(s.g(POS), k))

    def post(s):
        me, new, up = s.arg("self"), s.arg("new_id"), s.arg("update_edges")
        old = fld(s, "cell_id", me)
        O = T.opt_parts(z3.IntSort())
        I = T.opt_parts(T.IdSort)
        byp0, byp1, pos0, pos1 = s.g(BYP), s.g1(BYP), s.g(POS), s.g1(POS)
        moved = z3.And(up, INTID_has(s, old), O[4](z3.Select(pos0, old)) == P, I[3](z3.Select(byp0, P)), I[4](z3.Select(byp0, P)) == old)
        return [(n, z3.Implies(up, z)) for n, z in tables(s, True)] + [
            ("all versions get the id, no other cell does", z3.ForAll([Y], fld(s, "cell_id", Y, True) == z3.If(IN(me, Y), new, fld(s, "cell_id", Y)))),
            ("found by the new id only", z3.ForAll([K], z3.Select(s.g1(CUR), K) == z3.If(z3.Not(up), z3.Select(s.g(CUR), K), z3.If(K == old, T.opt_parts(T.Ref)[0],
                z3.If(K == new, T.opt_parts(T.Ref)[1](me), z3.Select(s.g(CUR), K)))))),
            ("the position moves to the new id", z3.ForAll([K], z3.Select(pos1, K) == z3.If(z3.And(up, INTID_has(s, old), K == new), z3.Select(pos0, old),
                z3.If(z3.And(up, K == old), O[0], z3.Select(pos0, K))))),
            ("the position finds the new id", z3.ForAll([P], z3.Select(byp1, P) == z3.If(moved, I[1](new), z3.Select(byp0, P)))),
            ("still found by the same tags", z3.ForAll([S, Y], intag(s.g1(TAG), S, Y) == intag(s.g(TAG), S, Y))),
            ("reactive tags move to the new id", z3.ForAll([S, K], intag(s.g1(RTAG), S, K) == z3.If(z3.Not(up), intag(s.g(RTAG), S, K),
                z3.If(K == new, intag(s.g(RTAG), S, old), z3.And(K != old, intag(s.g(RTAG), S, K)))))),
        ] + [("parents list the new id (%s)" % c.lower(), z3.ForAll([X, K, Y], renamed(s.f1(v + "children"), s.f(v + "children"), X,
              z3.And(up, enabled(s, c), latest(s.g(CUR), s.f("Cell.cell_id"), X), key(s.f(v + "parents"), me, fld(s, "cell_id", X))), old, new))) for c, v in VS.items()] + [
             ("all versions of children list the new id (%s)" % c.lower(), z3.ForAll([X, K, Y], renamed(s.f1(v + "parents"), s.f(v + "parents"), X,
              z3.And(up, enabled(s, c), listed(s.g(CUR), s.f("Cell.cell_id"), X), key(s.f(v + "children"), me, fld(s, "cell_id", X))), old, new))) for c, v in VS.items()]
    def invs():
        def over(lv, ty):
            if (ty is TInt) != (lv.kt is TInt) or lv.kt is None:
                raise Unsupported("another loop")

        def tags(sign):
            def inv(lv):
                over(lv, TInt)
                s, i, out = lv.ctx(), z3.Int("i!l"), []
                me = s.arg("self")
                for l in lv.locals_of(TAGS).values():
                    was, now = intag(lv.g0(TAG), S, Y), intag(lv.g(TAG), S, Y)
                    hit = z3.And(Y == me, z3.Exists([i], z3.And(0 <= i, lv.seen(i), i < TAGS.dt()[2](l), z3.Select(TAGS.dt()[3](l), i) == S)))
                    out.append(z3.ForAll([S, Y], now == (z3.Or(was, hit) if sign else z3.And(was, z3.Not(hit)))))
                return out
            return inv

        def rtags(lv):
            if lv.kt is None or lv.kt.name != TStr.name:
                raise Unsupported("another loop")
            s = lv.ctx()
            (new, os), out = olds(lv), []
            for old in os:
                was, now = lambda k: intag(lv.g0(RTAG), S, k), intag(lv.g(RTAG), S, K)
                out.append(z3.ForAll([S, K], now == z3.If(lv.seen(S), z3.If(K == new, was(old), z3.And(K != old, was(K))), was(K))))
            return out

        def olds(lv):
            s = lv.ctx()
            return s.arg("new_id"), [fld(s, "cell_id", s.arg("self"))]

        def neighbours(side, of):
            def inv(lv):
                if lv.kt is not TId:
                    raise Unsupported("another loop")
                new, os = olds(lv)
                out = []
                for old in os:
                    for c, v in VS.items():
                        if not lv.modifies(v + side):
                            continue
                        ids = lv.f("Cell.cell_id")
                        out.append(z3.ForAll([X, K, Y], renamed(lv.f(v + side), lv.f0(v + side), X, z3.And(of(lv.g(CUR), ids, X), lv.seen(z3.Select(ids, X)),
                                   lv.g(SLICE) == w.globs[SLICE].some(SC.consts[c])), old, new)))
                if not out:
                    raise Unsupported("another loop")
                return out
            return inv

        def versions(lv):
            if lv.kt is not None:
                raise Unsupported("another loop")
            new, os = olds(lv)
            out = []
            now, was = lv.locals_of(TRef("Cell", True)), {**lv.locals_of(TRef("Cell", True), lv.entry), **lv.locals_of(TRef("Cell"), lv.entry)}
            for n, x in now.items():
                if n not in was or not lv.assigns(n):
                    continue
                o = was[n]
                out.append(z3.Or(x == NULL, IN(o, x)))
                for old in os:
                    for c, v in VS.items():
                        out.append(z3.ForAll([X, K, Y], renamed(lv.f(v + "parents"), lv.f0(v + "parents"), X, z3.And(IN(o, X), z3.Not(z3.And(x != NULL, IN(x, X))),
                                   lv.g(SLICE) == w.globs[SLICE].some(SC.consts[c])), old, new)))
            if not out:
                raise Unsupported("another loop")
            return out
        return [("parents", neighbours("children", latest)), ("children", neighbours("parents", listed)), ("versions of a child", versions), ("tags left", tags(False)), ("tags found again", tags(True)), ("reactive tags moved", rtags)]
    EDG = tuple("Cell.raw_%s_%s" % (a, b) for a in ("static", "dynamic") for b in ("parents", "children"))
    mods = (CUR, TAG, RTAG, POS, BYP, "Cell.cell_id", "Cell._placeholder_id") + EDG
    out = [Contract(CELL + "update_id", "Cell", "earlier versions", params={"new_id": TId, "update_edges": Sc(TBool, z3.BoolVal(False))}, requires=req, ensures=post, invs=invs,
                    modifies=(TAG, "Cell.cell_id", "Cell._placeholder_id"))]
    for dyn in (True, False):
        for sta in (True, False):
            def creq(s, dyn=dyn, sta=sta):
                return req(s) + [("dynamic", enabled(s, "DYNAMIC") == dyn), ("static", enabled(s, "STATIC") == sta)]
            out.append(Contract(CELL + "update_id", "Cell", "latest version%s%s" % (", dynamic" if dyn else "", ", static" if sta else ""), use=False,
                                params={"new_id": TId, "update_edges": Sc(TBool, z3.BoolVal(True))}, requires=creq, ensures=post, invs=invs, modifies=mods))
    return out


def lookups(w):
    """the functions through which the tables are read: exactly the entry asked for"""
    CELLS, TABN = TRef("Cell"), T.opt_parts(z3.IntSort())
    P = z3.Int("p!v")
    pos = lambda s, k: z3.Select(s.g("Cell._position_by_cell_id"), k)
    by_id = lambda s, k: z3.Select(s.g(CUR), k)
    by_n = lambda s, n: z3.Select(s.g(BYC), n)
    me = lambda s: s.arg("self")
    f = lambda s, n: z3.Select(s.f("Cell." + n), me(s))
    orn = lambda o: z3.If(HAS(o), GET(o), NULL)
    known = lambda s: [("cells looked up exist", z3.And(z3.ForAll([K], z3.Implies(HAS(by_id(s, K)), GET(by_id(s, K)) != NULL)), z3.ForAll([N], z3.Implies(HAS(by_n(s, N)), GET(by_n(s, N)) != NULL))))]
    out = []

    def c(name, params, ret, post, raises=None, **kw):
        case = kw.pop("case", "")
        out.append(Contract(CELL + name, "Cell", case, params=params, ret=ret, requires=kw.pop("requires", known), ensures=lambda s: [("exactly the entry asked for", post(s))], raises=raises, use=False, **kw))
    ID, NO = {"cell_id": TId}, TRef("Cell", True)
    c("from_id", ID, CELLS, lambda s: s.result == GET(by_id(s, s.arg("cell_id"))), {"KeyError": lambda s: z3.Not(HAS(by_id(s, s.arg("cell_id"))))})
    c("from_id_nullable", ID, NO, lambda s: s.result == orn(by_id(s, s.arg("cell_id"))))
    c("has_id", ID, TBool, lambda s: s.result == HAS(by_id(s, s.arg("cell_id"))))
    for nm, par, get in (("at_counter", {"ctr": TInt}, lambda s: s.arg("ctr")), ("from_counter", {"ctr": TInt}, lambda s: s.arg("ctr")),
                         ("at_timestamp", {"ts": TInt, "stmt_num": Sc(T.TNone, None)}, lambda s: s.arg("ts")), ("at_timestamp", {"ts": TS, "stmt_num": Sc(T.TNone, None)}, lambda s: ts_cell(s.arg("ts")))):
        c(nm, par, CELLS, lambda s, get=get: s.result == GET(by_n(s, get(s))), {"KeyError": lambda s, get=get: z3.Not(HAS(by_n(s, get(s))))}, case="" if nm != "at_timestamp" else par["ts"].name)
    c("exec_counter", {}, TInt, lambda s: s.result == s.g(CTR))
    c("next_exec_counter", {}, TInt, lambda s: s.result == s.g(CTR) + 1)
    over = lambda s: s.g("Cell._override_current_cell")
    c("current_cell", {}, CELLS, lambda s: s.result == z3.If(over(s) != NULL, over(s), GET(by_n(s, s.g(CTR)))), {"KeyError": lambda s: z3.And(over(s) == NULL, z3.Not(HAS(by_n(s, s.g(CTR)))))})
    c("from_tag", {"tag": TStr}, TSet(CELLS), lambda s: z3.ForAll([X], z3.Select(s.result_as(TSet(CELLS)), X) == z3.Select(z3.Select(s.g(TAG), s.arg("tag")), X)))
    c("get_reactive_ids_for_tag", {"tag": TStr}, TSet(TId), lambda s: z3.ForAll([K], z3.Select(s.result_as(TSet(TId)), K) == z3.Select(z3.Select(s.g(RTAG), s.arg("tag")), K)))
    c("mark_as_reactive_for_tag", {"tag": TStr}, None, lambda s: z3.ForAll([S, K], z3.Select(z3.Select(s.g1(RTAG), S), K) == z3.Or(z3.Select(z3.Select(s.g(RTAG), S), K), z3.And(S == s.arg("tag"), K == f(s, "cell_id")))),
      modifies=(RTAG, "Cell.reactive_tags"))
    for nm in ("is_current_for_id", "is_current"):
        c(nm, {}, TBool, lambda s: s.result == (orn(by_id(s, f(s, "cell_id"))) == me(s)))
    c("is_executed", {}, TBool, lambda s: s.result == (f(s, "cell_ctr") > -1))
    c("prev", {}, NO, lambda s: s.result == f(s, "prev_cell"))

    def nothing_yet(lv):
        if lv.kt is not TId:
            raise Unsupported("another loop")
        s = lv.ctx()
        return z3.ForAll([K], z3.Implies(lv.seen(K), pos(s, K) != TABN[1](s.arg("pos"))))
    there = lambda s, k: pos(s, k) == TABN[1](s.arg("pos"))
    c("at_position", {"pos": TInt}, NO, lambda s: z3.If(z3.Exists([K], there(s, K)), z3.Exists([K], z3.And(there(s, K), s.result == GET(by_id(s, K)))), s.result == NULL),
      requires=lambda s: known(s) + [("placed cells exist", z3.ForAll([K], z3.Implies(TABN[3](pos(s, K)), HAS(by_id(s, K)))))], invs=lambda: [("none so far", nothing_yet)])
    return out
