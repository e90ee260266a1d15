"""C05 in-order flow: only strictly earlier cells count as dependencies, only strictly later ones as dependents."""
import z3

from pyvc import types as T
from pyvc.engine import INF, Sc
from pyvc.types import NULL, TBool, TDict, TId, TInt, TOpt, TRef, TSet
from pyvc.verify import Contract, opaque_body

from .c01 import G, V
from .ipyworld import EDGES, FLOW, SETTINGS, SYM, TS

CELL = "ipyflow.data_model.cell.Cell."
MS = "MutableDataflowSettings."


def in_order(w, s):
    return z3.Select(s.f(MS + "flow_order"), SETTINGS) == w.enum_type(w.prog, "FlowDirection").consts["IN_ORDER"]


def ipython(w, s):
    return z3.Select(s.f(MS + "interface"), SETTINGS) == w.enum_type(w.prog, "Interface").consts["IPYTHON"]


def pos(w, s, x):
    """Where the cell is in the notebook: its recorded index; cells of a plain IPython
    session are numbered by their id; unplaced cells are at -1."""
    ids, tab = s.f("Cell.cell_id"), s.g("Cell._position_by_cell_id")
    fo, itf = s.f(MS + "flow_order"), s.f(MS + "interface")
    key = ("pos", ids.get_id(), tab.get_id(), fo.get_id(), itf.get_id())
    if key not in s.eng.specfns:
        n = len(s.eng.specfns)
        f = z3.Function("pos_%d" % n, T.Ref, z3.IntSort())
        y = z3.Const("y!p", T.Ref)
        cid = z3.Select(ids, y)
        o = z3.Select(tab, cid)
        _, _, isn, iss, val = T.opt_parts(z3.IntSort())
        p = z3.If(iss(o), val(o), -1)
        body = z3.If(z3.And(p == -1, in_order(w, s), ipython(w, s)), T.unbox_fn(T.IdSort, z3.IntSort())(cid), p)
        s.eng.specfns[key] = (f, (ids, tab, fo, itf))
        s.eng.axioms.append(z3.ForAll([y], f(y) == body, patterns=[f(y)]))
    return s.eng.specfns[key][0](x)


def pos_fails(w, s, x):
    """A plain IPython session only has integer ids."""
    cid = z3.Select(s.f("Cell.cell_id"), x)
    o = z3.Select(s.g("Cell._position_by_cell_id"), cid)
    _, _, isn, iss, val = T.opt_parts(z3.IntSort())
    p = z3.If(iss(o), val(o), -1)
    return z3.And(p == -1, in_order(w, s), ipython(w, s), z3.Not(z3.Function("id_is_int", T.IdSort, z3.BoolSort())(cid)))


def int_ids(w, s):
    q = z3.Const("q!", T.IdSort)
    return [("a plain IPython session only has integer ids", z3.Implies(ipython(w, s),
        z3.ForAll([q], z3.Function("id_is_int", T.IdSort, z3.BoolSort())(q))))]


def known(v, s, x, H):
    q = z3.Const("q!", T.IdSort)
    return [("neighbours are known", z3.ForAll([q], z3.Implies(v.has(s.f(H), x, q), v.tracked(s, q))))]


def contracts(w):
    out = []
    out.append(positions(w))
    out += suspended(w)
    out += outside(w)
    out.append(Contract(CELL + "position", "Cell", ret=TInt,
        raises={"AssertionError": lambda s: pos_fails(w, s, s.arg("self"))},
        ensures=lambda s: [("the recorded position", s.result == pos(w, s, s.arg("self")))]))
    for ctx in ("DYNAMIC", "STATIC"):
        v = V(w, "Cell", ctx)
        for nm, H, up in (("directional_parents", v.P, True), ("directional_children", v.C, False)):
            def req(s, v=v, H=H):
                return [("context", s.g(G) == v.ctxval)] + int_ids(w, s) + known(v, s, s.arg("self"), H)

            def post(s, v=v, H=H, up=up):
                me, k, y = s.arg("self"), z3.Const("k!", T.IdSort), z3.Const("s!", T.Ref)
                r = s.result_as(EDGES)
                old = z3.Select(s.f(H), me)
                p, n = pos(w, s, me), pos(w, s, v.current(s, k))
                keep = z3.Or(z3.Not(in_order(w, s)), (p > n) if up else (p < n))
                has = v.issome(z3.Select(r, k))
                edge = lambda d: z3.And(v.issome(z3.Select(d, k)), z3.Select(v.val(z3.Select(d, k)), y))
                return [
                    ("exactly the recorded neighbours on the permitted side", z3.ForAll([k], has == z3.And(v.issome(z3.Select(old, k)), keep))),
                    ("with exactly their symbols", z3.ForAll([k, y], edge(r) == z3.And(edge(old), keep))),
                ]
            out.append(Contract(CELL + nm, "Cell", ctx.lower(), requires=req, ensures=post, ret=EDGES))
    vs = {c: V(w, "Cell", c) for c in ("DYNAMIC", "STATIC")}
    RET = TOpt(TDict(TS, TRef("Cell")))

    def enabled(s, c):
        return z3.Select(s.f(MS + "%s_slicing_enabled" % c.lower()), SETTINGS)

    def provides(s, c, k, y):
        """in-order recorded parent k of self gives it symbol y in context c"""
        v, me = vs[c], s.arg("self")
        fake = z3.Select(s.f("NotebookFlow.fake_edge_sym"), FLOW)
        return z3.And(enabled(s, c), v.edge(s.f(v.P), me, k, y), pos(w, s, me) > pos(w, s, v.current(s, k)),
                      z3.Not(z3.Select(z3.Select(s.f("Cell.static_removed_symbols"), me), y)), y != fake)

    Prov = z3.Function("provided_by", TS.sort(), T.Ref, z3.BoolSort())
    K, Y, TT = z3.Const("k!", T.IdSort), z3.Const("s!", T.Ref), z3.Const("t!", TS.sort())
    _, _, _, HAS, GET = T.opt_parts(T.Ref)
    MAP = TDict(TS, TRef("Cell"))

    def lreq(s):
        """Prov is any relation that contains (version written, cell) for every in-order
        recorded parent: being in each such relation is being one of them."""
        r = int_ids(w, s)
        for c in vs:
            r += known(vs[c], s, s.arg("self"), vs[c].P)
            r.append(("Prov contains the %s providers" % c.lower(), z3.ForAll([K, Y], z3.Implies(
                provides(s, c, K, Y), Prov(z3.Select(s.f("Symbol.shallow_timestamp"), Y), vs[c].current(s, K))))))
        return r

    def covered(s, d, c, k, y):
        ent = z3.Select(d, z3.Select(s.f("Symbol.shallow_timestamp"), y))
        return z3.And(HAS(ent), pos(w, s, GET(ent)) >= pos(w, s, vs[c].current(s, k)))

    def lpost(s):
        r = s.result_as(RET)
        none, some, isn, iss, val = T.opt_parts(MAP.sort())
        d = val(r)
        out = [("only in in-order mode", iss(r) == in_order(w, s))]
        for c in vs:
            out.append(("latest by position (%s)" % c.lower(), z3.Implies(in_order(w, s), z3.ForAll([K, Y], z3.Implies(
                provides(s, c, K, Y), covered(s, d, c, K, Y))))))
        out.append(("every entry is a providing parent", z3.Implies(in_order(w, s), z3.ForAll([TT], z3.Implies(
            HAS(z3.Select(d, TT)), Prov(TT, GET(z3.Select(d, TT))))))))
        return out

    def linvs():
        def maps(lv):
            ms = lv.locals_of(MAP)
            ms0 = lv.locals_of(MAP, lv.entry)
            if not ms:
                raise Unsupported("no map")
            return [(ms[n], ms0.get(n)) for n in ms]

        def mono(lv):
            s = lv.ctx()
            return [z3.ForAll([TT], z3.Implies(HAS(z3.Select(d0, TT)), z3.And(HAS(z3.Select(d, TT)),
                pos(w, s, GET(z3.Select(d, TT))) >= pos(w, s, GET(z3.Select(d0, TT)))))) for d, d0 in maps(lv) if d0 is not None]

        def prov(lv):
            return [z3.ForAll([TT], z3.Implies(HAS(z3.Select(d, TT)), Prov(TT, GET(z3.Select(d, TT))))) for d, _ in maps(lv)]

        def seen_ids(lv):
            if lv.kt is not TId:
                raise Unsupported("not the parents loop")
            s = lv.ctx()
            return [z3.ForAll([K, Y], z3.Implies(z3.And(lv.seen(K), lv.g(G) == vs[c].ctxval, provides(s, c, K, Y)), covered(s, d, c, K, Y)))
                    for d, _ in maps(lv) for c in vs]

        def seen_syms(lv):
            if lv.kt == TId or lv.kt is TInt or lv.kt is None:
                raise Unsupported("not the symbols loop")
            s = lv.ctx()
            out = []
            for d, _ in maps(lv):
                for r in list(lv.locals_of(TRef("Cell")).values()) + list(lv.locals_of(TRef("Cell", True)).values()):
                    if r.eq(s.arg("self")):
                        continue
                    ent = z3.Select(d, z3.Select(s.f("Symbol.shallow_timestamp"), Y))
                    out.append(z3.ForAll([Y], z3.Implies(lv.seen(Y), z3.And(HAS(ent), pos(w, s, GET(ent)) >= pos(w, s, r)))))
            return out
        return [("entries only move later", mono), ("entries are providers", prov), ("seen parents are covered", seen_ids), ("seen symbols are covered", seen_syms)]

    # one case per configuration (together they are all of them)
    for io in (True, False):
        for dyn in (True, False):
            for sta in (True, False):
                if not io and (dyn, sta) != (True, True):
                    continue

                def creq(s, io=io, dyn=dyn, sta=sta):
                    r = [("flow order", in_order(w, s) if io else z3.Not(in_order(w, s)))]
                    if io:
                        r += [("dynamic", enabled(s, "DYNAMIC") == dyn), ("static", enabled(s, "STATIC") == sta)]
                    return r + lreq(s)
                out.append(Contract(CELL + "get_latest_parent_by_ts_map", "Cell", "any order" if not io else "in order%s%s" % (
                    ",dynamic" if dyn else "", ",static" if sta else ""), requires=creq, ensures=lpost, ret=RET, invs=linvs, use=False))

                def preq(s, creq=creq):
                    return [x for x in creq(s) if not x[0].startswith("Prov")]

                def ppost(s, io=io):
                    if not io:
                        return [("nothing to choose from", z3.BoolVal(isinstance(s.res, Sc) and s.res.ty is T.TNone))]
                    d = s.result_as(MAP)
                    return [("latest by position (%s)" % c.lower(), z3.ForAll([K, Y], z3.Implies(provides(s, c, K, Y), covered(s, d, c, K, Y)))) for c in vs]
                out.append(Contract(CELL + "get_latest_parent_by_ts_map", "Cell", "for callers: any order" if not io else "for callers: in order%s%s" % (
                    ",dynamic" if dyn else "", ",static" if sta else ""), requires=preq, ensures=ppost, ret=MAP if io else None, invs=linvs))
    return out


from pyvc.program import Unsupported  # noqa: E402


def outside(w):
    """Outside of any context the edges read are the permitted ones of all enabled contexts."""
    vs = {c: V(w, "Cell", c) for c in ("DYNAMIC", "STATIC")}
    K, Y, X = z3.Const("k!", T.IdSort), z3.Const("s!", T.Ref), z3.Const("x!c", T.Ref)
    ctxopt = w.globs[G]
    out = []
    for nm, up in (("raw_parents", True), ("raw_children", False)):
        for dyn, sta in ((True, True), (True, False), (False, True), (False, False)):
            on = [c for c, f in (("DYNAMIC", dyn), ("STATIC", sta)) if f]
            H = lambda c, up=up: vs[c].P if up else vs[c].C

            def keep(s, c, k, up=up):
                p, n = pos(w, s, s.arg("self")), pos(w, s, vs[c].current(s, k))
                return z3.Or(z3.Not(in_order(w, s)), (p > n) if up else (p < n))

            def req(s, dyn=dyn, sta=sta, H=H):
                me = s.arg("self")
                r = [("no context", s.g(G) == ctxopt.none()), ("not a test session", z3.Not(z3.Select(s.f("NotebookFlow.is_test"), FLOW)))]
                r += [("%s slicing" % c.lower(), z3.Select(s.f(MS + "%s_slicing_enabled" % c.lower()), SETTINGS) == f) for c, f in (("DYNAMIC", dyn), ("STATIC", sta))]
                for c in vs:
                    r += known(vs[c], s, me, H(c))
                return r + int_ids(w, s)

            def post(s, on=on, H=H, keep=keep):
                r, me = s.result_as(EDGES), s.arg("self")
                v = vs["DYNAMIC"]
                edge = z3.And(v.issome(z3.Select(r, K)), z3.Select(v.val(z3.Select(r, K)), Y))
                return [("exactly the permitted neighbours in the enabled contexts", z3.ForAll([K], v.issome(z3.Select(r, K)) == z3.Or(*[z3.And(vs[c].has(s.f(H(c)), me, K), keep(s, c, K)) for c in on]))),
                        ("with exactly their symbols", z3.ForAll([K, Y], edge == z3.Or(*[z3.And(vs[c].edge(s.f(H(c)), me, K, Y), keep(s, c, K)) for c in on])))]

            def invs(H=H):
                v = vs["DYNAMIC"]

                def accs(lv):
                    e, c = lv.locals_of(EDGES, lv.entry), lv.locals_of(EDGES)
                    ns = [n for n in c if n in e]
                    if not ns or lv.kt is not TId:
                        raise Unsupported("no accumulator")
                    return [(e[n], c[n]) for n in ns]

                def edge(d):
                    return z3.And(v.issome(z3.Select(d, K)), z3.Select(v.val(z3.Select(d, K)), Y))

                def keys(lv):
                    return [z3.ForAll([K], v.issome(z3.Select(d, K)) == z3.Or(v.issome(z3.Select(d0, K)), lv.seen(K))) for d0, d in accs(lv)]

                def edges(lv, c):
                    s = lv.ctx()
                    return [z3.ForAll([K, Y], z3.Implies(lv.g(G) == vs[c].ctxval, edge(d) == z3.Or(edge(d0), z3.And(lv.seen(K), vs[c].edge(s.f(H(c)), s.arg("self"), K, Y))))) for d0, d in accs(lv)]
                return [("keys so far", keys)] + [("edges so far/" + c.lower(), lambda lv, c=c: edges(lv, c)) for c in vs]
            out.append(Contract("ipyflow.slicing.mixin.SliceableMixin." + nm, "Cell", "no context%s%s" % (",dynamic" if dyn else "", ",static" if sta else ""), requires=req, ensures=post, ret=EDGES, invs=invs, use=False))
    return out


def suspended(w):
    k = z3.Const("k!", T.IdSort)
    none, some, isn, iss, val = T.opt_parts(z3.IntSort())
    P = "Cell._position_by_cell_id"
    h = w.prog.add_harness("ipyflow.data_model.cell", """
def suspended_positions_client(BODY):
    with Cell._override_position_index_for_current_flow_semantics():
        BODY()
""")

    def req(s):
        k2 = z3.Const("k2!", T.IdSort)
        a = s.g(P)
        return [("different cells are at different positions", z3.ForAll([k, k2], z3.Implies(
            z3.And(iss(z3.Select(a, k)), iss(z3.Select(a, k2)), k != k2, z3.Select(a, k) != some(INF)), z3.Select(a, k) != z3.Select(a, k2))))]

    def inner(e, st):
        pre = e.pre_state
        fo = z3.Select(e.heap_get(pre, MS + "flow_order"), SETTINGS)
        io = fo == w.enum_type(w.prog, "FlowDirection").consts["IN_ORDER"]
        return [("positions count in the block only if the flow is in order", z3.ForAll([k], z3.Select(e.glob_get(st, P), k) == z3.If(io, z3.Select(e.glob_get(pre, P), k), none)))]
    def invs():
        return [("positions kept", lambda lv: z3.ForAll([k], z3.Select(lv.g(P), k) == z3.Select(lv.g0(P), k)))]
    post = lambda s: [("positions are as before", z3.ForAll([k], z3.Select(s.g1(P), k) == z3.Select(s.g(P), k)))]
    return [Contract(h, None, "", params={"BODY": opaque_body(inner)}, requires=req, ensures=post, exc_ensures=post, may_raise=("AnyError",), invs=invs,
                     modifies=(P, "Cell._cell_id_by_position"))]


def positions(w):
    IDS, OPT = TDict(TId, TInt), T.opt_parts(z3.IntSort())
    none, some, isn, iss, val = OPT
    POSK = TDict(TInt, TId)
    k, p = z3.Const("k!", T.IdSort), z3.Int("p!")
    iget = T.opt_parts(T.IdSort)
    inv = lambda s: z3.And(in_order(w, s), z3.Not(ipython(w, s)))

    def req(s):
        a = s.arg("order_index_by_cell_id")
        k2 = z3.Const("k2!", T.IdSort)
        return [("different cells are at different positions", z3.ForAll([k, k2], z3.Implies(
            z3.And(iss(z3.Select(a, k)), iss(z3.Select(a, k2)), k != k2, z3.Select(a, k) != some(INF)), z3.Select(a, k) != z3.Select(a, k2))))]

    def post(s):
        a, old, new = s.arg("order_index_by_cell_id"), s.g("Cell._position_by_cell_id"), s.g1("Cell._position_by_cell_id")
        by = s.g1("Cell._cell_id_by_position")
        want = z3.If(iss(z3.Select(a, k)), z3.Select(a, k), z3.If(z3.And(inv(s), iss(z3.Select(old, k))), some(INF), none))
        return [
            ("given cells are where the notebook says, removed cells are past the end", z3.ForAll([k], z3.Select(new, k) == want)),
            ("every placed cell is found at its position", z3.Implies(inv(s), z3.ForAll([k], z3.Implies(z3.And(iss(z3.Select(a, k)), val(z3.Select(a, k)) != INF),
                z3.Select(by, val(z3.Select(a, k))) == iget[1](k))))),
            ("a position holds the cell the notebook says", z3.Implies(inv(s), z3.ForAll([p], z3.Implies(iget[3](z3.Select(by, p)),
                z3.And(p != INF, z3.Select(a, iget[4](z3.Select(by, p))) == some(p)))))),
        ]

    def invs():
        def given(lv):
            return lv.ctx().arg("order_index_by_cell_id")

        def cur(lv):
            return lv.eng.read(lv.st, lv.eng.entry_args["order_index_by_cell_id"])

        def by(lv):
            return lv.g("Cell._cell_id_by_position")
        return [
            ("given entries stay", lambda lv: z3.ForAll([k], z3.Implies(iss(z3.Select(given(lv), k)), z3.Select(cur(lv), k) == z3.Select(given(lv), k)))),
            ("new entries are past the end", lambda lv: z3.ForAll([k], z3.Implies(z3.And(iss(z3.Select(cur(lv), k)), z3.Not(iss(z3.Select(given(lv), k)))),
                z3.And(z3.Select(cur(lv), k) == some(INF), iss(z3.Select(lv.g0("Cell._position_by_cell_id"), k)))))),
            ("seen are placed", lambda lv: z3.ForAll([k], z3.Implies(lv.seen(k), iss(z3.Select(cur(lv), k))))),
            ("seen are found", lambda lv: z3.ForAll([k], z3.Implies(z3.And(lv.seen(k), iss(z3.Select(given(lv), k)), val(z3.Select(given(lv), k)) != INF), z3.Select(by(lv), val(z3.Select(given(lv), k))) == iget[1](k)))),
            ("found are right", lambda lv: z3.ForAll([p], z3.Implies(iget[3](z3.Select(by(lv), p)), z3.And(p != INF, z3.Select(given(lv), iget[4](z3.Select(by(lv), p))) == some(p))))),
            ("given are found", lambda lv: z3.ForAll([k], z3.Implies(z3.And(iss(z3.Select(given(lv), k)), val(z3.Select(given(lv), k)) != INF), z3.Select(by(lv), val(z3.Select(given(lv), k))) == iget[1](k)))),
        ]
    return Contract(CELL + "set_cell_positions", "Cell", use=False, params={"order_index_by_cell_id": IDS}, requires=req, ensures=post, invs=invs,
                    modifies=("arg:order_index_by_cell_id", "Cell._position_by_cell_id", "Cell._cell_id_by_position"))
