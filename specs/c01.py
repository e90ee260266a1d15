"""C01 dependency edges between cells / statements: both endpoints agree after every operation."""
import z3

from pyvc import types as T
from pyvc.engine import INF
from pyvc.types import NULL, TBool, TDict, TId, TInt, TRef, TSet
from pyvc.verify import Contract

from .ipyworld import EDGES, SYM, TS, ts_cell

MIX = "ipyflow.slicing.mixin.SliceableMixin."
G = "context.slicing_ctx_var"


class V:
    """Vocabulary over one (class, context) pair."""

    def __init__(self, w, cls, ctx):
        self.w, self.cls, self.ctx = w, cls, ctx
        low = ctx.lower()
        self.P = "%s.raw_%s_parents" % (cls, low)
        self.C = "%s.raw_%s_children" % (cls, low)
        self.none, self.some, self.isnone, self.issome, self.val = T.opt_parts(TSet(SYM).sort())
        SC = w.enum_type(w.prog, "SlicingContext")
        self.ctxval = w.globs[G].some(SC.consts[ctx])

    def has(self, H, x, k):
        return self.issome(z3.Select(z3.Select(H, x), k))

    def edge(self, H, x, k, s):
        d = z3.Select(z3.Select(H, x), k)
        return z3.And(self.issome(d), z3.Select(self.val(d), s))

    def id_of(self, s, x, post=False):
        if self.cls == "Cell":
            return z3.Select((s.f1 if post else s.f)("Cell.cell_id"), x)
        node = z3.Select(s.f("Statement.stmt_node"), x)
        return T.box_fn(z3.IntSort(), T.IdSort)(z3.Function("py_id_" + T.AnySort.name(), T.AnySort, z3.IntSort())(node))

    def prev(self, s, x):
        return z3.Select(s.f("Cell.prev_cell" if self.cls == "Cell" else "Statement.prev_stmt"), x)


    def current(self, s, k):
        """The object the id k refers to."""
        if self.cls == "Cell":
            return T.opt_parts(T.Ref)[4](z3.Select(s.g("Cell._current_cell_by_cell_id"), k))
        lt = self.w.globs["Statement._stmts_by_id"].val
        return z3.Select(lt.dt()[3](T.opt_parts(lt.sort())[4](z3.Select(s.g("Statement._stmts_by_id"), k))), 0)

    def tracked(self, s, k):
        if self.cls == "Cell":
            return T.opt_parts(T.Ref)[3](z3.Select(s.g("Cell._current_cell_by_cell_id"), k))
        lt = self.w.globs["Statement._stmts_by_id"].val
        o = z3.Select(s.g("Statement._stmts_by_id"), k)
        return z3.And(T.opt_parts(lt.sort())[3](o), lt.dt()[2](T.opt_parts(lt.sort())[4](o)) > 0)

    def is_current(self, s, x):
        return z3.And(self.tracked(s, self.id_of(s, x)), self.current(s, self.id_of(s, x)) == x)

    def mutual(self, s, P, C):
        """Global invariant: what a current cell lists as a parent lists it back."""
        x, k, y = XS()
        return [
            ("listed parents are other, known cells", z3.ForAll([x, k, y], z3.Implies(self.edge(P, x, k, y), z3.And(k != self.id_of(s, x), self.tracked(s, k))))),
            ("every listed parent lists the cell back", z3.ForAll([x, k, y], z3.Implies(z3.And(self.is_current(s, x), self.edge(P, x, k, y)),
                self.edge(C, self.current(s, k), self.id_of(s, x), y)))),
        ]

    def tables(self, s):
        q = z3.Const("q!", T.IdSort)
        return [("the table maps an id to a cell with that id", z3.ForAll([q], z3.Implies(self.tracked(s, q), self.id_of(s, self.current(s, q)) == q)))]

    def listed_inherit(self, s, x, y, c, insyms, among=None):
        q = z3.Const("q!", T.IdSort)
        pv = self.prev(s, c)
        return z3.Exists([q], z3.And(pv != NULL, x == self.current(s, q), self.edge(s.f(self.P), pv, q, y), insyms,
                                     among(q) if among else True))


XS = lambda: (z3.Const("x!", T.Ref), z3.Const("k!", T.IdSort), z3.Const("s!", T.Ref))


def contracts(w):
    out = []
    for cls in ("Cell", "Statement"):
        for ctx in ("DYNAMIC", "STATIC"):
            v = V(w, cls, ctx)
            out += family(w, v)
    for c in out:
        c.inv_timeout = 5000
    return out


def family(w, v):
    cls, ctx = v.cls, v.ctx
    out = []
    ctxreq = lambda s: [("context is %s" % ctx, s.g(G) == v.ctxval)]

    def par_of(s, kind, name):
        a = s.arg(name)
        if kind == "ref":
            return a
        if kind == "id":
            if cls == "Cell":
                return T.opt_parts(T.Ref)[4](z3.Select(s.g("Cell._current_cell_by_cell_id"), a))
        if kind == "ts" and cls == "Cell":
            return T.opt_parts(T.Ref)[4](z3.Select(s.g("Cell._cell_by_cell_ctr"), ts_cell(a)))
        if kind in ("id", "ts"):
            g = "Statement._stmts_by_id" if kind == "id" else "Statement._stmts_by_ts"
            lt = w.globs[g].val
            lv = T.opt_parts(lt.sort())[4](z3.Select(s.g(g), a))
            return z3.Select(lt.dt()[3](lv), 0)
        raise KeyError(kind)

    tyof = {"ref": TRef(cls), "id": TId, "ts": TS}
    q = z3.Const("q!", T.IdSort)
    # every parent a previous version names is known, so inheriting cannot fail half-way
    addreq = lambda s: ctxreq(s) + [
        ("a version is not its own predecessor", v.prev(s, s.arg("self")) != s.arg("self")),
        ("parents of the previous version are known", z3.ForAll([q], z3.Implies(v.has(s.f(v.P), v.prev(s, s.arg("self")), q), v.tracked(s, q)))),
    ]
    unchanged = lambda s: [("nothing changed on failure", z3.And(s.f1(v.P) == s.f(v.P), s.f1(v.C) == s.f(v.C)))]

    for kind in ("ref", "id", "ts"):
        case = "%s,%s,%s" % (cls, ctx.lower(), kind)

        def add_post(s, kind=kind, single=False):
            c, par = s.arg("self"), par_of(s, kind, "parent_ref")
            x, k, y = XS()
            P, C, P1, C1 = s.f(v.P), s.f(v.C), s.f1(v.P), s.f1(v.C)
            cid, pid = v.id_of(s, c), v.id_of(s, par)
            insyms = (y == s.arg("sym")) if single else z3.Select(s.arg("syms"), y)
            some = z3.BoolVal(True) if single else z3.Exists([y], insyms)
            noop = z3.Or(z3.Not(some), v.has(C, c, pid))
            same = z3.And(P1 == P, C1 == C)
            pv = v.prev(s, c)
            inherit = z3.And(pv != NULL, v.edge(P, pv, k, y), insyms)
            return [
                ("no symbols, or the parent is already a child: nothing changes", z3.Implies(noop, same)),
                ("distinct cells: the child gains exactly these parent edges", z3.Implies(z3.And(z3.Not(noop), pid != cid),
                    z3.ForAll([x, k, y], v.edge(P1, x, k, y) == z3.Or(v.edge(P, x, k, y), z3.And(x == c, k == pid, insyms))))),
                ("distinct cells: the parent gains exactly these child edges", z3.Implies(z3.And(z3.Not(noop), pid != cid),
                    z3.ForAll([x, k, y], v.edge(C1, x, k, y) == z3.Or(v.edge(C, x, k, y), z3.And(x == par, k == cid, insyms))))),
                ("distinct cells: only these two entries appear", z3.Implies(z3.And(z3.Not(noop), pid != cid), z3.And(
                    z3.ForAll([x, k], v.has(P1, x, k) == z3.Or(v.has(P, x, k), z3.And(x == c, k == pid))),
                    z3.ForAll([x, k], v.has(C1, x, k) == z3.Or(v.has(C, x, k), z3.And(x == par, k == cid)))))),
                ("self reference: inherits the previous version's matching parents only", z3.Implies(z3.And(z3.Not(noop), pid == cid),
                    z3.ForAll([x, k, y], v.edge(P1, x, k, y) == z3.Or(v.edge(P, x, k, y), z3.And(x == c, inherit))))),
                ("self reference: every inherited parent lists the child back, and nothing else", z3.Implies(z3.And(z3.Not(noop), pid == cid),
                    z3.ForAll([x, k, y], v.edge(C1, x, k, y) == z3.Or(v.edge(C, x, k, y), z3.And(k == cid, v.listed_inherit(s, x, y, c, insyms)))))),
            ]

        def invs(v=v):
            def inv(lv):
                s = lv.ctx()
                c, pv = s.arg("self"), v.prev(s, s.arg("self"))
                x, k, y = XS()
                P, P1 = s.f(v.P), lv.f(v.P)
                return z3.ForAll([x, k, y], v.edge(P1, x, k, y) == z3.Or(v.edge(P, x, k, y), z3.And(
                    x == c, lv.seen(k), v.edge(P, pv, k, y), z3.Select(s.arg("syms"), y))))

            def inv2(lv):
                s = lv.ctx()
                c = s.arg("self")
                x, k, y = XS()
                return z3.ForAll([x, k, y], v.edge(lv.f(v.C), x, k, y) == z3.Or(v.edge(s.f(v.C), x, k, y), z3.And(
                    k == v.id_of(s, c), v.listed_inherit(s, x, y, c, z3.Select(s.arg("syms"), y), lv.seen))))
            return [("inherited so far", inv), ("listed back so far", inv2)]

        mod = (v.P, v.C)
        out.append(Contract(MIX + "add_parent_edges", cls, case, params={"parent_ref": tyof[kind], "syms": TSet(SYM)},
                            requires=addreq, ensures=add_post, modifies=mod, invs=invs, may_raise=("KeyError", "IndexError") if kind != "ref" else False,
                            exc_ensures=unchanged))
        out.append(Contract(MIX + "add_parent_edge", cls, case, params={"parent_ref": tyof[kind], "sym": SYM},
                            requires=addreq, ensures=lambda s, kind=kind: add_post(s, kind, True), modifies=mod,
                            may_raise=("KeyError", "IndexError") if kind != "ref" else False, exc_ensures=unchanged))

        def rem_post(s, kind=kind, single=False):
            c, par = s.arg("self"), par_of(s, kind, "parent_ref")
            x, k, y = XS()
            P, C, P1, C1 = s.f(v.P), s.f(v.C), s.f1(v.P), s.f1(v.C)
            cid, pid = v.id_of(s, c), v.id_of(s, par)
            insyms = (y == s.arg("sym")) if single else z3.Select(s.arg("syms"), y)
            return [
                ("the child loses exactly these parent edges",
                    z3.ForAll([x, k, y], v.edge(P1, x, k, y) == z3.And(v.edge(P, x, k, y), z3.Not(z3.And(x == c, k == pid, insyms))))),
                ("the parent loses exactly these child edges",
                    z3.ForAll([x, k, y], v.edge(C1, x, k, y) == z3.And(v.edge(C, x, k, y), z3.Not(z3.And(x == par, k == cid, insyms))))),
                ("no entry appears", z3.And(z3.ForAll([x, k], z3.Implies(v.has(P1, x, k), v.has(P, x, k))),
                                            z3.ForAll([x, k], z3.Implies(v.has(C1, x, k), v.has(C, x, k))))),
                ("an emptied entry is dropped", z3.And(
                    z3.Implies(z3.And(v.has(P, c, pid), z3.Not(v.has(P1, c, pid))), z3.Not(z3.Exists([y], v.edge(P1, c, pid, y)))),
                    z3.Implies(v.has(P1, c, pid), z3.Or(z3.Exists([y], v.edge(P1, c, pid, y)), P1 == P)),
                    z3.Implies(v.has(C1, par, cid), z3.Or(z3.Exists([y], v.edge(C1, par, cid, y)), C1 == C)))),
            ]

        out.append(Contract(MIX + "remove_parent_edges", cls, case, params={"parent_ref": tyof[kind], "syms": TSet(SYM)},
                            requires=ctxreq, ensures=rem_post, modifies=mod,
                            may_raise=("KeyError", "IndexError") if kind != "ref" else False, exc_ensures=unchanged))
        out.append(Contract(MIX + "remove_parent_edge", cls, case, params={"parent_ref": tyof[kind], "sym": SYM},
                            requires=ctxreq, ensures=lambda s, kind=kind: rem_post(s, kind, True), modifies=mod,
                            may_raise=("KeyError", "IndexError") if kind != "ref" else False, exc_ensures=unchanged))

    # rerouting ------------------------------------------------------------
    def rep(which):
        old, new = ("prev_parent_ref", "new_parent_ref") if which == "parent" else ("prev_child_ref", "new_child_ref")
        A, B = (v.P, v.C) if which == "parent" else (v.C, v.P)

        def req(s):
            c, o = s.arg("self"), s.arg(old)
            return ctxreq(s) + [
                ("the edge to reroute exists on both sides", z3.And(v.has(s.f(A), c, v.id_of(s, o)), v.has(s.f(B), o, v.id_of(s, c)))),
            ]

        def post(s):
            c, o, n = s.arg("self"), s.arg(old), s.arg(new)
            x, k, y = XS()
            A0, B0, A1, B1 = s.f(A), s.f(B), s.f1(A), s.f1(B)
            cid, oid, nid = v.id_of(s, c), v.id_of(s, o), v.id_of(s, n)
            return [
                ("this side: the entry moves to the new endpoint with all its symbols",
                    z3.ForAll([x, k, y], v.edge(A1, x, k, y) == z3.If(x == c,
                        z3.Or(z3.And(v.edge(A0, c, k, y), k != oid), z3.And(k == nid, v.edge(A0, c, oid, y))), v.edge(A0, x, k, y)))),
                ("other side: the old endpoint loses the entry, the new one gains the symbols",
                    z3.ForAll([x, k, y], v.edge(B1, x, k, y) == z3.Or(
                        z3.And(v.edge(B0, x, k, y), z3.Not(z3.And(x == o, k == cid))),
                        z3.And(x == n, k == cid, v.edge(A0, c, oid, y))))),
            ]
        out.append(Contract(MIX + "replace_%s_edges" % which, cls, "%s,%s,ref" % (cls, ctx.lower()),
                            params={old: TRef(cls), new: TRef(cls)}, requires=req, ensures=post, modifies=(v.P, v.C)))
    rep("parent")
    rep("child")

    # the global invariant is preserved by every operation -----------------
    if cls == "Cell":
        def mreq(s, refs):
            c = s.arg("self")
            pv = v.prev(s, c)
            return addreq(s) + v.tables(s) + v.mutual(s, s.f(v.P), s.f(v.C)) + [
                ("operands are current", z3.And(v.is_current(s, c), *[v.is_current(s, s.arg(r)) for r in refs])),
                ("versions share their id", z3.Implies(pv != NULL, v.id_of(s, pv) == v.id_of(s, c))),
            ]

        mpost = lambda s: v.mutual(s, s.f1(v.P), s.f1(v.C))
        for fn, refs, extra in (("add_parent_edges", ["parent_ref"], {"syms": TSet(SYM)}),
                                ("remove_parent_edges", ["parent_ref"], {"syms": TSet(SYM)})):
            p = {r: TRef(cls) for r in refs}
            p.update(extra)

            def minv(v=v):
                def inv(lv):
                    s = lv.ctx()
                    return z3.And(*[z for _, z in v.mutual(s, lv.f(v.P), lv.f(v.C))])
                return [("mutual agreement", inv)]
            out.append(Contract(MIX + fn, cls, "%s,%s,mutual agreement" % (cls, ctx.lower()), params=p, use=False,
                                requires=lambda s, refs=refs: mreq(s, refs), ensures=mpost, modifies=(v.P, v.C), invs=minv))
        for which, (old, new) in (("parent", ("prev_parent_ref", "new_parent_ref")), ("child", ("prev_child_ref", "new_child_ref"))):
            A, B = (v.P, v.C) if which == "parent" else (v.C, v.P)

            def rreq(s, old=old, new=new, A=A, B=B):
                c, o, n = s.arg("self"), s.arg(old), s.arg(new)
                y = z3.Const("s!", T.Ref)
                return mreq(s, [old, new]) + [
                    ("the edge exists on both sides with the same symbols", z3.And(v.has(s.f(A), c, v.id_of(s, o)), v.has(s.f(B), o, v.id_of(s, c)),
                        z3.ForAll([y], v.edge(s.f(A), c, v.id_of(s, o), y) == v.edge(s.f(B), o, v.id_of(s, c), y)))),
                    ("three different cells", z3.Distinct(c, o, n))]
            out.append(Contract(MIX + "replace_%s_edges" % which, cls, "%s,%s,mutual agreement" % (cls, ctx.lower()), use=False,
                                params={old: TRef(cls), new: TRef(cls)}, requires=rreq, ensures=mpost, modifies=(v.P, v.C)))

    # what outside observers read -----------------------------------------
    for nm, H in (("raw_parents", v.P), ("raw_children", v.C)):
        out.append(Contract(MIX + nm, cls, "%s,%s" % (cls, ctx.lower()), ret=EDGES, requires=ctxreq, use=False,
                            ensures=lambda s, H=H: [("reads this context's edges", s.result == z3.Select(s.f(H), s.arg("self")))]))
    return out
