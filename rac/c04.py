"""C04: timestamp order, equality and offset blocks."""
import itertools

from . import base


class Boom(Exception):
    pass


def SCENARIOS(ctx):
    vals = [-1, 0, 1, 2, 5]
    yield {"family": "pairs", "vals": vals}
    yield {"family": "big", "vals": [-(10 ** 20), -2, 0, 10 ** 6, 10 ** 20]}
    rng = ctx.sub("o")

    def tree(depth):
        out = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if depth <= 0 or r < 0.3:
                out.append(["check"])
            elif r < 0.4:
                out.append(["raise"])
            elif r < 0.5:
                out.append(["try", tree(depth - 1)])
            else:
                out.append(["off", rng.randint(-3, 3), rng.randint(-3, 3), rng.choice(["both", "cell", "stmt", "none"]), tree(depth - 1)])
        return out
    for _ in range(ctx.n(300, 1500)):
        yield {"family": "offsets", "tree": tree(rng.randint(1, 4)), "cells": rng.randint(0, 2)}
    rng2 = ctx.sub("h")
    for _ in range(ctx.n(25, 80)):
        ops = []
        for _ in range(rng2.randint(2, 7)):
            ops.append([rng2.randint(1, 3), "\n".join(rng2.choice(["x = 1", "y = 2", "z = x", "1/0", "pass", "w = [1, 2]"]) for _ in range(rng2.randint(1, 4)))])
        yield {"family": "history", "ops": ops}


def run(scn):
    from ipyflow.data_model import timestamp as M
    T = M.Timestamp
    bad = []
    if scn["family"] in ("pairs", "big"):
        allp = list(itertools.product(scn["vals"], repeat=2))
        for (a, b), (c, d) in itertools.product(allp, repeat=2):
            x, y = T(a, b), T(c, d)
            eq = (a == c and b == d)
            lt = a < c or (a == c and b < d)
            for nm, got, want in (("==", x == y, eq), ("!=", x != y, not eq), ("<", x < y, lt), (">=", x >= y, not lt),
                                  ("<=", x <= y, lt or eq), (">", x > y, not lt and not eq),
                                  ("max", max(x, y).as_tuple(), (c, d) if lt else (a, b)),
                                  ("min", min(x, y).as_tuple(), (a, b) if lt or eq else (c, d)),
                                  ("hash", eq and hash(x) != hash(y), False),
                                  ("plus", x.plus(c, d).as_tuple(), (a + c, b + d))):
                if got != want:
                    bad.append(("cmp-" + nm, "%s %s %s gives %r, expected %r" % (x, nm, y, got, want)))
        for (a, b) in allp:
            if T(a, b).is_initialized != (a > -1 and b > -1):
                bad.append(("initialized", "%s" % (T(a, b),)))
            if T(a, b) == None or not (T(a, b) != None):  # noqa: E711
                bad.append(("none", "%s equals None" % (T(a, b),)))
            try:
                T(a, b) == (a, b)
                bad.append(("foreign", "comparing %s with a plain tuple did not raise" % (T(a, b),)))
            except TypeError:
                pass
        if T.uninitialized().as_tuple() != (-1, -1):
            bad.append(("uninit", str(T.uninitialized())))
        srt = sorted(T(a, b) for a, b in allp)
        if [t.as_tuple() for t in srt] != sorted(allp):
            bad.append(("sort", "sorting differs from lexicographic order"))
        return bad

    base.reset()
    if scn["family"] == "history":
        from ipyflow.data_model.cell import Cell
        from ipyflow.data_model.statement import Statement
        from ipyflow.singletons import flow
        last = None
        for cid, code in scn["ops"]:
            base.run_cell(code, cell_id=cid)
            cell = Cell.from_id(cid)
            now = T.current()
            if now.cell_num != Cell._cell_counter or cell.cell_ctr != Cell._cell_counter:
                bad.append(("current-cell", "after executing cell %s the current time is %s but the execution count is %s" % (cid, now, Cell._cell_counter)))
            stmts = [st for tss, sts in Statement._stmts_by_ts.items() if tss.cell_num == now.cell_num for st in sts]
            for st in stmts:
                if last is not None and not (st.timestamp > last):
                    bad.append(("monotone", "statement %s is not later than %s of the previous execution" % (st.timestamp, last)))
            if stmts:
                last = max(st.timestamp for st in stmts)
            for s in flow().global_scope.all_symbols_this_indentation():
                if s.timestamp.is_initialized and s.timestamp > now.plus(0, 1):
                    bad.append(("future", "symbol %s is stamped %s, later than now %s" % (s.name, s.timestamp, now)))
        return bad

    for i in range(scn["cells"]):
        base.run_cell("x%d = %d" % (i, i), cell_id=i + 1)
    c0 = T.current()

    def expect(co, so, where):
        want = (c0.cell_num + co, c0.stmt_num + so)
        if T.current().as_tuple() != want:
            bad.append(("offset", "%s: current time %s, expected %s" % (where, T.current(), want)))

    def go(nodes, co, so):
        for n in nodes:
            if n[0] == "check":
                expect(co, so, "in block")
            elif n[0] == "raise":
                raise Boom()
            elif n[0] == "try":
                try:
                    go(n[1], co, so)
                except Boom:
                    pass
                expect(co, so, "after a caught exception")
            else:
                _, dc, ds, how, body = n
                kw = {}
                if how in ("both", "cell"):
                    kw["cell_offset"] = dc
                if how in ("both", "stmt"):
                    kw["stmt_offset"] = ds
                c2, s2 = co + kw.get("cell_offset", 0), so + kw.get("stmt_offset", 0)
                try:
                    with T.offset(**kw):
                        expect(c2, s2, "on entry of offset %s" % kw)
                        go(body, c2, s2)
                finally:
                    expect(co, so, "after leaving offset %s" % kw)
    try:
        go(scn["tree"], 0, 0)
    except Boom:
        pass
    expect(0, 0, "at the end")
    M._cell_offset = M._stmt_offset = 0
    return bad
