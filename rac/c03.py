"""C03: slicing contexts inside blocks / loops, and what is left afterwards."""
from . import base


class Boom(Exception):
    pass


def tree(rng, depth):
    out = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if depth <= 0 or r < 0.25:
            out.append(["check"])
        elif r < 0.3:
            out.append(["raise"])
        elif r < 0.6:
            out.append(["with", rng.choice(["set:dynamic", "set:static", "dyn", "sta", "flag:0", "flag:1"]), tree(rng, depth - 1)])
        elif r < 0.9:
            out.append(["loop", rng.choice(["settings", "both", "explicit:sd", "explicit:ds", "explicit:s", "explicit:"]),
                        rng.choice(["run", "run", "break", "return", "raise"]), tree(rng, depth - 1)])
        else:
            out.append(["try", tree(rng, depth - 1)])
    return out


def SCENARIOS(ctx):
    for d in (False, True):
        for s in (False, True):
            for kind in ("set:dynamic", "set:static", "dyn", "sta", "flag:0", "flag:1"):
                for inner in ([["check"]], [["raise"]]):
                    yield {"family": "small", "dyn": d, "sta": s, "tree": [["try", [["with", kind, inner]]], ["check"]]}
            for which in ("settings", "both", "explicit:sd", "explicit:ds", "explicit:s", "explicit:"):
                for how in ("run", "break", "return", "raise"):
                    for outer in (None, "dyn", "sta"):
                        t = [["try", [["loop", which, how, [["check"]]]]], ["check"]]
                        if outer:
                            t = [["with", outer, t], ["check"]]
                        yield {"family": "small", "dyn": d, "sta": s, "tree": t}
            yield {"family": "union", "dyn": d, "sta": s}
    rng = ctx.sub("t")
    for _ in range(ctx.n(1500, 6000)):
        yield {"family": "random", "dyn": rng.random() < 0.6, "sta": rng.random() < 0.6, "tree": tree(rng, rng.randint(2, 4))}
    rng = ctx.sub("nb")
    for _ in range(ctx.n(20, 60)):
        cells = []
        for _ in range(rng.randint(1, 4)):
            cells.append("\n".join(rng.choice(["x = 1", "y = x + 1", "1/0", "z = [x, y]", "def f():\n    return x\nw = f()", "assert False", "del x", "x += 1", "%%memoize\nq = 1", "bad syntax ("]) for _ in range(rng.randint(1, 3))))
        yield {"family": "notebook", "dyn": rng.random() < 0.7, "sta": rng.random() < 0.7, "cells": cells}


def run(scn):
    from ipyflow.singletons import flow
    from ipyflow.slicing import context as C

    base.reset(test_context=scn["family"] != "union")
    base.settings(static_slicing_enabled=scn["sta"], dynamic_slicing_enabled=scn["dyn"])
    D, S = C.SlicingContext.DYNAMIC, C.SlicingContext.STATIC
    bad = []
    cur = C.slicing_ctx_var.get
    C.slicing_ctx_var.set(None)

    if scn["family"] == "notebook":
        for i, code in enumerate(scn["cells"]):
            base.run_cell(code, cell_id=i + 1)
            if cur() is not None:
                bad.append(("notebook-leaves-context", "after executing %r the slicing context is %s" % (code, cur())))
                break
            flow().check_and_link_multiple_cells()
            if cur() is not None:
                bad.append(("check-leaves-context", "after computing the frontend response the slicing context is %s" % cur()))
                break
        C.slicing_ctx_var.set(None)
        return bad

    if scn["family"] == "union":
        return run_union(scn, cur)

    want_settings = ([D] if scn["dyn"] else []) + ([S] if scn["sta"] else [])

    def expect(e, where):
        if cur() is not e:
            bad.append(("wrong-context", "%s: context is %s, expected %s" % (where, cur(), e)))

    def mk(kind):
        if kind == "dyn":
            return C.dynamic_slicing_context(), D
        if kind == "sta":
            return C.static_slicing_context(), S
        if kind == "flag:0":
            return C.slicing_context(False), D
        if kind == "flag:1":
            return C.slicing_context(True), S
        if kind == "flag:dynamic" or kind == "set:dynamic":
            return C.set_slicing_context(D), D
        return C.set_slicing_context(S), S

    def go(nodes, e):
        for n in nodes:
            if n[0] == "check":
                expect(e, "in block")
            elif n[0] == "raise":
                raise Boom()
            elif n[0] == "try":
                try:
                    go(n[1], e)
                except Boom:
                    pass
                expect(e, "after a caught exception")
            elif n[0] == "with":
                cm, want = mk(n[1])
                try:
                    with cm:
                        expect(want, "on entry of %s" % n[1])
                        go(n[2], want)
                finally:
                    expect(e, "after leaving %s" % n[1])
            else:
                loop(n, e)
                expect(e, "after a %s loop left by %s" % (n[1], n[2]))

    def loop(n, e):
        _, which, how, body = n
        if which == "settings":
            want = list(want_settings)
        elif which == "both":
            want = [D, S]
        else:
            want = [D if c == "d" else S for c in which.split(":")[1]]

        def gen():
            if which == "settings":
                return flow().mut_settings.iter_slicing_contexts()
            if which == "both":
                return C.SlicingContext.iter_slicing_contexts()
            return C.iter_slicing_contexts(*want)

        def inner():
            i = 0
            for _ in gen():
                if i >= len(want):
                    bad.append(("extra-pass", "the %s loop makes more than %d passes" % (which, len(want))))
                    return
                expect(want[i], "pass %d of a %s loop" % (i, which))
                go(body, want[i])
                expect(want[i], "end of pass %d of a %s loop" % (i, which))
                i += 1
                if how == "break":
                    break
                if how == "return":
                    return
                if how == "raise":
                    raise Boom()
            if how == "run" and i != len(want):
                bad.append(("missing-pass", "the %s loop made %d passes instead of %d" % (which, i, len(want))))
            if how != "run" and want and i != 1:
                bad.append(("missing-pass", "the %s loop made no pass" % which))

        try:
            inner()
        except Boom:
            if how == "raise":
                expect(e, "after an exception left a %s loop" % which)
                return
            raise

    try:
        go(scn["tree"], None)
    except Boom:
        pass
    expect(None, "at the end")
    C.slicing_ctx_var.set(None)
    return bad


def run_union(scn, cur):
    """Without a context, the edges read are the union over the enabled contexts."""
    from ipyflow.data_model.cell import Cell
    from ipyflow.config import FlowDirection
    from ipyflow.singletons import flow

    base.settings(flow_order=FlowDirection.ANY_ORDER)
    base.run_cell("a = 0; b = 1; c = 2", cell_id=1)
    base.run_cell("u = 5", cell_id=2)
    base.run_cell("v = 6", cell_id=3)
    s = [flow().global_scope[n] for n in "abc"]
    c2, c3 = Cell.from_id(2), Cell.from_id(3)
    c2.raw_dynamic_children = {}
    c2.raw_static_children = {}
    c3.raw_dynamic_parents = {1: {s[0]}, 2: {s[1]}}
    c3.raw_static_parents = {1: {s[2]}}
    c2.raw_dynamic_children = {3: {s[1]}}
    c2.raw_static_children = {3: {s[2]}}
    want, wantc = {}, {}
    for on, P, Ch in ((scn["dyn"], c3.raw_dynamic_parents, c2.raw_dynamic_children), (scn["sta"], c3.raw_static_parents, c2.raw_static_children)):
        if on:
            for k, v in P.items():
                want.setdefault(k, set()).update(v)
            for k, v in Ch.items():
                wantc.setdefault(k, set()).update(v)
    bad = []
    before = ({k: set(v) for k, v in c3.raw_dynamic_parents.items()}, {k: set(v) for k, v in c3.raw_static_parents.items()})
    if c3.raw_parents != want:
        bad.append(("union-parents", "outside any context the parents are %s, expected %s" % (c3.raw_parents, want)))
    if c2.raw_children != wantc:
        bad.append(("union-children", "outside any context the children are %s, expected %s" % (c2.raw_children, wantc)))
    if cur() is not None:
        bad.append(("union-leaves-context", "reading left context %s" % cur()))
    after = ({k: set(v) for k, v in c3.raw_dynamic_parents.items()}, {k: set(v) for k, v in c3.raw_static_parents.items()})
    if before != after:
        bad.append(("union-mutates", "reading the combined edges changed the stored edges"))
    return bad
