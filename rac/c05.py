"""C05 in-order dependencies, positions, latest providers."""
import itertools

from . import base, nb

SYMS = ["a", "b", "d"]


def SCENARIOS(ctx):
    # every order of three mutually dependent cells, one possibly removed
    ids = ["c0", "c1", "c2"]
    edges = [["edge", i, j, c, s] for i, j, c, s in [(0, 1, "dynamic", "a"), (1, 0, "static", "b"), (2, 0, "dynamic", "a"), (2, 1, "dynamic", "a"), (0, 2, "static", "d"), (1, 2, "dynamic", "b")]]
    for n in (3, 2):
        for perm in itertools.permutations(ids, n):
            for fl in ("in_order", "any_order"):
                for iface in ("jupyterlab", "ipython"):
                    ops = [["exec", 0], ["exec", 1], ["exec", 2]] + edges + [["order", list(perm)], ["suspend", True], ["order", list(perm)[::-1]], ["suspend", False]]
                    yield {"family": "small", "flow": fl, "iface": iface, "intids": iface == "ipython", "dyn": True, "sta": True, "ops": ops}
    rng = ctx.sub("rand")
    for _ in range(ctx.n(500, 3000)):
        yield rand_scn(rng)
    rng = ctx.sub("nb")
    for _ in range(ctx.n(45, 400)):
        yield nb.scenario(rng, steps=(4, 9))


def rand_scn(rng):
    n = rng.randint(2, 5)
    ops = [["exec", i] for i in range(n)]
    for _ in range(rng.randint(5, 25)):
        r = rng.random()
        if r < 0.5:
            ops.append(["edge", rng.randrange(n), rng.randrange(n), rng.choice(["dynamic", "static"]), "".join(rng.sample(SYMS, rng.randint(1, 2)))])
        elif r < 0.6:
            ops.append(["exec", rng.randrange(n)])
        elif r < 0.68:
            ops.append(["removed", rng.randrange(n), rng.choice(SYMS)])
        elif r < 0.78:
            ops.append(["suspend", rng.random() < 0.5])
        elif r < 0.82:
            ops.append(["flow", rng.choice(["in_order", "any_order"])])
        else:
            o = ["c%d" % i for i in range(n)]
            rng.shuffle(o)
            o = o[:rng.randint(1, n)]
            ops.append(["order", o] if rng.random() < 0.6 else ["order", o, sorted(rng.sample(range(20), len(o)))])
    iface = "ipython" if rng.random() < 0.15 else "jupyterlab"
    return {"family": "random", "flow": "in_order" if rng.random() < 0.75 else "any_order", "iface": iface, "intids": iface == "ipython",
            "dyn": rng.random() < 0.85, "sta": rng.random() < 0.8, "ops": ops}


def check_cells(cur, pos, in_order, ctxs, where, bad):
    from ipyflow.data_model.cell import cells
    from ipyflow.singletons import flow
    from ipyflow.slicing.context import dynamic_slicing_context, static_slicing_context

    cm = {"dynamic": dynamic_slicing_context, "static": static_slicing_context}
    fake = flow().fake_edge_sym

    def table(c, what, which):
        out = {}
        for x in which:
            for i, s in getattr(c, "raw_%s_%s" % (x, what)).items():
                out.setdefault(i, set()).update(s)
        return out

    def allowed(c, i, up):
        return not in_order or (pos(i) < pos(c.cell_id) if up else pos(i) > pos(c.cell_id))

    for cid, c in cur.items():
        if c.position != pos(cid):
            bad.append(("position", "%s: cell %s is at %r, the notebook says %r" % (where, cid, c.position, pos(cid))))
        for what, up in (("parents", True), ("children", False)):
            for which in (["dynamic"], ["static"]) + (() if flow().is_test else (None,)):
                want = {i: s for i, s in table(c, what, which or ctxs).items() if allowed(c, i, up)}
                if which is None:
                    got = getattr(c, "directional_" + what)
                else:
                    with cm[which[0]]():
                        got = getattr(c, "directional_" + what)
                got = {i: set(s) for i, s in got.items()}
                if got != want:
                    bad.append(("directional", "%s: %s %s of %s are %r, expected %r" % (where, which or "combined", what, cid, sorted(got.items(), key=str), sorted(want.items(), key=str))))
        m = c.get_latest_parent_by_ts_map()
        if not in_order:
            if m is not None:
                bad.append(("latest", "%s: a latest-provider table exists in any-order flow" % where))
            continue
        if m is None:
            bad.append(("latest", "%s: no latest-provider table in in-order flow" % where))
            continue
        prov = {}
        for x in ctxs:
            for i, s in table(c, "parents", [x]).items():
                if allowed(c, i, True):
                    for y in s - c.static_removed_symbols - {fake}:
                        prov.setdefault(y.shallow_timestamp, []).append(i)
        best = {t: {i for i in v if pos(i) == max(pos(j) for j in v)} for t, v in prov.items()}
        got = {t: p.cell_id for t, p in m.items()}
        if set(got) != set(best) or any(got[t] not in best[t] for t in best):
            bad.append(("latest", "%s: latest providers for %s are %r, expected %r" % (where, cid, got, best)))
        if any(p is not cells().from_id(p.cell_id) for p in m.values()):
            bad.append(("latest", "%s: an outdated version is the provider" % where))


def run(scn):
    return run_nb(scn) if scn["family"] == "notebook" else run_syn(scn)


def run_nb(scn):
    from ipyflow.data_model.cell import cells
    N, bad = nb.Notebook(scn), []
    for k, op in enumerate(scn["ops"]):
        N.step(op)
        where = "op %d %s" % (k, op)
        if not N.in_order:
            pos = lambda c: N.order.index(c) if c in N.order else -1
        else:
            pos = N.pos
        cur = {c.cell_id: c for c in cells().current_cells_for_each_id()}
        check_cells(cur, pos, N.in_order, N.ctxs, where, bad)
        if N.in_order:
            got = [c.cell_id for c in cells().iterate_over_notebook_in_position_order()]
            if got != N.order:
                bad.append(("iterate", "%s: cells in position order are %s, the notebook is %s" % (where, got, N.order)))
        if bad:
            break
    return bad


class Boom(Exception):
    pass


def run_syn(scn):
    from ipyflow import config
    from ipyflow.data_model.cell import Cell, cells
    from ipyflow.singletons import flow
    from ipyflow.slicing.context import dynamic_slicing_context, static_slicing_context

    base.reset(test_context=False)
    base.run_cell("a = 0; b = 1\nc = 3; d = 3", cell_id=900)
    flow().mut_settings.interface = config.Interface(scn["iface"])
    base.settings(static_slicing_enabled=scn["sta"], dynamic_slicing_enabled=scn["dyn"], flow_order=config.FlowDirection(scn["flow"]))
    ctxs = [c for c, on in (("dynamic", scn["dyn"]), ("static", scn["sta"])) if on]
    cm = {"dynamic": dynamic_slicing_context, "static": static_slicing_context}
    Cell._position_by_cell_id.clear()
    syms = {n: flow().global_scope[n] for n in SYMS}
    cur, order, bad, in_order = {}, {}, [], scn["flow"] == "in_order"
    ipy = scn["iface"] == "ipython"
    # the position table, and whether its index by position was built in order mode
    state = {"pos": {}, "known": set(), "indexed": False, "inf": set()}

    def name(i):
        return i if scn["intids"] else "c%d" % i

    def pos(i):
        p = state["pos"].get(i, -1)
        if p == -1 and in_order and ipy:
            return i
        return p

    def set_order(d):
        new = dict(d)
        if in_order and not ipy:
            for i in state["pos"]:
                new.setdefault(i, float("inf"))
            state["indexed"] = True
        else:
            state["indexed"] = False
        state["pos"] = new

    for k, op in enumerate(scn["ops"]):
        where = "op %d %s" % (k, op)
        if op[0] == "exec":
            i = name(op[1])
            cur[i] = Cell.create_and_track(i, "v%d = %d" % (op[1], k), (), validate_ipython_counter=False)
        elif op[0] == "edge":
            c, p = name(op[1]), name(op[2])
            if c == p or c not in cur or p not in cur:
                continue
            with cm[op[3]]():
                cur[c].add_parent_edges(p, {syms[s] for s in op[4]})
        elif op[0] == "removed":
            cur[name(op[1])].static_removed_symbols.add(syms[op[2]])
        elif op[0] == "flow":
            in_order = op[1] == "in_order"
            base.settings(flow_order=config.FlowDirection(op[1]))
            if in_order and not ipy:
                state["indexed"] = False
        elif op[0] == "order":
            idx = op[2] if len(op) > 2 else range(len(op[1]))
            d = {name(int(c[1:])): j for c, j in zip(op[1], idx)}
            cells().set_cell_positions(dict(d))
            set_order(d)
        elif op[0] == "suspend":
            before = dict(state["pos"])
            try:
                with cells()._override_position_index_for_current_flow_semantics():
                    for i, c in cur.items():
                        want = pos(i) if in_order else -1
                        if c.position != want:
                            bad.append(("suspend", "%s: cell %s is at %r while positions are %s, expected %r" % (where, i, c.position, "kept" if in_order else "ignored", want)))
                    if op[1]:
                        raise Boom()
            except Boom:
                pass
            state["pos"] = before
            if in_order and not ipy:
                state["indexed"] = True
        check_cells({n: cells().from_id(n) for n in cur}, pos, in_order, ctxs, where, bad)
        if in_order and not ipy and state["indexed"]:
            got = [c.cell_id for c in cells().iterate_over_notebook_in_position_order()]
            want = sorted((i for i, p in state["pos"].items() if p != float("inf")), key=lambda i: state["pos"][i])
            if got != want:
                bad.append(("iterate", "%s: cells in position order are %s, the notebook is %s" % (where, got, want)))
        if bad:
            break
    return bad
