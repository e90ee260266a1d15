"""C07 waiting cells in dependency-graph schedules: least closed set, disjoint from the ready cells."""
from . import base, nb


def SCENARIOS(ctx):
    for order in ("in_order", "any_order"):
        for sched in nb.SCHEDULES:
            for edges in ([[1, 0], [2, 1], [3, 2]], [[0, 1], [1, 2], [2, 3]], [[0, 1], [1, 0], [2, 3]], [[3, 0], [0, 3], [2, 0], [1, 2]]):
                for m in range(16):
                    for wt in ([], [1]):
                        yield {"family": "small", "n": 4, "sched": sched, "order": order, "pos": [0, 1, 2, 3], "dyn": True, "sta": True,
                               "ready": [i for i in range(4) if m >> i & 1], "new": [i for i in range(4) if m >> i & 1][:1], "waiting": wt,
                               "edges": [[a, b, "dynamic"] for a, b in edges], "check": [0, 1, 2, 3]}
    rng = ctx.sub("rand")
    for _ in range(ctx.n(600, 4000)):
        n = rng.randint(3, 7)
        r = lambda k: sorted(rng.sample(range(n), rng.randint(0, k)))
        pos, chk = list(range(n)), list(range(n))
        rng.shuffle(pos)
        rng.shuffle(chk)
        ready = r(2)
        yield {"family": "random", "n": n, "sched": rng.choice(nb.SCHEDULES[1:]), "order": rng.choice(["in_order", "any_order"]), "pos": pos,
               "dyn": rng.random() < 0.8, "sta": rng.random() < 0.8, "ready": ready, "new": [i for i in ready if rng.random() < 0.5], "waiting": r(1),
               "edges": [[rng.randrange(n), rng.randrange(n), rng.choice(["dynamic", "static"])] for _ in range(rng.randint(2, 2 * n))],
               "check": chk}
    rng = ctx.sub("nb")
    for _ in range(ctx.n(90, 600)):
        scn = nb.scenario(rng, steps=(5, 11))
        scn["ask"] = rng.choice([None, None, rng.randrange(8)])
        yield scn


def lfp(par, ids, ready, waiting):
    W = set(waiting)
    while True:
        new = {i for i in ids if i not in W and par[i] & (ready | W)}
        if not new:
            return W
        W |= new


def run(scn):
    if scn["family"] == "notebook":
        return run_nb(scn)
    from ipyflow import config
    from ipyflow.data_model.cell import Cell
    from ipyflow.frontend import FrontendCheckerResult
    from ipyflow.singletons import flow
    from ipyflow.slicing.context import dynamic_slicing_context, static_slicing_context

    base.reset()
    base.run_cell("a = 0", cell_id="seed")
    Cell._current_cell_by_cell_id.pop("seed", None)
    base.settings(static_slicing_enabled=scn["sta"], dynamic_slicing_enabled=scn["dyn"], flow_order=config.FlowDirection(scn["order"]),
                  exec_schedule=config.ExecutionSchedule(scn["sched"]), interface=config.Interface.JUPYTERLAB)
    cm = {"dynamic": dynamic_slicing_context, "static": static_slicing_context}
    sym = flow().global_scope["a"]
    cs = [Cell.create_and_track("c%d" % i, "v%d = 1" % i, (), validate_ipython_counter=False) for i in range(scn["n"])]
    ids = [c.cell_id for c in cs]
    Cell.set_cell_positions({i: p for i, p in zip(ids, scn["pos"])})
    for c, p, x in scn["edges"]:
        if c != p:
            with cm[x]():
                cs[c].add_parent_edges(ids[p], {sym})
    on = [x for x, y in (("dynamic", scn["dyn"]), ("static", scn["sta"])) if y]
    par = {}
    for k, c in enumerate(cs):
        par[ids[k]] = {p for x in on for p in getattr(c, "raw_%s_parents" % x)
                       if scn["order"] == "any_order" or scn["pos"][ids.index(p)] < scn["pos"][k]}
    r = FrontendCheckerResult.empty()
    if not hasattr(r, "_compute_dag_based_waiters"):
        return []
    ready, waiting, new = ({ids[i] for i in scn[k]} for k in ("ready", "waiting", "new"))
    r.ready_cells.update(ready)
    r.new_ready_cells.update(new)
    r.waiting_cells.update(waiting)
    for c in cs:
        c.set_ready(c.cell_id in ready)
    r._compute_dag_based_waiters([cs[i] for i in scn["check"]])
    want = lfp(par, ids, ready, waiting) if scn["sched"] != "liveness_based" else waiting
    bad = []
    f = lambda s: sorted(s)
    if r.waiting_cells != want:
        bad.append(("waiting", "ready %s, waiting %s, dependencies %s: waiting becomes %s, expected %s" % (f(ready), f(waiting), par, f(r.waiting_cells), f(want))))
    if scn["sched"] == "liveness_based":
        want = set()
    if r.ready_cells != ready - want:
        bad.append(("ready", "ready becomes %s, expected %s" % (f(r.ready_cells), f(ready - want))))
    if r.new_ready_cells != new - want:
        bad.append(("new", "newly ready becomes %s, expected %s" % (f(r.new_ready_cells), f(new - want))))
    marks = {c.cell_id for c in cs if c.is_ready} if hasattr(cs[0], "is_ready") else None
    if marks is not None and marks != ready - want:
        bad.append(("marks", "cells marked ready %s, expected %s" % (f(marks), f(ready - want))))
    return bad


def run_nb(scn):
    from ipyflow.data_model.cell import cells
    N, bad = nb.Notebook(scn), []
    for k, op in enumerate(scn["ops"]):
        N.step(op)
        where = "op %d %s" % (k, op)
        cs = [cells().from_id(c) for c in N.order if cells().from_id_nullable(c) is not None]
        last = N.last
        if scn.get("ask") is not None and cs:
            last = cs[scn["ask"] % len(cs)].cell_id  # the schedule as seen from another cell
        r = N.flow.check_and_link_multiple_cells(cells_to_check=cs, last_executed_cell_id=last)
        W, R, New = set(r.waiting_cells), set(r.ready_cells), set(r.new_ready_cells)
        if W & (R | New):
            bad.append(("both", "%s: %s are both ready and waiting" % (where, W & (R | New))))
        if scn["sched"] != "liveness_based":
            for c in cs:
                dep = set(N.deps(c)) & (R | W)
                if dep and c.cell_id not in W:
                    bad.append(("waiting", "%s: %s does not wait although it depends on %s, which are ready or waiting" % (where, c.cell_id, sorted(dep))))
            # cells that were ready before they had to wait are not visible any more, so only a
            # necessary condition for waiting is checked here (the synthetic families are exact)
            for w in W:
                if not set(N.deps(cells().from_id(w))) & (R | W):
                    bad.append(("waiting", "%s: %s waits although it depends on nothing ready or waiting" % (where, w)))
        if not New <= R:
            bad.append(("new", "%s: newly ready cells %s are not ready (%s)" % (where, New, R)))
        if N.in_order and last in N.order:
            early = {c for c in New if N.pos(c) <= N.pos(last)}
            if early:
                bad.append(("early", "%s: %s became newly ready at or above the last executed cell %s" % (where, sorted(early), last)))
        marks = {c.cell_id for c in cs if c.is_ready}
        if marks != R:
            bad.append(("marks", "%s: cells marked ready %s, reported %s" % (where, sorted(marks), sorted(R))))
        if bad:
            break
    return bad
