"""C06 waiter links and ready makers: transitive, outside the waiting cells, converse of each other."""
import itertools

from . import base, nb


def SCENARIOS(ctx):
    # every link graph over two waiting cells and one other; then three waiting cells
    ids = ["w", "v", "x"]
    pairs = [(a, b) for a in ids[:2] for b in ids]
    for m in range(1 << len(pairs)):
        yield {"family": "small", "waiting": ids[:2], "links": [list(p) for k, p in enumerate(pairs) if m >> k & 1]}
    # replacement of one link by another in the same round
    for perm in itertools.permutations(["w", "v", "y"]):
        yield {"family": "small", "waiting": list(perm), "links": [["w", "w"], ["w", "v"], ["v", "v"], ["v", "y"], ["y", "x"]]}
    rng = ctx.sub("rand")
    for _ in range(ctx.n(3000, 20000)):
        n = rng.randint(3, 8)
        ids = rng.choice([list(range(n)), ["k%d" % i for i in range(n)]])
        rng.shuffle(ids)
        w = ids[:rng.randint(1, n)]
        p = rng.choice([0.15, 0.3, 0.5])
        links = [[a, b] for a in ids for b in ids if rng.random() < p and (a in w or rng.random() < 0.2)]
        yield {"family": "random", "waiting": w, "links": links}
    rng = ctx.sub("makers")
    for _ in range(ctx.n(400, 2500)):
        yield makers_scn(rng)
    rng = ctx.sub("nb")
    for _ in range(ctx.n(70, 500)):
        yield nb.scenario(rng, steps=(5, 11))


def makers_scn(rng):
    n = rng.randint(3, 6)
    r = lambda k: sorted(rng.sample(range(n), rng.randint(0, k)))
    pos = list(range(n))
    rng.shuffle(pos)
    return {"family": "makers", "n": n, "sched": rng.choice(nb.SCHEDULES), "order": rng.choice(["in_order", "any_order"]), "pos": pos,
            "dyn": rng.random() < 0.8, "sta": rng.random() < 0.8, "ready": r(n), "waiting": r(n) or [0], "last": rng.choice([None] + list(range(n))),
            "edges": [[rng.randrange(n), rng.randrange(n), rng.choice(["dynamic", "static"])] for _ in range(rng.randint(2, 2 * n))],
            "needs": [[i, rng.choice("ab")] for i in r(n)], "kills": [[rng.choice("ab"), i] for i in r(n)]}


def reach(direct, waiting, w):
    """cells outside `waiting` reached from w through waiting cells"""
    out, todo, done = set(), [w], set()
    while todo:
        c = todo.pop()
        if c in done:
            continue
        done.add(c)
        for d in direct.get(c, ()):
            if d in waiting:
                todo.append(d)
            else:
                out.add(d)
    return out


def compare(got_w, got_r, direct, waiting, where, bad, others=None):
    for w in sorted(waiting, key=str):
        want = reach(direct, waiting, w)
        g = set(got_w.get(w, ()))
        if g != want:
            bad.append(("links", "%s: %s waits for %s, but following the waiting cells reaches %s" % (where, w, sorted(g, key=str), sorted(want, key=str))))
    conv = {}
    for w in waiting:
        for m in got_w.get(w, ()):
            conv.setdefault(m, set()).add(w)
    got = {m: set(s) for m, s in got_r.items() if s}
    if got != conv:
        bad.append(("converse", "%s: ready makers %s are not the converse %s of the waiter links" % (where, got, conv)))


def run(scn):
    if scn["family"] == "notebook":
        return run_nb(scn)
    if scn["family"] == "makers":
        return run_makers(scn)
    from ipyflow.frontend import FrontendCheckerResult
    base.boot()
    r = FrontendCheckerResult.empty()
    if not hasattr(r, "_compute_waiter_and_ready_maker_links"):
        return []
    r.waiting_cells.update(scn["waiting"])
    direct = {}
    for a, b in scn["links"]:
        r.waiter_links[a].add(b)
        direct.setdefault(a, set()).add(b)
    r._compute_waiter_and_ready_maker_links()
    bad = []
    waiting = set(scn["waiting"])
    compare(r.waiter_links, r.ready_maker_links, direct, waiting, "waiting %s links %s" % (scn["waiting"], scn["links"]), bad)
    if r.waiting_cells != waiting:
        bad.append(("waiting", "the waiting cells changed"))
    for a in direct:
        if a not in waiting and set(r.waiter_links[a]) != direct[a]:
            bad.append(("others", "links of %s, which does not wait, changed" % a))
    return bad


def run_makers(scn):
    from collections import defaultdict

    from ipyflow import config
    from ipyflow.data_model.cell import Cell
    from ipyflow.frontend import FrontendCheckerResult
    from ipyflow.singletons import flow
    from ipyflow.slicing.context import dynamic_slicing_context, static_slicing_context

    base.reset()
    base.run_cell("a = 0; b = 1", cell_id="seed")
    base.settings(static_slicing_enabled=scn["sta"], dynamic_slicing_enabled=scn["dyn"], flow_order=config.FlowDirection(scn["order"]),
                  exec_schedule=config.ExecutionSchedule(scn["sched"]), interface=config.Interface.JUPYTERLAB)
    cm = {"dynamic": dynamic_slicing_context, "static": static_slicing_context}
    syms = {n: flow().global_scope[n] for n in "ab"}
    cs = [Cell.create_and_track("c%d" % i, "v%d = 1" % i, (), validate_ipython_counter=False) for i in range(scn["n"])]
    Cell.set_cell_positions({"c%d" % i: p for i, p in enumerate(scn["pos"])})
    ids = [c.cell_id for c in cs]
    par = {i: set() for i in ids}
    for c, p, x in scn["edges"]:
        if c != p:
            with cm[x]():
                cs[c].add_parent_edges(ids[p], {syms["a"]})
    on = [x for x, y in (("dynamic", scn["dyn"]), ("static", scn["sta"])) if y]
    for c in cs:
        for x in on:
            par[c.cell_id] |= set(getattr(c, "raw_%s_parents" % x))
    r = FrontendCheckerResult.empty()
    if not hasattr(r, "_compute_ready_making_cells"):
        return []
    r.ready_cells.update(ids[i] for i in scn["ready"])
    r.waiting_cells.update(ids[i] for i in scn["waiting"])
    needs, kills = {}, defaultdict(set)
    for i, s in scn["needs"]:
        needs.setdefault(ids[i], set()).add(syms[s])
    for s, i in scn["kills"]:
        kills[syms[s]].add(ids[i])
    last = None if scn["last"] is None else ids[scn["last"]]
    r._compute_ready_making_cells(needs, kills, last)
    bad = []
    for i in scn["waiting"]:
        w = ids[i]
        if scn["sched"] == "liveness_based":
            want = set().union(*[kills.get(s, set()) for s in needs.get(w, ())]) if needs.get(w) else set()
        else:
            want = par[w] & (r.ready_cells | r.waiting_cells)
        if scn["order"] == "in_order":
            want = {m for m in want if scn["pos"][ids.index(m)] < scn["pos"][i]}
        want.discard(last)
        got = set(r.waiter_links.get(w, ()))
        if got != want:
            bad.append(("direct", "%s: %s directly waits for %s, expected %s" % (scn, w, sorted(got), sorted(want))))
    return bad


def run_nb(scn):
    from ipyflow.data_model.cell import cells
    N, bad = nb.Notebook(scn), []
    for k, op in enumerate(scn["ops"]):
        N.step(op)
        where = "op %d %s" % (k, op)
        cs = [cells().from_id(c) for c in N.order if cells().from_id_nullable(c) is not None]
        r = N.flow.check_and_link_multiple_cells(cells_to_check=cs, last_executed_cell_id=N.last)
        W, R = set(r.waiting_cells), set(r.ready_cells)
        if scn["sched"] == "liveness_based":
            conv = {}
            for w in W:
                if set(r.waiter_links.get(w, ())) & W:
                    bad.append(("links", "%s: %s waits for cells that wait themselves" % (where, w)))
                for m in r.waiter_links.get(w, ()):
                    conv.setdefault(m, set()).add(w)
            if {m: set(s) for m, s in r.ready_maker_links.items() if s} != conv:
                bad.append(("converse", "%s: ready makers are not the converse of the waiter links" % where))
        else:
            direct = {w: (set(N.deps(cells().from_id(w))) & (R | W)) - {N.last} for w in W}
            compare(r.waiter_links, r.ready_maker_links, direct, W, where, bad)
        j = r.to_json()
        for nm in ("waiter_links", "ready_maker_links"):
            if {k2: set(v) for k2, v in j[nm].items()} != {k2: set(v) for k2, v in getattr(r, nm).items()}:
                bad.append(("json", "%s: %s in the message differs" % (where, nm)))
        if bad:
            break
    return bad
