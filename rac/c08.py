"""C08 the reported dependency graph: recorded permitted live dependencies, converse children, faithful message."""
from . import base, nb


def SCENARIOS(ctx):
    rng = ctx.sub("nb0")
    for _ in range(40):
        yield nb.scenario(rng, steps=(5, 9))
    rng = ctx.sub("rand")
    for _ in range(ctx.n(700, 5000)):
        n = rng.randint(2, 5)
        pos = list(range(n))
        rng.shuffle(pos)
        some = lambda p: [s for s in "abc" if rng.random() < p]
        yield {"family": "random", "n": n, "sched": rng.choice(nb.SCHEDULES), "order": rng.choice(["in_order", "any_order"]), "pos": pos,
               "dyn": rng.random() < 0.8, "sta": rng.random() < 0.6,
               "edges": [[rng.randrange(n), rng.randrange(n), rng.choice(["dynamic", "static"]), some(0.5) or ["a"]] for _ in range(rng.randint(1, 2 * n))],
               "removed": [[i, some(0.4)] for i in range(n) if rng.random() < 0.3],
               "writes": [[i, some(0.7)] for i in range(n) if rng.random() < 0.6],
               "check": [[i, some(0.4)] for i in range(n) if rng.random() < 0.5],
               "updated": [[s, rng.randrange(n)] for s in "abc" for _ in range(rng.randint(0, n))]}
    rng = ctx.sub("json")
    for _ in range(ctx.n(300, 2000)):
        ids = ["c%d" % i for i in range(4)] if rng.random() < 0.7 else [0, "c1", 2, "c3"]
        sub = lambda: [c for c in ids if rng.random() < 0.5]
        yield {"family": "json", "ids": ids, "sets": {f: sub() for f in SETS}, "maps": {f: [[c, sub()] for c in sub()] for f in MAPS},
               "deep": {f: [[c, [[d, sub()] for d in sub()]] for c in sub()] for f in DEEP}, "allow": rng.random() < 0.6}
    rng = ctx.sub("nb")
    for _ in range(ctx.n(150, 800)):
        yield nb.scenario(rng, steps=(5, 11))


SETS = ["waiting_cells", "typecheck_error_cells", "ready_cells", "new_ready_cells", "forced_reactive_cells", "forced_cascading_reactive_cells"]
MAPS = ["cell_parents", "cell_children", "waiter_links", "ready_maker_links", "stale_parents"]
DEEP = ["stale_parents_by_executed_cell_by_child", "stale_parents_by_child_by_executed_cell"]


def expected(cell, ctxs, in_order, pos, fake, byid):
    """the recorded dependencies of the cell that still matter"""
    tabs = {c: {p: set(s) for p, s in getattr(cell, "raw_%s_parents" % c).items() if not in_order or pos(p) < pos(cell.cell_id)} for c in ctxs}
    latest = {}
    for t in tabs.values():
        for p, syms in t.items():
            for s in syms - set(cell.static_removed_symbols) - {fake}:
                ts = s.shallow_timestamp
                if ts not in latest or pos(p) >= pos(latest[ts]):
                    latest[ts] = p
    out = set()
    for c, t in tabs.items():
        for p, raw in t.items():
            syms = {s for s in raw - set(cell.static_removed_symbols) if not s.is_implicit_virtual}
            if not syms:
                continue
            if in_order and fake not in syms and not any(latest[s.shallow_timestamp] == p for s in syms):
                continue
            par = byid(p)
            chk = par.last_check_result
            if chk is not None and syms <= par.static_writes and not chk.modified & syms:
                continue
            if par.cell_ctr >= 0 and not any(t_.cell_num == par.cell_ctr for s in syms for t_ in s.updated_timestamps):
                continue
            if in_order and c == "static":
                if any(pos(q) > pos(p) and not (syms == {fake} and o == {fake}) and (syms <= o or fake in o) for q, o in t.items()):
                    continue
            out.add(p)
    return out


def graph(r, cs, ctxs, in_order, pos, fake, byid, where, bad):
    conv = {}
    for c in cs:
        if c.cell_id not in r.cell_parents or c.cell_id not in r.cell_children:
            bad.append(("entries", "%s: the checked cell %s has no reported parents or children entry" % (where, c.cell_id)))
            continue
        rec = set()
        for x in ctxs:
            rec |= {p for p in getattr(c, "raw_%s_parents" % x) if not in_order or pos(p) < pos(c.cell_id)}
        got = set(r.cell_parents[c.cell_id])
        if not got <= rec:
            bad.append(("recorded", "%s: reported parents %s of %s include some that are not recorded, permitted dependencies (%s)" % (where, sorted(got), c.cell_id, sorted(rec))))
        want = expected(c, ctxs, in_order, pos, fake, byid)
        if got != want:
            bad.append(("live", "%s: reported parents of %s are %s, the dependencies that still matter are %s" % (where, c.cell_id, sorted(got), sorted(want))))
    for a, ps in r.cell_parents.items():
        for p in ps:
            conv.setdefault(p, set()).add(a)
    got = {p: set(s) for p, s in r.cell_children.items() if s}
    if got != conv:
        bad.append(("converse", "%s: reported children %s, the converse of the reported parents is %s" % (where, got, conv)))


def message(r, where, bad):
    j = r.to_json()
    f = lambda x: sorted(map(str, x))

    def same(name, got, want):
        if f(got) != f(want):
            bad.append(("message", "%s: %s in the message is %s, computed %s" % (where, name, f(got), f(want))))
    same("waiting_cells", j["waiting_cells"], r.waiting_cells | r.typecheck_error_cells)
    for n in SETS[2:]:
        same(n, j[n], getattr(r, n) if n != "new_ready_cells" or r.allow_new_ready else ())
    for n in MAPS:
        same(n + " keys", j[n], getattr(r, n))
        for k in set(j[n]) & set(getattr(r, n)):
            same("%s of %s" % (n, k), j[n][k], getattr(r, n)[k])
    for n in DEEP:
        same(n + " keys", j[n], getattr(r, n))
        for k in set(j[n]) & set(getattr(r, n)):
            same("%s of %s keys" % (n, k), j[n][k], getattr(r, n)[k])
            for k2 in set(j[n][k]) & set(getattr(r, n)[k]):
                same("%s of %s, %s" % (n, k, k2), j[n][k][k2], getattr(r, n)[k][k2])
    same("unsafe_order_cells keys", j["unsafe_order_cells"], r.unsafe_order_cells)
    for k in set(j["unsafe_order_cells"]) & set(r.unsafe_order_cells):
        same("unsafe_order_cells of %s" % k, j["unsafe_order_cells"][k], [c.cell_id for c in r.unsafe_order_cells[k]])
    err = nb.jsonable(j)
    if err:
        bad.append(("json", "%s: the message cannot be sent as JSON: %s" % (where, err)))


def run(scn):
    return {"notebook": run_nb, "json": run_json, "random": run_random}[scn["family"]](scn)


def run_json(scn):
    from ipyflow.data_model.cell import Cell
    from ipyflow.frontend import FrontendCheckerResult
    base.reset()
    r = FrontendCheckerResult.empty(allow_new_ready=scn["allow"])
    for n, v in scn["sets"].items():
        getattr(r, n).update(v)
    for n, v in scn["maps"].items():
        getattr(r, n).update({k: set(s) for k, s in v})
    for n, v in scn["deep"].items():
        getattr(r, n).update({k: {k2: set(s) for k2, s in m} for k, m in v})
    cs = {i: Cell.create_and_track(i, "x", (), validate_ipython_counter=False) for i in scn["ids"]}
    for k, s in scn["maps"]["stale_parents"]:
        r.unsafe_order_cells[k] = {cs[i] for i in s}
        if s:
            r.unsafe_order_symbol_usage[k].append({"name": "x", "range": {"start": {"line": 0, "character": 0}}, "last_updated_cell": 3})
    bad = []
    message(r, "message", bad)
    return bad


def run_random(scn):
    from ipyflow import config
    from ipyflow.data_model.cell import Cell, CheckerResult, cells
    from ipyflow.data_model.timestamp import Timestamp
    from ipyflow.frontend import FrontendCheckerResult
    from ipyflow.singletons import flow
    from ipyflow.slicing.context import dynamic_slicing_context, static_slicing_context

    base.reset()
    for s in "abc":
        base.run_cell("%s = 0" % s, cell_id="seed" + s)
        Cell._current_cell_by_cell_id.pop("seed" + s, None)
    base.settings(static_slicing_enabled=scn["sta"], dynamic_slicing_enabled=scn["dyn"], flow_order=config.FlowDirection(scn["order"]),
                  exec_schedule=config.ExecutionSchedule(scn["sched"]), interface=config.Interface.JUPYTERLAB)
    cm = {"dynamic": dynamic_slicing_context, "static": static_slicing_context}
    syms = {s: flow().global_scope[s] for s in "abc"}
    cs = [Cell.create_and_track("c%d" % i, "v%d = 1" % i, (), validate_ipython_counter=False) for i in range(scn["n"])]
    ids = [c.cell_id for c in cs]
    r = FrontendCheckerResult.empty()
    if not hasattr(r, "_compute_filtered_parents") or not hasattr(syms["a"], "_updated_timestamps"):
        return []
    Cell.set_cell_positions({i: p for i, p in zip(ids, scn["pos"])})
    for c, p, x, ss in scn["edges"]:
        if c != p:
            with cm[x]():
                cs[c].add_parent_edges(ids[p], {syms[s] for s in ss})
    for i, ss in scn["removed"]:
        cs[i].static_removed_symbols = {syms[s] for s in ss}
    for i, ss in scn["writes"]:
        cs[i].static_writes = {syms[s] for s in ss}
    for i, ss in scn["check"]:
        cs[i].last_check_result = CheckerResult(live=set(), unresolved_live_refs=set(), used_cells=set(), live_cells=set(), dead=set(), modified={syms[s] for s in ss}, typechecks=True)
    for s, i in scn["updated"]:
        syms[s]._updated_timestamps.add(Timestamp(cs[i].cell_ctr, 0))
    r._compute_filtered_parents(list(cs))
    on = [x for x, y in (("dynamic", scn["dyn"]), ("static", scn["sta"])) if y]
    bad = []
    pos = lambda i: scn["pos"][ids.index(i)]
    graph(r, cs, on, scn["order"] == "in_order", pos, flow().fake_edge_sym, cells().from_id, "synthetic", bad)
    return bad


def run_nb(scn):
    from ipyflow.data_model.cell import cells
    N, bad = nb.Notebook(scn), []
    for k, op in enumerate(scn["ops"]):
        N.step(op)
        where = "op %d %s" % (k, op)
        err = nb.jsonable(N.response)
        if err:
            bad.append(("json", "%s: the response cannot be sent as JSON: %s" % (where, err)))
        cs = [cells().from_id(c) for c in N.order if cells().from_id_nullable(c) is not None]
        r = N.flow.check_and_link_multiple_cells(cells_to_check=cs, last_executed_cell_id=N.last)
        graph(r, cs, N.ctxs, N.in_order, lambda i: N.pos(i), N.flow.fake_edge_sym, cells().from_id, where, bad)
        message(r, where, bad)
        if bad:
            break
    return bad
