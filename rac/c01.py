"""C01: dependency edges agree on both endpoints after every operation."""
import ast
import itertools

from . import base

SYMS = ["a", "b", "c"]


def world(fam):
    from ipyflow.data_model.cell import Cell
    from ipyflow.data_model.statement import Statement
    from ipyflow.singletons import flow

    base.reset()
    base.settings(static_slicing_enabled=True, dynamic_slicing_enabled=True)
    base.run_cell("a = 0; b = 1; c = 2", cell_id="seed")
    syms = {n: flow().global_scope[n] for n in SYMS}
    return Cell, Statement, syms


def SCENARIOS(ctx):
    # exhaustive: every single operation over two/three cells from a small set of states
    subsets = [[], ["a"], ["a", "b"]]
    for cls in ("cell", "stmt"):
        for c in ("dynamic", "static"):
            for first in subsets:
                for second in subsets:
                    for who in ([0, 1], [1, 0], [0, 0]):
                        for kind in ("add", "remove", "add1", "remove1"):
                            yield {"family": "small", "cls": cls, "n": 2, "ops": [
                                ["add", c, 1, 0, first, "ref"], [kind, c, who[1], who[0], second, "id"]]}
            # rerouting, including onto an endpoint that already has the edge
            for s1, s2 in ((["a"], []), (["a"], ["b"]), (["a", "b"], ["b", "c"]), (["a"], ["a"])):
                for kind in ("ref", "id"):
                    for s3 in ([], ["c"]):
                        yield {"family": "reroute", "cls": cls, "n": 4, "ops": [
                            ["add", c, 1, 0, s1, "ref"], ["add", c, 1, 2, s2, "ref"], ["add", c, 1, 3, s3, "ref"], ["reroute_parent", c, 1, 0, 2, kind], ["remove", c, 1, 2, ["a"], "ref"]]}
                        yield {"family": "reroute", "cls": cls, "n": 4, "ops": [
                            ["add", c, 1, 0, s1, "ref"], ["add", c, 2, 0, s2, "ref"], ["add", c, 3, 0, s3, "ref"], ["reroute_child", c, 0, 1, 2, kind], ["remove", c, 2, 0, ["a"], "ref"]]}
    rng = ctx.sub("rand")
    n = ctx.n(500, 2500)
    for _ in range(n):
        yield rand_scn(rng)
    rng = ctx.sub("nb")
    for _ in range(ctx.n(60, 400)):
        yield nb_scn(rng)


def rand_scn(rng):
    cls = rng.choice(["cell", "cell", "stmt"])
    n = rng.randint(2, 5)
    ops = []
    for _ in range(rng.randint(3, 22)):
        r = rng.random()
        c = rng.choice(["dynamic", "static"])
        i, j = rng.randrange(n), rng.randrange(n)
        ss = rng.sample(SYMS, rng.choice([0, 1, 1, 2, 3]))
        kind = rng.choice(["ref", "id", "ts"])
        if r < 0.5:
            ops.append([rng.choice(["add", "add", "add1"]), c, i, j, ss, kind])
        elif r < 0.68:
            ops.append([rng.choice(["remove", "remove1"]), c, i, j, ss, kind])
        elif r < 0.84:
            ops.append(["exec", i])
        elif r < 0.93 and cls == "cell":
            ops.append(["rename", i])
        else:
            ops.append([rng.choice(["reroute_parent", "reroute_child"]), c, i, j, rng.randrange(n), rng.choice(["ref", "id"])])
    return {"family": "random-" + cls, "cls": cls, "n": n, "ops": ops}


VARS = ["x", "y", "z", "w"]


def nb_scn(rng):
    ops = []
    n = rng.randint(2, 5)
    for _ in range(rng.randint(3, 9)):
        cid = rng.randrange(1, n + 1)
        k = rng.randint(1, 2)
        lines = []
        for _ in range(k):
            tgt = rng.choice(VARS)
            used = rng.sample(VARS, rng.randint(0, 2))
            r = rng.random()
            if r < 0.6:
                lines.append("%s = %s" % (tgt, " + ".join(used + ["1"])))
            elif r < 0.75:
                lines.append("%s = [%s]" % (tgt, ", ".join(used)))
            elif r < 0.85:
                lines.append("del %s" % tgt)
            else:
                lines.append("%s += 1" % tgt)
        ops.append([cid, "\n".join(lines)])
    return {"family": "notebook", "n": n, "ops": ops}


def norm(d):
    return {k: frozenset(v) for k, v in d.items() if v}


def run(scn):
    if scn["family"] == "notebook":
        return run_nb(scn)
    Cell, Statement, syms = world(scn["family"])
    name = {v: k for k, v in syms.items()}
    bad = []
    is_cell = scn["cls"] == "cell"
    cls = Cell if is_cell else Statement
    objs = []  # current object per index
    allv = []  # every version: dict(obj, P={ctx:{id:set}}, G=group, prev)
    nodes = [ast.parse("pass").body[0] for _ in range(scn["n"])]
    ids = []
    stmtctr = itertools.count(1)

    def create(i):
        if is_cell:
            o = Cell.create_and_track(ids[i], "pass", (), validate_ipython_counter=False)
        else:
            from ipyflow.data_model.timestamp import Timestamp
            o = Statement.create_and_track(nodes[i], timestamp=Timestamp(500, next(stmtctr)))
        prev = None
        for v in reversed(allv):
            if v["i"] == i:
                prev = v
                break
        if not is_cell and prev is not None:
            # the table maps an id to the first statement seen with it
            prev = [v for v in allv if v["i"] == i][0]
        rec = {"obj": o, "i": i, "P": {"dynamic": {}, "static": {}}, "prev": prev,
               "C": prev["C"] if (prev is not None and is_cell) else {"dynamic": {}, "static": {}}}
        # one children table per context, shared between the versions of a cell
        if prev is not None and is_cell:
            rec["C"] = dict(prev["C"])
        allv.append(rec)
        return rec

    for i in range(scn["n"]):
        ids.append("id%d" % i if is_cell else id(nodes[i]))
        create(i)

    def latest(i):
        return [v for v in allv if v["i"] == i][-1]

    def by_id(i):
        return latest(i) if is_cell else [v for v in allv if v["i"] == i][0]

    def rid(rec):
        return ids[rec["i"]]

    def compare(op):
        from ipyflow.slicing.context import slicing_context
        for rec in allv:
            o = rec["obj"]
            cur = latest(rec["i"]) is rec
            for c in ("dynamic", "static"):
                got = norm(getattr(o, "raw_%s_parents" % c))
                exp = norm(rec["P"][c])
                with slicing_context(c == "static"):
                    got2 = norm(o.raw_parents)
                if got != exp or got2 != exp:
                    bad.append(("parents-mismatch", "after %s: %s parents of object %d are %s, expected %s" % (op, c, rec["i"], show(got), show(exp))))
                if is_cell and not cur:
                    continue
                got = norm(getattr(o, "raw_%s_children" % c))
                exp = norm(rec["C"][c])
                with slicing_context(c == "static"):
                    got2 = norm(o.raw_children)
                if got != exp or got2 != exp:
                    bad.append(("children-mismatch", "after %s: %s children of object %d are %s, expected %s" % (op, c, rec["i"], show(got), show(exp))))

    def show(d):
        return {k: sorted(name.get(s, "?") for s in v) for k, v in d.items()}

    from ipyflow.slicing.context import slicing_context
    for op in scn["ops"]:
        if bad:
            break
        k = op[0]
        if k == "exec":
            create(op[1])
        elif k == "rename":
            i = op[1]
            old, new = ids[i], ids[i] + "'"
            rec = latest(i)
            if rec["prev"] is not None or any(old in rec["P"][c] or old in rec["C"][c] for c in ("dynamic", "static")):
                continue  # only a cell run once under a placeholder id is ever renamed
            rec["obj"].update_id(new)
            ids[i] = new
            if Cell.from_id(new) is not rec["obj"] or Cell.from_id_nullable(old) is not None:
                bad.append(("rename-table", "after renaming %s to %s the cell table does not follow" % (old, new)))
            for c in ("dynamic", "static"):
                for j in range(scn["n"]):
                    v = latest(j)
                    # only edges recorded on the renamed cell are reachable for renaming
                    if ids[j] in rec["P"][c] and old in v["C"][c]:
                        v["C"][c] = {(new if q == old else q): s for q, s in v["C"][c].items()}
                    if ids[j] in rec["C"][c]:
                        for v in [x for x in allv if x["i"] == j]:
                            v["P"][c] = {(new if q == old else q): s for q, s in v["P"][c].items()}
        elif k in ("add", "add1", "remove", "remove1"):
            _, c, i, j, ss, kind = op
            if k.endswith("1"):
                ss = ss[:1]
                if not ss:
                    continue
            child = latest(i)
            if kind == "ref":
                par = latest(j)
                ref = par["obj"]
            elif kind == "id":
                par = by_id(j)
                ref = ids[j]
            else:
                vs = [v for v in allv if v["i"] == j]
                par = vs[len(ss) % len(vs)]
                ref = par["obj"].timestamp
            S = {syms[x] for x in ss}
            given = set(S)
            with slicing_context(c == "static"):
                if k == "add":
                    child["obj"].add_parent_edges(ref, given)
                elif k == "add1":
                    child["obj"].add_parent_edge(ref, syms[ss[0]])
                elif k == "remove":
                    child["obj"].remove_parent_edges(ref, given)
                else:
                    child["obj"].remove_parent_edge(ref, syms[ss[0]])
            if given != S:
                bad.append(("argument-modified", "the caller's symbol set was modified by %s" % (op,)))
            pid, cid = rid(par), rid(child)
            if k.startswith("add"):
                if S and pid not in child["C"][c]:
                    if pid == cid:
                        pv = child["prev"]
                        if pv is not None:
                            for q, s in list(pv["P"][c].items()):
                                com = s & S
                                if com:
                                    child["P"][c][q] = child["P"][c].get(q, frozenset()) | com
                                    qr = by_id(ids.index(q))
                                    qr["C"][c][cid] = qr["C"][c].get(cid, frozenset()) | com
                    else:
                        child["P"][c][pid] = child["P"][c].get(pid, frozenset()) | S
                        par["C"][c][cid] = par["C"][c].get(cid, frozenset()) | S
            elif S:
                for tab, q in ((child["P"][c], pid), (par["C"][c], cid)):
                    if q in tab:
                        tab[q] = tab[q] - S
                        if not tab[q]:
                            del tab[q]
        else:
            _, c, i, j, l = op[:5]
            kind = op[5] if len(op) > 5 else "ref"
            me = latest(i)
            old, new = (latest(j), latest(l)) if kind == "ref" else (by_id(j), by_id(l))
            A, B = ("P", "C") if k == "reroute_parent" else ("C", "P")
            if i in (j, l) or rid(old) not in me[A][c] or rid(me) not in old[B][c]:
                continue
            with slicing_context(c == "static"):
                getattr(me["obj"], "replace_parent_edges" if k == "reroute_parent" else "replace_child_edges")(
                    *([old["obj"], new["obj"]] if kind == "ref" else [rid(old), rid(new)]))
            s = me[A][c].pop(rid(old))
            old[B][c].pop(rid(me))
            me[A][c][rid(new)] = me[A][c].get(rid(new), frozenset()) | s
            new[B][c][rid(me)] = new[B][c].get(rid(me), frozenset()) | s
        compare(op)
    # no symbol set may be shared between edges that are independent
    sets = {}
    for rec in allv:
        if is_cell and latest(rec["i"]) is not rec:
            continue
        for c in ("dynamic", "static"):
            for side in ("parents", "children"):
                for q, s in getattr(rec["obj"], "raw_%s_%s" % (c, side)).items():
                    key = (rec["i"], c, side, q)
                    if id(s) in sets:
                        bad.append(("aliased-edge", "edges %s and %s share one symbol set" % (sets[id(s)], key)))
                    sets[id(s)] = key
    return bad


def run_nb(scn):
    from ipyflow.data_model.cell import cells
    base.reset()
    base.settings(static_slicing_enabled=True, dynamic_slicing_enabled=True)
    bad = []
    for cid, code in scn["ops"]:
        base.run_cell(code, cell_id=cid)
        tab = {cl.cell_id: cl for cl in cells().current_cells_for_each_id()}
        for cl in tab.values():
            for c in ("dynamic", "static"):
                for pid, s in getattr(cl, "raw_%s_parents" % c).items():
                    if pid == cl.cell_id:
                        bad.append(("self-edge", "cell %s lists itself as a %s parent after %r" % (pid, c, code)))
                        continue
                    if pid not in tab:
                        bad.append(("unknown-parent", "cell %s lists unknown parent %s" % (cl.cell_id, pid)))
                        continue
                    back = getattr(tab[pid], "raw_%s_children" % c).get(cl.cell_id, set())
                    if not set(s) <= set(back):
                        bad.append(("one-sided-edge", "after running %r in cell %s: cell %s has %s parent %s for %s but that cell lists %s" % (
                            code, cid, cl.cell_id, c, pid, s, back)))
    return bad
