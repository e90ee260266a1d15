"""C02: slices are exactly the version-adjusted transitive dependencies, once each, in time order."""
import ast

from . import base

SYMS = ["a", "b"]


def SCENARIOS(ctx):
    # small exhaustive: a chain/diamond/cycle among three re-executed cells
    for cls in ("cell", "stmt"):
        for dyn, sta in ((True, False), (False, True), (True, True), (False, False)):
            for order in ([0, 1, 2], [0, 1, 2, 0, 1, 2], [0, 1, 0, 2], [2, 1, 0, 1, 2], [0, 0, 1, 1, 2, 0]):
                for edges in ([[1, 0, 0], [2, 1, 0]], [[1, 0, 1], [2, 1, 0]], [[1, 0, 0], [2, 0, 1], [2, 1, 1]], [[0, 1, 0], [1, 2, 0], [2, 0, 0]]):
                    ops = []
                    for i in order:
                        ops.append(["exec", i])
                        for c, p, k in edges:
                            if c == i:
                                ops.append(["edge", c, p, ["dynamic", "static"][k]])
                    ops += [["slice", [[j, "obj"]], False] for j in range(len(order))]
                    yield {"family": "small", "cls": cls, "n": 3, "dyn": dyn, "sta": sta, "ops": ops}
    rng = ctx.sub("rand")
    for _ in range(ctx.n(450, 2500)):
        yield rand_scn(rng)
    rng = ctx.sub("nb")
    for _ in range(ctx.n(90, 600)):
        yield nb_scn(rng)


def rand_scn(rng):
    cls = rng.choice(["cell", "stmt"])
    n = rng.randint(2, 6)
    ops = [["exec", i] for i in range(n)]
    k = n
    for _ in range(rng.randint(6, 30)):
        r = rng.random()
        if r < 0.3:
            ops.append(["exec", rng.randrange(n)])
            k += 1
        elif r < 0.8:
            ops.append(["edge", rng.randrange(n), rng.randrange(n), rng.choice(["dynamic", "static"])])
        elif r < 0.84 and cls == "stmt":
            ops.append(["override", rng.randrange(k), ""])
        else:
            ops.append(["slice", [[rng.randrange(k), rng.choice(["obj", "ts", "ctr"])] for _ in range(rng.randint(1, 3))], rng.random() < 0.2])
    ops += [["slice", [[rng.randrange(k), "obj"]], False] for _ in range(3)]
    return {"family": "random-" + cls, "cls": cls, "n": n, "dyn": rng.random() < 0.8, "sta": rng.random() < 0.7, "ops": ops}


VARS = ["x", "y", "z", "w"]


def nb_scn(rng):
    n = rng.randint(2, 5)
    ops = []
    for _ in range(rng.randint(4, 10)):
        lines = []
        for _ in range(rng.randint(1, 3)):
            t = rng.choice(VARS)
            used = rng.sample(VARS, rng.randint(0, 2))
            r = rng.random()
            if r < 0.55:
                lines.append("%s = %s" % (t, " + ".join(used + [str(rng.randint(0, 9))])))
            elif r < 0.7:
                lines.append("%s = %s\n%s += 1" % (t, rng.randint(0, 9), t))
            elif r < 0.8:
                lines.append("if %s:\n    %s = %s" % (rng.choice(["True", t]), t, " + ".join(used + ["1"])))
            elif r < 0.9:
                lines.append("for _i in range(2):\n    %s = %s" % (t, " + ".join(used + ["_i"])))
            else:
                lines.append("(lambda: %s)" % t)
        ops.append([rng.randrange(1, n + 1), "\n".join(lines)])
    return {"family": "notebook", "dyn": rng.random() < 0.85, "sta": rng.random() < 0.6, "ops": ops}


NOPREV = []


# ------------------------------------------------------------------------ oracle
def ts(o):
    t = o.timestamp
    return (t.cell_num, t.stmt_num)


def table(o, ctx):
    return getattr(o, "raw_%s_parents" % ctx)


def adjust(parent, child):
    while parent is not None and ts(parent) > ts(child) and not getattr(parent, "override", False):
        parent = parent.prev
    return parent


def oracle(cls, seeds, ctxs):
    """Closure by saturation over the recorded edge tables (no use of the code's own walk)."""
    todo, clo = list(seeds), []
    while todo:
        o = todo.pop()
        if any(o is c for c in clo):
            continue
        clo.append(o)
        for c in ctxs:
            for pid in list(table(o, c)):
                p = adjust(cls.from_id(pid), o)
                if p is None:
                    NOPREV.append((ts(o), pid))
                    return None
                todo.append(p)
    return clo


def check(cls, seeds, objs, ctxs, seed_only, where, bad):
    want = list(dict.fromkeys(objs)) if seed_only else oracle(cls, objs, ctxs)
    if want is None:
        return
    uniq = []
    for o in want:
        if not any(o is u for u in uniq):
            uniq.append(o)
    from ipyflow.slicing.context import slicing_ctx_var
    before = slicing_ctx_var.get()
    got = cls.make_multi_slice(seeds, seed_only=seed_only)
    if slicing_ctx_var.get() is not before:
        bad.append(("context", "%s: slicing left the context at %r" % (where, slicing_ctx_var.get())))
    desc = lambda l: sorted(ts(o) for o in l)
    if sorted(map(id, got)) != sorted(map(id, uniq)):
        bad.append(("closure", "%s: slice of %s is %s, but the dependencies reached from it are %s" % (where, desc(objs), desc(got), desc(uniq))))
        return
    if [ts(o) for o in got] != sorted(ts(o) for o in got):
        bad.append(("order", "%s: slice not in time order: %s" % (where, [ts(o) for o in got])))
    # grouping and text
    d = cls.make_cell_dict_multi_slice(seeds, seed_only=seed_only)
    exp = {}
    for o in got:
        exp.setdefault(o.timestamp.cell_num, []).append(o.text)
    exp = {k: "\n".join(v) for k, v in exp.items()}
    if d != exp:
        bad.append(("grouping", "%s: per-cell text %r, expected %r" % (where, d, exp)))
    if len(seeds) == 1 and not seed_only and hasattr(seeds[0], "make_slice"):
        if list(map(id, seeds[0].make_slice())) != list(map(id, got)):
            bad.append(("make_slice", "%s: make_slice differs from make_multi_slice" % where))
        if seeds[0].make_cell_dict_slice() != d:
            bad.append(("make_slice", "%s: make_cell_dict_slice differs" % where))
    try:
        s = cls.format_multi_slice(seeds, blacken=False, seed_only=seed_only, format_type=str)
        s2 = cls.format_multi_slice(seeds, blacken=False, seed_only=seed_only, format_type=str, include_cell_headers=False)
    except KeyError:
        return  # a bare counter does not name one statement
    if any(c_.skipped_due_to_memoization_ctr != -1 for c_ in _cells(objs)):
        return
    nums = sorted(exp)
    t1 = "\n\n".join("# Cell %d\n%s" % (k, exp[k]) for k in nums).strip()
    t2 = "\n".join(exp[k] for k in nums).strip()
    if str(s) != t1:
        bad.append(("text", "%s: formatted slice %r, expected %r" % (where, str(s), t1)))
    if str(s2) != t2:
        bad.append(("text", "%s: formatted slice without headers %r, expected %r" % (where, str(s2), t2)))


def _cells(objs):
    from ipyflow.data_model.cell import cells
    out = []
    for o in objs:
        c = cells()._cell_by_cell_ctr.get(o.timestamp.cell_num)
        if c is not None:
            out.append(c)
    return out


def run(scn):
    base.reset()
    base.settings(static_slicing_enabled=scn["sta"], dynamic_slicing_enabled=scn["dyn"])
    ctxs = [c for c, on in (("dynamic", scn["dyn"]), ("static", scn["sta"])) if on]
    return run_nb(scn, ctxs) if scn["family"] == "notebook" else run_syn(scn, ctxs)


def run_syn(scn, ctxs):
    from ipyflow.data_model.cell import Cell, cells
    from ipyflow.data_model.statement import Statement
    from ipyflow.data_model.timestamp import Timestamp
    from ipyflow.singletons import flow
    from ipyflow.slicing.context import dynamic_slicing_context, static_slicing_context

    cm = {"dynamic": dynamic_slicing_context, "static": static_slicing_context}
    base.run_cell("a = 0; b = 1", cell_id="seed")
    syms = {n: flow().global_scope[n] for n in SYMS}
    is_cell = scn["cls"] == "cell"
    cls = Cell if is_cell else Statement
    nodes = [ast.parse("v%d = %d" % (i, i)).body[0] for i in range(scn["n"])]
    vers, latest, bad = [], {}, []
    for k, op in enumerate(scn["ops"]):
        where = "op %d %s" % (k, op)
        if op[0] == "exec":
            i = op[1]
            c = Cell.create_and_track("id%d" % i, "v%d = %d" % (i, k), (), validate_ipython_counter=False)
            if is_cell:
                o = c
            else:
                # several statements share a cell number, so that the statement position matters
                o = Statement.create_and_track(nodes[i], timestamp=Timestamp(c.cell_ctr - (c.cell_ctr % 2), c.cell_ctr % 2))
            vers.append(o)
            latest[i] = o
        elif op[0] == "edge":
            c, p = op[1], op[2]
            if c not in latest or p not in latest or c == p:
                continue
            child, par = latest[c], latest[p]
            # an execution only depends on things that existed when it ran
            if adjust(cls.from_id(par.id), child) is None:
                continue
            with cm[op[3]]():
                child.add_parent_edges(par.id, {syms["a"]})
        elif op[0] == "override":
            if op[1] < len(vers):
                vers[op[1]].override = True
        elif op[0] == "slice":
            seeds, objs = [], []
            for j, kind in op[1]:
                if j >= len(vers):
                    continue
                o = vers[j]
                if kind == "ts" or (kind == "ctr" and not is_cell):
                    seeds.append(o.timestamp)
                elif kind == "ctr":
                    seeds.append(o.cell_ctr)
                else:
                    seeds.append(o)
                objs.append(o)
            if seeds:
                check(cls, seeds, objs, ctxs, op[2], where, bad)
        if bad:
            break
    return bad


def run_nb(scn, ctxs):
    from ipyflow.data_model.cell import cells
    from ipyflow.data_model.statement import statements

    bad = []
    for k, (cid, code) in enumerate(scn["ops"]):
        base.run_cell(code, cell_id=cid)
    C, S = cells(), statements()
    for ctr in sorted(C._cell_by_cell_ctr):
        c = C.at_counter(ctr)
        check(C, [c], [c], ctxs, False, "cell %d of %s" % (ctr, scn["ops"]), bad)
        check(C, [ctr], [c], ctxs, True, "cell %d" % ctr, bad)
        st = [t for t in (c._get_stmt_timestamps() if c.executed_content else []) if S.all_at_timestamp(t)]
        for t in sorted(st, key=lambda t: t.stmt_num):
            o = S.at_timestamp(t)
            check(S, [o], [o], ctxs, False, "statement %s" % (tuple(t),), bad)
        if len(st) == c.num_stmts if c.executed_content else False:
            objs = [S.at_timestamp(t) for t in st]
            want = oracle(S, objs, ctxs)
            if want is not None:
                got = c.compute_slice_stmts()
                if {id(o) for o in got} != {id(o) for o in want} or [ts(o) for o in got] != sorted(map(ts, got)):
                    bad.append(("cell-stmts", "cell %d: statement slice %s, expected %s" % (ctr, [ts(o) for o in got], sorted(map(ts, want)))))
                exp = {}
                for o in sorted(want, key=ts):
                    exp.setdefault(ts(o)[0], []).append(o.text)
                got_t = c.slice(stmts=True, format_type=str).raw_slice
                if {k: norm(v) for k, v in got_t.items()} != {k: norm("\n".join(v)) for k, v in exp.items()}:
                    bad.append(("cell-slice-stmts", "cell %d: slice(stmts=True) is %r, expected the statements %r" % (ctr, got_t, exp)))
                own = {ctr: norm("\n".join(o.text for o in sorted(objs, key=ts)))}
                got_t = c.code(stmts=True, format_type=str).raw_slice
                if {k: norm(v) for k, v in got_t.items()} != own:
                    bad.append(("cell-code-stmts", "cell %d: code(stmts=True) is %r, expected its own statements %r" % (ctr, got_t, own)))
        if bad:
            break
    return bad


def norm(src):
    try:
        return ast.dump(ast.parse(src))
    except SyntaxError:
        return src
