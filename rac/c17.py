"""C17 cell versions: counters, ids, history, tags, positions; renaming a placeholder."""
from . import base

TAGS = ["t", "u", "v"]
RTAGS = ["$r", "$$s"]


def SCENARIOS(ctx):
    rng = ctx.sub("api")
    for _ in range(ctx.n(700, 6000)):
        yield {"family": "api", "ops": [op(rng) for _ in range(rng.randint(3, 18))]}
    rng = ctx.sub("nb")
    for _ in range(ctx.n(60, 500)):
        ops = []
        for _ in range(rng.randint(3, 10)):
            r = rng.random()
            if r < 0.75:
                ops.append(["cell", rng.choice(["c0", "c1", "c2", "c3"]), rng.choice(["x = %d", "y = %d; 1 / 0", "z = %d", "%%memoize\nw = %d", "syntax error %d"]) % rng.randint(0, 2)])
            else:
                ops.append(["tag", rng.choice(TAGS), rng.random() < 0.35])
        yield {"family": "notebook", "ops": ops}


def op(rng):
    r = rng.random()
    i = rng.randrange(5)
    if r < 0.45:
        return ["run", i, rng.sample(TAGS, rng.choice([0, 0, 1, 2])), rng.random() < 0.5]
    if r < 0.55:
        return ["new", i, rng.sample(TAGS, rng.choice([0, 0, 1]))]
    if r < 0.7:
        return ["rename", i]
    if r < 0.8:
        return ["reactive", i, rng.choice(RTAGS + TAGS)]
    if r < 0.9:
        order = [j for j in range(5) if rng.random() < 0.7]
        rng.shuffle(order)
        return ["order", order]
    return ["tag", i, rng.choice(TAGS), rng.random() < 0.4]


class Model:
    def __init__(self):
        self.ctr = 0
        self.all = []  # versions, in order of creation
        self.cur = {}  # id -> version
        self.pos = {}  # id -> position
        self.byp = {}
        self.react = {}

    def create(self, i, tags, run, placeholder=False):
        prev = self.cur.get(i)
        if run:
            self.ctr += 1
        v = {"id": i, "ctr": self.ctr if run else -1, "prev": prev, "tags": set(tags) | (prev["tags"] if prev else set()),
             "history": (prev["history"] if prev else []) + ([self.ctr] if run else []), "ph": placeholder, "n": len(self.all)}
        self.all.append(v)
        self.cur[i] = v
        for s in self.react.values():
            s.discard(i)
        return v

    def rename(self, v, new):
        old = v["id"]
        while v is not None:
            v["id"], v["ph"] = new, False
            v = v["prev"]
        self.cur[new] = self.cur.pop(old)
        if old in self.pos:
            p = self.pos[new] = self.pos.pop(old)
            if self.byp.get(p) == old:
                self.byp[p] = new
        for s in self.react.values():
            if old in s:
                s.discard(old)
                s.add(new)

    def order(self, ids):
        new = {i: k for k, i in enumerate(ids)}
        self.byp = {k: i for i, k in new.items()}
        for i in self.pos:
            new.setdefault(i, float("inf"))
        self.pos = new


def fails(f, *a):
    try:
        f(*a)
    except KeyError:
        return False
    return True


def compare(M, real, where, bad, positions=True):
    from ipyflow.data_model.cell import cells
    from ipyflow.data_model.timestamp import Timestamp

    C = cells()

    def chk(key, what, got, want):
        if got != want:
            bad.append((key, "%s: %s is %r, expected %r" % (where, what, got, want)))
    chk("counter", "the execution counter", C.exec_counter(), M.ctr)
    chk("counter", "the next execution counter", C.next_exec_counter(), M.ctr + 1)
    R = lambda v: None if v is None else real[v["n"]]
    for v in M.all:
        c = R(v)
        chk("version", "version %d: id, counter" % v["n"], (c.cell_id, c.id, c.cell_ctr, c.is_executed), (v["id"], v["id"], v["ctr"], v["ctr"] > -1))
        chk("prev", "version %d: the previous version" % v["n"], (c.prev_cell, c.prev), (R(v["prev"]),) * 2)
        chk("history", "version %d: history" % v["n"], list(c.history), v["history"])
        chk("tags", "version %d: tags" % v["n"], set(c.tags), v["tags"])
        chk("current", "version %d: being the latest" % v["n"], (c.is_current, c.is_current_for_id), (M.cur[v["id"]] is v,) * 2)
        if v["ctr"] > -1:
            chk("by-counter", "at counter %d" % v["ctr"], (C.at_counter(v["ctr"]), C.from_counter(v["ctr"]), C.at_timestamp(v["ctr"]), C.at_timestamp(Timestamp(v["ctr"], 0))), (c,) * 4)
    chk("by-counter", "something at an unused counter", (fails(C.at_counter, M.ctr + 1), fails(C.at_counter, -1)), (False, False))
    for i, v in M.cur.items():
        chk("by-id", "the cell with id %s" % (i,), (C.from_id(i), C.from_id_nullable(i), C.has_id(i)), (R(v), R(v), True))
    for i in {v["id"] for v in M.all} | set(range(-12, 0)) | {"p%d" % k for k in range(5)}:
        if i not in M.cur:
            chk("by-id", "a cell with the unused id %s" % (i,), (C.from_id_nullable(i), C.has_id(i), fails(C.from_id, i)), (None, False, False))
    chk("all", "the latest versions", sorted(map(id, C.current_cells_for_each_id())), sorted(id(R(v)) for v in M.cur.values()))
    chk("all", "the latest versions by counter", [c.cell_ctr for c in C.iterate_over_notebook_in_counter_order()], sorted(v["ctr"] for v in M.cur.values()))
    chk("all", "the ids of all executed versions", sorted(map(str, C.all_executed_cell_ids())), sorted(str(v["id"]) for v in M.all if v["ctr"] > 0))
    if M.ctr:
        chk("current", "the cell run last", C.current_cell(), R([v for v in M.all if v["ctr"] == M.ctr][0]))
    chk("placeholders", "the cells with placeholder ids", [c.cell_ctr for c in C.with_placeholder_ids()], sorted(v["ctr"] for v in M.cur.values() if v["ph"]))
    for t in TAGS:
        chk("by-tag", "the cells tagged %s" % t, sorted(map(repr, C.from_tag(t))), sorted(repr(R(v)) for v in M.cur.values() if t in v["tags"]))
    for t in RTAGS + TAGS:
        chk("reactive", "the cells reactive for %s" % t, set(C.get_reactive_ids_for_tag(t)), M.react.get(t, set()))
    if positions:
        for i, v in M.cur.items():
            chk("position", "the position of %s" % (i,), R(v).position, M.pos.get(i, -1))
        for p in range(6):
            want = M.byp.get(p)
            chk("position", "the cell at position %d" % p, C.at_position(p), R(M.cur[want]) if want is not None else None)
        chk("position", "the cells by position", [c.cell_id for c in C.iterate_over_notebook_in_position_order()], [M.byp[p] for p in sorted(M.byp)])


def run(scn):
    return run_api(scn) if scn["family"] == "api" else run_nb(scn)


def run_api(scn):
    from ipyflow import config
    from ipyflow.data_model.cell import Cell
    from ipyflow.line_magics import tag as tag_magic

    base.reset()
    base.settings(flow_order=config.FlowDirection("in_order"), interface=config.Interface("jupyterlab"))
    M, real, bad, ids, names = Model(), [], [], {i: "p%d" % i for i in range(5)}, 0
    for k, o in enumerate(scn["ops"]):
        i = ids.get(o[1]) if not isinstance(o[1], list) else None
        if o[0] == "run":
            real.append(Cell.create_and_track(i, "x = %d" % k, tuple(o[2]), validate_ipython_counter=False, placeholder_id=o[3]))
            M.create(i, o[2], True, o[3])
        elif o[0] == "new":
            if i in M.cur:
                continue
            real.append(Cell.create_and_track(i, "x = %d" % k, tuple(o[2]), bump_cell_counter=False, validate_ipython_counter=False))
            M.create(i, o[2], False)
        elif i is not None and i not in M.cur:
            continue
        elif o[0] == "rename":
            new = "q%d" % names if names % 2 else -(names + 1)
            names += 1
            real[M.cur[i]["n"]].update_id(new)
            M.rename(M.cur[i], new)
            ids[o[1]] = new
        elif o[0] == "reactive":
            real[M.cur[i]["n"]].mark_as_reactive_for_tag(o[2])
            M.react.setdefault(o[2], set()).add(i)
        elif o[0] == "tag":
            v = M.cur[i]
            if v["ctr"] < 1:
                continue
            tag_magic("%s --cell %d%s" % (o[2], v["ctr"], " --remove" if o[3] else ""))
            (v["tags"].discard if o[3] else v["tags"].add)(o[2])
        else:
            want = [ids[j] for j in o[1] if ids[j] in M.cur]
            Cell.set_cell_positions({c: p for p, c in enumerate(want)})
            M.order(want)
        compare(M, real, "op %d %s" % (k, o), bad)
        if bad:
            break
    return bad


def run_nb(scn):
    from ipyflow.data_model.cell import cells
    from ipyflow.line_magics import tag as tag_magic

    base.reset()
    M, real, bad = Model(), [], []
    for k, o in enumerate(scn["ops"]):
        if o[0] == "cell":
            base.run_cell(o[2], cell_id=o[1])
            real.append(cells().from_id(o[1]))
            v = M.create(o[1], (), True)
            if real[-1].current_content.strip() != o[2].split("\n")[-1].strip() and real[-1].current_content.strip() != o[2].strip():
                bad.append(("content", "the version created by %r holds %r" % (o[2], real[-1].current_content)))
        elif not M.all:
            continue
        else:
            tag_magic(o[1] + (" --remove" if o[2] else ""))
            (M.all[-1]["tags"].discard if o[2] else M.all[-1]["tags"].add)(o[1])
        compare(M, real, "op %d %s" % (k, o), bad, positions=False)
        if bad:
            break
    return bad
