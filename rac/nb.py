"""Shared notebook driver: random notebooks run through the real shell and the real
frontend messages; each property module supplies the checks."""
import json

from . import base

VARS = ["x", "y", "z", "w"]
SCHEDULES = ["liveness_based", "dag_based", "hybrid_dag_liveness_based"]


class FakeComm:
    def __init__(self):
        self.sent = []

    def send(self, msg, *a, **k):
        self.sent.append(msg)


def content(rng):
    lines = []
    for _ in range(rng.randint(1, 2)):
        t = rng.choice(VARS)
        used = rng.sample(VARS, rng.randint(0, 2))
        r = rng.random()
        if r < 0.6:
            lines.append("%s = %s" % (t, " + ".join(used + [str(rng.randint(0, 3))])))
        elif r < 0.75:
            lines.append("%s += %s" % (t, rng.choice(VARS + ["1"])))
        elif r < 0.85:
            lines.append("if %s:\n    %s = %s" % (rng.choice(VARS), t, rng.choice(VARS)))
        elif r < 0.93:
            lines.append("lst = [%s]\n%s = lst[0]" % (rng.choice(VARS), t))
        else:
            lines.append("_ = %s" % rng.choice(VARS))
    return "\n".join(lines)


def scenario(rng, steps=(6, 14), schedules=SCHEDULES, orders=("in_order", "any_order")):
    n = rng.randint(3, 6)
    ids = ["c%d" % i for i in range(n)]
    ops = [["init", [[i, content(rng)] for i in ids]]]
    order = list(ids)
    for i in (ids if rng.random() < 0.7 else []):
        ops.append(["exec", i])
    for _ in range(rng.randint(*steps)):
        r = rng.random()
        if r < 0.55:
            ops.append(["exec", rng.choice(ids)])
        elif r < 0.8:
            ops.append(["edit", rng.choice(ids), content(rng)])
        elif r < 0.92:
            rng.shuffle(order)
            ops.append(["order", list(order)])
        else:
            ops.append(["delete", rng.choice(ids)])
    return {"family": "notebook", "sched": rng.choice(schedules), "order": rng.choice(orders),
            "dyn": rng.random() < 0.85, "sta": rng.random() < 0.7, "reactive": rng.random() < 0.3, "ops": ops}


class Notebook:
    def __init__(self, scn):
        from ipyflow import config
        from ipyflow.singletons import flow

        base.reset()
        base.settings(exec_schedule=config.ExecutionSchedule(scn["sched"]), flow_order=config.FlowDirection(scn["order"]),
                      interface=config.Interface.JUPYTERLAB,
                      static_slicing_enabled=scn["sta"], dynamic_slicing_enabled=scn["dyn"])
        self.flow = flow()
        self.order, self.src, self.last, self.response = [], {}, None, None
        self.in_order = scn["order"] == "in_order"
        self.ctxs = [c for c, on in (("dynamic", scn["dyn"]), ("static", scn["sta"])) if on]
        self.listed = set()
        self.seen = set()

    def metadata(self):
        return {c: {"index": k, "content": self.src[c], "type": "code"} for k, c in enumerate(self.order)}

    def message(self, **kw):
        comm = FakeComm()
        req = dict(kw, cell_metadata_by_id=self.metadata())
        self.flow.comm_manager.handle(req, comm=comm)
        self.seen |= set(self.order)
        self.response = comm.sent[-1] if comm.sent else None
        return self.response

    def step(self, op):
        """-> response of the schedule computed after the operation"""
        k = op[0]
        if k == "init":
            for c, src in op[1]:
                self.order.append(c)
                self.src[c] = src
            self.message(type="notify_content_changed")
        elif k == "exec":
            if op[1] not in self.order:
                return None
            base.run_cell(self.src[op[1]], cell_id=op[1])
            self.last = op[1]
        elif k == "edit":
            if op[1] not in self.order:
                return None
            self.src[op[1]] = op[2]
        elif k == "order":
            keep = [c for c in op[1] if c in self.order]
            self.order = keep + [c for c in self.order if c not in keep]
        elif k == "delete":
            if op[1] not in self.order or len(self.order) < 2:
                return None
            self.order.remove(op[1])
        return self.message(type="compute_exec_schedule")

    # ---------------------------------------------------------------- oracle
    def pos(self, cid):
        return self.order.index(cid) if cid in self.order else float("inf")

    def table(self, cell, what, ctxs=None):
        out = {}
        for c in (self.ctxs if ctxs is None else ctxs):
            for i, syms in getattr(cell, "raw_%s_%s" % (c, what)).items():
                out.setdefault(i, set()).update(syms)
        return out

    def deps(self, cell, ctxs=None):
        """{id: symbols} of the dependencies permitted by the flow order"""
        t = self.table(cell, "parents", ctxs)
        if self.in_order:
            t = {i: s for i, s in t.items() if self.pos(i) < self.pos(cell.cell_id)}
        return t


def jsonable(resp):
    try:
        json.loads(json.dumps(resp))
        return None
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
