"""Runtime side of every check: executes the real ipyflow from /repo on generated
inputs and compares what it does with the specification of the property.

Runs under /opt/venv/bin/python (the interpreter the project runs with).  A property
module defines

    SCENARIOS(ctx)   -> iterator of JSON-able scenarios (deterministic from ctx.seed)
    run(scn)         -> list of (key, message) for every disagreement

A scenario is the complete failing input: ``run.py <ID> --replay FILE`` re-executes one.
"""
import contextlib
import io
import json
import logging
import os
import random
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO_CORE", "/repo/core")
_state = {}


class Ctx:
    def __init__(self, prop, seed, tier, budget, shards=1):
        self.shards = shards
        self.prop, self.seed, self.tier = prop, seed, tier
        self.deadline = time.time() + budget
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.thorough = tier == "thorough"

    def n(self, quick, thorough):
        """size of a family's plan"""
        return thorough * 2 if self.thorough else quick * (3 if self.shards > 1 else 1)

    def sub(self, name):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, name))

    @property
    def time_left(self):
        return self.deadline - time.time()


def boot():
    """Create the ipyflow shell once (the project's own runner does the same)."""
    if _state.get("booted"):
        return
    logging.basicConfig(level=logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    from ipyflow.shell import IPyflowInteractiveShell

    sh = IPyflowInteractiveShell.instance()
    sh.showtraceback = lambda *a, **k: None
    sh.showsyntaxerror = lambda *a, **k: None
    _state["shell"] = sh
    _state["booted"] = True


def reset(**kwargs):
    """A fresh notebook: empty cell/statement/symbol tables and default settings."""
    boot()
    from ipyflow.data_model.cell import Cell
    from ipyflow.data_model.statement import Statement
    from ipyflow.flow import NotebookFlow
    from ipyflow.shell import IPyflowInteractiveShell
    from ipyflow.tracing.ipyflow_tracer import DataflowTracer

    IPyflowInteractiveShell.instance().cleanup_tracers()
    kwargs.setdefault("test_context", True)
    NotebookFlow.clear_instance()
    fl = NotebookFlow.instance(**kwargs)
    DataflowTracer.clear_instance()
    DataflowTracer.reset_bookkeeping()
    DataflowTracer.instance()
    fl.reset_cell_counter()
    Cell.clear()
    Cell._cell_id_by_position.clear()
    Cell._memoized_executions.clear()
    Statement.clear()
    Statement._stmts_by_id.clear()
    IPyflowInteractiveShell.instance().reset()
    return fl


def settings(**kw):
    from ipyflow.singletons import flow

    ms = flow().mut_settings
    for k, v in kw.items():
        assert hasattr(ms, k), k
        setattr(ms, k, v)


def run_cell(code, cell_id=None, pos=None, silent=True):
    """Execute one notebook cell through the real shell. -> (success, stdout)"""
    from ipyflow.data_model.cell import cells
    from ipyflow.singletons import flow, shell

    sh = shell()
    nxt = cells().next_exec_counter()
    sh.execution_count = nxt
    if cell_id is None:
        cell_id = nxt
    flow().set_active_cell(cell_id)
    if pos is None:
        pos = cells()._position_by_cell_id.get(cell_id)
    if pos is None:
        pos = cell_id if isinstance(cell_id, int) else nxt
    cells()._position_by_cell_id[cell_id] = pos
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        res = sh.run_cell(code, cell_id=cell_id)
    sys.last_value = None
    sys.last_traceback = None
    return res.success, out.getvalue()


def enums():
    from ipyflow import config

    return config


class HarnessError(Exception):
    pass


def blame(tb):
    """'code' if the innermost frame inside ipyflow or the harness belongs to ipyflow."""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        if fr.filename.startswith(REPO + os.sep):
            return "code"
        if os.sep + "rac" + os.sep in fr.filename:
            return "harness"
    return "harness"


def execute(mod, scn):
    """-> (violations, harness_error|None)"""
    try:
        return list(mod.run(scn)), None
    except HarnessError as e:
        return [], str(e)
    except Exception as e:
        tb = sys.exc_info()[2]
        text = traceback.format_exc()[-1500:]
        if blame(tb) == "code":
            return [("unexpected-%s" % type(e).__name__, "the code raised %s: %s\n%s" % (type(e).__name__, e, text))], None
        return [], text


def shrink(mod, scn, key, budget=20.0):
    """Greedy removal of operations from scn['ops'] (when present)."""
    end = time.time() + budget
    best = scn
    if not isinstance(scn.get("ops"), list):
        return best
    changed = True
    while changed and time.time() < end:
        changed = False
        n = len(best["ops"])
        for size in (max(1, n // 2), 4, 2, 1):
            i = 0
            while i + size <= len(best["ops"]) and time.time() < end:
                cand = dict(best)
                cand["ops"] = best["ops"][:i] + best["ops"][i + size:]
                v, err = execute(mod, cand)
                if err is None and any(k == key for k, _ in v):
                    best, changed = cand, True
                else:
                    i += size
    return best


def plan(mod, ctx, shard):
    """the scenarios of this shard, families interleaved in proportion to their sizes"""
    scns = list(mod.SCENARIOS(ctx))
    size, at = {}, {}
    for s in scns:
        size[s.get("family", "")] = size.get(s.get("family", ""), 0) + 1
    order = []
    for i, s in enumerate(scns):
        f = s.get("family", "")
        at[f] = at.get(f, -1) + 1
        order.append(((at[f] + 0.5) / size[f], i))
    return [scns[i] for _, i in sorted(order)][shard::ctx.shards]


def main(mod, prop, seed, tier, budget, out, known, shard=0, shards=1):
    ctx = Ctx(prop, seed, tier, budget, shards)
    res = {"property": prop, "scenarios": 0, "violations": [], "known": [], "harness_errors": [], "families": {}, "samples": [], "exhausted": True}
    seen_scn = set()
    t0 = time.time()
    seen_keys = set()
    try:
        boot()
    except Exception:
        tb = sys.exc_info()[2]
        txt = traceback.format_exc()[-2000:]
        if blame(tb) == "code":
            res["violations"].append({"key": "boot", "message": "ipyflow fails to start: " + txt, "scenario": {}})
        else:
            res["harness_errors"].append(txt)
        json.dump(res, open(out, "w"))
        return
    for scn in plan(mod, ctx, shard):
        if time.time() > ctx.deadline:
            res["exhausted"] = False
            break
        v, err = execute(mod, scn)
        res["scenarios"] += 1
        txt = json.dumps(scn, sort_keys=True, default=str)
        seen_scn.add(hash(txt))
        if len(res["samples"]) < 3 and res["scenarios"] % 37 == 1:
            res["samples"].append(txt[:600])
        fam = scn.get("family", "default")
        res["families"][fam] = res["families"].get(fam, 0) + 1
        if err:
            res["harness_errors"].append(err)
            if len(res["harness_errors"]) > 5:
                break
            continue
        for key, msg in v:
            if key in known:
                if key not in [k["key"] for k in res["known"]]:
                    res["known"].append({"key": key, "message": msg[:600]})
                continue
            if key in seen_keys:
                continue
            seen_keys.add(key)
            small = shrink(mod, scn, key)
            v2, _ = execute(mod, small)
            m2 = [m for k, m in v2 if k == key] or [msg]
            res["violations"].append({"key": key, "message": m2[0][:3000], "scenario": small})
        if len(res["violations"]) >= 3:
            res["exhausted"] = False
            break
    res["distinct"] = len(seen_scn)
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(out, "w"), default=str)
