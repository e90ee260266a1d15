"""C09 staleness: what an update makes wait, what it clears, and which cells wait or are ready for it."""
from . import base, c10


def SCENARIOS(ctx):
    rng = ctx.sub("prog")
    for i in range(ctx.n(110, 1500)):
        n = rng.randint(2, 6)
        cells = [[t for t in c if t[0] in ("assign", "aug")] for c in c10.program(rng, n)]
        yield {"family": "program", "cells": cells, "ops": list(range(n)) + [rng.randrange(n) for _ in range(rng.randint(2, 6))]}
    rng = ctx.sub("graph")
    for i in range(ctx.n(220, 4000)):
        n = rng.randint(2, 8)
        yield {"family": "graph", "n": n, "edges": [[a, b] for a in range(n) for b in range(n) if a != b and rng.random() < rng.choice([0.12, 0.25, 0.5])],
               "ops": [[rng.randrange(n), [d for d in range(n) if rng.random() < 0.3], rng.random() < 0.6] for _ in range(rng.randint(1, 3))],
               "off": [d for d in range(n) if rng.random() < 0.08], "bump": rng.random() < 0.7}
    rng = ctx.sub("box")
    for i in range(ctx.n(60, 800)):
        yield {"family": "container", "kind": rng.choice(["list", "dict", "attr"]), "ops": box(rng)}
    rng = ctx.sub("inplace")
    for i in range(ctx.n(70, 700)):
        yield {"family": "inplace", "ops": inplace(rng)}
    rng = ctx.sub("calls")
    for i in range(ctx.n(50, 500)):
        yield {"family": "calls", "ops": [[rng.choice(["g", "g", "f", "f2", "y", "y", "u", "z"]), rng.randrange(2)] for _ in range(rng.randint(3, 9))]}
    rng = ctx.sub("classes")
    for i in range(ctx.n(40, 400)):
        yield {"family": "classes", "ops": [[rng.choice(["inst", "read", "call", "cls", "attr", "base", "whole"]), rng.randrange(2)] for _ in range(rng.randint(3, 9))]}


def inplace(rng):
    ops = [["make", 0, 0], ["read", 0, 0], ["whole", 0, 0]]
    for _ in range(rng.randint(4, 11)):
        ops.append([rng.choice(["make", "alias", "read", "read", "whole", "whole", "append", "augment", "set", "bump", "extend", "other"]), rng.randrange(2), rng.randrange(2)])
    return ops


class Model(c10.Model):
    def __init__(self):
        super().__init__()
        self.ts, self.req, self.now, self.upd = {}, {}, 0, set()

    def cell(self, n):
        self.now, self.upd = n, set()

    def update(self, t, deps, overwrite):
        super().update(t, deps, overwrite)
        self.ts[t], self.req[t] = self.now, -1
        self.upd.add(t)
        seen = {t} | set(deps)
        todo = [t]
        while todo:
            x = todo.pop()
            for y in self.par:
                if x in self.par[y] and y not in seen:
                    seen.add(y)
                    todo.append(y)
                    if y not in self.upd:
                        self.req[y] = self.now

    def waiting(self, v):
        return self.ts[v] < self.req[v]


def reads_live(stmts):
    live, w = set(), set()
    for s in stmts:
        r = set(s[2]) | ({s[1]} if s[0] == "aug" else set()) if s[0] != "pair" else set(s[3]) | set(s[4])
        live |= r - w
        w |= {s[1]} | ({s[2]} if s[0] == "pair" else set())
    return live


def run(scn):
    return globals()["run_" + scn["family"]](scn)


def run_program(scn):
    from ipyflow.data_model.cell import cells

    from ipyflow import config

    fl = base.reset()
    base.settings(flow_order=config.FlowDirection("any_order"))
    M, bad, last = Model(), [], {}
    look = fl.global_scope.lookup_symbol_by_name_this_indentation
    defined = set()
    for step, i in enumerate(scn["ops"]):
        if i >= len(scn["cells"]):
            continue
        stmts = scn["cells"][i]
        if not stmts:
            continue
        src = "\\n".join(c10.text(s) for s in stmts)
        src = src.replace("\\n", "\n")
        if not reads_live(stmts) <= defined:
            continue
        base.run_cell(src, cell_id=i + 1)
        M.cell(cells().exec_counter())
        for s in stmts:
            M.stmt(s)
        defined = set(M.par)
        last[i] = M.now
        where = "step %d: cell %d %r" % (step, i, src)
        for v in sorted(defined):
            s = look(v)
            if s.is_waiting != M.waiting(v):
                bad.append(("waiting", "after %s: %s %s wait (dependencies %s)" % (where, v, "must" if M.waiting(v) else "must not", {k: sorted(map(str, p)) for k, p in M.par.items()})))
        res = fl.check_and_link_multiple_cells()
        for j in last:
            if j == i:
                continue
            live = reads_live(scn["cells"][j])
            w = any(M.waiting(v) for v in live)
            r = not w and any(M.ts[v] > last[j] for v in live)
            if w != (j + 1 in res.waiting_cells):
                bad.append(("cell-waits", "after %s: cell %d (%r) reads %s and %s wait; waiting symbols %s" % (
                    where, j, scn["cells"][j], sorted(live), "must" if w else "must not", sorted(v for v in defined if M.waiting(v)))))
            if r != (j + 1 in res.ready_cells):
                bad.append(("cell-ready", "after %s: cell %d reads %s and %s be ready; updated at %s, cell last ran at %d" % (
                    where, j, sorted(live), "must" if r else "must not", {v: M.ts[v] for v in live}, last[j])))
        if bad:
            break
    return bad


def run_graph(scn):
    """the protocol on an arbitrary graph"""
    from ipyflow.data_model.timestamp import Timestamp
    from ipyflow.data_model.utils.update_protocol import UpdateProtocol
    from ipyflow.singletons import flow, tracer

    base.reset()
    n = scn["n"]
    base.run_cell("\n".join("v%d = object()" % j for j in range(n)))
    base.run_cell("0")
    fl = flow()
    syms = [fl.global_scope.lookup_symbol_by_name_this_indentation("v%d" % j) for j in range(n)]
    kids = {j: set() for j in range(n)}
    for a, b in scn["edges"]:
        syms[a].children.setdefault(syms[b], []).append(Timestamp(1, 0))
        syms[b].parents.setdefault(syms[a], []).append(Timestamp(1, 0))
        kids[a].add(b)
    for d in scn["off"]:
        syms[d].disable_warnings = True
    bad, req, fresh = [], {j: syms[j].required_timestamp for j in range(n)}, {j: set(syms[j].fresher_ancestors) for j in range(n)}
    fl.updated_symbols.clear()
    for k, (u, nd, clean) in enumerate(scn["ops"]):
        if clean:
            fl.updated_symbols.clear()
        tracer().this_stmt_updated_symbols.clear()
        with Timestamp.offset(cell_offset=k + 1):
            UpdateProtocol(syms[u])({syms[d] for d in nd}, False, False, False)
            now = Timestamp.current()
        skip = {syms.index(s) for s in fl.updated_symbols}
        seen, todo = {u} | set(nd), [u]
        req[u] = Timestamp.uninitialized()
        while todo:
            for y in kids[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
                    if y not in skip and y not in scn["off"]:
                        req[y] = now
                        fresh[y].add(syms[u])
        if syms[u] not in tracer().this_stmt_updated_symbols:
            bad.append(("updated", "the updated symbol is not recorded as updated in this statement"))
        for j in range(n):
            if syms[j].required_timestamp != req[j]:
                bad.append(("required", "update %d of v%d (new dependencies %s): v%d requires %s, expected %s; users %s" % (k, u, nd, j, syms[j].required_timestamp, req[j], kids)))
            if set(syms[j].fresher_ancestors) != fresh[j] and j != u:
                bad.append(("fresher", "update %d of v%d: v%d lists fresher ancestors %s, expected %s" % (k, u, j, syms[j].fresher_ancestors, fresh[j])))
            w = j not in scn["off"] and syms[j]._timestamp.cell_num < req[j].cell_num
            if syms[j].is_waiting != w:
                bad.append(("is-waiting", "v%d %s wait (stamped %s, requires %s)" % (j, "must" if w else "must not", syms[j]._timestamp, req[j])))
        if bad:
            break
    return bad


def box(rng):
    ops = [["src", k] for k in range(3)] + [["make", [rng.randrange(3) for _ in range(3)]]]
    for _ in range(rng.randint(4, 10)):
        r = rng.random()
        if r < 0.3:
            ops.append(["read", rng.randrange(3), rng.randrange(3)])
        elif r < 0.4:
            ops.append(["whole", rng.randrange(2)])
        elif r < 0.7:
            ops.append(["src", rng.randrange(3)])
        elif r < 0.9:
            ops.append(["set", rng.randrange(3), rng.randrange(3)])
        else:
            ops.append(["make", [rng.randrange(3) for _ in range(3)]])
    return ops


def run_container(scn):
    """sources s0..s2, a container x of three elements each computed from one source, readers of one element or of all"""
    fl = base.reset()
    kind = scn["kind"]
    el = (lambda k: "x[%d]" % k) if kind == "list" else (lambda k: "x['k%d']" % k) if kind == "dict" else (lambda k: "x.k%d" % k)
    if kind == "attr":
        base.run_cell("class K:\n    pass")
    bad, c, made, srcs = [], 5000, False, set()
    for step, op in enumerate(scn["ops"]):
        c += 10
        if op[0] not in ("src", "make") and not made:
            continue
        if op[0] == "src":
            src = "s%d = %d" % (op[1], c)
            srcs.add(op[1])
        elif op[0] == "make":
            if not set(op[1]) <= srcs:
                continue
            v = ["s%d + %d" % (s, c + k) for k, s in enumerate(op[1])]
            if kind == "list":
                src = "x = [%s]" % ", ".join(v)
            elif kind == "dict":
                src = "x = {%s}" % ", ".join("'k%d': %s" % e for e in enumerate(v))
            else:
                src = "x = K()\n" + "\n".join("x.k%d = %s" % e for e in enumerate(v))
        elif op[0] == "set":
            src = "%s = s%d + %d" % (el(op[1]), op[2], c)
        elif op[0] == "read":
            src = "r%d = %s + %d" % (op[1], el(op[2]), c)
        else:
            src = "w%d = str(x) + '%d'" % (op[1], c)
        base.run_cell(src)
        made |= op[0] == "make"
        look = fl.global_scope.lookup_symbol_by_name_this_indentation
        x = look("x")
        if x is None or x.namespace is None or not made:
            continue
        ns = x.namespace
        sub = {k: ns.lookup_symbol_by_name_this_indentation(k if kind == "list" else "k%d" % k, is_subscript=kind != "attr") for k in range(3)}
        if any(s is None for s in sub.values()):
            continue
        if op[0] == "src":
            s = look("s%d" % op[1])
            for k in range(3):
                dep = s in sub[k].parents
                if dep and not sub[k].is_waiting:
                    bad.append(("element", "after %r: %s depends on s%d and must wait" % (src, el(k), op[1])))
                if dep and not x.is_waiting:
                    bad.append(("holder", "after %r: x holds %s, which waits, and must wait" % (src, el(k))))
                for j in range(3):
                    r = look("r%d" % j)
                    if r is not None and dep and sub[k] in r.parents and not r.is_waiting:
                        bad.append(("reader", "after %r: r%d reads %s, which waits, and must wait" % (src, j, el(k))))
        elif op[0] == "set":
            if sub[op[1]].is_waiting:
                bad.append(("assigned", "after %r: %s was just assigned and must not wait" % (src, el(op[1]))))
            for j in range(3):
                r = look("r%d" % j)
                if r is not None and sub[op[1]] in r.parents and not r.is_waiting:
                    bad.append(("reader", "after %r: r%d reads %s and must wait" % (src, j, el(op[1]))))
            for j in range(2):
                r = look("w%d" % j)
                if r is not None and x in r.parents and not r.is_waiting:
                    bad.append(("whole", "after %r: w%d reads x and must wait" % (src, j)))
            if not any(s.is_waiting for s in ns.all_symbols_this_indentation()) and x.is_waiting:
                bad.append(("holder", "after %r: nothing x holds waits any more, but x does" % src))
        elif op[0] == "make":
            if x.is_waiting or any(s.is_waiting for s in sub.values()):
                bad.append(("assigned", "after %r: x and its elements were just assigned and must not wait" % src))
        if bad:
            break
    return bad


def run_inplace(scn):
    """lists a and b (sometimes the same object), changed in place or rebound; e<i><k> = <a|b>[k] + c and w<i> = len(<a|b>) + c read them"""
    fl = base.reset()
    bad, c, obj, fresh = [], 500, {}, 0
    read = {}  # reader -> (name, object, element or None)
    stale = set()
    look = fl.global_scope.lookup_symbol_by_name_this_indentation
    base.run_cell("s = 1")
    base.run_cell("o = s + 1")
    for op, i, k in scn["ops"]:
        c += 10
        n, m = "ab"[i], "ab"[1 - i]
        if op != "make" and (m if op == "alias" else n) not in obj:
            continue
        hit = set()
        if op == "make":
            src = "%s = [%d, %d]" % (n, c, c + 1)
            fresh += 1
            obj[n] = fresh
            hit = {r for r, x in read.items() if x[0] == n}
        elif op == "alias":
            src = "%s = %s" % (n, m)
            if obj.get(n) == obj[m]:
                continue
            obj[n] = obj[m]
            hit = {r for r, x in read.items() if x[0] == n}
        elif op == "read":
            r = "e%d%d" % (i, k)
            src = "%s = %s[%d] + %d" % (r, n, k, c)
            read[r] = (n, obj[n], k)
        elif op == "whole":
            r = "w%d" % i
            src = "%s = len(%s) + %d" % (r, n, c)
            read[r] = (n, obj[n], None)
        elif op == "other":
            src = "s = %d" % c
        else:
            src = {"append": "%s.append(%d)", "augment": "%s += [%d]", "extend": "%s.extend([%d])", "set": "%s[{k}] = %d", "bump": "%s[{k}] += %d"}[op].format(k=k) % (n, c)
            hit = {r for r, x in read.items() if x[1] == obj[n] and (x[2] is None or op in ("set", "bump") and x[2] == k)}
        if op in ("make", "alias"):
            # readers of single elements of the old object are not followed to the new one (see DESIGN.md)
            for r in [r for r, x in read.items() if x[0] == n and x[2] is not None]:
                del read[r]
                stale.discard(r)
                hit.discard(r)
        base.run_cell(src)
        if op in ("read", "whole"):
            stale.discard(r)
            if look(r).is_waiting:
                bad.append(("assigned", "after %r: %s was just assigned and must not wait" % (src, r)))
        if op in ("make", "alias", "set", "bump") and look(n).is_waiting and not any(x.is_waiting for x in look(n).namespace.all_symbols_this_indentation()):
            bad.append(("assigned", "after %r: %s was just updated and must not wait" % (src, n)))
        stale |= hit
        for r in sorted(stale):
            if not look(r).is_waiting:
                bad.append(("reader", "after %r: %s reads %s and must wait" % (src, r, read[r])))
        if op != "other" and look("o").is_waiting and not any(x[0] == "other" for x in scn["ops"]):
            bad.append(("unrelated", "after %r: o does not depend on it and must not wait" % src))
        if bad:
            break
    return bad


def run_calls(scn):
    """y = f() reads g0 (or g1 through f2); the cell calling f waits or is ready accordingly"""
    fl = base.reset()
    from ipyflow import config

    base.settings(flow_order=config.FlowDirection("any_order"))
    bad, c = [], 0
    M = Model()
    ts, last = {}, {}
    look = fl.global_scope.lookup_symbol_by_name_this_indentation
    from ipyflow.data_model.cell import cells

    def text(kind, i):
        return {"g": "g%d = %d" % (i, c), "f": "def f():\n    return g0 + %d" % c, "f2": "def h():\n    return f() + g1 + %d" % c,
                "y": "y%d = %s() + %d" % (i, "fh"[i], c), "u": "u = %d" % c, "z": "z%d = y%d + %d" % (i, i, c)}[kind]
    deps = {"y0": {"f", "g0"}, "y1": {"h", "f", "g0", "g1"}, "z0": {"y0"}, "z1": {"y1"}}
    vis = {"y0": {"f", "g0"}, "y1": {"h", "f", "g0", "g1"}, "z0": {"y0"}, "z1": {"y1"}}
    ids = {"g0": 1, "g1": 2, "f": 3, "h": 4, "y0": 5, "y1": 6, "u": 7, "z0": 8, "z1": 9}
    stale, run_at = set(), {}
    seq = [["g", 0], ["g", 1], ["f", 0], ["f2", 0], ["y", 0], ["y", 1], ["z", 0], ["z", 1]] + scn["ops"]
    for kind, i in seq:
        c += 10
        name = {"g": "g%d" % i, "f": "f", "f2": "h", "y": "y%d" % i, "u": "u", "z": "z%d" % i}[kind]
        src = text(kind, i)
        base.run_cell(src, cell_id=ids[name])
        run_at[name] = ts[name] = cells().exec_counter()
        stale.discard(name)
        todo = [name]
        while todo:
            x = todo.pop()
            for y, d in deps.items():
                if x in d and y in run_at and y not in stale and y != name:
                    stale.add(y)
                    todo.append(y)
        for y in run_at:
            s = look(y)
            if y in stale and not s.is_waiting:
                bad.append(("called", "after %r: %s depends on it through calls and must wait" % (src, y)))
            if y == name and s.is_waiting or y[0] in "gu" and s.is_waiting:
                bad.append(("assigned", "after %r: %s must not wait" % (src, y)))
        res = fl.check_and_link_multiple_cells()
        for y in run_at:
            if y == name or y not in vis:
                continue
            w = any(x in stale for x in vis[y])
            r = not w and any(ts[x] > run_at[y] for x in vis[y] if x in ts)
            if w != (ids[y] in res.waiting_cells):
                bad.append(("call-waits", "after %r: the cell computing %s %s wait (symbols waiting %s)" % (src, y, "must" if w else "must not", sorted(stale))))
            if r != (ids[y] in res.ready_cells):
                bad.append(("call-ready", "after %r: the cell computing %s %s be ready" % (src, y, "must" if r else "must not")))
        if bad:
            break
    return bad


def run_classes(scn):
    """class K (base B), instances k0 k1, readers of an attribute and of a method result"""
    fl = base.reset()
    bad, c = [], 0
    have, stale, again = {}, set(), False
    look = fl.global_scope.lookup_symbol_by_name_this_indentation
    base.run_cell("class B:\n    w = 1")
    base.run_cell("class K(B):\n    v = 1\n    def m(self):\n        return self.t + 1")
    for op, i in [["inst", 0], ["inst", 1]] + scn["ops"]:
        c += 10
        hit, done = set(), None
        if op == "inst":
            src, done = "k%d = K()\nk%d.t = %d" % (i, i, c), "k%d" % i
            stale -= {"r%d" % i, "c%d" % i}
            have.pop("r%d" % i, None), have.pop("c%d" % i, None)  # read an attribute of the instance replaced
        elif op == "read":
            src, done = "r%d = k%d.t + %d" % (i, i, c), "r%d" % i
        elif op == "call":
            src, done = "c%d = k%d.m() + %d" % (i, i, c), "c%d" % i
        elif op == "whole":
            src, done = "q%d = len(str(K)) + %d" % (i, c), "q%d" % i
        elif op == "attr":
            src, done = "k%d.t = %d" % (i, c), None
            stale.discard("k%d" % i)
            hit = {"r%d" % i, "c%d" % i}
        elif op == "cls":
            src, done = "class K(B):\n    v = %d\n    def m(self):\n        return self.t + 1" % c, "K"
            hit = {"k0", "k1", "q0", "q1"}
        else:
            src, done = "class B:\n    w = %d" % c, "B"
            hit = {"K", "q0", "q1"}
        base.run_cell(src)
        if done:
            have[done] = c
            stale.discard(done)
            if look(done).is_waiting:
                bad.append(("assigned", "after %r: %s was just assigned and must not wait" % (src, done)))
        stale |= {h for h in hit if h in have}
        have.setdefault("K", 0)
        again |= op == "cls" or op == "inst" and have.get("n%d" % i, 0) > 0
        have["n%d" % i] = have.get("n%d" % i, 0) + (op == "inst")
        if op == "base" and not again:
            # the class waits, but its instances only follow updates of their own class
            for o in ("k0", "k1"):
                if o not in stale and look(o).is_waiting:
                    bad.append(("instances", "after %r: %s must not wait, its class was not updated" % (src, o)))
        if op in ("attr", "read", "call"):
            # using or changing one instance concerns neither the class nor the other instance
            for o in ("K", "B", "k%d" % (1 - i), "r%d" % (1 - i), "c%d" % (1 - i)):
                if o not in stale and o in have and not any(x in stale for x in ("K", "B", "k0", "k1")) and look(o).is_waiting:
                    bad.append(("unrelated", "after %r: %s must not wait" % (src, o)))
        for h in sorted(stale):
            if not look(h).is_waiting:
                bad.append(("class", "after %r: %s must wait" % (src, h)))
        if bad:
            break
    return bad
