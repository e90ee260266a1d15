"""C13 memoized cells against plain execution: when they are skipped, and what a skip leaves behind."""
import copy

from . import base

VALUES = ["0", "1", "True", "1.0", "'1'", "b'1'", "bytearray(b'1')", "[1, 2]", "(1, 2)", "[2, 1]", "[1, [2]]", "[1, (2,)]", "[1.0, 2]", "{1: 2}", "[[1, 2]]",
          "{1: [2]}", "{2: 1}", "{1, 2}", "frozenset([1, 2])", "{(1, 2)}", "{(1, 2.0)}", "{1: 'a', 'b': 2}", "{1: 'a', 'b': 3}", "[]", "()", "{}", "[1]", "[1, 2, 3]",
          "'12'", "['1', 2]", "-1", "10", "[True, 2]", "[{1}, {2: (3,)}]", "[{1}, {2: [3]}]",
          "np.array([1, 2])", "np.array([1.0, 2.0])", "np.array([[1, 2]])", "np.array([1, 2, 3])", "[np.array([1, 2]), 3]", "[np.array([1, 5]), 3]", "np.int64(1)", "list(range(400)) + [1]", "list(range(400)) + [2]"]
# text, variables read, variables always read, conditional?
TEXTS = [("y = repr(x)", "x"), ("y = [repr(x), repr(z)]", "xz"), ("y = repr(x)\nw = type(z).__name__", "xz"), ("y = 7", ""), ("y = len(repr(z))", "z"),
         ("y = repr(x[0])", "x"), ("t = repr(x)\ny = t * 2", "x"), ("y = ''\nfor e in x:\n    y += repr(e)", "x"), ("y = repr(f(x))", "xf"), ("y = repr(f(z))\nw = repr(x)", "xzf"),
         ("if x:\n    y = repr(z)\nelse:\n    y = 'no'", "xz"), ("w = y = repr((x, z))", "xz"), ("print('out', x)\ny = repr(x)", "x"), ("x = [repr(x)]", "x"), ("x += 1", "x"),
         ("x.append(3)\ny = repr(x)", "x"), ("y = repr(x)\nx = 5", "x"), ("x = 5\ny = repr(x)", ""), ("y = [repr(x)]\ny.append(repr(z))", "xz")]
# these update what they read (or, the chained assignment, are taken to): never skipped
OWN = {"y = ''\nfor e in x:\n    y += repr(e)", "w = y = repr((x, z))", "x = [repr(x)]", "x += 1", "x.append(3)\ny = repr(x)", "y = repr(x)\nx = 5"}
FUNS = ["def f(v):\n    return v", "def f(v):\n    return [v]", "def f(v):\n    return (v, z)", "def f(v):\n    return [v]  # same"]
EDITS = ["x.append(4)", "x[0] = 9", "x[1] = 9", "x.extend(b'5')", "z = x", "x[1].append(8)", "x.add(6)", "x[1] = [2]", "z[0] = 3", "x = y", "z = y", "y.append(1)", "x = repr(y)"]


ATTR_TEXTS = ["y = repr(o.x)", "y = [repr(o.x), repr(o.q)]", "y = repr(o.x)\nw = repr(o.q)", "t = o.x\ny = repr(t)", "y = repr(o.q.v)", "y = repr(d['k'])", "y = repr((d['k'], o.x))", "y = repr(o.x) + repr(z)"]
ATTR_OPS = ["o.x = %s", "o.x = %s", "o.q = %s", "o = P()\no.x = %s\no.q = 1", "d['k'] = %s", "d = {'k': %s}", "z = %s", "o.q = P()\no.q.v = %s", "o.q.v = %s"]
ATTR_VALUES = ["0", "1", "'a'", "(1, 2)", "[1, 2]", "[1]", "2.5"]


def attr_scenarios(ctx):
    r = ctx.sub("attrs")
    for _ in range(ctx.n(160, 2500)):
        texts = r.sample(ATTR_TEXTS, r.choice([1, 1, 2]))
        vals = r.sample(ATTR_VALUES, r.choice([2, 2, 3]))
        ops = [["run", "c0", "class P:\n    def __repr__(self):\n        return str(vars(self))\no = P()\no.x = %s\no.q = P()\no.q.v = 1\nd = {'k': %s}\nz = 1" % (r.choice(vals), r.choice(vals))]]
        for _ in range(r.randint(4, 10)):
            if r.random() < 0.5:
                k = r.randrange(len(texts))
                ops.append(["memo", "m%d" % k, texts[k]])
            else:
                t = r.choice(ATTR_OPS)
                ops.append(["run", "e%d" % ATTR_OPS.index(t), t % r.choice(vals)])
        yield {"family": "attrs", "ops": ops}


def run_attrs(scn):
    """inputs behind attributes and elements: a memoized cell leaves what plain execution leaves"""
    from ipyflow.data_model.cell import Cell
    from ipyflow.singletons import shell

    base.reset()
    sh, plain = shell(), {}
    for n in "oxyzwtd":
        sh.user_ns.pop(n, None)
    for k, op in enumerate(scn["ops"]):
        try:
            exec(compile(op[2], "<plain>", "exec"), plain)
        except Exception:
            pass
        base.run_cell(("%%memoize\n" if op[0] == "memo" else "") + op[2], op[1])
        for n in "yzwt":
            if plain.get(n) != sh.user_ns.get(n):
                ctr = Cell.from_id(op[1]).skipped_due_to_memoization_ctr
                return [("value", "after operation %d %r in cell %s (%s), %s is %r instead of %r" % (k, op[2], op[1], "skipped for run %d" % ctr if ctr > 0 else "executed", n, sh.user_ns.get(n), plain.get(n)))]
    return []


def SCENARIOS(ctx):
    yield from attr_scenarios(ctx)
    i = 0
    r = ctx.sub("pairs")
    pairs = [(a, b) for a in VALUES for b in VALUES]
    r.shuffle(pairs)
    while True:
        for _ in range(2):
            if pairs:
                a, b = pairs.pop()
                t = r.choice(TEXTS[:3])[0]
                yield {"family": "pair", "ops": [["run", "cx", "x = %s" % a], ["run", "cz", "z = 3"], ["memo", "m", t, ""], ["run", "cx", "x = %s" % b], ["memo", "m", t, ""],
                                                 ["run", "cx", "x = %s" % a], ["memo", "m", t, ""]]}
        r2 = ctx.sub("nb%d" % i)
        i += 1
        if not pairs and i > ctx.n(700, 12000):
            return
        vals = r2.sample(VALUES, r2.choice([2, 2, 3, 4]))
        texts = r2.sample(TEXTS, r2.choice([1, 1, 2]))
        if any("bytearray" in v for v in vals):  # its in-place methods are not followed by the tracer
            texts = [t for t in texts if "append(3)" not in t[0]] or TEXTS[:1]
        ops = [["run", "cx", "x = %s" % r2.choice(vals)], ["run", "cz", "z = %s" % r2.choice(vals)], ["run", "cf", r2.choice(FUNS)]]
        for _ in range(r2.randint(5, 14)):
            q = r2.random()
            if q < 0.5:
                k = r2.randrange(len(texts))
                ops.append(["memo", "m%d" % (k if r2.random() < 0.85 else 7), texts[k][0], r2.choice(["", "", "", " -v", " -q"])])
            elif q < 0.8:
                v = r2.choice("xxz")
                ops.append(["run", "c" + v, "%s = %s" % (v, r2.choice(vals))])
            elif q < 0.88:
                ops.append(["run", "cf", r2.choice(FUNS)])
            else:
                ops.append(["run", "e%d" % r2.randrange(2), r2.choice(EDITS)])
        yield {"family": "notebook", "ops": ops}


def key(v, deep=0):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(key(e) for e in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, frozenset(key(e) for e in v))
    if isinstance(v, dict):
        return ("dict", tuple((key(a), key(b)) for a, b in v.items()))
    if type(v).__module__ == "numpy":
        return (type(v).__name__, str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, bytearray):
        return ("bytearray", bytes(v))
    return (type(v).__name__, v)


def shared(v, ids=None):
    """an object occurring twice, a large one or an array: its comparable is allowed to be unavailable"""
    if type(v).__module__ == "numpy" or isinstance(v, list) and len(v) > 50:
        return True
    ids = set() if ids is None else ids
    if isinstance(v, (list, dict, set, frozenset)):
        if id(v) in ids:
            return True
        ids.add(id(v))
    if isinstance(v, dict):
        return any([shared(x, ids) for kv in v.items() for x in kv])
    if isinstance(v, (list, tuple, set, frozenset)):
        return any([shared(x, ids) for x in v])
    return False


def run(scn):
    if scn["family"] == "attrs":
        return run_attrs(scn)
    import numpy

    from ipyflow.data_model.cell import Cell
    from ipyflow.singletons import flow, shell

    base.reset()
    sh, bad = shell(), []
    for n in ("x", "y", "z", "w", "t", "f", "e"):
        sh.user_ns.pop(n, None)
    plain = {"np": numpy}
    base.run_cell("import numpy as np", "c0")
    runs, seen, left = {}, set(), {}
    reads = dict(TEXTS)
    edits = any(op[0] == "run" and op[1][0] == "e" for op in scn["ops"])  # these may make cells depend on each other in a cycle
    for k, op in enumerate(scn["ops"]):
        memo = op[0] == "memo"
        text = op[2]
        fsrc = plain.get("$f", "")
        state = None
        if memo:
            vs = reads[text]
            if all(v in plain for v in vs):
                full = set(vs) | ({"z"} if "f" in vs and "z)" in fsrc.split("return")[-1] else set())
                if all(v in plain for v in full):
                    state = tuple((v, fsrc.split("#")[0].rstrip() if v == "f" else key(plain[v])) for v in sorted(full))
        simple = state is not None and not any(shared(plain[v]) for v, _ in state if v != "f")
        # plain execution of the same operation
        buf = []
        plain["print"] = lambda *a: buf.append(" ".join(map(str, a)))
        try:
            exec(compile(text, "<plain>", "exec"), plain)
            ok = True
        except Exception:
            ok = False
        if text.startswith("def f"):
            plain["$f"] = text
        success, out = base.run_cell(("%%memoize" + op[3] + "\n" + text) if memo else text, op[1])
        cell = Cell.from_id(op[1])
        ctr = cell.skipped_due_to_memoization_ctr
        what = "operation %d %r in cell %s" % (k, text, op[1])
        if not memo and ctr > 0:
            bad.append(("skip-plain", "%s: a cell that is not memoized was skipped" % what))
        if memo:
            prior = [c for c in runs.get(text, ()) if state is not None and c[1] == state]
            if ctr > 0 and ctr not in [c[0] for c in prior]:
                bad.append(("stale-skip", "%s was skipped for run %s, but now reads %s; runs of this text: %s" % (what, ctr, state, runs.get(text))))
            if ctr <= 0 and simple and not edits and op[1] in seen and any(c[2] and left.get(c[0]) for c in prior):
                bad.append(("no-skip", "%s was executed although run %s read the same values %s and its results are intact" % (what, prior, state)))
            if ctr > 0 and "print(" in text:
                if ("out " in out) != (op[3] == " -v"):
                    bad.append(("output", "%s was skipped with flags %r but printed %r" % (what, op[3], out[-200:])))
            if ctr <= 0:
                # (own inputs overwritten: such a run is never reused)
                runs.setdefault(text, []).append((cell.cell_ctr, state, ok and simple and text not in OWN))
                if not ok or text in OWN:
                    left[cell.cell_ctr] = False
                else:
                    left[cell.cell_ctr] = True
            else:
                for n in ("y", "w", "t"):
                    if n + " = " in text and n in flow().global_scope:
                        s = flow().global_scope[n]
                        if s.timestamp.cell_num != cell.cell_ctr:
                            bad.append(("stamp", "%s was skipped, but %s is stamped %s in run %d" % (what, n, s.timestamp, cell.cell_ctr)))
                        if s.obj is not sh.user_ns.get(n):
                            bad.append(("symbol", "%s was skipped, but the symbol of %s holds %r instead of %r" % (what, n, s.obj, sh.user_ns.get(n))))
        if text == "y.append(1)":
            left = {}  # a stored result may have been changed: either is fine
        seen.add(op[1])
        for n in ("x", "y", "z", "w", "t"):
            if (n in plain) != (n in sh.user_ns) or n in plain and key(plain[n]) != key(sh.user_ns[n]):
                bad.append(("value", "after %s (%s), %s is %r instead of %r" % (what, "skipped for run %d" % ctr if ctr > 0 else "executed", n, sh.user_ns.get(n, "unbound"), plain.get(n, "unbound"))))
        if bad:
            return bad
    return bad
