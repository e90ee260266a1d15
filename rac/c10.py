"""C10 the symbol graph: mirrored edges; what assignments, augmentations and deletions record."""
from . import base

VARS = list("abcdef")


def program(rng, ncells):
    cells, defined = [], set()
    k = 1000
    for _ in range(ncells):
        stmts = []
        for _ in range(rng.randint(1, 3)):
            k += 7
            t = rng.choice(VARS)
            use = rng.sample(sorted(defined), min(len(defined), rng.choice([0, 1, 1, 2, 2, 3])))
            r = rng.random()
            if r < 0.62 or not defined:
                stmts.append(["assign", t, use, k])
                defined.add(t)
            elif r < 0.8:
                t = rng.choice(sorted(defined))
                stmts.append(["aug", t, use, k])
            elif r < 0.9:
                u = rng.choice([v for v in VARS if v != t])
                stmts.append(["pair", t, u, use[:1], use[1:2], k])
                defined |= {t, u}
                break
            else:
                stmts.append(["fail", t, use, k])
                if t not in defined:
                    stmts.pop()
                    continue
                break
        cells.append(stmts)
    return cells


def text(s):
    e = lambda use, k: " + ".join(list(use) + [str(k)])
    if s[0] == "assign":
        return "%s = %s" % (s[1], e(s[2], s[3]))
    if s[0] == "aug":
        return "%s += %s" % (s[1], e(s[2], s[3]))
    if s[0] == "pair":
        return "%s, %s = %s, %s" % (s[1], s[2], e(s[3], s[5]), e(s[4], s[5] + 1))
    return "%s = %s + 1 // 0" % (s[1], e(s[2], s[3]))


class Model:
    """parents of each variable, as stated"""

    def __init__(self):
        self.par = {}

    def update(self, t, deps, overwrite):
        old = self.par.get(t, set())
        deps = set(deps)
        if t in deps or any(t in self.par.get(d, ()) for d in deps):
            overwrite = False
        deps.discard(t)
        self.par[t] = deps | (set() if overwrite else old)

    def stmt(self, s):
        if s[0] == "assign":
            self.update(s[1], s[2], True)
        elif s[0] == "aug":
            self.update(s[1], s[2], False)
        elif s[0] == "pair":
            self.update(s[1], s[3], True)
            self.update(s[2], s[4], True)


def SCENARIOS(ctx):
    rng = ctx.sub("prog")
    for i in range(ctx.n(130, 1500)):
        yield {"family": "program", "ops": program(rng, rng.randint(3, 8))}
    rng = ctx.sub("api")
    for i in range(ctx.n(250, 2500)):
        n = rng.randint(2, 6)
        ops = []
        for _ in range(rng.randint(3, 14)):
            t = rng.randrange(n)
            if rng.random() < 0.1:
                ops.append(["gc", t])
            else:
                ops.append(["upd", t, [d for d in range(n) if rng.random() < 0.35], rng.random() < 0.65] + ([True] if rng.random() < 0.2 else []))
        yield {"family": "direct", "n": n, "ops": ops, "imm": [j for j in range(n) if rng.random() < 0.3], "imp": [j for j in range(n) if rng.random() < 0.1]}
    rng = ctx.sub("mixed")
    for i in range(ctx.n(60, 600)):
        yield {"family": "mixed", "ops": [rng.choice(MIXED) % {"v": rng.choice("xyz"), "w": rng.choice("xyz"), "k": rng.randint(0, 2), "n": i}
                                          for _ in range(rng.randint(4, 10))]}
    rng = ctx.sub("rerun")
    for i in range(ctx.n(60, 600)):
        yield {"family": "mixed", "ops": [rng.choice(NESTED + MIXED) % {"v": rng.choice("xyz"), "w": rng.choice("xyz"), "k": rng.randint(0, 2), "n": 10 * i + j}
                                          for j in range(rng.randint(4, 10))], "ids": [rng.randrange(3) for _ in range(10)]}


MIXED = [
    "%(v)s = [%(k)d, %(n)d]", "%(v)s = {'p': %(n)d, 'q': [1, 2]}", "%(v)s = %(w)s", "%(v)s = [%(w)s, %(n)d]", "%(v)s.append(%(n)d)",
    "%(v)s[%(k)d] = %(w)s", "%(v)s['p'] = %(w)s", "del %(v)s[0]", "def f(a):\n    b = a\n    return [b, %(n)d]\n%(v)s = f(%(w)s)",
    "class C:\n    def __init__(self, a):\n        self.a = a\n%(v)s = C(%(w)s)", "%(v)s.a = %(w)s", "%(v)s = [e for e in %(w)s]",
    "for i in range(3):\n    %(v)s = [i, %(w)s]", "%(v)s.extend([%(n)d, 5])", "%(v)s.pop()", "import math\n%(v)s = math.pi + %(n)d",
    "%(v)s = lambda q: q + %(n)d", "with open('/dev/null') as fh:\n    %(v)s = fh.read()", "%(v)s, %(w)s = [%(w)s, 1], [2, %(n)d]",
    "del %(v)s", "%(v)s = sorted([3, 1, %(n)d])", "%(v)s = (%(w)s, %(w)s)", "%(v)s += [%(n)d]", "%(v)s = str(%(w)s)",
]


NESTED = [
    "%(v)s = [[%(w)s]]\n%(w)s = %(v)s", "%(v)s = [[%(w)s, %(n)d]]", "%(v)s = {'p': {'q': %(w)s}}\ny = %(v)s", "%(v)s = ([%(w)s], [%(n)d, [%(w)s]])\nz = %(v)s",
    "%(v)s = [[%(k)d], [%(n)d]]\nx = %(v)s[0]", "pass", "%(v)s = [dict(p=[%(w)s])]", "%(v)s = [[%(w)s], %(n)d][0]",
]


def everything(fl):
    seen, todo = set(), []
    for al in list(fl.aliases.values()):
        todo.extend(al)
    todo.extend(fl.global_scope.all_symbols_this_indentation())
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        todo.extend(s.parents)
        todo.extend(s.children)
    return seen


def mirror(syms, where, bad):
    for s in syms:
        for p in s.parents:
            if s not in p.children:
                bad.append(("mirror", "%s: %s depends on %s, which does not list it as a user" % (where, s, p)))
        for c in s.children:
            if s not in c.parents:
                bad.append(("mirror", "%s: %s lists %s as a user, which does not depend on it" % (where, s, c)))


def run(scn):
    return {"program": run_program, "direct": run_direct, "mixed": run_mixed}[scn["family"]](scn)


def run_program(scn):
    fl = base.reset()
    M, bad, defined = Model(), [], set()
    for n, cell in enumerate(scn["ops"]):
        stmts = [s for s in cell if all(u in defined or True for u in s[2])]
        src = "\n".join(text(s) for s in stmts)
        ok, _ = base.run_cell(src)
        d2 = set(defined)
        for s in stmts:
            reads = set(s[2]) | ({s[1]} if s[0] in ("aug",) else set()) if s[0] != "pair" else set(s[3]) | set(s[4])
            if s[0] == "fail" or not reads <= d2:
                break
            M.stmt(s)
            d2 |= {s[1]} | ({s[2]} if s[0] == "pair" else set())
        defined = d2
        adopt = {v for s in stmts if s[0] == "pair" for v in s[1:3]}  # element symbols come in between
        where = "after cell %d %r" % (n, src)
        syms = {v: fl.global_scope.lookup_symbol_by_name_this_indentation(v) for v in VARS}
        for v in sorted(defined):
            s = syms[v]
            if s is None:
                bad.append(("missing", "%s: no symbol for %s" % (where, v)))
                continue
            got = {p.name for p in s.parents if not p.is_anonymous}
            if v in adopt:
                M.par[v] = got
            if got != M.par.get(v, set()):
                bad.append(("deps", "%s: %s depends on %s, expected %s" % (where, v, sorted(map(str, got)), sorted(M.par.get(v, ())))))
        mirror([s for s in syms.values() if s is not None], where, bad)
        if bad:
            break
    return bad


def run_direct(scn):
    fl = base.reset()
    names = ["v%d" % i for i in range(scn["n"])]
    val = lambda j: "import string as v%d" % j if j in scn["imp"] else "v%d = 70000%d" % (j, j) if j in scn["imm"] else "v%d = object()" % j
    base.run_cell("\n".join(val(j) for j in range(len(names))))
    syms = [fl.global_scope.lookup_symbol_by_name_this_indentation(v) for v in names]
    for s in syms:
        for p in list(s.parents):
            p.children.pop(s, None)
        s.parents.clear()
    par = {i: set() for i in range(scn["n"])}
    bad, gone = [], set()
    from ipyflow.data_model.timestamp import Timestamp
    for k, op in enumerate(scn["ops"]):
        t = op[1]
        if t in gone:
            continue
        if op[0] == "gc":
            syms[t].mark_garbage()
            syms[t].collect_self_garbage()
            gone.add(t)
            for i in par:
                par[i].discard(t)
        else:
            nd = {d for d in op[2] if d not in gone}
            ow = op[3] and t not in nd and not any(t in par[d] for d in nd)
            mut = len(op) > 4
            with Timestamp.offset(stmt_offset=-1):
                syms[t].update_deps({syms[d] for d in nd}, overwrite=op[3], mutated=mut, propagate=False)
            if not (t in scn["imp"] or (mut and t in scn["imm"])):
                par[t] = (nd - {t}) | (set() if ow else par[t])
        where = "op %d %s" % (k, op)
        live = [i for i in par if i not in gone]
        for i in live:
            got = {syms.index(p) for p in syms[i].parents if p in syms}
            if got != par[i]:
                bad.append(("direct", "%s: v%d depends on %s, expected %s" % (where, i, sorted(got), sorted(par[i]))))
            if any(syms[g] in syms[i].parents or syms[g] in syms[i].children for g in gone):
                bad.append(("garbage", "%s: v%d still has an edge to a collected symbol" % (where, i)))
        mirror([syms[i] for i in live], where, bad)
        if bad:
            break
    return bad


def run_mixed(scn):
    fl = base.reset()
    bad = []
    base.run_cell("x, y, z = [1, 2], [3, 4], {'p': 5}")
    for n, src in enumerate(scn["ops"]):
        base.run_cell(src, cell_id=100 + scn["ids"][n] if "ids" in scn else None)
        where = "after cell %d %r" % (n, src)
        syms = everything(fl)
        mirror(syms, where, bad)
        for s in syms:
            for o in list(s.parents) + list(s.children):
                if o.is_garbage and o not in fl.aliases.get(o.obj_id, ()):
                    bad.append(("garbage", "%s: %s still has an edge to %s, which was collected" % (where, s, o)))
        if bad:
            break
    return bad
