"""C20 lifted queries: deps/users are the direct named neighbours, rdeps/rusers the transitive ones."""
import sys

from . import base, c10


def SCENARIOS(ctx):
    rng = ctx.sub("graph")
    for i in range(ctx.n(700, 6000)):
        n = rng.randint(1, 8)
        p = rng.choice([0.1, 0.2, 0.35, 0.6])
        yield {"family": "graph", "n": n, "anon": [j for j in range(n) if rng.random() < 0.25],
               "ops": [[a, b] for a in range(n) for b in range(n) if a != b and rng.random() < p]}
    rng = ctx.sub("chain")
    for i in range(ctx.n(4, 20)):
        n = 40 + 10 * i
        yield {"family": "graph", "n": n, "anon": [j for j in range(n) if j % 3 == 1], "ops": [[j, j + 1] for j in range(n - 1)] + ([[n - 1, 0]] if i % 2 else [])}
    rng = ctx.sub("nb")
    for i in range(ctx.n(80, 800)):
        yield {"family": "notebook", "ops": c10.program(rng, rng.randint(2, 7)), "ask": [rng.choice(c10.VARS) for _ in range(4)]}
    rng = ctx.sub("el")
    for i in range(ctx.n(25, 200)):
        yield {"family": "elements", "k": rng.randint(0, 2), "j": rng.randint(0, 2), "ops": [], "attr": rng.random() < 0.5}
    yield {"family": "nothing", "ops": []}


def run(scn):
    return globals()["run_" + scn["family"]](scn)


FUNCS = ("deps", "users", "rdeps", "rusers")


def expected(par, me, anon=()):
    ch = {v: {u for u in par if v in par[u]} for v in par}

    def clo(e):
        seen, todo = set(), list(e.get(me, ()))
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo.extend(e.get(v, ()))
        return seen - {me}
    vis = lambda s: {v for v in s if v not in anon}
    return {"deps": vis(par.get(me, set())), "users": vis(ch.get(me, set())), "rdeps": vis(clo(par)), "rusers": vis(clo(ch))}


def run_graph(scn):
    import ipyflow.api.lift  # noqa: F401
    lift = sys.modules['ipyflow.api.lift']
    base.reset()
    from ipyflow.data_model.symbol import Symbol
    from ipyflow.singletons import flow
    n = scn["n"]
    scope = flow().global_scope
    objs = [object() for _ in range(n)]
    syms = []
    anon = set(scn["anon"])
    for j in range(n):
        syms.append(scope.upsert_symbol_for_name("v%d" % j, objs[j], set(), is_anonymous=j in anon, propagate=False))
        assert syms[j].is_anonymous == (j in anon)
    par = {j: set() for j in range(n)}
    from ipyflow.data_model.timestamp import Timestamp
    for a, b in scn["ops"]:
        syms[a].parents.setdefault(syms[b], []).append(Timestamp(1, 0))
        syms[b].children.setdefault(syms[a], []).append(Timestamp(1, 0))
        par[a].add(b)
    bad = []
    for j in range(n):
        exp = expected(par, j, anon)
        before = [(list(s.parents), list(s.children)) for s in syms]
        for f in FUNCS:
            got = getattr(lift, f)(syms[j])
            ids = sorted(syms.index(s) for s in got)
            if ids != sorted(exp[f]):
                bad.append((f, "%s(v%d) = %s, expected %s; depends-on edges %s, anonymous %s" % (f, j, ids, sorted(exp[f]), scn["ops"], sorted(anon))))
        if lift.lift(syms[j]) is not syms[j]:
            bad.append(("lift", "lift(v%d) is not its symbol" % j))
        if [(list(s.parents), list(s.children)) for s in syms] != before:
            bad.append(("pure", "asking about v%d changed the graph" % j))
        if bad:
            break
    return bad


def run_notebook(scn):
    fl = base.reset()
    from ipyflow.singletons import shell
    box = []
    shell().user_ns["sink"] = lambda *a: box.append(a)
    base.run_cell("from ipyflow import deps, users, rdeps, rusers, lift")
    for cell in scn["ops"]:
        base.run_cell("\n".join(c10.text(s) for s in cell))
    bad = []
    for v in scn["ask"]:
        me = fl.global_scope.lookup_symbol_by_name_this_indentation(v)
        if me is None or v not in shell().user_ns:
            continue
        exp = {}
        for e, f in (("parents", "deps"), ("children", "users")):
            seen, todo = set(), list(getattr(me, e))
            exp[f] = {s for s in todo if not s.is_anonymous}
            while todo:
                s = todo.pop()
                if s not in seen:
                    seen.add(s)
                    todo.extend(getattr(s, e))
            exp["r" + f] = {s for s in seen - {me} if not s.is_anonymous}
        del box[:]
        base.run_cell("sink(deps(%s), users(%s), rdeps(%s), rusers(%s), lift(%s))" % ((v,) * 5))
        if not box:
            bad.append(("query", "asking about %s failed" % v))
            break
        ans = box[0]
        for f, got in zip(FUNCS, ans):
            if len(got) != len(set(got)) or set(got) != exp[f]:
                bad.append((f, "%s(%s) = %s, expected %s" % (f, v, sorted(str(s) for s in got), sorted(str(s) for s in exp[f]))))
        if ans[4] is not me:
            bad.append(("lift", "lift(%s) = %s" % (v, ans[4])))
        if bad:
            break
    return bad


def run_elements(scn):
    fl = base.reset()
    from ipyflow.singletons import shell
    box = []
    shell().user_ns["sink"] = lambda *a: box.append(a)
    base.run_cell("from ipyflow import deps, users, rdeps, rusers, lift\na, b, c = 101, 202, 303")
    k = scn["k"]
    src = "abc"[scn["j"]]
    if scn["attr"]:
        base.run_cell("class K: pass\nx = K()\nx.f = %s + 1000\ny = x.f + 5000" % src)
        expr = "x.f"
    else:
        els = ["1000 + a", "2000 + b", "3000 + c"]
        els[k] = "9000 + %s" % src
        base.run_cell("x = [%s]\ny = x[%d] + 5000" % (", ".join(els), k))
        expr = "x[%d]" % k
    base.run_cell("sink(lift(%s), deps(%s), rdeps(%s), users(%s), rusers(%s))" % ((expr,) * 5))
    if not box:
        return [("query", "asking about %s failed" % expr)]
    ans = box[0]
    s = ans[0]
    bad = []
    if s.obj is not eval(expr, shell().user_ns):
        bad.append(("lift", "lift(%s) is the symbol of another value" % expr))
    if set(ans[1]) != {p for p in s.parents if not p.is_anonymous} or src not in {p.name for p in ans[1]}:
        bad.append(("deps", "deps(%s) = %s" % (expr, ans[1])))
    if [p.name for p in ans[3]] != ["y"] or ans[3][0] not in s.children:
        bad.append(("users", "users(%s) = %s, recorded %s" % (expr, ans[3], s.children)))
    if not {p.name for p in ans[2]} >= {src} or s in ans[2] or s in ans[4] or not {p.name for p in ans[4]} >= {"y"}:
        bad.append(("closure", "rdeps(%s) = %s, rusers = %s" % (expr, ans[2], ans[4])))
    return bad


def run_nothing(scn):
    import ipyflow.api.lift  # noqa: F401
    lift = sys.modules['ipyflow.api.lift']
    base.reset()
    bad = []
    for f in FUNCS + ("lift", "code", "timestamp"):
        for v in (None, 5, "x", [1], object()):
            try:
                r = getattr(lift, f)(v)
            except ValueError:
                continue
            bad.append(("error", "%s(%r) returned %r instead of ValueError" % (f, v, r)))
    return bad
