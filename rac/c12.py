"""C12 list edits: each element's symbol stays attached to its element."""
from . import base

HOLDERS = [("l = [%s]", "l"), ("d = {'k': [%s]}", "d['k']"), ("m = [[v0], [%s]]", "m[1]"), ("class H: pass\no = H()\no.q = [%s]", "o.q"), ("l = [%s]\nk = l", "k"), ("t = ([%s], 5)", "t[0]")]
N = 7


def SCENARIOS(ctx):
    rng = ctx.sub("edits")
    for _ in range(ctx.n(420, 4000)):
        ops, n = [], 3
        for _ in range(rng.randint(1, 6)):
            o, n = op(rng, n)
            ops.append(o)
        yield {"family": "edits", "holder": 0 if rng.random() < 0.55 else rng.randrange(len(HOLDERS)), "start": [rng.randrange(N) for _ in range(3)], "ops": ops, "alias": rng.random() < 0.2}
    rng = ctx.sub("api")
    for _ in range(ctx.n(600, 6000)):
        n = rng.randint(0, 5)
        yield {"family": "api", "n": n, "missing": [i for i in range(n) if rng.random() < 0.2], "ops": [api_op(rng) for _ in range(rng.randint(1, 6))]}


def pos(rng, n, room=0):
    """a position within a list of n elements, counted from either end"""
    k = rng.randrange(n)
    return k - n if rng.random() < 0.45 else k


def op(rng, n):
    r = rng.random()
    v = rng.randrange(N)
    if n == 0 or r < 0.15:
        return ["append", v], n + 1
    if r < 0.22:
        return ["extend", [rng.randrange(N) for _ in range(rng.choice([1, 2, 2, 3]))]], n + 2
    if r < 0.27:
        return ["iadd", [v]], n + 1
    if r < 0.45:
        return ["insert", rng.choice([0, 1, n, n + 3, -1, -2, -n, -n - 2, rng.randint(-n, n)]), v, rng.random() < 0.2], n + 1
    if r < 0.53:
        return ["pop", None], n - 1
    if r < 0.65:
        return ["pop", pos(rng, n)], n - 1
    if r < 0.72:
        return ["remove", rng.randrange(n)], n - 1
    if r < 0.84:
        return ["del", pos(rng, n)], n - 1
    if r < 0.97:
        return ["set", pos(rng, n), v], n
    return ["clear"], 0


def api_op(rng):
    r = rng.random()
    if r < 0.4:
        return ["up", rng.random()]
    if r < 0.75:
        return ["del", rng.random(), rng.random() < 0.5]
    if r < 0.85:
        return ["look"]
    return ["upsert", rng.random(), rng.random() < 0.5]


def run(scn):
    return run_edits(scn) if scn["family"] == "edits" else run_api(scn)


def text(o, ref, cur):
    v = lambda k: "v%d" % k
    if o[0] == "append":
        return "%s.append(%s)" % (ref, v(o[1]))
    if o[0] == "extend":
        return "%s.extend([%s])" % (ref, ", ".join(map(v, o[1])))
    if o[0] == "iadd":
        return "%s += [%s]" % (ref, v(o[1][0]))
    if o[0] == "insert":
        return "%s.insert(%d, %s)" % (ref, o[1], "%s or w%d" % (v(o[2]), o[2]) if o[3] else v(o[2]))
    if o[0] == "pop":
        return "%s.pop(%s)" % (ref, "" if o[1] is None else o[1])
    if o[0] == "remove":
        return "%s.remove(%s)" % (ref, "v%d" % cur[o[1]])
    if o[0] == "del":
        return "del %s[%d]" % (ref, o[1])
    if o[0] == "set":
        return "%s[%d] = v%d" % (ref, o[1], o[2])
    return "%s.clear()" % ref


def run_edits(scn):
    from ipyflow.singletons import flow, shell

    base.reset()
    base.settings()
    base.run_cell("\n".join("v%d = ['%d']\nw%d = v%d" % (i, i, i, i) for i in range(N)))
    make, ref = HOLDERS[scn["holder"]]
    base.run_cell(make % ", ".join("v%d" % k for k in scn["start"]))
    if scn["alias"]:
        base.run_cell("alias = " + ref)
    model = [(k, {"v%d" % k}) for k in scn["start"]]  # (variable, dependencies or None when unknown)
    bad = []
    for j, o in enumerate(scn["ops"]):
        n = len(model)
        if o[0] in ("pop", "del", "set", "remove") and (n == 0 or (o[1] is not None and not -n <= o[1] < n)):
            continue
        src = text(o, "alias" if scn["alias"] and j % 2 else ref, [k for k, _ in model])
        base.run_cell(src)
        if o[0] == "append":
            model.append((o[1], {"v%d" % o[1]}))
        elif o[0] == "extend":
            model += [(k, {"v%d" % x for x in o[1]}) for k in o[1]]
        elif o[0] == "iadd":
            model += [(k, None) for k in o[1]]
        elif o[0] == "insert":
            model.insert(o[1], (o[2], None if o[3] else {"v%d" % o[2]}))
        elif o[0] == "pop":
            model.pop(*([] if o[1] is None else [o[1]]))
        elif o[0] == "remove":
            k = model[o[1]][0]
            del model[[x for x, _ in model].index(k)]
        elif o[0] == "del":
            del model[o[1]]
        elif o[0] == "set":
            model[o[1]] = (o[2], {"v%d" % o[2]})
        else:
            model = []
        where = "after %r (edit %d)" % (src, j)
        obj = eval(ref, shell().user_ns)
        env = shell().user_ns
        if [id(x) for x in obj] != [id(env["v%d" % k]) for k, _ in model]:
            raise AssertionError("model out of step %s" % where)
        ns = flow().namespaces.get(id(obj))
        if ns is None:
            bad.append(("tracked", "%s: the list is no longer tracked" % where))
            break
        for i, s in list(ns._subscript_symbol_by_name.items()):
            if not isinstance(i, int) or not 0 <= i < len(obj):
                bad.append(("outside", "%s: a symbol is recorded for position %r of %d elements" % (where, i, len(obj))))
                continue
            if s.obj is not obj[i]:
                bad.append(("element", "%s: the symbol at %d refers to %r, the element is %r" % (where, i, s.obj, obj[i])))
            if s.name != i:
                bad.append(("name", "%s: the symbol at %d is named %r" % (where, i, s.name)))
            got = {str(p.name) for p in s.parents if not p.is_anonymous}
            if model[i][1] is not None and got != model[i][1]:
                bad.append(("deps", "%s: the element at %d depends on %s, expected %s" % (where, i, sorted(got), sorted(model[i][1]))))
        for i in range(len(obj)):
            if model[i][1] is not None and i not in ns._subscript_symbol_by_name:
                bad.append(("lost", "%s: no symbol is recorded for position %d" % (where, i)))
        for i in range(-len(obj), len(obj)):
            s = ns.lookup_symbol_by_name_this_indentation(i, is_subscript=True)
            if s is not ns._subscript_symbol_by_name.get(i % len(obj)):
                bad.append(("lookup", "%s: looking up position %d finds %s" % (where, i, s)))
        if bad:
            break
    return bad


def run_api(scn):
    """the namespace methods directly, against a plain list of symbols"""
    from ipyflow.data_model.namespace import Namespace
    from ipyflow.singletons import flow

    base.reset(test_context=True)
    base.settings()
    obj = [["e%d" % i] for i in range(scn["n"])]
    base.run_cell("pass")
    scope = flow().global_scope
    holder = scope.upsert_symbol_for_name("held", obj)
    ns = flow().namespaces.get(id(obj)) or Namespace(obj, "held", scope)
    syms = []
    bad = []
    for i in range(scn["n"]):
        if i in scn["missing"]:
            ns._subscript_symbol_by_name.pop(i, None)
            syms.append(None)
        else:
            syms.append(ns.upsert_symbol_for_name(i, obj[i], is_subscript=True))
    for j, o in enumerate(scn["ops"]):
        n = len(obj)
        if o[0] == "up":
            p = int(o[1] * (n + 1))
            obj.insert(p, ["new%d" % j])
            ns.shuffle_symbols_upward_from(p)
            # the inserted element has no symbol yet
            if p < n:
                syms.insert(p, None)
            else:
                syms.append(None)
        elif o[0] == "del" and n:
            p = int(o[1] * n)
            del obj[p]
            ns.delete_symbol_for_name(p - n if o[2] else p, is_subscript=True)
            del syms[p]
        elif o[0] == "upsert" and n:
            p = int(o[1] * n)
            obj[p] = ["set%d" % j]
            s = ns.upsert_symbol_for_name(p - n if o[2] else p, obj[p], is_subscript=True)
            if syms[p] is not None and s is not syms[p]:
                bad.append(("kept", "op %d %s: the symbol at %d was replaced" % (j, o, p)))
            if s.obj is not obj[p]:
                bad.append(("element", "op %d %s: the symbol refers to %r" % (j, o, s.obj)))
            syms[p] = s
        where = "op %d %s" % (j, o)
        want = {i: s for i, s in enumerate(syms) if s is not None}
        got = dict(ns._subscript_symbol_by_name)
        if set(got) != set(want) or any(got[i] is not want[i] for i in want):
            bad.append(("positions", "%s: symbols at %s, expected %s" % (where, {i: str(s) for i, s in got.items()}, {i: str(s) for i, s in want.items()})))
        for i, s in got.items():
            if s.name != i:
                bad.append(("name", "%s: the symbol at %d is named %r" % (where, i, s.name)))
        for i in range(-len(obj), len(obj)):
            if ns.lookup_symbol_by_name_this_indentation(i, is_subscript=True) is not want.get(i % len(obj)):
                bad.append(("lookup", "%s: looking up position %d" % (where, i)))
        if bad:
            break
    return bad
