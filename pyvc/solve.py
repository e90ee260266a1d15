"""Discharging obligations: z3 first, other z3 configuration, then cvc5."""
import os
import select
import signal
import subprocess
import tempfile
import time

import z3

from . import types as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "feas_calls": 0}
TIMEOUT_MS = int(os.environ.get("PYVC_TIMEOUT_MS", "8000"))
FEAS_MS = int(os.environ.get("PYVC_FEAS_MS", "100"))
FEAS_RL = int(os.environ.get("PYVC_FEAS_RL", "150000"))
BACKENDS = {}


_DN = {}  # formula id -> (formula, names of the uninterpreted symbols in it)


def _decls(fs, acc, seen):
    for f in fs:
        hit = _DN.get(f.get_id())
        if hit is None:
            names = set()
            _decls1([f], names, set())
            if len(_DN) > 20000:
                _DN.clear()
            hit = _DN[f.get_id()] = (f, frozenset(names))
        acc |= hit[1]


def _decls1(fs, acc, seen):
    todo = list(fs)
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            todo.extend(x.children())


def base_axioms(fs=None, finite=False):
    """Background axioms about the symbols that occur in ``fs``."""
    names = set()
    if fs is None:
        return T.str_axioms() + [a for _, a in T._box_axioms]
    _decls(fs, names, set())
    out = []
    cs = [c for c in T._str_consts.values() if c.decl().name() in names]
    if len(cs) > 1:
        out.append(z3.Distinct(*cs))
    for (f, g, src), ax in T._box_axioms:
        if f.name() not in names and g.name() not in names:
            continue
        if finite and src.eq(z3.IntSort()):
            # an injection of the integers has no finite model: search for one
            # over a small window of integers (countermodel search only)
            out += [g(f(z3.IntVal(i))) == i for i in range(-2, 4)]
        else:
            out.append(ax)
    return out


_hasq = {}


def has_quant(f):
    i = f.get_id()
    r = _hasq.get(i)
    if r is None or not r[0].eq(f):
        todo, seen, q = [f], set(), False
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                q = True
                break
            todo.extend(e.children())
        r = _hasq[i] = (f, q)
    return r[1]


def feasible(pc, light=False):
    """False only if pc is proved unsatisfiable."""
    STATS["feas_calls"] += 1
    if light:
        s = z3.Solver()
        s.set("rlimit", FEAS_RL)
        s.add(*[f for f in pc if not has_quant(f)])
        t = time.time()
        r = s.check()
        STATS["feas_time"] = STATS.get("feas_time", 0) + time.time() - t
        return r != z3.unsat
    s = z3.Solver()
    # a resource limit, not a clock: the paths explored do not depend on the load
    s.set("timeout", 20 * FEAS_MS)
    s.set("rlimit", FEAS_RL)
    s.set("smt.mbqi", False)
    s.set("auto_config", False)
    s.add(*base_axioms())
    s.add(*pc)
    t = time.time()
    r = s.check()
    STATS["feas_time"] = STATS.get("feas_time", 0) + time.time() - t
    if r == z3.unknown:
        STATS["feas_unknown"] = STATS.get("feas_unknown", 0) + 1
    return r != z3.unsat


def entails_quick(pc, goal):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    s = z3.Solver()
    s.set("timeout", 20 * FEAS_MS)
    s.set("rlimit", FEAS_RL)
    s.set("smt.mbqi", False)
    s.set("auto_config", False)
    s.add(*base_axioms())
    s.add(*pc)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def _consts(e, acc, seen):
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.get_id()] = x
            todo.extend(x.children())


EM = {"smt.mbqi": False, "auto_config": False}
# instantiation luck varies a lot between runs: short attempts under different
# configurations and seeds, then longer ones
PORTFOLIO = [(EM, 0.1), ({}, 0.1), (dict(EM, **{"smt.random_seed": 3}), 0.1),
             ({"smt.random_seed": 7, "smt.qi.eager_threshold": 100.0}, 0.1), ({"smt.random_seed": 11}, 0.1),
             (EM, 0.5), ({}, 0.5), ({"smt.random_seed": 7, "smt.qi.eager_threshold": 100.0}, 1.0)]


def _forked(s, ms):
    """Model-based instantiation sometimes ignores z3's own timeout: run it in a
    child that can be killed. -> (result, model|reason)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            s.set("timeout", ms)
            r = s.check()
            if r == z3.sat:
                out = "S" + str(s.model())[:6000]
            elif r == z3.unsat:
                out = "U"
            else:
                out = "?" + str(s.reason_unknown())
            os.write(wr, out.encode()[:60000])
        finally:
            os._exit(0)
    os.close(wr)
    end = time.time() + 2.0 * ms / 1000.0 + 0.3
    buf = b""
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([rd], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(rd, 65536)
        if not d:
            break
        buf += d
    os.close(rd)
    os.waitpid(pid, 0)
    t = buf.decode(errors="replace")
    if t[:1] == "S":
        return z3.sat, t[1:]
    if t[:1] == "U":
        return z3.unsat, ""
    return z3.unknown, t[1:] or "killed"


def _attempts(pc, goal, tmo):
    """-> (z3 result, model|reason)"""
    ax = base_axioms(list(pc) + [goal])
    reason = ""
    for cfg, share in PORTFOLIO:
        s = z3.Solver()
        ms = max(50, int(tmo * share))
        for k, v in cfg.items():
            s.set(k, v)
        s.add(*ax)
        s.add(*pc)
        s.add(z3.Not(goal))
        STATS["z3_calls"] += 1
        t1 = time.time()
        if "smt.mbqi" in cfg:
            s.set("timeout", ms)
            r = s.check()
            out = "" if r == z3.unsat else str(s.model())[:6000] if r == z3.sat else s.reason_unknown()
        else:
            r, out = _forked(s, ms)
        STATS["z3_time"] += time.time() - t1
        if r != z3.unknown:
            return r, out
        reason = out
    return z3.unknown, reason


def quick(pc, goal, timeout_ms):
    """'proved' | 'refuted' | 'unknown' within a small budget (invariant inference only)."""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved"
    r, _ = _attempts(pc, goal, timeout_ms)
    return "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"


def prove(pc, goal, timeout_ms=None, use_cvc5=True):
    """('proved'|'unknown', backend, seconds, reason)"""
    tmo = timeout_ms or TIMEOUT_MS
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return ("proved", "simplifier", 0.0, "")
    r, reason = _attempts(pc, goal, tmo)
    if r == z3.unsat:
        return ("proved", "z3", time.time() - t0, "")
    if r == z3.sat:
        return ("refuted", "z3", time.time() - t0, reason)
    if use_cvc5:
        r = _cvc5(base_axioms(list(pc) + [goal]) + list(pc) + [z3.Not(goal)], tmo)
        if r == "unsat":
            return ("proved", "cvc5", time.time() - t0, "")
    return ("unknown", "z3+cvc5", time.time() - t0, reason)


_sk = [0]


def _unlambda(fs):
    """Equisatisfiable first-order form: every array lambda becomes a (Skolem)
    function of the variables bound around it plus its defining axiom."""
    axs = []
    cache = {}

    def fvs(e, cand):
        acc = {}
        _consts(e, acc, set())
        ids = set(acc)
        return [c for c in cand if c.get_id() in ids]

    has = {}

    def has_lambda(e):
        k = e.get_id()
        if k in has:
            return has[k][0]
        r = False
        if z3.is_quantifier(e):
            r = e.is_lambda() or has_lambda(e.body())
        else:
            for c in e.children():
                if has_lambda(c):
                    r = True
                    break
        has[k] = (r, e)
        return r

    def rw(e, bound):
        if not has_lambda(e):
            return e
        key = (e.get_id(),)
        if key in cache:
            return cache[key][0]
        if z3.is_quantifier(e):
            n = e.num_vars()
            cs = []
            for i in range(n):
                _sk[0] += 1
                cs.append(z3.Const("lv_%d" % _sk[0], e.var_sort(i)))
            body = rw(z3.substitute_vars(e.body(), *reversed(cs)), bound + cs)
            if e.is_lambda():
                fv = fvs(body, bound)
                _sk[0] += 1
                nm = "lam_%d" % _sk[0]
                if fv:
                    r = z3.Function(nm, *([c.sort() for c in fv] + [e.sort()]))(*fv)
                else:
                    r = z3.Const(nm, e.sort())
                axs.append(z3.ForAll(fv + cs, z3.Select(r, *cs) == body))
            elif e.is_forall():
                r = z3.ForAll(cs, body)
            else:
                r = z3.Exists(cs, body)
        else:
            r = e.decl()(*[rw(c, bound) for c in e.children()])
        cache[key] = (r, e)
        return r

    out = [rw(f, []) for f in fs]
    return out + axs


def _cvc5(fs, tmo):
    try:
        s = z3.Solver()
        s.add(*_unlambda(fs))
        smt2 = s.to_smt2()
    except z3.Z3Exception:
        return "unknown"
    return _cvc5_text(smt2, tmo)


def _cvc5_text(smt2, tmo):
    STATS["cvc5_calls"] += 1
    t1 = time.time()
    smt2 = "(set-logic ALL)\n" + smt2
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(smt2)
        out = subprocess.run(
            ["cvc5", "--tlimit=%d" % tmo, "--full-saturate-quant", p],
            capture_output=True, text=True, timeout=tmo / 1000 + 10,
        ).stdout.strip()
        return out.splitlines()[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)
        STATS["cvc5_time"] += time.time() - t1


class _TooBig(Exception):
    pass


def _ground(fs, dom, limit=60000):
    """Expand quantifiers over the (now finite) uninterpreted sorts."""
    import itertools
    count = [0]
    cache = {}

    def rw(e):
        k = e.get_id()
        if k in cache:
            return cache[k][0]
        if z3.is_quantifier(e) and not e.is_lambda():
            n = e.num_vars()
            fresh, choices, keep = [], [], []
            for i in range(n):
                so = e.var_sort(i)
                if so.name() in dom:
                    choices.append(dom[so.name()])
                else:
                    _sk[0] += 1
                    c = z3.Const("gv_%d" % _sk[0], so)
                    keep.append(c)
                    choices.append([c])
            parts = []
            for vals in itertools.product(*choices):
                count[0] += 1
                if count[0] > limit:
                    raise _TooBig()
                b = rw(z3.substitute_vars(e.body(), *reversed(vals)))
                if keep:
                    b = z3.ForAll(keep, b) if e.is_forall() else z3.Exists(keep, b)
                parts.append(b)
            r = z3.And(*parts) if e.is_forall() else z3.Or(*parts)
        elif e.num_args() if z3.is_app(e) else False:
            r = e.decl()(*[rw(c) for c in e.children()])
        else:
            r = e
        cache[k] = (r, e)
        return r

    return [rw(f) for f in fs]


def refute_finite(pc, goal, sizes=(2, 3), timeout_ms=5000):
    """Look for a genuine counter-model with bounded uninterpreted sorts."""
    sorts = [T.Ref, T.IdSort, T.StrSort, T.AnySort]
    allf = list(pc) + [goal]
    names = set()
    _decls(allf, names, set())
    nstr = len([c for c in T._str_consts.values() if c.decl().name() in names])
    fs = _unlambda(base_axioms(allf, finite=True) + list(pc) + [z3.Not(goal)])
    for n in sizes:
        dom = {}
        for so in sorts:
            k = n + 1 if so.eq(T.Ref) else n
            if so.eq(T.StrSort):
                k = max(n, nstr)
            dom[so.name()] = [z3.Const("u!%s!%d" % (so.name(), i), so) for i in range(k)]
        try:
            gs = _ground(fs, dom)
        except (_TooBig, z3.Z3Exception):
            gs = fs
        # the uninterpreted sorts become enumerations with these elements
        txt = z3.Solver()
        txt.add(*gs)
        text = txt.to_smt2()
        for so in sorts:
            nm, cs = so.name(), dom[so.name()]
            text = text.replace("(declare-sort %s 0)" % nm, "(declare-datatypes ((%s 0)) ((%s)))" % (
                nm, " ".join("(%s)" % c.decl().name() for c in cs)))
            for c in cs:
                text = text.replace("(declare-fun %s () %s)\n" % (c.decl().name(), nm), "")
        text = text[:text.rindex("(check-sat)")]
        cx = z3.Context()
        s = z3.Solver(ctx=cx)
        s.set("timeout", timeout_ms)
        try:
            fsx = z3.parse_smt2_string(text, ctx=cx)
        except z3.Z3Exception as e:
            if os.environ.get("PYVC_DEBUG"):
                print(e, text[:3000])
            return None
        s.add(fsx)
        t1 = time.time()
        if os.environ.get('PYVC_DUMPQ'):
            open('/tmp/w/q.smt2','w').write('; %s %s\n' % (cfg, tmo*share)+s.sexpr())
        r = s.check()
        STATS["z3_time"] += time.time() - t1
        STATS["z3_calls"] += 1
        if r == z3.sat:
            return str(s.model())[:8000]
    return None


def sat_cover(pc, timeout_ms=3000):
    """'sat' if satisfiable (finite scope or plain), 'unsat', or 'unknown'."""
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*base_axioms(list(pc)))
    s.add(*pc)
    r = s.check()
    if r == z3.sat:
        return "sat"
    if r == z3.unsat:
        return "unsat"
    if refute_finite(pc, z3.BoolVal(False), sizes=(2, 3), timeout_ms=timeout_ms):
        return "sat"
    return "unknown"
