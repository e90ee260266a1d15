"""C03 slicing contexts: what a block observes, and what is restored afterwards."""
import z3

from pyvc import types as T
from pyvc.types import TBool, TRef
from pyvc.verify import Contract, opaque_body

from .ipyworld import SETTINGS

G = "context.slicing_ctx_var"
CTX = "ipyflow.slicing.context"
CFG = "ipyflow.config"


def contracts(w):
    SC = w.enum_type(w.prog, "SlicingContext")
    OPT = w.globs[G]
    dyn, sta = SC.consts["DYNAMIC"], SC.consts["STATIC"]

    def some(z):
        return OPT.some(z)

    def cur(eng, st):
        return eng.glob_get(st, G)

    restored = lambda s: [("context restored", s.g1(G) == s.g(G))]
    restored_exc = lambda s: [("context restored on exception", s.g1(G) == s.g(G))]
    out = []

    def client(name, params, src, inner):
        h = w.prog.add_harness(CTX, src)
        p = dict(params)
        p["BODY"] = opaque_body(inner)
        out.append(Contract(h, None, "", params=p, ensures=restored, exc_ensures=restored_exc,
                            may_raise=("AnyError",), modifies=(G,)))

    client("set", {"c": SC}, "def set_slicing_context_client(c, BODY):\n    with set_slicing_context(c):\n        BODY()\n",
           lambda e, st: [("block sees the requested context", cur(e, st) == some(e.entry_args["c"].z))])
    client("dyn", {}, "def dynamic_slicing_context_client(BODY):\n    with dynamic_slicing_context():\n        BODY()\n",
           lambda e, st: [("block sees dynamic", cur(e, st) == some(dyn))])
    client("sta", {}, "def static_slicing_context_client(BODY):\n    with static_slicing_context():\n        BODY()\n",
           lambda e, st: [("block sees static", cur(e, st) == some(sta))])
    client("flag", {"b": TBool}, "def slicing_context_client(b, BODY):\n    with slicing_context(b):\n        BODY()\n",
           lambda e, st: [("block sees the flagged context", cur(e, st) == some(z3.If(e.entry_args["b"].z, sta, dyn)))])
    client("nest", {"c": SC, "d": SC}, """
def nested_client(c, d, BODY, AFTER):
    with set_slicing_context(c):
        with set_slicing_context(d):
            BODY()
        AFTER()
""", lambda e, st: [("inner block sees the inner context", cur(e, st) == some(e.entry_args["d"].z))])
    out[-1].params["AFTER"] = opaque_body(lambda e, st: [("outer block sees the outer context again", cur(e, st) == some(e.entry_args["c"].z))])

    # generator loops -----------------------------------------------------
    def loop(mod, src, params, inner, extra=None, early=()):
        h = w.prog.add_harness(mod, src)
        p = dict(params)
        p["BODY"] = opaque_body(inner)
        out.append(Contract(h, None, "", params=p,
                            ensures=lambda s: restored(s) + (extra(s) if extra else []),
                            exc_ensures=restored_exc, may_raise=("AnyError",), modifies=(G,), ret=w_int))
    w_int = T.TInt
    flags = lambda s: (z3.Select(s.f("MutableDataflowSettings.dynamic_slicing_enabled"), SETTINGS),
                       z3.Select(s.f("MutableDataflowSettings.static_slicing_enabled"), SETTINGS))

    def allowed(e, st):
        d = z3.Select(e.heap_get(st, "MutableDataflowSettings.dynamic_slicing_enabled"), SETTINGS)
        s = z3.Select(e.heap_get(st, "MutableDataflowSettings.static_slicing_enabled"), SETTINGS)
        return [("only enabled contexts are visited", z3.Or(z3.And(d, cur(e, st) == some(dyn)), z3.And(s, cur(e, st) == some(sta))))]

    loop("ipyflow.slicing.mixin", """
def iter_enabled_client(BODY):
    n = 0
    for _ in flow().mut_settings.iter_slicing_contexts():
        BODY()
        n += 1
    return n
""", {}, allowed, lambda s: [("one pass per enabled context", s.result == z3.If(flags(s)[0], 1, 0) + z3.If(flags(s)[1], 1, 0))])
    loop("ipyflow.slicing.mixin", """
def iter_enabled_break_client(BODY):
    for _ in flow().mut_settings.iter_slicing_contexts():
        BODY()
        break
    return 0
""", {}, allowed)
    loop("ipyflow.slicing.mixin", """
def iter_enabled_return_client(BODY):
    for _ in flow().mut_settings.iter_slicing_contexts():
        BODY()
        return 1
    return 0
""", {}, allowed, lambda s: [("a pass happens iff some context is enabled", (s.result == 1) == z3.Or(*flags(s)))])
    loop("ipyflow.slicing.mixin", """
def iter_both_client(BODY):
    n = 0
    for _ in SlicingContext.iter_slicing_contexts():
        BODY()
        n += 1
    return n
""", {}, lambda e, st: [("a context is set", cur(e, st) != OPT.none())], lambda s: [("both contexts visited", s.result == 2)])
    return out
