"""C20 lifted queries: deps/users direct, rdeps/rusers the transitive closure, anonymous symbols hidden."""
import z3

from pyvc import types as T
from pyvc.engine import Sc
from pyvc.types import NULL, TBool, TDict, TId, TList, TRef, TSet, TStr
from pyvc.verify import Contract

from .ipyworld import SYM, TS

L = "ipyflow.api.lift."
X, Y = z3.Const("x!y", T.Ref), z3.Const("y!y", T.Ref)


def declare(w):
    w.declare("Symbol", parents=TDict(SYM, TList(TS)), children=TDict(SYM, TList(TS)), is_anonymous=TBool)


def edge(w, s, attr, x, y, post=False):
    ty = w.fields["Symbol." + attr]
    _, _, _, iss, val = T.opt_parts(ty.val.sort())
    return iss(z3.Select(z3.Select((s.f1 if post else s.f)("Symbol." + attr), x), y))


def contracts(w):
    declare(w)
    out = []
    for attr, direct, rec in (("parents", "deps", "rdeps"), ("children", "users", "rusers")):
        R = z3.Function("reach_" + attr, T.Ref, T.Ref, z3.BoolSort())
        z = z3.Const("z!y", T.Ref)
        E = lambda s, x, y, a=attr: edge(w, s, a, x, y)

        def axioms(s, R=R, E=E):
            """R: any transitive relation containing the edges, reflexive"""
            return [("R reflexive", z3.ForAll([X], R(X, X), patterns=[R(X, X)])),
                    ("R transitive", z3.ForAll([X, Y, z], z3.Implies(z3.And(R(X, Y), R(Y, z)), R(X, z)), patterns=[z3.MultiPattern(R(X, Y), R(Y, z))])),
                    ("R contains the edges", z3.ForAll([X, Y], z3.Implies(E(s, X, Y), R(X, Y)), patterns=[E(s, X, Y)]))]

        def tpost(s, R=R, E=E):
            C0, C1, me = s.arg("seen"), s.arg1("seen"), s.arg("sym")
            new = z3.And(z3.Select(C1, X), z3.Not(z3.Select(C0, X)))
            return [("nothing is lost", z3.ForAll([X], z3.Implies(z3.Select(C0, X), z3.Select(C1, X)))),
                    ("the start is visited", z3.Select(C1, me)),
                    ("only reached symbols are added", z3.ForAll([X], z3.Implies(new, R(me, X)))),
                    ("visited symbols come with everything they lead to", z3.ForAll([X, Y], z3.Implies(z3.And(new, E(s, X, Y)), z3.Select(C1, Y))))]

        def invs(R=R, E=E):
            def g(f):
                return lambda lv: f(lv, lv.ctx(), lv.ctx().arg("seen"), lv.eng.read(lv.st, lv.eng.entry_args["seen"]), lv.ctx().arg("sym"))
            S = z3.Select
            return [("grows", g(lambda lv, s, a, b, me: z3.ForAll([X], z3.Implies(S(a, X), S(b, X))))),
                    ("start in", g(lambda lv, s, a, b, me: S(b, me))),
                    ("reached", g(lambda lv, s, a, b, me: z3.ForAll([X], z3.Implies(z3.And(S(b, X), z3.Not(S(a, X))), R(me, X))))),
                    ("closed but for the start", g(lambda lv, s, a, b, me: z3.ForAll([X, Y], z3.Implies(z3.And(S(b, X), z3.Not(S(a, X)), X != me, E(s, X, Y)), S(b, Y))))),
                    ("start's visited", g(lambda lv, s, a, b, me: z3.ForAll([Y], z3.Implies(lv.seen(Y), S(b, Y)))))]

        out.append(Contract(L + "_traverse", None, attr, params={"sym": SYM, "seen": TSet(SYM), "attr": Sc(TStr, T.str_const(attr))},
                            requires=axioms, ensures=tpost, invs=invs, modifies=("arg:seen",)))
        bad = {"ValueError": lambda s: s.arg("sym") == NULL}

        def elems(s):
            ty = TList(SYM)
            dt = ty.dt()
            return dt[2](s.result), dt[3](s.result)

        def inres(s, y):
            n, a = elems(s)
            i = z3.Int("i!r")
            return z3.Exists([i], z3.And(0 <= i, i < n, z3.Select(a, i) == y))
        anon = lambda s, y: z3.Select(s.f("Symbol.is_anonymous"), y)
        out.append(Contract(L + direct, None, "", params={"sym": TRef("Symbol", True)}, ret=TList(SYM), raises=bad,
                            ensures=lambda s, E=E: [("exactly the direct, named neighbours", z3.ForAll([Y], inres(s, Y) == z3.And(E(s, s.arg("sym"), Y), z3.Not(anon(s, Y)))))]))

        def rpost(s, R=R, E=E):
            me = s.arg("sym")
            wits = []
            for C in s.containers(TSet(SYM)):
                S = z3.Select
                wits.append(z3.And(S(C, me), z3.ForAll([X, Y], z3.Implies(z3.And(S(C, X), E(s, X, Y)), S(C, Y))),
                                   z3.ForAll([Y], z3.Implies(z3.And(S(C, Y), Y != me, z3.Not(anon(s, Y))), inres(s, Y)))))
            return [("every reached, named symbol: it lists the named elements of a closed set containing the start", z3.Or(*wits)),
                    ("only reached, named symbols, never the start", z3.ForAll([Y], z3.Implies(inres(s, Y), z3.And(R(me, Y), Y != me, z3.Not(anon(s, Y))))))]
        out.append(Contract(L + rec, None, "", params={"sym": TRef("Symbol", True)}, ret=TList(SYM), raises=bad, requires=axioms, ensures=rpost))
    return out
