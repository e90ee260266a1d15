"""Static types of the verifier and their z3 sorts.

Every symbolic value carries one of these types.  Containers are *value
encoded*: a set is an array elem->Bool, a dict is an array key->Option(val), a
list is a (len, array) pair; the mutable identity of a container is its heap
path (see state.py), not its z3 value.
"""
import z3

Ref = z3.DeclareSort("Ref")
NULL = z3.Const("null", Ref)
IdSort = z3.DeclareSort("Id")
StrSort = z3.DeclareSort("Str")
AnySort = z3.DeclareSort("AnyVal")


class Ty:
    name = "?"

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Ty) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class _Prim(Ty):
    def __init__(self, name, sort):
        self.name = name
        self._sort = sort

    def sort(self):
        return self._sort


TInt = _Prim("int", z3.IntSort())
TBool = _Prim("bool", z3.BoolSort())
TStr = _Prim("str", StrSort)
TId = _Prim("id", IdSort)
TAny = _Prim("any", AnySort)
TNone = _Prim("none", None)

_enum_sorts = {}


class TEnum(Ty):
    def __init__(self, name, members):
        self.name = "enum_" + name
        self.ename = name
        self.members = list(members)
        if name not in _enum_sorts:
            s, cs = z3.EnumSort("E_" + name, ["%s_%s" % (name, m) for m in members])
            _enum_sorts[name] = (s, dict(zip(members, cs)))
        self._sort, self.consts = _enum_sorts[name]

    def sort(self):
        return self._sort


class TRef(Ty):
    def __init__(self, cls, nullable=False):
        self.cls = cls
        self.nullable = nullable
        self.name = "ref_%s%s" % (cls, "?" if nullable else "")

    def sort(self):
        return Ref


_dt_cache = {}


def _mangle(t):
    return (
        t.name.replace("[", "_").replace("]", "_").replace(",", "_").replace("?", "N")
    )


class TOpt(Ty):
    """Optional non-reference."""

    def __init__(self, inner):
        self.inner = inner
        self.name = "opt[%s]" % inner.name

    def sort(self):
        return opt_sort(self.inner.sort())

    def none(self):
        self.sort()
        return opt_parts(self.inner.sort())[0]

    def some(self, z):
        self.sort()
        return opt_parts(self.inner.sort())[1](z)


def opt_sort(s):
    key = ("opt", s.sexpr())
    if key not in _dt_cache:
        n = "Opt%d" % len(_dt_cache)
        d = z3.Datatype(n)
        d.declare(n + "_none")
        d.declare(n + "_some", (n + "_v", s))
        d = d.create()
        _dt_cache[key] = (
            d,
            d.constructor(0)(),
            d.constructor(1),
            d.recognizer(0),
            d.recognizer(1),
            d.accessor(1, 0),
        )
    return _dt_cache[key][0]


def opt_parts(s):
    """(none, some, is_none, is_some, val) of the option over sort s."""
    opt_sort(s)
    return _dt_cache[("opt", s.sexpr())][1:]


class TTup(Ty):
    """Tuple with known arity; cname set for NamedTuples."""

    def __init__(self, fields, cname=None):
        # fields: list of (name|None, Ty)
        self.fields = fields
        self.cname = cname
        self.name = (cname or "tup") + "[" + ",".join(t.name for _, t in fields) + "]"

    def sort(self):
        return self.dt()[0]

    def dt(self):
        key = ("tup", self.name)
        if key not in _dt_cache:
            n = "%s%d" % (self.cname or "Tup", len(_dt_cache))
            d = z3.Datatype(n)
            d.declare(
                n + "_mk",
                *[
                    ("%s_%s" % (n, f or i), t.sort())
                    for i, (f, t) in enumerate(self.fields)
                ],
            )
            d = d.create()
            _dt_cache[key] = (
                d,
                d.constructor(0),
                [d.accessor(0, i) for i in range(len(self.fields))],
            )
        return _dt_cache[key]


class TSet(Ty):
    def __init__(self, elem):
        self.elem = elem
        self.name = "set[%s]" % elem.name

    def sort(self):
        return z3.ArraySort(self.elem.sort(), z3.BoolSort())


class TDict(Ty):
    def __init__(self, key, val, default=False):
        self.key = key
        self.val = val
        self.default = default  # defaultdict(set/list/...)
        self.name = "%sdict[%s,%s]" % ("d" if default else "", key.name, val.name)

    def sort(self):
        if self.default:  # a total map: absent keys hold the (empty) default
            return z3.ArraySort(self.key.sort(), self.val.sort())
        return z3.ArraySort(self.key.sort(), opt_sort(self.val.sort()))


class TList(Ty):
    def __init__(self, elem):
        self.elem = elem
        self.name = "list[%s]" % elem.name

    def sort(self):
        return self.dt()[0]

    def dt(self):
        key = ("list", self.elem.sort().sexpr())
        if key not in _dt_cache:
            n = "List%d" % len(_dt_cache)
            d = z3.Datatype(n)
            d.declare(
                n + "_mk",
                (n + "_len", z3.IntSort()),
                (n + "_arr", z3.ArraySort(z3.IntSort(), self.elem.sort())),
            )
            d = d.create()
            _dt_cache[key] = (d, d.constructor(0), d.accessor(0, 0), d.accessor(0, 1))
        return _dt_cache[key]


def is_container(t):
    return isinstance(t, (TSet, TDict, TList))


def empty_of(t):
    if isinstance(t, TSet):
        return z3.K(t.elem.sort(), z3.BoolVal(False))
    if isinstance(t, TDict):
        if t.default:
            return z3.K(t.key.sort(), empty_of(t.val))
        none = opt_parts(t.val.sort())[0]
        return z3.K(t.key.sort(), none)
    if isinstance(t, TList):
        _, mk, _, _ = t.dt()
        e = z3.Const("emptyarr_" + _mangle(t), z3.ArraySort(z3.IntSort(), t.elem.sort()))
        return mk(z3.IntVal(0), e)
    raise TypeError(t)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (prefix, _fresh[0]), sort)


_str_consts = {}


def str_const(s):
    if s not in _str_consts:
        _str_consts[s] = z3.Const("s!%d!%s" % (len(_str_consts), "".join(c if c.isalnum() else "_" for c in s[:24])), StrSort)
    return _str_consts[s]


def str_value(z):
    """the Python string a known constant stands for, else None"""
    for k, v in _str_consts.items():
        if v.eq(z):
            return k
    return None


def str_axioms():
    cs = list(_str_consts.values())
    return [z3.Distinct(*cs)] if len(cs) > 1 else []


# boxing into Any / Id
_box = {}
_box_axioms = []


def box_fn(src_sort, dst_sort):
    key = (src_sort.sexpr(), dst_sort.sexpr())
    if key not in _box:
        nm = "box_%d" % len(_box)
        f = z3.Function(nm, src_sort, dst_sort)
        g = z3.Function("un" + nm, dst_sort, src_sort)
        _box[key] = (f, g)
        x = z3.Const("x", src_sort)
        _box_axioms.append(((f, g, src_sort), z3.ForAll([x], g(f(x)) == x, patterns=[f(x)])))
    return _box[key][0]


def unbox_fn(src_sort, dst_sort):
    box_fn(dst_sort, src_sort)
    return _box[(dst_sort.sexpr(), src_sort.sexpr())][1]


ANY_NONE = z3.Const("any_none", AnySort)
SAME_ELEMENT = z3.Function("same_element", AnySort, AnySort, z3.BoolSort())  # identity or ==
