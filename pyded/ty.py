"""Types of the verifier and their SMT sorts.

Every symbolic value carries one of these types.  Lists are inductive
(nil | snoc(init, last)), so that "one more loop iteration" is one more
constructor and every proof about a loop is a structural induction.
"""
import enum
import re
import z3

_sorts = {}
_names = {}


def _san(key):
    s = re.sub(r"[^A-Za-z0-9]+", "_", key)
    if len(s) > 40:
        s = s[:32]
    n = _names.get(key)
    if n is None:
        n = f"{s}_{len(_names)}"
        _names[key] = n
    return n


class Ty:
    key = "?"

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def sort(self):
        s = _sorts.get(self.key)
        if s is None:
            s = self._mk()
            _sorts[self.key] = s
        return s

    def _mk(self):
        raise NotImplementedError(self.key)


class Prim(Ty):
    def __init__(self, key, mk, pytype):
        self.key = key
        self._m = mk
        self.pytype = pytype

    def _mk(self):
        return self._m()


INT = Prim("int", z3.IntSort, int)
BOOL = Prim("bool", z3.BoolSort, bool)
STR = Prim("str", z3.StringSort, str)


class _NoneT(Ty):
    key = "None"

    def _mk(self):
        d = z3.Datatype("NoneT")
        d.declare("none_value")
        return d.create()


NONE = _NoneT()


class OpaqueT(Ty):
    """Values about which only equality (and uninterpreted functions) is known."""

    def __init__(self, name, cls=None, methods=None, truthy=True):
        self.name = name
        self.cls = cls
        self.key = f"opaque:{name}"
        self.methods = methods or {}
        self.truthy = truthy

    def _mk(self):
        return z3.DeclareSort(_san(self.key))


FLOAT = OpaqueT("float", float, truthy=False)


class UnknownT(Ty):
    key = "unknown"


UNKNOWN = UnknownT()


class ListT(Ty):
    pytype = list

    def __init__(self, elem):
        self.elem = elem
        self.key = f"list[{elem.key}]"

    def _mk(self):
        return _list_sort(self.elem)


def _list_sort(elem):
    k = f"listsort[{elem.key}]"
    if k not in _sorts:
        n = _san(k)
        d = z3.Datatype("L" + n)
        d.declare("nil" + n)
        d.declare("snoc" + n, ("init" + n, d), ("last" + n, elem.sort()))
        _sorts[k] = d.create()
    return _sorts[k]


class VTupT(ListT):
    """tuple[elem, ...]"""

    pytype = tuple

    def __init__(self, elem):
        self.elem = elem
        self.key = f"vtup[{elem.key}]"


def nil(ty):
    return ty.sort().constructor(0)()


def is_nil(ty, t):
    return ty.sort().recognizer(0)(t)


def snoc(ty, p, x):
    return ty.sort().constructor(1)(p, x)


def init(ty, t):
    return ty.sort().accessor(1, 0)(t)


def last(ty, t):
    return ty.sort().accessor(1, 1)(t)


class TupT(Ty):
    pytype = tuple

    def __init__(self, *elems):
        self.elems = tuple(elems)
        self.key = "tuple[" + ",".join(e.key for e in elems) + "]"

    def _mk(self):
        n = _san(self.key)
        d = z3.Datatype("T" + n)
        d.declare("mkT" + n, *[(f"t{i}_{n}", e.sort()) for i, e in enumerate(self.elems)])
        return d.create()

    def make(self, *ts):
        return self.sort().constructor(0)(*ts)

    def get(self, t, i):
        return self.sort().accessor(0, i)(t)


class SetT(Ty):
    pytype = set

    def __init__(self, elem):
        self.elem = elem
        self.key = f"set[{elem.key}]"

    def _mk(self):
        return z3.ArraySort(self.elem.sort(), z3.BoolSort())


def opt_sort(v):
    k = f"opt[{v.key}]"
    if k not in _sorts:
        n = _san(k)
        d = z3.Datatype("O" + n)
        d.declare("absent" + n)
        d.declare("present" + n, ("val" + n, v.sort()))
        _sorts[k] = d.create()
    return _sorts[k]


class DictT(Ty):
    pytype = dict

    def __init__(self, k, v, cls=dict):
        self.k = k
        self.v = v
        self.pytype = cls
        self.key = f"dict[{k.key},{v.key}]" + ("" if cls is dict else f":{cls.__name__}")

    def _mk(self):
        base = f"dictsort[{self.k.key},{self.v.key}]"
        if base not in _sorts:
            n = _san(base)
            d = z3.Datatype("D" + n)
            d.declare(
                "mkD" + n,
                ("order" + n, _list_sort(self.k)),
                ("arr" + n, z3.ArraySort(self.k.sort(), opt_sort(self.v))),
            )
            _sorts[base] = d.create()
        return _sorts[base]

    def order(self, t):
        return access(self.sort(), 0, 0, t)

    def arr(self, t):
        return access(self.sort(), 0, 1, t)

    def make(self, order, arr):
        return self.sort().constructor(0)(order, arr)

    def empty(self):
        return self.make(nil(ListT(self.k)), z3.K(self.k.sort(), self.absent()))

    def absent(self):
        return opt_sort(self.v).constructor(0)()

    def present(self, v):
        return opt_sort(self.v).constructor(1)(v)

    def has(self, t, k):
        return opt_sort(self.v).recognizer(1)(z3.Select(self.arr(t), k))

    def get(self, t, k):
        return opt_sort(self.v).accessor(1, 0)(z3.Select(self.arr(t), k))


def access(srt, ci, ai, t):
    """field ai of constructor ci, pushed through conditionals and literals"""
    acc = srt.accessor(ci, ai)
    con = srt.constructor(ci)
    memo = {}

    def go(u):
        i = u.get_id()
        if i in memo:
            return memo[i]
        if z3.is_app(u) and u.decl().eq(con):
            r = (u.arg(ai), True)
        elif z3.is_app_of(u, z3.Z3_OP_ITE):
            a, fa = go(u.arg(1))
            b, fb = go(u.arg(2))
            if a.eq(b):
                r = (a, fa or fb)
            elif fa or fb:
                r = (z3.If(u.arg(0), a, b), True)
            else:
                r = (acc(u), False)
        else:
            r = (acc(u), False)
        memo[i] = r
        return r
    return go(t)[0]


def recognize(srt, ci, t):
    rec = srt.recognizer(ci)
    memo = {}

    def go(u):
        i = u.get_id()
        if i in memo:
            return memo[i]
        r = rec(u), False
        if z3.is_app(u) and u.num_args() == srt.constructor(ci).arity() and u.decl().eq(srt.constructor(ci)):
            r = z3.BoolVal(True), True
        elif z3.is_app(u) and u.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            r = z3.BoolVal(False), True
        elif z3.is_app_of(u, z3.Z3_OP_ITE):
            (a, fa), (b, fb) = go(u.arg(1)), go(u.arg(2))
            if fa or fb:
                r = (a if a.eq(b) else z3.If(u.arg(0), a, b)), True
        memo[i] = r
        return r
    return go(t)[0]


class RecT(Ty):
    """A class whose instances are modelled by the values of their fields."""

    def __init__(self, cls, fields, frozen=False, name=None, con_fields=()):
        self.cls = cls
        self.name = name or cls.__name__
        self.fields = dict(fields)
        self.frozen = frozen
        self.con_fields = dict(con_fields)
        self.key = f"rec:{self.name}"

    def _mk(self):
        n = _san(self.key)
        d = z3.Datatype("R" + n)
        d.declare("mkR" + n, *[(f"{f}_{n}", t.sort()) for f, t in self.fields.items()])
        return d.create()

    def make(self, *ts):
        return self.sort().constructor(0)(*ts)

    def get(self, t, f):
        return access(self.sort(), 0, list(self.fields).index(f), t)


class EnumT(Ty):
    def __init__(self, cls):
        self.cls = cls
        self.key = f"enum:{cls.__name__}"
        self.members = list(cls)

    def _mk(self):
        n = _san(self.key)
        d = z3.Datatype("E" + n)
        for m in self.members:
            d.declare(f"{m.name}_{n}")
        return d.create()

    def const(self, m):
        return self.sort().constructor(self.members.index(m))()

    def member(self, t):
        """the member a constructor term denotes, None for other terms"""
        for i, m in enumerate(self.members):
            if t.eq(self.sort().constructor(i)()):
                return m
        return None


class UnionT(Ty):
    def __init__(self, alts):
        self.alts = tuple(alts)
        self.key = "union[" + "/".join(a.key for a in self.alts) + "]"

    def _mk(self):
        n = _san(self.key)
        d = z3.Datatype("U" + n)
        for i, a in enumerate(self.alts):
            if a == NONE:
                d.declare(f"unone_{n}")
            else:
                d.declare(f"u{i}_{n}", (f"p{i}_{n}", a.sort()))
        return d.create()

    def inj(self, i, t=None):
        if self.alts[i] == NONE:
            return self.sort().constructor(i)()
        return self.sort().constructor(i)(t)

    def is_(self, i, t):
        return recognize(self.sort(), i, t)

    def proj(self, i, t):
        if self.alts[i] == NONE:
            return NONE.sort().constructor(0)()
        return access(self.sort(), i, 0, t)


def union(*tys):
    flat = []
    for t in tys:
        for a in t.alts if isinstance(t, UnionT) else (t,):
            if a not in flat:
                flat.append(a)
    if len(flat) == 1:
        return flat[0]
    if any(a == DYN for a in flat):
        return DYN
    flat.sort(key=lambda a: (a != NONE, a.key))
    return UnionT(flat)


def opt(t):
    return union(NONE, t)


# --- dynamically typed values (parsed TOML / JSON) -------------------------


class DynT(Ty):
    """Any TOML value: an uninterpreted sort with a tag and one projection per tag."""

    key = "dyn"

    def _mk(self):
        return z3.DeclareSort("Dyn")

    @property
    def alts(self):
        return (NONE, BOOL, INT, STR, FLOAT, DYNTIME, ListT(DYN), DictT(STR, DYN))

    def tag(self, t):
        return z3.Function("dyn_tag", self.sort(), z3.IntSort())(t)

    def is_(self, i, t):
        return self.tag(t) == i

    def proj(self, i, t):
        a = self.alts[i]
        if a == NONE:
            return NONE.sort().constructor(0)()
        return z3.Function(f"dyn_as_{_san(a.key)}", self.sort(), a.sort())(t)

    def inj(self, i, t=None):
        a = self.alts[i]
        if a == NONE:
            return z3.Const("dyn_none", self.sort())
        return z3.Function(f"dyn_of_{_san(a.key)}", a.sort(), self.sort())(t)


DYN = DynT()
DYNTIME = OpaqueT("datetime")


def is_union(t):
    return isinstance(t, (UnionT, DynT))


def union_domain(ty, t):
    """constraint that a term of a union type has one of its tags (only needed for DYN)"""
    if isinstance(ty, DynT):
        return z3.And(ty.tag(t) >= 0, ty.tag(t) < len(ty.alts))
    return z3.BoolVal(True)


_recs = {}
_enums = {}


def register_rec(r):
    _recs[r.cls] = r
    return r


_aliases = {}


def register_alias(alias, r):
    """objects made by calling a parametrised generic class have the model r"""
    _aliases[alias] = r
    return r


def alias_rec(alias):
    return _aliases.get(alias)


def widens(a, b):
    """another model of the same class with the same fields"""
    return isinstance(a, RecT) and isinstance(b, RecT) and a.cls is b.cls and a != b and list(a.fields) == list(b.fields) and not a.con_fields and not b.con_fields and a.frozen and b.frozen


def rec_of(cls):
    return _recs.get(cls)


def enum_of(cls):
    if cls not in _enums:
        _enums[cls] = EnumT(cls)
    return _enums[cls]


def ty_of_const(o):
    if o is None:
        return NONE
    if isinstance(o, bool):
        return BOOL
    if isinstance(o, enum.Enum):
        return enum_of(type(o))
    if isinstance(o, int):
        return INT
    if isinstance(o, str):
        return STR
    if isinstance(o, float):
        return FLOAT
    return None
