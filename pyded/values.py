"""Symbolic values, heap cells and path states."""
import z3
from . import ty as T
from .ty import *


EXT_ATTR = {}  # (type, attribute | operator | "isinstance" | ...) -> its model


class Unsupported(Exception):
    """The verifier cannot express this construct: the function is undecided."""


class Retype(Exception):
    """An empty literal's element type was learnt: restart the function."""


class TExc(Exception):
    """An exception raised by the verified program."""

    def __init__(self, cls, args=(), where=""):
        super().__init__(cls.__name__)
        self.cls = cls
        self.vargs = args
        self.where = where


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Infeasible(Exception):
    pass


class V:
    pass


class Sym(V):
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return f"Sym({self.ty.key}:{str(self.t)[:60]})"


class SymW(Sym):
    """a list value whose iteration is not fused with the comprehension that built it"""

    __slots__ = ()


class Con(V):
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return f"Con({self.o!r})"


class Ref(V):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"Ref({self.cid})"


class PRef(V):
    """alias of a component of a mutable cell: cell -> steps"""

    __slots__ = ("cid", "steps", "ty", "sver", "dver", "snap")

    def __init__(self, cid, steps, ty, sver, dver, snap):
        self.cid, self.steps, self.ty, self.sver, self.dver, self.snap = cid, steps, ty, sver, dver, snap


class TupV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"TupV{self.items!r}"


class Clo(V):
    """closure over the verified program's own source"""

    __slots__ = ("node", "fid", "glob", "name", "defaults", "cls")

    def __init__(self, node, fid, glob, name, defaults, cls=None):
        self.node, self.fid, self.glob, self.name, self.defaults, self.cls = node, fid, glob, name, defaults, cls


class Bound(V):
    __slots__ = ("f", "self_")

    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Meth(V):
    """method of a modelled value, dispatched on its type at the call"""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Part(V):
    __slots__ = ("f", "args", "kwargs")

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class IterV(V):
    """lazy iterable: base list term + binder(x, prefix) -> (value, guard or None)"""

    __slots__ = ("elem", "base", "bind", "assume", "indexed")

    def __init__(self, elem, base, bind, assume=None, indexed=False):
        self.elem, self.base, self.bind, self.assume, self.indexed = elem, base, bind, assume, indexed


class ConcIter(V):
    """iterable with a known finite list of values"""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Choice(V):
    """one of finitely many concrete objects"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts  # [(cond, V)]


class MaybeUnbound(V):
    pass


class Cell:
    __slots__ = ("ty", "term", "fields", "sver", "dver", "site", "elem_mut", "origin", "con", "param")

    def __init__(self, ty, term=None, fields=None, site=None, sver=0, dver=0, elem_mut=False, origin=None, param=None):
        self.ty, self.term, self.fields, self.site = ty, term, fields, site
        self.sver, self.dver, self.elem_mut, self.origin, self.param = sver, dver, elem_mut, origin, param

    def copy(self):
        return Cell(self.ty, self.term, dict(self.fields) if self.fields is not None else None, self.site, self.sver, self.dver,
                    self.elem_mut, self.origin, self.param)


class State:
    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.pc = []
        self.cnt = 0
        self.dec = []
        self.di = 0
        self.pend = []
        self.scope = ()
        self.expl = 0
        self.trace = []
        self.pv = []  # names of branch decisions (for diagnostics)
        self.ghost = {}

    def clone(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.cnt = self.cnt
        s.dec, s.di, s.pend, s.scope, s.expl = self.dec, self.di, self.pend, self.scope, self.expl
        s.trace = list(self.trace)
        s.pv = list(self.pv)
        s.ghost = dict(self.ghost)
        return s
