"""Syntax trees (astroid nodes) and logical expressions (z3) as they appear in
the analyses.

A node is a value of an abstract sort.  Its class is one of KINDS (the classes
astroid's parser builds); its attributes are functions of the node, which exist
for the classes that have them (reading another one raises AttributeError, as
in Python).  A logical expression is a value of an abstract sort too; what it
means is given by functions: `zbool` (is it a formula rather than a term),
`zint` (is it of the integer sort), `zval` and `ztruth` (its value under an
arbitrary assignment, the same throughout)."""
import ast
import z3
from astroid import nodes
from . import theory as TH
from . import ty as T
from .ty import *
from .values import *
from .interp import zand, zor, znot
from .prims import EXTERNALS, BUILTINS, builtin, all_con

KINDS = [nodes.BoolOp, nodes.UnaryOp, nodes.BinOp, nodes.Compare, nodes.Const, nodes.Name, nodes.Attribute, nodes.Subscript, nodes.Call,
         nodes.If, nodes.While, nodes.IfExp, nodes.Slice, nodes.List, nodes.Set, nodes.Dict, nodes.Tuple, nodes.NamedExpr, nodes.Starred,
         nodes.Lambda, nodes.JoinedStr, nodes.ListComp, nodes.SetComp, nodes.DictComp, nodes.GeneratorExp, nodes.Await]
IDX = {k: i for i, k in enumerate(KINDS)}
NODE = OpaqueT("node", nodes.NodeNG)
ONODE = T.opt(NODE)
CONST = OpaqueT("constant")
CVAL = CONST
LAB = "astroid:nodes"
TEXT = ("astroid's nodes: the class of a node is exactly one of the parser's classes, it has the attributes of its class (operators from Python's grammar, "
        "boolean operators with at least two operands, comparisons with at least one), a variable never changes while a tree is analysed, trees are finite")


def kind(t):
    TH.trust(LAB, TEXT)
    return TH.uf("node_kind", [NODE], INT)(t)


def is_kind(t, *cs):
    return zor([kind(t) == IDX[c] for c in cs])


def _isinstance(I, s, classes):
    out = []
    for c in classes:
        if issubclass(nodes.NodeNG, c):
            return z3.BoolVal(True)
        ks = [k for k in KINDS if issubclass(k, c)]
        out.extend(kind(s.t) == IDX[k] for k in ks)
        if not ks or any(k not in KINDS for k in all_sub(c)):
            if isinstance(c, type) and issubclass(c, nodes.NodeNG) or not isinstance(c, type):
                out.append(z3.And(kind(s.t) >= len(KINDS), TH.uf(f"node_is_{c.__module__}.{c.__qualname__}", [NODE], BOOL)(s.t)))
    return zor(out)


def all_sub(c):
    """classes of the parser below c"""
    out = []
    for n in vars(nodes).values():
        if isinstance(n, type) and issubclass(n, c) and n.__module__.startswith("astroid"):
            out.append(n)
    return out


EXT_ATTR[(NODE.key, "isinstance")] = _isinstance
OPS = {nodes.BoolOp: ("and", "or"), nodes.UnaryOp: ("-", "+", "~", "not"),
       nodes.BinOp: ("+", "-", "*", "/", "//", "%", "**", "<<", ">>", "|", "&", "^", "@")}
CMPS = ("==", "!=", "<", "<=", ">", ">=", "in", "not in", "is", "is not")
OPSEQ = ListT(TupT(STR, NODE))


def attr(name, kinds, ty, fact=None):
    """attribute that nodes of the given classes have"""
    f = TH.uf(f"node_{name}", [NODE], ty)

    def h(I, s):
        if kinds is not None and not I.branch(is_kind(s.t, *kinds)):
            if I.branch(kind(s.t) < len(KINDS)) or I.choose(2):
                raise TExc(AttributeError)
            return Sym(ty, TH.uf(f"node_other_{name}", [NODE], ty)(s.t))
        r = f(s.t)
        if fact is not None:
            I.assume_once(fact(I, s.t, r))
        return Sym(ty, r)
    EXT_ATTR[("node", name)] = h
    return f


def one_of(r, xs):
    return zor([r == z3.StringVal(x) for x in xs])


def op_fact(I, t, r):
    return zand([z3.Implies(is_kind(t, k), one_of(r, xs)) for k, xs in OPS.items()])


def ops_fact(I, t, r):
    return z3.And(TH.f_len(OPSEQ.elem)(r) >= 1, one_of(OPSEQ.elem.get(TH.f_nth(OPSEQ.elem)(r, z3.IntVal(0)), 0), CMPS))


op = attr("op", (nodes.BoolOp, nodes.UnaryOp, nodes.BinOp), STR, op_fact)
values = attr("values", (nodes.BoolOp,), ListT(NODE), lambda I, t, r: TH.f_len(NODE)(r) >= 2)
left = attr("left", (nodes.BinOp, nodes.Compare), NODE)
right = attr("right", (nodes.BinOp,), NODE)
ops = attr("ops", (nodes.Compare,), OPSEQ, ops_fact)
operand = attr("operand", (nodes.UnaryOp,), NODE)
func = attr("func", (nodes.Call,), NODE)
args = attr("args", (nodes.Call,), ListT(NODE))
nname = attr("name", (nodes.Name,), STR)
value = attr("value", (nodes.Const,), CVAL)
parent = attr("parent", None, ONODE)


def _as_string(I, s, a, k):
    if a or k:
        raise Unsupported("as_string arguments")
    TH.trust("astroid:as_string", "the text of a node is a function of the node")
    return Sym(STR, TH.uf("node_text", [NODE], STR)(s.t))


def _children(I, s, a, k):
    """the operands of an operator, in order; of other nodes, some list of nodes"""
    L = ListT(NODE)

    def lit(*xs):
        r = TH.nil(L)
        for x in xs:
            r = TH.snoc(L, r, x)
        return Sym(L, r)
    if I.branch(is_kind(s.t, nodes.BoolOp)):
        return EXT_ATTR[("node", "values")](I, s)
    if I.branch(is_kind(s.t, nodes.UnaryOp)):
        return lit(operand(s.t))
    if I.branch(is_kind(s.t, nodes.BinOp)):
        return lit(left(s.t), right(s.t))
    if I.branch(is_kind(s.t, nodes.Compare)):
        o = EXT_ATTR[("node", "ops")](I, s).t
        if I.branch(TH.f_len(OPSEQ.elem)(o) == 1):
            return lit(left(s.t), OPSEQ.elem.get(TH.f_nth(OPSEQ.elem)(o, z3.IntVal(0)), 1))
    return Sym(L, TH.uf("node_children", [NODE], L)(s.t))


NODE.methods.update({"as_string": _as_string, "get_children": _children})

# ------------------------------------------------------- values of constants
import operator
import math
CLAB = "python:constants"
CTEXT = ("values of constants: None, booleans and integers are exact; operators on other values (floats, strings, ...) are functions of their operands "
         "that may raise TypeError, ValueError or an ArithmeticError instead; the functions of `operator` are the operators")
TAGS = {type(None): 0, bool: 1, int: 2, float: 3, str: 4}


def ctag(t):
    return TH.uf("const_tag", [CONST], INT)(t)


def cint(t):
    return TH.uf("const_int", [CONST], INT)(t)


def cbool(t):
    return cint(t) != 0


def cexact(t):
    return z3.And(ctag(t) >= 1, ctag(t) <= 2)


def c_of(ty, tag):
    def h(I, v):
        TH.trust(CLAB, CTEXT)
        if ty == NONE:
            r = z3.Const("const_none", CONST.sort())
            I.assume_once(ctag(r) == 0)
            return r
        r = TH.uf(f"const_of_{ty.key}", [ty], CONST)(v.t)
        I.assume_once(ctag(r) == tag)
        if ty == INT:
            I.assume_once(cint(r) == v.t)
        if ty == BOOL:
            I.assume_once(cint(r) == z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return r
    return h


for _t, _n in ((NONE, 0), (BOOL, 1), (INT, 2), (FLOAT, 3), (STR, 4)):
    EXT_ATTR[("constant", "of", _t.key)] = c_of(_t, _n)


def known_const(I, t):
    """what holds for every constant"""
    I.assume_once(ctag(t) >= 0)
    I.assume_once(z3.Implies(ctag(t) == 1, z3.And(cint(t) >= 0, cint(t) <= 1)))


def _c_isinstance(I, s, classes):
    known_const(I, s.t)
    out = []
    for c in classes:
        if c is object:
            return z3.BoolVal(True)
        if c in TAGS:
            out.append(z3.And(ctag(s.t) >= 1, ctag(s.t) <= 2) if c is int else ctag(s.t) == TAGS[c])
        else:
            out.append(z3.And(ctag(s.t) > 4, TH.uf(f"const_is_{c.__module__}.{c.__qualname__}", [CONST], BOOL)(s.t)))
    return zor(out)


EXT_ATTR[(CONST.key, "isinstance")] = _c_isinstance
def _c_int(I, s):
    if I.branch(cexact(s.t)):
        return Sym(INT, cint(s.t))
    raise Unsupported("int() of a constant")


EXT_ATTR[("constant", "int")] = _c_int
EXT_ATTR[("constant", "is None")] = lambda I, s: ctag(s.t) == 0


def _c_truth(I, s):
    known_const(I, s.t)
    return z3.Or(z3.And(cexact(s.t), cint(s.t) != 0), z3.And(ctag(s.t) > 2, TH.uf("const_truth", [CONST], BOOL)(s.t)))


EXT_ATTR[("constant", "truth")] = _c_truth


def as_const(I, v):
    s = I.lift(I.deref(v))
    return s.t if s.ty == CONST else I.coerce(s, CONST)


def _c_eq(I, x, y):
    if not I.can_coerce(y.ty, CONST) and y.ty != CONST:
        raise Unsupported("comparison of a constant")
    a, b = as_const(I, x), as_const(I, y)
    return z3.If(z3.And(cexact(a), cexact(b)), cint(a) == cint(b), z3.If(z3.Or(ctag(a) == 0, ctag(b) == 0), ctag(a) == ctag(b), TH.uf("const_eq", [CONST, CONST], BOOL)(a, b)))


EXT_ATTR[("constant", "eq")] = _c_eq
EXT_ATTR[("identical", CONST.key)] = True
ORDER = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}


def may_fail(I, *excs):
    k = I.choose(len(excs) + 1)
    if k:
        raise TExc(excs[k - 1])


def _c_compare(I, o, a, b):
    if isinstance(o, (ast.Is, ast.IsNot)) or any(isinstance(v, Sym) and v.ty == EXPR for v in (a, b)):
        if isinstance(o, (ast.Is, ast.IsNot)):
            if any(isinstance(v, Con) and v.o is None for v in (a, b)):
                return I.mkbool(I.compare(o, a, b))
            r = TH.uf("const_is", [CONST, CONST], BOOL)(as_const(I, a), as_const(I, b))
            return I.mkbool(znot(r) if isinstance(o, ast.IsNot) else r)
        return _compare(I, o, a, b)
    if isinstance(o, (ast.In, ast.NotIn)):
        return I.mkbool(I.compare(o, a, b))
    if isinstance(o, (ast.Eq, ast.NotEq)):
        r = I.eq(a, b)
        return I.mkbool(znot(r) if isinstance(o, ast.NotEq) else r)
    x, y = as_const(I, a), as_const(I, b)
    both = z3.And(cexact(x), cexact(y))
    f = TH.uf(f"const_{type(o).__name__}", [CONST, CONST], BOOL)(x, y)
    if not I.branch(both):
        if I.spec_depth == 0:
            may_fail(I, TypeError)
        return I.mkbool(f)
    return I.mkbool(ORDER[type(o)](cint(x), cint(y)))


EXT_ATTR[("constant", "compare")] = _c_compare


def c_binop(o):
    n = o.__name__

    def h(I, a, b):
        if any(isinstance(v, Sym) and v.ty == EXPR for v in (a, b)):
            raise Unsupported("constant and logical expression")
        x, y = as_const(I, a), as_const(I, b)
        TH.trust(CLAB, CTEXT)
        r = TH.uf(f"const_{n}", [CONST, CONST], CONST)(x, y)
        both = z3.And(cexact(x), cexact(y))
        ints = I.branch(both)
        if o in (ast.Div, ast.FloorDiv, ast.Mod):
            if ints:
                if I.branch(cint(y) == 0):
                    raise TExc(ZeroDivisionError)
            elif I.spec_depth == 0:
                may_fail(I, TypeError, ZeroDivisionError, OverflowError)
        elif o in (ast.Add, ast.Sub, ast.Mult):
            if not ints and I.spec_depth == 0:
                may_fail(I, TypeError, OverflowError, MemoryError)
        elif I.spec_depth == 0:
            may_fail(I, TypeError, ValueError, ZeroDivisionError, OverflowError, MemoryError)
        if ints:
            val = {ast.Add: lambda p, q: p + q, ast.Sub: lambda p, q: p - q, ast.Mult: lambda p, q: p * q,
                   ast.FloorDiv: lambda p, q: I.num(I.binop(o(), Sym(INT, p), Sym(INT, q))), ast.Mod: lambda p, q: I.num(I.binop(o(), Sym(INT, p), Sym(INT, q)))}.get(o)
            if val is not None:
                I.assume_once(ctag(r) == 2)
                I.assume_once(cint(r) == val(cint(x), cint(y)))
            elif o is ast.Div:
                I.assume_once(ctag(r) == 3)
        return Sym(CONST, r)
    return h


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
          ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
          ast.MatMult: operator.matmul}
for _o in BINOPS:
    EXT_ATTR[("constant", _o)] = c_binop(_o)


def c_unop(o):
    def h(I, s):
        x = s.t
        r = TH.uf(f"const_{o.__name__}", [CONST], CONST)(x)
        known_const(I, x)
        if I.branch(cexact(x)):
            I.assume_once(ctag(r) == 2)
            v = cint(x)
            I.assume_once(cint(r) == {ast.USub: -v, ast.UAdd: v, ast.Invert: -v - 1}[o])
        elif I.spec_depth == 0:
            may_fail(I, TypeError)
        return Sym(CONST, r)
    return h


UNOPS = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}
for _o in UNOPS:
    EXT_ATTR[("constant", _o)] = c_unop(_o)


@builtin(float)
def b_float(I, args, kwargs):
    if kwargs or len(args) != 1:
        raise Unsupported("float()")
    if all_con(args, kwargs):
        return Con(float(args[0].o))
    s = I.lift(I.deref(args[0]))
    if s.ty != CONST and not I.can_coerce(s.ty, CONST):
        raise Unsupported(f"float() of {s.ty}")
    t = as_const(I, s)
    TH.trust(CLAB, CTEXT)
    if not I.branch(zor([cexact(t), ctag(t) == 3])):
        raise TExc(ValueError if I.branch(ctag(t) == 4) and I.choose(2) else TypeError)
    r = TH.uf("const_float", [CONST], CONST)(t)
    I.assume_once(ctag(r) == 3)
    if I.choose(2):
        raise TExc(OverflowError)
    return Sym(CONST, r)


@builtin(math.isfinite)
def b_isfinite(I, args, kwargs):
    s = I.lift(I.deref(args[0]))
    if s.ty != CONST:
        raise Unsupported("isfinite")
    if I.branch(cexact(s.t)):
        if I.choose(2):
            raise TExc(OverflowError)
        return Con(True)
    if not I.branch(ctag(s.t) == 3):
        raise TExc(TypeError)
    return Sym(BOOL, TH.uf("const_finite", [CONST], BOOL)(s.t))


_abs0 = BUILTINS[id(abs)][1]


@builtin(abs)
def b_abs(I, args, kwargs):
    s = I.lift(I.deref(args[0]))
    if s.ty != CONST:
        return _abs0(I, args, kwargs)
    r = TH.uf("const_abs", [CONST], CONST)(s.t)
    if I.branch(cexact(s.t)):
        I.assume_once(ctag(r) == 2)
        I.assume_once(cint(r) == z3.If(cint(s.t) >= 0, cint(s.t), -cint(s.t)))
    elif I.branch(ctag(s.t) == 3):
        I.assume_once(ctag(r) == 3)
    elif I.spec_depth == 0:
        may_fail(I, TypeError, OverflowError)
    return Sym(CONST, r)


def op_function(o):
    def h(I, a, k):
        if k or len(a) != 2:
            raise Unsupported("operator function")
        return I.binop(o(), a[0], a[1])
    return h


def op_unary(o):
    def h(I, a, k):
        s = I.lift(I.deref(a[0]))
        if s.ty == CONST:
            return EXT_ATTR[("constant", o)](I, s)
        v = I.num(s)
        return Sym(INT, {ast.USub: -v, ast.UAdd: v, ast.Invert: -v - 1}[o])
    return h


def op_compare(o):
    def h(I, a, k):
        if k or len(a) != 2:
            raise Unsupported("operator function")
        f = I.own_compare(a[0], a[1])
        return f(I, o(), a[0], a[1]) if f is not None else I.mkbool(I.compare(o(), a[0], a[1]))
    return h


for _o, _f in BINOPS.items():
    EXTERNALS[id(_f)] = (_f, op_function(_o), f"operator.{_f.__name__}")
for _o, _f in UNOPS.items():
    EXTERNALS[id(_f)] = (_f, op_unary(_o), f"operator.{_f.__name__}")
for _o, _f in {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
               ast.Is: operator.is_, ast.IsNot: operator.is_not}.items():
    EXTERNALS[id(_f)] = (_f, op_compare(_o), f"operator.{_f.__name__}")
EXTERNALS[id(operator.not_)] = (operator.not_, lambda I, a, k: I.mkbool(znot(I.truth(a[0]))), "operator.not_")

# -------------------------------------------------------- logical expressions
EXPR = OpaqueT("z3 expression")
OEXPR = T.opt(EXPR)
ZLAB = "z3:terms"
ZTEXT = ("z3's Python interface builds the expression its operators and functions name (arithmetic of terms, comparison of terms of the same kind, And, Or, Not, Abs, "
         "BoolVal, IntVal); / and % of integer terms by a positive constant round down; other combinations raise an exception")


def zf(name, ty):
    return TH.uf(f"expr_{name}", [EXPR], ty)


zbool, zint, zval, ztruth = zf("bool", BOOL), zf("int", BOOL), zf("val", INT), zf("truth", BOOL)


class Z3Error(Exception):
    pass


def build(I, name, parts, bool_=None, val=None, truth=None, int_=None):
    """the expression that z3 builds from the parts"""
    TH.trust(ZLAB, ZTEXT)
    r = TH.uf(f"z3_{name}", [p.ty for p in parts], EXPR)(*[p.t for p in parts])
    I.assume_once(zbool(r) == z3.BoolVal(bool_))
    if val is not None:
        I.assume_once(zval(r) == val)
    if truth is not None:
        I.assume_once(ztruth(r) == truth)
    if int_ is not None:
        I.assume_once(zint(r) == int_)
    elif bool_:
        I.assume_once(znot(zint(r)))
    return Sym(EXPR, r)


def operand_of(I, v, want_bool=False):
    """the expression an operand stands for"""
    if isinstance(v, (Con, Sym)):
        s = I.lift(I.deref(v))
        if is_union(s.ty):
            n = I.narrow(s, lambda a: a in (EXPR, INT, BOOL, CONST))
            if n is None:
                raise TExc(Z3Error)
            s = n
        if s.ty == CONST:
            known_const(I, s.t)
            if not I.branch(cexact(s.t)):
                if I.branch(ctag(s.t) == 3):
                    return build(I, "RealVal", [s], bool_=False, int_=z3.BoolVal(False))
                raise TExc(Z3Error)
            s = Sym(BOOL, cbool(s.t)) if I.branch(ctag(s.t) == 1) else Sym(INT, cint(s.t))
        if s.ty == EXPR:
            return s
        if s.ty == INT:
            return build(I, "IntVal", [s], bool_=False, val=s.t, int_=z3.BoolVal(True))
        if s.ty == BOOL:
            return build(I, "BoolVal", [s], bool_=True, truth=s.t)
    raise Unsupported("operand of a logical expression")


def term(I, v):
    """an operand of arithmetic (a formula may be refused, or counts as a term about which nothing is known)"""
    if isinstance(v, Sym) and v.ty == CONST and I.branch(ctag(v.t) == 1):
        v = Sym(INT, cint(v.t))  # truth values are coerced to the sort of the other operand
    s = operand_of(I, v)
    if I.branch(zbool(s.t)):
        if I.choose(2):
            raise TExc(Z3Error)
        return build(I, "some_term", [s], bool_=False)
    return s


def arith(name, f):
    def h(I, a, b):
        x, y = term(I, a), term(I, b)
        return build(I, name, [x, y], bool_=False, val=f(zval(x.t), zval(y.t)), int_=z3.And(zint(x.t), zint(y.t)))
    return h


def divide(name, f):
    def h(I, a, b):
        x, y = term(I, a), term(I, b)
        if not I.branch(z3.And(zint(x.t), zint(y.t))):
            if name == "mod":
                raise TExc(Z3Error)
            return build(I, "quotient", [x, y], bool_=False)
        k = zval(y.t)
        r = build(I, name, [x, y], bool_=False, int_=z3.BoolVal(True))
        I.assume_once(z3.Implies(k > 0, zval(r.t) == f(zval(x.t), k)))
        return r
    return h


EXT_ATTR[("z3 expression", ast.Add)] = arith("add", lambda x, y: x + y)
EXT_ATTR[("z3 expression", ast.Sub)] = arith("sub", lambda x, y: x - y)
EXT_ATTR[("z3 expression", ast.Mult)] = arith("mul", lambda x, y: x * y)
EXT_ATTR[("z3 expression", ast.Mod)] = divide("mod", lambda x, k: x % k)
EXT_ATTR[("z3 expression", ast.Div)] = divide("div", lambda x, k: x / k)
EXT_ATTR[("z3 expression", ast.USub)] = lambda I, s: build(I, "neg", [term(I, s)], bool_=False, val=-zval(s.t), int_=zint(s.t))


def _compare(I, o, a, b):
    if isinstance(o, (ast.Is, ast.IsNot)):
        return I.mkbool(I.compare(o, a, b))
    for v in (a, b):
        if isinstance(v, Con) and v.o is None or isinstance(v, Sym) and v.ty == NONE:
            return I.mkbool(I.compare(o, a, b))
    x, y = operand_of(I, a), operand_of(I, b)
    f = {ast.Eq: lambda p, q: p == q, ast.NotEq: lambda p, q: p != q, ast.Lt: lambda p, q: p < q, ast.LtE: lambda p, q: p <= q,
         ast.Gt: lambda p, q: p > q, ast.GtE: lambda p, q: p >= q}[type(o)]
    bx, by = I.branch(zbool(x.t)), I.branch(zbool(y.t))
    n = "cmp_" + type(o).__name__
    if bx != by or bx and not isinstance(o, (ast.Eq, ast.NotEq)):
        if I.choose(2):
            raise TExc(Z3Error)
        return build(I, n + "_mixed", [x, y], bool_=True)
    if bx:
        return build(I, n, [x, y], bool_=True, truth=f(ztruth(x.t), ztruth(y.t)))
    return build(I, n, [x, y], bool_=True, truth=f(zval(x.t), zval(y.t)))


EXT_ATTR[("z3 expression", "compare")] = _compare

import z3 as Z


def ext(obj, h, name):
    EXTERNALS[id(obj)] = (obj, h, name)


def _formula(I, v):
    s = operand_of(I, v)
    if not I.branch(zbool(s.t)):
        raise TExc(Z3Error)
    return s


def _not(I, a, k):
    s = _formula(I, a[0])
    return build(I, "Not", [s], bool_=True, truth=znot(ztruth(s.t)))


def _abs(I, a, k):
    s = term(I, a[0])
    return build(I, "Abs", [s], bool_=False, val=z3.If(zval(s.t) >= 0, zval(s.t), -zval(s.t)), int_=zint(s.t))


def _nary(name):
    def h(I, a, k):
        if k:
            raise Unsupported(name)
        if len(a) == 1:
            l = I.lift(I.deref(a[0]))
            if isinstance(l.ty, ListT) and l.ty.elem != EXPR and I.can_coerce(l.ty, ListT(EXPR)):
                l = Sym(ListT(EXPR), I.coerce(l, ListT(EXPR)))
            if not isinstance(l.ty, ListT) or l.ty.elem != EXPR:
                if isinstance(l, Sym) and l.ty == EXPR:
                    return l
                raise Unsupported(f"{name} of {l.ty}")
            spec = all_true if name == "And" else any_true
            t = I.truth(I.job.call_spec_raw(I, spec, [l]))
            I.obligation(f"operands of {name} are formulas", I.truth(I.job.call_spec_raw(I, all_formulas, [l])), "z3 raises an exception otherwise")
            return build(I, name, [l], bool_=True, truth=t)
        parts = [_formula(I, x) for x in a]
        return build(I, f"{name}{len(parts)}", parts, bool_=True, truth=(zand if name == "And" else zor)([ztruth(p.t) for p in parts]))
    return h


def is_formula(e):
    import z3
    return z3.is_bool(e)


def holds(e):
    """truth of a formula under the one assignment considered"""


def number(e):
    """value of a term under the one assignment considered"""


def is_int_sort(e):
    import z3
    return z3.is_int(e)


def all_true(l):
    return all(holds(e) for e in l)


def any_true(l):
    return any(holds(e) for e in l)


def all_formulas(l):
    return all(is_formula(e) for e in l)


def ghost(fn, f, ty, argty=EXPR):
    ext(fn, lambda I, a, k: Sym(ty, f(I.coerce(I.as_ty(a[0], argty), argty))), fn.__name__)


ghost(is_formula, zbool, BOOL)
ghost(holds, ztruth, BOOL)
ghost(number, zval, INT)
ghost(is_int_sort, zint, BOOL)


def _valued(want, name):
    def h(I, a, k):
        s = I.lift(I.deref(a[0]))
        if s.ty == CONST:
            known_const(I, s.t)
            if not I.branch(cexact(s.t)):
                if name == "RealVal":
                    return build(I, "RealVal", [s], bool_=False, int_=z3.BoolVal(False))
                raise TExc(Z3Error)
            s = Sym(BOOL, cbool(s.t)) if I.branch(ctag(s.t) == 1) else Sym(INT, cint(s.t))
        if name == "BoolVal" and s.ty == BOOL or name == "IntVal" and s.ty == INT:
            return operand_of(I, s)
        if name == "IntVal" and s.ty == BOOL:
            return operand_of(I, Sym(INT, I.coerce(s, INT)))
        if name == "RealVal" and s.ty in (INT, FLOAT):
            return build(I, "RealVal", [s], bool_=False, int_=z3.BoolVal(False), val=s.t if s.ty == INT else None)
        raise Unsupported(f"{name} of {s.ty}")
    return h


def _is_sort(f):
    def h(I, a, k):
        s = I.deref(a[0])
        if not isinstance(s, Sym):
            raise Unsupported("sort of a value")
        s = I.flow_narrow(s) if is_union(s.ty) else s
        if s.ty != EXPR:
            raise Unsupported("sort of a value")
        return I.mkbool(f(s.t))
    return h


def register(z):
    for n, h in (("Not", _not), ("Abs", _abs), ("And", _nary("And")), ("Or", _nary("Or")), ("is_int", _is_sort(zint)), ("is_bool", _is_sort(zbool)),
                 ("BoolVal", _valued(BOOL, "BoolVal")), ("IntVal", _valued(INT, "IntVal")), ("RealVal", _valued(FLOAT, "RealVal"))):
        ext(getattr(z, n), h, "z3." + n)


register(Z)
