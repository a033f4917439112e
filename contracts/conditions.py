"""Contracts on the logical encoding of conditions (linting/analyses/z3_analysis.py)."""
import z3
from astroid import nodes
from pyded import theory as TH
from pyded.job import contract, Cand, formula
from pyded.prims import opaque
from pyded.ty import *
from pyded.values import *
from pyded.interp import znot
from pyded.nodes import ext, as_const, known_const, cexact, cint, NODE, ONODE, CVAL, EXPR, OEXPR, holds, number, is_formula, is_int_sort
from .types import *
import edulint.linting.analyses.z3_analysis as ZA

# --------------------------------------------------- values of constant expressions (A01)
from functools import reduce
import edulint.linting.analyses.utils as U


def unary(op, a):
    if op == "-":
        return -a
    if op == "+":
        return +a
    if op == "~":
        return ~a
    return not a


def binary(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    if op == "//":
        return a // b
    if op == "%":
        return a % b
    if op == "**":
        return a ** b
    if op == "<<":
        return a << b
    if op == ">>":
        return a >> b
    if op == "|":
        return a | b
    if op == "&":
        return a & b
    return a ^ b


def compare(op, a, b):
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    if op == ">=":
        return a >= b
    if op == "is":
        return a is b
    return a is not b


@opaque({"text": STR}, INT)
def stored(text):
    """the value of the pure expression with this text"""


@opaque({"node": NODE}, CVAL)
def meaning(node):
    """the value Python computes for an expression of constants (anything for the others)"""
    if isinstance(node, nodes.Const):
        return node.value
    if isinstance(node, nodes.UnaryOp):
        return unary(node.op, meaning(node.operand))
    if isinstance(node, nodes.BinOp):
        return binary(node.op, meaning(node.left), meaning(node.right))
    if isinstance(node, nodes.BoolOp):
        if node.op == "and":
            return reduce(lambda a, b: b if a else a, [meaning(v) for v in node.values])
        return reduce(lambda a, b: a if a else b, [meaning(v) for v in node.values])
    if isinstance(node, nodes.Compare) and len(node.ops) == 1:
        return compare(node.ops[0][0], meaning(node.left), meaning(node.ops[0][1]))
    return None


def same(a, b):
    """the very same constant"""
    return a is b or type(a) is type(b) and a == b


ext(same, lambda I, a, k: I.mkbool(as_const(I, a[0]) == as_const(I, a[1])), "same")


@opaque({"node": NODE}, CVAL)
def const(node):
    """what the analyses take for the value of the expression, None if it is no constant"""
    return U.get_const_value(node)


def const_hook(I, a, k):
    if k or len(a) != 1:
        raise Unsupported("get_const_value arguments")
    n = I.coerce(I.as_ty(a[0], NODE), NODE)
    TH.trust("edulint:get_const_value", "get_const_value returns the same value for the same node; that it is None or the value of the node is proved")
    r = TH.uf("spec contracts.conditions.const", [NODE], CVAL)(n)
    known_const(I, r)
    I.assume_once(z3.Implies(cexact(r), TH.uf("spec contracts.conditions.value", [NODE], INT)(n) == cint(r)))
    return Sym(CVAL, r)


GEN_NODES = {"depth": 3}


def gen_node(rng):
    import astroid
    import warnings
    from .bd_analyses import const_expr, small, Big
    while True:
        src = const_expr(rng, rng.randrange(4))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                small(__import__("ast").parse(src, mode="eval").body)
        except Big:
            continue
        except Exception:
            pass
        return {"node": astroid.parse("_ = " + src).body[0].value}


FAILS = {ValueError: None, KeyError: None, TypeError: None, ArithmeticError: None, MemoryError: None}
contract("edulint.linting.analyses.utils:get_const_value_rec", props=["A01"], reveal=(meaning,), gen=gen_node,
         params={"node": NODE}, raises=FAILS, spec=lambda node: meaning(node))
contract("edulint.linting.analyses.utils:get_const_value", props=["A01"], gen=gen_node, name="get_const_value",
         params={"node": NODE}, ret=CVAL, ensures=[("nothing or the value Python computes", lambda node, result: result is None or same(result, meaning(node)))])
if hasattr(U, "get_const_value"):
    ext(U.get_const_value, const_hook, "get_const_value")


def truly(node):
    """a constant expression with a value"""
    return const(node) is not None


for _f, _s in (("is_number", lambda node: isinstance(const(node), (int, float)) and not isinstance(const(node), bool)),
               ("is_integer", lambda node: isinstance(const(node), int) and not isinstance(const(node), bool)),
               ("is_float", lambda node: isinstance(const(node), float))):
    contract(f"edulint.linting.analyses.utils:{_f}", props=["A01"], params={"node": NODE}, spec=_s, gen=gen_node)


def is_abs(node):
    return isinstance(node, nodes.Call) and isinstance(node.func, nodes.Name) and node.func.name == "abs" and len(node.args) == 1


@opaque({"node": NODE}, INT)
def value(node):
    """the value of an expression of integers"""
    if isinstance(node, nodes.Const) and isinstance(node.value, int):
        return int(node.value)
    if is_abs(node):
        return value(node.args[0]) if value(node.args[0]) >= 0 else -value(node.args[0])
    if isinstance(node, nodes.UnaryOp) and node.op == "-":
        return -value(node.operand)
    if isinstance(node, nodes.UnaryOp) and node.op == "+":
        return value(node.operand)
    if isinstance(node, nodes.BinOp):
        if node.op == "+":
            return value(node.left) + value(node.right)
        if node.op == "-":
            return value(node.left) - value(node.right)
        if node.op == "*":
            return value(node.left) * value(node.right)
        if node.op == "//" and value(node.right) != 0:
            return value(node.left) // value(node.right)
        if node.op == "%" and value(node.right) != 0:
            return value(node.left) % value(node.right)
    return stored(node.as_string())


def text_hook(I, s, a, k):
    """in a pure condition the same text has the same value everywhere"""
    if a or k:
        raise Unsupported("as_string arguments")
    TH.trust("edulint:pure conditions", "every occurrence of an expression in a pure condition has the same value; the value of a constant expression is its constant value")
    t = TH.uf("node_text", [NODE], STR)(s.t)
    I.assume_once(TH.uf("spec contracts.conditions.value", [NODE], INT)(s.t) == TH.uf("spec contracts.conditions.stored", [STR], INT)(t))
    return Sym(STR, t)


NODE.methods["as_string"] = text_hook


def compared(op, a, b):
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


@opaque({"node": NODE}, BOOL)
def truth(node):
    """is the condition true"""
    if isinstance(node, nodes.BoolOp):
        return all(truth(v) for v in node.values) if node.op == "and" else any(truth(v) for v in node.values)
    if isinstance(node, nodes.UnaryOp) and node.op == "not":
        return not truth(node.operand)
    if isinstance(node, nodes.Compare) and len(node.ops) == 1 and node.ops[0][0] in ("==", "!=", "<", "<=", ">", ">="):
        return compared(node.ops[0][0], value(node.left), value(node.ops[0][1]))
    return value(node) != 0


def boolean(node):
    """expressions whose value is used as a truth value"""
    return node is None or isinstance(node, (nodes.BoolOp, nodes.If, nodes.While)) or isinstance(node, nodes.UnaryOp) and node.op == "not"


def logical(node):
    """expressions that are truth values"""
    return isinstance(node, (nodes.BoolOp, nodes.Compare)) or isinstance(node, nodes.UnaryOp) and node.op == "not" or isinstance(node, nodes.Const) and isinstance(node.value, bool)


def formula_place(node, parent):
    """is the encoding of the node a formula (and not a term)"""
    return boolean(parent) or logical(node)


def means(expr, node, parent):
    """the encoding has the meaning of the expression"""
    number_ = value(node)
    if formula_place(node, parent):
        return is_formula(expr) and holds(expr) == truth(node)
    return not is_formula(expr) and number(expr) == number_


VARS = DictT(STR, EXPR)


def right(vars):
    """every variable stands for the value of the expression it was made for"""
    return all(not is_formula(v) and number(v) == stored(k) for k, v in vars.items())


# -------------------------------------------------- which conditions are encoded


@opaque({"node": NODE}, BOOL)
def exact(node):
    """no rounding: no division, no floats"""
    if isinstance(node, nodes.BinOp) and node.op == "/":
        return False
    if isinstance(node, nodes.Const) and isinstance(node.value, float):
        return False
    if is_abs(node):
        return exact(node.args[0])
    if isinstance(node, (nodes.BoolOp, nodes.Compare, nodes.UnaryOp, nodes.BinOp)):
        return all(exact(c) for c in node.get_children())
    return True


def fits(node, parent):
    """truth values are not used as numbers"""
    return boolean(parent) or not logical(node)


@opaque({"node": NODE}, BOOL)
def plain(node):
    """no chained comparison, no operation on bits and no truth value used as a number"""
    if isinstance(node, nodes.Compare) and len(node.ops) != 1:
        return False
    if isinstance(node, nodes.UnaryOp) and node.op == "~":
        return False
    if is_abs(node):
        return plain(node.args[0]) and fits(node.args[0], node)
    if isinstance(node, (nodes.BoolOp, nodes.Compare, nodes.UnaryOp)):
        return all(plain(c) and fits(c, node) for c in node.get_children())
    if isinstance(node, nodes.BinOp):
        if node.op in ("%", "//") and const(node) is not None and not isinstance(const(node.right), int):
            return False
        return plain(node.left) and fits(node.left, node) and (node.op not in ("+", "-", "*") or plain(node.right) and fits(node.right, node))
    return True


def encodable(node, parent):
    return plain(node) and fits(node, parent)


def operands_invariant(job, I, node, fr, it, locs, val):
    """the encoded operands have the truth values of the operands read"""
    if it is None or it.elem != NODE:
        return []
    out = []
    for loc, ty in locs.items():
        if not isinstance(ty, ListT) or ty.elem not in (EXPR, OEXPR):
            continue
        for name, f in (("are formulas", lambda l, p: all(is_formula(e) for e in l)),
                        ("all", lambda l, p: all(holds(e) for e in l) == all(truth(v) for v in p)),
                        ("any", lambda l, p: any(holds(e) for e in l) == any(truth(v) for v in p))):
            out.append(Cand(f"{loc[1]}: {name}", lambda I, pre, f=f, loc=loc: formula(job, I, f, val(I, loc), Sym(ListT(NODE), pre)), timeout=6000))
    return out


contract("edulint.linting.analyses.z3_analysis:convert_condition_to_z3_expression", props=["A03"], samples=0, reveal=(value, truth, exact, plain), budget=600, templates=[operands_invariant],
         params={"node": ONODE, "initialized_variables": VARS, "parent": ONODE},
         requires=lambda node, initialized_variables, parent: right(initialized_variables) and (node is None or exact(node) and encodable(node, parent)),
         ret=TupT(OEXPR, BOOL), raises={KeyError: None},
         ensures=[("no condition, no encoding", lambda node, initialized_variables, parent, result: node is not None or result[0] is None),
                  ("same meaning", lambda node, initialized_variables, parent, result: result[0] is None or node is None or means(result[0], node, parent))])
