"""Models of the repository's data classes, read from the classes themselves."""
import dataclasses
import typing
from pyded.ty import *
from pyded import ty as T
from edulint.linters import Linter
from edulint.options import Option
from edulint.linting.problem import Problem
from edulint.config.arg import Arg


def py_ty(a):
    """verifier type of a Python annotation"""
    if a is None or a is type(None):
        return NONE
    if a in (str, int, bool):
        return {str: STR, int: INT, bool: BOOL}[a]
    o = typing.get_origin(a)
    args = typing.get_args(a)
    if o is typing.Union:
        return T.union(*[py_ty(x) for x in args])
    if o is list:
        return ListT(py_ty(args[0]))
    if o is set:
        return SetT(py_ty(args[0]))
    if o is dict:
        return DictT(py_ty(args[0]), py_ty(args[1]))
    if o is tuple:
        if len(args) == 2 and args[1] is Ellipsis:
            return VTupT(py_ty(args[0]))
        return TupT(*[py_ty(x) for x in args])
    import enum
    if isinstance(a, type) and issubclass(a, enum.Enum):
        return enum_of(a)
    r = rec_of(a)
    if r is not None:
        return r
    raise TypeError(f"annotation {a}")


def rec(cls, overrides=None, frozen=None, con=None, name=None, register=True):
    hints = typing.get_type_hints(cls)
    fields = {}
    for f in dataclasses.fields(cls):
        if con and f.name in con:
            continue
        fields[f.name] = (overrides or {}).get(f.name) or py_ty(hints[f.name])
    fz = cls.__dataclass_params__.frozen if frozen is None else frozen
    r = RecT(cls, fields, fz, name=name, con_fields=con or {})
    return register_rec(r) if register else r


LINTER = enum_of(Linter)
OPTION = enum_of(Option)
PROBLEM = rec(Problem)
PROBLEMS = ListT(PROBLEM)

# ------------------------------------------------------------- configuration
from edulint.options import UnionT, ImmutableT
from edulint.option_parses import OptionParse, Type, Combine, TakesVal, get_option_parses
from edulint.config.config import Config, ImmutableConfig, hashabledict
from edulint.config.option_sets import OptionSet

VAL = py_ty(UnionT)
IVAL = py_ty(ImmutableT)
OSTR = T.opt(STR)
ARG = register_rec(RecT(Arg, {"option": OPTION, "val": VAL}, frozen=True))
ARGS = ListT(ARG)
RAWARG = RecT(Arg, {"option": OPTION, "val": OSTR}, frozen=True, name="RawArg")
RAWARGS = ListT(RAWARG)
from edulint.config.arg import UnprocessedArg
register_alias(UnprocessedArg, RAWARG)
OARGS = ListT(T.opt(ARG))
TYPE = enum_of(Type)
COMBINE = enum_of(Combine)
TAKES = enum_of(TakesVal)
PARSE = rec(OptionParse, {"default": VAL, "convert": TYPE, "combine": COMBINE, "takes_val": TAKES}, frozen=True)
PARSES = DictT(OPTION, PARSE)
CONFIG = register_rec(RecT(Config, {"config": OARGS, "enablers": DictT(STR, STR)}, con_fields={"option_parses": get_option_parses()}))
CONFIG_SELF = RecT(Config, {}, con_fields={"option_parses": get_option_parses()}, name="ConfigSelf")
OSET = rec(OptionSet)
OSETS = DictT(STR, OSET)
ENABLERS = DictT(STR, STR)

# --------------------------------------------- configuration used for linting

FINAL = {"str": T.opt(STR), "list": VTupT(STR), "bool": BOOL}


def final_ty(parse):
    d = parse.default
    return FINAL["list"] if isinstance(d, list) else FINAL["bool"] if isinstance(d, bool) else FINAL["str"]


FARG = {o: RecT(Arg, {"val": final_ty(p)}, frozen=True, con_fields={"option": o}, name=f"Final{o.name}") for o, p in sorted(get_option_parses().items(), key=lambda x: x[0].value)}
ICONFIG = register_rec(RecT(ImmutableConfig, {"config": TupT(*[FARG[o] for o in Option if o in FARG]), "enablers": ENABLERS}, frozen=True))
FILES = ListT(STR)
