"""Contracts on edulint/config/config.py."""
from functools import reduce
from pyded.job import contract, Lemma, Uninit, Cand, formula, forall_pat
from pyded.ty import *
import z3
from pyded.values import Con, Sym
from pyded.prims import opaque, updated, whole, typed, same_items
from .types import *
from .templates import *
from edulint.config.config import Config, ImmutableConfig
from edulint.config.arg import Arg, UnprocessedArg
from edulint.options import Option
from edulint.option_parses import Combine, get_option_parses

PARSES_C = get_option_parses()


def present(args):
    return [a for a in args if a is not None]


def values_of(args, o):
    """values given for option o, in order"""
    return [a.val for a in args if a is not None and a.option == o]


def others(args, o):
    return [a for a in args if a is not None and a.option != o]


def extended(x, y):
    return x + y if isinstance(x, list) and isinstance(y, list) else y


def combine_step(acc, a, parses, allowed):
    """acc: arguments already layered, at most one per combinable option"""
    if a is None:
        return acc
    c = parses[a.option].combine
    old = values_of(acc, a.option)
    if c in allowed and len(old) > 0:
        return others(acc, a.option) + [Arg(a.option, extended(old[-1], a.val) if c == Combine.EXTEND else a.val)]
    return acc + [a]


def combined(args, parses, allowed):
    return reduce(lambda acc, a: combine_step(acc, a, parses, allowed), args, [])

# ------------------------------------------------------------------ lemmas
# R is the list under construction in which superseded positions are None

def _at(R, i):
    return 0 <= i and i < len(R)


LEM_OTHERS_NONE = Lemma("dropping an option that does not occur", {"R": OARGS, "o": OPTION}, "R",
                        requires=lambda R, o: len(values_of(R, o)) == 0,
                        ensures=lambda R, o: others(present(R), o) == present(R),
                        trigger=lambda R, o: others(present(R), o))
LEM_OCCURS = Lemma("an occurring option has values", {"R": OARGS, "o": OPTION, "i": INT}, "R",
                   requires=lambda R, o, i: 0 <= i and i < len(R) and R[i] is not None and R[i].option == o,
                   ensures=lambda R, o, i: len(values_of(R, o)) > 0,
                   trigger=lambda R, o, i: (values_of(R, o), R[i]))
LEM_PRESENT = Lemma("dropping holes changes no values", {"R": OARGS, "o": OPTION}, "R",
                    ensures=lambda R, o: values_of(whole(present(R)), o) == values_of(R, o) and others(whole(present(R)), o) == others(R, o),
                    trigger=lambda R, o: (present(R), values_of(R, o)))
LEM_OTHER_POS = Lemma("replacing a position keeps the values of other options", {"R": OARGS, "o": OPTION, "i": INT}, "R",
                      requires=lambda R, o, i: 0 <= i and i < len(R) and (R[i] is None or R[i].option != o),
                      ensures=lambda R, o, i: values_of(updated(R, i, None), o) == values_of(R, o),
                      trigger=lambda R, o, i: values_of(updated(R, i, None), o))
LEM_SINGLE_GONE = Lemma("removing the only occurrence of an option", {"R": OARGS, "o": OPTION, "i": INT}, "R",
                        requires=lambda R, o, i: 0 <= i and i < len(R) and R[i] is not None and R[i].option == o and len(values_of(R, o)) == 1,
                        ensures=lambda R, o, i: len(values_of(updated(R, i, None), o)) == 0 and present(updated(R, i, None)) == others(present(R), o),
                        trigger=lambda R, o, i: (updated(R, i, None), values_of(R, o)))


def slot_ok(R, i, o, allowed):
    """position i of the list under construction is the last argument of option o, the only one if o is combinable"""
    c = PARSES_C[o].combine
    return 0 <= i and i < len(R) and R[i] is not None and R[i].option == o and (c != Combine.EXTEND or isinstance(R[i].val, list)) \
        and (c not in allowed or values_of(R, o) == [R[i].val])


def combine_invariant(job, I, node, fr, it, locs, val):
    L = [(l, t) for l, t in locs.items() if isinstance(t, ListT) and t.elem.sort() == OARGS.elem.sort()]
    D = [(l, t) for l, t in locs.items() if isinstance(t, DictT) and t.k == OPTION and t.v == INT]
    out = []
    o = z3.Const("tk:opt", OPTION.sort())
    for l, lt in L:
        out.append(Cand(f"present({l[1]}) == combined(prefix)", lambda I, pre, l=l: formula(job, I, lambda R, p, al: present(R) == combined(p, PARSES_C, al), val(I, l), Sym(OARGS, pre), job.snaps['allowed_combines']), timeout=8000))
        for d, dt in D:
            def c(I, pre, l=l, d=d, dt=dt):
                R, D = val(I, l), val(I, d)
                i = dt.get(D.t, o)
                return forall_pat([o], z3.Implies(dt.has(D.t, o), formula(job, I, slot_ok, R, Sym(INT, i), Sym(OPTION, o), job.snaps['allowed_combines'])), dt.get(D.t, o))

            def c2(I, pre, l=l, d=d, dt=dt):
                R, D = val(I, l), val(I, d)
                return z3.ForAll([o], z3.Implies(z3.Not(dt.has(D.t, o)), formula(job, I, lambda R, o: len(values_of(R, o)) == 0, R, Sym(OPTION, o))))
            out.append(Cand(f"{d[1]} holds the only position", c, timeout=8000))
            out.append(Cand(f"options not in {d[1]} do not occur", c2, timeout=8000))
    return out


def well_formed(args):
    """options whose values are layered by extension hold lists"""
    return all(a is None or PARSES_C[a.option].combine != Combine.EXTEND or isinstance(a.val, list) for a in args)


LEM_WELL_FORMED = Lemma("joining well-formed arguments", {"x": OARGS, "y": OARGS}, "y",
                        ensures=lambda x, y: well_formed(x + y) == (well_formed(x) and well_formed(y)),
                        trigger=lambda x, y: well_formed(x + y))


contract("edulint.config.config:Config._combine", props=["C01"],
         params={"self": CONFIG_SELF, "args": OARGS, "allowed_combines": VTupT(COMBINE)},
         requires=lambda args: well_formed(args),
         ret=OARGS,
         ensures=[("layers the arguments", lambda args, allowed_combines, result: present(result) == combined(args, PARSES_C, allowed_combines))],
         lemmas=[LEM_PRESENT, LEM_OTHERS_NONE, LEM_OCCURS, LEM_OTHER_POS, LEM_SINGLE_GONE], templates=[combine_invariant], uses=None)

# ------------------------------------------------------------ small functions

def converted(args, parses):
    return [Arg(a.option, parses[a.option].convert(a.val)) for a in args]


contract("edulint.config.config:Config.get_last_value", props=["C01"],
         params={"self": CONFIG, "option": OPTION, "use_default": BOOL},
         requires=lambda option: PARSES_C[option].combine == Combine.REPLACE,
         spec=lambda self, option, use_default: values_of(self.config, option)[-1] if len(values_of(self.config, option)) > 0 else (PARSES_C[option].default if use_default else None))

contract("edulint.config.config:Config._to_immutable", props=["C01"], params={"val": VAL}, spec=lambda val: tuple(val) if isinstance(val, list) else val)

contract("edulint.config.config:Config._convert", props=["C10"], params={"self": CONFIG_SELF, "args": RAWARGS}, spec=lambda args: converted(args, PARSES_C))


def layered(args):
    """settings as given, later ones prevailing"""
    return combined(typed(OARGS, converted(whole(args), PARSES_C)), PARSES_C, (Combine.REPLACE,))


def all_arg(a):
    return a.lower() in ("--disable=all", "--enable=all")


def enables_all(last):
    return last is not None and last.lower() == "--enable=all"


def superseded(a, last):
    """a stands before the last argument that enables or disables everything"""
    if a.lower() == "--enable=noop":
        return False
    if all_arg(a):
        return True
    return a.lower().startswith("--disable" if enables_all(last) else "--enable")


def resolved_step(acc, a):
    """from the last argument to the first; acc: kept arguments and the deciding one"""
    kept, last = acc
    if last is not None and superseded(a, last):
        return kept, last
    return kept + [a], a if last is None and all_arg(a) else last


def resolved(args):
    return list(reversed(reduce(resolved_step, reversed(args), ([], None))[0]))


contract("edulint.config.config:Config._resolve_enable_disable_all", props=["C02"], params={"pylint_args": ListT(STR)}, spec=lambda pylint_args: resolved(pylint_args),
         templates=[equals(lambda p: reduce(resolved_step, p, ([], None))[1] is not None, STR, "some argument is decisive"),
                    equals(lambda p: enables_all(reduce(resolved_step, p, ([], None))[1]), STR, "the decisive argument enables")],
         pools={"pylint_args[]": ["--disable=all", "--enable=all", "--Disable=ALL", "--enable=noop", "--enable=C0114", "--disable=missing-docstring", "--enable=R0", "--max-line-length=100", "--good-names=A,Bc", "--ENABLE=x", "--disable", "-d", "--init-hook=X=1", "--init-hook=a --disable=all", "x--enable=all", "--disable=all,C0114", "--load-plugins=--enable", " --disable=all", "--disable=ALL ", "--enable-all-extensions", "--disable-all"]})

contract("edulint.config.config:fill_in_val", props=["C08"], params={"arg": ARG, "option_set": ListT(STR)},
         requires=lambda arg, option_set: isinstance(arg.val, str),
         spec=lambda arg, option_set: [t.replace("<val>", arg.val) for t in option_set],
         pools={"option_set[]": ["--a=<val>", "b", "<val><val>", ""]})


@opaque({"o": OPTION}, STR)
def option_name(o):
    return o.name.lower().replace("_", "-")


def named(name):
    n = name.lower()
    if n == "config":
        return Option.CONFIG_FILE
    for o in Option:
        if n == o.name.lower().replace("_", "-"):
            return o
    return None


contract("edulint.options:Option.safe_from_name", reveal=[option_name], props=["C10"], params={"option_str": STR}, spec=lambda option_str: named(option_str),
         pools={"option_str": ["config", "CONFIG", "config-file", "Pylint", "pylint", "no-flake8", "no_flake8", "", "flake8", "set-groups", "language-file", "foo", "Allowed-Onechar-Names"]})


@opaque({"parses": PARSES, "name": STR, "has_val": BOOL}, opt(OPTION))
def option_of(parses, name, has_val):
    o = named(name)
    if o is None:
        return None
    t = parses[o].takes_val
    if t == TakesVal.YES and not has_val or t == TakesVal.NO and has_val:
        return None
    return o


contract("edulint.config.config:parse_option", reveal=[option_of], props=["C10"], params={"option_parses": PARSES, "name": STR, "val": OSTR},
         requires=lambda option_parses: all(o in option_parses for o in Option),
         spec=lambda option_parses, name, val: option_of(option_parses, name, val is not None))

# ------------------------------------------------------- groups and expansions

@opaque({"l": LINTER}, OPTION)
def linter_option(l):
    return Option.PYLINT if l == Linter.PYLINT else Option.FLAKE8


contract("edulint.options:Option.to_name", props=["C08", "C10"], reveal=[option_name], params={"self": OPTION}, spec=lambda self: option_name(self))
contract("edulint.linters:Linter.to_option", props=["C08"], reveal=[linter_option, option_name], params={"self": LINTER},
         requires=lambda self: self != Linter.EDULINT, spec=lambda self: linter_option(self),
         ensures=[("a linter's option", lambda result: result in (Option.PYLINT, Option.FLAKE8))])


@opaque({"option_set": OSET}, ARGS)
def expansion(option_set):
    """the settings an option stands for"""
    return [Arg(linter_option(l), [v]) for l, vals in option_set.to.items() for v in vals]


def group_args(names, sets):
    return [x for g in names if g in sets for x in expansion(sets[g])]


def own_args(o, sets):
    return expansion(sets[option_name(o)]) if option_name(o) in sets else []


def of_group(a, sets):
    return group_args(a.val, sets) if a.option == Option.SET_GROUPS and isinstance(a.val, list) else []


def expanded(args, sets):
    return [x for a in args if a is not None for x in [a] + of_group(a, sets) + own_args(a.option, sets)]


def groups_are_lists(args):
    return all(a is None or a.option != Option.SET_GROUPS or isinstance(a.val, list) for a in args)


def for_linters(sets):
    return all(Linter.EDULINT not in s.to for s in sets.values())


contract("edulint.config.config:Config._translate.<locals>.apply_option_set", props=["C08"], reveal=[expansion],
         params={"self": CONFIG_SELF, "result": ARGS, "option_set": OSET},
         requires=lambda option_set: Linter.EDULINT not in option_set.to,
         modifies={"result": lambda result, option_set: result + expansion(option_set)})

contract("edulint.config.config:Config._translate", shortcut=True, props=["C08"],
         params={"self": CONFIG_SELF, "args": OARGS, "option_sets": OSETS, "log_unknown_groups": BOOL},
         requires=lambda args, option_sets: groups_are_lists(args) and for_linters(option_sets),
         spec=lambda args, option_sets: expanded(args, option_sets))

# ------------------------------------------------------------------ enablers

def prefixed(e, name, val, prefix):
    return {**e, **{s: name for s in val[len(prefix):].split(",")}} if val.startswith(prefix) else e


@opaque({"e": ENABLERS, "name": STR, "option": OPTION, "val": STR}, ENABLERS)
def attributed(e, name, option, val):
    if option == Option.PYLINT:
        return prefixed(e, name, val, "--enable=")
    if option == Option.FLAKE8:
        return prefixed(prefixed(e, name, val, "--select="), name, val, "--extend-select=")
    if option == Option.IGNORE_INFILE_CONFIG_FOR:
        return {**e, "EDL001": name}
    return e


EN_POOLS = {".val": ["--enable=a", "--enable=a,b", "--select=E1,W", "--extend-select=E2", "--enable=", "--disable=a", "x"]}
contract("edulint.config.utils:add_enabled", reveal=[attributed], props=["C06"],
         params={"enabler_name": STR, "enablers": ENABLERS, "option": OPTION, "val": STR},
         modifies={"enablers": lambda enabler_name, enablers, option, val: attributed(enablers, enabler_name, option, val)},
         pools={"val": ["--enable=a", "--enable=a,b", "--select=E1,W", "--extend-select=E2", "--enable=", "--disable=a", "x"]})


def attributed_arg(e, name, a):
    if a is None:
        return e
    if isinstance(a.val, list):
        return reduce(lambda e, v: attributed(e, name, a.option, v), a.val, e)
    if isinstance(a.val, str):
        return attributed(e, name, a.option, a.val)
    return e


def enabled_by(name, args):
    return reduce(lambda e, a: attributed_arg(e, name, a), args, {}) if name is not None else {}


def attribution_invariant(job, I, node, fr, it, locs, val):
    if it is None or it.elem.sort() != OARGS.elem.sort():
        return []
    return [Cand(f"{l[1]} == enabled_by(prefix)", lambda I, pre, l=l: formula(job, I, lambda e, n, p: e == enabled_by(n, p), val(I, l), job.snaps["enabler"], Sym(OARGS, pre)), timeout=8000)
            for l, t in locs.items() if isinstance(t, DictT) and t.sort() == ENABLERS.sort()]


contract("edulint.config.config:Config.__init__", props=["C01", "C06"],
         params={"self": Uninit(CONFIG), "enabler": OSTR, "config": opt(RAWARGS), "option_parses": Con(PARSES_C)},
         modifies={"self": None},
         hints=[({"l": OARGS}, lambda enabler, l: enabled_by(enabler, l))], templates=[attribution_invariant],
         ensures=[("settings are layered", lambda config, new_self: present(new_self.config) == layered(typed(RAWARGS, config if config is not None else []))),
                  ("settings are attributed", lambda enabler, new_self: same_items(new_self.enablers, enabled_by(enabler, new_self.config)))])

contract("edulint.config.config:Config.combine", props=["C01", "C06"], params={"lt": CONFIG, "rt": CONFIG}, ret=CONFIG,
         requires=lambda lt, rt: well_formed(lt.config) and well_formed(rt.config),
         lemmas=[LEM_WELL_FORMED],
         ensures=[("settings are layered", lambda lt, rt, result: present(result.config) == combined(lt.config + rt.config, PARSES_C, (Combine.REPLACE,))),
                  ("attribution is layered", lambda lt, rt, result: same_items(result.enablers, {**lt.enablers, **rt.enablers}))])

# ------------------------------------------------------- command line options


def named_and_valued(arg):
    """name and value of an option setting"""
    name, eq, val = arg.partition("=")
    return name, val if eq else None


def setting(arg, parses):
    """the setting an argument stands for, None if it stands for none"""
    name, val = named_and_valued(arg)
    o = option_of(parses, name, val is not None)
    return None if o is None else UnprocessedArg(o, val)


def settings(args, parses):
    return [setting(a, parses) for a in args if setting(a, parses) is not None]


CMD_ARGS = ["config=a.toml", "config", "pylint=--enable=all", "no-flake8", "no-flake8=1", "x", "", "=", "=x", "flake8=--a=b", "set-groups=a,b", "CONFIG-FILE=x", "ignore-infile-config-for=all", "allowed-onechar-names=A"]
contract("edulint.config.config:parse_args", props=["C10"], params={"args": ListT(STR), "option_parses": PARSES},
         requires=lambda option_parses: all(o in option_parses for o in Option),
         spec=lambda args, option_parses: settings(args, option_parses), pools={"args[]": CMD_ARGS, "option_parses": [PARSES_C]})

# -------------------------------------------------------- in-file configuration
IGN = Option.IGNORE_INFILE_CONFIG_FOR


def last_or_default(config, o):
    return values_of(config.config, o)[-1] if len(values_of(config.config, o)) > 0 else PARSES_C[o].default


def list_valued(args, o):
    return all(a is None or a.option != o or isinstance(a.val, list) for a in args)


def ignores_infile(config):
    """in-file configuration is to be ignored"""
    return "edulint" in last_or_default(config, IGN) or "all" in last_or_default(config, IGN)


LEM_LIST_VALUED = Lemma("the last value of a list-valued option is a list", {"R": OARGS}, "R",
                        requires=lambda R: list_valued(R, IGN),
                        ensures=lambda R: len(values_of(R, IGN)) == 0 or isinstance(values_of(R, IGN)[-1], list),
                        trigger=lambda R: (list_valued(R, IGN), values_of(R, IGN)))

contract("edulint.config.config:_ignore_infile", props=["C09"], params={"config": CONFIG},
         requires=lambda config: list_valued(config.config, IGN),
         lemmas=[LEM_LIST_VALUED], spec=lambda config: ignores_infile(config))


def ignore_request(config):
    """the settings that remain when the in-file configuration asks to be ignored"""
    return layered([UnprocessedArg(IGN, ",".join(last_or_default(config, IGN)))])


contract("edulint.config.config:resolve_ignore_infile_config", props=["C09"], params={"parsed": RAWARGS, "config": CONFIG}, ret=CONFIG,
         requires=lambda config: list_valued(config.config, IGN), lemmas=[LEM_LIST_VALUED], modifies={"parsed": None},
         ensures=[("kept unless it asks to be ignored", lambda config, result: ignores_infile(config) or result.config == config.config and result.enablers == config.enablers),
                  ("only the request survives", lambda config, result: not ignores_infile(config) or present(result.config) == ignore_request(config))])
