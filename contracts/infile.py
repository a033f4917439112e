"""Contracts on in-file configuration (edulint/config/config.py)."""
import os
from unittest.mock import patch
import edulint.config.config as C
from pyded.job import contract, Lemma
from pyded.prims import pure_ext, opaque, typed, whole, same_items, EXTERNALS
from .types import *
from .templates import *
from .config import *
from .files import kind
from edulint.config.file_config import ConfigFileType


@opaque({"name": STR, "parent": STR}, STR)
def relative_to(name, parent):
    """the configuration a name means inside the file parent"""
    if kind(name) != ConfigFileType.LOCAL or os.path.isabs(name):
        return name
    return os.path.abspath(os.path.join(os.path.dirname(parent), name))


def str_valued(args, o):
    return all(a is None or a.option != o or a.val is None or isinstance(a.val, str) for a in args)


def relative(args, o, path):
    """the last value of o, if any, is resolved against path"""
    v = values_of(args, o)
    return args + [Arg(o, relative_to(v[-1], path))] if len(v) > 0 and isinstance(v[-1], str) else args


LEM_STR_VALUED = Lemma("the last value of a string-valued option is a string", {"R": OARGS, "o": OPTION}, "R",
                       requires=lambda R, o: str_valued(R, o),
                       ensures=lambda R, o: len(values_of(R, o)) == 0 or values_of(R, o)[-1] is None or isinstance(values_of(R, o)[-1], str),
                       trigger=lambda R, o: (str_valued(R, o), values_of(R, o)))

contract("edulint.config.config:resolve_relative_option_path", props=["C01", "C04"], params={"path": STR, "config": CONFIG, "option": OPTION}, reveal=[relative_to],
         requires=lambda path, config, option: option in (Option.CONFIG_FILE, Option.LANGUAGE_FILE) and str_valued(config.config, option) and not os.path.isdir(path),
         lemmas=[LEM_STR_VALUED],
         modifies={"config.config": lambda path, config, option: relative(config.config, option, path)})


# -------------------------------------------- lemmas: values have their option's type
P = PARSES_C

def keeps_type(name, valued, o):
    return [Lemma(f"leaving out an option, {o.name} {name}", {"R": OARGS, "q": OPTION}, "R", requires=lambda R, q: valued(R, o), ensures=lambda R, q: valued(others(R, q), o), trigger=lambda R, q: (valued(R, o), others(R, q))),
            Lemma(f"settings as given, {o.name} {name}", {"X": RAWARGS}, "X", ensures=lambda X: valued(layered(X), o), trigger=lambda X: layered(X)),
            Lemma(f"dropping holes, {o.name} {name}", {"R": OARGS}, "R", ensures=lambda R: valued(typed(OARGS, present(R)), o) == valued(R, o), trigger=lambda R: (present(R), valued(R, o)))]




def keeps_values(o):
    return Lemma(f"dropping holes changes no values of {o.name}", {"R": OARGS}, "R", ensures=lambda R: values_of(whole(typed(OARGS, present(R))), o) == values_of(R, o), trigger=lambda R: (present(R), values_of(R, o)))


LEM_PRESENT_VALUES = [keeps_values(o) for o in (IGN, Option.CONFIG_FILE, Option.LANGUAGE_FILE)]
LEM_TYPES = keeps_type("holds a list", list_valued, IGN) + keeps_type("holds a string", str_valued, Option.CONFIG_FILE) + keeps_type("holds a string", str_valued, Option.LANGUAGE_FILE)

# ------------------------------------------------------- one file's configuration
GHOST = {"settings": [], "parent": None}


def settings_in(path):
    return list(GHOST["settings"])


def found_above(path):
    return GHOST["parent"]


pure_ext(settings_in, "settings written in the file", [STR], ListT(STR), "the settings written in a file are fixed while it does not change")
pure_ext(found_above, "configuration file found above", [STR], OSTR, "the implicit configuration file for a path is fixed while files do not change")


def hook(f):
    return lambda I, args, kwargs: EXTERNALS[id(f)][1](I, args, kwargs)


GHOSTS = {"extract_args": settings_in, "search_for_config_in_parents": found_above}
HOOKS = {getattr(C, n): hook(f) for n, f in GHOSTS.items() if hasattr(C, n)}


def with_ghosts(fn, kw):
    with patch.multiple(C, **{n: f for n, f in GHOSTS.items() if hasattr(C, n)}):
        return fn(**kw)


def given(path):
    above = found_above(path)
    return ([UnprocessedArg(Option.CONFIG_FILE, above)] if above is not None else []) + settings(settings_in(path), P)


def infile(path):
    return relative(relative(layered(given(path)), Option.CONFIG_FILE, path), Option.LANGUAGE_FILE, path)


def gen_infile(rng):
    GHOST["settings"] = [rng.choice(CMD_ARGS + ["language-file=l.toml", "ignore-infile-config-for=edulint", "ignore-infile-config-for=flake8", "config-file=/x/y.toml"]) for _ in range(rng.randrange(5))]
    GHOST["parent"] = rng.choice([None, "/x/edulint.toml", "p/.edulint.toml"])
    return {"path": rng.choice(["a.py", "/x/y/a.py", "d/../b.py"]), "option_parses": P}


def request(args):
    """the settings that remain when a file asks for its configuration to be ignored"""
    return layered([UnprocessedArg(IGN, ",".join(last_value(args, IGN)))])


def last_value(args, o):
    return values_of(args, o)[-1] if len(values_of(args, o)) > 0 else P[o].default


def asks_to_ignore(args):
    return "edulint" in last_value(args, IGN) or "all" in last_value(args, IGN)


contract("edulint.config.config:parse_infile_config", props=["C01", "C04", "C09"], params={"path": STR, "option_parses": Con(P)}, ret=CONFIG, hooks=HOOKS, run=with_ghosts, gen=gen_infile, lift=True,
         requires=lambda path: not os.path.isdir(path), lemmas=LEM_TYPES + LEM_PRESENT_VALUES + [LEM_LIST_VALUED],
         ensures=[("settings of the file", lambda path, result: present(result.config) == (request(infile(path)) if asks_to_ignore(infile(path)) else infile(path)))])

contract("edulint.config.config:parse_cmd_config", props=["C01", "C10"], params={"args": ListT(STR), "option_parses": Con(P)}, ret=CONFIG, pools={"args[]": CMD_ARGS},
         ensures=[("settings of the command line", lambda args, result: present(result.config) == layered(settings(args, P)))])
