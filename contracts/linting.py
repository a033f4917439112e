"""Contracts on edulint/linting."""
from pyded.job import contract
from pyded.ty import *
from pyded.values import Con
from .types import *
from .templates import *
from typing import *

OVERRIDERS_T = DictT(STR, SetT(STR))


def codes_at(problems, key):
    return {q.code for q in problems if (q.path, q.line) == key}


def overridden(p, problems, overriders):
    return any(q.path == p.path and q.line == p.line and q.code in overriders.get(p.code, set()) for q in problems)


def apply_overrides_spec(problems, overriders):
    return [p for p in problems if not overridden(p, problems, overriders)]


OVR_POOLS = {"Problem.path": ["a.py", "b.py"], "Problem.line": [1, 2, 3], "Problem.code": ["C1", "C2", "R1", "R2"], "overriders.key": ["C1", "C2", "R1"], "overriders[][]": ["C1", "R1", "R2"]}

contract("edulint.linting.linting:apply_overrides", pools=OVR_POOLS, params={"problems": PROBLEMS, "overriders": OVERRIDERS_T}, props=["L01"],
         spec=apply_overrides_spec,
         templates=[dict_of(codes_at, TupT(STR, INT), SetT(STR), PROBLEM), dict_keys_fixed])

# ------------------------------------------------------------- translations
from .tweaks import TRANSLATION, translated

LANG = DictT(STR, TRANSLATION)


def translation_of(lang, problem):
    t = lang.get(problem.code)
    return t if t is not None else None if problem.symbol is None else lang.get(problem.symbol)


def final_text(lang, problem):
    t = translation_of(lang, problem)
    return problem.text if t is None else translated(t, problem.code, problem.text)


contract("edulint.linting.linting:translate", props=["T01"], params={"lang_translations": LANG, "problem": PROBLEM},
         modifies={"problem.text": lambda lang_translations, problem: final_text(lang_translations, problem)},
         spec=lambda lang_translations, problem: with_text(problem, final_text(lang_translations, problem)))

# ------------------------------------------------------------------- tweaks
from .tweaks import TWEAKERS

TWEAKERS_C = TWEAKERS


def form(code, text):
    return TWEAKERS_C[code].pattern.match(text)


def known_forms(problems):
    """messages are of the form their linter gives them"""
    return all((p.source, p.code) not in TWEAKERS_C or form((p.source, p.code), p.text) is not None for p in problems)


def wanted(p, config):
    """the rule of the adjustment declared for the problem"""
    code = (p.source, p.code)
    if code not in TWEAKERS_C:
        return True
    m = form(code, p.text)
    if code == (Linter.PYLINT, "C0104"):
        allowed = config[Option.ALLOWED_ONECHAR_NAMES]
        return len(m.group(1)) != 1 or allowed is None or m.group(1) not in allowed
    if code == (Linter.FLAKE8, "F401"):
        return not m.group(1).startswith("ib111")
    if code == (Linter.PYLINT, "R6607"):
        return len(config[Option.SET_GROUPS]) > 0 or m.group(1).count("*") > 1
    if code == (Linter.PYLINT, "C0325"):
        return m.group(1).strip("'\"").lower() != "not"
    if code == (Linter.PYLINT, "W0622"):
        names = config[Option.DISALLOWED_BUILTIN_NAMES]
        return len(names) == 0 or m.group(1).strip("'\"") in names
    return True


def text_of(p):
    code = (p.source, p.code)
    if code == (Linter.PYLINT, "C0104") and len(form(code, p.text).group(1)) == 1:
        return f'Disallowed single-character variable name "{form(code, p.text).group(1)}", choose a more descriptive name'
    if code == (Linter.FLAKE8, "E712"):
        return "".join(form(code, p.text).groups())
    return p.text


def with_text(p, text):
    return Problem(p.source, p.enabled_by, p.path, p.line, p.column, p.code, text, p.end_line, p.end_column, p.symbol)


def tweaked(problems, config):
    return [with_text(p, text_of(p)) for p in problems if wanted(p, config)]


MESSAGES = {("pylint", "C0104"): ['Disallowed name "%s"' % n for n in ("x", "xy", "A", "á", "foo")],
            ("flake8", "F401"): ["'%s' imported but unused" % n for n in ("ib111", "ib111.week_01", "math", "x.ib111")],
            ("flake8", "E712"): ["comparison to %s should be 'if cond is %s:' or 'if cond:'" % (n, n) for n in ("True", "False")],
            ("pylint", "R6607"): ["Use %s instead of repeated %s in %s." % x for x in (("**", "*", "a * a"), ("*", "+", "a + a"), ("**", "*", "a*a*a"))],
            ("pylint", "C0325"): ["Unnecessary parens after %s keyword" % n for n in ("'not'", "'if'", "'Not'")],
            ("pylint", "W0622"): ["Redefining built-in %s" % n for n in ("'id'", "'list'", "'max'")]}


def problem_like(rng):
    known = sorted((s.to_name(), c) for s, c in TWEAKERS_C)
    src, code = rng.choice(known) if rng.random() < 0.8 else (rng.choice(["pylint", "flake8", "edulint"]), rng.choice([c for _, c in known] + ["X1"]))
    text = rng.choice(MESSAGES.get((src, code), ["other", "", "consider using 'with'"]))
    return Problem(Linter.from_name(src), rng.choice([None, "C0104"]), "a.py", rng.choice([1, 2]), 0, code, text, None, None, rng.choice([None, "s"]))


contract("edulint.linting.linting:apply_tweaks", props=["L02"], params={"problems": PROBLEMS, "tweakers": Con(TWEAKERS_C), "config": ICONFIG},
         requires=known_forms, spec=lambda problems, config: tweaked(problems, config), modifies={"problems": None}, weight=5,
         pools={"problems[]": problem_like, "FinalALLOWED_ONECHAR_NAMES.val": [None, "", "x", "Aá"], "FinalDISALLOWED_BUILTIN_NAMES.val": [(), ("id",), ("max", "list")],
                "FinalSET_GROUPS.val": [(), ("enhancement",)]})
