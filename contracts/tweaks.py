"""Contracts on edulint/linting/tweakers.py and the translation of messages."""
import re
from pyded.job import contract
from pyded.ty import *
from pyded.prims import PATTERN
from .types import *
from .templates import *
from edulint.linting.tweakers import Tweaker, TWEAKERS
from edulint.config.arg import Arg
from edulint.config.language_translations import Translation

IARG = RecT(Arg, {"option": OPTION, "val": IVAL}, frozen=True, name="ImmutableArg")
TWEAKER = RecT(Tweaker, {"used_options": SetT(OPTION), "pattern": PATTERN}, name="Tweaker")
IARGS = ListT(IARG)


def name_in(self, problem):
    """the first part of the message the tweak is declared for"""
    return self.pattern.match(problem.text).group(1)


def known_form(self, problem):
    return self.pattern.match(problem.text) is not None


def keep(fn, requires, spec, texts, pattern, **kw):
    contract("edulint.linting.tweakers:" + fn, props=["L02"], params={"self": TWEAKER, "problem": PROBLEM, "args": IARGS}, requires=requires, spec=spec,
             pools={"Tweaker.pattern": [re.compile(pattern)], "Problem.text": texts, **kw})


keep("disallowed_name_keep",
     lambda self, problem, args: known_form(self, problem) and len(args) == 1 and args[0].option == Option.ALLOWED_ONECHAR_NAMES and (args[0].val is None or isinstance(args[0].val, str)),
     lambda self, problem, args: len(name_in(self, problem)) != 1 or args[0].val is None or name_in(self, problem) not in args[0].val,
     ['Disallowed name "%s"' % n for n in ("", "x", "xy", "A", "á", '"')], TWEAKERS[(Linter.PYLINT, "C0104")].pattern.pattern if (Linter.PYLINT, "C0104") in TWEAKERS else "(.*)",
     **{"args": lambda rng: [Arg(Option.ALLOWED_ONECHAR_NAMES, rng.choice([None, "", "x", "xyz", "Aá"]))]})


def pattern_of(source, code):
    return TWEAKERS[(source, code)].pattern.pattern if (source, code) in TWEAKERS else "(.*)"


def reword(fn, spec, texts, pattern):
    contract("edulint.linting.tweakers:" + fn, props=["L02"], params={"self": TWEAKER, "problem": PROBLEM}, requires=known_form, spec=spec,
             pools={"Tweaker.pattern": [re.compile(pattern)], "Problem.text": texts})


reword("disallowed_name_reword",
       lambda self, problem: f'Disallowed single-character variable name "{name_in(self, problem)}", choose a more descriptive name' if len(name_in(self, problem)) == 1 else problem.text,
       ['Disallowed name "%s"' % n for n in ("", "x", "xy", "A", "á", '"')], pattern_of(Linter.PYLINT, "C0104"))

keep("unused_import_keep",
     known_form,
     lambda self, problem, args: not name_in(self, problem).startswith("ib111"),
     ["'%s' imported but unused" % n for n in ("ib111", "ib111.week_01", "math", "x ib111", "")], pattern_of(Linter.FLAKE8, "F401"))

keep("no_repeated_op_keep",
     lambda self, problem, args: known_form(self, problem) and len(args) == 1 and isinstance(args[0].val, tuple),
     lambda self, problem, args: len(args[0].val) > 0 or name_in(self, problem).count("*") > 1,
     ["Use ** instead of repeated * in %s." % n for n in ("a * a", "a * a * a", "a + a", "")], pattern_of(Linter.PYLINT, "R6607"),
     **{"args": lambda rng: [Arg(Option.SET_GROUPS, rng.choice([(), ("enhancement",), ("x",), ("x", "enhancement")]))]})

keep("superfluous_parens_keep",
     known_form,
     lambda self, problem, args: name_in(self, problem).strip("'\"").lower() != "not",
     ["Unnecessary parens after %s keyword" % n for n in ("'not'", "'if'", '"not"', "'Not'", "not", "notable", "'not")], pattern_of(Linter.PYLINT, "C0325"))

keep("redefined_builtin_keep",
     lambda self, problem, args: known_form(self, problem) and len(args) == 1 and args[0].option == Option.DISALLOWED_BUILTIN_NAMES and isinstance(args[0].val, tuple),
     lambda self, problem, args: len(args[0].val) == 0 or name_in(self, problem).strip("'\"") in args[0].val,
     ["Redefining built-in %s" % n for n in ("'id'", "'list'", "id", "'i'", "")], pattern_of(Linter.PYLINT, "W0622"),
     **{"args": lambda rng: [Arg(Option.DISALLOWED_BUILTIN_NAMES, rng.choice([(), ("id",), ("list", "max"), ("id", "")]))]})

reword("singleton_bool_comparison_reword",
       lambda self, problem: "".join(self.pattern.match(problem.text).groups()),
       ["comparison to %s should be 'if cond is %s:' or %s" % x for x in (("True", "True", "'if cond:'"), ("False", "False", "'if not cond:'"))], pattern_of(Linter.FLAKE8, "E712"))

# ------------------------------------------------------------- translations

TRANSLATION = register_rec(RecT(Translation, {"translation": STR, "extracts": DictT(STR, DictT(STR, STR)), "patterns": DictT(STR, STR)}))


def part(extracts, i, word):
    """the i-th part of the message, translated if a translation is declared"""
    m = extracts.get(str(i + 1))
    return word if m is None else m.get(word, word)


TR_POOLS = {"Translation.extracts.key": ["1", "2", "3", "x"], "extracts[]": ["a", "b", ""], "Translation.extracts[].key": ["a", "b", ""], "Translation.extracts[][]": ["z", "", "{0}"]}
contract("edulint.config.language_translations:Translation.translate_extracts", props=["T01"], params={"self": TRANSLATION, "extracts": ListT(STR)},
         spec=lambda self, extracts: [part(self.extracts, i, word) for i, word in enumerate(extracts)], pools=TR_POOLS)


def filled(template, parts):
    try:
        return template.format(*parts)
    except (LookupError, ValueError, AttributeError, TypeError, MemoryError):
        return template


def translated(self, code, message):
    pattern = self.patterns.get(code)
    if pattern is None or "(.*)" not in pattern:
        return self.translation
    m = re.match(pattern, message, flags=re.IGNORECASE)
    if m is None:
        return self.translation
    return filled(self.translation, [part(self.extracts, i, word) for i, word in enumerate(m.groups())])


contract("edulint.config.language_translations:Translation.translate", props=["T01"], params={"self": TRANSLATION, "code": STR, "message": STR},
         spec=translated, uses=None,
         pools={"Translation.patterns.key": ["R1", "C1"], "code": ["R1", "C1", "X"], "Translation.patterns[]": ["a(.*)b(.*)", "ab", "(.*)"], "message": ["aXbY", "ab", "AxB", "", "zz", "a1b2b3"],
                "Translation.translation": ["{0}", "{1} {0}", "{", "{0[a]}", "x", "{9}", "{a}", "{0.q}", ""], **TR_POOLS})
