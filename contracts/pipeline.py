"""Contracts on the composition of the stages (edulint/linting/linting.py)."""
import edulint.linting.linting as LINTING
from edulint.linting.overrides import get_overriders
from pyded.job import contract
from pyded.prims import EXTERNALS, pure_ext
from pyded.ty import *
from pyded.values import Con
from .types import *
from .linting import apply_overrides_spec, known_forms, tweaked, final_text, with_text, LANG, problem_like
from .reports import in_order, placed
from unittest.mock import patch

OVERRIDERS_C = get_overriders()

# ghost functions: what each linter reports for the given files under the given configuration
GHOST = {}


def ghost(name):
    def f(files, config):
        return [with_text(p, p.text) for p in GHOST.get(name, [])]
    pure_ext(f, name, [FILES, ICONFIG], PROBLEMS, f"{name}: what the linter reports is determined by the files and the configuration while they do not change")
    return f


by_edulint, by_flake8, by_pylint = ghost("reported by edulint"), ghost("reported by flake8"), ghost("reported by pylint")


def hook(f):
    return lambda I, args, kwargs: EXTERNALS[id(f)][1](I, args, kwargs)


LINTERS = {"lint_edulint": by_edulint, "lint_flake8": by_flake8, "lint_pylint": by_pylint}
HOOKS = {getattr(LINTING, n): hook(f) for n, f in LINTERS.items() if hasattr(LINTING, n)}


def with_ghosts(fn, kw):
    with patch.multiple(LINTING, **{n: f for n, f in LINTERS.items() if hasattr(LINTING, n)}):
        return fn(**kw)


def reported(files_or_dirs, config):
    return by_edulint(files_or_dirs, config) + ([] if config[Option.NO_FLAKE8] else by_flake8(files_or_dirs, config)) + by_pylint(files_or_dirs, config)


def results(files_or_dirs, config):
    return in_order(tweaked(apply_overrides_spec(reported(files_or_dirs, config), OVERRIDERS_C), config), files_or_dirs)


def gen_lint(rng):
    for n in ("reported by edulint", "reported by flake8", "reported by pylint"):
        ps = []
        for _ in range(rng.randrange(4)):
            p = problem_like(rng)
            p.path = rng.choice(["a.py", "b.py", "d/c.py"])
            if rng.random() < 0.5:
                p.code = rng.choice(["R6307", "R6609", "W0613", "C0103", "E225", "R1703", "R1705", "R6608", "R6610"])
            ps.append(p)
        GHOST[n] = ps
    from pyded.concrete import build
    pools = {"FinalALLOWED_ONECHAR_NAMES.val": [None, "", "x", "Aá"], "FinalDISALLOWED_BUILTIN_NAMES.val": [(), ("id",), ("max", "list")], "FinalSET_GROUPS.val": [(), ("enhancement",)]}
    return {"files_or_dirs": rng.sample(["a.py", "b.py", "d", "."], 3) + ["."], "config": build(ICONFIG, rng, pools, "config")}


contract("edulint.linting.linting:lint", props=["L07"], weight=9, params={"files_or_dirs": FILES, "config": ICONFIG}, hooks=HOOKS, run=with_ghosts, gen=gen_lint,
         requires=lambda files_or_dirs, config: known_forms(reported(files_or_dirs, config)) and placed(reported(files_or_dirs, config), files_or_dirs),
         spec=lambda files_or_dirs, config: results(files_or_dirs, config))

# ------------------------------------------------------------- all groups
by_group = ghost("reported for a group")
GROUP = TupT(FILES, ICONFIG, LANG)


def with_group(fn, kw):
    with patch.object(LINTING, "lint", by_group):
        return fn(**kw)


def gen_many(rng):
    from pyded.concrete import build
    from .tweaks import TR_POOLS
    GHOST["reported for a group"] = [problem_like(rng) for _ in range(rng.randrange(4))]
    pools = {".key": ["C0104", "F401", "s", "X1"], "LANG.key": ["C0104"], **TR_POOLS}
    return {"partition": [(["a.py"], build(ICONFIG, rng, {}, "config"), build(LANG, rng, {"lang.key": ["C0104", "F401", "E712", "s", "X1"]}, "lang")) for _ in range(rng.randrange(4))]}


contract("edulint.linting.linting:lint_many", props=["L07", "T01"], params={"partition": ListT(GROUP)}, hooks={LINTING.lint: hook(by_group)}, own_elements=True, run=with_group, gen=gen_many,
         spec=lambda partition: [with_text(p, final_text(lang, p)) for files, config, lang in partition for p in by_group(files, config)])
