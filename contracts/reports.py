"""Contracts on the conversion of linter reports (edulint/linting/linting.py)."""
import json
from functools import reduce
import os
from pathlib import Path
from pyded.job import contract
from pyded.ty import *
from pyded import ty as T
from pyded.paths import PATH
from pyded import world
from pyded.world import fun_ty
from .types import *
from .templates import *

PATHS = ListT(PATH)


def proper(path):
    return os.path.abspath(path) if os.path.isabs(path) else os.path.relpath(path)


NAMES = ["a.py", "./a.py", "/tmp/x/a.py", "b/../a.py", "b//a.py", "", "Command line or configuration file", "b", "/tmp", "/tmp/x", "."]
contract("edulint.linting.linting:get_proper_path", props=["L03", "L05"], params={"path": STR}, requires=lambda path: path != "", spec=proper, pools={"path": NAMES})


def out_of_file(path):
    """pylint reports a problem of its own configuration"""
    return "command line" in path.lower() or "configuration file" in path.lower()


contract("edulint.linting.linting:is_pylint_out_of_file_problem", props=["L03", "L05"], params={"path": STR}, spec=out_of_file, pools={"path": NAMES + ["command Line", "a configuration file b"]})


def inside(path, fd):
    return fd == path or fd in path.parents


def first(path, fds):
    """position of the first of fds that is the path or contains it"""
    return reduce(lambda found, i_fd: i_fd[0] if found is None and inside(path, i_fd[1]) else found, enumerate(fds), None)


def lexical(p):
    return Path(os.path.abspath(p))


def located(path, fds):
    i = first(lexical(path), [lexical(fd) for fd in fds])
    if i is not None:
        return i, lexical(path)
    j = first(path.resolve(), [fd.resolve() for fd in fds])
    if j is not None:
        return j, path.resolve()
    return None


def some_path(rng):
    return Path(rng.choice([n for n in NAMES if n]))


contract("edulint.linting.linting:find_file_or_dir", props=["L03", "L05"], params={"path": PATH, "files_or_dirs": PATHS}, spec=lambda path, files_or_dirs: located(path, files_or_dirs),
         ensures=[("the position is one of the list", lambda files_or_dirs, result: result is None or 0 <= result[0] < len(files_or_dirs))],
         pools={"path": some_path, "files_or_dirs[]": some_path})

# ------------------------------------------------------------------ reports
RAW = DictT(STR, T.union(STR, INT, NONE))


def has(raw, *keys):
    return all(k in raw for k in keys)


def flake8_report(raw):
    """a report in the documented format of flake8"""
    return has(raw, "filename", "line_number", "column_number", "code", "text") and isinstance(raw["filename"], str) and raw["filename"] != "" \
        and isinstance(raw["line_number"], int) and isinstance(raw["column_number"], int) and isinstance(raw["code"], str) and isinstance(raw["text"], str)


def from_flake8(enablers, raw):
    return Problem(Linter.FLAKE8, enablers.get(raw["code"]), proper(raw["filename"]), raw["line_number"], raw["column_number"], raw["code"], raw["text"])


contract("edulint.linting.linting:flake8_to_problem", props=["L05", "C06"], params={"enablers": ENABLERS, "raw": RAW},
         requires=lambda enablers, raw: flake8_report(raw), spec=from_flake8,
         pools={"raw": lambda rng: {"filename": rng.choice([n for n in NAMES if n]), "line_number": rng.randrange(4), "column_number": rng.randrange(4), "code": rng.choice(["E1", "W2"]), "text": rng.choice(["x", ""])},
                "enablers.key": ["E1", "E", "x"]})


def pylint_report(raw, files_or_dirs):
    """a report in the documented format of pylint, about one of the given files or about its configuration"""
    return has(raw, "path", "line", "column", "messageId", "message", "endLine", "endColumn", "symbol") and isinstance(raw["path"], str) and raw["path"] != "" \
        and isinstance(raw["line"], int) and isinstance(raw["column"], int) and isinstance(raw["messageId"], str) and isinstance(raw["message"], str) \
        and (raw["endLine"] is None or isinstance(raw["endLine"], int)) and (raw["endColumn"] is None or isinstance(raw["endColumn"], int)) \
        and isinstance(raw["symbol"], str) and (out_of_file(raw["path"]) or located(Path(raw["path"]), [Path(f) for f in files_or_dirs]) is not None)


def shown(path, files_or_dirs):
    """the file of a report, spelled like the argument it belongs to"""
    if out_of_file(path):
        return path
    i, p = located(Path(path), [Path(f) for f in files_or_dirs])
    return str(p) if os.path.isabs(files_or_dirs[i]) else os.path.relpath(p)


def from_pylint(files_or_dirs, enablers, raw):
    by_code = enablers.get(raw["messageId"])
    return Problem(Linter.PYLINT, by_code if by_code is not None else enablers.get(raw["symbol"]), proper(shown(raw["path"], files_or_dirs)), raw["line"], raw["column"],
                   raw["messageId"], raw["message"], raw["endLine"], raw["endColumn"], raw["symbol"])


contract("edulint.linting.linting:pylint_to_problem", props=["L05", "C06"], params={"files_or_dirs": FILES, "enablers": ENABLERS, "raw": RAW},
         requires=lambda files_or_dirs, enablers, raw: pylint_report(raw, files_or_dirs), spec=from_pylint,
         pools={"raw": lambda rng: {"path": rng.choice(NAMES), "line": rng.randrange(4), "column": rng.randrange(4), "messageId": rng.choice(["E1", "W2"]), "message": rng.choice(["x", ""]),
                                    "endLine": rng.choice([None, 1]), "endColumn": rng.choice([None, 1]), "symbol": rng.choice(["sym", "x"])},
                "enablers.key": ["E1", "E", "x", "sym"], "files_or_dirs[]": NAMES})

# ------------------------------------------------------- output of a linter
import edulint.linting.linting as LINTING
from pyded.prims import EXTERNALS, pure_ext, TH, Unsupported
from pyded.values import Sym, TExc
import z3



GETTER = fun_ty("result getter", [DYN], ListT(RAW))
CONVERTER = fun_ty("report converter", [ENABLERS, RAW], PROBLEM)


def failed(linter, return_code):
    """the linter itself failed (documented exit codes of flake8 and pylint)"""
    return linter == Linter.FLAKE8 and return_code != 0 and return_code != 1 or linter == Linter.PYLINT and return_code == 32


def is_json(text):
    try:
        json.loads(text)
        return True
    except json.JSONDecodeError:
        return False


def messages(value):
    return value["messages"]


def to_problem(enablers, raw):
    return Problem(Linter.PYLINT, enablers.get(raw["code"]), "a", raw["line"], 0, raw["code"], "t")


contract("edulint.linting.linting:process_results", props=["L04", "L05"],
         params={"linter": LINTER, "return_code": T.union(INT, NONE, STR), "outs": STR, "errs": STR, "result_getter": GETTER, "out_to_problem": CONVERTER, "enablers": ENABLERS},
         spec=lambda outs, result_getter, out_to_problem, enablers: [out_to_problem(enablers, raw) for raw in result_getter(json.loads(outs))] if len(outs) > 0 else [],
         raises={LINTING.EduLintLinterFailedException: lambda linter, return_code: failed(linter, return_code),
                 json.JSONDecodeError: lambda linter, return_code, outs: not failed(linter, return_code) and len(outs) > 0 and not is_json(outs)},
         pools={"return_code": [0, 1, 2, 32, 4, None, -9, "x", 30], "result_getter": lambda rng: messages, "out_to_problem": lambda rng: to_problem, "errs": ["", " ", "err\n"],
                "outs": ["", "{", '{"messages": []}', '{"messages": [{"code": "E1", "line": 2}, {"code": "E2", "line": 1}, {"code": "E1", "line": 2}]}', " "]})

# -------------------------------------------------------------------- order


def position(path, files_or_dirs):
    return -1 if out_of_file(path) else located(Path(path), [Path(f) for f in files_or_dirs])[0]


def placed(problems, files_or_dirs):
    """every problem is outside any file or in one of the given files"""
    return all(out_of_file(p.path) or located(Path(p.path), [Path(f) for f in files_or_dirs]) is not None for p in problems)


def in_order(problems, files_or_dirs):
    return sorted(problems, key=lambda p: (position(p.path, files_or_dirs), p.path, p.line, p.column))


contract("edulint.linting.linting:sort", props=["L03"], params={"files_or_dirs": FILES, "problems": PROBLEMS}, requires=lambda files_or_dirs, problems: placed(problems, files_or_dirs),
         spec=lambda files_or_dirs, problems: in_order(problems, files_or_dirs), modifies={"problems": None},
         pools={"files_or_dirs[]": NAMES, "Problem.path": NAMES, "Problem.line": [1, 2], "Problem.column": [0, 1]})
