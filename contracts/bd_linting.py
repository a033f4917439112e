"""Bounded end-to-end checks of linting: the real pipeline with the two
external linters replaced by stand-ins that print generated reports."""
import collections
import contextlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
from unittest import mock
from pyded.job import Bounded, record
from edulint.linters import Linter
from edulint.options import Option
from edulint.config import config as C
from edulint.config.language_translations import Translation
from edulint.linting import linting as L
from edulint.linting.overrides import get_overriders
from edulint.linting.problem import Problem
import edulint.edulint as E

FIELDS = ["source", "enabled_by", "path", "line", "column", "code", "text", "end_line", "end_column", "symbol"]


class Scratch:
    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="edl-l-"))
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, rel, text):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p


@contextlib.contextmanager
def fake_linters(flake8, pylint):
    """flake8(args), pylint(args) -> text printed, or an exception to raise, or (text, exception)"""
    import flake8.main.application as A
    import pylint.lint as P
    calls = []

    def act(res, write):
        text, exc = res if isinstance(res, tuple) else (res, None)
        if text:
            write(text)
        if exc is not None:
            raise exc

    def run8(self, argv):
        calls.append(("flake8", list(argv)))
        act(flake8(list(argv)), lambda t: print(t))

    def runp(args, reporter=None, exit=True, **kw):
        calls.append(("pylint", list(args)))
        act(pylint(list(args)), lambda t: print(t, file=reporter.out))
    with mock.patch.object(A.Application, "_run", run8), mock.patch.object(P, "Run", runp):
        yield calls


def templates():
    """message templates of pylint and of edulint's own checkers"""
    if not _T:
        from pylint.lint import PyLinter
        lin = PyLinter()
        lin.load_default_plugins()
        for d in lin.msgs_store.messages:
            _T[d.msgid] = (d.symbol, d.msg)
        import pkgutil, importlib
        import edulint.linting.checkers as ck
        from pylint.checkers import BaseChecker
        for mi in pkgutil.walk_packages(ck.__path__, ck.__name__ + "."):
            m = importlib.import_module(mi.name)
            for o in vars(m).values():
                if isinstance(o, type) and issubclass(o, BaseChecker) and o is not BaseChecker and o.__module__.startswith("edulint"):
                    for c, info in o.msgs.items():
                        _T[c] = (info[1], info[0])
    return _T


_T = {}
WORDS = ["else", "x", "foo bar", "not", "Max", "a*b", "", "elif"]


def fill(r, msg):
    """a message made from a template, with the parts filled in"""
    parts = []

    def one(m):
        w = r.choice(WORDS) if m.group(0) != "%d" else str(r.randint(0, 99))
        w = repr(w) if m.group(0) == "%r" else w
        parts.append(w)
        return w
    t = re.sub(r"%[rsd]", one, msg)
    return t, parts


# ------------------------------------------------------------------ oracle

SPECIAL = {"C0104": ['Disallowed name "x"', 'Disallowed name "nx"', 'Disallowed name "Ax"', 'Disallowed name ""', 'Disallowed name "foo"', 'Disallowed name "A"', 'Disallowed name "n"', 'Disallowed name "\u00e1"'],
           "F401": ["'ib111.week_01' imported but unused", "'math' imported but unused", "'ib111' imported but unused", "'xib111' imported but unused"],
           "R6607": ["Use ** instead of repeated * in a * a.", "Use ** instead of repeated multiplication in x * x * x.", "Use * instead of repeated + in a + a.", "Use * instead of repeated + in 2 * a + 2 * a."],
           "C0325": ["Unnecessary parens after 'not' keyword", "Unnecessary parens after 'if' keyword", "Unnecessary parens after 'Not' keyword", "Unnecessary parens after 'notable' keyword"],
           "W0622": ["Redefining built-in 'id'", "Redefining built-in 'list'", "Redefining built-in 'max'", "Redefining built-in 'i'"],
           "E712": ["comparison to True should be 'if cond is True:' or 'if cond:'", "comparison to False should be 'if cond is False:' or 'if not cond:'"]}
SOURCE = {"C0104": "pylint", "F401": "flake8", "R6607": "pylint", "C0325": "pylint", "W0622": "pylint", "E712": "flake8"}


def tweak(cfg, src, code, text):
    """None if the problem is dropped, else its text"""
    if SOURCE.get(code) != src:
        return text
    if code == "C0104":
        n = text[text.index('"') + 1:text.rindex('"')]
        if len(n) != 1:
            return text
        if n in (cfg["allowed-onechar-names"] or ""):
            return None
        return f'Disallowed single-character variable name "{n}", choose a more descriptive name'
    if code == "F401":
        return None if text[1:].startswith("ib111") else text
    if code == "R6607":
        expr = text[text.index(" in ") + 4:].split(".")[0]
        return text if cfg["set-groups"] or expr.count("*") > 1 else None
    if code == "C0325":
        return None if text.split("'")[1].lower() == "not" else text
    if code == "W0622":
        n = text.split("'")[1]
        return text if not cfg["disallowed-builtin-names"] or n in cfg["disallowed-builtin-names"] else None
    if code == "E712":
        a, b = text.split(" or ")
        return a[:a.index("'")] + b


def translated(lang, code, symbol, text, parts):
    """text after translation; parts: what the message was filled with, None if the text is not of the known form"""
    t = lang.get(code) or lang.get(symbol)
    if t is None:
        return text
    tmpl, ex = t
    if not parts:
        return tmpl
    ps = [ex.get(str(i + 1), {}).get(p, p) for i, p in enumerate(parts)]
    try:
        return tmpl.format(*ps)
    except (LookupError, ValueError, AttributeError, TypeError, MemoryError):
        return tmpl


def inside(path, fd):
    return path == fd or path.startswith(fd.rstrip("/") + "/")


def arg_index(path, args):
    """position of the argument a reported file belongs to"""
    for norm in (os.path.abspath, os.path.realpath):
        for i, a in enumerate(args):
            if inside(norm(path), norm(a)):
                return i
    return None


OUT = "Command line or configuration file"


def spell(r, s, rel):
    """spellings of a path below the scratch directory"""
    k = r.random()
    d, b = os.path.split(rel)
    if k < 0.5:
        return rel
    if k < 0.6:
        return "./" + rel
    if k < 0.75:
        return os.path.join(s.dir, rel)
    if k < 0.85:
        return os.path.join(d, "nx" if not d else "../" + os.path.basename(d), b) if d else os.path.join("d", "..", rel)
    if k < 0.9:
        return os.path.join("..", os.path.basename(s.dir), rel)
    return rel + "/" if os.path.isdir(rel) else rel.replace("/", "//")


def reachable(files, args):
    """files a linter run with the given arguments can report: below an argument as written or, once resolved, in its real place"""
    lex = lambda f: any(inside(os.path.abspath(f), os.path.abspath(a)) for a in args)
    return [f for f in files if lex(f) or (arg_index(f, args) is not None and os.path.realpath(f) == os.path.abspath(f))]


def setup(r, s, n_args=None):
    files = ["a.py", "b.py", "B.py", "d/a.py", "d/c.py", "d/Aa.py", "d/e/z.py", "d/e/Z.py", "d-x.py", "d.py", "other/x.py", "Other/x.py", "other x/10.py", "other x/9.py"]
    for f in files:
        s.write(f, "x = 1\n")
    cands = files + ["d", "d/e", "other", "d", "other x"]
    if r.random() < 0.25:
        os.symlink("d", os.path.join(s.dir, "link"))
        cands += ["link", "link/c.py"]
        files = files + ["link/a.py", "link/c.py", "link/e/z.py"]
    if r.random() < 0.15:
        os.symlink("../a.py", os.path.join(s.dir, "other", "l.py"))
        files = files + ["other/l.py"]
    args = r.sample(cands, r.randint(1, 4) if n_args is None else n_args)
    spelled = [spell(r, s, a) if not a.startswith("link") else a for a in args]
    return files, args, spelled


OPTS = [[], ["allowed-onechar-names=nx"], ["allowed-onechar-names=A"], ["set-groups=enhancement"], ["set-groups=python-spec"], ["disallowed-builtin-names=id,list"], ["no-flake8"], ["pylint=--enable=C0104,no-else-return"], ["flake8=--select=F401,E712"],
        ["flake8=--extend-select=E501"], ["pylint=--enable=W0622"], ["pylint=--enable=R1705"]]
TR = [{}, {"R1705": ("{0[a]}", {})}, {"C0104": ("{0:9999999999999}{0[0]}", {}), "W0622": ("{0!r}", {}), "C0325": ("{0.__class__[a]} {}", {})}, {"R1705": ("{1}|{0}", {"1": {"else": "", "elif": " "}, "2": {"x": "", "": "nic"}})}, {"no-else-return": ("{0}{1}", {"1": {"": "?"}, "2": {"else": ""}, "3": {"x": "y"}})}, {"E902": ("nelze", {}), "E999": ("", {})}, {"C0104": ("{0}", {"1": {"nx": "", "x": "{0}"}})},
      {"W0622": ("{0}", {"1": {"'id'": ""}}), "C0325": ("{0} {1}", {"0": {"'if'": "ne"}})}, {"C0104": ('Zle jmeno {0}', {})}, {"no-else-return": ("{1} po {0}", {"1": {"else": "jinak", "elif": "nebo"}})}, {"R1705": ("zbytecne", {"1": {"else": "jinak"}}), "no-else-return": ("spatne", {})},
      {"W0622": ("{0} {3}", {})}, {"C0325": ("{x} {0}", {})}, {"E501": ("dlouhe {0} {1}", {"1": {"99": "devadesat"}})}, {"F401": ("{0.__class__.__name__.y}", {}), "E712": ("{", {})}, {"unknown": ("?", {})}]


def a_problem(r, src, path, line, col):
    """(raw report, expected fields, parts)"""
    tp = templates()
    ov = sorted(get_overriders()) + sorted({x for v in get_overriders().values() for x in v})
    if src == "flake8":
        code = r.choice(["F401", "E712", "E225", "E501", "F841", "W291", "F401", "E902", "E999", "C901", "B001", "W605", "F821", "R1705", "E0001", "F0001"])
        if code in SPECIAL:
            text, parts = r.choice(SPECIAL[code]), None
        elif code == "E501":
            a, b = str(r.randint(80, 120)), "79"
            text, parts = f"line too long ({a} > {b} characters)", [a, b]
        else:
            text, parts = f"text of {code} {r.randint(0, 9)}", None
        raw = {"code": code, "filename": path, "line_number": line, "column_number": col, "text": text, "physical_line": "x = 1\n"}
        return raw, {"source": Linter.FLAKE8, "line": line, "column": col, "code": code, "text": text, "end_line": None, "end_column": None, "symbol": None}, parts
    k = r.random()
    if k < 0.45:
        code = r.choice([c for c in SPECIAL if SOURCE[c] == "pylint"])
        sym = tp[code][0]
        text, parts = r.choice(SPECIAL[code]), None
    else:
        code = r.choice([c for c in ov if c in tp and c not in SPECIAL] + ["R1705", "R1705", "C0114", "W0613", "W0101", "R1703", "E0001", "F0001", "F0002", "I0013", "E0602", "W0012", "R0022"])
        sym, msg = tp[code]
        if k < 0.9:
            text, parts = fill(r, msg)
        else:
            text, parts = "something else entirely", None
    end = r.choice([(None, None), (line, col + 3), (line + 1, 0), (line, None)])
    raw = {"type": "x", "symbol": sym, "message": text, "messageId": code, "confidence": "HIGH", "module": "m", "obj": "", "line": line, "column": col, "endLine": end[0], "endColumn": end[1], "path": path, "absolutePath": os.path.abspath(path)}
    return raw, {"source": Linter.PYLINT, "line": line, "column": col, "code": code, "text": text, "end_line": end[0], "end_column": end[1], "symbol": sym}, parts


def strip_cwd(p):
    p = os.path.abspath(p)
    return p[len(os.getcwd()) + 1:] if p.startswith(os.getcwd() + "/") else p


def parts_of(code, text, parts):
    """extracted parts of the text the pipeline translates (after rewording)"""
    return parts


def run_group(r, s, files, args, spelled, opts, tr, uid):
    cfg = C.get_config_one(s.write("cfg-probe.py", "\n"), opts + ["config-file=empty"])[0]
    os.unlink(os.path.join(s.dir, "cfg-probe.py"))
    view = {o.to_name(): cfg[o] for o in Option}
    mine = reachable(files, spelled)
    e8, ep, raw8, rawp = [], [], collections.OrderedDict(), []
    for src, n in (("flake8", r.randint(0, 6)), ("pylint", r.randint(0, 7))):
        for _ in range(n):
            uid[0] += 1
            line, col = r.choice([1, 1, 2, 10]), uid[0]
            f = r.choice(mine)
            i = arg_index(f, spelled)
            if src == "pylint" and r.random() < 0.07:
                raw, exp, parts = a_problem(r, src, OUT, 1, col)
                exp["path"] = OUT
                rawp.append(raw)
                ep.append((exp, parts))
            elif src == "pylint":
                raw, exp, parts = a_problem(r, src, strip_cwd(f), line, col)
                exp["path"] = os.path.abspath(f) if os.path.isabs(spelled[i]) else os.path.relpath(f)
                rawp.append(raw)
                ep.append((exp, parts))
            else:
                shown = os.path.abspath(f) if os.path.isabs(spelled[i]) else r.choice([f, "./" + f])
                raw, exp, parts = a_problem(r, src, shown, line, col)
                exp["path"] = os.path.abspath(shown) if os.path.isabs(shown) else os.path.relpath(shown)
                raw8.setdefault(shown, []).append((raw, exp, parts))
    for v in raw8.values():
        e8 += [(x, p) for _, x, p in v]
    out8 = json.dumps({f: [x for x, _, _ in v] for f, v in raw8.items()})
    outp = json.dumps({"messages": rawp, "statistics": {}})
    if r.random() < 0.1 and not raw8:
        out8 = ""
    en = dict(cfg.enablers)
    # a set of problems and why each is left out
    coll = ([] if view["no-flake8"] else e8) + ep
    codes = collections.defaultdict(set)
    for x, _ in coll:
        codes[(x["path"], x["line"])].add(x["code"])
    keep, why = [], {}
    ov = get_overriders()
    for x, parts in coll:
        x = dict(x)
        x["enabled_by"] = en.get(x["code"]) or en.get(x["symbol"])
        if ov.get(x["code"], set()) & codes[(x["path"], x["line"])]:
            why[x["column"]] = "L01"
            continue
        src = "flake8" if x["source"] == Linter.FLAKE8 else "pylint"
        t = tweak(view, src, x["code"], x["text"])
        if t is None:
            why[x["column"]] = "L02"
            continue
        x["tweaked"] = t != x["text"] or SOURCE.get(x["code"]) == src
        x["text"] = t
        x["key"] = (-1 if x["path"] == OUT else arg_index(x["path"], spelled), x["path"], x["line"], x["column"])
        x["parts"] = parts
        keep.append(x)
    keep.sort(key=lambda x: x["key"])
    lang = {c: Translation(t, {o: dict(m) for o, m in e.items()}) for c, (t, e) in tr.items()}
    for x in keep:
        t = tr.get(x["code"]) or tr.get(x["symbol"])
        x["translated"] = t is not None
        if t is not None:
            parts = x["parts"]
            if x["code"] in SPECIAL:
                parts = special_parts(x["code"], x["text"])
            x["text"] = translated(tr, x["code"], x["symbol"], x["text"], parts)
    return (spelled, cfg, lang), keep, why, out8, outp, view


def special_parts(code, text):
    pre = {"C0104": 'Disallowed name "', "C0325": "Unnecessary parens after ", "W0622": "Redefining built-in "}
    if code == "C0104" and text.startswith(pre[code]):
        return [text[len(pre[code]):-1]]
    if code == "C0325":
        return [re.match("Unnecessary parens after (.*) keyword", text).group(1)]
    if code == "W0622":
        return [text[len(pre[code]):]]
    if code == "F401":
        return [text[:-len(" imported but unused")]] if False else None
    return None


def pipeline(r, k, props, checked=False):
    with Scratch() as s:
        files, _, _ = [], 0, 0
        groups = []
        uid = [0]
        files, args, spelled = setup(r, s)
        n = 1 if checked else r.choice([1, 1, 2, 3])
        chunks = [spelled] if n == 1 else [spelled[i::n] for i in range(n)]
        for ch in chunks:
            if ch:
                groups.append(run_group(r, s, files, args, ch, [o for _ in range(r.randint(0, 3)) for o in r.choice(OPTS)], {k: v for _ in range(r.randint(0, 2)) for k, v in r.choice(TR).items()}, uid))
        ctx = {"groups": [{"arguments": g[0][0], "configuration": {k: v for k, v in g[5].items() if k not in ("pylint", "config-file")}, "translations": str(g[0][2]), "flake8": g[3], "pylint": g[4]} for g in groups]}
        record(ctx)
        pos = {"flake8": [g for g in groups if not g[5]["no-flake8"]], "pylint": list(groups)}
        it = {"flake8": iter(pos["flake8"]), "pylint": iter(pos["pylint"])}
        rc8 = r.choice([None, SystemExit(0), SystemExit(1), SystemExit(False), SystemExit(True)])

        def f8(argv):
            g = next(it["flake8"], None)
            return (g[3] if g else "{}", rc8)

        def pl(argv):
            g = next(it["pylint"], None)
            return g[4] if g else "{}"
        o, e = sys.stdout, sys.stderr
        with fake_linters(f8, pl) as calls:
            try:
                got = L.lint_many([g[0] for g in groups])
            except Exception as ex:
                return {"kind": "L07" if "L07" in props else props[0], "what": f"{type(ex).__name__}: {ex}", **ctx} if set(props) & {"L07", "L03", "T01"} else None
        if "L04" in props and (sys.stdout is not o or sys.stderr is not e):
            return {"what": "a standard stream is not restored", **ctx}
        want_calls = [("flake8", ["--format=json"] + list(g[5]["flake8"]) + g[0][0]) for g in pos["flake8"]], [("pylint", ["--recursive=y"] + list(g[5]["pylint"]) + g[0][0]) for g in groups]
        got_calls = [c for c in calls if c[0] == "flake8"], [c for c in calls if c[0] == "pylint"]
        if got_calls != want_calls and "L07" in props:
            return {"difference": {"linters called": got_calls, "expected": want_calls}, **ctx}
        want = [x for g in groups for x in g[1]]
        d = difference(want, got, {k: v for g in groups for k, v in g[2].items()})
        if d is not None and d[0] in props:
            return {"difference": d[1], **ctx}


def difference(want, got, why):
    """(property concerned, what differs)"""
    byid = {x["column"]: x for x in want}
    gid = [p.column for p in got]
    for p in got:
        if p.column not in byid:
            return (why.get(p.column, "L07"), {"not expected": str(p)})
    for x in want:
        n = gid.count(x["column"])
        if n != 1:
            return (("L02" if x["tweaked"] else "L01" if n == 0 and x["code"] in get_overriders() else "L07"), {"expected once": {k: str(v) for k, v in x.items()}, "times": n})
    for p in got:
        x = byid[p.column]
        for f in FIELDS:
            if getattr(p, f) != x[f] and str(getattr(p, f)) != str(x[f]):
                pr = "C06" if f == "enabled_by" else ("T01" if x["translated"] else "L02" if x["tweaked"] else "L05") if f == "text" else "L05"
                return (pr, {"problem": str(p), "field": f, "expected": str(x[f]), "got": str(getattr(p, f))})
            if f == "path" and not isinstance(p.path, str):
                return ("L05", {"path is not a string": repr(p.path)})
    if gid != [x["column"] for x in want]:
        return ("L03", {"order": [(p.path, p.line, p.column) for p in got], "expected": [(x["path"], x["line"], x["column"]) for x in want]})
    return None


for _p, _t in (("L01", "suppression"), ("L02", "tweaks"), ("L03", "order of results"), ("L05", "conversion of reports"), ("L07", "composition of stages"), ("T01", "translation of problems"), ("C06", "attribution of reported problems")):
    Bounded(f"pipeline: {_t}", [_p], lambda r, k, _p=_p: pipeline(r, k, [_p]), n=(1500, 15000), secs=(30, 300),
            text="up to three groups of files, up to thirteen generated reports per group, linters replaced by stand-ins")

# --------------------------------------------- L03: sorting over all arguments


def sorting(r, k):
    with Scratch() as s:
        files, args, spelled = setup(r, s)
        ps, exp = [], []
        mine = reachable(files, spelled)
        for i in range(r.randint(0, 8)):
            f = r.choice(mine + [OUT])
            if f != OUT:
                j = arg_index(f, spelled)
                f = os.path.abspath(f) if os.path.isabs(spelled[j]) else os.path.relpath(f)
            p = Problem(r.choice(list(Linter)), None, f, r.choice([1, 2, 10]), r.choice([0, 1, 9, 10]), "C%d" % i, "t%d" % i)
            ps.append(p)
        ctx = {"arguments": spelled, "problems": [str(p) for p in ps]}
        record(ctx)
        key = lambda p: (-1 if p.path == OUT else arg_index(p.path, spelled), p.path, p.line, p.column)
        want = sorted(ps, key=key)
        try:
            got = L.sort(list(spelled), list(ps))
        except Exception as e:
            return {"what": f"{type(e).__name__}: {e}", **ctx}
        if [p.code for p in got] != [p.code for p in want]:
            return {"expected": [str(p) for p in want], "got": [str(p) for p in got], **ctx}


Bounded("sorting", ["L03"], sorting, n=(2500, 20000), secs=(15, 120), text="up to eight problems, up to four arguments in various spellings")

# ---------------------------------------------------------- L04: failures


def good8(r):
    return json.dumps({"a.py": [{"code": "E501", "filename": "a.py", "line_number": 1, "column_number": 1, "text": "t"} for _ in range(r.randint(0, 2))]})


def goodp(r):
    return json.dumps({"messages": [{"symbol": "s", "message": "m", "messageId": "C0001", "line": 1, "column": 0, "endLine": None, "endColumn": None, "path": "a.py"} for _ in range(r.randint(0, 2))], "statistics": {}})


def count(text, src):
    d = json.loads(text)
    return sum(map(len, d.values())) if src == "flake8" else len(d["messages"])


GARBAGE = ["x", "{", "Traceback (most recent call last):", "null x", "[1,", "<html>", "{}{}", '{"a.py": [}', "\u0000"]
WRONG = ["[]", "3", "null", '"x"', "true", '{"a.py": [{}]}', '{"a.py": [{"code": 1, "filename": "a.py", "line_number": 1, "column_number": 1, "text": "t"}]}', '{"a.py": 3}', '{"messages": 3}', '{"messages": [3]}', '{"messages": [{"path": "a.py"}]}']


def failing(r, k):
    with Scratch() as s:
        s.write("a.py", "x = 1\n")
        opts = ["config-file=empty"] + (["no-flake8"] if r.random() < 0.2 else [])
        bad = []

        def out(src):
            good = good8(r) if src == "flake8" else goodp(r)
            j = r.random()
            if j < 0.35:
                return good, None, "good"
            if j < 0.5:
                return r.choice(GARBAGE), None, "bad"
            if j < 0.6:
                w = [x for x in WRONG if src == "flake8" or "a.py\": " not in x.replace('{"messages": [{"path"', "") or True]
                w = r.choice([x for x in w if not (src == "pylint" and x.startswith('{"a.py"')) and not (src == "flake8" and "messages" in x)])
                return w, None, "wrong"
            if j < 0.8:
                code = r.choice([2, 3, 127, 255, -9, -15, 32, 137]) if src == "flake8" else 32
                return r.choice([good, "", "usage"]), SystemExit(code), "bad"
            if j < 0.9:
                exc = r.choice([RuntimeError("x"), OSError("x"), MemoryError(), KeyError("x")])
                return good, exc, "crash"
            return good, SystemExit(r.choice([0, 1])) if src == "flake8" else None, "good"
        a8, ap = out("flake8"), out("pylint")
        uses8 = len(opts) == 1
        kinds = ([a8[2]] if uses8 else []) + [ap[2]]
        ctx = {"options": opts, "flake8": [a8[0], repr(a8[1])], "pylint": [ap[0], repr(ap[1])]}
        record(ctx)
        o, e = sys.stdout, sys.stderr
        buf = io.StringIO()
        argv = ["edulint", "check", "--disable-version-check", "--disable-explanations-update"] + [x for p in opts for x in ("-o", p)] + ["a.py"]
        with fake_linters(lambda a: a8[:2], lambda a: ap[:2]), mock.patch.object(sys, "argv", argv), mock.patch.object(sys, "stdout", buf):
            try:
                rc = E.main()
            except BaseException as ex:
                rc = f"{type(ex).__name__}: {ex}"
            if sys.stdout is not buf:
                return {"what": "the standard output is not restored", **ctx}
        if sys.stderr is not e:
            x, sys.stderr = sys.stderr, e
            return {"what": "the standard error output is not restored", **ctx}
        if any(x != "good" for x in kinds):
            fine = rc == 2 if isinstance(rc, int) else False
            want = "exit status 2"
        else:
            n = (count(a8[0], "flake8") if uses8 else 0) + count(ap[0], "pylint")
            want = f"exit status {0 if n == 0 else 1}"
            fine = rc == (0 if n == 0 else 1)
        if not fine:
            return {"expected": want, "got": rc, **ctx}


Bounded("failing linters", ["L04"], failing, n=(1500, 15000), secs=(40, 300), text="one file, generated outputs, exit statuses and exceptions of both linters")

# ------------------------------------------------------- L06: magic comments

LINES = ["x = 1", "x = 1  # noqa", "x = 1  #noqa: E501", "# NoQA", "from ib111 import week_01  # noqa", "from  ib111  import week_02 # flake8: noqa", "# flake8: noqa", "# flake8:noqa", "#flake8:  NOQA", "# flake8 : noqa", "# pylint: disable=C0114", "#pylint:disable=all",
         "# PYLINT:  enable=x", "# pylint: skip-file", "# pylint disable", "# no qa", "noqa", "x = '# noqa'", "#  pylint:disable # noqa", "# edulint: pylint=--x", "# noqa # pylint: enable # pylint: disable=x", "from math import ib111 # noqa", "y  # xnoqa", "\u00e1\u010d # noqa", "# pylint: disabled", "## noqa", "#\tnoqa",
         "from ib111 import x  # pylint: disable=x", "FROM IB111 IMPORT x #noqa"]


def comment_at(line, word, kw, sep):
    """column of the last '#' that starts a comment of the given form, and the form's text; None if there is none"""
    for i in range(len(line) - 1, -1, -1):
        if line[i] != "#":
            continue
        j = i + 1
        while j < len(line) and line[j].isspace():
            j += 1
        st = j
        if line[j:j + len(word)].lower() != word:
            continue
        j += len(word)
        if kw:
            while j < len(line) and (line[j].isspace() if sep == "s" else line[j] == " "):
                j += 1
            if line[j:j + len(kw)].lower() != kw:
                continue
            j += len(kw)
        return i, line[st:j]
    return None


FORMS = {"flake8": [("noqa", "", ""), ("flake8:", "noqa", " ")], "pylint": [("pylint:", "disable", "s"), ("pylint:", "enable", "s")], "edulint": []}


def magic(r, k):
    with Scratch() as s:
        names = ["a.py", "b.txt", "d/a.py", "d/x.PY", "d/e/z.py", "d/py", "o/.py", "o/q.pyi"]
        content = {}
        for n in r.sample(names, r.randint(1, 5)):
            text = "".join(r.choice(LINES) + r.choice(["\n", "\n", "\r\n"]) for _ in range(r.randint(0, 5))) + r.choice(["", r.choice(LINES)])
            content[n] = text
            os.makedirs(os.path.dirname(os.path.join(s.dir, n)), exist_ok=True)
            with open(os.path.join(s.dir, n), "w", encoding="utf-8", newline="") as f:
                f.write(text)
        ask = r.choice([["pylint"], ["flake8"], ["pylint", "flake8"], ["all"], ["edulint"], ["all", "pylint"], ["nope"], ["Flake8"], ["nope", "flake8"], []])
        args = r.choice([["."], sorted(content), [n for n in sorted(content) if r.random() < 0.6] or ["."], ["d"] if os.path.isdir("d") else ["."], ["./"]])
        opts = ["config-file=empty", "no-flake8"] + (["ignore-infile-config-for=" + ",".join(ask)] if ask else [])
        p = s.write("cfg/probe.py", "\n")
        cfg = C.get_config_one(p, opts)[0]
        shutil.rmtree(os.path.join(s.dir, "cfg"))
        ctx = {"files": content, "arguments": args, "for": ask}
        record(ctx)
        ls = {l for a in ask for l in (["pylint", "flake8"] if a == "all" else [a.lower()])}
        want = []
        for a in args:
            for f in ([os.path.join(d, x) for d, _, fs in os.walk(a) for x in fs] if os.path.isdir(a) else [a]):
                if not f.endswith(".py"):
                    continue
                text = content[os.path.relpath(f)].replace("\r\n", "\n")
                for i, line in enumerate(text.split("\n"), 1):
                    for l in sorted(ls & set(FORMS)):
                        for word, kw, sep in FORMS[l]:
                            m = comment_at(line, word, kw, sep)
                            lib = re.search(r"from\s+ib111\s+import", line, re.I)
                            if m and not (lib and l == "flake8"):
                                want.append((os.path.relpath(f), i, m[0], "EDL001", f"Forbidden magic comment '{m[1]}'", i, cfg.enablers.get("EDL001")))
        with fake_linters(lambda a: "{}", lambda a: '{"messages": []}'):
            try:
                got = L.lint_many([(args, cfg, {})])
            except Exception as e:
                return {"what": f"{type(e).__name__}: {e}", **ctx}
        g = sorted((os.path.relpath(p.path), p.line, p.column, p.code, p.text, p.end_line, p.enabled_by) for p in got)
        if g != sorted(want):
            return {"not reported": [x for x in want if x not in g], "reported in addition": [x for x in g if x not in want], "counts": (len(g), len(want)), **ctx}


Bounded("magic comments", ["L06"], magic, n=(3000, 20000), secs=(25, 200), text="trees of up to five files with up to six lines of about thirty forms")
