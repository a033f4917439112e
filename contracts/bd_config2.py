"""Bounded checks of option parsing, grouping of files, malformed configuration
files, access policy and cache."""
import contextlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
from unittest import mock
from loguru import logger
from pyded.job import Bounded, record
from edulint.options import Option
from edulint.config import config as C
from edulint.config import file_config as F
from . import bd_world as W
from .bd_world import World, KIND, KNOBS, Sink, comment, infile_text, options, observed, show, q


@contextlib.contextmanager
def knobs(**kw):
    old = dict(KNOBS)
    KNOBS.update(kw)
    try:
        yield
    finally:
        KNOBS.clear()
        KNOBS.update(old)


# ------------------------------------------------------------ C10: options

ODD = ["", "=", "x", "pylint", "PYLINT=", "pylint==", "config", "config=", "Config=empty", "config_file=empty", "no-flake8", "No-Flake8", "NO-FLAKE8=", "no-flake8=on", "flake8=a=b=c",
       "flake8=--select=E1", " flake8=x", "flake8 =x", "allowed-onechar-names", "allowed-onechar-names=a=b", "Allowed-Onechar-Names=", "allowed_onechar_names=a", "edulint", "edulint=x",
       "export-groups=,", "export-groups=a,,b", "EXPORT-GROUPS=A,b", "disallowed-builtin-names=id", "language-file", "ignore-infile-config-for=pylint", "aliases=x", "pylint\u200b=x", "fla\u212ae8=x"]


def recognition(r, k):
    with knobs(ignoring=0.0, bad=0.4):
        w = World(r)
        try:
            def some():
                return [r.choice(ODD) if r.random() < 0.6 else r.choice([o for o in options(r, 3) if "groups" not in o.lower() or o.lower().startswith("export")] or ["pylint=-x"]) for _ in range(r.randint(0, 6))]
            cmd = [a for a in some()]
            infile = [a for a in some() if a and "\u200b" not in a]
            cmd.append("config-file=empty")
            p = w.write("t.py", comment(infile) + "\n")
            record(show(w, infile, cmd))
            want_warn = W.read_args(infile)[1] + W.read_args(cmd)[1]
            with Sink() as s:
                try:
                    got = C.get_config_one(p, cmd)
                except Exception as e:
                    return {"what": f"{type(e).__name__}: {e}", **show(w, infile, cmd)}
            d = W.compare(w, p, infile, cmd, got and got[0])
            if d is not None:
                return {"difference": d, **show(w, infile, cmd)}
            warns = [m for l, m in s.msgs if l == "WARNING"]
            if len(warns) != want_warn:
                return {"difference": {"expected number of warnings": want_warn, "got": warns}, **show(w, infile, cmd)}
        finally:
            w.close()


Bounded("recognition of options", ["C10"], recognition, n=(4000, 40000), secs=(25, 300), text="one file with up to six in-file options and up to seven options on the command line, many of them malformed")

# --------------------------------------------------- C03: grouping of files


def py_files(path):
    if not os.path.isdir(path):
        return [path] if path.lower().endswith(".py") else []
    return [os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs if f.lower().endswith(".py")]


LANGS = ['C0114 = "chybi dokumentace"\n', 'R1705 = "zbytecny else"\nC0114 = "jinak"\n', 'no-else-return = "x {0}"\n']


def tree(r, k, broken=0.1):
    w = World(r)
    with knobs(ignoring=0.08, bad=0.1, all=0.1, groups=0.7):
        try:
            tops = [w.toml("conf/c0.toml", None)]
            tops.append(w.toml("conf/c1.toml", tops[0]))
            langs = [w.write(f"l{i}.toml", LANGS[i]) for i in range(3)]
            if r.random() < 0.4:
                p = tops[0]
                text = open(p, encoding="utf-8").read()
                w.write("conf/c0.toml", text + '[language-translations]\nC0114 = "puvodni"\nW0611 = "w"\n')
            gone = os.path.join(w.dir, "nowhere.toml")
            bad = w.write("bad.toml", "a = [\n")
            pool = []
            for _ in range(r.randint(1, 4)):
                o = options(r, r.randint(0, 3))
                j = r.random()
                if j < 0.6:
                    o.insert(0, f"config-file={r.choice(tops)}")
                elif j < 0.6 + broken:
                    o.insert(0, f"config-file={r.choice([gone, bad])}")
                if r.random() < 0.3:
                    o.append(f"language-file={r.choice(langs)}")
                pool.append(o)
                if r.random() < 0.5 and len(o) > 1:
                    o2 = list(o)
                    r.shuffle(o2)
                    pool.append(o2)
            files = {}
            dirs = ["", "d", "d/e", "d/f", "g", "g/h/i", ".h", "d/.e", "__x__"]
            for _ in range(r.randint(1, 7)):
                d = r.choice(dirs)
                n = os.path.join(d, r.choice(["a", "b", "c", "edulint", ".a", "_", "__init__", "test_a", "a.b", "B c"]) + r.choice([".py", ".py", ".py", ".txt", ".pyc", "", ".PY", ".Py"]))
                files[n] = r.choice(pool)
            if r.random() < 0.15:
                # an implicit configuration file in a parent folder
                imp = w.write(os.path.join(r.choice(["d", "g", "g/h"]), r.choice(["edulint.toml", ".edulint.toml"])), open(tops[0], encoding="utf-8").read())
                w.files[imp] = (W.meaning(__import__("tomli").load(open(imp, "rb")), "edulint" if imp.endswith("/edulint.toml") else ".edulint"), {})
            else:
                imp = None
            for n, o in files.items():
                w.write(os.path.join("src", n) if imp is None else n, infile_text(r, o))
            root = os.path.join(w.dir, "src") if imp is None else w.dir
            cmd = options(r, r.randint(0, 2))
            if r.random() < 0.15:
                cmd.append(f"config-file={r.choice(tops + [gone] * (broken > 0))}")
            cands = [root] + [os.path.join(root, d) for d in dirs if d and os.path.isdir(os.path.join(root, d))] + [os.path.join(root, n) for n in files]
            args = [root] if r.random() < 0.5 else r.sample(cands, r.randint(1, min(3, len(cands))))
            ctx = {"files": {os.path.join(os.path.relpath(root, w.dir), n): o for n, o in files.items()}, "arguments": [os.path.relpath(a, w.dir) for a in args], "command line": cmd, "implicit": imp}
            record(ctx)
            try:
                groups = C.get_config_many(list(args), cmd)
            except Exception as e:
                return {"what": f"{type(e).__name__}: {e}", **ctx}
            seen = {}
            for paths, ic, lang in groups:
                for p in {os.path.abspath(f) for x in paths for f in py_files(x)}:
                    if p in seen:
                        return {"difference": f"{os.path.relpath(p, w.dir)} belongs to two groups", **ctx}
                    seen[p] = (ic, lang)
            ig = W.ignores([("cmd", W.read_args(cmd)[0])])
            for p in sorted({os.path.abspath(f) for a in args for f in py_files(a)}):
                alone = C.get_config_one(p, cmd)
                if (alone is None) != (p not in seen):
                    return {"difference": f"{os.path.relpath(p, w.dir)} " + ("is not linted" if p not in seen else "is linted although its configuration is missing"), **ctx}
                if alone is None:
                    continue
                if observed(seen[p][0]) != observed(alone[0]):
                    return {"difference": {"file": os.path.relpath(p, w.dir), "in its group": observed(seen[p][0]), "alone": observed(alone[0])}, **ctx}
                if seen[p][1] != alone[1]:
                    return {"difference": {"file": os.path.relpath(p, w.dir), "translations in its group": str(seen[p][1]), "alone": str(alone[1])}, **ctx}
                inf = next(o for n, o in files.items() if os.path.join(root, n) == p)
                inf = [o for o in inf if not o.startswith("language-file")]
                if imp is not None:
                    near = os.path.dirname(p)
                    while near not in (w.dir, os.path.dirname(imp)):
                        near = os.path.dirname(near)
                    if near == os.path.dirname(imp):
                        inf = [f"config-file={imp}"] + inf
                if imp is None:
                    d = W.compare(w, p, inf, cmd, alone[0])
                    if d is not None and d["kind"] != "language-file":
                        return {"difference": {"file": os.path.relpath(p, w.dir), **d}, **ctx}
                elif any("config" in o.lower() and "ignore" not in o.lower() for o in inf):
                    want = imp if inf[0] == f"config-file={imp}" else None
                    named = [v for n, v in W.read_args(inf)[0] + W.read_args(cmd)[0] if n == "config-file"]
                    over = [v for n, v in W.read_args(cmd)[0] if n == "config-file"]
                    got = alone[0][Option.CONFIG_FILE]
                    exp = (over or named)[-1]
                    if not W.ignores([("in-file", W.read_args(inf)[0])]) and not ig and got != exp and not any(W.ignores(l) for l, _ in [w.files[t] for t in tops]):
                        return {"difference": {"file": os.path.relpath(p, w.dir), "expected config file": exp, "got": got}, **ctx}
        finally:
            w.close()


Bounded("grouping of files", ["C03"], tree, n=(2500, 25000), secs=(35, 400), text="trees of up to seven files in six directories with up to eight different in-file configurations")
Bounded("broken configuration files affect only their users", ["C07"], lambda r, k: tree(r, k, broken=0.35), n=(1500, 15000), secs=(25, 300), text="as above, a third of the files name a missing or invalid configuration file")


def implicit(r, k):
    w = World(r)
    with knobs(ignoring=0.0, bad=0.0, all=0.0, groups=0.0):
        try:
            a, b = w.toml("a.toml"), w.toml("b.toml")
            deep = r.choice(["p", "p/q", "p/q/r"])
            levels = {}
            for d in r.sample(["", "p", "p/q", "p/q/r"], r.randint(0, 2)):
                if (deep + "/").startswith(d + "/") or d == "":
                    src = r.choice([a, b])
                    levels[d] = src
                    imp = w.write(os.path.join(d, r.choice(["edulint.toml", ".edulint.toml"])), open(src, encoding="utf-8").read())
                    (who, ss), sets, _ = W.meaning(__import__("tomli").load(open(imp, "rb")), os.path.splitext(os.path.basename(imp))[0])
                    base, bsets = W.packaged("empty")
                    w.files[imp] = (base + [(who, ss)], {**bsets, **sets})
                    levels[d] = imp
            inf = [o for o in options(r, r.randint(0, 2)) if "config" not in o.lower()]
            if r.random() < 0.3:
                inf.insert(0, f"config-file={r.choice([a, b])}")
            p = w.write(os.path.join(deep, "t.py"), comment(inf) + "\n")
            near = [levels[d] for d in sorted(levels, key=len) if d == "" or (deep + "/").startswith(d + "/")]
            eff = ([f"config-file={near[-1]}"] if near else []) + inf
            cmd = [f"config-file={r.choice([a, b])}"] if r.random() < 0.2 else []
            record(show(w, inf, cmd))
            try:
                got = C.get_config_one(p, cmd)
            except Exception as e:
                return {"what": f"{type(e).__name__}: {e}", **show(w, inf, cmd)}
            d = W.compare(w, p, eff, cmd, got and got[0])
            if d is not None:
                return {"difference": d, "implicit": {os.path.relpath(v, w.dir) for v in levels.values()}, **show(w, inf, cmd)}
        finally:
            w.close()


Bounded("configuration files found in parent folders", ["C01"], implicit, n=(1500, 10000), secs=(15, 200), text="up to two implicit configuration files on the way to the root")

# ------------------------------------------------ C07: malformed documents


def rv(r, depth=0):
    k = r.random()
    if k < 0.3:
        return r.choice(["a", "C0114", "", "--x", "all", "x,y", "<val>", "conf/c.toml"])
    if k < 0.4:
        return r.choice([0, 1, -3, 10**6])
    if k < 0.47:
        return r.choice([1.5, -0.0, float("inf")])
    if k < 0.54:
        return r.choice([True, False])
    if k < 0.58:
        import datetime
        return r.choice([datetime.date(2024, 1, 2), datetime.datetime(2024, 1, 2, 3, 4, 5), datetime.time(1, 2, 3)])
    if depth > 2:
        return "z"
    if k < 0.8:
        return [rv(r, depth + 1) for _ in range(r.randint(0, 3))]
    return {r.choice(["enable", "disable", "1", "2", "x", "pylint", "flake8", "edulint", "a b", ""]): rv(r, depth + 1) for _ in range(r.randint(0, 3))}


def tv(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return "inf" if v == float("inf") else repr(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return q(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(tv, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{q(k)} = {tv(x)}" for k, x in v.items()) + "}"
    return v.isoformat()


def shapely(r, n):
    """a value of the documented shape for a key, sometimes with one wrong part"""
    if n == "translations":
        return {g: {l: (rv(r) if r.random() < 0.3 else r.choice(["--enable=q", {"enable": ["a", "b"], "disable": rv(r)}])) for l in r.sample([r.choice(["pylint", "Pylint"]), "flake8", "edulint", "foo"], r.randint(1, 3))} if r.random() < 0.8 else rv(r)
                for g in r.sample(["g1", "g2", "allowed-onechar-names", "set-groups"], r.randint(1, 3))}
    if n == "language-translations":
        out = {i: (rv(r) if r.random() < 0.3 else "text {0} {1}") for i in r.sample(["C0114", "R1705", "no-else-return", "E501"], r.randint(1, 3))}
        if r.random() < 0.6:
            out["translated_extracts"] = {i: ({o: ({"a": "b", "c": rv(r)} if r.random() < 0.7 else rv(r)) for o in r.sample(["1", "2", "x"], r.randint(1, 2))} if r.random() < 0.8 else rv(r)) for i in r.sample(["C0114", "R1705", "nope"], r.randint(1, 2))} \
                if r.random() < 0.9 else rv(r)
        return out
    if n in ("pylint", "flake8"):
        return {k: (rv(r) if r.random() < 0.4 else ["a", "b"]) for k in r.sample(["enable", "disable", "select", "max"], r.randint(1, 3))}
    return rv(r) if r.random() < 0.5 else r.choice([["g1", "g2"], "g1", "ijk"])


def plain(lang):
    return {i: (t.translation, {o: dict(m) for o, m in t.extracts.items()}) for i, t in (lang or {}).items()}


def document(r, k):
    w = World(r)
    try:
        keys = ["pylint", "flake8", "allowed-onechar-names", "disallowed-builtin-names", "export-groups", "set-groups", "no-flake8", "translations", "language-translations", "language-file", "default-enabler-name",
                "config-file", "unknown", "ignore-infile-config-for", "Pylint"]
        doc = {}
        for n in r.sample(keys, r.randint(1, 6)):
            doc[n] = shapely(r, n) if r.random() < 0.8 else rv(r)
            if n == "config-file" and isinstance(doc[n], str):
                doc[n] = r.choice(["empty", "conf.toml", "default"])
            if n == "ignore-infile-config-for" and ("all" in str(doc[n]) or "edulint" in str(doc[n])):
                doc[n] = "pylint"
            if n == "language-file" and isinstance(doc[n], str):
                doc[n] = "nofile.toml"
        text = "\n".join(f"{q(n)} = {tv(v)}" for n, v in doc.items()) + "\n"
        top = w.write("conf.toml", text)
        p = w.write("t.py", "x = 1\n")
        groups = r.choice(["", "g1", "g2,g1"])
        cmd = [f"config-file={top}"] + ([f"set-groups={groups}"] if groups else [])
        ctx = {"configuration file": text, "command line": cmd}
        record(ctx)
        loop = doc.get("config-file") == "conf.toml"
        with Sink() as s:
            try:
                got = C.get_config_one(p, cmd)
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                return {"what": f"{type(e).__name__}: {e}", **ctx}
        if loop:
            return None if got is None and s.msgs else {"difference": "a configuration file based on itself is used", **ctx}
        if got is None:
            return {"difference": "a valid configuration file is not used", **ctx}
        base = doc.get("config-file")
        base = base if isinstance(base, str) else "empty"
        bl, bs = W.packaged(base)
        layer, sets, lang = W.meaning(doc, "conf")
        w.files[top] = (bl + [layer], {**bs, **sets})
        if any(m == "language-file" for m, _ in layer[1]):
            layer[1][:] = [(m, v) for m, v in layer[1]]
        d = W.compare(w, p, [], cmd, got[0]) if not any(m == "language-file" for m, _ in layer[1]) else compare_but(w, p, cmd, got[0])
        if d is not None:
            return {"difference": d, **ctx}
        want = {**lang_of(base), **lang}
        if plain(got[1]) != want:
            return {"difference": {"translations": plain(got[1]), "expected": want}, **ctx}
    finally:
        w.close()


def compare_but(w, p, cmd, ic):
    d = W.compare(w, p, [], cmd, ic)
    return None if d is not None and d["kind"] == "language-file" else d


_LANG = {}


def lang_of(name):
    if name not in _LANG:
        import tomli
        out = {}
        for n in (["empty", name] if name != "empty" else ["empty"]):
            with open(os.path.join(os.path.dirname(C.__file__), "files", n + ".toml"), "rb") as f:
                out.update(W.meaning(tomli.load(f), n)[2])
        _LANG[name] = out
    return _LANG[name]


Bounded("documents with values of any type", ["C07"], document, n=(4000, 40000), secs=(30, 400), text="configuration files with up to six keys and values of every TOML type nested up to three levels")


def reported(r, k):
    """one unusable value in an otherwise fine document is reported"""
    w = World(r)
    try:
        bad = r.choice([1.5, [1.5], {"a": {"b": 1}}, __import__("datetime").date(2024, 1, 1)])
        doc = {"flake8": ["--x"], "pylint": "--y"}
        where = r.choice(["flake8", "set-groups", "allowed-onechar-names", "export-groups", "translations", "language-translations", "language-file", "default-enabler-name", "unknown", "pylint.enable", "t.g", "t.g.pylint", "t.g.foo", "l.id", "l.ex", "l.ex.id", "l.ex.id.1", "l.ex.id.1.a", "no-flake8"])
        if where == "pylint.enable":
            doc["pylint"] = {"enable": bad}
        elif where == "t.g":
            doc["translations"] = {"g": [1]}
        elif where == "t.g.pylint":
            doc["translations"] = {"g": {"pylint": r.choice([1.5, [1.5], {"a": {}}])}}
        elif where == "t.g.foo":
            doc["translations"] = {"g": {r.choice(["foo", "edulint"]): "x"}}
        elif where.startswith("l."):
            t = doc["language-translations"] = {"C0114": "x"}
            if where == "l.id":
                t["R1705"] = 3
            elif where == "l.ex":
                t["translated_extracts"] = 3
            elif where == "l.ex.id":
                t["translated_extracts"] = {"C0114": 3}
            elif where == "l.ex.id.1":
                t["translated_extracts"] = {"C0114": {"1": 3}}
            else:
                t["translated_extracts"] = {"C0114": {"1": {"a": 3}}}
        elif where in ("translations", "language-translations", "default-enabler-name", "language-file"):
            doc[where] = r.choice([1, 1.5, [1.5]])
        elif where == "no-flake8":
            doc[where] = "x"
        else:
            doc[where] = bad
            if isinstance(bad, dict) and where == "flake8":
                doc[where] = bad
        text = "\n".join(f"{q(n)} = {tv(v)}" for n, v in doc.items()) + "\n"
        top = w.write("conf.toml", text)
        p = w.write("t.py", "x = 1\n")
        record({"configuration file": text})
        with Sink() as s:
            try:
                got = C.get_config_one(p, [f"config-file={top}"])
            except Exception as e:
                return {"what": f"{type(e).__name__}: {e}", "configuration file": text}
        if not s.msgs:
            return {"difference": "an unusable value is not reported", "where": where, "configuration file": text}
        if got is None:
            return {"difference": "a valid configuration file is not used", "configuration file": text}
    finally:
        w.close()


Bounded("unusable values are reported", ["C07"], reported, n=(600, 3000), secs=(15, 60), text="one unusable value at one of twenty places")

# --------------------------------------------------- C04, C05: file access

_AUDIT = {"on": False, "opened": [], "net": []}


def _hook(ev, args):
    if _AUDIT["on"]:
        if ev == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
            _AUDIT["opened"].append(os.fsdecode(args[0]))
        elif ev in ("socket.connect", "socket.getaddrinfo", "urllib.Request"):
            _AUDIT["net"].append(str(args))


_installed = []


class Watch:
    """records files opened and requests made; no request ever leaves"""

    def __init__(self, answer):
        self.answer = answer
        self.requests = []

    def __enter__(self):
        import requests
        if not _installed:
            sys.addaudithook(_hook)
            _installed.append(1)
        w = self

        def request(self_, method, url, *a, **kw):
            w.requests.append(url)
            return w.answer(url)
        self.p = mock.patch.object(requests.sessions.Session, "request", request)
        self.p.start()
        self.dir = tempfile.mkdtemp(prefix="edl-c-")
        self.env = mock.patch.dict(os.environ, {"XDG_DATA_HOME": self.dir, "XDG_CACHE_HOME": self.dir, "HOME": self.dir})
        self.env.start()
        _AUDIT["opened"], _AUDIT["net"] = [], []
        _AUDIT["on"] = True
        return self

    def done(self):
        _AUDIT["on"] = False
        return [p for p in _AUDIT["opened"] if not os.path.abspath(p).startswith((self.dir, sys.prefix, sys.base_prefix, "/proc", "/etc", "/dev")) and not p.endswith((".pyc", ".py", ".so"))], self.requests + _AUDIT["net"]

    def __exit__(self, *a):
        _AUDIT["on"] = False
        self.p.stop()
        self.env.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


class Resp:
    def __init__(self, code, text):
        self.status_code, self.text = code, text
        self.content = text.encode()
        self.ok = code < 400


PKG = os.path.join(os.path.dirname(F.__file__), "files")


def kind_of(name):
    if name.startswith("http://") or name.startswith("https://"):
        return "remote"
    if all(c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" for c in name):
        return "packaged"
    return "local"


def a_name(r, w):
    k = r.random()
    if k < 0.25:
        return r.choice(["http://", "https://"]) + r.choice(["a.cz/x.toml", "localhost/c", "", "x y", "../../etc"])
    if k < 0.45:
        return r.choice(["default", "empty", "full", "cs0", "nope", "", "a-b_C9", "webtiger"])
    if k < 0.6:
        return r.choice([os.path.join(w.dir, "ok.toml"), os.path.join(w.dir, "sub/x.toml"), os.path.join(w.dir, "gone.toml"), w.dir])
    if k < 0.8:
        return r.choice(["HTTP://a.cz/x", "https:/a", "http:x", "ftp://a/b", "xhttp://a", " http://a", "httpss://a/b", "http//a", "https:\\\\a", "default.toml", "../config/files/empty.toml", "./default", "empty ", "d\u00e9faut", "\uff41", "a\n", "x.y", ".", "..", "files/empty", "empty/", "~", "$HOME", "%", "a:b", "\u0661", "\u00b2"])
    return "".join(r.choice("abAZ09-_./:\\ h") for _ in range(r.randint(0, 6)))


def access(r, k):
    w = World(r)
    cwd = os.getcwd()
    try:
        os.chdir(w.dir)
        w.write("ok.toml", 'flake8 = "--x"\n')
        w.write("sub/x.toml", 'flake8 = "--y"\n')
        w.write("default", "a = 1\n")
        name = a_name(r, w)
        if "\x00" in name:
            return None
        local, remote = r.random() < 0.7, r.random() < 0.7
        how = r.choice(["command line", "in-file", "base", "direct"])
        text = f'config-file = {q(name)}\n'.replace("\n", "\\n")[:-2] + "\n"
        if how == "base":
            if not local:
                how = "command line"
            else:
                w.write("sub/b.toml", text)
        p = w.write("sub/t.py", comment([f"config-file={name}"]) + "\n" if how == "in-file" and "\n" not in name else "x = 1\n")
        if how == "in-file" and "\n" in name:
            how = "direct"
        cmd = [f"config-file={name}"] if how == "command line" else [f"config-file={w.dir}/sub/b.toml"] if how == "base" else []
        ctx = {"name": name, "local files allowed": local, "remote allowed": remote, "reached from": how}
        record(ctx)
        kind = kind_of(name)
        rel = name if kind != "local" or os.path.isabs(name) or how in ("direct", "command line") else os.path.normpath(os.path.join(w.dir, "sub", name))
        with mock.patch.object(F, "ALLOW_UNRESTRICTED_LOCAL_PATHS", local), mock.patch.object(F, "ALLOW_HTTP_S_PATHS", remote):
            with Watch(lambda u: Resp(200, "")) as watch:
                try:
                    if how == "direct":
                        F.load_toml_file(name)
                    else:
                        C.get_config_one(p, cmd)
                except Exception as e:
                    watch.done()
                    return {"what": f"{type(e).__name__}: {e}", **ctx}
                opened, reqs = watch.done()
        opened = {os.path.abspath(x) for x in opened} - {p, os.path.join(w.dir, "sub/b.toml")}
        mine = {os.path.join(PKG, x + ".toml") for x in ("empty", "default")} if how != "direct" else set()
        allowed = set(mine)
        if kind == "packaged":
            allowed.add(os.path.join(PKG, name + ".toml"))
        if kind == "local" and local:
            allowed.add(os.path.abspath(rel))
        if opened - allowed:
            return {"difference": f"opened {sorted(opened - allowed)}", **ctx}
        want = [name] if kind == "remote" and remote else []
        if reqs != want:
            return {"difference": f"requested {reqs}, expected {want}", **ctx}
        if kind == "local" and local and os.path.isfile(rel) and os.path.abspath(rel) not in opened:
            return {"difference": f"{rel} not read", **ctx}
        if kind == "packaged" and os.path.isfile(os.path.join(PKG, name + ".toml")) and os.path.join(PKG, name + ".toml") not in opened:
            return {"difference": f"packaged {name} not read", **ctx}
    finally:
        os.chdir(cwd)
        w.close()


Bounded("access to configuration sources", ["C04"], access, n=(4000, 30000), secs=(30, 300), text="about sixty shapes of names reached in four ways under all policies")


def relative(r, k):
    w = type("W", (), {"dir": "/tmp/edl-none"})
    name, parent = a_name(r, w), r.choice(["c.toml", "/x/y/c.toml", "a/../b/c.toml", "./c", "default", "http://h/c.toml"])
    if "\x00" in name:
        return None
    record((name, parent))
    want = name if kind_of(name) != "local" or os.path.isabs(name) else os.path.abspath(os.path.join(os.path.dirname(parent), name))
    got = F.get_path_relative_to(name, parent)
    if got != want:
        return {"name": name, "mentioned in": parent, "expected": want, "got": got}


Bounded("relative names", ["C04"], relative, n=(3000, 20000), secs=(8, 60), text="about sixty shapes of names, six referring files")


@contextlib.contextmanager
def full_disk(limit):
    """no file can grow beyond the limit"""
    if limit is None:
        yield
        return
    import resource
    import signal
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    lims = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, lims[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, lims)
        signal.signal(signal.SIGXFSZ, old)


def after_failure(u, whole, now, hist):
    """offline after a failed write: a whole answer or none"""
    import requests

    def off(*a, **k):
        raise requests.exceptions.ConnectionError("x")
    with mock.patch.object(requests.sessions.Session, "request", off), mock.patch("time.time", lambda: now + 400):
        try:
            got = F.CachedHTTPGet.http_get(u)
        except FileNotFoundError:
            return None
        except Exception as e:
            return {"difference": f"{type(e).__name__}: {e}", "history": hist}
    if got.replace("\r\n", "\n") not in [t.replace("\r\n", "\n") for t in whole]:
        return {"difference": f"offline after a failed write: got {got!r}, stored were {whole}", "history": hist}


def cache(r, k):
    import requests
    urls = ["http://a/x.toml", "http://a/x.toml?", "https://a/x.toml", "http://a/" + "\ud800", "http://b/" + "z" * 300][: r.randint(1, 5)]
    now = 1_700_000_000 + r.randint(0, 10**6)
    world = {}
    stored = {}
    hist = []
    state = {}

    def answer(u):
        kind, txt = state["net"]
        if kind == "exc":
            raise txt
        return Resp(kind, txt)
    with Watch(answer) as watch:
        for step in range(r.randint(1, 9)):
            now += r.choice([0, 1, 100, 299, 300, 301, 3600, 500 * 24 * 60 - 400, 500 * 24 * 60, 10**8])
            u = r.choice(urls)
            op = r.random()
            files = [os.path.join(d, f) for d, _, fs in os.walk(watch.dir) for f in fs]
            if op < 0.2 and files:
                f = r.choice(files)
                how = r.choice(["delete", "garbage", "directory", "empty"])
                if how == "garbage" and not f.endswith(".metadata"):
                    how = "undecodable"
                hist.append([how, "metadata" if f.endswith(".metadata") else "content"])
                os.unlink(f)
                if how in ("garbage", "undecodable"):
                    with open(f, "wb") as h:
                        h.write(r.choice([b"\xff\xfe{", b"\xff"]) if how == "undecodable" else r.choice([b"{", b"[]", b"{}", b'"x"', b'{"timestamp": "now"}', b'{"timestamp": null}', b"\xff", b"3"]))
                elif how == "directory":
                    os.mkdir(f)
                elif how == "empty":
                    open(f, "wb").close()
                if how == "directory":
                    state.setdefault("dead", set()).add(f)
                for v in [v for v in world if f in stored.get(v, ())]:
                    world.pop(v)
                continue
            net = r.random()
            txt = r.choice(["a = 1\n", "b = '\u017elu\u0165'\n", "c = 3\r\nd = 4\n", "" if r.random() < 0.2 else "e = 5"])
            state["net"] = (200, txt) if net < 0.45 else (r.choice([404, 500, 204, 301]), "oops") if net < 0.7 else ("exc", r.choice([requests.exceptions.ConnectionError("x"), requests.exceptions.Timeout("x"), requests.exceptions.InvalidURL("x"), requests.exceptions.ChunkedEncodingError("x")]))
            del watch.requests[:]
            before = set(files)
            hist.append(["get", u[:40], now, str(state["net"])[:60]])
            torn = r.random() < 0.15
            if torn:
                hist[-1].append("storage full")
            with mock.patch("time.time", lambda: now + 0.4), full_disk(r.choice([0, 1, 3, 30]) if torn else None):
                try:
                    got = ("ok", F.CachedHTTPGet.http_get(u))
                except FileNotFoundError:
                    got = ("missing",)
                except Exception as e:
                    got = (f"{type(e).__name__}: {e}",)
            hist[-1].append(got)
            e = world.get(u)
            if e and now < e[1] + 300 and e[0]:
                want, reqs = [("ok", e[0])], []
            else:
                reqs = [u]
                if state["net"][0] == 200:
                    want = [("ok", txt)]
                elif e and now < e[1] + 500 * 24 * 60 and e[0]:
                    want = [("ok", e[0])]
                else:
                    want = [("missing",)]
            norm = lambda g: (g[0], g[1].replace("\r\n", "\n")) if len(g) > 1 else g
            if norm(got) not in map(norm, want):
                return {"difference": f"got {got}, expected {want}", "history": hist}
            if watch.requests != reqs:
                return {"difference": f"requests {watch.requests}, expected {reqs}", "history": hist}
            if reqs and state["net"][0] == 200:
                after = {os.path.join(d, f) for d, _, fs in os.walk(watch.dir) for f in fs}
                if torn:
                    # whether anything was stored is up to the code: the next request decides, but only for a whole answer
                    return None if not e else after_failure(u, [e[0], txt], now, hist)
                if u not in stored:
                    new = after - before
                    if len(new) == 2:
                        stored[u] = new
                if any(x in state.get("dead", ()) for x in stored.get(u, ())) or u not in stored:
                    world.pop(u, None)
                    if u not in stored:
                        return None
                else:
                    world[u] = (txt, now)
        watch.done()
    record(hist)


Bounded("cache histories", ["C05"], cache, n=(3000, 30000), secs=(30, 300), text="up to nine requests and storage failures for up to five addresses")


# ----------------------------------------- C01: translations along the chain


def table(r):
    """(lines, meaning) of a table of translations"""
    out, lines, ex = {}, [], {}
    for i in r.sample(["C0114", "R1705", "no-else-return", "E501", "W0611"], r.randint(0, 4)):
        t = r.choice(["", "jinak {0}", "{1} {0}", "x", "y {}"])
        lines.append(f"{i} = {q(t)}")
        out[i] = t
    for i in r.sample(["C0114", "R1705", "nope"], r.randint(0, 2)):
        ex[i] = {o: {w: r.choice(["", "a", "b"]) for w in r.sample(["else", "elif", ""], r.randint(0, 2))} for o in r.sample(["1", "2", "10"], r.randint(0, 2))}
    if ex:
        lines.append("translated_extracts = {" + ", ".join(f"{q(i)} = " + tv(m) for i, m in ex.items()) + "}")
    return lines, {i: (t, ex.get(i, {})) for i, t in out.items()}


def chain(r, k):
    w = World(r)
    try:
        want, path, lang, files = {}, "empty", None, {}
        for i in range(r.randint(0, 4)):
            lines, mine = table(r)
            text = f"config-file = {q(path)}\n"
            if r.random() < 0.3:
                ll, lm = table(r)
                lang = (w.write(f"lang{i}.toml", "\n".join(ll) + "\n"), lm)
                text += f"language-file = {q(lang[0])}\n"
                files[lang[0]] = ll
            if r.random() < 0.85:
                text += "[language-translations]\n" + "\n".join(lines) + "\n"
                want = {**want, **mine}
            path = w.write(f"c{i}.toml", text)
            files[path] = text
        cmd = [f"config-file={path}"]
        if r.random() < 0.3:
            ll, lm = table(r)
            lang = (w.write("own.toml", "\n".join(ll) + "\n"), lm)
            cmd.append(f"language-file={lang[0]}")
            files[lang[0]] = ll
        if lang is not None:
            want = {**want, **lang[1]}
        p = w.write("t.py", "x = 1\n")
        ctx = {"files": {os.path.basename(f): t for f, t in files.items()}, "command line": [os.path.basename(c) for c in cmd]}
        record(ctx)
        try:
            got = C.get_config_one(p, cmd)
        except Exception as e:
            return {"what": f"{type(e).__name__}: {e}", **ctx}
        if got is None or plain(got[1]) != want:
            return {"expected": want, "got": got and plain(got[1]), **ctx}
    finally:
        w.close()


Bounded("translations of a chain of configuration files", ["C01", "T01"], chain, n=(1500, 15000), secs=(20, 200), text="chains of up to four configuration files with up to four translations each, up to one effective language file")
