"""Bounded end-to-end check of the configuration: random worlds (a base chain of
configuration files, groups, in-file comments, a command line) run through the
real get_config_many, compared with an oracle written from the documentation."""
import os
import shutil
import tempfile
from loguru import logger
from pyded.job import Bounded, record
from edulint.options import Option
from edulint.config import config as C

NAMES = {o: o.name.lower().replace("_", "-") for o in Option}
KIND = {"config-file": "str", "pylint": "arg", "flake8": "arg", "allowed-onechar-names": "str", "disallowed-builtin-names": "csv", "no-flake8": "flag",
        "ignore-infile-config-for": "csv", "export-groups": "csv", "set-groups": "csv", "language-file": "str"}
DEFAULTS = {"config-file": "default", "pylint": (), "flake8": (), "allowed-onechar-names": None, "disallowed-builtin-names": (), "no-flake8": False,
            "ignore-infile-config-for": (), "export-groups": (), "set-groups": (), "language-file": None}


class Sink:
    """collects warnings of the code under test"""

    def __enter__(self):
        self.msgs = []
        logger.enable("edulint")
        logger.remove()
        self.h = logger.add(lambda m: self.msgs.append((m.record["level"].name, m.record["message"])), level="WARNING", format="{message}", catch=False)
        return self

    def __exit__(self, *a):
        logger.remove(self.h)
        logger.disable("edulint")


def conv(name, val):
    k = KIND[name]
    if k == "arg":
        return [val]
    if k == "csv":
        return val.split(",") if val else []
    if k == "flag":
        return True
    return val


# ------------------------------------------------------------------ oracle

def read_args(args):
    """option strings -> [(name, value)], number of warnings"""
    out, warns = [], 0
    for a in args:
        name, eq, val = a.partition("=")
        n = name.lower()
        n = "config-file" if n == "config" else n
        if n not in KIND or (KIND[n] == "flag") == bool(eq):
            warns += 1
            continue
        out.append((n, conv(n, val)))
    return out, warns


def superseding(args):
    """pylint arguments after the last decisive 'all'"""
    last = None
    for i, a in enumerate(args):
        if a.lower() in ("--disable=all", "--enable=all"):
            last = i
    if last is None:
        return list(args)
    on = args[last].lower() == "--enable=all"
    out = []
    for a in args[:last]:
        lo = a.lower()
        if lo == "--enable=noop":
            out.append(a)
        elif lo in ("--disable=all", "--enable=all") or lo.startswith("--disable" if on else "--enable"):
            continue
        else:
            out.append(a)
    return out + list(args[last:])


def flatten(layers):
    """layers: [(who, [(name, value)])] -> settings, single-valued options kept at their last position only"""
    flat = [s for _, ss in layers for s in ss]
    return [s for i, s in enumerate(flat) if KIND[s[0]] == "arg" or all(t[0] != s[0] for t in flat[i + 1:])]


def effective(layers, sets):
    """effective values; sets: {name: [(linter, arg)]}"""
    val = dict(DEFAULTS)
    args = {"pylint": [], "flake8": []}
    for n, v in flatten(layers):
        if KIND[n] == "arg":
            args[n] += v
        else:
            val[n] = tuple(v) if isinstance(v, list) else v
        for g in (v if n == "set-groups" else []):
            for l, a in sets.get(g, []):
                args[l].append(a)
        for l, a in sets.get(n, []):
            args[l].append(a)
    val["pylint"] = tuple(superseding(args["pylint"]))
    val["flake8"] = tuple(args["flake8"])
    return val


def attribution(layers, sets):
    en = {}

    def add(who, n, a):
        for l, p in (("pylint", "--enable="), ("flake8", "--select="), ("flake8", "--extend-select=")):
            if n == l and a.startswith(p):
                for s in a[len(p):].split(","):
                    en[s] = who
    for g, xs in sets.items():
        for l, a in xs:
            add(g, l, a)
    for who, ss in layers:
        for n, v in flatten([(who, ss)]):
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, str):
                    add(who, n, x)
                    if n == "ignore-infile-config-for":
                        en["EDL001"] = who
    return en


# --------------------------------------------------------------- generation

MSG = ["C0114", "invalid-name", "R1705", "no-else-return", "W0611"]
FL = ["E501", "W1", "F401"]
PY = ["--disable=all", "--enable=all", "--Enable=ALL", "--disable=ALL", "--enable=noop", "--max-line-length=99", "--good-names=X,Yy", "-d", "--init-hook=A=1", "--extension-pkg-allow-list=aB", "--enable-all-extensions", "--disable", "--ENABLE=R0913", "--init-hook=a('--disable=all')", "--load-plugins=x--enable", "--disable-all", "--disable=all,C0114", "--enable=R0913,all", "--good-names=--disable"]


KNOBS = {"all": 0.4, "groups": 1.0, "ignoring": 0.1, "bad": 0.15}


def pylint_arg(r):
    k = r.random()
    if k >= 0.55 and r.random() > KNOBS["all"]:
        return r.choice([a for a in PY if not a.lower().endswith("=all")])
    if k < 0.35:
        return "--enable=" + ",".join(r.choice(MSG) for _ in range(r.randint(1, 3)))
    if k < 0.55:
        return "--disable=" + ",".join(r.choice(MSG) for _ in range(r.randint(1, 2)))
    return r.choice(PY)


def flake8_arg(r):
    k = r.random()
    v = ",".join(r.choice(FL) for _ in range(r.randint(1, 2)))
    return ("--select=" + v if k < 0.35 else "--extend-select=" + v if k < 0.6 else "--ignore=" + v if k < 0.8 else r.choice(["--max-line-length=80", "--extend-ignore=E1"]))


GROUPS = ["g1", "g2", "python-spec", "enh"]


def value(r, n):
    k = KIND[n]
    if n == "pylint":
        return pylint_arg(r)
    if n == "flake8":
        return flake8_arg(r)
    if n == "allowed-onechar-names":
        return r.choice(["", "ijk", "xA", "n"])
    if n == "disallowed-builtin-names":
        return r.choice(["", "id", "id,list", "Max"])
    if n in ("export-groups", "set-groups"):
        return ",".join(r.choice(GROUPS + ["nope"]) for _ in range(r.choice([0, 1, 1, 2, 3])))
    if n == "ignore-infile-config-for":
        return r.choice(["pylint", "flake8", "pylint,flake8", ""] + ["edulint", "all", "pylint,all"] * (r.random() < KNOBS["ignoring"]))
    return None


def options(r, n=None):
    bad = KNOBS["bad"]
    out = []
    for _ in range(r.randint(0, 6) if n is None else n):
        if r.random() < bad:
            out.append(r.choice(["pylint", "no-flake8=x", "foo", "foo=1", "no_flake8", "set-groups", "Pylint", "=", "no-flake8=", "edulint=x"]))
            continue
        o = r.choice(["pylint"] * 5 + ["flake8"] * 3 + ["allowed-onechar-names", "no-flake8", "ignore-infile-config-for", "export-groups", "set-groups", "set-groups", "set-groups", "disallowed-builtin-names"])
        nm = r.choice([o, o, o.upper(), o.title()])
        v = value(r, o)
        out.append(nm if v is None else f"{nm}={v}")
    return out


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class World:
    """a scratch directory with configuration files and their meaning"""

    def __init__(self, r):
        self.r = r
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="edl-w-"))
        self.files = {}  # path -> (layers, sets)

    def close(self):
        assert self.dir.startswith(tempfile.gettempdir()) or "edl-w-" in self.dir
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, rel, text):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p

    def toml(self, rel, base=None):
        """random configuration file; base: path of another one, 'empty' or None"""
        r = self.r
        layers, sets = packaged("empty") if base in (None, "empty") else self.files[base]
        layers = list(layers)
        sets = dict(sets)
        lines, settings = [], []
        if base is not None:
            ref = base
            if base != "empty" and r.random() < 0.7:
                ref = os.path.relpath(base, os.path.dirname(os.path.join(self.dir, rel)))
            lines.append(f"{r.choice(['config', 'config-file'][1:])} = {q(ref)}")
        who = os.path.splitext(os.path.basename(rel))[0]
        if r.random() < 0.3:
            who = r.choice(["us", "They"])
            lines.append(f"default-enabler-name = {q(who)}")
        names = [n for n in KIND if n not in ("config-file", "language-file", "no-flake8")]
        r.shuffle(names)
        tables = []
        for n in names:
            if r.random() < 0.55:
                continue
            if n == "ignore-infile-config-for" and r.random() > 0.3:
                continue
            if KIND[n] == "arg" and r.random() < 0.5:
                body = []
                keys = r.sample(["enable", "disable", "select", "max-line-length", "extend-select"], r.randint(1, 3))
                for k in keys:
                    vs = [r.choice(MSG + FL + ["all"]) for _ in range(r.randint(1, 3))]
                    if k == "max-line-length":
                        body.append(f"{k} = 88")
                        tables_v = "88"
                    elif r.random() < 0.5:
                        body.append(f"{k} = [{', '.join(q(v) for v in vs)}]")
                        tables_v = ",".join(vs)
                    else:
                        body.append(f"{k} = {q(vs[0])}")
                        tables_v = vs[0]
                    tables.append((n, k, tables_v))
                lines.append(f"{n} = {{ {', '.join(body)} }}")
                settings += [(n, [f"--{k}={v}"]) for m, k, v in tables if m == n]
                continue
            v = value(r, n)
            if n == "ignore-infile-config-for" and ("all" in v or "edulint" in v) and r.random() > KNOBS["ignoring"] / 2:
                v = "pylint"
            if KIND[n] == "csv" and r.random() < 0.6:
                vs = v.split(",") if v else []
                lines.append(f"{n} = [{', '.join(q(x) for x in vs)}]")
            else:
                lines.append(f"{n} = {q(v)}")
            settings.append((n, conv(n, v)))
        trans = []
        for g in r.sample(GROUPS + ["allowed-onechar-names", "export-groups", "disallowed-builtin-names"], r.randint(0, 4) if r.random() < KNOBS["groups"] else 0):
            xs = []
            ls = r.sample(["pylint", "flake8"], r.randint(1, 2))
            sub = []
            for l in ls:
                if r.random() < 0.4:
                    a = pylint_arg(r) if l == "pylint" else flake8_arg(r)
                    sub.append(f"{l} = {q(a)}")
                    xs.append((l, a))
                else:
                    body = []
                    for k in r.sample(["enable", "disable", "select", "ignore"], r.randint(1, 2)):
                        v = ",".join(r.choice(MSG + ["all"]) for _ in range(r.randint(1, 2)))
                        body.append(f"{k} = {q(v)}")
                        xs.append((l, f"--{k}={v}"))
                    sub.append(f"{l} = {{ {', '.join(body)} }}")
            trans.append(f"[translations.{g}]\n" + "\n".join(sub))
            sets[g] = xs
        p = self.write(rel, "\n".join(lines) + "\n" + "\n".join(trans) + "\n")
        self.files[p] = (layers + [(who, settings)], sets)
        return p


def ignores(layers):
    v = effective(layers, {})["ignore-infile-config-for"]
    return "all" in v or "edulint" in v


def expect(world, infile, cmd, path):
    """effective values, attribution of one file; infile/cmd: option strings.  None: the configuration file is missing"""
    def resolve(ss):
        return [(n, os.path.normpath(os.path.join(os.path.dirname(path), v)) if n == "config-file" and not os.path.isabs(v) and not all(c.isalnum() or c in "-_" for c in v) else v) for n, v in ss]
    I, C_ = read_args(infile)[0], read_args(cmd)[0]
    I = resolve(I)
    cl = [("cmd", C_)]
    if ignores(cl):
        I = []
    il = [("in-file", I)]
    if ignores(il):
        v = effective(il, {})["ignore-infile-config-for"]
        il = [("in-file", [("ignore-infile-config-for", list(v))])]
    over = [v for n, v in C_ if n == "config-file"]
    cf = (over or [v for n, v in il[0][1] if n == "config-file"] or ["default"])[-1]
    if cf in ("default", "empty"):
        fl, sets = packaged(cf)
    elif cf in world.files:
        fl, sets = world.files[cf]
    else:
        return None
    if ignores(fl):
        layers = fl + cl if over else cl
    else:
        layers = fl + il + cl
    return effective(layers, sets), attribution(layers, sets)


def observed(ic):
    return {NAMES[o]: ic[o] for o in Option}, dict(ic.enablers)


def packaged(start):
    """meaning of a packaged configuration"""
    if start in _PACKAGED:
        return _PACKAGED[start]
    import tomli
    d = os.path.join(os.path.dirname(C.__file__), "files")
    chain, name = [], start
    while name is not None:
        with open(os.path.join(d, name + ".toml"), "rb") as f:
            doc = tomli.load(f)
        chain.append((name, doc))
        name = doc.get("config-file", "empty") if name != "empty" else None
    layers, sets = [], {}
    for name, doc in reversed(chain):
        l, s, _ = meaning(doc, name)
        layers.append(l)
        sets.update(s)
    _PACKAGED[start] = (layers, sets)
    return layers, sets


_PACKAGED = {}


def text(v):
    """text of a value in a configuration file, None if unusable"""
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if isinstance(v, list):
        return ",".join(t for t in map(text, v) if t is not None)
    return None


def table(v):
    if not isinstance(v, dict):
        t = text(v)
        return [] if t is None else [t]
    return [f"--{k}={text(x)}" for k, x in v.items() if text(x) is not None]


def meaning(doc, stem):
    """(layer, groups, translations) a configuration file stands for"""
    who = doc.get("default-enabler-name", stem)
    who = who if isinstance(who, str) else stem
    settings, sets, lang = [], {}, {}
    for n, v in doc.items():
        m = {"config": "config-file"}.get(n.lower(), n.lower())
        if n == "translations":
            for g, to in v.items() if isinstance(v, dict) else []:
                xs = [(l.lower(), t) for l, a in to.items() if l.lower() in ("pylint", "flake8") for t in table(a) if t] if isinstance(to, dict) else []
                if xs:
                    sets[g] = xs
        elif n == "language-translations":
            if isinstance(v, dict):
                ex = v.get("translated_extracts", {})
                for i, t in v.items():
                    if i != "translated_extracts" and isinstance(t, str):
                        e = ex.get(i, {}) if isinstance(ex, dict) else {}
                        lang[i] = (t, {o: {a: b for a, b in mp.items() if isinstance(b, str)} for o, mp in e.items() if isinstance(mp, dict)} if isinstance(e, dict) else {})
        elif m in KIND and m != "config-file" and KIND[m] != "flag":
            if isinstance(v, dict) and KIND[m] != "arg":
                continue
            if m == "language-file" and not isinstance(v, str):
                continue
            settings += [(m, conv(m, t)) for t in table(v)]
    return (who, settings), sets, lang


# ------------------------------------------------------------------- checks

def show(world, files, cmd):
    toms = {}
    for p in world.files:
        with open(p, encoding="utf-8") as f:
            toms[os.path.relpath(p, world.dir)] = f.read()
    return {"config files": toms, "in-file options": files, "command line": cmd}


def comment(opts):
    import shlex
    return "# edulint: " + " ".join(shlex.quote(o) for o in opts) if opts else ""


def infile_text(r, opts):
    """the options spread over several comments of a file"""
    lines = []
    i = 0
    while i < len(opts):
        n = r.randint(1, len(opts) - i)
        lines.append(r.choice(["", "  ", "\t"]) + r.choice(["#", "##", "# #"]) + r.choice(["edulint: ", " edulint:", " EduLint:  "]) + comment(opts[i:i + n])[len("# edulint: "):])
        lines.append("x = 1")
        i += n
    return "\n".join(lines) + "\n"


def compare(world, path, infile, cmd, got):
    want = expect(world, infile, cmd, path)
    if want is None or got is None:
        return {"kind": "missing", "expected": None if want is None else "a configuration", "got": "none" if got is None else "a configuration"} if (want is None) != (got is None) else None
    gv, ge = observed(got)
    wv, we = want
    wv["config-file"] = gv["config-file"]
    for n in KIND:
        if gv[n] != wv[n]:
            return {"kind": n, "expected": wv[n], "got": gv[n]}
    if ge != we:
        d = {k: (we.get(k), ge.get(k)) for k in sorted(set(we) | set(ge)) if we.get(k) != ge.get(k)}
        return {"kind": "attribution", "symbol -> (expected, got)": d}
    return None


def one_file(r, kinds, **knobs):
    old = dict(KNOBS)
    KNOBS.update(knobs)
    w = World(r)
    try:
        base = w.toml("conf/b.toml", r.choice([None, "empty"])) if r.random() < 0.6 else None
        top = w.toml(r.choice(["c.toml", "conf/c.toml", "sub/my-conf.toml"]), base or r.choice([None, "empty"]))
        infile, cmd = options(r), options(r)
        where = r.random()
        ref = r.choice([top, os.path.relpath(top, w.dir)])
        if where < 0.5:
            infile.insert(r.randint(0, len(infile)), f"{r.choice(['config', 'config-file', 'Config-File'])}={ref}")
        elif where < 0.85:
            cmd.insert(r.randint(0, len(cmd)), f"config-file={top}")
            if r.random() < 0.3:
                infile.insert(0, f"config-file={base or top}")
        p = w.write("t.py", infile_text(r, infile))
        record(show(w, infile, cmd))
        try:
            got = C.get_config_one(p, cmd)
        except Exception as e:
            return {"what": f"{type(e).__name__}: {e}", **show(w, infile, cmd)}
        d = compare(w, p, infile, cmd, got and got[0])
        if d is not None and (kinds is None or d["kind"] in kinds):
            return {"difference": d, **show(w, infile, cmd)}
    finally:
        w.close()
        KNOBS.clear()
        KNOBS.update(old)


SINGLE = ["allowed-onechar-names", "disallowed-builtin-names", "no-flake8", "ignore-infile-config-for", "export-groups", "set-groups"]
Bounded("layering of settings", ["C01"], lambda r, k: one_file(r, SINGLE + ["pylint", "flake8", "missing"], all=0.0, groups=0.1, ignoring=0.0, bad=0.05), n=(4000, 40000), secs=(25, 300),
        text="one file, up to two configuration files, in-file comments and a command line with up to six settings each")
Bounded("expansion of groups", ["C08"], lambda r, k: one_file(r, ["pylint", "flake8"], all=0.05, groups=1.0, ignoring=0.0, bad=0.05), n=(4000, 40000), secs=(25, 300),
        text="one file, groups declared in up to two configuration files and set in every layer")
Bounded("enabling and disabling everything", ["C02"], lambda r, k: one_file(r, ["pylint"], all=0.8, groups=0.5, ignoring=0.0, bad=0.0), n=(4000, 40000), secs=(25, 300),
        text="one file, pylint arguments from all layers and groups")
Bounded("attribution of messages", ["C06"], lambda r, k: one_file(r, ["attribution"], all=0.1, groups=1.0, ignoring=0.05, bad=0.0), n=(4000, 40000), secs=(25, 300),
        text="one file, enabling arguments in all layers and groups")
Bounded("ignoring in-file configuration", ["C09"], lambda r, k: one_file(r, None, all=0.0, groups=0.2, ignoring=0.9, bad=0.0), n=(4000, 40000), secs=(25, 300),
        text="one file, requests to ignore in-file configuration in every layer")
