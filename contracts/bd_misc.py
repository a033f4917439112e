"""Bounded checks of the version check and of explanations: generated histories
with the network, the clock and the user's data directory replaced."""
import contextlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
from unittest import mock
from loguru import logger
from packaging.version import Version as PV, InvalidVersion
from pyded.job import Bounded, record
import edulint.explanations as X
import edulint.edulint as E
from edulint.versions import pypi_helper, version_checker as VC
from edulint.versions.version_checker import PackageInfoManager as P


class Fake:
    """stands for the requests module's get"""

    def __init__(self, answer):
        self.answer, self.asked = answer, []

    def __call__(self, url, timeout=None, **kw):
        self.asked.append(url)
        a = self.answer()
        if isinstance(a, BaseException):
            raise a
        return a


class Resp:
    def __init__(self, doc=None, text="", status_code=200):
        self.doc, self.text, self.status_code = doc, text, status_code
        self.ok = status_code < 400

    def json(self):
        if isinstance(self.doc, BaseException):
            raise self.doc
        return self.doc


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="edl-v-"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


IDS = ["1.0.0", "1.0", "2.10.3", "2.9.12", "10.0.0", "9.9.9", "3.0.1", "4.2.0", "4.2.1", "4.10.0", "0.1", "2012-1-1x", "latest", "", "4.2.0.post1", "4.3.0rc1"]


def releases(r):
    res = {}
    for v in r.sample(IDS, r.randint(0, 7)):
        k = r.random()
        res[v] = [] if k < 0.2 else [{"yanked": r.random() < 0.25 if r.random() < 0.9 else None, "filename": "f"} for _ in range(r.randint(1, 3))]
        if res[v] and r.random() < 0.2:
            res[v][0].pop("yanked")
    return res


def candidates(rel):
    out = []
    for v, builds in rel.items():
        try:
            pv = PV(v)
        except InvalidVersion:
            continue
        if builds and not any(b.get("yanked") for b in builds):
            out.append(pv)
    return out


def short(v):
    return (v.major, v.minor, v.micro)


def versions(r, k):
    with scratch() as d:
        now = [r.choice([10 ** 6, 10 ** 9])]
        installed = [r.choice(["4.2.0", "4.2.1", "10.0.0", "1.0", None])]
        answers = []
        hist = []

        def answer():
            j = r.random()
            if j < 0.15:
                a = r.choice([OSError("no network"), ValueError("x"), TimeoutError("t")])
            elif j < 0.3:
                a = Resp(r.choice([{}, {"releases": None}, [], None, {"message": "Not Found"}, ValueError("not json"), {"releases": []}, {"releases": {"1.0": None}}]))
            else:
                a = Resp({"releases": releases(r), "info": {}})
            answers.append((now[0], a))
            return a
        fake = Fake(answer)
        ttl = r.choice([600, 600, 60, 1])
        state = {"start": None, "version": None}
        ctx = {"time to live": ttl, "history": hist}
        with mock.patch.object(VC, "current_timestamp", lambda: now[0]), mock.patch.object(pypi_helper.requests, "get", fake), \
                mock.patch.object(VC, "PlatformDirs", lambda *a, **k: mock.Mock(user_data_dir=d)), mock.patch.object(P, "get_local_module_version", staticmethod(lambda n: installed[0])):
            if r.random() < 0.2:
                with open(os.path.join(d, "versions.json"), "w", encoding="utf8") as f:
                    old = r.choice([{}, {"other": {"version": "1", "last_update_started": 10 ** 10}}, {"edulint": {"version": "4.2.1", "last_update_started": now[0] - 5}}])
                    json.dump(old, f)
                    if "edulint" in old:
                        state = {"start": now[0] - 5, "version": "4.2.1"}
                hist.append(("saved", old))
            for _ in range(r.randint(1, 6)):
                now[0] += r.choice([0, 0, 1, 30, ttl - 1, ttl, ttl + 1, 5000])
                n0 = len(fake.asked)
                what = r.choice(["latest", "waiting", "waiting"])
                try:
                    got = P.get_latest_version("edulint", ttl) if what == "latest" else P.is_update_waiting("edulint", ttl)
                except Exception as e:
                    return {"what": f"{type(e).__name__}: {e}", "answers": str([a.doc if isinstance(a, Resp) else a for _, a in answers]), **ctx}
                asked = len(fake.asked) - n0
                hist.append((now[0], what, "installed", installed[0], "asked", asked, "got", got))
                due = state["start"] is None or now[0] >= state["start"] + ttl
                if what == "waiting" and installed[0] is None:
                    if got is not False:
                        return {"what": "an update is announced although the installed version is unknown", **ctx}
                    if asked and not due or asked > 1:
                        return {"what": "the index is asked too often", **ctx}
                    if asked:
                        return None
                    continue
                if asked > (1 if due else 0):
                    return {"what": "the index is asked too often", **ctx}
                if due and not asked:
                    return {"what": "the index is not asked although the last time is long ago", **ctx}
                if asked:
                    state["start"] = now[0]
                    a = answers[-1][1]
                    new = None
                    if isinstance(a, Resp) and isinstance(a.doc, dict) and isinstance(a.doc.get("releases"), dict) and all(v is not None for v in a.doc["releases"].values()):
                        cs = candidates(a.doc["releases"])
                        if cs:
                            best = max(map(short, cs))
                            new = {str(c) for c in cs if short(c) == best}
                    latest = new
                    if new is not None:
                        state["version"] = new
                    hist.append(("index", str(a.doc if isinstance(a, Resp) else a)))
                else:
                    v = state["version"]
                    latest = v if isinstance(v, set) or v is None else {v}
                if what == "latest":
                    fine = got is None if latest is None else got in latest
                    if isinstance(state["version"], set) and got in state["version"] and latest is state["version"]:
                        state["version"] = {got}
                else:
                    exp = {False} if latest is None else {installed[0] != v for v in latest}
                    fine = got in exp
                if not fine:
                    return {"latest versions": sorted(latest) if latest else None, **ctx}
                if r.random() < 0.2:
                    installed[0] = r.choice(["4.2.0", "10.0.0", None])
            record(ctx)


Bounded("version checks", ["V01"], versions, n=(4000, 40000), secs=(25, 200), text="histories of up to six checks with generated answers of the index")


def listing(r, k):
    rel = releases(r)
    ctx = {"releases": rel}
    record(ctx)
    with mock.patch.object(pypi_helper.requests, "get", Fake(lambda: Resp({"releases": rel}))):
        try:
            got = pypi_helper.get_versions("edulint")
        except Exception as e:
            return {"what": f"{type(e).__name__}: {e}", **ctx}
    if sorted(map(str, got)) != sorted(map(str, candidates(rel))):
        return {"expected": sorted(map(str, candidates(rel))), "got": sorted(map(str, got)), **ctx}
    f = getattr(pypi_helper, "_only_last_patch_of_each_minor", None)
    if f is None:
        return None
    try:
        last = f(list(got))
    except Exception as e:
        return {"what": f"{type(e).__name__}: {e}", **ctx}
    groups = {}
    for v in candidates(rel):
        groups.setdefault((v.major, v.minor), []).append(v)
    want = [str(max(groups[g])) for g in sorted(groups)]
    if [PV(str(v)) for v in last] != [PV(v) for v in want]:
        return {"expected": want, "got": [str(v) for v in last], **ctx}


Bounded("released versions", ["V01"], listing, n=(2000, 20000), secs=(10, 60), text="indexes of up to seven releases")

# ------------------------------------------------------------ E01


def an_explanation(r, tag):
    return {k: f"{v} {tag}" for k, v in (("why", "because"), ("examples", "for example")) if r.random() < 0.85}


def toml(doc):
    return "".join(f"[{json.dumps(i)}]\n" + "".join(f"{k} = {json.dumps(v)}\n" for k, v in d.items()) for i, d in doc.items())


MIDS = ["E0001", "W0104", "all", "ALL", "R6001", "no-else-return", "e0001", "", "x y", "C0114"]


def explanations(r, k):
    with scratch() as d:
        packaged = {i: an_explanation(r, "p") for i in r.sample([m for m in MIDS if m], r.randint(1, 6))}
        downloaded = {i: an_explanation(r, "d") for i in r.sample([m for m in MIDS if m], r.randint(0, 6))}
        pk, on = os.path.join(d, "packaged.toml"), os.path.join(d, "online.toml")
        with open(pk, "w", encoding="utf8") as f:
            f.write(toml(packaged))
        j = r.random()
        if j < 0.3:
            src, state = packaged, "absent"
        elif j < 0.7:
            with open(on, "w", encoding="utf8") as f:
                f.write(toml(downloaded))
            src, state = (downloaded or packaged), "readable"
        else:
            src, state = packaged, "damaged"
            if j < 0.75:
                os.mkdir(on)
            else:
                with open(on, "wb") as f:
                    f.write(r.choice([toml(downloaded).encode() + b"[x\n", b"\xff\xfe\x00", b"404: Not Found", b"<html>", b"[a]\n[a]\n", b""]))
        ids = [r.choice(MIDS) for _ in range(r.randint(1, 5))]
        ask = None if r.random() < 0.25 else ids
        ctx = {"packaged": packaged, "downloaded": (state, downloaded), "requested": ask}
        record(ctx)
        logs = []
        with mock.patch.object(X, "EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH", pk), mock.patch.object(X, "EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH", on), mock.patch.object(X, "EXPLANATIONS_DBM", os.path.join(d, "e.dbm")), \
                mock.patch.object(X, "update_explanations", lambda *a, **k: None), mock.patch.object(E, "update_explanations", lambda *a, **k: None):
            logger.enable("edulint")
            logger.remove()
            h = logger.add(lambda m: logs.append(m.record["message"]), level="WARNING")
            try:
                if r.random() < 0.5 or ask is not None and not ask:
                    got = E.get_message_explanations(ask)
                else:
                    out = io.StringIO()
                    argv = ["edulint", "explain", "--json", "--disable-version-check"] + (ask if ask is not None else [r.choice(["all", "ALL", "All"])] + ids)
                    with mock.patch.object(sys, "argv", argv), mock.patch.object(sys, "stdout", out), mock.patch.object(E, "setup_logger", lambda: None):
                        rc = E.main()
                    if ask is not None and any(i.lower() == "all" for i in ask):
                        ask = None
                    if rc != 0:
                        return {"exit status": rc, **ctx}
                    got = json.loads(out.getvalue())["explanations"]
            except Exception as e:
                return {"what": f"{type(e).__name__}: {e}", **ctx}
            finally:
                try:
                    logger.remove(h)
                except ValueError:
                    pass
                logger.disable("edulint")
        want = dict(src) if ask is None else {i: src[i] for i in ask if i in src}
        if got != want or list(got) != list(want):
            return {"expected": want, "got": got, **ctx}
        missing = [] if ask is None else [i for i in ask if i not in src]
        warned = [m for m in logs if "explanation" in m and m.startswith("Message ")]
        if len(warned) != len(missing) or any(f" {i} " not in m for i, m in zip(missing, warned)):
            return {"without an explanation": missing, "warnings": warned, **ctx}


Bounded("explanations", ["E01"], explanations, n=(2500, 25000), secs=(25, 200), text="up to six packaged and downloaded explanations, up to five requested identifiers, damaged downloads")


def updates(r, k):
    with scratch() as d:
        on, dbm = os.path.join(d, "online.toml"), os.path.join(d, "e.dbm")
        now = [1000]
        doc = {"E0001": an_explanation(r, "d")}
        hist = []
        fake = Fake(lambda: r.choice([OSError("x"), Resp(text="404", status_code=404), Resp(text=toml(doc)), Resp(text=toml(doc))]))
        last = None
        ctx = {"history": hist}
        with mock.patch.object(X, "EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH", on), mock.patch.object(X, "EXPLANATIONS_DBM", dbm), mock.patch.object(X, "current_timestamp", lambda: now[0]), \
                mock.patch.object(X.requests, "get", fake), mock.patch.object(X.time, "sleep", lambda s: None):
            for _ in range(r.randint(1, 4)):
                now[0] += r.choice([0, 1, 599, 600, 601, 10000])
                n0, before = len(fake.asked), open(on).read() if os.path.exists(on) else None
                how = r.choice(["update", "update", "disabled", "explain disabled"])
                threads = []

                class T:
                    def __init__(self, target=None, args=(), kwargs=None, **kw):
                        threads.append(lambda: target(*args, **(kwargs or {})))

                    def start(self):
                        threads[-1]()
                with mock.patch.object(X, "Thread", T):
                    try:
                        if how == "update":
                            X.update_explanations()
                        elif how == "disabled":
                            X.get_explanations(True)
                        else:
                            with mock.patch.object(sys, "argv", ["edulint", "explain", "--disable-version-check", "--disable-explanations-update", "E0001"]), mock.patch.object(sys, "stdout", io.StringIO()), mock.patch.object(E, "setup_logger", lambda: None):
                                E.main()
                    except Exception as e:
                        return {"what": f"{type(e).__name__}: {e}", **ctx}
                asked = len(fake.asked) - n0
                hist.append((now[0], how, "downloads", asked))
                due = last is None or now[0] >= last + 600
                if asked > (1 if how == "update" and due else 0):
                    return {"what": "explanations are downloaded too often" if how == "update" else "explanations are downloaded although the updates are disabled", **ctx}
                if how == "update" and due:
                    if not asked:
                        return {"what": "explanations are not downloaded although the last time is long ago", **ctx}
                    last = now[0]
                after = open(on).read() if os.path.exists(on) else None
                if after != before and after != toml(doc):
                    return {"what": "the downloaded file is not what was downloaded", **ctx}
            record(ctx)


Bounded("updates of explanations", ["E01"], updates, n=(600, 6000), secs=(25, 200), text="histories of up to four updates with generated answers")
