"""Contracts on the check for newer versions (edulint/versions) and on
explanations (edulint/explanations.py, edulint/edulint.py)."""
import contextlib
import dbm
import io
import json
import os
import random
import tempfile
from pathlib import Path
from unittest.mock import patch
import requests
import tomli
import z3
import edulint.edulint as E
import edulint.explanations as X
from edulint.versions import pypi_helper, version_checker as VC
from edulint.versions.utils import Version
from edulint.versions.version_checker import PackageInfo, PackageInfoManager
from packaging.version import InvalidVersion
from pyded.job import contract
from pyded.interp import AnyExc
from pyded.prims import EXTERNALS, EXT_ATTR, opaque, TH
from pyded.values import Con, Sym, TExc
from pyded.world import STAMPS, NET, bytes_of, everywhere, world, where, JSON_OK
from .types import *
from .files import Table, reply, DISK, DISK_G, TOML, OTOML, readable, toml, located

# ------------------------------------------------------------------ versions
VERSION = OpaqueT("version")
VLAB = "packaging.version.Version"
VTEXT = "Version(text) raises InvalidVersion or returns a value determined by the text, whose major, minor and micro are numbers and whose str() is not empty"


def _version(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("Version arguments")
    TH.trust(VLAB, VTEXT)
    t = I.str_term(args[0])
    if not I.branch(TH.uf("is a version", [STR], BOOL)(t)):
        raise TExc(InvalidVersion)
    return Sym(VERSION, TH.uf("version of", [STR], VERSION)(t))


def _vstr(I, s, args, kwargs):
    t = TH.uf("text of version", [VERSION], STR)(s.t)
    I.assume_once(t != z3.StringVal(""))
    return Sym(STR, t)


EXTERNALS[id(Version)] = (Version, _version, "Version")
VERSION.methods["__str__"] = _vstr
for _n in ("major", "minor", "micro"):
    EXT_ATTR[("version", _n)] = (lambda n: lambda I, s: Sym(INT, TH.uf(f"version {n}", [VERSION], INT)(s.t)))(_n)

BUILD = DictT(STR, BOOL)
RELEASES = DictT(STR, ListT(BUILD))
INDEX = DictT(STR, RELEASES)


def parsed(text):
    try:
        return Version(text)
    except InvalidVersion:
        return None


def withdrawn(builds):
    return any(b["yanked"] if "yanked" in b else False for b in builds)


def released(releases):
    """the versions with files, none of them withdrawn"""
    return [parsed(v) for v in releases.keys() if len(releases[v]) > 0 and not withdrawn(releases[v]) and parsed(v) is not None]


contract("edulint.versions.pypi_helper:_fully_released_versions", props=["V01"], params={"data": INDEX},
         requires=lambda data: "releases" in data, spec=lambda data: released(data["releases"]),
         eqv=lambda a, b: [str(x) for x in a] == [str(x) for x in b],
         pools={"data.key": ["releases"], "data[].key": ["1.0", "1.2.3", "x", "2.0rc1", ""], "data[][][].key": ["yanked", "size"]})

# -------------------------------------------------------------- explanations
EXPL = DictT(STR, STR)
EXPLS = DictT(STR, EXPL)
OEXPLS = T.opt(EXPLS)


@contextlib.contextmanager
def explained(kw):
    table = kw.pop("explanations", None)
    with patch.object(E, "get_explanations", lambda *a, **k: table):
        yield


def with_explanations(fn, kw):
    kw = dict(kw)
    with explained(kw):
        return fn(**kw)


def explained_ones(ids, explanations):
    return {m: explanations[m] for m in ids if m in explanations}


contract("edulint.edulint:get_message_explanations", props=["E01"], params={"message_ids": T.opt(ListT(STR)), "disable_explanations_update": BOOL}, ghost={"explanations": EXPLS},
         hooks={E.get_explanations: lambda I, args, kwargs: world(I, "explanations")},
         spec=lambda message_ids, explanations: explained_ones(list(explanations) if message_ids is None else message_ids, explanations),
         run=with_explanations, pools={"message_ids[]": ["a", "b", "R1714", ""], "explanations.key": ["a", "R1714", "x"]})


# where the explanations come from
DOWNLOADED = X.EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH
PACKAGED = X.EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH
assert where(DOWNLOADED) == DOWNLOADED and where(PACKAGED) == PACKAGED


@contextlib.contextmanager
def explanation_files(kw):
    """a folder of its own holds the ghost files"""
    disk, broken = kw.pop("disk"), kw.pop("broken")
    with tempfile.TemporaryDirectory() as root:
        real = {DOWNLOADED: os.path.join(root, "d.toml"), PACKAGED: os.path.join(root, "p.toml")}
        for p, t in disk.items():
            if p in real:
                with open(real[p], "wb") as f:
                    f.write(b"\xff" if p in broken else t.encode())
        with patch.object(X, "EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH", real[DOWNLOADED]), patch.object(X, "EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH", real[PACKAGED]), \
                patch.object(X, "update_explanations", lambda *a, **k: None):
            yield


def with_files(fn, kw):
    kw = dict(kw)
    with explanation_files(kw):
        return fn(**kw)


def gen_files(*names):
    def gen(rng):
        disk = {p: rng.choice(["", "a = 1\n", "[a]\nwhy = 'é'\n", "[", "# x\n"]) for p in (DOWNLOADED, PACKAGED) if rng.random() < .8}
        env = {"disk": disk, "broken": {p for p in disk if rng.random() < .2}, "disable_explanations_update": rng.random() < .5}
        return {n: env[n] for n in names}
    return gen


def readable_toml(disk, broken, path):
    return toml(disk[where(path)]) if readable(disk, broken, where(path)) else None


contract("edulint.explanations:_load_updated_explanations", props=["E01"], params={}, ghost=DISK_G,
         spec=lambda disk, broken: readable_toml(disk, broken, DOWNLOADED), run=with_files, gen=gen_files("disk", "broken"))
contract("edulint.explanations:get_explanations", props=["E01"], params={"disable_explanations_update": BOOL}, ghost=DISK_G, hooks={X.update_explanations: lambda I, args, kwargs: Con(None)},
         requires=lambda disk, broken: readable_toml(disk, broken, PACKAGED) is not None,
         spec=lambda disk, broken: readable_toml(disk, broken, DOWNLOADED) or readable_toml(disk, broken, PACKAGED), run=with_files, gen=gen_files("disable_explanations_update", "disk", "broken"))


# ------------------------------------------------------- update of explanations
def last_attempt(stamps):
    """when an update was attempted last; None if that cannot be told"""
    if "last_update" not in stamps:
        return 0
    try:
        return int(stamps["last_update"])
    except ValueError:
        return None


def recently(stamps, ttl, now):
    last = last_attempt(stamps)
    return last is None or now < last + ttl


UPDATE = {"disk": DISK, "broken": SetT(STR), "storage_ok": BOOL, "now": INT, "requests": ListT(STR), "net": NET, "stamps": STAMPS}


def an_answer(net, url):
    return net(url)


def _randint(I, args, kwargs):
    """any number within the bounds"""
    if len(args) != 2 or kwargs:
        raise Unsupported("randint arguments")
    a, b = [I.lift(I.deref(x)).t for x in args]
    if not I.branch(a <= b):
        raise TExc(ValueError)
    r = I.fresh(INT, "random")
    I.assume(z3.And(a <= r.t, r.t <= b))
    return r


EXTERNALS[id(random.randint)] = (random.randint, _randint, "random.randint")
URL = X.GITHUB_URL
def with_update(fn, kw):
    """a real database and a real file"""
    kw = dict(kw)
    disk, stamps, asked, net, now = [kw.pop(k) for k in ("disk", "stamps", "requests", "net", "now")]
    kw.pop("broken"), kw.pop("storage_ok")

    def get(url, *a, **k):
        asked.append(url)
        r = net(url)
        if r is None:
            raise requests.exceptions.ConnectionError("unreachable")
        return r
    with tempfile.TemporaryDirectory() as root:
        base, real = os.path.join(root, "e.dbm"), os.path.join(root, "d.toml")
        with dbm.open(base, "c") as db:
            for k, v in stamps.items():
                db[k] = v
        if DOWNLOADED in disk:
            with open(real, "w", encoding="utf8") as f:
                f.write(disk[DOWNLOADED])
        with patch.object(X, "EXPLANATIONS_DBM", base), patch.object(X, "EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH", real), patch("time.time", lambda: now + .5), patch("time.sleep", lambda s: None), patch("requests.get", get):
            fn(**kw)
        with dbm.open(base, "r") as db:
            stamps.clear()
            stamps.update({k.decode(): db[k] for k in db.keys()})
        if os.path.exists(real):
            with open(real, encoding="utf8") as f:
                disk[DOWNLOADED] = f.read()


def gen_update(rng):
    return {"ttl": rng.choice([600, 600, 0, 1]), "disk": {DOWNLOADED: "old"} if rng.random() < .5 else {}, "broken": set(), "storage_ok": True, "now": 1000, "requests": [], "net": Table({URL: rng.choice([None, reply(200, "new"), reply(404, "no"), reply(200, "")])}),
            "stamps": rng.choice([{}, {"last_update": b"1000"}, {"last_update": b"400"}, {"last_update": b"401"}, {"last_update": b"x"}, {"last_update": b"0"}])}


contract("edulint.explanations:_thread_update_explanations", props=["E01"], params={"ttl": INT}, ghost=UPDATE, modifies={"disk": None, "requests": None, "stamps": None}, run=with_update, gen=gen_update,
         ensures=[("nothing happens if there was an attempt recently", lambda ttl, now, stamps, new_stamps, requests, new_requests, disk, new_disk: not recently(stamps, ttl, now) or new_requests == requests and new_disk == disk and new_stamps == stamps),
                  ("at most one request", lambda requests, new_requests: new_requests == requests or new_requests == requests + [URL]),
                  ("every attempt is recorded before it is made", lambda requests, new_requests, now, new_stamps: new_requests == requests or last_attempt(new_stamps) == now),
                  ("an attempt is made when due", lambda ttl, now, stamps, requests, new_requests, storage_ok: recently(stamps, ttl, now) or not storage_ok or new_requests == requests + [URL]),
                  ("a successful answer is stored whole", lambda requests, new_requests, storage_ok, net, new_disk: new_requests == requests or not storage_ok or an_answer(net, URL) is None or an_answer(net, URL).status_code != 200 or new_disk[where(DOWNLOADED)] == an_answer(net, URL).text),
                  ("without a successful answer nothing is stored", lambda requests, new_requests, net, disk, new_disk: new_requests != requests and an_answer(net, URL) is not None and an_answer(net, URL).status_code == 200 or new_disk == disk),
                  ("other files are untouched", lambda disk, new_disk: everywhere(new_disk, lambda p: p == where(DOWNLOADED) or (p in new_disk) == (p in disk) and (p not in disk or new_disk[p] == disk[p])))])


class Started:
    """stands for Thread"""

    def __init__(self, log, target=None, **kw):
        self.log = log

    def start(self):
        self.log.append("started")


def counting(module):
    def run(fn, kw):
        kw = dict(kw)
        log = kw.pop("threads")
        with patch.object(module, "Thread", lambda **k: Started(log, **k)):
            return fn(**kw)
    return run


THREADS = {"threads": ListT(STR)}
contract("edulint.explanations:update_explanations", props=["E01"], params={"disable_explanations_update": BOOL}, ghost=THREADS,
         modifies={"threads": lambda disable_explanations_update, threads: threads if disable_explanations_update else threads + ["started"]}, run=counting(X))
contract("edulint.edulint:check_for_updates", props=["V01"], params={"is_check_disabled": BOOL}, ghost=THREADS,
         modifies={"threads": lambda is_check_disabled, threads: threads if is_check_disabled else threads + ["started"]}, run=counting(E))

# ----------------------------------------------- saved versions of packages
import platformdirs
from pyded.world import loads, _load

INFO = register_rec(RecT(PackageInfo, {"version": OSTR, "last_update_started": INT}))
FINFO = RecT(PackageInfo, {"version": OSTR, "last_update_started": INT}, frozen=True, name="SavedInfo")
OINFO = T.opt(FINFO)
DIRS = OpaqueT("platform dirs")
JDICT = DictT(STR, DYN)
EXTERNALS[id(platformdirs.PlatformDirs)] = (platformdirs.PlatformDirs, lambda I, args, kwargs: Sym(DIRS, TH.uf("platform dirs", [STR], DIRS)(I.str_term(kwargs["appname"]))), "PlatformDirs")
EXT_ATTR[("platform dirs", "user_data_dir")] = lambda I, s: Sym(STR, TH.uf("user_data_dir", [DIRS], STR)(s.t))
ILAB = "dataclasses_json of PackageInfo"
ITEXT = "from_dict(value) raises an Exception or returns an object determined by the value whose fields have the declared types; an empty dictionary gives the default object, and the dictionary made by to_dict gives back the object"


def saved_info(value):
    """the object a JSON value stands for; None if from_dict fails"""
    try:
        return PackageInfo.from_dict(value)
    except Exception:
        return None


def info_term(I, v):
    TH.trust(ILAB, ITEXT)
    t = TH.uf("saved info", [DYN], OINFO)(v)
    D = JDICT.empty()
    e = TH.uf("saved info", [DYN], OINFO)(I.coerce(Sym(JDICT, D), DYN))
    I.assume_once(e == I.coerce(Sym(FINFO, FINFO.make(I.coerce(I.lift(Con(None)), OSTR), z3.IntVal(0))), OINFO))
    return t


def as_dyn(I, v):
    s = I.lift(I.deref(v))
    if isinstance(s.ty, DictT) and s.ty != JDICT and (isinstance(s.ty.k, UnknownT) or z3.eq(z3.simplify(s.t), z3.simplify(s.ty.empty()))):
        s = Sym(JDICT, JDICT.empty())
    return I.coerce(s, DYN)


def _saved(I, args, kwargs):
    return Sym(OINFO, info_term(I, as_dyn(I, args[0])))


EXTERNALS[id(saved_info)] = (saved_info, _saved, "saved_info")


def _from_dict(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("from_dict arguments")
    t = info_term(I, as_dyn(I, args[0]))
    i = OINFO.alts.index(FINFO)
    if not I.branch(OINFO.is_(i, t)):
        raise TExc(AnyExc)
    p = OINFO.proj(i, t)
    return I.call(Con(PackageInfo), [Sym(OSTR, FINFO.get(p, "version")), Sym(INT, FINFO.get(p, "last_update_started"))], {})


def _to_dict(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("to_dict arguments")
    f = {n: I.lift(I.deref(I.attr(args[0], n))) for n in ("version", "last_update_started")}
    p = FINFO.make(I.coerce(f["version"], OSTR), I.coerce(f["last_update_started"], INT))
    r = TH.uf("dictionary of info", [FINFO], JDICT)(p)
    I.assume_once(info_term(I, I.coerce(Sym(JDICT, r), DYN)) == I.coerce(Sym(FINFO, p), OINFO))
    return Sym(JDICT, r)


def _load_dict(I, args, kwargs):
    """dictionaries are mutable objects of their own"""
    r = _load(I, args, kwargs)
    i = DYN.alts.index(JDICT)
    return I.thaw(Sym(JDICT, DYN.proj(i, r.t))) if I.branch(DYN.is_(i, r.t)) else r


STORE_HOOKS = {PackageInfo.from_dict: _from_dict, PackageInfo.to_dict: _to_dict, json.load: _load_dict}


def versions_file():
    """where the versions are saved"""
    return os.path.join(platformdirs.PlatformDirs(appname="edulint").user_data_dir, "versions.json")


def file_or_nothing(disk):
    return os.path.exists(versions_file()) == (where(versions_file()) in disk)


def is_file_or_nothing(disk):
    """where the versions are saved there is no folder (concretely they are in a folder of their own)"""
    return True


EXTERNALS[id(is_file_or_nothing)] = (is_file_or_nothing, lambda I, args, kwargs: I.call(Con(file_or_nothing), args, {}), "is_file_or_nothing")


def with_versions(fn, kw):
    """a real file in a folder of its own"""
    kw = dict(kw)
    disk, broken = kw.pop("disk"), kw.pop("broken")
    kw.pop("storage_ok")
    cls = [kw.pop("cls")]
    now, asked, index, installed = [kw.pop(k, None) for k in ("now", "requests", "index", "installed")]
    key = where(versions_file())

    def get_versions(name):
        asked.append(name)
        if index is None:
            raise requests.exceptions.ConnectionError("unreachable")
        return list(index)
    with tempfile.TemporaryDirectory() as root:
        real = os.path.join(root, "edulint", "versions.json")
        if key in disk:
            os.mkdir(os.path.dirname(real))
            with open(real, "wb") as f:
                f.write(b"\xff" if key in broken else disk[key].encode())
        with patch.object(VC, "PlatformDirs", lambda appname: type("D", (), {"user_data_dir": os.path.join(root, appname)})()), patch("time.time", lambda: now + .5), \
                patch.object(pypi_helper, "get_versions", get_versions), patch.object(PackageInfoManager, "get_local_module_version", staticmethod(lambda n: installed)):
            try:
                return fn(*cls, **kw)
            finally:
                if os.path.exists(real) and key not in broken:
                    with open(real, encoding="utf8") as f:
                        disk[key] = f.read()


def gen_versions(*names):
    def gen(rng):
        doc = {n: rng.choice([{"version": "1.0.0", "last_update_started": rng.choice([0, 400, 401, 1000, 2000])}, {}, {"version": None}, {"version": ""}]) for n in ("edulint", "other") if rng.random() < .7}
        text = rng.choice([json.dumps(doc)] * 5 + ["", "[]", "{", "{\"edulint\": 3}", "null", "[{}]"])
        disk = {where(versions_file()): text} if rng.random() < .8 else {}
        env = {"cls": PackageInfoManager, "package_name": rng.choice(["edulint", "edulint", "x"]), "disk": disk, "broken": {p for p in disk if rng.random() < .1}, "storage_ok": True, "version": rng.choice([None, "", "2.0"]), "last_update_started": rng.choice([None, 0, 1000]),
               "ttl": rng.choice([600, 0, 1]), "now": 1000, "requests": [], "index": None if rng.random() < .2 else [Version(rng.choice(["1.0.0", "1.0", "1.0.1", "1.10.0", "1.9.9", "2.0rc1", "2.0.dev1"])) for _ in range(rng.randint(0, 4))], "installed": rng.choice([None, "1.0.0", "1.10.0", "x"])}
        return {n: env[n] for n in names}
    return gen


@opaque({"disk": DISK, "broken": SetT(STR), "package_name": STR}, OINFO)
def info(disk, broken, package_name):
    """what is known about the package; None if the file is damaged"""
    p = where(versions_file())
    if p in broken:
        return None
    if p not in disk:
        return saved_info({})
    try:
        data = json.loads(disk[p])
    except Exception:
        return None
    if not isinstance(data, dict):
        return None
    return saved_info(data[package_name]) if package_name in data else saved_info({})


FILES_G = {"disk": DISK, "broken": SetT(STR), "storage_ok": BOOL}
THERE = ("the file is not removed", lambda disk, new_disk: where(versions_file()) in new_disk or where(versions_file()) not in disk)
EXISTS = ("the file is there", lambda new_disk: where(versions_file()) in new_disk)
REST = ("other files are untouched", lambda disk, new_disk: everywhere(new_disk, lambda p: p == where(versions_file()) or (p in new_disk) == (p in disk) and (p not in disk or new_disk[p] == disk[p])))
MANAGER = PackageInfoManager
contract("edulint.versions.version_checker:PackageInfoManager._get_package_info_locally", props=["V01"], params={"cls": Con(MANAGER), "package_name": STR}, ghost=FILES_G, hooks=STORE_HOOKS, reveal=[info],
         requires=lambda disk: is_file_or_nothing(disk), run=with_versions, gen=gen_versions("cls", "package_name", *FILES_G), modifies={"disk": None}, ret=INFO,
         may_raise={Exception: lambda package_name, disk, broken, storage_ok: info(disk, broken, package_name) is None or not storage_ok},
         ensures=[("the saved information", lambda package_name, disk, broken, result: info(disk, broken, package_name) is not None and result.version == info(disk, broken, package_name).version and result.last_update_started == info(disk, broken, package_name).last_update_started),
                  ("it stays saved", lambda package_name, disk, broken, new_disk: info(new_disk, broken, package_name) == info(disk, broken, package_name)), REST, EXISTS],
         ensures_exc=[REST, THERE])


def updated(old, version, started):
    return (version if version else old.version, started if started else old.last_update_started)


def fields(i):
    return (i.version, i.last_update_started)


contract("edulint.versions.version_checker:PackageInfoManager._save_package_info_locally", props=["V01"], params={"cls": Con(MANAGER), "package_name": STR, "version": OSTR, "last_update_started": T.opt(INT)}, ghost=FILES_G, hooks=STORE_HOOKS, reveal=[info],
         requires=lambda disk: is_file_or_nothing(disk), run=with_versions, gen=gen_versions("cls", "package_name", "version", "last_update_started", *FILES_G), modifies={"disk": None}, ret=INFO,
         may_raise={Exception: lambda package_name, disk, broken, storage_ok: info(disk, broken, package_name) is None or not storage_ok},
         ensures=[("what is given is saved, the rest stays", lambda package_name, version, last_update_started, disk, broken, storage_ok, new_disk:
                   info(disk, broken, package_name) is not None and info(new_disk, broken, package_name) is not None and fields(info(new_disk, broken, package_name)) == updated(info(disk, broken, package_name), version, last_update_started)), REST, EXISTS],
         ensures_exc=[("what was saved stays saved unless the storage fails", lambda package_name, disk, broken, storage_ok, new_disk: not storage_ok or info(new_disk, broken, package_name) == info(disk, broken, package_name)), REST, THERE])


OVERSIONS = T.opt(ListT(VERSION))


def _get_versions(I, args, kwargs):
    """one request; a list of versions or an Exception"""
    if len(args) != 1 or kwargs:
        raise Unsupported("get_versions arguments")
    I.call_method(world(I, "requests"), "append", [I.deref(args[0])], {})
    v = I.lift(I.deref(world(I, "index")))
    i = OVERSIONS.alts.index(ListT(VERSION))
    if not I.branch(OVERSIONS.is_(i, v.t)):
        raise TExc(AnyExc)
    return I.thaw(Sym(ListT(VERSION), OVERSIONS.proj(i, v.t)))


def newest(versions):
    """the greatest by major, minor and micro number"""
    return str(sorted(versions, key=lambda x: (x.major, x.minor, x.micro))[-1])


@opaque({"index": OVERSIONS}, OSTR)
def announced(index):
    return None if index is None or len(index) == 0 else newest(index)


def due(disk, broken, package_name, ttl, now):
    return now >= info(disk, broken, package_name).last_update_started + ttl


CHECK_G = {**FILES_G, "now": INT, "requests": ListT(STR), "index": OVERSIONS}
CHECKED = [("the index is asked only when due", lambda package_name, ttl, disk, broken, now, requests, new_requests: new_requests == requests or new_requests == requests + [package_name] and due(disk, broken, package_name, ttl, now)),
           ("every request is recorded", lambda package_name, disk, broken, storage_ok, now, requests, new_requests, new_disk: new_requests == requests or not storage_ok or info(new_disk, broken, package_name) is not None and info(new_disk, broken, package_name).last_update_started == now),
           REST]
contract("edulint.versions.version_checker:PackageInfoManager.get_latest_version", props=["V01"], params={"cls": Con(MANAGER), "package_name": STR, "ttl": INT}, ghost=CHECK_G, hooks={pypi_helper.get_versions: _get_versions}, reveal=[announced],
         requires=lambda disk, now: is_file_or_nothing(disk) and now > 0, run=with_versions, gen=gen_versions("cls", "package_name", "ttl", *CHECK_G), modifies={"disk": None, "requests": None}, ret=OSTR,
         may_raise={Exception: lambda package_name, disk, broken, storage_ok: info(disk, broken, package_name) is None or not storage_ok},
         ensures=[("the saved version if it was asked for recently", lambda package_name, ttl, disk, broken, now, result, requests, new_requests: info(disk, broken, package_name) is not None and (due(disk, broken, package_name, ttl, now) or result == info(disk, broken, package_name).version and new_requests == requests)),
                  ("otherwise the index is asked", lambda package_name, ttl, disk, broken, storage_ok, now, requests, new_requests: not storage_ok or not due(disk, broken, package_name, ttl, now) or new_requests == requests + [package_name]),
                  ("and its newest version is the result", lambda package_name, ttl, disk, broken, storage_ok, now, index, result: not storage_ok or not due(disk, broken, package_name, ttl, now) or result == announced(index)),
                  ("and saved", lambda package_name, ttl, disk, broken, storage_ok, now, index, new_disk: not storage_ok or not due(disk, broken, package_name, ttl, now) or info(new_disk, broken, package_name) is not None and info(new_disk, broken, package_name).version == (announced(index) if announced(index) is not None else info(disk, broken, package_name).version))] + CHECKED,
         ensures_exc=[("no request", lambda requests, new_requests: new_requests == requests), REST])


def current(disk, broken, package_name, ttl, now, index):
    """the newest version as far as it is known"""
    return announced(index) if due(disk, broken, package_name, ttl, now) else info(disk, broken, package_name).version


contract("edulint.versions.version_checker:PackageInfoManager.is_update_waiting", props=["V01"], params={"cls": Con(MANAGER), "package_name": STR, "ttl": INT}, ghost={**CHECK_G, "installed": OSTR},
         hooks={PackageInfoManager.get_local_module_version: lambda I, args, kwargs: I.lift(I.deref(world(I, "installed")))},
         requires=lambda disk, now: is_file_or_nothing(disk) and now > 0, run=with_versions, gen=gen_versions("cls", "package_name", "ttl", *CHECK_G, "installed"), modifies={"disk": None, "requests": None}, ret=BOOL,
         may_raise={Exception: lambda package_name, disk, broken, storage_ok: info(disk, broken, package_name) is None or not storage_ok},
         ensures=[("no update without two different known versions", lambda installed, package_name, ttl, disk, broken, storage_ok, now, index, result:
                   not storage_ok or result == (installed is not None and current(disk, broken, package_name, ttl, now, index) is not None and installed != current(disk, broken, package_name, ttl, now, index))),
                  ("nothing is asked if the installed version is unknown", lambda installed, requests, new_requests, result: installed is not None or not result and new_requests == requests)] + CHECKED)


def _pypi(I, args, kwargs):
    """one request; the answer is a document or an Exception"""
    if len(args) != 1 or set(kwargs) - {"timeout"}:
        raise Unsupported("requests.get arguments")
    I.call_method(world(I, "requests"), "append", [I.deref(args[0])], {})
    if not I.branch(I.lift(I.deref(world(I, "online"))).t):
        raise TExc(requests.exceptions.RequestException)
    return I.fresh(PYPI, "response")


PYPI = OpaqueT("answer of the index")
PYPI.methods["json"] = lambda I, s, args, kwargs: world(I, "document")


def with_pypi(fn, kw):
    kw = dict(kw)
    asked, document, online = kw.pop("requests"), kw.pop("document"), kw.pop("online")

    def get(url, *a, **k):
        asked.append(url)
        if not online:
            raise requests.exceptions.ConnectionError("unreachable")
        return type("R", (), {"json": lambda self: document})()
    with patch("requests.get", get):
        return fn(**kw)


contract("edulint.versions.pypi_helper:get_versions", props=["V01"], params={"package_name": STR}, ghost={"requests": ListT(STR), "document": INDEX, "online": BOOL}, hooks={requests.get: _pypi},
         requires=lambda document: "releases" in document,
         modifies={"requests": lambda requests, package_name: requests + [f"https://pypi.org/pypi/{package_name}/json"]},
         spec=lambda package_name, document: [v for v in released(document["releases"]) if v.major >= 3] if package_name == "pylint" else released(document["releases"]),
         raises={requests.exceptions.RequestException: lambda online: not online}, run=with_pypi, eqv=lambda a, b: [str(x) for x in a] == [str(x) for x in b],
         pools={"package_name": ["edulint", "pylint", ""], "document.key": ["releases"], "document[].key": ["1.0", "3.2.3", "x", "4.0rc1", ""], "document[][][].key": ["yanked", "size"]})
