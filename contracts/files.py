"""Contracts on access to configuration files (edulint/config/file_config.py)."""
import contextlib
import hashlib
import json
import io
import os
import tempfile
from pathlib import Path
from unittest.mock import patch
import requests
import tomli
import edulint.config.file_config as F
from edulint.config.file_config import ConfigFileType, ConfigFileAccessMethodNotAllowedException, CachedHTTPGet
from pyded.job import contract, GHOST_GLOBALS
from pyded.paths import PATH
import z3
from pyded.interp import AnyExc
from pyded.prims import EXTERNALS, opaque, pure_ext, TH
from pyded.values import Con, Sym, TExc
from pyded.world import FILE_B, content, path_of, DISK, NET, RESPONSE, where, world, is_tempdir, is_temp, path_str, temp, everywhere
from .types import *
from .templates import *

GHOST_GLOBALS[("edulint.config.file_config", "ALLOW_UNRESTRICTED_LOCAL_PATHS")] = "local_allowed"
GHOST_GLOBALS[("edulint.config.file_config", "ALLOW_HTTP_S_PATHS")] = "remote_allowed"
CTYPE = enum_of(ConfigFileType)
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
URIS = ["http://a/x.toml", "https://b", "http:/a", "HTTP://a", "default", "a-b_C9", "", "x.toml", "./x", "/tmp/x.toml", "a b", "é", "x\n", "ftp://a", "../x.toml", "httpx", "https:"]


def plain(name):
    return all(c in LETTERS for c in name)


def kind(name):
    """how a configuration of this name is accessed"""
    if name.startswith("http://") or name.startswith("https://"):
        return ConfigFileType.REMOTE
    return ConfigFileType.PACKAGED if plain(name) else ConfigFileType.LOCAL


contract("edulint.config.file_config:_only_acceptable_chars", props=["C04"], params={"filepath": STR}, spec=lambda filepath: plain(filepath), pools={"filepath": URIS})
contract("edulint.config.file_config:get_config_type", props=["C04"], params={"path_or_url": STR}, spec=lambda path_or_url: kind(path_or_url), pools={"path_or_url": URIS})
contract("edulint.config.file_config:get_path_relative_to", props=["C04"], params={"filepath": STR, "parent_filepath": STR},
         requires=lambda filepath, parent_filepath: not os.path.isdir(parent_filepath),
         spec=lambda filepath, parent_filepath: filepath if kind(filepath) != ConfigFileType.LOCAL or os.path.isabs(filepath) else os.path.abspath(os.path.join(os.path.dirname(parent_filepath), filepath)),
         pools={"filepath": URIS, "parent_filepath": ["c.toml", "/x/y/c.toml", "a/../b/c.toml", "default", "http://h/c.toml"]})

# ------------------------------------------------------------------ loading
PACKAGED_FILES = os.path.join(os.path.dirname(F.__file__), "files")
DISK_G = {"disk": DISK, "broken": SetT(STR)}
POLICY = {"local_allowed": BOOL, "remote_allowed": BOOL}
NETWORK = {"requests": ListT(STR), "net": NET}


@contextlib.contextmanager
def files(disk, broken, local_allowed=True, remote_allowed=True):
    """the file system is the ghost disk (for reading)"""
    def opened(path, mode="r", *a, **k):
        p = where(os.fspath(path))
        if mode not in ("r", "rt") or p not in disk:
            raise FileNotFoundError(p)
        if p in broken:
            raise PermissionError(p)
        return io.StringIO(disk[p])
    with patch("builtins.open", opened), patch.object(Path, "exists", lambda self: where(str(self)) in disk), patch.object(Path, "is_file", lambda self: where(str(self)) in disk), \
            patch.object(F, "ALLOW_UNRESTRICTED_LOCAL_PATHS", local_allowed), patch.object(F, "ALLOW_HTTP_S_PATHS", remote_allowed):
        yield


def in_world(fn, kw):
    kw = dict(kw)
    with files(kw.pop("disk", {}), kw.pop("broken", set()), kw.pop("local_allowed", True), kw.pop("remote_allowed", True)):
        return fn(**kw)


def readable(disk, broken, path):
    return path in disk and path not in broken


FILE_NAMES = ["a.toml", "./d/b.toml", "x y", "c", "d/../c"] + [os.path.join(PACKAGED_FILES, n + ".toml") for n in ("c", "default", "")]
DISK_POOLS = {"disk.key": [where(n) for n in FILE_NAMES], "broken[]": ["c", "a.toml"], "disk[]": ["a = 1\n", "", "é"], "filepath": FILE_NAMES + ["", "."], "path_or_url": FILE_NAMES + ["http://a", "nonexistent"]}

contract("edulint.config.file_config:_load_local_config_file", props=["C04", "C07"], params={"filepath": STR, "passed_name": STR, "message": STR, "is_path_safe": BOOL}, ghost={**DISK_G, "local_allowed": BOOL},
         spec=lambda disk, filepath: disk[where(filepath)],
         raises={ConfigFileAccessMethodNotAllowedException: lambda is_path_safe, local_allowed: not is_path_safe and not local_allowed,
                 FileNotFoundError: lambda filepath, is_path_safe, local_allowed, disk: (is_path_safe or local_allowed) and where(filepath) not in disk,
                 Exception: lambda filepath, is_path_safe, local_allowed, disk, broken: (is_path_safe or local_allowed) and where(filepath) in disk and where(filepath) in broken},
         run=in_world, pools=DISK_POOLS)


def packaged(name):
    return where(os.path.join(PACKAGED_FILES, name + ".toml"))


contract("edulint.config.file_config:_load_packaged_config_file", props=["C04"], params={"filename": STR}, ghost={**DISK_G, "local_allowed": BOOL},
         requires=lambda filename: plain(filename),
         spec=lambda disk, filename: disk[packaged(filename)],
         raises={FileNotFoundError: lambda filename, disk: packaged(filename) not in disk, Exception: lambda filename, disk, broken: packaged(filename) in disk and packaged(filename) in broken},
         run=in_world, pools={**DISK_POOLS, "filename": ["c", "default", "", "x", "a-b_C9"]})


# ------------------------------------------------------------------- cache
CACHE_FOLDER = PATH
CACHED = {**DISK_G, "now": INT, "folder_ok": BOOL}


def cache_folder():
    """the folder of cached configurations"""
    return Path("/cache")


pure_ext(cache_folder, "cache folder", [], PATH, "the folder of cached configurations is fixed")


def _folder(I, args, kwargs):
    """it is created on demand, which may fail"""
    TH.trust("assumed: the cache folder", "_get_edulint_cache_folder_location always names the same folder, which is no temporary one, or raises an Exception")
    if not I.branch(I.lift(world(I, "folder_ok")).t):
        raise TExc(AnyExc)
    r = EXTERNALS[id(cache_folder)][1](I, [], {})
    I.assume_once(z3.Not(is_tempdir(path_str(I, r))))
    return r


HOOKS = {CachedHTTPGet.__dict__["_get_edulint_cache_folder_location"].__func__: _folder} if "_get_edulint_cache_folder_location" in CachedHTTPGet.__dict__ else {}


def content_file(url):
    return cache_folder() / (hashlib.sha256(url.encode(errors="replace")).hexdigest() + ".toml")


def metadata_file(url):
    p = content_file(url)
    return p.with_suffix(p.suffix + ".metadata")


# concrete runs: the cache in a folder of its own, a fixed clock, answers from a table
DEFAULT = where(os.path.join(PACKAGED_FILES, "default.toml"))
DEFAULT_TEXT = open(DEFAULT, encoding="utf8").read() if os.path.exists(DEFAULT) else ""
URLS = ["http://a/x.toml", "https://b", "https://b/é\udc80"]


def cache_state(rng, urls):
    """some contents of the cache for some of the addresses"""
    disk = {}
    for u in urls:
        if rng.random() < .7:
            disk[where(str(content_file(u)))] = rng.choice(["", "a = 1\n", "é", "old"])
        if rng.random() < .75:
            t = rng.choice([0, 1000, 1000 - 299, 1000 - 300, 1000 - 301, 5000])
            disk[where(str(metadata_file(u)))] = rng.choice([json.dumps({"timestamp": t, "source": u}, indent=4)] * 4 + ["", "{", "[]", "{}", "3", "null", json.dumps({"timestamp": "x"}), json.dumps({"timestamp": None}), json.dumps({"timestamp": float(t)})])
    broken = {p for p in disk if rng.random() < .07}
    disk[DEFAULT] = DEFAULT_TEXT
    return disk, broken


class Table:
    """answers of the network"""

    def __init__(self, table):
        self.table = table

    def __call__(self, url):
        return self.table[url]

    def __repr__(self):
        return repr({u: r and (r.status_code, r.text) for u, r in self.table.items()})


def reply(status, text):
    r = requests.Response()
    r.status_code, r._content, r.encoding = status, text.encode(), "utf8"
    return r


def gen_cache(*names, **more):
    def gen(rng):
        url = rng.choice(URLS)
        disk, broken = cache_state(rng, URLS)
        env = {"cls": CachedHTTPGet, "source": url, "url": url, "content": rng.choice(["", "new", "b = 'é'\n"]), "path": content_file(url),
               "max_age_in_seconds": rng.choice([0, 1, 299, 300, 301, 10**6, -5]), "max_cache_time": rng.choice([0, 300, 301, 1000]), "max_cache_time_when_offline": rng.choice([0, 300, 10**6]),
               "disk": disk, "broken": broken, "folder_ok": rng.random() < .9, "now": 1000, "storage_ok": True, "local_allowed": rng.random() < .5, "remote_allowed": rng.random() < .7, "requests": [],
               "net": Table({u: rng.choice([None, reply(200, "new"), reply(200, ""), reply(404, "no"), reply(500, "")]) for u in URLS})}
        env.update({k: v(rng) for k, v in more.items()})
        return {n: env[n] for n in names}
    return gen


def in_cache(fn, kw):
    """runs the real function; the ghosts are written to and read from a real folder"""
    kw = dict(kw)
    disk, broken, folder_ok, now = [kw.pop(k) for k in ("disk", "broken", "folder_ok", "now")]
    asked, net, local, remote = [kw.pop(k, None) for k in ("requests", "net", "local_allowed", "remote_allowed")]
    kw.pop("storage_ok", None)
    cls = [kw.pop("cls")] if "cls" in kw else []
    def get(url, *a, **k):
        asked.append(url)
        r = net(url)
        if r is None:
            raise requests.exceptions.ConnectionError("unreachable")
        return r
    with tempfile.TemporaryDirectory() as root:
        data = os.path.join(root, "data")
        folder = os.path.join(data, "edulint")
        real = lambda p: os.path.join(folder, os.path.relpath(p, "/cache"))
        if folder_ok:
            os.makedirs(folder)
            for p, t in disk.items():
                if p.startswith("/cache/"):
                    with open(real(p), "wb") as f:
                        f.write(b"\xff" if p in broken else t.encode(errors="replace"))
        else:
            with open(data, "w") as f:
                f.write("a file instead of the folder")
        if "path" in kw:
            kw["path"] = Path(real(str(kw["path"])))
        with patch.dict(os.environ, {"XDG_DATA_HOME": data}), patch("time.time", lambda: now + .5), patch("requests.get", get), patch("requests.sessions.Session.request", None), \
                patch.object(F, "ALLOW_UNRESTRICTED_LOCAL_PATHS", local), patch.object(F, "ALLOW_HTTP_S_PATHS", remote):
            try:
                return fn(*cls, **kw)
            finally:
                if folder_ok:
                    old = dict(disk)
                    disk.clear()
                    disk.update({p: t for p, t in old.items() if not p.startswith("/cache/")})
                    for n in sorted(os.listdir(folder)):
                        p = os.path.join("/cache", n)
                        with open(os.path.join(folder, n), "rb") as f:
                            b = f.read()
                        disk[p] = old[p] if b == b"\xff" else b.decode(errors="replace")


@opaque({"url": STR, "disk": DISK, "broken": SetT(STR), "folder_ok": BOOL, "now": INT, "max_age": INT}, OSTR)
def stored(url, disk, broken, folder_ok, now, max_age):
    """the cached copy younger than max_age; none if any part of it is missing or damaged"""
    c, m = where(str(content_file(url))), where(str(metadata_file(url)))
    if not folder_ok or not readable(disk, broken, m) or not readable(disk, broken, c):
        return None
    try:
        too_old = json.loads(disk[m])["timestamp"] + max_age <= now
    except Exception:
        return None
    return None if too_old else disk[c]


contract("edulint.config.file_config:CachedHTTPGet._read_version_from_disk", reveal=[stored], props=["C05"], params={"cls": Con(CachedHTTPGet), "source": STR, "max_age_in_seconds": INT}, ghost=CACHED, hooks=HOOKS,
         spec=lambda source, max_age_in_seconds, disk, broken, folder_ok, now: stored(source, disk, broken, folder_ok, now, max_age_in_seconds),
         run=in_cache, gen=gen_cache("cls", "source", "max_age_in_seconds", *CACHED))

STORE = {**CACHED, "storage_ok": BOOL}


def at(disk, path):
    return disk[path] if path in disk else None


contract("edulint.config.file_config:CachedHTTPGet._write_file", props=["C05"], params={"path": PATH, "content": STR}, ghost=STORE, optional=True, run=in_cache, gen=gen_cache("path", "content", *STORE, folder_ok=lambda rng: True),
         requires=lambda path: not temp(where(str(path))),
         modifies={"disk": None}, may_raise={Exception: lambda storage_ok: not storage_ok},
         ensures=[("the file holds the whole text, others are untouched", lambda path, content, disk, new_disk: everywhere(new_disk, lambda p: temp(p) or at(new_disk, p) == (content if p == where(str(path)) else at(disk, p))))],
         ensures_exc=[("the file holds the old or the new text", lambda path, content, disk, new_disk: everywhere(new_disk, lambda p: temp(p) or at(new_disk, p) == at(disk, p) or p == where(str(path)) and at(new_disk, p) == content))])

contract("edulint.config.file_config:CachedHTTPGet._write_version_to_disk", reveal=[stored], props=["C05"], params={"cls": Con(CachedHTTPGet), "source": STR, "content": STR}, ghost=STORE, hooks=HOOKS, run=in_cache, gen=gen_cache("cls", "source", "content", *STORE),
         modifies={"disk": None},
         ensures=[("the answer is stored as a fresh copy", lambda source, content, disk, broken, folder_ok, now, storage_ok, new_disk:
                   not storage_ok or not folder_ok or where(str(content_file(source))) in broken or where(str(metadata_file(source))) in broken or stored(source, new_disk, broken, folder_ok, now, 1) == content),
                  ("other files are untouched, the content is never damaged", lambda source, content, disk, new_disk:
                   everywhere(new_disk, lambda p: temp(p) or at(new_disk, p) == at(disk, p) or p == where(str(content_file(source))) and at(new_disk, p) == content or p == where(str(metadata_file(source)))))])


def answer(net, url):
    """what the server answers; None if it cannot be reached"""
    return net(url)


@opaque({"url": STR, "disk": DISK, "broken": SetT(STR), "folder_ok": BOOL, "now": INT, "net": NET, "max_age": INT, "max_age_offline": INT}, OSTR)
def fetched(url, disk, broken, folder_ok, now, net, max_age, max_age_offline):
    """the configuration at an address: recent copy > answer of the server > older copy"""
    recent = stored(url, disk, broken, folder_ok, now, max_age)
    if recent:
        return recent
    a = answer(net, url)
    if a is not None and a.status_code == 200:
        return a.text
    older = stored(url, disk, broken, folder_ok, now, max_age_offline)
    return older if older else None


REMOTE = {**STORE, **NETWORK}
MOD = {"disk": None, "requests": None}
OTHERS = ("other files are untouched", lambda url, disk, new_disk:
          everywhere(new_disk, lambda p: temp(p) or at(new_disk, p) == at(disk, p) or p == where(str(content_file(url))) or p == where(str(metadata_file(url)))))

RECENT = 5 * 60
OFFLINE = 500 * 24 * 60


def asks(limit):
    f = lambda url, max_cache_time, disk, broken, folder_ok, now, requests, new_requests: new_requests == (requests if stored(url, disk, broken, folder_ok, now, max_cache_time) else requests + [url])
    g = lambda url, disk, broken, folder_ok, now, requests, new_requests: new_requests == (requests if stored(url, disk, broken, folder_ok, now, RECENT) else requests + [url])
    return ("one request exactly if there is no recent copy", f if limit is None else g)


def answered(url, disk, broken, folder_ok, now, storage_ok, net, limit):
    """a successful answer of the server that can be stored"""
    a = answer(net, url)
    return not stored(url, disk, broken, folder_ok, now, limit) and a is not None and a.status_code == 200 and storage_ok and folder_ok and where(str(content_file(url))) not in broken and where(str(metadata_file(url))) not in broken


def stores(limit):
    f = lambda url, max_cache_time, disk, broken, folder_ok, now, storage_ok, net, new_disk, result: not answered(url, disk, broken, folder_ok, now, storage_ok, net, max_cache_time) or stored(url, new_disk, broken, folder_ok, now, 1) == result
    g = lambda url, disk, broken, folder_ok, now, storage_ok, net, new_disk, result: not answered(url, disk, broken, folder_ok, now, storage_ok, net, RECENT) or stored(url, new_disk, broken, folder_ok, now, 1) == result
    return ("a successful answer is stored", f if limit is None else g)


contract("edulint.config.file_config:CachedHTTPGet.http_get", reveal=[fetched], props=["C05"], params={"cls": Con(CachedHTTPGet), "url": STR, "max_cache_time": INT, "max_cache_time_when_offline": INT}, ghost=REMOTE, modifies=MOD, run=in_cache, gen=gen_cache("cls", "url", "max_cache_time", "max_cache_time_when_offline", *REMOTE),
         spec=lambda url, max_cache_time, max_cache_time_when_offline, disk, broken, folder_ok, now, net: fetched(url, disk, broken, folder_ok, now, net, max_cache_time, max_cache_time_when_offline),
         raises={FileNotFoundError: lambda url, max_cache_time, max_cache_time_when_offline, disk, broken, folder_ok, now, net: fetched(url, disk, broken, folder_ok, now, net, max_cache_time, max_cache_time_when_offline) is None},
         ensures=[asks(None), stores(None), OTHERS], ensures_exc=[("one request, there was no recent copy", lambda url, max_cache_time, disk, broken, folder_ok, now, requests, new_requests: new_requests == requests + [url] and not stored(url, disk, broken, folder_ok, now, max_cache_time)), OTHERS])

contract("edulint.config.file_config:_load_external_config_file", props=["C04", "C05"], params={"url": STR}, ghost={**REMOTE, "remote_allowed": BOOL}, modifies=MOD, run=in_cache, gen=gen_cache("url", *REMOTE, "remote_allowed"),
         spec=lambda url, disk, broken, folder_ok, now, net: fetched(url, disk, broken, folder_ok, now, net, RECENT, OFFLINE),
         raises={ConfigFileAccessMethodNotAllowedException: lambda remote_allowed: not remote_allowed,
                 FileNotFoundError: lambda url, disk, broken, folder_ok, now, net, remote_allowed: remote_allowed and fetched(url, disk, broken, folder_ok, now, net, RECENT, OFFLINE) is None},
         ensures=[asks(RECENT), stores(RECENT), OTHERS], ensures_exc=[("a request only if allowed and there is no recent copy", lambda url, remote_allowed, disk, broken, folder_ok, now, requests, new_requests: new_requests == (requests + [url] if remote_allowed else requests) and not (remote_allowed and stored(url, disk, broken, folder_ok, now, RECENT))), OTHERS])


def located(path_or_url):
    """the file of a configuration that is not remote"""
    return packaged(path_or_url) if kind(path_or_url) == ConfigFileType.PACKAGED else where(path_or_url)


@opaque({"path_or_url": STR, "disk": DISK, "broken": SetT(STR), "folder_ok": BOOL, "now": INT, "net": NET}, OSTR)
def text_of(path_or_url, disk, broken, folder_ok, now, net):
    """the text of the configuration of this name, None if there is none"""
    if kind(path_or_url) == ConfigFileType.REMOTE:
        return fetched(path_or_url, disk, broken, folder_ok, now, net, RECENT, OFFLINE)
    return disk[located(path_or_url)] if located(path_or_url) in disk else None


def allowed(path_or_url, local_allowed, remote_allowed):
    k = kind(path_or_url)
    return remote_allowed if k == ConfigFileType.REMOTE else local_allowed if k == ConfigFileType.LOCAL else True


def damaged(path_or_url, disk, broken):
    return kind(path_or_url) != ConfigFileType.REMOTE and readable(disk, set(), located(path_or_url)) and located(path_or_url) in broken


ALL = {**REMOTE, "remote_allowed": BOOL, "local_allowed": BOOL}
URI_RAISES = {ConfigFileAccessMethodNotAllowedException: lambda path_or_url, local_allowed, remote_allowed: not allowed(path_or_url, local_allowed, remote_allowed),
              FileNotFoundError: lambda path_or_url, disk, broken, folder_ok, now, net, local_allowed, remote_allowed: allowed(path_or_url, local_allowed, remote_allowed) and text_of(path_or_url, disk, broken, folder_ok, now, net) is None,
              Exception: lambda path_or_url, disk, broken, local_allowed, remote_allowed: allowed(path_or_url, local_allowed, remote_allowed) and damaged(path_or_url, disk, broken)}


def asked(path_or_url, remote_allowed, disk, broken, folder_ok, now):
    """the requests made for a configuration of this name"""
    return [path_or_url] if kind(path_or_url) == ConfigFileType.REMOTE and remote_allowed and not stored(path_or_url, disk, broken, folder_ok, now, RECENT) else []


ASKED = ("requests", lambda path_or_url, remote_allowed, disk, broken, folder_ok, now, requests, new_requests: new_requests == requests + asked(path_or_url, remote_allowed, disk, broken, folder_ok, now))
CHANGED = ("only the cache of a remote configuration changes", lambda path_or_url, disk, new_disk: kind(path_or_url) == ConfigFileType.REMOTE or disk == new_disk)

contract("edulint.config.file_config:_load_file_from_uri", reveal=[text_of], props=["C04"], params={"path_or_url": STR}, ghost=ALL, modifies=MOD, run=in_cache, gen=gen_cache("path_or_url", *ALL, path_or_url=lambda rng: rng.choice(URLS + ["default", "no-such", "/nowhere/x.toml", "ftp://x"])),
         spec=lambda path_or_url, disk, broken, folder_ok, now, net: text_of(path_or_url, disk, broken, folder_ok, now, net), raises=URI_RAISES, ensures=[ASKED, CHANGED], ensures_exc=[ASKED, CHANGED])

# ------------------------------------------------------------- TOML files
TOML = DictT(STR, DYN)
OTOML = T.opt(TOML)


def toml(text):
    """the value of a TOML text, None if it is none"""
    try:
        return tomli.loads(text)
    except tomli.TOMLDecodeError:
        return None


pure_ext(toml, "toml value", [STR], OTOML, "tomli.loads returns a dictionary determined by the text or raises TOMLDecodeError")


def _toml_loads(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("tomli.loads arguments")
    r = EXTERNALS[id(toml)][1](I, args, {})
    if I.branch(r.ty.is_(r.ty.alts.index(NONE), r.t)):
        raise TExc(tomli.TOMLDecodeError)
    return I.thaw(Sym(TOML, r.ty.proj(r.ty.alts.index(TOML), r.t)))


def _toml_load(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("tomli.load arguments")
    f = I.deref(args[0])
    if not (isinstance(f, Sym) and f.ty == FILE_B):
        raise Unsupported("tomli.load of something else than a binary file")
    return _toml_loads(I, [Sym(STR, content(I, path_of(FILE_B, f.t)))], {})


EXTERNALS[id(tomli.loads)] = (tomli.loads, _toml_loads, "tomli.loads")
EXTERNALS[id(tomli.load)] = (tomli.load, _toml_load, "tomli.load")


@opaque({"path_or_url": STR, "disk": DISK, "broken": SetT(STR), "folder_ok": BOOL, "now": INT, "net": NET, "local_allowed": BOOL, "remote_allowed": BOOL}, OTOML)
def loaded(path_or_url, disk, broken, folder_ok, now, net, local_allowed, remote_allowed):
    """the configuration of this name; None if it is not allowed, not there, not readable or no TOML"""
    if not allowed(path_or_url, local_allowed, remote_allowed) or damaged(path_or_url, disk, broken):
        return None
    t = text_of(path_or_url, disk, broken, folder_ok, now, net)
    return toml(t) if t is not None else None


contract("edulint.config.file_config:load_toml_file", reveal=[loaded], props=["C04", "C05"], params={"filename_or_url": STR}, ghost=ALL, modifies=MOD, run=in_cache,
         gen=gen_cache("filename_or_url", *ALL, filename_or_url=lambda rng: rng.choice(URLS + ["default", "no-such", "/nowhere/x.toml", "ftp://x"])),
         spec=lambda filename_or_url, disk, broken, folder_ok, now, net, local_allowed, remote_allowed: loaded(filename_or_url, disk, broken, folder_ok, now, net, local_allowed, remote_allowed),
         ensures=[("requests", lambda filename_or_url, remote_allowed, disk, broken, folder_ok, now, requests, new_requests: new_requests == requests + asked(filename_or_url, remote_allowed, disk, broken, folder_ok, now)),
                  ("only the cache of a remote configuration changes", lambda filename_or_url, disk, new_disk: kind(filename_or_url) == ConfigFileType.REMOTE or disk == new_disk)])
