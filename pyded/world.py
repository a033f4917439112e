"""The world outside: files, clock, network.  A contract that depends on it
declares the part as a ghost parameter:

disk        {path: text} of the readable and unreadable files
broken      paths of files whose content cannot be read as text
storage_ok  writing to files succeeds
now         the clock, in whole seconds (it stands still while the function runs)
requests    addresses requested so far
net         what the network answers to an address
"""
import ast
import json
import os
import time
import z3
from . import theory as TH
from .ty import *
from . import ty as T
from .values import *
from .interp import AnyExc
from .prims import BYTES, EXTERNALS, EXT_ATTR, BUILTINS
from .paths import PATH, text, path_str

DISK = DictT(STR, STR)
LAB = "python:open"
TEXT = "open(path) raises FileNotFoundError if there is no such file, otherwise reading returns the stored text or raises an Exception; a write that succeeds stores the text when the file is closed, one that fails leaves anything and raises an Exception; nobody else writes meanwhile"


def where(path):
    """the file a path names (two spellings of one path name the same file)"""
    return os.path.normpath(path)


def where_t(t):
    return TH.uf("where", [STR], STR)(t)


def _where(I, args, kwargs):
    return Sym(STR, where_t(I.str_term(args[0])))


EXTERNALS[id(where)] = (where, _where, "where")


def file_at(I, v):
    """key of the disk for a path-like value"""
    s = I.deref(v)
    return where_t(text(I, v))


def world(I, n):
    v = I.job.world.get(n)
    if v is None:
        raise Unsupported(f"{n} is not a ghost parameter of the contract")
    return v


def disk(I):
    return I.lift(I.deref(world(I, "disk"))).t


def store(I, p, t):
    ref = world(I, "disk")
    if isinstance(ref, Sym):
        raise Unsupported("write to a constant disk")
    I.setitem(ref, Sym(STR, p), Sym(STR, t))


FILE_R = OpaqueT("file open for reading")
FILE_B = OpaqueT("file open for reading bytes")
FILE_W = OpaqueT("file open for writing")


def handle(I, ty, p):
    t = TH.uf(f"handle {ty.name}", [STR], ty)(p)
    I.assume_once(path_of(ty, t) == p)
    return Sym(ty, t)


def path_of(ty, t):
    return TH.uf(f"path of {ty.name}", [ty], STR)(t)


def content(I, p):
    """the text of an existing file"""
    if I.branch(z3.IsMember(p, I.lift(I.deref(world(I, "broken"))).t)):
        raise TExc(AnyExc)
    return DISK.get(disk(I), p)


def _open(I, args, kwargs):
    if len(args) not in (1, 2) or set(kwargs) - {"encoding", "mode", "newline", "errors"}:
        raise Unsupported("open arguments")
    mode = args[1] if len(args) > 1 else kwargs.get("mode", Con("r"))
    if not isinstance(mode, Con) or mode.o not in ("r", "w", "rt", "wt", "rb"):
        raise Unsupported("open mode")
    for k, allowed in (("encoding", ("utf8", "utf-8", "utf_8", "UTF-8")), ("errors", (None, "strict"))):
        v = kwargs.get(k)
        if v is not None and not (isinstance(v, Con) and v.o in allowed):
            raise Unsupported("open arguments")
    if "encoding" not in kwargs and mode.o != "rb":
        raise Unsupported("open without an encoding")
    TH.trust(LAB, TEXT)
    p = file_at(I, args[0])
    if mode.o.startswith("r"):
        if mode.o == "rb" and set(kwargs) - {"mode"}:
            raise TExc(ValueError)
        if not I.branch(DISK.has(disk(I), p)):
            raise TExc(FileNotFoundError)
        return handle(I, FILE_B if mode.o == "rb" else FILE_R, p)
    if not I.branch(I.lift(world(I, "storage_ok")).t) and I.choose(2) == 1:
        raise TExc(AnyExc)
    store(I, p, I.fresh(STR, "nd!half written").t)
    h = handle(I, FILE_W, p)
    I.st.ghost[("pending", h.t.get_id())] = z3.StringVal("")
    TH._keep.append(h.t)
    return h


def _write(I, s, args, kwargs):
    k = ("pending", s.t.get_id())
    if k not in I.st.ghost:
        raise TExc(ValueError)
    I.st.ghost[k] = z3.Concat(I.st.ghost[k], I.str_term(args[0]))
    return Sym(INT, z3.Length(I.str_term(args[0])))


def _close(I, s, args, kwargs):
    k = ("pending", s.t.get_id())
    t = I.st.ghost.pop(k, None)
    if t is None:
        return Con(None)
    p = path_of(FILE_W, s.t)
    if not I.branch(I.lift(world(I, "storage_ok")).t) and I.choose(2) == 1:
        raise TExc(AnyExc)
    store(I, p, z3.simplify(t))
    return Con(None)


FILE_W.methods.update({"write": _write, "__exit__": _close, "close": _close})
FILE_R.methods.update({"read": lambda I, s, args, kwargs: Sym(STR, content(I, path_of(FILE_R, s.t)))})
BUILTINS[id(open)] = (open, _open)

# ------------------------------------------------- replacing and temporary files
import tempfile

TLAB = "python:tempfile and os.replace"
TTEXT = "a temporary folder is new: nothing stored before lies in it, it is not the cache folder, and it is removed at the end; os.replace moves a file or fails and changes nothing"


def is_tempdir(t):
    return TH.uf("is a temporary folder", [STR], BOOL)(t)


def is_temp(t):
    return TH.uf("lies in a temporary folder", [STR], BOOL)(t)


def may_fail(I):
    return not I.branch(I.lift(world(I, "storage_ok")).t) and I.choose(2) == 1


def _replace(I, args, kwargs):
    if len(args) != 2 or kwargs:
        raise Unsupported("os.replace arguments")
    TH.trust(TLAB, TTEXT)
    a, b = [file_at(I, x) for x in args]
    if may_fail(I):
        raise TExc(AnyExc)
    if not I.branch(DISK.has(disk(I), a)):
        raise TExc(FileNotFoundError)
    t = DISK.get(disk(I), a)
    store(I, b, t)
    I.call_method(world(I, "disk"), "pop", [Sym(STR, a), Con(None)], {})
    return Con(None)


TMP = OpaqueT("temporary folder")


def _tmp(I, args, kwargs):
    if args or set(kwargs) - {"dir", "prefix", "suffix"}:
        raise Unsupported("TemporaryDirectory arguments")
    TH.trust(TLAB, TTEXT)
    if may_fail(I):
        raise TExc(AnyExc)
    s = I.fresh(TMP, "tmp")
    return s


def tmp_enter(I, s, args, kwargs):
    t = TH.uf("temporary folder", [TMP], STR)(s.t)
    I.assume_once(is_tempdir(t))
    return Sym(STR, t)


def tmp_exit(I, s, args, kwargs):
    ref = world(I, "disk")
    d = disk(I)
    n = I.fresh(DISK, "nd!disk").t
    q = z3.Const("tk:path", z3.StringSort())
    I.assume(z3.ForAll([q], z3.Implies(z3.Not(is_temp(q)), z3.Select(DISK.arr(n), q) == z3.Select(DISK.arr(d), q)), patterns=[z3.Select(DISK.arr(n), q)]))
    I.frame_check(ref)
    I.wr(ref, Sym(DISK, n))
    if may_fail(I):
        raise TExc(AnyExc)
    return Con(None)


TMP.methods.update({"__enter__": tmp_enter, "__exit__": tmp_exit})
EXTERNALS[id(os.replace)] = (os.replace, _replace, "os.replace")
EXTERNALS[id(tempfile.TemporaryDirectory)] = (tempfile.TemporaryDirectory, _tmp, "tempfile.TemporaryDirectory")


def _join(I, args, kwargs):
    r = OLD_JOIN(I, args, kwargs)
    if isinstance(r, Sym) and len(args) == 2:
        I.assume_once(is_temp(where_t(r.t)) == is_tempdir(text(I, args[0])))
    return r


OLD_JOIN = EXTERNALS[id(os.path.join)][1]
EXTERNALS[id(os.path.join)] = (os.path.join, _join, "join")


def _div(I, a, b):
    r = TH.uf("path_div", [PATH, STR], PATH)(a.t, text(I, b))
    I.assume_once(is_temp(where_t(path_str(I, Sym(PATH, r)))) == is_tempdir(path_str(I, a)))
    return Sym(PATH, r)


EXT_ATTR[("path", ast.Div)] = _div


def _with_suffix(I, s, args, kwargs):
    r = TH.uf("path_with_suffix", [PATH, STR], PATH)(s.t, I.str_term(args[0]))
    here, there = where_t(path_str(I, s)), where_t(path_str(I, Sym(PATH, r)))
    I.assume_once(is_temp(there) == is_temp(here))
    I.assume_once(z3.Or(here != there, I.str_term(args[0]) == TH.uf("path_suffix", [PATH], STR)(s.t)))
    return Sym(PATH, r)


PATH.methods["with_suffix"] = _with_suffix


def _isfile(I, s, args, kwargs):
    if "disk" not in I.job.world:
        return Sym(BOOL, TH.uf("os_isfile1", [STR], BOOL)(path_str(I, s)))
    return Sym(BOOL, DISK.has(disk(I), file_at(I, s)))


def _exists(I, s, args, kwargs):
    p = path_str(I, s)
    e = TH.uf("os_exists1", [STR], BOOL)(p)
    if "disk" in I.job.world:
        e = z3.Or(e, DISK.has(disk(I), where_t(p)))
    return Sym(BOOL, e)


PATH.methods["is_file"] = _isfile
PATH.methods["exists"] = _exists

# ------------------------------------------------------------------- json

JSON_OK = lambda t: TH.uf("json_ok", [STR], BOOL)(t)
JLAB = "python:json"


def loads(I, t):
    back = TH.uf("json_loads", [STR], DYN)(z3.StringVal("{}"))
    D = DictT(STR, DYN)
    i = DYN.alts.index(D)
    I.assume_once(z3.And(JSON_OK(z3.StringVal("{}")), DYN.is_(i, back), DYN.proj(i, back) == D.empty()))
    TH.trust(JLAB, "json.loads(text) raises JSONDecodeError or returns a value determined by the text; the empty text is no JSON; json.dumps of a dictionary of texts and numbers returns a text determined by it, from which json.loads restores the items")
    if not I.branch(z3.And(JSON_OK(t), t != z3.StringVal(""))):
        raise TExc(json.JSONDecodeError)
    return Sym(DYN, TH.uf("json_loads", [STR], DYN)(t))


def _loads(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("json.loads arguments")
    return loads(I, I.str_term(args[0]))


def _load(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("json.load arguments")
    f = I.deref(args[0])
    if not (isinstance(f, Sym) and f.ty == FILE_R):
        raise Unsupported("json.load of something else than a file")
    return loads(I, content(I, path_of(FILE_R, f.t)))


def literal_keys(t):
    """texts put into the dictionary one by one"""
    r = []
    while z3.is_app(t) and t.decl().name().startswith("put<"):
        r.append(t.arg(1))
        t = t.arg(0)
    return r


def _dumps(I, args, kwargs):
    if len(args) != 1 or set(kwargs) - {"indent"}:
        raise Unsupported("json.dumps arguments")
    s = I.lift(I.deref(args[0]))
    t = TH.uf(f"json_dumps<{s.ty.key}>", [s.ty], STR)(s.t)
    I.assume_once(z3.And(JSON_OK(t), t != z3.StringVal("")))
    if isinstance(s.ty, DictT) and s.ty.k == STR:
        # the items come back
        D = DictT(STR, DYN)
        back = TH.uf("json_loads", [STR], DYN)(t)
        i = DYN.alts.index(D)
        bd = DYN.proj(i, back)
        I.assume_once(DYN.is_(i, back))
        for k in literal_keys(s.t):
            v = I.coerce(Sym(s.ty.v, s.ty.get(s.t, k)), DYN)
            I.assume_once(z3.Implies(s.ty.has(s.t, k), z3.And(D.has(bd, k), D.get(bd, k) == v)))
    return Sym(STR, t)


def _dump(I, args, kwargs):
    if len(args) != 2:
        raise Unsupported("json.dump arguments")
    f = I.deref(args[1])
    if not (isinstance(f, Sym) and f.ty == FILE_W):
        raise Unsupported("json.dump to something else than a file")
    _write(I, f, [_dumps(I, args[:1], kwargs)], {})
    return Con(None)


def _os_exists(I, args, kwargs):
    if "disk" not in I.job.world or len(args) != 1 or kwargs:
        return OLD_EXISTS(I, args, kwargs)
    t = text(I, args[0])
    return Sym(BOOL, z3.Or(TH.uf("os_exists1", [STR], BOOL)(t), DISK.has(disk(I), where_t(t))))


OLD_EXISTS = EXTERNALS[id(os.path.exists)][1]
EXTERNALS[id(os.path.exists)] = (os.path.exists, _os_exists, "os.path.exists")


def _mkdir(I, s, args, kwargs):
    """creates a folder, or fails"""
    if "storage_ok" not in I.job.world:
        raise Unsupported("mkdir without a file system")
    if may_fail(I):
        raise TExc(AnyExc)
    return Con(None)


PATH.methods["mkdir"] = _mkdir
EXTERNALS[id(json.dump)] = (json.dump, _dump, "json.dump")
EXTERNALS[id(json.loads)] = (json.loads, _loads, "json.loads")
EXTERNALS[id(json.load)] = (json.load, _load, "json.load")
EXTERNALS[id(json.dumps)] = (json.dumps, _dumps, "json.dumps")

# ------------------------------------------------------------------ clock


def _time(I, args, kwargs):
    TH.trust("python:time.time", "the clock stands still while a verified function runs; fractions of a second do not matter")
    return I.lift(world(I, "now"))


EXTERNALS[id(time.time)] = (time.time, _time, "time.time")

def wait(I, args, kwargs):
    """time.sleep: nothing else happens meanwhile"""
    return Con(None)


EXTERNALS[id(time.sleep)] = (time.sleep, wait, "time.sleep")

# ------------------------------------------------------------- dbm databases
import dbm

DB = OpaqueT("dbm database")
DLAB = "python:dbm"


def stamps(I):
    return I.lift(I.deref(world(I, "stamps"))).t


STAMPS = DictT(STR, BYTES)


def bytes_of(I, t):
    r = TH.uf("str_encode_strict", [STR], BYTES)(t)
    if z3.is_app(t) and t.decl().name() == "str_of_int":
        I.assume_once(z3.And(TH.uf("bytes_int_ok", [BYTES], BOOL)(r), TH.uf("bytes_to_int", [BYTES], INT)(r) == t.arg(0)))
    return r


def _dbm_open(I, args, kwargs):
    if len(args) not in (2, 3) or kwargs or not isinstance(args[1], Con) or args[1].o not in ("c", "w"):
        raise Unsupported("dbm.open arguments")
    TH.trust(DLAB, "dbm.open opens the one database, or raises an Exception (without a change) if storage does not work; what is stored under a key is found there later")
    text(I, args[0])
    if not I.branch(I.lift(world(I, "storage_ok")).t) and I.choose(2) == 1:
        raise TExc(AnyExc)
    return I.fresh(DB, "db")


def _dbm_get(I, s, args, kwargs):
    if kwargs or len(args) not in (1, 2):
        raise Unsupported("dbm get arguments")
    k = I.str_term(args[0])
    d = stamps(I)
    if I.branch(STAMPS.has(d, k)):
        return Sym(BYTES, STAMPS.get(d, k))
    return args[1] if len(args) == 2 else Con(None)


def _dbm_set(I, s, k, v):
    x = I.deref(v)
    y = I.lift(x)
    if y.ty not in (STR, BYTES):
        raise TExc(TypeError)
    if not I.branch(I.lift(world(I, "storage_ok")).t) and I.choose(2) == 1:
        raise TExc(AnyExc)
    I.setitem(world(I, "stamps"), Sym(STR, I.str_term(k)), Sym(BYTES, bytes_of(I, I.str_term(x))) if y.ty == STR else y)


def _dbm_item(I, s, k):
    d, t = stamps(I), I.str_term(k)
    if not I.branch(STAMPS.has(d, t)):
        raise TExc(KeyError)
    return Sym(BYTES, STAMPS.get(d, t))


DB.methods.update({"get": _dbm_get, "__enter__": lambda I, s, args, kwargs: s, "__exit__": lambda I, s, args, kwargs: Con(None), "close": lambda I, s, args, kwargs: Con(None)})
EXT_ATTR[("dbm database", "[]")] = _dbm_item
EXT_ATTR[("dbm database", "[]=")] = _dbm_set
EXT_ATTR[("dbm database", "in")] = lambda I, s, k: STAMPS.has(stamps(I), I.str_term(k))
EXTERNALS[id(dbm.open)] = (dbm.open, _dbm_open, "dbm.open")

# ---------------------------------------------------------------- network


def fun_ty(name, argtys, ret):
    """a function given as an argument: total and pure"""
    O = OpaqueT(name)

    def call(I, s, args, kwargs):
        if kwargs or len(args) != len(argtys):
            raise Unsupported(f"call of {name}")
        ts = [I.coerce(I.as_ty(a, t), t) for a, t in zip(args, argtys)]
        return Sym(ret, TH.uf(f"call {name}", [O] + argtys, ret)(s.t, *ts))
    O.methods["__call__"] = call
    return O


import requests

RESPONSE = register_rec(RecT(requests.Response, {"status_code": INT, "text": STR}, frozen=True, name="Response"))
NET = fun_ty("network", [STR], T.opt(RESPONSE))


def _get(I, args, kwargs):
    if len(args) != 1 or set(kwargs) - {"timeout"}:
        raise Unsupported("requests.get arguments")
    TH.trust("python:requests.get", "requests.get makes one request and returns an answer with a status and a text, or raises RequestException")
    u = I.deref(args[0])
    I.str_term(u)
    I.call_method(world(I, "requests"), "append", [u], {})
    f = I.lift(world(I, "net"))
    r = NET.methods["__call__"](I, f, [u], {})
    if I.branch(r.ty.is_(r.ty.alts.index(NONE), r.t)):
        raise TExc(requests.exceptions.RequestException)
    return Sym(RESPONSE, r.ty.proj(r.ty.alts.index(RESPONSE), r.t))


EXTERNALS[id(requests.get)] = (requests.get, _get, "requests.get")

# ------------------------------------------------------------------ hashes
import hashlib
from .prims import BYTES

HASH = OpaqueT("sha256")
HASH.methods["hexdigest"] = lambda I, s, args, kwargs: Sym(STR, TH.uf("sha256_hex", [HASH], STR)(s.t))


def _sha(I, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported("sha256 arguments")
    b = I.lift(I.deref(args[0]))
    if b.ty != BYTES:
        raise TExc(TypeError)
    TH.trust("python:hashlib", "a digest is determined by the bytes")
    return Sym(HASH, TH.uf("sha256", [BYTES], HASH)(b.t))


EXTERNALS[id(hashlib.sha256)] = (hashlib.sha256, _sha, "hashlib.sha256")

# ------------------------------------------------------------ specifications


def everywhere(disk, pred):
    """pred holds for every file (specifications only)"""
    return all(pred(p) for p in disk)


def has_ite(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo += x.children()
    return False


def _everywhere(I, args, kwargs):
    d = I.lift(I.deref(args[0]))
    a = DISK.arr(d.t)
    if has_ite(a):
        c = I.fresh(DISK, "everywhere").t
        I.assume(c == d.t)
        a = DISK.arr(c)
    q = I.fresh_term(z3.StringSort(), "path")
    outs = I.explore(lambda: I.truth(I.call(args[1], [Sym(STR, q)], {})), "everywhere")
    n0 = len(I.st.pc)
    parts = []
    for k, v, st in outs:
        if k != "ok":
            raise Unsupported("everywhere: the predicate raises")
        new = st.pc[n0:]
        parts.append(z3.Implies(z3.And([t for t, _ in new]) if new else z3.BoolVal(True), v))
    return I.mkbool(z3.ForAll([q], z3.And(parts), patterns=[z3.Select(a, q)]))


EXTERNALS[id(everywhere)] = (everywhere, _everywhere, "everywhere")


def temp(path):
    """a file in a temporary folder (specifications only)"""
    return False


EXTERNALS[id(temp)] = (temp, lambda I, args, kwargs: Sym(BOOL, is_temp(I.str_term(args[0]))), "temp")

# ---------------------------------------------------------------- threads
import threading

THREAD = OpaqueT("thread")


def _thread(I, args, kwargs):
    if args or "target" not in kwargs:
        raise Unsupported("Thread arguments")
    I.deref(kwargs["target"])
    return I.fresh(THREAD, "thread")


def _start(I, s, args, kwargs):
    """what the thread does happens outside; it is counted"""
    I.call_method(world(I, "threads"), "append", [Con("started")], {})
    return Con(None)


THREAD.methods["start"] = _start
EXTERNALS[id(threading.Thread)] = (threading.Thread, _thread, "threading.Thread")
