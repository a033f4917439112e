"""File system paths: strings and pathlib objects as values.  Only pure
operations; the working directory and the file system do not change while a
verified function runs."""
import os
import pathlib
import z3
from pathlib import Path
from . import theory as TH
from .ty import *
from . import ty as T
from .values import *
from .prims import EXTERNALS, EXT_ATTR, Prims

LAB = "python:os.path and pathlib"
TEXT = "abspath, relpath, isabs, normpath, join, resolve, parents etc. are functions of their arguments (fixed working directory and file system; no symbolic link loops); their results are not empty"


def path_m(name, ret, conv=None):
    def h(I, s, args, kwargs):
        TH.trust(LAB, TEXT)
        ts = [I.str_term(a) if isinstance(a, (Con, Sym)) and not (isinstance(a, Sym) and a.ty == PATH) else a.t for a in args]
        return Sym(ret, TH.uf(f"path_{name}", [s.ty] + [STR] * len(ts), ret)(s.t, *ts))
    return h


PATH = OpaqueT("path", Path, {})
PATH.methods.update({"resolve": path_m("resolve", PATH), "absolute": path_m("absolute", PATH), "as_posix": path_m("as_posix", STR)})


def path_str(I, s):
    TH.trust(LAB, TEXT)
    r = TH.uf("path_str", [PATH], STR)(s.t)
    I.assume_once(r != z3.StringVal(""))
    return r


PATH.methods["__str__"] = lambda I, s, args, kwargs: Sym(STR, path_str(I, s))


def text(I, v):
    """the string of a path-like value"""
    if isinstance(v, Con):
        if isinstance(v.o, (str, pathlib.PurePath)):
            return I.str_term(Con(str(v.o)))
        raise TExc(TypeError)
    s = I.deref(v)
    if not isinstance(s, Sym):
        raise Unsupported("path-like")
    if is_union(s.ty):
        for i, a in enumerate(s.ty.alts):
            last = i == len(s.ty.alts) - 1
            if last or I.branch(s.ty.is_(i, s.t)):
                return text(I, Sym(a, s.ty.proj(i, s.t)))
    if s.ty == PATH:
        return path_str(I, s)
    if s.ty == STR:
        return s.t
    raise TExc(TypeError)


def ext(obj, name, nargs, ret, raises=None):
    def h(I, args, kwargs):
        if kwargs or len(args) not in (nargs if isinstance(nargs, tuple) else (nargs,)):
            raise Unsupported(f"{name} arguments")
        if all(isinstance(a, Con) for a in args) and name in ("join", "basename", "dirname", "splitext"):
            return I.pyval(obj(*[a.o for a in args]))
        if name == "join" and len(args) > 2:
            return h(I, [h(I, list(args[:-1]), {}), args[-1]], {})
        ts = [text(I, a) for a in args]
        TH.trust(LAB, TEXT)
        if raises is not None and I.branch(raises[0](*ts)):
            raise TExc(raises[1])
        r = TH.uf(f"os_{name}{len(ts)}", [STR] * len(ts), ret)(*ts)
        if name == "splitext":
            return TupV([Sym(STR, TH.uf(f"os_splitext_{i}", [STR], STR)(*ts)) for i in (0, 1)])
        if name in ("abspath", "relpath", "normpath", "realpath"):
            I.assume_once(r != z3.StringVal(""))
        return Sym(ret, r)
    EXTERNALS[id(obj)] = (obj, h, name)


ext(os.path.isabs, "isabs", 1, BOOL)
ext(os.path.abspath, "abspath", 1, STR)
ext(os.path.relpath, "relpath", (1, 2), STR, (lambda t, *r: t == z3.StringVal(""), ValueError))
ext(os.path.normpath, "normpath", 1, STR)
ext(os.path.dirname, "dirname", 1, STR)
ext(os.path.basename, "basename", 1, STR)
ext(os.path.realpath, "realpath", 1, STR)
ext(os.path.join, "join", (2, 3, 4), STR)
ext(os.path.isdir, "isdir", 1, BOOL)
ext(os.path.isfile, "isfile", 1, BOOL)
ext(os.path.exists, "exists", 1, BOOL)


def _path(I, args, kwargs):
    if kwargs or len(args) != 1:
        raise Unsupported("Path arguments")
    s = I.deref(args[0])
    if isinstance(s, Sym) and s.ty == PATH:
        return s
    t = text(I, args[0])
    TH.trust(LAB, TEXT)
    r = TH.uf("path_of", [STR], PATH)(t)
    w = TH.uf("where", [STR], STR)
    I.assume_once(w(TH.uf("path_str", [PATH], STR)(r)) == w(t))
    return Sym(PATH, r)


EXTERNALS[id(Path)] = (Path, _path, "Path")
EXTERNALS[id(Path.resolve)] = (Path.resolve, lambda I, args, kwargs: I.call_method(I.deref(args[0]), "resolve", args[1:], kwargs), "Path.resolve")
EXT_ATTR[("path", "parents")] = lambda I, s: Sym(ListT(PATH), TH.uf("path_parents", [PATH], ListT(PATH))(s.t))
EXT_ATTR[("path", "parent")] = lambda I, s: Sym(PATH, TH.uf("path_parent", [PATH], PATH)(s.t))
EXT_ATTR[("path", "name")] = lambda I, s: Sym(STR, TH.uf("path_name", [PATH], STR)(s.t))
EXT_ATTR[("path", "suffix")] = lambda I, s: Sym(STR, TH.uf("path_suffix", [PATH], STR)(s.t))
