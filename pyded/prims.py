"""Python builtins, methods and object model of the verifier."""
import ast
import builtins
import collections
import dataclasses
import enum
import functools
import itertools
import os
import re
import types as pytypes
import typing
import z3
from . import theory as TH
from .ty import *
from . import ty as T
from .values import *
from .interp import (same_cell, Interp, ExcV, GenV, StarV, SuperM, AnyExc, TRUE, FALSE, zand, zor, znot, zite, simp_bool,
                     is_user_function, has_unknown, MISSING, site_of)

BUILTINS = {}
EXTERNALS = {}  # python object -> handler(I, args, kwargs)


def builtin(*objs):
    def deco(f):
        for o in objs:
            BUILTINS[id(o)] = (o, f)
        return f
    return deco


def external(obj, text):
    """a trusted contract on a library function"""
    def deco(f):
        EXTERNALS[id(obj)] = (obj, f, text)
        return f
    return deco


def pure_ext(obj, name, argtys, ret, text=None):
    """external pure function: result depends on its arguments only"""
    def h(I, args, kwargs):
        if kwargs:
            raise Unsupported(f"{name} keywords")
        if all(isinstance(a, Con) for a in args) and name.startswith("!"):
            return Con(obj(*[a.o for a in args]))
        ts = []
        for a, t in zip(args, argtys):
            ts.append(I.coerce(I.as_ty(a, t), t))
        if len(args) != len(argtys):
            raise Unsupported(f"{name} arity")
        TH.trust(f"extern:{name}", text or f"{name} returns a value that depends on its arguments only")
        return Sym(ret, TH.uf(name, argtys, ret)(*ts))
    EXTERNALS[id(obj)] = (obj, h, text or name)


def opaque(params, ret):
    """a specification function that is an uninterpreted symbol, except where a
    contract speaks about it directly: there its definition is used once (for the
    recursive calls in it the symbol again), which also defines the symbol there"""
    tys = list(params.values())

    def deco(fn):
        name = f"spec {fn.__module__}.{fn.__name__}"

        def h(I, args, kwargs):
            if kwargs or len(args) != len(tys):
                raise Unsupported(f"{name} arity")
            if args and all(isinstance(a, Con) and isinstance(a.o, SAFE_TYPES) for a in args):
                return Con(fn(*[a.o for a in args]))
            ts = [I.coerce(I.as_ty(a, t), t) for a, t in zip(args, tys)]
            if args and all(isinstance(t, EnumT) and t.member(x) is not None for x, t in zip(ts, tys)):
                return Con(fn(*[t.member(x) for x, t in zip(ts, tys)]))
            r = TH.uf(name, tys, ret)(*ts)
            if I.job.revealing and I.spec_depth and fn in I.job.c.reveal:
                I.job.revealing = False
                try:
                    v = I.call_function(fn, [Sym(t, x) for t, x in zip(tys, ts)], {})
                    s = I.lift(I.deref(v))
                    I.assume_once(r == I.coerce(s, ret))
                finally:
                    I.job.revealing = True
                return v
            return Sym(ret, r)
        EXTERNALS[id(fn)] = (fn, h, name)
        return fn
    return deco


def all_con(args, kwargs):
    return all(isinstance(a, Con) for a in args) and all(isinstance(a, Con) for a in kwargs.values())


SAFE_CON = {str, int, bool, len, tuple, list, set, frozenset, dict, sorted, reversed, min, max, sum, repr, range, enumerate, zip,
            any, all, abs, ord, chr, isinstance, issubclass, hasattr, getattr, type, float, os.path.basename, os.path.join,
            re.compile}
SAFE_TYPES = (str, int, bool, tuple, frozenset, float, enum.Enum)


def literal_map(t, f, limit=32):
    """f applied to a case distinction of string literals, None if t is none"""
    left = [limit]

    def go(t):
        if z3.is_string_value(t):
            x = t.py_value()
            if left[0] == 0 or not isinstance(x, str) or not x.isascii():
                return None
            left[0] -= 1
            try:
                r = f(x)
            except Exception:
                return None
            return z3.BoolVal(r) if isinstance(r, bool) else z3.StringVal(r) if isinstance(r, str) and r.isascii() else None
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = go(t.arg(1)), go(t.arg(2))
            return None if a is None or b is None else zite(t.arg(0), a, b)
        return None

    return go(t)


def str_uf(name, *rest, ret=STR):
    return TH.uf(f"str_{name}", [STR, *rest], ret)


class Prims(Interp):

    # --------------------------------------------------------------- misc

    def as_ty(self, v, want):
        """lift v, preferring type want"""
        s = self.lift(self.deref(v))
        return s

    def sv(self, t):
        return Sym(STR, t)

    def str_term(self, v):
        s = self.lift(self.deref(v))
        if is_union(s.ty):
            s = self.narrow(s, lambda a: a == STR)
            if s is None:
                raise TExc(TypeError)
        if s.ty != STR:
            raise TExc(TypeError)
        return s.t

    # ----------------------------------------------------------- attributes

    def attr(self, v, name, call=False):
        if isinstance(v, Con):
            o = v.o
            h = self.job.attr_override(o, name)
            if h is not None:
                return h
            if isinstance(o, (str, list, tuple, dict, set, frozenset, int, float, bytes)) and not isinstance(o, enum.Enum):
                if not hasattr(o, name):
                    raise TExc(AttributeError)
                if not callable(getattr(o, name)):
                    return Con(getattr(o, name))
                return Meth(v, name)
            r = rec_of(type(o))
            try:
                a = getattr(o, name)
            except AttributeError:
                raise TExc(AttributeError)
            if isinstance(a, pytypes.MethodType) and not isinstance(o, type) and is_user_function(a.__func__):
                return Bound(Con(a.__func__), v)
            return Con(a)
        if isinstance(v, Ref):
            c = self.cell(v.cid)
            if c.fields is not None:
                if name in c.fields:
                    f = c.fields[name]
                    return f
                return self.class_attr(v, c.ty.cls, name)
            return Meth(v, name)
        if isinstance(v, PRef):
            ty = v.ty
            if isinstance(ty, RecT):
                s = self.rd(v)
                if name in ty.fields:
                    ft = ty.fields[name]
                    if isinstance(ft, (DictT, SetT)) or type(ft) is ListT:
                        c = self.cell(v.cid)
                        return PRef(v.cid, v.steps + (("field", name),), ft, c.sver, c.dver, Sym(ft, ty.get(s.t, name)))
                    return Sym(ft, ty.get(s.t, name))
                return self.attr(s, name, call)
            return Meth(v, name)
        if isinstance(v, Sym):
            ty = v.ty
            if isinstance(ty, RecT):
                if name in ty.fields:
                    return Sym(ty.fields[name], ty.get(v.t, name))
                if name in ty.con_fields:
                    return Con(ty.con_fields[name])
                return self.class_attr(v, ty.cls, name)
            if isinstance(ty, EnumT):
                return self.enum_attr(v, name)
            if isinstance(ty, OpaqueT):
                if name in ty.methods:
                    return Meth(v, name)
                a = EXT_ATTR.get((ty.name, name))
                if a is not None:
                    return a(self, v)
                raise Unsupported(f"attribute {name} of {ty}")
            if is_union(ty):
                w = self.narrow(v, lambda a: self.has_attr_ty(a, name))
                if w is None:
                    raise TExc(AttributeError)
                return self.attr(w, name, call)
            if ty == NONE:
                raise TExc(AttributeError)
            if ty == FLOAT:
                raise Unsupported("float attribute")
            pt = getattr(ty, "pytype", None)
            if pt is not None and not hasattr(pt, name):
                raise TExc(AttributeError)
            return Meth(v, name)
        if isinstance(v, Choice):
            vals = []
            for c, x in v.alts:
                try:
                    vals.append((c, self.attr(x, name, call)))
                except TExc as e:
                    if self.branch(c):
                        raise e
            if not vals:
                raise TExc(AttributeError)
            if all(isinstance(x, (Con, Sym)) for _, x in vals):
                m = self.merge_vals(vals)
                if m is not None:
                    return m
            return Choice(vals)
        if isinstance(v, ExcV):
            if name == "args":
                return TupV(v.vargs)
            h = EXT_ATTR.get((v.cls, name)) or EXT_ATTR.get(("exc", name))
            if h is not None:
                return h(self, v)
            raise Unsupported(f"exception attribute {name}")
        if isinstance(v, (TupV, IterV, ConcIter, GenV)):
            return Meth(v, name)
        raise Unsupported(f"attribute {name} of {v!r}")

    def has_attr_ty(self, a, name):
        if isinstance(a, RecT):
            return name in a.fields or name in a.con_fields or hasattr(a.cls, name)
        if isinstance(a, EnumT):
            return hasattr(a.members[0], name)
        if isinstance(a, OpaqueT):
            return name in a.methods or (a.name, name) in EXT_ATTR
        if a == NONE:
            return False
        pt = getattr(a, "pytype", None)
        return pt is not None and hasattr(pt, name)

    def class_attr(self, v, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                a = k.__dict__[name]
                if isinstance(a, staticmethod):
                    return Con(a.__func__)
                if isinstance(a, classmethod):
                    return Bound(Con(a.__func__), Con(cls))
                if isinstance(a, property):
                    return self.call(Con(a.fget), [v], {})
                if isinstance(a, functools.cached_property):
                    return self.call(Con(a.func), [v], {})
                if isinstance(a, pytypes.FunctionType):
                    return Bound(Con(a), v)
                return Con(a)
        raise TExc(AttributeError)

    def enum_attr(self, v, name):
        ty = v.ty
        raw = None
        for k in ty.cls.__mro__:
            if name in k.__dict__:
                raw = k.__dict__[name]
                break
        if isinstance(raw, pytypes.FunctionType):
            return Bound(Con(raw), v)
        if isinstance(raw, (staticmethod, classmethod)):
            return Con(getattr(ty.cls, name))
        vals = []
        for m in ty.members:
            try:
                vals.append((v.t == ty.const(m), Con(getattr(m, name))))
            except AttributeError:
                raise TExc(AttributeError)
        r = self.merge_vals(vals)
        if r is None:
            r = Choice(vals)
        return r

    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            c = self.cell(v.cid)
            if c.fields is not None:
                if dataclasses.is_dataclass(c.ty.cls) and c.ty.cls.__dataclass_params__.frozen:
                    raise TExc(dataclasses.FrozenInstanceError)
                if c.param is not None and not self.quiet_frame(c.param) and not self.quiet_frame(f"{c.param}.{name}"):
                    same = FALSE
                    if name in c.fields:
                        try:
                            same = self.eq(val, c.fields[name])
                        except (Unsupported, TExc):
                            pass
                    self.obligation(f"frame:{c.param}", same, f"attribute {name} of parameter '{c.param}' is assigned")
                if c.origin == "elem" and not self.job.c.modifies and not self.job.c.own_elements:
                    same = FALSE
                    if name in c.fields:
                        try:
                            same = self.eq(val, c.fields[name])
                        except (Unsupported, TExc):
                            pass
                    self.obligation("frame:elements", same, f"attribute {name} of an element of a list is assigned")
                c = c.copy()
                c.fields[name] = val
                self.st.heap[v.cid] = c
                return
        if isinstance(v, Con) and self.job.setattr_global(self, v.o, name, val):
            return
        raise Unsupported(f"attribute store on {v!r}")

    # ---------------------------------------------------------- subscripts

    def int_index(self, k):
        if isinstance(k, Con) and isinstance(k.o, int):
            return z3.IntVal(int(k.o))
        s = self.lift(k)
        if is_union(s.ty):
            s = self.narrow(s, lambda a: a in (INT, BOOL))
            if s is None:
                raise TExc(TypeError)
        if s.ty in (INT, BOOL):
            return self.coerce(s, INT)
        if isinstance(s.ty, EnumT) and hasattr(s.ty.cls, "__index__"):
            raise Unsupported("enum index")
        raise TExc(TypeError)

    def norm_index(self, i, n):
        """python index -> in-range index term; raises IndexError"""
        i2 = i
        ic = z3.simplify(i)
        if z3.is_int_value(ic):
            if ic.as_long() in (0, -1) and z3.is_app(n) and n.decl().name().startswith("len<"):
                # in range iff not empty
                e = n.arg(0)
                if not self.branch(znot(e.sort().recognizer(0)(e))):
                    raise TExc(IndexError)
                return ic if ic.as_long() == 0 else n + ic
            if ic.as_long() < 0:
                i2 = n + ic
        else:
            if self._entailed(i >= 0):
                i2 = i
            else:
                i2 = z3.If(i < 0, n + i, i)
        if not self.branch(z3.And(i2 >= 0, i2 < n)):
            raise TExc(IndexError)
        return i2

    def getitem(self, base, k):
        if isinstance(base, Con):
            o = base.o
            if isinstance(k, Con):
                if isinstance(o, type) or hasattr(o, "__class_getitem__") or type(o).__module__ == "typing":
                    try:
                        return Con(o[k.o])
                    except TypeError:
                        raise TExc(TypeError)
                try:
                    return Con(o[k.o])
                except (KeyError, IndexError, TypeError) as e:
                    raise TExc(type(e))
            if isinstance(o, dict) and rec_of(type(o)) is None:
                return self.con_dict_get(o, k, None, True)
            if isinstance(o, (list, tuple)):
                return self.con_seq_get(o, k)
            if isinstance(o, type) and isinstance(k, TupV):
                raise Unsupported("generic alias")
        if isinstance(base, TupV) or isinstance(base, Sym) and isinstance(base.ty, TupT):
            items = self.tuple_items(base)
            if isinstance(k, Con):
                try:
                    return items[k.o]
                except IndexError:
                    raise TExc(IndexError)
                except TypeError:
                    raise TExc(TypeError)
            i = self.int_index(k)
            for j, x in enumerate(items):
                if self.branch(i == j):
                    return x
            raise TExc(IndexError)
        if isinstance(base, Choice):
            for c, x in base.alts[:-1]:
                if self.branch(c):
                    return self.getitem(x, k)
            return self.getitem(base.alts[-1][1], k)
        if isinstance(base, ConcIter):
            raise TExc(TypeError)
        if isinstance(base, Ref) and self.cell(base.cid).fields is not None:
            m = getattr(self.cell(base.cid).ty.cls, "__getitem__", None)
            if m is None:
                raise TExc(TypeError)
            return self.call(Con(m), [base, k], {})
        mut = base if isinstance(base, (Ref, PRef)) else None
        s = self.deref(base)
        if isinstance(s, Sym) and is_union(s.ty):
            w = self.narrow(s, lambda a: isinstance(a, (ListT, TupT, DictT)) or a == STR or isinstance(a, RecT))
            if w is None:
                raise TExc(TypeError)
            return self.getitem(w, k)
        if isinstance(s, Sym):
            ty, t = s.ty, s.t
            if isinstance(ty, ListT):
                ln = TH.f_len(ty.elem)
                i = self.int_index(k)
                ic = z3.simplify(i)
                if z3.is_int_value(ic) and ic.as_long() == -1 and not isinstance(ty.elem, UnknownT):
                    if not self.branch(znot(is_nil(ty, t))):
                        raise TExc(IndexError)
                    return self.component(mut, ("idx", ln(t) - 1), Sym(ty.elem, T.last(ty, t)))
                if isinstance(ty.elem, UnknownT):
                    raise TExc(IndexError)
                sp = self.spine(ty, t)
                if sp is not None and z3.is_int_value(ic):
                    j = ic.as_long()
                    if not -len(sp) <= j < len(sp):
                        raise TExc(IndexError)
                    return self.component(mut, ("idx", z3.IntVal(j % len(sp))), Sym(ty.elem, sp[j]))
                at = self.st.ghost.get(("nth", t.get_id(), ic.get_id()))
                if at is not None and at[2].ty == ty.elem:
                    return self.component(mut, ("idx", i), at[2])
                i = self.norm_index(i, ln(t))
                return self.component(mut, ("idx", i), Sym(ty.elem, TH.f_nth(ty.elem)(t, i)))
            if isinstance(ty, DictT):
                if isinstance(ty.k, UnknownT):
                    raise TExc(KeyError)
                kt = self.key_term(ty, k)
                if kt is None:
                    raise TExc(KeyError)
                if ty.pytype is collections.defaultdict:
                    raise Unsupported("defaultdict lookup")
                self.key_fact(ty, t, kt)
                if not self.branch(ty.has(t, kt)):
                    raise TExc(KeyError)
                return self.component(mut, ("key", kt), Sym(ty.v, ty.get(t, kt)))
            if ty == STR:
                i = self.norm_index(self.int_index(k), z3.Length(t))
                return Sym(STR, z3.SubString(t, i, 1))
            if isinstance(ty, RecT) and hasattr(ty.cls, "__getitem__"):
                return self.call(Con(ty.cls.__getitem__), [s, k], {})
            if isinstance(ty, OpaqueT) and (ty.name, "[]") in EXT_ATTR:
                return EXT_ATTR[(ty.name, "[]")](self, s, k)
            raise TExc(TypeError)
        raise Unsupported(f"subscript of {base!r}")

    def component(self, mut, step, s):
        """value of a component of a container; an alias if the component is itself mutable"""
        if mut is not None and (isinstance(s.ty, (DictT, SetT)) or type(s.ty) is ListT or (isinstance(s.ty, RecT) and not s.ty.frozen)
                                or isinstance(s.ty, TupT) and any(isinstance(e, (DictT, SetT)) or type(e) is ListT for e in s.ty.elems)):
            c = self.cell(mut.cid)
            if c.fields is not None:
                return s
            steps = (mut.steps if isinstance(mut, PRef) else ()) + (step,)
            if isinstance(s.ty, TupT):
                out = []
                for i, e in enumerate(s.ty.elems):
                    x = Sym(e, s.ty.get(s.t, i))
                    if isinstance(e, (DictT, SetT)) or type(e) is ListT:
                        out.append(PRef(mut.cid, steps + (("tup", i),), e, c.sver, c.dver, x))
                    else:
                        out.append(x)
                return TupV(out)
            return PRef(mut.cid, steps, s.ty, c.sver, c.dver, s)
        return s

    def key_term(self, ty, k):
        """term of a dictionary key, or None when the key cannot be in the dictionary"""
        s = self.lift(self.deref(k))
        if s.ty == ty.k:
            return s.t
        if is_union(s.ty) and not is_union(ty.k):
            w = self.narrow(s, lambda a: a == ty.k)
            if w is None:
                return None
            return w.t
        if self.can_coerce(s.ty, ty.k):
            return self.coerce(s, ty.k)
        return None

    def con_dict_get(self, o, k, default, strict):
        """lookup of a symbolic key in a concrete table"""
        if isinstance(k, (TupV, Choice)) or isinstance(k, Sym):
            rows = []
            miss = []
            hits = {}
            order = []
            for kk, vv in o.items():
                c = simp_bool(self.eq(k, Con(kk)))
                if z3.is_false(c):
                    continue
                if z3.is_true(c):
                    return Con(vv)
                key = id(vv)
                if key not in hits:
                    hits[key] = (vv, [])
                    order.append(key)
                hits[key][1].append(c)
            anyc = zor([c for key in order for c in hits[key][1]])
            if not order:
                if strict:
                    raise TExc(KeyError)
                return default
            if self._entailed(anyc):
                pass
            elif strict:
                if not self.branch(anyc):
                    raise TExc(KeyError)
            rows = [(zor(hits[key][1]), Con(hits[key][0])) for key in order]
            if not strict and not self._entailed(anyc):
                if isinstance(default, (Con, Sym)):
                    m = self.merge_vals(rows + [(znot(anyc), default)])
                    if m is not None:
                        return m
                if not self.branch(anyc):
                    return default
            m = self.merge_vals(rows)
            if m is not None:
                return m
            return Choice(rows)
        raise Unsupported("table lookup")

    def con_seq_get(self, o, k):
        i = self.int_index(k)
        rows = [(i == j, Con(x)) for j, x in enumerate(o)]
        if not self.branch(z3.And(i >= 0, i < len(o))):
            raise Unsupported("negative or out-of-range symbolic index in constant sequence")
        m = self.merge_vals(rows)
        return m if m is not None else Choice(rows)

    def setitem(self, base, k, val):
        if isinstance(base, Con):
            if self.job.setitem_global(self, base.o, k, val):
                return
            raise Unsupported("store into a constant table")
        if not isinstance(base, (Ref, PRef)):
            if isinstance(base, Sym) and is_union(base.ty):
                raise Unsupported("store into union")
            if isinstance(base, Sym) and isinstance(base.ty, OpaqueT) and (base.ty.name, "[]=") in EXT_ATTR:
                return EXT_ATTR[(base.ty.name, "[]=")](self, base, k, val)
            raise TExc(TypeError) if isinstance(base, (TupV,)) else Unsupported(f"store into {base!r}")
        s = self.rd(base)
        v = self.lift(self.deref(val))
        ty = s.ty
        if isinstance(ty, DictT):
            ks = self.lift(self.deref(k))
            kt, vt = self.join(ty.k, ks.ty), self.join(ty.v, v.ty)
            nty = DictT(kt, vt, ty.pytype)
            if nty != ty:
                self.need(base, ty, nty)
            self.wr(base, Sym(ty, TH.f_put(ty)(s.t, self.coerce(ks, ty.k), self.coerce(v, ty.v))))
            return
        if isinstance(ty, ListT):
            i = self.norm_index(self.int_index(k), TH.f_len(ty.elem)(s.t))
            e = self.join(ty.elem, v.ty)
            if e != ty.elem:
                self.need(base, ty, ListT(e))
            self.wr(base, Sym(ty, TH.f_update(ty.elem)(s.t, i, self.coerce(v, ty.elem))))
            return
        raise Unsupported(f"item store into {ty}")

    def need(self, loc, old, new):
        """the location must have type new"""
        if isinstance(loc, Ref) and self.cell(loc.cid).site is not None and not has_unknown(new):
            self.retype(self.cell(loc.cid).site, old, new)
        if has_unknown(old):
            self._retype_deep(old, new)
        if isinstance(loc, Ref):
            self.retype(self.cell(loc.cid).site, old, new)
        raise Unsupported(f"cannot store in {old}: needs {new}")

    def slice(self, base, lo, hi, st):
        if isinstance(base, Con) and all(x is None or isinstance(x, Con) for x in (lo, hi, st)):
            return Con(base.o[slice(*[None if x is None else x.o for x in (lo, hi, st)])])
        items = self.tuple_items(base) if not isinstance(base, Con) else None
        if items is not None and all(x is None or isinstance(x, Con) for x in (lo, hi, st)):
            return TupV(items[slice(*[None if x is None else x.o for x in (lo, hi, st)])])
        s = self.lift(self.deref(base))
        if is_union(s.ty):
            s = self.narrow(s, lambda a: isinstance(a, (ListT,)) or a == STR)
            if s is None:
                raise TExc(TypeError)
        if st is not None:
            if isinstance(st, Con) and st.o == -1 and lo is None and hi is None and isinstance(s.ty, ListT):
                return self.new_mutable(Sym(s.ty, TH.f_rev(s.ty.elem)(s.t)))
            raise Unsupported("slice step")
        if s.ty == STR:
            n = z3.Length(s.t)
            a = z3.IntVal(0) if lo is None else self.clamp(self.int_index(lo), n)
            b = n if hi is None else self.clamp(self.int_index(hi), n)
            ln = b - a if not (lo is None) else b
            return Sym(STR, z3.If(b >= a, z3.SubString(s.t, a, ln), z3.StringVal("")) if lo is not None and hi is not None else z3.SubString(s.t, a, ln))
        if isinstance(s.ty, ListT):
            if isinstance(s.ty.elem, UnknownT):
                return self.new_mutable(s)
            sp = self.spine(s.ty, s.t)
            if sp is not None and all(x is None or isinstance(x, Con) for x in (lo, hi)):
                t = nil(s.ty)
                for x in sp[slice(*[None if x is None else x.o for x in (lo, hi)])]:
                    t = snoc(s.ty, t, x)
                r = Sym(s.ty, t)
            else:
                n = TH.f_len(s.ty.elem)(s.t)
                t = s.t
                if hi is not None:
                    t = TH.f_take(s.ty.elem)(t, self.clamp(self.int_index(hi), n))
                if lo is not None:
                    t = TH.f_drop(s.ty.elem)(t, self.clamp(self.int_index(lo), n))
                r = Sym(s.ty, t)
            return r if isinstance(s.ty, VTupT) else self.new_mutable(r)
        raise TExc(TypeError)

    def clamp(self, i, n):
        ic = z3.simplify(i)
        if z3.is_int_value(ic):
            if ic.as_long() >= 0:
                return z3.If(ic <= n, ic, n)
            return z3.If(n + ic >= 0, n + ic, z3.IntVal(0))
        if self._entailed(z3.And(i >= 0, i <= n)):
            return i
        return z3.If(i < 0, z3.If(n + i >= 0, n + i, z3.IntVal(0)), z3.If(i <= n, i, n))

    # ---------------------------------------------------------- membership

    def contains(self, cont, x):
        if isinstance(cont, Con) and isinstance(x, Con):
            try:
                return z3.BoolVal(x.o in cont.o)
            except TypeError:
                raise TExc(TypeError)
        if isinstance(cont, Con):
            o = cont.o
            if isinstance(o, str):
                return z3.Contains(z3.StringVal(o), self.str_term(x))
            if isinstance(o, (list, tuple, set, frozenset, dict)):
                if isinstance(o, (set, frozenset)):
                    o = sorted(o, key=repr)
                return zor([self.eq(x, Con(y)) for y in o])
        if isinstance(cont, Choice):
            return zor([z3.And(c, self.contains(y, x)) for c, y in cont.alts])
        if isinstance(cont, Ref) and self.cell(cont.cid).fields is not None:
            m = getattr(self.cell(cont.cid).ty.cls, "__contains__", None)
            if m is not None:
                return self.truth(self.call(Con(m), [cont, x], {}))
        if isinstance(cont, GenV):
            cont = self.lift(self.gen_consume(cont, "listcomp"))
        items = self.tuple_items(cont)
        if items is None and isinstance(cont, ConcIter):
            items = cont.items
        if items is not None:
            return zor([self.eq(x, y) for y in items])
        s = self.lift(self.deref(cont))
        if is_union(s.ty):
            w = self.narrow(s, lambda a: isinstance(a, (ListT, TupT, DictT, SetT)) or a == STR)
            if w is None:
                raise TExc(TypeError)
            return self.contains(w, x)
        ty, t = s.ty, s.t
        if ty == STR:
            return z3.Contains(t, self.str_term(x))
        if isinstance(ty, (ListT, SetT)) and isinstance(ty.elem, UnknownT) or isinstance(ty, DictT) and isinstance(ty.k, UnknownT):
            return FALSE
        if isinstance(ty, ListT):
            sp = self.spine(ty, t)
            xs = self.lift(self.deref(x))
            if sp is not None:
                return zor([self.eq_sym(xs, Sym(ty.elem, y)) for y in sp])
            if xs.ty == ty.elem:
                xt = xs.t
            elif self.can_coerce(xs.ty, ty.elem):
                xt = self.coerce(xs, ty.elem)
            elif is_union(xs.ty):
                return zor([z3.And(xs.ty.is_(i, xs.t), self.contains(s, Sym(a, xs.ty.proj(i, xs.t)))) for i, a in enumerate(xs.ty.alts) if self.can_coerce(a, ty.elem)])
            else:
                return FALSE
            return TH.f_mem(ty.elem)(xt, t)
        if isinstance(ty, SetT):
            xs = self.lift(self.deref(x))
            if is_union(xs.ty) and not is_union(ty.elem):
                return zor([z3.And(xs.ty.is_(i, xs.t), self.contains(s, Sym(a, xs.ty.proj(i, xs.t)))) for i, a in enumerate(xs.ty.alts) if self.can_coerce(a, ty.elem)])
            if not self.can_coerce(xs.ty, ty.elem):
                return FALSE
            return z3.Select(t, self.coerce(xs, ty.elem))
        if isinstance(ty, DictT):
            xs = self.lift(self.deref(x))
            if is_union(xs.ty) and not is_union(ty.k):
                return zor([z3.And(xs.ty.is_(i, xs.t), ty.has(t, self.coerce(Sym(a, xs.ty.proj(i, xs.t)), ty.k))) for i, a in enumerate(xs.ty.alts) if self.can_coerce(a, ty.k)])
            if not self.can_coerce(xs.ty, ty.k):
                return FALSE
            kt = self.coerce(xs, ty.k)
            self.key_fact(ty, t, kt)
            return ty.has(t, kt)
        if isinstance(ty, RecT) and hasattr(ty.cls, "__contains__"):
            return self.truth(self.call(Con(ty.cls.__contains__), [s, x], {}))
        raise TExc(TypeError)

    # ----------------------------------------------------------- operators

    def binop(self, op, a, b):
        if isinstance(a, Con) and isinstance(b, Con):
            import operator as O
            f = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul, ast.FloorDiv: O.floordiv, ast.Mod: O.mod, ast.Div: O.truediv,
                 ast.Pow: O.pow, ast.BitOr: O.or_, ast.BitAnd: O.and_, ast.BitXor: O.xor, ast.LShift: O.lshift, ast.RShift: O.rshift}[type(op)]
            try:
                r = f(a.o, b.o)
            except Exception as e:
                raise TExc(type(e))
            if isinstance(r, (list, dict, set)):
                return self.new_mutable(self.lift(Con(r)))
            return Con(r)
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, ast.Add):
            ia, ib = self.tuple_items(a), self.tuple_items(b)
            if ia is not None and ib is not None:
                return TupV(ia + ib)
        if isinstance(op, ast.Mult) and (isinstance(a, Con) and isinstance(a.o, (list, str)) or isinstance(a, Sym) and (isinstance(a.ty, ListT) or a.ty == STR)):
            la = self.lift(a)
            n = self.int_index(b)
            if la.ty == STR:
                return Sym(STR, str_uf("repeat", INT)(la.t, n))
            if isinstance(la.ty.elem, UnknownT):
                return la
            return self.new_mutable(Sym(la.ty, TH.uf(f"repeat<{la.ty.elem.key}>", [la.ty, INT], la.ty)(la.t, n)))
        if isinstance(op, ast.Mod) and isinstance(a, Con) and isinstance(a.o, str):
            raise Unsupported("% formatting")
        sa, sb = self.lift(a), self.lift(b)
        for s in (sa, sb):
            if isinstance(s.ty, OpaqueT) and (s.ty.name, type(op)) in EXT_ATTR:
                return EXT_ATTR[(s.ty.name, type(op))](self, sa, sb)
        if is_union(sa.ty):
            w = self.split_union(sa)
            return self.binop(op, w, sb)
        if is_union(sb.ty):
            w = self.split_union(sb)
            return self.binop(op, sa, w)
        if isinstance(op, ast.Add):
            if sa.ty == STR and sb.ty == STR:
                return Sym(STR, z3.Concat(sa.t, sb.t))
            if isinstance(sa.ty, ListT) and isinstance(sb.ty, ListT) and isinstance(sa.ty, VTupT) == isinstance(sb.ty, VTupT):
                r = self.list_concat(sa, sb)
                return r if isinstance(sa.ty, VTupT) else self.new_mutable(r)
        if isinstance(sa.ty, SetT) and isinstance(sb.ty, SetT):
            return self.new_mutable(self.set_op({ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^"}[type(op)], sa, sb))
        if isinstance(op, ast.BitOr) and isinstance(sa.ty, DictT) and isinstance(sb.ty, DictT):
            return self.new_mutable(self.dict_merge(sa, sb))
        num = lambda s: s.ty in (INT, BOOL)
        if num(sa) and num(sb):
            x, y = self.coerce(sa, INT), self.coerce(sb, INT)
            if isinstance(op, ast.Add):
                return Sym(INT, x + y)
            if isinstance(op, ast.Sub):
                return Sym(INT, x - y)
            if isinstance(op, ast.Mult):
                return Sym(INT, x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if not self.branch(y != 0):
                    raise TExc(ZeroDivisionError)
                q = z3.If(y > 0, x / y, (-x) / (-y))
                if isinstance(op, ast.FloorDiv):
                    return Sym(INT, q)
                return Sym(INT, x - y * q)
            if isinstance(op, ast.Div):
                if not self.branch(y != 0):
                    raise TExc(ZeroDivisionError)
                TH.trust("python:true division", "the quotient of two integers is a float determined by them, or OverflowError is raised")
                if not self.branch(z3.Or(z3.And(x < 2 ** 1000, x > -2 ** 1000), TH.uf("quotient fits", [INT, INT], BOOL)(x, y))):
                    raise TExc(OverflowError)
                return Sym(FLOAT, TH.uf("true_div", [INT, INT], FLOAT)(x, y))
            raise Unsupported(f"integer operator {type(op).__name__}")
        if FLOAT in (sa.ty, sb.ty):
            x, y = self.as_float(sa), self.as_float(sb)
            if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
                TH.trust("python:floats", "floating point operations are functions of their operands")
                return Sym(FLOAT, TH.uf(f"float_{type(op).__name__}", [FLOAT, FLOAT], FLOAT)(x, y))
            raise Unsupported("float arithmetic")
        raise TExc(TypeError)

    def set_op(self, op, a, b):
        if isinstance(a.ty.elem, UnknownT):
            return {"|": b, "&": a, "-": a, "^": b}[op]
        if isinstance(b.ty.elem, UnknownT):
            return {"|": a, "&": b, "-": a, "^": a}[op]
        j = self.join(a.ty, b.ty)
        x, y = self.coerce(a, j), self.coerce(b, j)
        if op == "|":
            t = z3.SetUnion(x, y)
        elif op == "&":
            t = z3.SetIntersect(x, y)
        elif op == "-":
            t = z3.SetDifference(x, y)
        else:
            t = z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))
        return Sym(j, t)

    # -------------------------------------------------------------- strings

    def to_str(self, v):
        if isinstance(v, Con):
            return Con(str(v.o))
        v = self.deref(v)
        if isinstance(v, Choice):
            vals = [(c, self.to_str(x)) for c, x in v.alts]
            return self.merge_vals(vals) or self.bad("str")
        if isinstance(v, ExcV):
            return self.fresh(STR, "excstr")
        try:
            s = self.lift(v)
        except Unsupported:
            return self.fresh(STR, "strof")
        if s.ty == STR:
            return s
        if s.ty == BOOL:
            return Sym(STR, z3.If(s.t, z3.StringVal("True"), z3.StringVal("False")))
        if s.ty == INT:
            return Sym(STR, TH.uf("str_of_int", [INT], STR)(s.t))
        if s.ty == NONE:
            return Con("None")
        if isinstance(s.ty, EnumT):
            m = self.merge_vals([(s.t == s.ty.const(m), Con(str(m))) for m in s.ty.members])
            return m
        if is_union(s.ty):
            w = self.split_union(s)
            return self.to_str(w)
        if isinstance(s.ty, RecT) and s.ty.cls is not None and "__str__" in s.ty.cls.__dict__ and is_user_function(s.ty.cls.__str__):
            return self.call(Con(s.ty.cls.__str__), [v], {})
        if isinstance(s.ty, OpaqueT) and "__str__" in s.ty.methods:
            return s.ty.methods["__str__"](self, s, [], {})
        TH.trust("python:str() is a function of the value", "str() of a container or opaque value is a function of the value")
        return Sym(STR, TH.uf(f"str_of<{s.ty.key}>", [s.ty], STR)(s.t))

    def to_repr(self, v):
        if isinstance(v, Con):
            return Con(repr(v.o))
        s = self.lift(self.deref(v))
        return Sym(STR, TH.uf(f"repr_of<{s.ty.key}>", [s.ty], STR)(s.t))

    def m_str(self, recv, name, args, kwargs):
        if isinstance(recv, Con) and all_con(args, kwargs) and name not in ("join",):
            try:
                return self.pyval(getattr(recv.o, name)(*[a.o for a in args], **{k: a.o for k, a in kwargs.items()}))
            except Exception as e:
                raise TExc(type(e))
        t = self.str_term(recv)
        if all_con(args, kwargs) and name in ("lower", "upper", "strip", "lstrip", "rstrip", "capitalize", "title", "casefold", "replace", "startswith", "endswith", "isdecimal", "isdigit", "isalpha", "isupper", "islower", "removeprefix", "removesuffix"):
            r = literal_map(t, lambda x: getattr(x, name)(*[a.o for a in args], **{k: a.o for k, a in kwargs.items()}))
            if r is not None:
                return self.mkbool(r) if z3.is_bool(r) else Sym(STR, r)
        if name in ("startswith", "endswith"):
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            items = self.tuple_items(args[0])
            if items is not None:
                return self.mkbool(zor([f(self.str_term(x), t) for x in items]))
            return self.mkbool(f(self.str_term(args[0]), t))
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "capitalize", "title", "casefold") and not args:
            u = str_uf(name)
            self.str_facts(name, u, t)
            return Sym(STR, u(t))
        if name == "encode" and not args and set(kwargs) <= {"errors"}:
            return Sym(BYTES, TH.uf(f"str_encode_{kwargs['errors'].o if kwargs else 'strict'}", [STR], BYTES)(t))
        if name in ("strip", "lstrip", "rstrip") and len(args) == 1:
            return Sym(STR, str_uf(name + "_chars", STR)(t, self.str_term(args[0])))
        if name in ("isdecimal", "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isidentifier", "isnumeric", "isascii"):
            return Sym(BOOL, str_uf(name, ret=BOOL)(t))
        if name == "count" and len(args) == 1:
            r = str_uf("count", STR, ret=INT)(t, self.str_term(args[0]))
            self.assume_once(r >= 0)
            return Sym(INT, r)
        if name == "find" and len(args) == 1:
            return Sym(INT, z3.IndexOf(t, self.str_term(args[0]), 0))
        if name == "replace" and len(args) == 2:
            u = str_uf("replace", STR, STR)
            lab = "python:str.replace of an absent substring"
            if lab not in TH.TRUSTED:
                TH.trust(lab, "s.replace(a, b) == s when a does not occur in s")
                xs, xa, xb = (TH.qvar(z3.StringSort(), h) for h in "sab")
                TH.add_ax(u, TH.forall([xs, xa, xb], z3.Implies(z3.Not(z3.Contains(xs, xa)), u(xs, xa, xb) == xs), u(xs, xa, xb)), "trusted", lab)
            return Sym(STR, u(t, self.str_term(args[0]), self.str_term(args[1])))
        if name in ("removeprefix", "removesuffix"):
            p = self.str_term(args[0])
            if name == "removeprefix":
                return Sym(STR, z3.If(z3.PrefixOf(p, t), z3.SubString(t, z3.Length(p), z3.Length(t) - z3.Length(p)), t))
            return Sym(STR, z3.If(z3.SuffixOf(p, t), z3.SubString(t, 0, z3.Length(t) - z3.Length(p)), t))
        if name in ("find", "index") and len(args) == 1:
            i = z3.IndexOf(t, self.str_term(args[0]), 0)
            if name == "index" and not self.branch(i >= 0):
                raise TExc(ValueError)
            return Sym(INT, i)
        if name == "partition":
            sep = self.str_term(args[0])
            c = z3.Contains(t, sep)
            i = z3.IndexOf(t, sep, 0)
            e = z3.StringVal("")
            return TupV([Sym(STR, z3.If(c, z3.SubString(t, 0, i), t)), Sym(STR, z3.If(c, sep, e)),
                         Sym(STR, z3.If(c, z3.SubString(t, i + z3.Length(sep), z3.Length(t) - i - z3.Length(sep)), e))])
        if name == "split":
            L = ListT(STR)
            mx = args[1] if len(args) > 1 else kwargs.get("maxsplit")
            if not args and not kwargs:
                return self.new_mutable(Sym(L, str_uf("split_ws", ret=L)(t)))
            sep = self.str_term(args[0])
            if mx is None:
                r = str_uf("split", STR, ret=L)(t, sep)
                TH.trust("python:str.split yields at least one part", "s.split(sep) is a non-empty list determined by s and sep")
                self.assume_once(znot(is_nil(L, r)))
                return self.new_mutable(Sym(L, r))
            if isinstance(mx, Con) and mx.o == 1:
                c = z3.Contains(t, sep)
                i = z3.IndexOf(t, sep, 0)
                if self.branch(c):
                    r = snoc(L, snoc(L, nil(L), z3.SubString(t, 0, i)), z3.SubString(t, i + z3.Length(sep), z3.Length(t) - i - z3.Length(sep)))
                else:
                    r = snoc(L, nil(L), t)
                return self.new_mutable(Sym(L, r))
            raise Unsupported("split maxsplit")
        if name == "splitlines":
            return self.new_mutable(Sym(ListT(STR), str_uf("splitlines", ret=ListT(STR))(t)))
        if name == "join":
            it = args[0]
            if isinstance(it, GenV):
                it = self.gen_consume(it, "listcomp")
            s = self.lift(self.deref(it)) if not isinstance(it, (ConcIter, IterV)) else self.lift(it)
            if is_union(s.ty):
                w = self.narrow(s, lambda a: isinstance(a, (ListT, TupT, DictT, SetT)) or a == STR)
                if w is None:
                    raise TExc(TypeError)
                s = w
            if s.ty == STR:
                s = self.iter_to_list(self.to_iter(s))
            if isinstance(s.ty, TupT):
                s = Sym(ListT(self.join_all(s.ty.elems)), self.coerce(s, VTupT(self.join_all(s.ty.elems))))
            if isinstance(s.ty, DictT):
                s = Sym(ListT(s.ty.k), s.ty.order(s.t))
            if isinstance(s.ty, SetT):
                s = Sym(ListT(s.ty.elem), TH.f_setlist(s.ty.elem)(s.t))
            if not isinstance(s.ty, ListT):
                raise TExc(TypeError)
            if isinstance(s.ty.elem, UnknownT):
                return Con("")
            L = ListT(STR)
            if s.ty.elem != STR:
                sp = self.spine(s.ty, s.t)
                if sp is not None:
                    s = Sym(L, self.coerce(self.mk_listlit([Sym(STR, self.str_term(Sym(s.ty.elem, x))) for x in sp], ListT), L))
                elif is_union(s.ty.elem):
                    # every element must be a string
                    ety = s.ty.elem
                    x = self.fresh(ety, "jx")
                    p = self.fresh_term(ListT(ety).sort(), "jp")
                    si = [i for i, a in enumerate(ety.alts) if a == STR]
                    if not si:
                        raise TExc(TypeError)
                    pos = ety.is_(si[0], x.t)
                    f, caps = self.fold_of(BOOL, ety, p, x.t, lambda acc: (TRUE, z3.And(acc, pos)), "all", {"elt": pos, "cond": None}, None)
                    if not self.branch(f.dcl(*caps, s.t)):
                        raise TExc(TypeError)
                    e = ety.proj(si[0], x.t)
                    f, caps = self.fold_of(L, ety, p, x.t, lambda acc: (nil(L), snoc(L, acc, e)), "listcomp", {"elt": e, "cond": None}, None)
                    s = Sym(L, f.dcl(*caps, s.t))
                else:
                    raise TExc(TypeError)
            sp = self.spine(L, s.t)
            if sp is not None and len(sp) <= 1:
                return Sym(STR, sp[0]) if sp else Con("")
            TH.trust("python:str.join is a function", "sep.join(list) is a function of sep and the list")
            return Sym(STR, str_uf("join", L)(t, s.t))
        if name == "encode":
            enc = OPAQUES.setdefault("bytes", OpaqueT("bytes", bytes, truthy=False))
            return Sym(enc, str_uf("encode", ret=enc)(t))
        if name == "format":
            if len(args) == 1 and isinstance(args[0], StarV) and not kwargs:
                l = self.as_list(args[0].v)
                l = self.coerce(l, ListT(STR))
                why = str_uf("format_outcome", ListT(STR), ret=INT)(t, l)
                TH.trust("python:str.format", "template.format(*parts) either raises one of " + ", ".join(x.__name__ for x in FORMAT_ERRORS) + " or yields a string determined by template and parts")
                for i, x in enumerate(FORMAT_ERRORS):
                    if self.branch(why == i):
                        raise TExc(x)
                return Sym(STR, str_uf("format", ListT(STR))(t, l))
            raise Unsupported("format")
        raise Unsupported(f"str.{name}")

    def join_all(self, tys):
        r = None
        for x in tys:
            r = x if r is None else self.join(r, x)
        return r if r is not None else unknown()

    def str_facts(self, name, u, t):
        if name in ("lower", "upper", "strip"):
            lab = f"python:str.{name} idempotent"
            if lab not in TH.TRUSTED:
                TH.trust(lab, f"s.{name}().{name}() == s.{name}()")
                x = TH.qvar(z3.StringSort(), "s")
                TH.add_ax(u, TH.forall([x], u(u(x)) == u(x), u(u(x))), "trusted", lab)

    def pyval(self, o):
        """result of a concrete computation: fresh mutable containers"""
        if isinstance(o, (list, dict, set)) and not self.spec_depth:
            return self.new_mutable(self.lift(Con(o)))
        return Con(o)

    # ------------------------------------------------------ container methods

    def call_method(self, recv, name, args, kwargs):
        if name == "__iter__" and not args and not kwargs:
            return self.to_iter(recv)
        if isinstance(recv, Choice):
            for c, x in recv.alts[:-1]:
                if self.branch(c):
                    return self.call_method(x, name, args, kwargs)
            return self.call_method(recv.alts[-1][1], name, args, kwargs)
        if isinstance(recv, Con):
            o = recv.o
            if isinstance(o, str):
                return self.m_str(recv, name, args, kwargs)
            if isinstance(o, dict):
                if name == "get":
                    d = args[1] if len(args) > 1 else Con(None)
                    if isinstance(args[0], Con):
                        return Con(o[args[0].o]) if args[0].o in o else d
                    return self.con_dict_get(o, args[0], d, False)
                if name in ("items", "keys", "values"):
                    return Con(getattr(o, name)())
            if all_con(args, kwargs) and isinstance(o, SAFE_TYPES):
                try:
                    return self.pyval(getattr(o, name)(*[a.o for a in args], **{k: a.o for k, a in kwargs.items()}))
                except Exception as e:
                    raise TExc(type(e))
            if isinstance(o, (list, dict, set)) and name in ("append", "extend", "update", "add", "pop", "clear", "insert", "setdefault", "remove", "__delitem__"):
                raise Unsupported("mutation of a global table")
            recv = self.lift(recv)
        if isinstance(recv, (TupV, ConcIter)):
            recv = self.lift(recv)
        loc = recv if isinstance(recv, (Ref, PRef)) else None
        if loc is not None and isinstance(loc, Ref) and self.cell(loc.cid).fields is not None:
            raise Unsupported(f"method {name} of object")
        s = self.rd(recv) if loc is not None else recv
        if isinstance(s, Sym) and is_union(s.ty):
            w = self.narrow(s, lambda a: self.has_attr_ty(a, name))
            if w is None:
                raise TExc(AttributeError)
            if loc is not None:
                raise Unsupported("method of union location")
            return self.call_method(w, name, args, kwargs)
        if not isinstance(s, Sym):
            raise Unsupported(f"method {name} of {s!r}")
        ty = s.ty
        if ty == STR:
            return self.m_str(s, name, args, kwargs)
        if isinstance(ty, ListT):
            return self.m_list(loc, s, name, args, kwargs)
        if isinstance(ty, SetT):
            return self.m_set(loc, s, name, args, kwargs)
        if isinstance(ty, DictT):
            return self.m_dict(loc, s, name, args, kwargs)
        if isinstance(ty, OpaqueT) and name in ty.methods:
            return ty.methods[name](self, s, args, kwargs)
        raise Unsupported(f"{ty}.{name}")

    def need_loc(self, loc, s=None):
        if loc is None:
            raise Unsupported("mutation of an immutable snapshot")

    def m_list(self, loc, s, name, args, kwargs):
        ty, t = s.ty, s.t
        if name in ("append", "extend", "insert", "pop", "reverse", "sort", "clear", "remove", "__delitem__"):
            self.need_loc(loc)
        if name == "append":
            x = self.lift(self.deref(args[0]))
            e = self.join(ty.elem, x.ty)
            if e != ty.elem:
                self.need(loc, ty, ListT(e))
            self.wr(loc, Sym(ty, snoc(ty, t, self.coerce(x, ty.elem))), structural=False)
            return Con(None)
        if name == "extend":
            l = self.as_list(args[0])
            j = self.join(ty, l.ty)
            if j != ty:
                self.need(loc, ty, j)
            if isinstance(l.ty.elem, UnknownT):
                return Con(None)
            self.wr(loc, self.list_concat(s, l), structural=False)
            return Con(None)
        if name == "reverse":
            if not isinstance(ty.elem, UnknownT):
                self.wr(loc, Sym(ty, TH.f_rev(ty.elem)(t)))
            return Con(None)
        if name == "insert":
            x = self.lift(self.deref(args[1]))
            e = self.join(ty.elem, x.ty)
            if e != ty.elem:
                self.need(loc, ty, ListT(e))
            if isinstance(args[0], Con) and args[0].o == 0:
                one = snoc(ty, nil(ty), self.coerce(x, ty.elem))
                sp = self.spine(ty, t)
                self.wr(loc, self.list_concat(Sym(ty, one), s))
                return Con(None)
            raise Unsupported("insert position")
        if name == "clear":
            self.wr(loc, Sym(ty, nil(ty)))
            return Con(None)
        if name == "pop":
            if not args or isinstance(args[0], Con) and args[0].o == -1:
                if isinstance(ty.elem, UnknownT) or not self.branch(znot(is_nil(ty, t))):
                    raise TExc(IndexError)
                r = Sym(ty.elem, T.last(ty, t))
                self.wr(loc, Sym(ty, T.init(ty, t)))
                return r
            raise Unsupported("pop position")
        if name == "copy":
            return self.new_mutable(Sym(ListT(ty.elem), t))
        if name == "count":
            x = self.lift(self.deref(args[0]))
            if not self.can_coerce(x.ty, ty.elem):
                return Con(0)
            r = TH.uf(f"count<{ty.elem.key}>", [ty, ty.elem], INT)(t, self.coerce(x, ty.elem))
            return Sym(INT, r)
        if name == "sort":
            if isinstance(ty.elem, UnknownT):
                return Con(None)
            r = self.do_sort(s, kwargs)
            self.wr(loc, r)
            return Con(None)
        if name == "__iter__":
            return s
        if name == "index":
            raise Unsupported("list.index")
        raise Unsupported(f"list.{name}")

    def do_sort(self, s, kwargs):
        """stable sort: an uninterpreted function of the list and the list of its keys"""
        ty, t = s.ty, s.t
        key = kwargs.get("key")
        rev = kwargs.get("reverse")
        if rev is not None and not (isinstance(rev, Con) and rev.o in (False, 0)):
            raise Unsupported("reverse sort")
        if key is None or isinstance(key, Con) and key.o is None:
            keys = Sym(ListT(ty.elem), t)
        else:
            it = self.to_iter(Sym(ListT(ty.elem), t))
            keys = self.map_list(it, lambda x: self.call(key, [x], {}), "sortkey")
        TH.trust("python:list.sort", "sort(key=k) yields a stable permutation ordered by k, determined by the list and its key values")
        f = TH.uf(f"sort<{ty.elem.key},{keys.ty.elem.key}>", [ListT(ty.elem), keys.ty], ListT(ty.elem))
        r = f(t, keys.t)
        self.assume_once(TH.f_len(ty.elem)(r) == TH.f_len(ty.elem)(t))
        return Sym(ty, r)

    def map_list(self, it, fn, tag):
        """[fn(x) for x in it]"""
        if isinstance(it, ConcIter):
            return self.mk_listlit([fn(x) for x in it.items], ListT)
        x = self.fresh(it.elem, "cx")
        p = self.fresh_term(ListT(it.elem).sort(), "cp")
        n0 = len(self.st.pc)
        base = self.st

        def run():
            self.assume(TH.f_mem(it.elem)(x.t, it.base))
            if it.assume is not None:
                for a in it.assume(x, p):
                    self.assume(a)
            v, g = it.bind(self, x, p)
            if g is not None and not self.branch(g):
                return ("skip",)
            return ("v", self.lift(self.deref(fn(v))))

        return self.finish_fold("listcomp", run, it, x, p, n0, base, tag)

    def finish_fold(self, kind, run, it, x, p, n0, base, tag):
        outs = self.explore(run, tag)
        rows, excs = [], []
        for k, v, s in outs:
            conds = zand([t for t, kd in s.pc[n0:] if kd == "b"])
            if k == "exc":
                excs.append((conds, v))
            elif k == "ok":
                if len(s.trace) != len(base.trace) or any(not same_cell(c, base.heap[i]) for i, c in s.heap.items() if i in base.heap):
                    raise Unsupported("effect in mapped function")
                rows.append((conds, v, s))
            else:
                raise Unsupported("control flow")
        self.st.cnt = max([self.st.cnt] + [s.cnt for _, _, s in outs])
        for conds, ex in excs:
            f, caps = self.fold_of(BOOL, it.elem, p, x.t, lambda acc: (FALSE, zor([acc, conds])), "any", {"elt": conds, "cond": None}, it)
            if self.branch(f.dcl(*caps, it.base)):
                raise ex
        return self.lift(self.build_fold(kind, rows, it, x, p, None))

    def m_set(self, loc, s, name, args, kwargs):
        ty, t = s.ty, s.t
        if name in ("add", "discard", "remove", "update", "clear", "pop"):
            self.need_loc(loc)
        if name in ("add", "discard", "remove"):
            x = self.lift(self.deref(args[0]))
            e = self.join(ty.elem, x.ty)
            if e != ty.elem:
                if name != "add" and isinstance(ty.elem, UnknownT):
                    return Con(None)
                self.need(loc, ty, SetT(e))
            xt = self.coerce(x, ty.elem)
            if name == "remove" and not self.branch(z3.Select(t, xt)):
                raise TExc(KeyError)
            self.wr(loc, Sym(ty, z3.Store(t, xt, z3.BoolVal(name == "add"))))
            return Con(None)
        if name in ("update", "union", "intersection", "difference"):
            acc = s
            for a in args:
                o = self.as_set(a)
                acc = self.set_op({"update": "|", "union": "|", "intersection": "&", "difference": "-"}[name], acc, o)
            if name == "update":
                if acc.ty != ty:
                    self.need(loc, ty, acc.ty)
                self.wr(loc, acc)
                return Con(None)
            return self.new_mutable(acc)
        if name in ("isdisjoint", "issubset", "issuperset"):
            o = self.as_set(args[0])
            if isinstance(o.ty.elem, UnknownT) or isinstance(ty.elem, UnknownT):
                if name == "isdisjoint":
                    return Con(True)
            j = self.join(ty, o.ty)
            a, b = self.coerce(s, j), self.coerce(o, j)
            E = z3.K(j.elem.sort(), FALSE)
            return self.mkbool({"isdisjoint": z3.SetIntersect(a, b) == E, "issubset": z3.IsSubset(a, b), "issuperset": z3.IsSubset(b, a)}[name])
        if name == "copy":
            return self.new_mutable(s)
        raise Unsupported(f"set.{name}")

    def as_set(self, v):
        if isinstance(v, GenV):
            return self.lift(self.gen_consume(v, "setcomp"))
        s = self.deref(v)
        if isinstance(s, Con) and isinstance(s.o, (set, frozenset)):
            return self.lift(s)
        if isinstance(s, Sym) and isinstance(s.ty, SetT):
            return s
        if isinstance(s, Sym) and is_union(s.ty):
            w = self.narrow(s, lambda a: isinstance(a, (ListT, TupT, DictT, SetT)) or a == STR)
            if w is None:
                raise TExc(TypeError)
            return self.as_set(w)
        it = self.to_iter(s)
        if isinstance(it, ConcIter):
            return self.mk_setlit(it.items)
        x = self.fresh(it.elem, "cx")
        p = self.fresh_term(ListT(it.elem).sort(), "cp")
        v, g = it.bind(self, x, p)
        if isinstance(v, Sym) and v.t.eq(x.t) and g is None:
            return Sym(SetT(it.elem), TH.f_setof(it.elem)(it.base))
        l = self.lift(it)
        return Sym(SetT(l.ty.elem), TH.f_setof(l.ty.elem)(l.t))

    def key_fact(self, ty, t, kt):
        """a dictionary given from outside: its keys are those iteration yields"""
        u = t
        while u.num_args() == 1 and u.decl().kind() == z3.Z3_OP_DT_ACCESSOR or z3.is_select(u):
            u = u.arg(0)
        if z3.is_const(u) and not self.spec_depth:
            self.assume_once(ty.has(t, kt) == TH.f_mem(ty.k)(kt, ty.order(t)))

    def m_dict(self, loc, s, name, args, kwargs):
        ty, t = s.ty, s.t
        if name == "get":
            d = args[1] if len(args) > 1 else Con(None)
            if isinstance(ty.k, UnknownT):
                return d
            kt = self.key_term(ty, args[0])
            if kt is None:
                return d
            has = simp_bool(ty.has(t, kt))
            if z3.is_true(has):
                return Sym(ty.v, ty.get(t, kt))
            if z3.is_false(has):
                return d
            self.key_fact(ty, t, kt)
            val = Sym(ty.v, ty.get(t, kt))
            d2 = self.deref(d)
            if isinstance(d2, (Con, Sym)):
                try:
                    ds = self.lift(d2)
                    if ds.ty == NONE or not isinstance(ty.v, (DictT, ListT, SetT, RecT)) or not (ds.ty == ty.v or isinstance(ds.ty, (ListT, SetT, DictT))):
                        m = self.merge_vals([(has, val), (znot(has), ds)])
                        if m is not None and not self.pyclass_ambiguous(m, val, ds):
                            return m
                    else:
                        j = self.join(ty.v, ds.ty)
                        return Sym(j, z3.If(has, self.coerce(val, j), self.coerce(ds, j)))
                except Unsupported:
                    pass
            if self.branch(has):
                return val
            return d
        if name in ("items", "keys", "values"):
            return self.dict_iter(s, name)
        if name == "copy":
            return self.new_mutable(s)
        if name == "__contains__":
            return self.mkbool(self.contains(s, args[0]))
        self.need_loc(loc)
        if name == "update":
            if kwargs:
                raise Unsupported("update kwargs")
            o = self.lift(self.deref(args[0]))
            if is_union(o.ty):
                o = self.narrow(o, lambda a: isinstance(a, DictT))
                if o is None:
                    raise TExc(TypeError)
            if not isinstance(o.ty, DictT):
                raise Unsupported("update from iterable")
            r = self.dict_merge(Sym(DictT(ty.k, ty.v), t), o)
            j = DictT(r.ty.k, r.ty.v, ty.pytype)
            if j != ty:
                self.need(loc, ty, j)
            self.wr(loc, Sym(ty, r.t))
            return Con(None)
        if name == "setdefault":
            d = args[1] if len(args) > 1 else Con(None)
            kt = self.key_term(ty, args[0]) if not isinstance(ty.k, UnknownT) else None
            if kt is None:
                self.setitem(loc, args[0], d)
            elif not self.branch(ty.has(t, kt)):
                self.setitem(loc, args[0], d)
            return self.getitem(loc, args[0])
        if name in ("pop", "__delitem__"):
            if isinstance(ty.k, UnknownT):
                if name == "pop" and len(args) > 1:
                    return args[1]
                raise TExc(KeyError)
            kt = self.key_term(ty, args[0])
            if kt is None or not self.branch(ty.has(t, kt)):
                if name == "pop" and len(args) > 1:
                    return args[1]
                raise TExc(KeyError)
            r = Sym(ty.v, ty.get(t, kt))
            self.wr(loc, Sym(ty, TH.f_del(ty)(t, kt)))
            return r if name == "pop" else Con(None)
        if name == "clear":
            self.wr(loc, Sym(ty, ty.empty()))
            return Con(None)
        raise Unsupported(f"dict.{name}")

    def pyclass_ambiguous(self, m, a, b):
        return False

    # ------------------------------------------------------------------ call

    def call(self, f, args, kwargs):
        if isinstance(f, Clo):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kwargs)
        if isinstance(f, Part):
            return self.call(f.f, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, Meth):
            if any(isinstance(a, GenV) for a in args) and f.name not in ("join", "update", "extend", "union"):
                args = [self.gen_consume(a, "listcomp") if isinstance(a, GenV) else a for a in args]
            return self.call_method(f.recv, f.name, args, kwargs)
        if isinstance(f, Choice):
            if self.spec_depth:
                def go():
                    for c, x in f.alts[:-1]:
                        if self.branch(c):
                            return self.call(x, args, kwargs)
                    return self.call(f.alts[-1][1], args, kwargs)
                m = self.merge(go, "choicecall")
                if m is not None:
                    return m[0]
            for c, x in f.alts[:-1]:
                if self.branch(c):
                    return self.call(x, args, kwargs)
            return self.call(f.alts[-1][1], args, kwargs)
        if isinstance(f, SuperM):
            return self.call_super(f, args, kwargs)
        if isinstance(f, Sym):
            if isinstance(f.ty, OpaqueT) and "__call__" in f.ty.methods:
                return f.ty.methods["__call__"](self, f, args, kwargs)
            if isinstance(f.ty, RecT) and hasattr(f.ty.cls, "__call__"):
                return self.call(Con(f.ty.cls.__call__), [f] + list(args), kwargs)
            if isinstance(f.ty, EnumT) and hasattr(f.ty.cls, "__call__"):
                return self.call(Con(f.ty.cls.__call__), [f] + list(args), kwargs)
            if is_union(f.ty):
                w = self.narrow(f, lambda a: isinstance(a, OpaqueT) and "__call__" in a.methods)
                if w is None:
                    raise TExc(TypeError)
                return self.call(w, args, kwargs)
            raise TExc(TypeError)
        if isinstance(f, Ref):
            c = self.cell(f.cid)
            if c.fields is not None and hasattr(c.ty.cls, "__call__"):
                return self.call(Con(c.ty.cls.__call__), [f] + list(args), kwargs)
        if not isinstance(f, Con):
            raise Unsupported(f"call of {f!r}")
        o = f.o
        r = self.job.call_hook(self, o, args, kwargs)
        if r is not None:
            return r
        e = EXTERNALS.get(id(o))
        if e is not None:
            return e[1](self, args, kwargs)
        if isinstance(o, pytypes.MethodType):
            e = EXTERNALS.get(id(o.__func__))
            if is_loguru(o.__self__):
                return self.log(o, args, kwargs)
            if is_user_function(o.__func__):
                return self.call(Con(o.__func__), [Con(o.__self__)] + list(args), kwargs)
            if e is not None:
                return e[1](self, [Con(o.__self__)] + list(args), kwargs)
        if isinstance(o, functools.partial):
            return self.call(Con(o.func), [Con(a) for a in o.args] + list(args), {**{k: Con(v) for k, v in o.keywords.items()}, **kwargs})
        b = BUILTINS.get(id(o))
        if b is not None:
            if all_con(args, kwargs) and o in SAFE_CON and (args or o not in (list, set, dict)):
                try:
                    return self.pyval(o(*[a.o for a in args], **{k: a.o for k, a in kwargs.items()}))
                except Exception as ex:
                    raise TExc(type(ex))
            return b[1](self, args, kwargs)
        if type(o).__module__ == "typing" and hasattr(o, "__origin__"):
            r = alias_rec(o)
            if r is not None:
                return self.construct(o.__origin__, args, kwargs, r)
            return self.call(Con(o.__origin__), args, kwargs)
        if isinstance(o, type):
            return self.construct(o, args, kwargs)
        if is_user_function(o):
            return self.call_function(o, args, kwargs)
        w = getattr(o, "__wrapped__", None)
        if w is not None and is_user_function(w) and type(o).__name__ == "_lru_cache_wrapper":
            return self.call_function(w, args, kwargs)
        if isinstance(o, enum.Enum) and hasattr(type(o), "__call__") and is_user_function(type(o).__call__):
            return self.call_function(type(o).__call__, [f] + list(args), kwargs)
        if rec_of(type(o)) is not None and hasattr(type(o), "__call__"):
            return self.call_function(type(o).__call__, [f] + list(args), kwargs)
        if all_con(args, kwargs) and isinstance(o, (pytypes.BuiltinMethodType, pytypes.MethodWrapperType)) and isinstance(getattr(o, "__self__", None), SAFE_TYPES):
            return self.pyval(o(*[a.o for a in args]))
        if all_con(args, kwargs) and o in (re.compile,):
            return Con(o(*[a.o for a in args], **{k: a.o for k, a in kwargs.items()}))
        self_ = getattr(o, "__self__", None)
        if isinstance(self_, re.Pattern):
            return self.pattern_call(self_, o.__name__, args, kwargs)
        raise Unsupported(f"call of {getattr(o, '__module__', '')}.{getattr(o, '__qualname__', o)}")

    def log(self, o, args, kwargs):
        self.st.ghost["logged"] = True
        return Con(logger_obj())

    def call_super(self, f, args, kwargs):
        raise Unsupported("super()")

    # --------------------------------------------------------- construction

    def construct(self, cls, args, kwargs, r=None):
        if issubclass(cls, BaseException):
            return ExcV(cls, tuple(args))
        if issubclass(cls, enum.Enum):
            raise Unsupported("enum lookup by value")
        r = r or rec_of(cls)
        if r is None:
            raise Unsupported(f"class {cls.__module__}.{cls.__qualname__}")
        if issubclass(cls, dict):
            d = self.lift(self.deref(args[0])) if args else self.mk_dictlit([])
            return d
        if dataclasses.is_dataclass(cls) and "__init__" in cls.__dict__ and not is_user_function_src(cls.__init__):
            vals = {}
            fs = [f for f in dataclasses.fields(cls) if f.init]
            if len(args) > len(fs):
                raise TExc(TypeError)
            for f, a in zip(fs, args):
                vals[f.name] = a
            for k, a in kwargs.items():
                if k in vals or k not in [f.name for f in fs]:
                    raise TExc(TypeError)
                vals[k] = a
            for f in fs:
                if f.name not in vals:
                    if f.default is not dataclasses.MISSING:
                        vals[f.name] = Con(f.default)
                    elif f.default_factory is not dataclasses.MISSING:
                        vals[f.name] = self.call(Con(f.default_factory), [], {})
                    else:
                        raise TExc(TypeError)
            if r.frozen or self.spec_depth:
                ts = []
                for n, t in r.fields.items():
                    s = self.lift(self.deref(vals[n]))
                    if not self.can_coerce(s.ty, t) and not is_union(s.ty):
                        raise Unsupported(f"{cls.__name__}.{n}: {s.ty} is not {t}")
                    ts.append(self.coerce(s, t))
                return Sym(r, r.make(*ts))
            fields = {}
            for n, t in r.fields.items():
                v = vals[n]
                d = self.deref(v)
                s = None
                if not isinstance(v, Ref) or self.cell(v.cid).fields is not None:
                    s = self.lift(d)
                    s = Sym(t, self.coerce(s, t))
                    v = s
                else:
                    # a fresh mutable handed over: keep the alias
                    if self.rd(v).ty != t:
                        if has_unknown(self.rd(v).ty):
                            v = self.thaw(Sym(t, self.coerce(self.rd(v), t)))
                        else:
                            v = self.thaw(Sym(t, self.coerce(self.rd(v), t)))
                fields[n] = v
            for n, v in vals.items():
                if n not in fields:
                    fields[n] = v
            return self.alloc(r, None, fields=fields)
        init = cls.__init__
        if is_user_function(init):
            if self.spec_depth:
                raise Unsupported("object construction in specification")
            ref = self.alloc(r, None, fields={n: Con(o) for n, o in r.con_fields.items()})
            self.call(Con(init), [ref] + list(args), kwargs)
            return ref
        raise Unsupported(f"construct {cls}")

    # ----------------------------------------------------------- regex

    def pattern_call(self, pat, name, args, kwargs):
        if name not in ("match", "search", "fullmatch"):
            raise Unsupported(f"pattern.{name}")
        if all_con(args, kwargs):
            m = getattr(pat, name)(*[a.o for a in args])
            return Con(m)
        t = self.str_term(args[0])
        return self.regex_match(repr((pat.pattern, pat.flags, name)), pat.groups, t)

    def regex_match(self, key, ngroups, t, pat_term=None):
        M = match_ty(ngroups)
        O = T.opt(M)
        lab = "python:regular expressions"
        TH.trust(lab, "matching a pattern against a string yields None or a match determined by pattern and string; groups are strings")
        return Sym(O, TH.uf(f"re:{key}", [STR], O)(t))


def is_loguru(o):
    return type(o).__module__.startswith("loguru")


def logger_obj():
    from loguru import logger
    return logger


def is_user_function_src(f):
    """a function with real source (dataclass-generated __init__ has none)"""
    return isinstance(f, pytypes.FunctionType) and f.__code__.co_filename not in ("<string>",)


BYTES = OpaqueT("bytes", bytes)
OPAQUES = {}
FORMAT_ERRORS = (IndexError, KeyError, ValueError, AttributeError, TypeError, MemoryError)
_match_tys = {}


def match_ty(n):
    if n not in _match_tys:
        def group(I, s, args, kwargs):
            i = args[0].o if args else 0
            return Sym(STR, TH.uf(f"m_group{n}_{i}", [s.ty], STR)(s.t))

        def groups(I, s, args, kwargs):
            return TupV([Sym(STR, TH.uf(f"m_group{n}_{i}", [s.ty], STR)(s.t)) for i in range(1, n + 1)])

        def end(I, s, args, kwargs):
            r = TH.uf(f"m_end{n}", [s.ty], INT)(s.t)
            I.assume_once(r >= 0)
            return Sym(INT, r)

        _match_tys[n] = OpaqueT(f"match{n}", re.Match, {"group": group, "groups": groups, "end": end})
    return _match_tys[n]


def unknown():
    from .interp import unknown_at
    return unknown_at("anon")


# ------------------------------------------------------------------ builtins


def iter_arg(I, v):
    if isinstance(v, GenV):
        return I.to_iter(I.gen_consume(v, "listcomp"))
    return I.to_iter(v)


@builtin(len)
def b_len(I, args, kwargs):
    v = args[0]
    if isinstance(v, Con):
        return Con(len(v.o))
    items = I.tuple_items(v)
    if items is None and isinstance(v, ConcIter):
        items = v.items
    if items is not None:
        return Con(len(items))
    if isinstance(v, Choice):
        return I.merge_vals([(c, b_len(I, [x], {})) for c, x in v.alts])
    s = I.lift(I.deref(v))
    if is_union(s.ty):
        s = I.narrow(s, lambda a: isinstance(a, (ListT, TupT, DictT, SetT)) or a == STR)
        if s is None:
            raise TExc(TypeError)
        return b_len(I, [s], {})
    ty, t = s.ty, s.t
    if isinstance(ty, (ListT, SetT)) and isinstance(ty.elem, UnknownT) or isinstance(ty, DictT) and isinstance(ty.k, UnknownT):
        return Con(0)
    if isinstance(ty, ListT):
        sp = I.spine(ty, t)
        if sp is not None:
            return Con(len(sp))
        return Sym(INT, TH.f_len(ty.elem)(t))
    if isinstance(ty, DictT):
        return Sym(INT, TH.f_len(ty.k)(ty.order(t)))
    if isinstance(ty, SetT):
        n = TH.uf(f"card<{ty.elem.key}>", [ty], INT)(t)
        I.assume_once(n >= 0)
        I.assume_once((n == 0) == (t == z3.K(ty.elem.sort(), FALSE)))
        TH.trust("python:len(set)", "len of a set is non-negative, and 0 exactly for the empty set")
        return Sym(INT, n)
    if ty == STR:
        return Sym(INT, z3.Length(t))
    raise TExc(TypeError)


PYT = {int: lambda a: a in (INT, BOOL), bool: lambda a: a == BOOL, str: lambda a: a == STR, float: lambda a: a == FLOAT,
       list: lambda a: isinstance(a, ListT) and a.pytype is list, tuple: lambda a: isinstance(a, (VTupT, TupT)),
       dict: lambda a: isinstance(a, DictT), set: lambda a: isinstance(a, SetT), type(None): lambda a: a == NONE}


def ty_isinstance(a, cls):
    if cls in PYT:
        return PYT[cls](a)
    if cls is object:
        return True
    if isinstance(a, (RecT, EnumT)) and a.cls is not None:
        return issubclass(a.cls, cls)
    if isinstance(a, OpaqueT):
        return a.cls is not None and isinstance(a.cls, type) and issubclass(a.cls, cls)
    pt = getattr(a, "pytype", None)
    return pt is not None and issubclass(pt, cls)


@builtin(isinstance)
def b_isinstance(I, args, kwargs):
    v, c = args
    items = I.tuple_items(c)
    classes = [x.o for x in (items if items is not None else [c])]
    flat = []
    for k in classes:
        flat.extend(k if isinstance(k, tuple) else [k])
    if isinstance(v, Con):
        return Con(isinstance(v.o, tuple(flat)))
    if isinstance(v, TupV):
        return Con(any(issubclass(tuple, k) for k in flat))
    if isinstance(v, ExcV):
        return Con(any(issubclass(v.cls, k) for k in flat))
    if isinstance(v, Ref) and I.cell(v.cid).fields is not None:
        return Con(any(issubclass(I.cell(v.cid).ty.cls, k) for k in flat))
    if isinstance(v, (Clo, Bound, Part)):
        return Con(False)
    if isinstance(v, Choice):
        return I.mkbool(zor([z3.And(c2, I.truth(b_isinstance(I, [x, c], {}))) for c2, x in v.alts]))
    s = I.lift(I.deref(v))
    if is_union(s.ty):
        if isinstance(s.ty, DynT):
            I.assume_once(T.union_domain(s.ty, s.t))
        def go(ty, t):
            out = []
            for i, a in enumerate(ty.alts):
                if is_union(a):
                    out.append(zand([ty.is_(i, t), go(a, ty.proj(i, t))]))
                elif (a.key, "isinstance") in EXT_ATTR:
                    hook = EXT_ATTR[(a.key, "isinstance")]
                    out.append(zand([ty.is_(i, t), hook(I, Sym(a, ty.proj(i, t)), flat)]))
                elif any(ty_isinstance(a, k) for k in flat):
                    out.append(ty.is_(i, t))
            return zor(out)
        return I.mkbool(go(s.ty, s.t))
    h = EXT_ATTR.get((s.ty.key, "isinstance"))
    if h is not None:
        return I.mkbool(h(I, s, flat))
    return Con(any(ty_isinstance(s.ty, k) for k in flat))


def consume(I, v, kind):
    if isinstance(v, GenV):
        return I.gen_consume(v, kind)
    it = I.to_iter(v)
    if isinstance(it, ConcIter):
        if kind == "sum":
            acc = Con(0)
            for x in it.items:
                acc = I.binop(ast.Add(), acc, x)
            return acc
        cs = [I.truth(x) for x in it.items]
        return I.mkbool(zor(cs) if kind == "any" else zand(cs))
    x = I.fresh(it.elem, "cx")
    p = I.fresh_term(ListT(it.elem).sort(), "cp")
    base = I.st
    n0 = len(base.pc)

    def run():
        I.assume(TH.f_mem(it.elem)(x.t, it.base))
        if it.assume is not None:
            for a in it.assume(x, p):
                I.assume(a)
        w, g = it.bind(I, x, p)
        if g is not None and not I.branch(g):
            return ("skip",)
        return ("b", I.truth(w)) if kind != "sum" else ("v", I.lift(w))
    outs = I.explore(run, "consume")
    rows = [(zand([t for t, kd in s.pc[n0:] if kd == "b"]), w, s) for k, w, s in outs]
    I.st.cnt = max([I.st.cnt] + [s.cnt for _, _, s in outs])
    return I.build_fold(kind, rows, it, x, p, None)


@builtin(any)
def b_any(I, args, kwargs):
    return consume(I, args[0], "any")


@builtin(all)
def b_all(I, args, kwargs):
    return consume(I, args[0], "all")


@builtin(sum)
def b_sum(I, args, kwargs):
    r = consume(I, args[0], "sum")
    if len(args) > 1:
        r = I.binop(ast.Add(), args[1], r)
    return r


@builtin(list)
def b_list(I, args, kwargs):
    if not args:
        e, fr = I.call_site
        st = site_of(e, fr.glob)
        return I.new_mutable(I.mk_listlit([], ListT, st), st)
    v = args[0]
    s = I.deref(v)
    if isinstance(s, Sym) and s.ty == NONE:
        raise TExc(TypeError)
    return I.new_mutable(I.as_list(v))


@builtin(tuple)
def b_tuple(I, args, kwargs):
    if not args:
        return Con(())
    it = iter_arg(I, args[0])
    if isinstance(it, ConcIter):
        return TupV(it.items)
    l = I.as_list(it)
    return Sym(VTupT(l.ty.elem), l.t)


@builtin(set, frozenset)
def b_set(I, args, kwargs):
    if not args:
        e, fr = I.call_site
        st = site_of(e, fr.glob)
        return I.new_mutable(I.mk_setlit([], st), st)
    return I.new_mutable(I.as_set(args[0]))


@builtin(dict)
def b_dict(I, args, kwargs):
    if kwargs:
        raise Unsupported("dict kwargs")
    if not args:
        e, fr = I.call_site
        st = site_of(e, fr.glob)
        return I.new_mutable(I.mk_dictlit([], st), st)
    if isinstance(args[0], GenV):
        g = args[0].node
        if isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2:
            f2 = I.new_frame(args[0].fr.glob, args[0].fr, "<comp>", spec=args[0].fr.spec)
            return I.new_mutable(I.lift(I.comp_gen("dictcomp", g.elt.elts[0], g.elt.elts[1], g.generators, f2, site_of(g, args[0].fr.glob))))
    s = I.lift(I.deref(args[0]))
    if isinstance(s.ty, DictT):
        return I.new_mutable(Sym(DictT(s.ty.k, s.ty.v), s.t))
    raise Unsupported("dict()")


@builtin(str)
def b_str(I, args, kwargs):
    if not args:
        return Con("")
    return I.to_str(args[0])


@builtin(repr)
def b_repr(I, args, kwargs):
    return I.to_repr(args[0])


@builtin(bool)
def b_bool(I, args, kwargs):
    return I.mkbool(I.truth(args[0])) if args else Con(False)


@builtin(int)
def b_int(I, args, kwargs):
    if not args:
        return Con(0)
    v = args[0]
    if isinstance(v, Con) and isinstance(v.o, enum.Enum):
        return Con(int(v.o))
    s = I.lift(I.deref(v))
    if isinstance(s.ty, OpaqueT) and (s.ty.name, "int") in EXT_ATTR:
        return EXT_ATTR[(s.ty.name, "int")](I, s)
    if is_union(s.ty):
        s = I.narrow(s, lambda a: a in (INT, BOOL, STR))
        if s is None:
            raise TExc(TypeError)
    if s.ty == INT:
        return s
    if s.ty == BOOL:
        return Sym(INT, I.coerce(s, INT))
    if s.ty == STR:
        TH.trust("python:int(str)", "int(s) either raises ValueError or is determined by s; decimal strings never raise")
        ok = TH.uf("str_int_ok", [STR], BOOL)(s.t)
        I.assume_once(z3.Implies(str_uf("isdecimal", ret=BOOL)(s.t), ok))
        if not I.branch(ok):
            raise TExc(ValueError)
        return Sym(INT, TH.uf("str_to_int", [STR], INT)(s.t))
    if s.ty == BYTES:
        TH.trust("python:int(bytes)", "int(b) either raises ValueError or is determined by b; the digits of a number give the number")
        if not I.branch(TH.uf("bytes_int_ok", [BYTES], BOOL)(s.t)):
            raise TExc(ValueError)
        return Sym(INT, TH.uf("bytes_to_int", [BYTES], INT)(s.t))
    if isinstance(s.ty, EnumT) and hasattr(s.ty.cls, "__int__"):
        return I.merge_vals([(s.t == s.ty.const(m), Con(int(m))) for m in s.ty.members])
    raise TExc(TypeError)


@builtin(type)
def b_type(I, args, kwargs):
    v = args[0]
    if isinstance(v, Con):
        return Con(type(v.o))
    if isinstance(v, Ref) and I.cell(v.cid).fields is not None:
        return Con(I.cell(v.cid).ty.cls)
    try:
        s = I.lift(I.deref(v))
    except Unsupported:
        return Con(object())
    if isinstance(s.ty, OpaqueT) and (s.ty.name, "type") in EXT_ATTR:
        return EXT_ATTR[(s.ty.name, "type")](I, s)
    if is_union(s.ty):
        return Sym(TYPET, TH.uf(f"type_of<{s.ty.key}>", [s.ty], TYPET)(s.t))
    if isinstance(s.ty, (RecT, EnumT)):
        return Con(s.ty.cls)
    return Con(getattr(s.ty, "pytype", object))


TYPET = OpaqueT("type", type)


@builtin(zip)
def b_zip(I, args, kwargs):
    its = [iter_arg(I, a) for a in args]
    if all(isinstance(i, ConcIter) for i in its):
        return ConcIter([TupV(t) for t in zip(*[i.items for i in its])])
    if len(its) == 2 and all(isinstance(i, IterV) for i in its):
        # pairs of two lists of possibly different length: positions of the shorter one
        a, b = its
        la, lb = TH.f_len(a.elem)(a.base), TH.f_len(b.elem)(b.base)
        for it in its:
            x = I.fresh(it.elem, "zx")
            p = I.fresh_term(ListT(it.elem).sort(), "zp")
            if it.bind(I, x, p)[1] is not None:
                raise Unsupported("zip of a filtered sequence")

        def bind(J, x, p):
            i = TH.f_len(a.elem)(p)
            y = Sym(b.elem, TH.f_nth(b.elem)(b.base, i))
            va, _ = a.bind(J, x, p)
            vb, _ = b.bind(J, y, p)
            return TupV([va, vb]), i < lb
        return IterV(a.elem, a.base, bind, None)
    raise Unsupported("zip")


@builtin(enumerate)
def b_enumerate(I, args, kwargs):
    it = iter_arg(I, args[0])
    start = args[1] if len(args) > 1 else kwargs.get("start", Con(0))
    if isinstance(it, ConcIter):
        return ConcIter([TupV([I.binop(ast.Add(), start, Con(i)), x]) for i, x in enumerate(it.items)])
    s0 = I.num(start) if not isinstance(start, Con) else z3.IntVal(start.o)
    x = I.fresh(it.elem, "ex")
    p = I.fresh_term(ListT(it.elem).sort(), "ep")
    if it.bind(I, x, p)[1] is not None:
        l = I.as_list(it)
        it = IterV(l.ty.elem, l.t, lambda J, x, p: (x, None))

    def bind(J, x, p):
        v, g = it.bind(J, x, p)
        return TupV([Sym(INT, z3.simplify(s0 + TH.f_len(it.elem)(p))), v]), g
    return IterV(it.elem, it.base, bind, it.assume, indexed=True)


@builtin(reversed)
def b_reversed(I, args, kwargs):
    it = iter_arg(I, args[0])
    if isinstance(it, ConcIter):
        return ConcIter(it.items[::-1])
    rv = TH.f_rev(it.elem)(it.base)
    assume = None
    if it.assume is not None:
        assume = it.assume
    x = I.fresh(it.elem, "rx")
    p = I.fresh_term(ListT(it.elem).sort(), "rp")
    if getattr(it, "indexed", False):
        l = I.as_list(it)
        return IterV(l.ty.elem, TH.f_rev(l.ty.elem)(l.t), lambda J, x, p: (x, None))
    return IterV(it.elem, rv, it.bind, assume)


@builtin(range)
def b_range(I, args, kwargs):
    if len(args) == 1:
        n = I.int_index(args[0])
        r = TH.uf("range_list", [INT], ListT(INT))(n)
        # range(len(xs)): positions of xs
        if z3.is_app(n) and n.decl().name().startswith("len<"):
            base = n.arg(0)
            el = None
            for k, s in list(T._sorts.items()):
                if k.startswith("listsort[") and s == base.sort():
                    el = k
            ety = LIST_ELEM.get(base.sort())
            if ety is not None:
                def bind(J, x, p):
                    i = TH.f_len(ety)(p)
                    J.st.ghost[("nth", base.get_id(), i.get_id())] = (base, i, x)  # the element at this position
                    return Sym(INT, i), None
                return IterV(ety, base, bind, None, True)
    if len(args) == 3 and all(isinstance(a, Con) and a.o == -1 for a in args[1:]):
        n = z3.simplify(I.int_index(args[0]))
        # range(len(xs) - 1, -1, -1): positions of xs, last first
        ln = next((c for c in n.children() if z3.is_app(c) and c.decl().name().startswith("len<")), None) if z3.is_add(n) and n.num_args() == 2 else None
        if ln is not None and z3.simplify(n - ln).eq(z3.IntVal(-1)):
            base = ln.arg(0)
            ety = LIST_ELEM.get(base.sort())
            if ety is not None:
                def rbind(J, x, p):
                    i = z3.simplify(n - TH.f_len(ety)(p))
                    J.st.ghost[("nth", base.get_id(), i.get_id())] = (base, i, x)
                    J.assume_once(z3.And(i >= 0, i < ln))
                    return Sym(INT, i), None
                return IterV(ety, TH.f_rev(ety)(base), rbind, None, True)
    raise Unsupported("range of unknown length")


class _ListElem(dict):
    def get(self, s, d=None):
        for k, so in T._sorts.items():
            if k.startswith("listsort[") and so == s:
                return ELEM_BY_KEY.get(k[len("listsort["):-1], d)
        return d


LIST_ELEM = _ListElem()
ELEM_BY_KEY = {}
_orig_init = ListT.__init__


def _li(self, elem):
    _orig_init(self, elem)
    ELEM_BY_KEY[elem.key] = elem


ListT.__init__ = _li
_orig_vinit = VTupT.__init__


def _vi(self, elem):
    _orig_vinit(self, elem)
    ELEM_BY_KEY[elem.key] = elem


VTupT.__init__ = _vi


@builtin(sorted)
def b_sorted(I, args, kwargs):
    l = I.as_list(args[0])
    if isinstance(l.ty.elem, UnknownT):
        return I.new_mutable(l)
    return I.new_mutable(I.do_sort(l, kwargs))


@builtin(min, max)
def b_minmax(I, args, kwargs):
    raise Unsupported("min/max")


def _mm(which):
    def h(I, args, kwargs):
        if len(args) >= 2 and not kwargs:
            r = I.num(args[0])
            for a in args[1:]:
                x = I.num(a)
                r = z3.If(x < r, x, r) if which == "min" else z3.If(x > r, x, r)
            return Sym(INT, r)
        raise Unsupported(which)
    return h


builtin(min)(_mm("min"))
builtin(max)(_mm("max"))


@builtin(map)
def b_map(I, args, kwargs):
    if len(args) != 2:
        raise Unsupported("map of several iterables")
    f, v = args
    it = iter_arg(I, v)
    if isinstance(it, ConcIter):
        return ConcIter([I.call(f, [x], {}) for x in it.items])
    return I.to_iter(I.map_list(it, lambda x: I.call(f, [x], {}), "map"))


@builtin(filter)
def b_filter(I, args, kwargs):
    f, v = args
    it = iter_arg(I, v)
    if isinstance(it, ConcIter):
        out = []
        for x in it.items:
            if I.branch(I.truth(I.call(f, [x], {}) if not (isinstance(f, Con) and f.o is None) else x)):
                out.append(x)
        return ConcIter(out)
    x = I.fresh(it.elem, "cx")
    p = I.fresh_term(ListT(it.elem).sort(), "cp")
    base = I.st
    n0 = len(base.pc)

    def run():
        I.assume(TH.f_mem(it.elem)(x.t, it.base))
        if it.assume is not None:
            for a in it.assume(x, p):
                I.assume(a)
        w, g = it.bind(I, x, p)
        if g is not None and not I.branch(g):
            return ("skip",)
        c = I.truth(I.call(f, [w], {}) if not (isinstance(f, Con) and f.o is None) else w)
        if not I.branch(c):
            return ("skip",)
        return ("v", I.lift(I.deref(w)))
    return I.to_iter(I.finish_fold("listcomp", run, it, x, p, n0, base, "filter"))


@builtin(next)
def b_next(I, args, kwargs):
    it = args[0]
    if isinstance(it, GenV):
        it = I.gen_consume(it, "listcomp")
    l = I.as_list(it)
    ty, t = l.ty, l.t
    if isinstance(ty.elem, UnknownT):
        if len(args) > 1:
            return args[1]
        raise TExc(StopIteration)
    sp = I.spine(ty, t)
    if sp is not None:
        if sp:
            return Sym(ty.elem, sp[0])
        if len(args) > 1:
            return args[1]
        raise TExc(StopIteration)
    if I.branch(is_nil(ty, t)):
        if len(args) > 1:
            return args[1]
        raise TExc(StopIteration)
    return Sym(ty.elem, TH.f_nth(ty.elem)(t, z3.IntVal(0)))


@builtin(iter)
def b_iter(I, args, kwargs):
    return I.to_iter(args[0])


@builtin(hasattr)
def b_hasattr(I, args, kwargs):
    v, n = args
    if isinstance(v, Con):
        return Con(hasattr(v.o, n.o))
    s = I.deref(v) if not (isinstance(v, Ref) and I.cell(v.cid).fields is not None) else v
    if isinstance(s, Sym):
        if is_union(s.ty):
            return I.mkbool(zor([s.ty.is_(i, s.t) for i, a in enumerate(s.ty.alts) if I.has_attr_ty(a, n.o)]))
        return Con(I.has_attr_ty(s.ty, n.o))
    raise Unsupported("hasattr")


@builtin(getattr)
def b_getattr(I, args, kwargs):
    return I.attr(args[0], args[1].o)


@builtin(print)
def b_print(I, args, kwargs):
    I.st.trace.append(("print",))
    return Con(None)


@builtin(functools.partial)
def b_partial(I, args, kwargs):
    return Part(args[0], args[1:], kwargs)


@builtin(functools.reduce)
def b_reduce(I, args, kwargs):
    f = args[0]
    it = iter_arg(I, args[1])
    if isinstance(it, ConcIter):
        items = list(it.items)
        if len(args) > 2:
            acc = args[2]
        elif items:
            acc = items.pop(0)
        else:
            raise TExc(TypeError)
        for x in items:
            acc = I.call(f, [acc, x], {})
        return acc
    first = len(args) < 3  # no initial value: the accumulator is (was there an element, value so far)
    if first:
        if I.branch(TH.f_len(it.elem)(it.base) == 0):
            raise TExc(TypeError)
        et = element_type(I, it)
        ty = TupT(BOOL, et)
        init = Sym(ty, ty.make(FALSE, z3.Const(f"nothing:{et.key}", et.sort())))
    else:
        init = I.lift(I.deref(args[2]))
        ty = init.ty
    base = I.st
    n0 = len(base.pc)
    for rnd in range(6):
        x = I.fresh(it.elem, "cx")
        p = I.fresh_term(ListT(it.elem).sort(), "cp")
        # a name of its own for every level: the accumulator of an enclosing reduce is a parameter of this one
        acc = Sym(ty, z3.Const(f"facc{I.reduce_depth}:{ty.key}", ty.sort())) if not has_unknown(ty) else None

        def run():
            I.assume(TH.f_mem(it.elem)(x.t, it.base))
            if it.assume is not None:
                for a in it.assume(x, p):
                    I.assume(a)
            w, g = it.bind(I, x, p)
            a0 = I.thaw(acc) if acc is not None else I.thaw(init)
            if g is not None and not I.branch(g):
                return I.snapshot(a0)
            if first:
                if not I.branch(ty.get(acc.t, 0)):
                    return Sym(ty, ty.make(TRUE, I.coerce(I.lift(I.deref(w)), ty.elems[1])))
                r = I.snapshot(I.call(f, [I.thaw(Sym(ty.elems[1], ty.get(acc.t, 1))), w], {}))
                return Sym(ty, ty.make(TRUE, I.coerce(I.lift(r), ty.elems[1])))
            return I.snapshot(I.call(f, [a0, w], {}))
        I.reduce_depth += 1
        try:
            outs = I.explore(run, "reduce")
        finally:
            I.reduce_depth -= 1
        I.st.cnt = max([I.st.cnt] + [s.cnt for _, _, s in outs])
        nty = ty
        failing = []
        for k, v, s in outs:
            if k == "exc":
                # raised or not, whatever the element: only ever one more behaviour
                if v.cls not in failing:
                    failing.append(v.cls)
                continue
            nty = I.join(nty, v.ty)
        outs = [o for o in outs if o[0] != "exc"]
        if acc is not None and nty == ty:
            break
        ty = nty
    else:
        raise Unsupported("reduce: accumulator type")
    if failing:
        if I.spec_depth:
            raise Unsupported("exception inside reduce")
        n = I.choose(len(failing) + 1)
        if n:
            raise TExc(failing[n - 1])
    step = None
    for k, v, s in reversed(outs):
        c = zand([t for t, kd in s.pc[n0:] if kd == "b"])
        u = I.coerce(v, ty)
        step = u if step is None else zite(c, u, step)
    i0 = I.coerce(init, ty)
    fd, caps = TH.mk_fold(ty, it.elem, p, x.t, acc.t, i0, step, "reduce", {})
    r = fd.dcl(*caps, it.base)
    return I.thaw(Sym(ty.elems[1], ty.get(r, 1))) if first else Sym(ty, r)


def element_type(I, it):
    """type of the elements an iteration yields"""
    x = I.fresh(it.elem, "cx")
    p = I.fresh_term(ListT(it.elem).sort(), "cp")

    def run():
        w, g = it.bind(I, x, p)
        if g is not None:
            raise Unsupported("reduce of a filtered iteration without initial value")
        return I.snapshot(w)
    ty = None
    for k, v, s in I.explore(run, "reduce"):
        if k == "ok":
            ty = v.ty if ty is None else I.join(ty, v.ty)
    if ty is None or has_unknown(ty):
        raise Unsupported("reduce: type of the elements")
    return ty


@builtin(abs)
def b_abs(I, args, kwargs):
    x = I.num(args[0])
    return Sym(INT, z3.If(x < 0, -x, x))


@builtin(collections.defaultdict)
def b_defaultdict(I, args, kwargs):
    raise Unsupported("defaultdict")


@builtin(re.compile)
def b_recompile(I, args, kwargs):
    if all_con(args, kwargs):
        return Con(re.compile(*[a.o for a in args], **{k: a.o for k, a in kwargs.items()}))
    raise Unsupported("dynamic pattern")


@builtin(re.match, re.search, re.fullmatch)
def b_rematch(I, args, kwargs):
    raise Unsupported("re.match")


def _rem(name):
    def h(I, args, kwargs):
        fl = kwargs.get("flags")
        if len(args) > 2:
            fl = args[2]
        flo = int(fl.o) if fl is not None else 0
        if isinstance(args[0], Con):
            return I.pattern_call(re.compile(args[0].o, flo), name, args[1:], {})
        # symbolic pattern: groups form a list of strings
        TH.trust("python:regular expressions", "matching a pattern against a string yields None or a match determined by pattern and string; groups are strings")
        O = T.opt(DYNMATCH)
        return Sym(O, TH.uf(f"re_{name}_{flo}", [STR, STR], O)(I.str_term(args[0]), I.str_term(args[1])))
    return h


def _dm_groups(I, s, args, kwargs):
    return Sym(VTupT(STR), TH.uf("dynm_groups", [s.ty], VTupT(STR))(s.t))


def _dm_group(I, s, args, kwargs):
    i = args[0].o if args else 0
    return Sym(STR, TH.uf(f"dynm_group{i}", [s.ty], STR)(s.t))


DYNMATCH = OpaqueT("dynmatch", re.Match, {"groups": _dm_groups, "group": _dm_group})


def _pat(name):
    def h(I, s, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported(f"pattern.{name}")
        TH.trust("python:regular expressions", "matching a pattern against a string yields None or a match determined by pattern and string; groups are strings")
        O = T.opt(DYNMATCH)
        return Sym(O, TH.uf(f"pat_{name}", [s.ty, STR], O)(s.t, I.str_term(args[0])))
    return h


PATTERN = OpaqueT("pattern", re.Pattern, {n: _pat(n) for n in ("match", "search", "fullmatch")})
for _n in ("match", "search", "fullmatch"):
    builtin(getattr(re, _n))(_rem(_n))


def updated(l, i, v):
    """specification intrinsic: the list l with position i replaced by v"""
    return [*l[:i], v, *l[i + 1:]]


@builtin(updated)
def b_updated(I, args, kwargs):
    s = I.lift(I.deref(args[0]))
    ty = s.ty
    v = I.coerce(I.lift(I.deref(args[2])), ty.elem)
    return Sym(ty, TH.f_update(ty.elem)(s.t, I.int_index(args[1]), v))


def whole(l):
    """specification intrinsic: the list itself (reasoning does not look through how it was built)"""
    return l


@builtin(whole)
def b_whole(I, args, kwargs):
    s = I.lift(I.deref(args[0]))
    I.unfused[s.t.get_id()] = s.t
    return SymW(s.ty, s.t)


def typed(ty, v):
    """specification intrinsic: the value v, seen as one of type ty"""
    return v


@builtin(typed)
def b_typed(I, args, kwargs):
    s = I.lift(I.deref(args[1]))
    return Sym(args[0].o, I.coerce(s, args[0].o))


def same_items(a, b):
    """specification intrinsic: dictionaries with the same items in any order"""
    return a == b


@builtin(same_items)
def b_same_items(I, args, kwargs):
    d, n = I.spec_depth, I.lift
    a, b = [n(I.deref(x)) for x in args]
    I.spec_depth = 0
    try:
        return I.mkbool(I.eq_sym(a, b))
    finally:
        I.spec_depth = d
