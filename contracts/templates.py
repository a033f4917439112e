"""Loop-invariant templates: shapes of invariants the verifier may try.  A
template only suggests; every candidate is proved inductive before it is used."""
import z3
from pyded import theory as TH
from pyded.ty import *
from pyded.values import *
from pyded.job import Cand


def dict_of(group, kty, vty, ety):
    """for a dictionary built in a loop over a list of ety: D[k] == group(prefix, k) for every key k"""

    def tmpl(job, I, node, fr, it, locs, val):
        if it is None or it.elem.sort() != ety.sort():
            return []
        out = []
        for loc, lt in locs.items():
            ty = lt
            if not isinstance(ty, DictT) or ty.k.sort() != kty.sort() or ty.v.sort() != vty.sort():
                continue
            k = z3.Const(f"tk:{kty.key}", kty.sort())

            def term(I, pre):
                r = I.lift(job.call_spec_raw(I, group, [Sym(ListT(ety), pre), Sym(kty, k)]))
                return I.coerce(r, vty)

            def c1(I, pre, loc=loc, ty=ty):
                d = val(I, loc).t
                return z3.ForAll([k], z3.Implies(ty.has(d, k), ty.get(d, k) == term(I, pre)), patterns=[z3.Select(ty.arr(d), k)])

            def c2(I, pre, loc=loc, ty=ty):
                d = val(I, loc).t
                empty = job.empty_of(vty)
                return z3.ForAll([k], ty.has(d, k) == (term(I, pre) != empty), patterns=[z3.Select(ty.arr(d), k)])

            out.append(Cand(f"{loc[1]}[k] == group(prefix, k)", c1, timeout=2500))
            out.append(Cand(f"k in {loc[1]} iff group(prefix, k) nonempty", c2, timeout=2500))
            d0 = I.lift(val(I, loc)).t if False else None
        return out

    return tmpl


def dict_keys_fixed(job, I, node, fr, it, locs, val):
    """the key set of a dictionary does not change"""
    out = []
    for loc, lt in locs.items():
        ty = lt
        if isinstance(ty, DictT):
            try:
                d0 = val(I, loc)
            except Unsupported:
                continue
            k = z3.Const(f"tk:{ty.k.key}", ty.k.sort())
            if d0.ty != ty:
                continue

            def c(I, pre, loc=loc, ty=ty, d0=d0):
                d = val(I, loc).t
                return z3.ForAll([k], ty.has(d, k) == ty.has(d0.t, k), patterns=[z3.Select(ty.arr(d), k)])
            out.append(Cand(f"keys of {loc[1]} unchanged", c))
    return out


def equals(fn, ety, name=None):
    """loc == fn(prefix) for every loop variable of the right type"""

    def tmpl(job, I, node, fr, it, locs, val):
        if it is None or it.elem.sort() != ety.sort():
            return []
        out = []
        try:
            want = I.lift(job.call_spec_raw(I, fn, [Sym(ListT(ety), z3.Const("tmpl-p", ListT(ety).sort()))])).ty
        except Exception:
            want = None
        for loc, ty in locs.items():
            if want is not None and not (ty == want or job.comparable(ty, want)):
                continue

            def c(I, pre, loc=loc):
                return I.eq_sym(val(I, loc), I.lift(job.call_spec_raw(I, fn, [Sym(ListT(ety), pre)])))
            out.append(Cand(f"{loc[1]} == {name or fn.__name__}(prefix)", c, timeout=3000))
        return out

    return tmpl
