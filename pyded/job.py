"""Contracts, and the verification job that turns the real source of one
function plus its contract into obligations and discharges them."""
import ast
import importlib
import inspect
import itertools
import time
import traceback
import types as pytypes
import z3
from . import theory as TH
from . import solve
from .ty import *
from . import ty as T
from .values import *
from .interp import (Interp, ExcV, AnyExc, TRUE, FALSE, zand, zor, znot, zite, simp_bool, is_user_function, MISSING, node_of, lift_nested, LIFTED)
from .prims import Prims


class SpecError(Exception):
    pass


REGISTRY = []  # all contracts, in order of registration
BY_OBJ = {}  # id(function) -> Contract
BY_NODE = {}  # id(definition of a nested function) -> Contract


def resolve(target):
    mod, _, path = target.partition(":")
    o = importlib.import_module(mod)
    parts = path.split(".")
    for i, part in enumerate(parts):
        if part == "<locals>":
            continue
        if i and parts[i - 1] == "<locals>":
            while hasattr(o, "__wrapped__"):
                o = o.__wrapped__
            o = lift_nested(o, part)
            continue
        o = inspect.getattr_static(o, part) if inspect.isclass(o) else getattr(o, part)
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
    while hasattr(o, "__wrapped__") and not isinstance(o, type):
        o = o.__wrapped__
    return o


class Contract:
    """Specification of one real function.

    target    "module:qualname" of the function in /repo
    params    {parameter: type | Con(value)} -- the domain of the proof
    requires  predicate over the parameters, assumed on entry, checked at every call
    spec      executable function over the parameters giving the exact result
    ensures   [(label, predicate over parameters and result)]
    shortcut   do not retry a loop invariant candidate that failed once
    lift       conditionals between lists are moved out of folds before solving
    reveal     opaque specification functions whose definition is used
    ensures_exc  the same for the state left when an exception is raised
    raises    {exception class: predicate when it must be raised, or None for "may be raised"}
    modifies  {parameter (or parameter.field): function over the old parameters giving the new value, or None}
    ret       result type when there is no spec (for callers)
    """

    def __init__(self, target, params, props, requires=None, spec=None, ensures=(), raises=None, modifies=None, ret=None, templates=(),
                 overrides=None, globals_=None, gen=None, run=None, trusted=None, inline=False, setup=None, name=None, concrete=None,
                 depends=(), note="", hooks=None, timeout=5000, lemmas=(), samples=400, eqv=None, uses=(), static=(), budget=240,
                 max_paths=None, hints=(), no_assume_requires=False, optional=False, pools=None, weight=1, own_elements=False, ghost=None,
                 may_raise=None, ensures_exc=(), reveal=(), shortcut=False, lift=False):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        self.raises = raises or {}
        self.may_raise = may_raise or {}  # {exception class: predicate under which it may be raised}
        self.pools = pools or {}
        self.modifies = modifies or {}
        self.ghost = dict(ghost or {})  # state outside the function (file system, clock, network): {name: type}
        self.params = {**params, **self.ghost}
        self.overrides = overrides or {}
        self.globals_ = globals_ or {}
        self.name = name or target.split(":")[1]
        self.short = target.replace("edulint.", "", 1)
        try:
            self.fn = resolve(target)
            self.missing = None
        except Exception as e:  # the function is gone or renamed: undecided, not a violation
            self.fn = None
            self.missing = f"{type(e).__name__}: {e}"
        if self.fn is not None:
            sig = inspect.signature(self.fn).parameters
            lost = [n for n in params if n not in sig]
            new = [n for n, p in sig.items() if n not in params and p.default is p.empty and p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)]
            if lost or new:  # another function than the one specified: undecided
                self.fn, self.missing = None, f"signature changed (missing {lost}, new {new})"
        REGISTRY.append(self)
        if self.fn is not None and not inline and name is None:
            BY_OBJ.setdefault(id(self.fn), self)
            if id(self.fn.__code__) in LIFTED if hasattr(self.fn, "__code__") else False:
                BY_NODE.setdefault(id(LIFTED[id(self.fn.__code__)][1]), self)

    @property
    def order(self):
        return list(inspect.signature(self.fn).parameters)


GHOST_GLOBALS = {}  # (module, global) -> ghost parameter standing for it
BOUNDED = []
CASES = {"seen": set(), "samples": []}


def record(what, trivial=False):
    """what the current case of a bounded check was (for the evidence)"""
    t = str(what)
    if not trivial:
        CASES["seen"].add(hash(t))
    if len(CASES["samples"]) < 3 and not trivial:
        CASES["samples"].append(t[:1200])


class Bounded:
    """A bounded check of code outside the verifier's reach: never counted as proved."""

    def __init__(self, name, props, case, n=(200, 4000), secs=(40, 900), text=""):
        self.name, self.props, self.case, self.n, self.secs, self.text = name, props, case, n, secs, text
        BOUNDED.append(self)

    def bound(self, tier):
        i = 0 if tier == "quick" else 1
        return f"{self.text}; at most {self.n[i]} cases or {self.secs[i]} s"

    def run(self, rng, tier):
        from .concrete import Silence
        i = 0 if tier == "quick" else 1
        t0 = time.time()
        k = 0
        CASES["seen"].clear()
        del CASES["samples"][:]
        while k < self.n[i] and time.time() - t0 < self.secs[i]:
            k += 1
            with Silence():
                r = self.case(rng, k)
            if r is not None:
                return k, {"case": k, "what": r}, (len(CASES["seen"]), list(CASES["samples"]))
        return k, None, (len(CASES["seen"]), list(CASES["samples"]))


def contract(target, **kw):
    return Contract(target, **kw)


class Timeout(Exception):
    pass


class Cand:
    def __init__(self, name, fn, timeout=1200):
        self.name, self.fn, self.timeout = name, fn, timeout

    def eval(self, I, pre):
        return self.fn(I, pre)


def collect_folds(terms, seen=None, out=None):
    """ground fold applications in terms: [(Fold, caps)]"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            f = TH.FOLD_BY_NAME.get(t.decl().name())
            ch = t.children()
            if f is not None:
                out.append((f, ch[:-1], ch[-1]))
            stack.extend(ch)
    return out


class Lemma:
    """A specification-level fact about lists, proved by induction on one of its
    parameters before any obligation may use it.

    requires/ensures are executable predicates over params; trigger is a function
    over params whose value (a tuple of terms) says where the fact is instantiated."""

    def __init__(self, name, params, on, ensures, trigger, requires=None, general=()):
        self.name, self.params, self.on, self.ens, self.trigger, self.req = name, params, on, ensures, trigger, requires
        self.general = tuple(general)  # parameters universally quantified in the induction hypothesis

    def term(self, job, I, f, env):
        return formula(job, I, f, *[env[n] for n in inspect.signature(f).parameters])

    def instance(self, job, I, env):
        r = self.term(job, I, self.req, env) if self.req else TRUE
        return r, self.term(job, I, self.ens, env)

    def install(self, job, I):
        cs = {n: z3.Const(f"lm:{self.name}:{n}", t.sort()) for n, t in self.params.items()}
        env = {n: Sym(t, cs[n]) for n, t in self.params.items()}
        req, ens = self.instance(job, I, env)
        keep, I.st = I.st, I.st.clone()
        I.st.pend = []  # a trigger is a term only: the facts known where it is written are not used
        tr = job.call_spec_raw(I, self.trigger, [env[n] for n in inspect.signature(self.trigger).parameters])
        items = I.tuple_items(tr)
        pats = [_strip_ite(I.lift(x).t) for x in (items if items is not None else [tr])]
        I.st = keep
        vs = list(cs.values())
        fm = TH.forall(vs, z3.Implies(req, ens), tuple(pats) if len(pats) > 1 else pats[0])
        L = self.params[self.on]
        cx = z3.Const(f"lm:{self.name}:x", L.elem.sort())

        def at(t):
            e2 = dict(env)
            e2[self.on] = Sym(L, t)
            return self.instance(job, I, e2)

        b_req, b_ens = at(nil(L))
        s_req, s_ens = at(snoc(L, cs[self.on], cx))
        ih = z3.Implies(req, ens)
        if self.general:
            gv = [cs[g] for g in self.general]
            ih = z3.ForAll(gv, ih)
        head = pats[0]
        label = f"lemma:{self.name}"
        TH.add_ax(head.decl(), fm, "lemma", label, lambda: [([b_req], b_ens), ([s_req, ih], s_ens)])


def formula(job, I, f, *args):
    """an executable predicate as a formula"""
    outs = I.explore(lambda: I.truth(job.call_spec_raw(I, f, [a if isinstance(a, V) else Con(a) for a in args])), "formula")
    n0 = len(I.st.pc)
    parts = []
    for k, v, s in outs:
        if k != "ok":
            raise SpecError(f"specification {inspect.getsource(f)[:200]} raises {v} at {v.where} under {[str(t)[:200] for t, _ in s.pc[n0:]]}")
        conds = [t for t, kd in s.pc[n0:] if kd == "b"]
        ass = [t for t, kd in s.pc[n0:] if kd == "a"]
        parts.append(z3.Implies(zand(conds + ass), v))
    return zand(parts)


def forall_pat(vs, body, *pats):
    """universally quantified formula; patterns that are not legal for the term are left out"""
    try:
        return z3.ForAll(vs, body, patterns=list(pats))
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def _strip_ite(t):
    """a trigger without conditionals (negative indices and the like play no part in it)"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return _strip_ite(t.arg(2))
    ch = t.children()
    return t.decl()(*[_strip_ite(c) for c in ch]) if ch else t


class Uninit:
    """parameter type: an object whose fields are not set yet (self of __init__)"""

    def __init__(self, rec):
        self.rec = rec


class Job:
    revealing = False  # definitions of opaque specification functions are used

    def __init__(self, c, deadline=None, verbose=False, shortcut=True):
        self.c = c
        self.shortcut = shortcut and c.shortcut
        self.dead = set()
        self.obls = []
        self.cache = {}
        self.t0 = time.time()
        self.deadline = deadline or (self.t0 + c.budget)
        self.goal_terms = []
        self.loops = {}
        self.verbose = verbose
        self.labels = set()
        self.assumed = set()
        self.calls = set()
        self.unsup = None
        self.reached = 0
        self.called_contracts = set()
        self.dump = None
        self.world = {}

    # ------------------------------------------------ interface of Interp

    def tick(self):
        if time.time() > self.deadline:
            raise Timeout()

    def may_modify(self, name):
        return name in self.c.modifies or name.partition(".")[0] in self.c.modifies

    def global_override(self, mod, name):
        w = GHOST_GLOBALS.get((mod, name))
        if w is not None and w in self.world:
            return self.world[w]
        g = self.c.globals_.get((mod, name))
        if g is None:
            g = self.c.globals_.get(name)
        if g is None:
            return None
        if callable(g) and not isinstance(g, V):
            return g(self)
        return g

    def attr_override(self, o, name):
        h = self.c.overrides.get((id(o), name))
        if h is None:
            return None
        return h(self) if callable(h) and not isinstance(h, V) else h

    def setattr_global(self, I, o, name, val):
        h = (self.c.hooks or {}).get("setattr")
        return bool(h and h(I, o, name, val))

    def setitem_global(self, I, o, k, val):
        h = (self.c.hooks or {}).get("setitem")
        return bool(h and h(I, o, k, val))

    def obligation(self, I, name, goal, note=""):
        self.tick()
        if self.typing:
            return True
        hyps = I.hyps()
        g = simp_bool(goal)
        key = (name, goal.get_id(), tuple(sorted(t.get_id() for t in hyps)))
        if key in self.cache:
            return self.cache[key]
        TH._keep.append((goal, hyps))
        t0 = time.time()
        if z3.is_true(g):
            r = ("proved", "simplifier", [])
        else:
            r = self.prove(hyps, goal)
        ok = r[0] == "proved"
        self.labels |= {l for l in r[2]}
        self.cache[key] = ok
        self.obls.append({"name": f"{self.c.short}#{name}", "status": r[0], "by": r[1] if ok else None, "time": round(time.time() - t0, 3),
                          "note": note, "detail": None if ok else self.describe(hyps, goal, r)})
        if self.verbose:
            print("   ", "ok " if ok else "FAIL", name, note, r[1][:60] if ok else "", round(time.time() - t0, 2))
            if not ok:
                d = self.describe(hyps, goal, r)
                print("      goal:", d["goal"], "\n      path:", "; ".join(d["path"][::-1]), "\n      solver:", d["solver"])
        return ok

    def describe(self, hyps, goal, r):
        return {"path": [str(h)[:400] for h in hyps][-25:], "goal": str(z3.simplify(goal))[:3000], "solver": str(r[1])[:1500]}

    # ------------------------------------------------------------- proving

    def prove(self, hyps, goal):
        # conjunctions are split so that each part is found quickly
        if z3.is_and(goal):
            labels = []
            by = "z3"
            for g in goal.children():
                r = self.prove(hyps, g)
                if r[0] != "proved":
                    return r
                labels += r[2]
                by = r[1]
            return "proved", by, labels
        if self.c.lift:
            memo = {}
            hyps, goal = [TH.lift_lists(h, memo) for h in hyps], TH.lift_lists(goal, memo)
        r = solve.prove(hyps, goal, timeout=self.c.timeout, use_cvc5=False, tries=1)
        if r[0] == "proved":
            return r
        extra, labels = self.congruences(hyps, goal)
        if extra:
            r2 = solve.prove(hyps + extra, goal, timeout=self.c.timeout, use_cvc5=False, tries=2)
            if r2[0] == "proved":
                return "proved", r2[1], r2[2] + labels
        r3 = solve.prove(hyps + extra, goal, timeout=self.c.timeout, use_cvc5=True, tries=2)
        return r3 if r3[0] == "proved" else r

    def congruences(self, hyps, goal, depth=0):
        """equalities between folds over the same list, each proved by induction on the list"""
        apps = collect_folds(list(hyps) + [goal])
        bylist = {}
        for f, caps, l in apps:
            bylist.setdefault((l.get_id(), f.acc_ty.key), []).append((f, caps, l))
        # innermost lists first
        extra = []
        labels = []
        done = set()
        for (lid, ak), fs in sorted(bylist.items(), key=lambda kv: kv[0][0]):
            uniq = []
            for f, caps, l in fs:
                k = (f.name, tuple(c.get_id() for c in caps))
                if k not in done:
                    done.add(k)
                    uniq.append((f, caps, l))
            if len(uniq) > 8:
                uniq = uniq[:8]
            for (f, cf, l), (g, cg, _) in itertools.combinations(uniq, 2):
                self.tick()
                e = self.fold_equal(hyps + extra, f, cf, g, cg, l)
                if e is not None:
                    extra.append(e)
                elif f.acc_ty == BOOL:
                    e = self.fold_equal(hyps + extra, f, cf, g, cg, l, neg=True)
                    if e is not None:
                        extra.append(e)
            done = set()
        # same fold function over provably equal maps etc. is left to the solver
        return extra, labels

    def fold_equal(self, hyps, f, cf, g, cg, l, neg=False):
        key = ("feq", f.name, g.name, tuple(c.get_id() for c in cf), tuple(c.get_id() for c in cg), l.get_id(), neg, tuple(h.get_id() for h in hyps))
        if key in self.cache:
            return self.cache[key]
        TH._keep.append((list(cf), list(cg), l, list(hyps)))
        self.cache[key] = None
        wrap = (lambda t: z3.Not(t)) if neg else (lambda t: t)
        subf = list(zip(f.caps, cf))
        subg = list(zip(g.caps, cg))
        i1 = z3.substitute(f.init_t, *subf) if subf else f.init_t
        i2 = z3.substitute(g.init_t, *subg) if subg else g.init_t
        p = z3.Const(f"cgp{len(TH._keep)}", f.p.sort())
        x = z3.Const(f"cgx{len(TH._keep)}", f.x.sort())
        Fp = f.dcl(*cf, p)
        s1 = z3.substitute(f.step_t, *(subf + [(f.p, p), (f.x, x), (f.acc, Fp)]))
        s2 = z3.substitute(g.step_t, *(subg + [(g.p, p), (g.x, x), (g.acc, wrap(Fp))]))
        mem = TH.f_mem(f.elem_ty)(x, l)
        ih = g.dcl(*cg, p) == wrap(Fp)
        r = solve.prove(hyps, i2 == wrap(i1), timeout=800, use_cvc5=False, tries=1)
        if r[0] != "proved":
            return None
        r = solve.prove(hyps + [mem, ih], s2 == wrap(s1), timeout=1500, use_cvc5=False, tries=1)
        if r[0] != "proved":
            return None
        self.labels |= set(r[2])
        e = g.dcl(*cg, l) == wrap(f.dcl(*cf, l))
        self.cache[key] = e
        return e

    # ----------------------------------------------------------- loop candidates

    def goal_folds(self, I, it, extra_terms):
        seen = set()
        apps = collect_folds(self.goal_terms + extra_terms, seen)
        out = []
        keys = set()
        queue = list(apps)
        iters = I.st.ghost.get("iters", ())
        n = 0
        while queue and n < 400:
            f, caps, l = queue.pop(0)
            n += 1
            k = (f.name, tuple(c.get_id() for c in caps))
            if k in keys:
                continue
            keys.add(k)
            if any(z3.is_var(c) for c in caps):
                continue
            if f.elem_ty.sort() == it.elem.sort():
                out.append((f, caps))
            sub = list(zip(f.caps, caps))
            # folds nested in the step: ground ones, and those of the current outer iterations
            insts = [[]]
            for ety, pre, x in iters:
                if ety.sort() == f.elem_ty.sort():
                    insts.append([(f.p, pre), (f.x, x), (f.acc, f.dcl(*caps, pre))])
            if len(insts) == 1 and it.elem.sort() != f.elem_ty.sort():
                pass
            for ins in insts:
                for t in (f.init_t, f.step_t):
                    u = z3.substitute(t, *(sub + ins)) if (sub or ins) else t
                    TH._keep.append(u)
                    for g in collect_folds([u]):
                        bad = {f.p.get_id(), f.x.get_id(), f.acc.get_id()}
                        if not ins and any(bad & TH.const_ids(cc) for cc in g[1]):
                            continue
                        queue.append(g)
        return out

    def candidates(self, I, node, fr, it, locs, read, entry_vals, L):
        cands = []
        if self.typing:
            return cands
        add = lambda name, fn, **k: cands.append(Cand(name, fn, **k))

        def val(I, loc):
            return I.lift(read(loc))

        def name_of(loc):
            return loc[1] if loc[0] == "v" else str(loc)

        extra = [v.t for v in entry_vals.values() if v is not None] + I.hyps()
        for env in I.st.envs.get(fr.fid, {}).values():
            if isinstance(env, Sym):
                extra.append(env.t)
        folds = self.goal_folds(I, it, extra) if it is not None else []
        nm = f"{node.lineno}"
        for loc, lt in locs.items():
            v0 = entry_vals.get(loc)
            if v0 is not None:
                add(f"{name_of(loc)} unchanged", lambda I, pre, loc=loc, v0=v0: I.eq_sym(val(I, loc), v0))
                if v0.ty == INT and it is not None:
                    add(f"{name_of(loc)} counts", lambda I, pre, loc=loc, v0=v0: I.num(val(I, loc)) == v0.t + TH.f_len(it.elem)(pre))
                if v0.ty == INT:
                    add(f"{name_of(loc)}>=entry", lambda I, pre, loc=loc, v0=v0: I.num(val(I, loc)) >= v0.t)
        allf = []
        for f, caps in folds:
            ft = lambda pre, f=f, caps=caps: f.dcl(*caps, pre)
            allf.append((f.name, f.acc_ty, ft))
            if isinstance(f.acc_ty, TupT):
                for i, e in enumerate(f.acc_ty.elems):
                    allf.append((f"{f.name}.{i}", e, lambda pre, f=f, i=i, ft=ft: f.acc_ty.get(ft(pre), i)))
            init = z3.substitute(f.init_t, *zip(f.caps, caps)) if caps else f.init_t
            add(f"{f.name} initial", lambda I, pre, ft=ft, init=init: ft(pre) == init)
        for loc, lt in locs.items():
            v0 = entry_vals.get(loc)
            ty = lt
            if isinstance(ty, UnknownT):
                continue
            for fn, fty, ft in allf:
                nmx = f"{name_of(loc)} == {fn}"
                if isinstance(ty, DictT) and ty.sort() == fty.sort():
                    add(nmx + " in order", lambda I, pre, loc=loc, ft=ft: val(I, loc).t == ft(pre))
                if self.comparable(ty, fty):
                    add(nmx, lambda I, pre, loc=loc, fty=fty, ft=ft: I.eq_sym(val(I, loc), Sym(fty, ft(pre))))
                if isinstance(ty, ListT) and isinstance(fty, ListT) and ty.sort() == fty.sort() and v0 is not None and v0.ty.sort() == ty.sort() and not (I.spine(ty, v0.t) == []):
                    add(nmx + " appended", lambda I, pre, loc=loc, ty=ty, ft=ft, v0=v0: val(I, loc).t == TH.f_concat(ty.elem)(v0.t, ft(pre)))
                if isinstance(ty, DictT) and isinstance(fty, DictT) and ty.sort() == fty.sort() and v0 is not None and v0.ty.sort() == ty.sort() and not v0.t.eq(ty.empty()):
                    add(nmx + " merged", lambda I, pre, loc=loc, ty=ty, ft=ft, v0=v0: val(I, loc).t == TH.f_merge(ty)(v0.t, ft(pre)))
                if isinstance(ty, SetT) and isinstance(fty, SetT) and ty.sort() == fty.sort() and v0 is not None and v0.ty.sort() == ty.sort():
                    add(nmx + " union", lambda I, pre, loc=loc, ft=ft, v0=v0: val(I, loc).t == z3.SetUnion(v0.t, ft(pre)))
                if ty == BOOL and fty == BOOL:
                    add("not " + nmx, lambda I, pre, loc=loc, ft=ft: val(I, loc).t == z3.Not(ft(pre)))
                    if v0 is not None and v0.ty == BOOL and not (z3.is_true(v0.t) or z3.is_false(v0.t)):
                        add(nmx + " or", lambda I, pre, loc=loc, ft=ft, v0=v0: val(I, loc).t == z3.Or(v0.t, ft(pre)))
                        add(nmx + " and", lambda I, pre, loc=loc, ft=ft, v0=v0: val(I, loc).t == z3.And(v0.t, ft(pre)))
                if ty == BOOL and isinstance(fty, ListT):
                    add(nmx + " nonempty", lambda I, pre, loc=loc, ft=ft, fty=fty: val(I, loc).t == (ft(pre) != nil(fty)))
                    add(nmx + " empty", lambda I, pre, loc=loc, ft=ft, fty=fty: val(I, loc).t == (ft(pre) == nil(fty)))
                if ty == INT and isinstance(fty, ListT):
                    add("len " + nmx, lambda I, pre, loc=loc, ft=ft, fty=fty, v0=v0: I.num(val(I, loc)) == (v0.t if v0 is not None and v0.ty == INT else 0) + TH.f_len(fty.elem)(ft(pre)))
                if ty == INT and fty == INT and v0 is not None and v0.ty == INT:
                    add("sum " + nmx, lambda I, pre, loc=loc, ft=ft, v0=v0: I.num(val(I, loc)) == v0.t + ft(pre))
        # a list built element by element is the prefix itself
        if it is not None:
            for loc, lt in locs.items():
                ty = lt
                if isinstance(ty, ListT) and ty.elem.sort() == it.elem.sort():
                    add(f"{name_of(loc)} == prefix", lambda I, pre, loc=loc: val(I, loc).t == pre)
        for t in self.c.templates:
            cands.extend(t(self, I, node, fr, it, locs, val) or [])
        return cands

    def comparable(self, a, b):
        if a.sort() == b.sort():
            return True
        return is_union(a) and b in a.alts or is_union(b) and a in b.alts

    def loop_report(self, I, node, fr, cands, live):
        if self.typing:
            return
        self.loops[(fr.fn_name, node.lineno)] = (len(cands), [c.name for c in live])
        if self.verbose:
            print(f"    loop {fr.fn_name}:{node.lineno}: {len(cands)} candidates; invariants: {[c.name for c in live]}")

    # ------------------------------------------------------------- calls

    def call_hook(self, I, o, args, kwargs):
        h = (self.c.hooks or {}).get(o) if self.c.hooks and _hashable(o) else None
        if h is not None and not I.spec_depth:
            return h(I, args, kwargs)
        k = o
        while hasattr(k, "__wrapped__") and not isinstance(k, type):
            k = k.__wrapped__
        c2 = BY_OBJ.get(id(k))
        if c2 is None or c2.inline or I.spec_depth:
            return None
        if c2 is self.c and not (self.c.spec or self.c.ret):
            return None
        if self.c.uses is None or c2.short in self.c.static:
            return None
        return self.apply_contract(I, c2, args, kwargs)

    def closure_hook(self, I, clo, args, kwargs):
        """a nested function under contract: its free variables become arguments"""
        c2 = BY_NODE.get(id(clo.node))
        if c2 is None or I.spec_depth or c2.inline or self.c.uses is None or c2.short in self.c.static:
            return None
        if c2 is self.c and not (self.c.spec or self.c.ret):
            return None
        free = LIFTED[id(c2.fn.__code__)][2]
        fr = I.frames.get(clo.fid)
        try:
            vals = [I.lookup(fr, n) for n in free]
        except Unsupported:
            return None
        return self.apply_contract(I, c2, vals + list(args), kwargs)

    def bind(self, I, c2, args, kwargs):
        sig = inspect.signature(c2.fn)
        names = list(sig.parameters)
        env = {}
        if len(args) > len(names):
            raise Unsupported("contract call arity")
        for n, a in zip(names, args):
            env[n] = a
        for k, a in kwargs.items():
            if k not in names or k in env:
                raise TExc(TypeError)
            env[k] = a
        for n, p in sig.parameters.items():
            if n not in env:
                if p.default is inspect.Parameter.empty:
                    raise TExc(TypeError)
                env[n] = Con(p.default)
        for n in c2.ghost:
            if n not in self.world:
                raise Unsupported(f"ghost {n} at call of {c2.short}")
            env[n] = self.world[n]
        return env

    def apply_contract(self, I, c2, args, kwargs):
        try:
            env = self.bind(I, c2, args, kwargs)
            snap = {}
            for n, v in env.items():
                want = c2.params.get(n)
                if isinstance(want, Con):
                    if not (isinstance(v, Con) and _same(v.o, want.o)):
                        return None  # outside the domain of the contract: inline
                    snap[n] = v
                    continue
                if want is None or isinstance(want, Uninit):
                    snap[n] = v
                    continue
                if isinstance(want, RecT) and not want.fields and isinstance(v, Ref):
                    # an object of which only constant fields matter (it may be under construction)
                    c = I.cell(v.cid)
                    if c.fields is None or c.ty.cls is not want.cls:
                        return None
                    for f, o in want.con_fields.items():
                        w = c.fields.get(f)
                        if not (isinstance(w, Con) and _same(w.o, o)) and not (w is None and f in c.ty.con_fields and _same(c.ty.con_fields[f], o)):
                            return None
                    snap[n] = v
                    continue
                s = I.lift(I.deref(v))
                if T.is_union(s.ty) and not T.is_union(want):
                    s = I.flow_narrow(s)
                    if T.is_union(s.ty) and want in s.ty.alts and not self.typing:
                        is_want = s.ty.is_(s.ty.alts.index(want), s.t)
                        if solve.prove(I.hyps(), is_want, timeout=800, use_cvc5=False, tries=1)[0] == "proved":
                            I.assume_once(is_want)
                            s = Sym(want, s.ty.proj(s.ty.alts.index(want), s.t))
                if not I.can_coerce(s.ty, want):
                    if self.verbose and not self.typing:
                        print(f"    contract of {c2.short} not applied: {n} is {s.ty.key}")
                    return None
                snap[n] = v if isinstance(v, Con) and isinstance(v.o, dict) else Sym(want, I.coerce(s, want))
        except Unsupported as e:
            if self.verbose and not self.typing:
                print(f"    contract of {c2.short} not applied: {e}")
            return None
        self.called_contracts.add(c2.short)
        sargs = [snap[n] for n in c2.params]
        if c2.requires is not None:
            r = I.truth(self.call_spec(I, c2.requires, c2, sargs))
            I.obligation(f"call {c2.name} requires", r, "precondition at call site")
            I.assume_once(r)
        def raised(cls):
            new = self.havoc(I, c2, env, {n: None for n in c2.modifies})
            for lab, e in c2.ensures_exc:
                I.assume_once(I.truth(self.call_spec(I, e, c2, sargs, new)))
            raise TExc(cls)

        for cls, when in c2.raises.items():
            if when is None:
                if I.choose(2) == 1:
                    raised(AnyExc if cls is Exception else cls)
            else:
                w = I.truth(self.call_spec(I, when, c2, sargs))
                if I.branch(w):
                    raised(AnyExc if cls is Exception else cls)
        for cls, when in c2.may_raise.items():
            if I.branch(I.truth(self.call_spec(I, when, c2, sargs))) and I.choose(2) == 1:
                raised(AnyExc if cls is Exception else cls)
        posts = {}
        for n, f in c2.modifies.items():
            base, _, fld = n.partition(".")
            posts[n] = self.call_spec(I, f, c2, sargs) if f is not None else None
        if c2.spec is not None:
            res = self.call_spec(I, c2.spec, c2, sargs)
        elif c2.ret is not None:
            if isinstance(c2.ret, Con):
                res = c2.ret
            else:
                res = I.fresh(c2.ret, "nd!r_" + c2.name.split(".")[-1])
        else:
            res = Con(None)
        new = self.havoc(I, c2, env, posts)
        for lab, e in c2.ensures:
            I.assume_once(I.truth(self.call_spec(I, e, c2, sargs + [res], new)))
        if isinstance(res, Sym):
            res = I.thaw(res) if not isinstance(res.ty, RecT) else res
        return res

    def havoc(self, I, c2, env, posts):
        """set the modified locations to the given values, or to arbitrary ones"""
        new = []
        for n, v in posts.items():
            base, _, fld = n.partition(".")
            loc = env[base]
            if fld:
                c = I.cell(loc.cid)
                if fld not in c.fields:
                    raise Unsupported("post of field")
                if not isinstance(c.fields[fld], (Ref, PRef)):
                    I.setattr(loc, fld, v if v is not None else I.fresh(c.ty.fields[fld], "nd!post_" + fld))
                    new.append(("new_" + base, I.snapshot(loc)))
                    continue
                loc = c.fields[fld]
            elif isinstance(loc, Ref) and I.cell(loc.cid).fields is not None:
                # every field may have changed
                I.frame_check(loc)
                c = I.cell(loc.cid).copy()
                for f2, t2 in c.ty.fields.items():
                    c.fields[f2] = I.thaw(I.fresh(t2, "nd!post_" + f2))
                I.st.heap[loc.cid] = c
                new.append(("new_" + base, I.snapshot(loc)))
                continue
            if v is None:
                cur = I.rd(loc)
                v = I.fresh(cur.ty, "nd!post_" + base)
            if isinstance(loc, (Ref, PRef)):
                I.wr(loc, I.lift(v))
                new.append(("new_" + base, I.snapshot(loc)))
            else:
                raise Unsupported("post of immutable")
        return new

    def call_spec(self, I, f, c, args, new=()):
        """evaluate a specification function (by parameter name)"""
        if isinstance(f, pytypes.FunctionType):
            want = list(inspect.signature(f).parameters)
            env = dict(zip(list(c.params) + ["result"], args))
            env.update(new)
            try:
                a = [env[w] for w in want]
            except KeyError as e:
                raise SpecError(f"{c.short}: specification parameter {e}")
            I.spec_depth += 1
            I.quiet += 1
            try:
                return I.call_function(f, a, {})
            finally:
                I.spec_depth -= 1
                I.quiet -= 1
        raise SpecError("spec")

    # ------------------------------------------------------------- verify

    def run(self):
        try:
            if self.c.fn is None:
                self.unsup = f"target not found: {self.c.missing}"
                return self
            site_types = {}
            self.typing = True
            for rnd in range(60):
                I = Prims(self)
                I.site_types = site_types
                self.obls = []
                self.cache = {}
                self.reached = 0
                try:
                    self.verify_once(I)
                    if not self.typing:
                        break
                    self.typing = False
                except Retype:
                    continue
            else:
                self.unsup = "type inference does not converge"
        except Unsupported as e:
            self.unsup = f"unsupported: {e}"
            if self.verbose:
                traceback.print_exc()
        except Timeout:
            self.unsup = "time budget exhausted"
        except (RecursionError, z3.Z3Exception, AssertionError, KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
            tb = traceback.format_exc().strip().splitlines()
            self.unsup = f"engine: {type(e).__name__}: {e} @ {' / '.join(x.strip() for x in tb[-4:-1])}"
            if self.verbose:
                traceback.print_exc()
        self.wall = time.time() - self.t0
        return self

    def verify_once(self, I):
        c = self.c
        snaps = {}
        args = {}
        names = c.order
        for n, ty in c.params.items():
            if isinstance(ty, V):
                args[n] = ty
                snaps[n] = ty
                continue
            if isinstance(ty, Uninit):
                args[n] = I.alloc(ty.rec, None, fields={k: Con(o) for k, o in ty.rec.con_fields.items()}, param=n, origin="param")
                snaps[n] = args[n]
                continue
            if isinstance(ty, Ty):
                s = I.fresh(ty, n)
                if isinstance(ty, DynT):
                    I.assume(union_domain(ty, s.t))
                snaps[n] = s
                pname = n
                if isinstance(ty, RecT) and not ty.frozen:
                    args[n] = I.obj_from_sym(s, param=pname, origin="param")
                else:
                    args[n] = I.thaw(s, param=pname)
                continue
            raise SpecError(f"{c.short}: parameter {n}")
        sargs = [snaps[n] for n in c.params]
        self.snaps = snaps
        self.world = {n: args[n] for n in c.ghost}
        if c.setup is not None:
            c.setup(I, args, snaps)
        if c.requires is not None:
            self.revealing = not self.typing
            n0 = len(I.st.pc)
            try:
                outs = I.explore(lambda: I.truth(self.call_spec(I, c.requires, c, sargs)), "requires")
            finally:
                self.revealing = False
            I.st.cnt = max([I.st.cnt] + [st.cnt for _, _, st in outs])
            for k, v, st in outs:
                if k != "ok":
                    saved, I.st = I.st, st
                    try:
                        if self.typing or self.prove(I.hyps(), FALSE)[0] == "proved":
                            continue  # the precondition is defined on every feasible path
                    finally:
                        I.st = saved
                    raise SpecError(f"{c.short}: the precondition raises {v}")
                conds = [t for t, kd in st.pc[n0:] if kd == "b"]
                facts = [t for t, kd in st.pc[n0:] if kd != "b"]
                if conds:
                    I.assume(z3.Implies(zand(conds), zand(facts + [v])))
                else:
                    for t in facts:
                        I.assume_once(t)
                    I.assume(v)
        if self.typing:
            return self.body_only(I, c, args)
        # goal terms: used only to suggest loop invariants
        self.goal_terms = []
        for f in [c.spec] + [f for f in c.modifies.values() if f is not None] + [w for w in c.raises.values() if w is not None]:
            if f is not None:
                self.revealing = True
                try:
                    outs = I.explore(lambda f=f: I.snapshot(self.call_spec(I, f, c, sargs)), "goal")
                finally:
                    self.revealing = False
                for k, v, s in outs:
                    if k == "ok" and isinstance(v, Sym):
                        self.goal_terms.append(v.t)
                    self.goal_terms.extend(t for t, _ in s.pc)

        for extra, f in c.hints:
            for n, t in extra.items():
                snaps.setdefault("hint:" + n, Sym(t, z3.Const(f"hint:{n}:{t.key}", t.sort())))
            args_ = [snaps["hint:" + n] if n in extra else snaps[n] for n in inspect.signature(f).parameters]
            for k, v, s in I.explore(lambda: I.snapshot(self.call_spec_raw(I, f, args_)), "hint"):
                if k == "ok" and isinstance(v, Sym):
                    self.goal_terms.append(v.t)
        for l in c.lemmas:
            l.install(self, I)
        cargs = [args[n] for n in names if n in args]
        missing = [n for n in names if n not in args]
        base_pc = len(I.st.pc)
        if I.st.pend:
            raise Unsupported("a case distinction outside the body")

        def go():
            return I.call_function(c.fn, [], {n: args[n] for n in names if n in args}) if not missing else \
                I.call_function(c.fn, [], {n: args[n] for n in names if n in args})

        outs = I.explore(go, "body")
        npaths = 0
        for i, (k, v, s) in enumerate(outs):
            self.tick()
            saved = I.st
            I.st = s.clone()
            I.st.dec, I.st.di, I.st.pend, I.st.scope, I.st.expl = [], 0, [], (s.scope, "post", i), 0
            try:
                npaths += 1
                if k == "exc":
                    self.check_exc(I, v, c, sargs, i, args)
                elif k == "ok":
                    self.check_post(I, v, c, sargs, args, i)
                else:
                    raise Unsupported(f"path ends with {k}")
            finally:
                I.st = saved
        self.npaths = npaths
        self.reached = npaths
        if not npaths:
            raise Unsupported("no path reaches the end")

    def body_only(self, I, c, args):
        I.quiet += 1
        I.explore(lambda: I.call_function(c.fn, [], {n: args[n] for n in c.order if n in args}), "typing")

    def check_exc(self, I, e, c, sargs, i, args):
        new = []
        for n in sorted({m.partition(".")[0] for m in c.modifies}) if c.ensures_exc else ():
            new.append(("new_" + n, I.snapshot(args[n])))
        for lab, p in c.ensures_exc:
            self.under(I, f"path{i} raising: {lab}", lambda p=p: I.truth(self.call_spec(I, p, c, sargs, new)))
        for cls, when in c.may_raise.items():
            if self.raised_as(e, cls):
                return self.under(I, f"path{i} raises {e.cls.__name__} only when allowed", lambda: I.truth(self.call_spec(I, when, c, sargs)))
        for cls, when in c.raises.items():
            if self.raised_as(e, cls):
                if when is not None:
                    self.under(I, f"path{i} raises {e.cls.__name__} only when specified",
                               lambda: I.truth(self.call_spec(I, when, c, sargs)))
                else:
                    self.obligation(I, f"path{i} may raise {e.cls.__name__}", TRUE)
                return
        self.obligation(I, f"path{i} raises no {e.cls.__name__}", FALSE, getattr(e, "where", ""))

    def raised_as(self, e, cls):
        return e.cls is cls or isinstance(e.cls, type) and issubclass(e.cls, cls) or e.cls is AnyExc and cls is Exception

    def under(self, I, name, f):
        """prove f() on every path of its evaluation"""
        self.revealing = True
        try:
            outs = I.explore(f, name)
        finally:
            self.revealing = False
        for j, (k, v, s) in enumerate(outs):
            saved = I.st
            I.st = s
            try:
                if k != "ok":
                    if self.prove(I.hyps(), FALSE)[0] == "proved":
                        continue  # the specification is defined on every feasible path
                    raise SpecError(f"{self.c.short}: specification raises {v} ({name})")
                self.obligation(I, name, v)
            finally:
                I.st = saved

    def check_post(self, I, v, c, sargs, args, i):
        for cls, when in c.raises.items():
            if when is not None:
                self.under(I, f"path{i} must not need {cls.__name__}", lambda: znot(I.truth(self.call_spec(I, when, c, sargs))))
        res = I.snapshot(v)
        new = []
        for n in sorted({m.partition(".")[0] for m in c.modifies}):
            try:
                new.append(("new_" + n, I.snapshot(args[n])))
            except Unsupported:
                self.obligation(I, f"path{i} {n} is fully initialised", FALSE)
                return
        if c.spec is not None:
            def f():
                want = self.call_spec(I, c.spec, c, sargs)
                return self.same(I, res, want)
            self.under(I, f"path{i} result", f)
        for lab, e in c.ensures:
            self.under(I, f"path{i} {lab}", lambda e=e: I.truth(self.call_spec(I, e, c, sargs + [res], new)))
        for n, f in c.modifies.items():
            if f is None:
                continue
            base, _, fld = n.partition(".")

            def g(f=f, base=base, fld=fld):
                loc = args[base]
                if fld:
                    cell = I.cell(loc.cid)
                    if fld not in cell.fields:
                        return FALSE
                    loc = cell.fields[fld]
                cur = I.lift(I.deref(loc)) if not isinstance(loc, (Ref, PRef)) else I.rd(loc)
                want = self.call_spec(I, f, c, sargs)
                return self.same(I, cur, want)
            self.under(I, f"path{i} {n} afterwards", g)

    def same(self, I, a, b):
        if isinstance(a, Con) and isinstance(b, Con):
            return z3.BoolVal(_same(a.o, b.o))
        if isinstance(a, Sym) and isinstance(b, Sym) and a.ty == b.ty and ("identical", a.ty.key) in EXT_ATTR:
            return a.t == b.t
        I.spec_depth += 1  # dictionaries: the order of insertion counts, callers may rely on it
        try:
            return I.eq(a, b)
        except Unsupported:
            return I.eq_sym(I.lift(a), I.lift(b))
        finally:
            I.spec_depth -= 1


def _same(a, b):
    if a is b:
        return True
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


def _hashable(o):
    try:
        hash(o)
        return True
    except TypeError:
        return False


def _call_spec_raw(self, I, f, args):
    I.spec_depth += 1
    I.quiet += 1
    try:
        return I.call_function(f, args, {})
    finally:
        I.spec_depth -= 1
        I.quiet -= 1


def _empty_of(self, ty):
    if isinstance(ty, ListT):
        return nil(ty)
    if isinstance(ty, SetT):
        return z3.K(ty.elem.sort(), FALSE)
    if isinstance(ty, DictT):
        return ty.empty()
    raise Unsupported("empty")


Job.call_spec_raw = _call_spec_raw
Job.empty_of = _empty_of
