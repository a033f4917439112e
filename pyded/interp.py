"""Forward symbolic execution of real Python source (verification conditions)."""
import ast
import builtins
import enum
import functools
import inspect
import itertools
import sys
import types as pytypes
import typing
import z3
from . import theory as TH
from . import solve
from .ty import *
from . import ty as T
from .values import *

# ---------------------------------------------------------------- source --

_files = {}


def file_index(path):
    """{(firstlineno, name): node} for every function and lambda of a file."""
    if path not in _files:
        with open(path, encoding="utf8") as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(line, n.name)] = n
                idx[(n.lineno, n.name)] = n
            elif isinstance(n, ast.Lambda):
                idx.setdefault((n.lineno, "<lambda>"), []).append(n)
        _files[path] = (idx, src)
    return _files[path][0]


LIFTED = {}  # id(code of a lifted nested function) -> (definition, original definition, names of its free variables)


def _bound(node):
    """names bound in the scope of a function definition"""
    out = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
    out |= {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).partition(".")[0] for a in n.names}
        stack.extend(ast.iter_child_nodes(n))
    return out


def _loaded(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def lift_nested(outer, name):
    """a nested function as a function of its own: the same body, the variables of the
    enclosing function it uses as leading parameters, and the definitions of the
    neighbouring nested functions it calls before its body"""
    onode = LIFTED[id(outer.__code__)][1] if id(outer.__code__) in LIFTED else node_of(outer)
    defs = {n.name: n for n in onode.body if isinstance(n, ast.FunctionDef)}
    inner = defs.get(name)
    if inner is None:
        raise AttributeError(f"{outer.__qualname__}.<locals>.{name}")
    if inner.decorator_list or inner.args.defaults or inner.args.kw_defaults:
        raise AttributeError(f"{name}: default arguments")
    scope = _bound(onode)
    used, todo, frees = [], [inner], set()
    while todo:
        d = todo.pop()
        for n in sorted((_loaded(d) - _bound(d)) & scope):
            if n in defs:
                if defs[n] not in used:
                    used.append(defs[n])
                    todo.append(defs[n])
            else:
                frees.add(n)
    free = sorted(frees)
    a = inner.args
    args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=n, lineno=inner.lineno, col_offset=0, end_lineno=inner.lineno, end_col_offset=0) for n in free] + a.posonlyargs + a.args,
                         vararg=a.vararg, kwonlyargs=a.kwonlyargs, kw_defaults=a.kw_defaults, kwarg=a.kwarg, defaults=[])
    kw = {"type_params": []} if hasattr(inner, "type_params") else {}
    node = ast.copy_location(ast.FunctionDef(name=name, args=args, body=[d for d in used] + inner.body, decorator_list=[], returns=None, type_comment=None, **kw), inner)
    ns = {}
    exec(compile(ast.fix_missing_locations(ast.Module(body=[node], type_ignores=[])), outer.__code__.co_filename, "exec", dont_inherit=True), dict(outer.__globals__), ns)
    fn = pytypes.FunctionType(ns[name].__code__, outer.__globals__, name)
    fn.__module__ = outer.__module__
    fn.__qualname__ = f"{outer.__qualname__}.<locals>.{name}"
    LIFTED[id(fn.__code__)] = (node, inner, free, fn)
    return fn


def node_of(fn):
    code = fn.__code__
    if id(code) in LIFTED:
        return LIFTED[id(code)][0]
    idx = file_index(code.co_filename)
    n = idx.get((code.co_firstlineno, code.co_name))
    if isinstance(n, list):
        if len(n) == 1:
            return n[0]
        for c in n:  # several lambdas on a line: match the argument names
            if [a.arg for a in c.args.args] == list(code.co_varnames[: code.co_argcount]):
                pos = getattr(code, "co_positions", None)
                if pos is not None:
                    cols = [p[2] for p in code.co_positions() if p[2] is not None]
                    if cols and c.col_offset <= min(cols) + 200:
                        bodycols = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
                        if any(p[0] == c.body.lineno and p[2] == c.body.col_offset for p in bodycols):
                            return c
        raise Unsupported("ambiguous lambda")
    if n is None:
        raise Unsupported(f"no source for {fn}")
    return n


REPO_PREFIX = "edulint"


def is_user_function(o):
    return isinstance(o, pytypes.FunctionType) and (
        (o.__module__ or "").startswith(REPO_PREFIX) or (o.__module__ or "").startswith("contracts") or (o.__module__ or "").startswith("pyded"))


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def zand(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def zor(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def znot(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def zite(c, a, b):
    if z3.is_true(c) or a.eq(b):
        return a
    if z3.is_false(c):
        return b
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return znot(c)
    return z3.If(c, a, b)


def simp_bool(c):
    s = z3.simplify(c)
    if z3.is_true(s) or z3.is_false(s):
        return s
    return c


_unknowns = {}


def unknown_at(site):
    if site not in _unknowns:
        u = UnknownSite(site)
        _unknowns[site] = u
    return _unknowns[site]


class UnknownSite(UnknownT):
    def __init__(self, site):
        self.site = site
        self.key = f"unknown@{site}"

    def _mk(self):
        return z3.DeclareSort(T._san(self.key))


def has_unknown(ty):
    return "unknown@" in ty.key


class Frame:
    __slots__ = ("fid", "glob", "parent", "fn_name", "yields", "cls", "spec", "fnnode")

    def __init__(self, fid, glob, parent, fn_name, cls=None, spec=False, fnnode=None):
        self.fid, self.glob, self.parent, self.fn_name, self.cls, self.spec, self.fnnode = fid, glob, parent, fn_name, cls, spec, fnnode
        self.yields = None


MISSING = object()


def same_val(a, b):
    """two symbolic values are the same (memoised paths keep their own copies)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return isinstance(a, (list, tuple)) and False
    if isinstance(a, Sym):
        return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, Con):
        return a.o is b.o or (isinstance(a.o, (str, int, bool, tuple)) and type(a.o) is type(b.o) and a.o == b.o)
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_val(a[k], b[k]) for k in a)
    if isinstance(a, V):
        names = [n for c in type(a).__mro__ for n in getattr(c, "__slots__", ())] or list(a.__dict__)
        return all(same_val(getattr(a, n, None), getattr(b, n, None)) for n in names)
    try:
        return type(a) in (str, int, bool, bytes) and a == b
    except Exception:
        return False


def same_cell(a, b):
    """no write happened between two views of a heap cell"""
    return a is b or (a.ty == b.ty and a.sver == b.sver and a.dver == b.dver and (a.term is None) == (b.term is None)
                      and (a.term is None or a.term.eq(b.term)) and same_val(a.fields, b.fields))


class Interp:
    MAXPATHS = 4000
    MAXDEPTH = 40

    def __init__(self, job):
        self.job = job  # verification job: receives obligations, provides contracts/templates
        self.st = State()
        self.frames = {}
        self.spec_depth = 0
        self.reduce_depth = 0
        self.quiet = 0
        self.memo = {}
        self.unfused = {}  # lists that are not looked through
        self.feas_cache = {}
        self.site_types = {}
        self.depth = 0
        self.expl_sites = []
        self.npaths = 0
        self.ctx_label = ""

    # ---------------------------------------------------------- path state

    def fresh(self, ty, hint="v"):
        self.st.cnt += 1
        scope = abs(hash(self.st.scope)) % 10**9
        return Sym(ty, z3.Const(f"{hint}!{self.st.cnt}.{scope}", ty.sort()))

    def fresh_term(self, sort, hint="v"):
        self.st.cnt += 1
        scope = abs(hash(self.st.scope)) % 10**9
        return z3.Const(f"{hint}!{self.st.cnt}.{scope}", sort)

    def assume(self, t):
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible()
        self.st.pc.append((t, "a"))

    def hyps(self):
        return [t for t, _ in self.st.pc]

    def branch(self, c):
        c2 = simp_bool(c)
        if z3.is_true(c2):
            return True
        if z3.is_false(c2):
            return False
        st = self.st
        nc = znot(c)
        # syntactic entailment
        for t, _ in st.pc:
            if t.eq(c):
                return True
            if t.eq(nc):
                return False
        if st.di < len(st.dec):
            v = st.dec[st.di]
            st.di += 1
        else:
            key = (tuple(t.get_id() for t, _ in st.pc), c.get_id())
            r = self.feas_cache.get(key)
            if r is None:
                h = self.hyps()
                f1 = solve.feasible(h + [c])
                f2 = solve.feasible(h + [nc]) if f1 else True
                r = (f1, f2)
                self.feas_cache[key] = r
                TH._keep.append((c, [t for t, _ in st.pc]))
            f1, f2 = r
            if f1 and f2:
                st.pend.append(st.dec[: st.di] + [False])
                v = True
            elif f1:
                v = True
            else:
                v = False
            st.dec = st.dec[: st.di] + [v]
            st.di += 1
        st.pc.append((c if v else nc, "b"))
        return v

    def choose(self, n):
        """nondeterministic choice among n alternatives"""
        st = self.st
        if n == 1:
            return 0
        if n == 0:
            raise Infeasible()
        if st.di < len(st.dec):
            v = st.dec[st.di]
        else:
            for k in range(n - 1, 0, -1):
                st.pend.append(st.dec[: st.di] + [k])
            st.dec = st.dec[: st.di] + [0]
            v = 0
        st.di += 1
        return v

    def explore(self, run, tag=""):
        """all paths of run() from the current state; [(kind, value, state)]"""
        base = self.st
        base.expl += 1
        key = (base.scope, tuple(base.dec[: base.di]), base.expl, tag)
        if key in self.memo:
            return self.memo[key]
        outs = []
        pending = [[]]
        saved_quiet = self.quiet
        while pending:
            dec = pending.pop()
            st = base.clone()
            st.dec, st.di, st.pend, st.scope, st.expl = dec, 0, [], key, 0
            self.st = st
            self.npaths += 1
            self.job.tick()
            if len(outs) > self.MAXPATHS:
                raise Unsupported("too many paths")
            try:
                v = run()
                outs.append(("ok", v, self.st))
            except TExc as e:
                outs.append(("exc", e, self.st))
            except Ret as e:
                outs.append(("ret", e.v, self.st))
            except Brk:
                outs.append(("brk", None, self.st))
            except Cont:
                outs.append(("cont", None, self.st))
            except Infeasible:
                pass
            finally:
                pend = self.st.pend
                self.st = base
                self.quiet = saved_quiet
            pending.extend(pend)
        self.memo[key] = outs
        return outs

    def adopt(self, st2):
        """continue the current path from the final state of an explored one"""
        cur = self.st
        n = st2.clone()
        n.dec, n.di, n.pend, n.scope, n.expl = cur.dec, cur.di, cur.pend, cur.scope, cur.expl
        n.cnt = max(cur.cnt, st2.cnt)
        self.st = n

    def merge(self, run, tag="merge"):
        """Evaluate run() on all its paths and merge the results into one value,
        or return None when the paths raise, change the heap or differ in kind."""
        base = self.st
        n0 = len(base.pc)
        heap0 = dict(base.heap)
        envs0 = base.envs
        outs = self.explore(run, tag)
        if not outs:
            raise Infeasible()
        if len(outs) == 1:
            k, v, s = outs[0]
            if k == "exc":
                self.adopt(s)
                raise v
            if k != "ok":
                return None
            self.adopt(s)
            return (v,)
        for k, v, s in outs:
            if k != "ok" or len(s.trace) != len(base.trace):
                return None
            if any(not same_cell(c, heap0[i]) for i, c in s.heap.items() if i in heap0):
                return None
            for f, e in s.envs.items():
                b = envs0.get(f)
                if b is not None and any(not same_val(b.get(x), y) for x, y in e.items()):
                    return None
        vals = []
        for k, v, s in outs:
            conds = [t for t, kd in s.pc[n0:] if kd == "b"]
            saved = self.st
            self.st = s
            try:
                r = self.snapshot(v)
            except Unsupported:
                return None
            finally:
                self.st = saved
            if not isinstance(r, (Sym, Con)):
                return None
            vals.append((zand(conds), r))
        m = self.merge_vals(vals)
        if m is None:
            return None
        self.st.cnt = max([self.st.cnt] + [s.cnt for _, _, s in outs])
        for k, v, s in outs:
            conds = [t for t, kd in s.pc[n0:] if kd == "b"]
            for t, kd in s.pc[n0:]:
                if kd == "a":
                    i = [x for x, _ in s.pc].index(t)
                    pre = [x for x, kk in s.pc[n0:] if kk == "b"]
                    self.assume(z3.Implies(zand(pre), t))
        return (m,)

    def merge_vals(self, vals):
        """[(cond, Sym|Con)] -> Sym | Con | Choice | None"""
        if all(isinstance(v, Con) for _, v in vals):
            o0 = vals[0][1].o
            try:
                if all(type(v.o) is type(o0) and v.o == o0 for _, v in vals):
                    return vals[0][1]
            except Exception:
                pass
        try:
            syms = [(c, self.lift(v)) for c, v in vals]
        except Unsupported:
            if all(isinstance(v, Con) for _, v in vals):
                return Choice([(c, v) for c, v in vals])
            return None
        ty = syms[0][1].ty
        for _, s in syms[1:]:
            ty = self.join(ty, s.ty)
        try:
            terms = [(c, self.coerce(s, ty)) for c, s in syms]
        except Unsupported:
            return None
        t = terms[-1][1]
        for c, x in reversed(terms[:-1]):
            t = zite(c, x, t)
        return Sym(ty, t)

    # ----------------------------------------------------------- types

    def join(self, a, b):
        if a == b:
            return a
        if isinstance(a, UnknownT):
            return b
        if isinstance(b, UnknownT):
            return a
        if a == DYN or b == DYN:
            return DYN
        if widens(a, b):
            if self.can_coerce(a, b):
                return b
            if self.can_coerce(b, a):
                return a
        if isinstance(a, VTupT) and isinstance(b, VTupT):
            return VTupT(self.join(a.elem, b.elem))
        if type(a) is ListT and type(b) is ListT:
            return ListT(self.join(a.elem, b.elem))
        if isinstance(a, SetT) and isinstance(b, SetT):
            return SetT(self.join(a.elem, b.elem))
        if isinstance(a, DictT) and isinstance(b, DictT):
            return DictT(self.join(a.k, b.k), self.join(a.v, b.v), a.pytype if a.pytype is b.pytype else dict)
        if isinstance(a, TupT) and isinstance(b, TupT):
            if len(a.elems) == len(b.elems):
                return TupT(*[self.join(x, y) for x, y in zip(a.elems, b.elems)])
            if not a.elems or not b.elems:
                pass
            e = UNKNOWN
            for x in a.elems + b.elems:
                e = self.join(e, x)
            return VTupT(e)
        if isinstance(a, VTupT) and isinstance(b, TupT):
            e = a.elem
            for x in b.elems:
                e = self.join(e, x)
            return VTupT(e)
        if isinstance(b, VTupT) and isinstance(a, TupT):
            return self.join(b, a)
        if isinstance(a, UnionT) or isinstance(b, UnionT):
            au = list(a.alts) if isinstance(a, UnionT) else [a]
            bu = list(b.alts) if isinstance(b, UnionT) else [b]
            out = list(au)
            for y in bu:
                for i, x in enumerate(out):
                    if x == y:
                        break
                    if self._same_shape(x, y):
                        out[i] = self.join(x, y)
                        break
                else:
                    out.append(y)
            return T.union(*out)
        if self._same_shape(a, b):
            return a
        return T.union(a, b)

    def _same_shape(self, x, y):
        return (type(x) is type(y) and isinstance(x, (SetT, DictT)) or (type(x) is ListT and type(y) is ListT)
                or (isinstance(x, (VTupT, TupT)) and isinstance(y, (VTupT, TupT)) and (isinstance(x, VTupT) or isinstance(y, VTupT) or len(x.elems) == len(y.elems))))

    def can_coerce(self, a, b):
        if a == b or isinstance(a, UnknownT):
            return True
        if a == BOOL and b == INT:
            return True
        if isinstance(b, OpaqueT) and (b.name, "of", a.key) in EXT_ATTR:
            return True
        if is_union(b):
            if is_union(a):
                return all(self.can_coerce(x, b) for x in a.alts)
            return any(self.can_coerce(a, x) and not (a == BOOL and x == INT) for x in b.alts) or any(
                self.can_coerce(a, x) for x in b.alts)
        if isinstance(a, VTupT) != isinstance(b, VTupT) and isinstance(a, ListT):
            return False
        if isinstance(a, ListT) and isinstance(b, ListT):
            return self.can_coerce(a.elem, b.elem)
        if isinstance(a, TupT) and isinstance(b, VTupT):
            return all(self.can_coerce(x, b.elem) for x in a.elems)
        if isinstance(a, TupT) and isinstance(b, TupT):
            return len(a.elems) == len(b.elems) and all(self.can_coerce(x, y) for x, y in zip(a.elems, b.elems))
        if isinstance(a, SetT) and isinstance(b, SetT):
            return isinstance(a.elem, UnknownT) or self.can_coerce(a.elem, b.elem)
        if isinstance(a, DictT) and isinstance(b, DictT):
            return self.can_coerce(a.k, b.k) and self.can_coerce(a.v, b.v)
        if widens(a, b):
            return all(self.can_coerce(a.fields[f], b.fields[f]) for f in a.fields)
        return False

    def alt_index(self, a, b):
        """alternative of union b that a value of type a is stored in"""
        for i, x in enumerate(b.alts):
            if x == a:
                return i
        for i, x in enumerate(b.alts):
            if self.can_coerce(a, x) and not (a == BOOL and x == INT):
                return i
        for i, x in enumerate(b.alts):
            if self.can_coerce(a, x):
                return i
        return None

    def coerce(self, v, ty):
        """term of type ty for the Sym v"""
        a, t = v.ty, v.t
        if a == ty:
            return t
        if isinstance(a, UnknownT):
            return z3.Const(f"junk:{ty.key}", ty.sort())
        if a == BOOL and ty == INT:
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(ty, OpaqueT) and (ty.name, "of", a.key) in EXT_ATTR:
            return EXT_ATTR[(ty.name, "of", a.key)](self, v)
        if isinstance(ty, UnionT) or isinstance(ty, DynT):
            if is_union(a):
                res = None
                for i in range(len(a.alts) - 1, -1, -1):
                    x = Sym(a.alts[i], a.proj(i, t))
                    if self.alt_index(x.ty, ty) is None:
                        if self._excluded(a.is_(i, t)):
                            continue
                        raise Unsupported(f"coerce {a} to {ty}")
                    c = self.coerce(x, ty)
                    res = c if res is None else z3.If(a.is_(i, t), c, res)
                return res
            i = self.alt_index(a, ty)
            if i is None:
                raise Unsupported(f"coerce {a} to {ty}")
            r = ty.inj(i, None if ty.alts[i] == NONE else self.coerce(v, ty.alts[i]))
            if isinstance(ty, DynT):
                self._dyn_inj(ty, i, r, v)
            return r
        if is_union(a):
            # only if the path says which alternative it is
            for i, x in enumerate(a.alts):
                if self._entailed(a.is_(i, t)):
                    return self.coerce(Sym(x, a.proj(i, t)), ty)
            raise Unsupported(f"coerce {a} to {ty}")
        if isinstance(a, TupT) and isinstance(ty, TupT) and len(a.elems) == len(ty.elems):
            return ty.make(*[self.coerce(Sym(x, a.get(t, i)), y) for i, (x, y) in enumerate(zip(a.elems, ty.elems))])
        if isinstance(a, TupT) and isinstance(ty, VTupT):
            r = nil(ty)
            for i, x in enumerate(a.elems):
                r = snoc(ty, r, self.coerce(Sym(x, a.get(t, i)), ty.elem))
            return r
        if isinstance(a, ListT) and isinstance(ty, ListT) and isinstance(a, VTupT) == isinstance(ty, VTupT):
            if isinstance(a.elem, UnknownT):
                return nil(ty)
            return self._cast_list(a, ty, t)
        if isinstance(a, SetT) and isinstance(ty, SetT) and isinstance(a.elem, UnknownT):
            return z3.K(ty.elem.sort(), FALSE)
        if isinstance(a, SetT) and isinstance(ty, SetT):
            return self._cast_set(a, ty, t)
        if isinstance(a, DictT) and isinstance(ty, DictT):
            if isinstance(a.k, UnknownT):
                return ty.empty()
            if a.k == ty.k and isinstance(a.v, UnknownT):
                pass
            if a.k == ty.k and a.v == ty.v:
                return t
            return self._cast_dict(a, ty, t)
        if widens(a, ty) and self.can_coerce(a, ty):
            return ty.make(*[self.coerce(Sym(x, a.get(t, f)), ty.fields[f]) for f, x in a.fields.items()])
        raise Unsupported(f"coerce {a} to {ty}")

    def _dyn_inj(self, ty, i, r, v):
        self.st.pc.append((ty.tag(r) == i, "a"))
        if ty.alts[i] != NONE:
            self.st.pc.append((ty.proj(i, r) == self.coerce(v, ty.alts[i]), "a"))

    def _cast_set(self, a, ty, t):
        f = TH.uf(f"castset<{a.key}->{ty.key}>", [a], ty)
        raise Unsupported(f"set cast {a} to {ty}")

    def _cast_dict(self, a, ty, t):
        # literal spines only
        puts = []
        u = t
        pd = TH.f_put(a)
        while z3.is_app(u) and u.decl().eq(pd):
            puts.append((u.arg(1), u.arg(2)))
            u = u.arg(0)
        if u.eq(a.empty()):
            r = ty.empty()
            for k, v in reversed(puts):
                r = TH.f_put(ty)(r, self.coerce(Sym(a.k, k), ty.k), self.coerce(Sym(a.v, v), ty.v))
            return r
        raise Unsupported(f"dict cast {a} to {ty}")

    def _cast_list(self, a, ty, t):
        items = self.spine(a, t)
        if items is not None:
            r = nil(ty)
            for x in items:
                r = snoc(ty, r, self.coerce(Sym(a.elem, x), ty.elem))
            return r
        p = z3.Const(f"castp:{a.key}", a.sort())
        x = z3.Const(f"castx:{a.key}", a.elem.sort())
        acc = z3.Const(f"casta:{ty.key}", ty.sort())
        el = self.coerce(Sym(a.elem, x), ty.elem)
        f, caps = TH.mk_fold(ty if not isinstance(ty, VTupT) else ty, a.elem, p, x, acc, nil(ty), snoc(ty, acc, el), "listcomp", {"elt": el, "cond": None})
        return f.dcl(*caps, t)

    def spine(self, ty, t, limit=40):
        items = []
        c = ty.sort().constructor(1)
        n0 = ty.sort().constructor(0)
        while z3.is_app(t) and t.decl().eq(c):
            items.append(t.arg(1))
            t = t.arg(0)
            if len(items) > limit:
                return None
        if z3.is_app(t) and t.decl().eq(n0):
            items.reverse()
            return items
        return None

    def _entailed(self, c):
        c2 = simp_bool(c)
        if z3.is_true(c2):
            return True
        if z3.is_false(c2):
            return False
        if any(t.eq(c) for t, _ in self.st.pc):
            return True
        key = ("ent", tuple(t.get_id() for t, _ in self.st.pc), c.get_id())
        r = self.feas_cache.get(key)
        if r is None:
            r = not solve.feasible(self.hyps() + [znot(c)])
            self.feas_cache[key] = r
            TH._keep.append((c, [t for t, _ in self.st.pc]))
        return r

    def _excluded(self, c):
        return self._entailed(znot(c))

    # --------------------------------------------------- lifting / encoding

    def lift(self, v, want=None):
        """Con/TupV/Ref/... -> Sym (an immutable snapshot)"""
        if isinstance(v, Sym):
            return v
        if isinstance(v, Con):
            return self.lift_obj(v.o)
        if isinstance(v, TupV):
            items = [self.lift(x) for x in v.items]
            ty = TupT(*[x.ty for x in items])
            return Sym(ty, ty.make(*[x.t for x in items]))
        if isinstance(v, (Ref, PRef)):
            return self.rd(v)
        if isinstance(v, Choice):
            m = self.merge_vals([(c, self.lift(x)) for c, x in v.alts])
            if isinstance(m, Sym):
                return m
        if isinstance(v, IterV):
            return self.iter_to_list(v)
        if isinstance(v, ConcIter):
            return self.mk_listlit(v.items, ListT)
        raise Unsupported(f"cannot encode {v!r}")

    def snapshot(self, v):
        if isinstance(v, (Ref, PRef)):
            return self.rd(v)
        if isinstance(v, TupV):
            return self.lift(v)
        if isinstance(v, (IterV, ConcIter)):
            return self.lift(v)
        return v

    _lift_cache = {}

    def lift_obj(self, o):
        ty = ty_of_const(o)
        if ty is not None:
            if ty == NONE:
                return Sym(NONE, NONE.sort().constructor(0)())
            if ty == BOOL:
                return Sym(BOOL, z3.BoolVal(o))
            if ty == INT:
                return Sym(INT, z3.IntVal(o))
            if ty == STR:
                return Sym(STR, z3.StringVal(_esc(o)))
            if ty == FLOAT:
                return Sym(FLOAT, z3.Const(f"float:{o!r}", FLOAT.sort()))
            return Sym(ty, ty.const(o))
        if isinstance(o, list):
            return self.mk_listlit([Con(x) for x in o], ListT)
        if isinstance(o, tuple):
            items = [self.lift_obj(x) for x in o]
            ty = TupT(*[x.ty for x in items])
            return Sym(ty, ty.make(*[x.t for x in items]))
        if isinstance(o, (set, frozenset)):
            return self.mk_setlit([Con(x) for x in sorted(o, key=repr)])
        if type(o) is dict or (isinstance(o, dict) and rec_of(type(o)) is None):
            return self.mk_dictlit([(Con(k), Con(x)) for k, x in o.items()])
        r = rec_of(type(o))
        if r is not None:
            return Sym(r, r.make(*[self.coerce(self.lift_obj(getattr(o, f)), t) for f, t in r.fields.items()]))
        raise Unsupported(f"cannot encode object {type(o)}")

    def mk_listlit(self, vals, cls, site=None):
        items = [self.lift(x) for x in vals]
        e = None
        for x in items:
            e = x.ty if e is None else self.join(e, x.ty)
        if e is None:
            e = self.site_types.get(site) or unknown_at(site or "anon")
        st = self.site_types.get(site)
        if st is not None:
            e = self.join(st, e)
        ty = cls(e)
        t = nil(ty)
        for x in items:
            t = snoc(ty, t, self.coerce(x, e))
        return Sym(ty, t)

    def mk_setlit(self, vals, site=None):
        items = [self.lift(x) for x in vals]
        e = None
        for x in items:
            e = x.ty if e is None else self.join(e, x.ty)
        st = self.site_types.get(site)
        if e is None:
            e = st or unknown_at(site or "anon")
        elif st is not None:
            e = self.join(st, e)
        ty = SetT(e)
        t = z3.K(e.sort(), FALSE)
        for x in items:
            t = z3.Store(t, self.coerce(x, e), TRUE)
        return Sym(ty, t)

    def mk_dictlit(self, pairs, site=None):
        ps = [(self.lift(k), self.lift(v)) for k, v in pairs]
        kt = vt = None
        for k, v in ps:
            kt = k.ty if kt is None else self.join(kt, k.ty)
            vt = v.ty if vt is None else self.join(vt, v.ty)
        st = self.site_types.get(site)
        if kt is None:
            if st is not None:
                kt, vt = st.k, st.v
            else:
                u = unknown_at(site or "anon")
                kt = vt = u
        elif st is not None:
            kt, vt = self.join(st.k, kt), self.join(st.v, vt)
        ty = DictT(kt, vt)
        t = ty.empty()
        for k, v in ps:
            t = TH.f_put(ty)(t, self.coerce(k, kt), self.coerce(v, vt))
        return Sym(ty, t)

    # ---------------------------------------------------------------- heap

    def alloc(self, ty, term, site=None, fields=None, origin=None, param=None):
        self.st.cnt += 1
        cid = f"c{self.st.cnt}.{abs(hash(self.st.scope)) % 100000}"
        self.st.heap[cid] = Cell(ty, term, fields, site, origin=origin, param=param)
        return Ref(cid)

    def cell(self, cid):
        return self.st.heap[cid]

    def rd(self, v):
        """current value of a mutable location"""
        if isinstance(v, Ref):
            c = self.cell(v.cid)
            if c.fields is not None:
                r = c.ty
                ts = []
                for f, ft in r.fields.items():
                    if f not in c.fields:
                        # attribute not set yet
                        raise Unsupported(f"attribute {f} of {r.name} not initialised")
                    ts.append(self.coerce(self.lift(c.fields[f]), ft))
                return Sym(r, r.make(*ts))
            if c.elem_mut:
                raise Unsupported("list re-read after one of its elements was mutated through the loop variable")
            return Sym(c.ty, c.term)
        if isinstance(v, PRef):
            c = self.cell(v.cid)
            if c.sver == v.sver:
                return self._walk(c, v.steps)
            if c.dver == v.dver:
                return v.snap
            raise Unsupported("stale alias")
        raise Unsupported(f"rd {v!r}")

    def _walk(self, c, steps):
        if c.fields is not None:
            raise Unsupported("alias into object")
        cur = Sym(c.ty, c.term)
        for kind, key in steps:
            cur = self._step(cur, kind, key)
        return cur

    def _step(self, cur, kind, key):
        ty, t = cur.ty, cur.t
        if kind == "key":
            return Sym(ty.v, ty.get(t, key))
        if kind == "idx":
            return Sym(ty.elem, TH.f_nth(ty.elem)(t, key))
        if kind == "tup":
            return Sym(ty.elems[key], ty.get(t, key))
        if kind == "field":
            return Sym(ty.fields[key], ty.get(t, key))
        if kind == "alt":
            return Sym(ty.alts[key], ty.proj(key, t))
        raise Unsupported(kind)

    def _rebuild(self, cur, steps, new):
        if not steps:
            return self.coerce(new, cur.ty) if new.ty != cur.ty else new.t
        (kind, key), rest = steps[0], steps[1:]
        sub = self._step(cur, kind, key)
        nt = self._rebuild(sub, rest, new)
        ty, t = cur.ty, cur.t
        if kind == "key":
            return TH.f_put(ty)(t, key, nt)
        if kind == "idx":
            return TH.f_update(ty.elem)(t, key, nt)
        if kind == "tup":
            return ty.make(*[nt if i == key else ty.get(t, i) for i in range(len(ty.elems))])
        if kind == "field":
            return ty.make(*[nt if f == key else ty.get(t, f) for f in ty.fields])
        if kind == "alt":
            return ty.inj(key, nt)
        raise Unsupported(kind)

    def wr(self, v, new, structural=True):
        """store Sym new at the mutable location v"""
        self.frame_check(v, new)
        c = self.cell(v.cid).copy()
        if isinstance(v, Ref):
            if c.fields is not None:
                raise Unsupported("overwrite of object")
            if new.ty != c.ty:
                j = self.join(c.ty, new.ty)
                if j != c.ty:
                    self.retype(c.site, c.ty, j)
                new = Sym(c.ty, self.coerce(new, c.ty))
            c.term = new.t
            if structural:
                c.sver += 1
            c.dver += 1
        else:
            if c.sver != v.sver:
                raise Unsupported("write through a stale alias")
            cur = self._walk(c, v.steps)
            if new.ty != cur.ty:
                j = self.join(cur.ty, new.ty)
                if j != cur.ty:
                    self._retype_deep(cur.ty, new.ty)
            c.term = self._rebuild(Sym(c.ty, c.term), v.steps, new)
            c.dver += 1
        self.st.heap[v.cid] = c

    def _retype_deep(self, old, new):
        """an element type inside a literal was unknown"""
        def go(a, b):
            if isinstance(a, UnknownSite):
                if a.site == "anon":
                    raise Unsupported("untyped empty literal")
                prev = self.site_types.get(a.site)
                return a.site, b
            for x, y in ((getattr(a, "elem", None), getattr(b, "elem", None)), (getattr(a, "k", None), getattr(b, "k", None)),
                         (getattr(a, "v", None), getattr(b, "v", None))):
                if x is not None and y is not None:
                    r = go(x, y)
                    if r:
                        return r
            return None

        if isinstance(old, DictT) and isinstance(old.k, UnknownSite) and isinstance(new, DictT):
            self.site_types[old.k.site] = new
            raise Retype()
        r = go(old, new)
        if r is None:
            raise Unsupported(f"cannot store {new} in {old}")
        site, ty = r
        self.site_types[site] = ty
        raise Retype()

    def retype(self, site, old, new):
        if site is None:
            self._retype_deep(old, new)
        if has_unknown(new):
            pass
        val = new.elem if isinstance(new, (ListT, SetT)) else new
        if self.site_types.get(site) == val:
            raise Unsupported(f"type inference does not converge at {site}: {old} -> {new}")
        self.site_types[site] = val
        raise Retype()

    def frame_check(self, v, new=None):
        c = self.cell(v.cid)
        if c.param is not None and not self.quiet_frame(c.param):
            same = FALSE
            if new is not None:
                try:
                    cur = self.rd(v)
                    same = cur.t == new.t if cur.ty == new.ty else FALSE
                except Unsupported:
                    pass
            self.obligation(f"frame:{c.param}", same, f"parameter '{c.param}' is modified")

    def quiet_frame(self, name):
        return self.job.may_modify(name)

    # ------------------------------------------------------------- truth

    def truth(self, v):
        """z3 Bool for bool(v)"""
        if isinstance(v, (Ref, PRef)):
            c = self.cell(v.cid)
            if isinstance(v, Ref) and c.fields is not None:
                return TRUE if not hasattr(c.ty.cls, "__len__") else self.bad("truth of object")
            v = self.rd(v)
        if isinstance(v, Con):
            try:
                return z3.BoolVal(bool(v.o))
            except Exception:
                raise Unsupported("truth")
        if isinstance(v, TupV):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, Choice):
            return zor([z3.And(c, self.truth(x)) for c, x in v.alts])
        if isinstance(v, (Clo, Bound, Part)):
            return TRUE
        if isinstance(v, (IterV,)):
            return self.truth(self.lift(v))
        if isinstance(v, ConcIter):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, Sym):
            ty, t = v.ty, v.t
            if ty == BOOL:
                return t
            if ty == INT:
                return t != 0
            if ty == STR:
                return t != z3.StringVal("")
            if ty == NONE:
                return FALSE
            if isinstance(ty, ListT):
                return znot(is_nil(ty, t))
            if isinstance(ty, DictT):
                return znot(is_nil(ListT(ty.k), ty.order(t)))
            if isinstance(ty, SetT):
                return t != z3.K(ty.elem.sort(), FALSE)
            if isinstance(ty, TupT):
                return z3.BoolVal(len(ty.elems) > 0)
            if isinstance(ty, (UnionT, DynT)):
                parts = []
                for i, a in enumerate(ty.alts):
                    tr = self.truth(Sym(a, ty.proj(i, t))) if a != FLOAT else TH.uf("float_truth", [FLOAT], BOOL)(ty.proj(i, t))
                    if not z3.is_false(tr):
                        parts.append(zand([ty.is_(i, t), tr]))
                return zor(parts)
            if ty == FLOAT:
                return TH.uf("float_truth", [FLOAT], BOOL)(t)
            if isinstance(ty, OpaqueT):
                if (ty.name, "truth") in EXT_ATTR:
                    return EXT_ATTR[(ty.name, "truth")](self, v if isinstance(v, Sym) else Sym(ty, t))
                if ty.truthy:
                    return TRUE
                raise Unsupported(f"truth of {ty}")
            if isinstance(ty, (RecT, EnumT)):
                if ty.cls is not None and ("__bool__" in dir(ty.cls) or "__len__" in dir(ty.cls)):
                    raise Unsupported("truth of user object")
                return TRUE
        raise Unsupported(f"truth of {v!r}")

    def bad(self, msg):
        raise Unsupported(msg)

    # ---------------------------------------------------------- equality

    def eq(self, a, b):
        """z3 Bool for a == b (Python equality)"""
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            if not isinstance(a, Choice):
                a, b = b, a
            return zor([z3.And(c, self.eq(x, b)) for c, x in a.alts])
        if isinstance(a, Con) and isinstance(b, Con):
            return z3.BoolVal(bool(a.o == b.o))
        if isinstance(a, TupV) or isinstance(b, TupV):
            ai, bi = self.tuple_items(a), self.tuple_items(b)
            if ai is not None and bi is not None:
                if len(ai) != len(bi):
                    return FALSE
                return zand([self.eq(x, y) for x, y in zip(ai, bi)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Con) and ty_of_const(x.o) is None and not isinstance(x.o, (list, tuple, set, frozenset, dict)) and rec_of(type(x.o)) is None:
                if isinstance(y, (Clo, Bound)):
                    return FALSE
                if isinstance(y, Sym) and not (isinstance(y.ty, OpaqueT) and y.ty.cls is type):
                    return FALSE
        a, b = self.lift(a), self.lift(b)
        return self.eq_sym(a, b)

    def eq_sym(self, a, b):
        ta, tb = a.ty, b.ty
        for x, y in ((a, b), (b, a)):
            if isinstance(x.ty, OpaqueT) and (x.ty.name, "eq") in EXT_ATTR:
                return EXT_ATTR[(x.ty.name, "eq")](self, x, y)
        if ta == tb:
            if isinstance(ta, DictT):
                return ta.arr(a.t) == ta.arr(b.t) if not self.spec_depth else z3.And(ta.order(a.t) == ta.order(b.t), ta.arr(a.t) == ta.arr(b.t))
            return a.t == b.t
        if is_union(ta) or is_union(tb):
            if not is_union(ta):
                a, b = b, a
                ta, tb = tb, ta
            if is_union(tb):
                return zor([z3.And(tb.is_(j, b.t), self.eq_sym(a, Sym(y, tb.proj(j, b.t)))) for j, y in enumerate(tb.alts)])
            parts = []
            for i, x in enumerate(ta.alts):
                e = self.eq_sym(Sym(x, ta.proj(i, a.t)), b)
                if not z3.is_false(e):
                    parts.append(zand([ta.is_(i, a.t), e]))
            return zor(parts)
        if {ta, tb} == {BOOL, INT}:
            return self.coerce(a, INT) == self.coerce(b, INT)
        if isinstance(ta, UnknownT) or isinstance(tb, UnknownT):
            return FALSE
        if isinstance(ta, TupT) and isinstance(tb, TupT):
            if len(ta.elems) != len(tb.elems):
                return FALSE
            return zand([self.eq_sym(Sym(x, ta.get(a.t, i)), Sym(y, tb.get(b.t, i))) for i, (x, y) in enumerate(zip(ta.elems, tb.elems))])
        if isinstance(ta, (VTupT, TupT)) and isinstance(tb, (VTupT, TupT)) or (type(ta) is ListT and type(tb) is ListT) or (
                isinstance(ta, SetT) and isinstance(tb, SetT)) or (isinstance(ta, DictT) and isinstance(tb, DictT)):
            j = self.join(ta, tb)
            return self.eq_sym(Sym(j, self.coerce(a, j)), Sym(j, self.coerce(b, j)))
        if widens(ta, tb):
            return zand([self.eq_sym(Sym(x, ta.get(a.t, f)), Sym(tb.fields[f], tb.get(b.t, f))) for f, x in ta.fields.items()])
        if FLOAT in (ta, tb) and (INT in (ta, tb) or BOOL in (ta, tb)):
            raise Unsupported("float comparison")
        return FALSE

    def deref(self, v):
        if isinstance(v, (Ref, PRef)):
            return self.rd(v)
        return v

    def tuple_items(self, v):
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, Con) and isinstance(v.o, tuple):
            return [Con(x) for x in v.o]
        if isinstance(v, Sym) and isinstance(v.ty, TupT):
            return [Sym(x, v.ty.get(v.t, i)) for i, x in enumerate(v.ty.elems)]
        return None

    # ---------------------------------------------------------- narrowing

    def split_union(self, v):
        """branch on the alternative of a union value"""
        while isinstance(v, Sym) and is_union(v.ty):
            ty, t = v.ty, v.t
            if isinstance(ty, DynT):
                self.assume_once(union_domain(ty, t))
            n = len(ty.alts)
            for i in range(n):
                if i == n - 1:
                    v = Sym(ty.alts[i], ty.proj(i, t))
                    if isinstance(ty, DynT):
                        self.branch(ty.is_(i, t))
                    else:
                        if not self.branch(ty.is_(i, t)):
                            raise Infeasible()
                    break
                if self.branch(ty.is_(i, t)):
                    v = Sym(ty.alts[i], ty.proj(i, t))
                    break
        return v

    def narrow(self, v, ok):
        """Split a union value into supported alternatives (ok(ty)) and the rest.
        Returns the narrowed Sym, or raises TypeError-like handling by returning None."""
        while isinstance(v, Sym) and is_union(v.ty):
            ty, t = v.ty, v.t
            if isinstance(ty, DynT):
                self.assume_once(union_domain(ty, t))
            good = [i for i, a in enumerate(ty.alts) if ok(a) or is_union(a)]
            hit = None
            for i in good:
                if self.branch(ty.is_(i, t)):
                    hit = Sym(ty.alts[i], ty.proj(i, t))
                    break
            if hit is None:
                return None
            v = hit
        return v

    def assume_once(self, t):
        if z3.is_true(t) or any(x.eq(t) for x, _ in self.st.pc):
            return
        self.assume(t)

    # --------------------------------------------------------- obligations

    def obligation(self, name, goal, note=""):
        if self.quiet:
            return
        self.job.obligation(self, name, goal, note)

    # ------------------------------------------------------------ frames

    def new_frame(self, glob, parent, name, cls=None, spec=False, node=None):
        self.st.cnt += 1
        fid = f"f{self.st.cnt}.{abs(hash(self.st.scope)) % 100000}"
        fr = Frame(fid, glob, parent, name, cls, spec, node)
        self.frames[fid] = fr
        self.st.envs[fid] = {}
        return fr

    def lookup(self, fr, name):
        f = fr
        while f is not None:
            env = self.st.envs.get(f.fid, {})
            if name in env:
                v = env[name]
                if isinstance(v, MaybeUnbound):
                    raise Unsupported(f"possibly unbound variable {name}")
                return v
            f = f.parent
        if name in fr.glob:
            return self.global_value(fr, name)
        if hasattr(builtins, name):
            return Con(getattr(builtins, name))
        raise Unsupported(f"name {name}")

    def global_value(self, fr, name):
        mod = fr.glob.get("__name__", "")
        g = self.job.global_override(mod, name)
        if g is not None:
            return g
        return Con(fr.glob[name])

    def setvar(self, fr, name, v):
        self.st.envs[fr.fid][name] = v

    # ---------------------------------------------------------- execution

    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.cur_node = s
        return m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else Con(None))

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Import(self, s, fr):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname is None and "." in a.name:
                self.setvar(fr, a.name.split(".")[0], Con(sys.modules[a.name.split(".")[0]]))
            else:
                self.setvar(fr, a.asname or a.name, Con(m))

    def s_ImportFrom(self, s, fr):
        import importlib

        m = importlib.import_module(s.module)
        for a in s.names:
            self.setvar(fr, a.asname or a.name, Con(getattr(m, a.name)))

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, fr):
        raise Unsupported("nonlocal statement")

    def s_FunctionDef(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        self.setvar(fr, s.name, Clo(s, fr.fid, fr.glob, s.name, defaults))

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.ev(load, fr)
        rhs = self.ev(s.value, fr)
        if isinstance(cur, (Ref, PRef)) and isinstance(s.op, ast.Add):
            self.call_method(cur, "extend", [rhs], {})
            return
        if isinstance(cur, (Ref, PRef)) and isinstance(s.op, ast.BitOr):
            self.call_method(cur, "update", [rhs], {})
            return
        self.assign(t, self.binop(s.op, cur, rhs), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, elts, v, fr):
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred assignment")
        items = self.unpack_values(v, len(elts))
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    def unpack_values(self, v, n):
        if isinstance(v, Sym) and is_union(v.ty):
            w = self.narrow(v, lambda a: isinstance(a, (TupT, ListT)))
            if w is None:
                raise TExc(TypeError)
            v = w
        items = self.tuple_items(v)
        if items is None and isinstance(v, Con) and isinstance(v.o, list):
            items = [Con(x) for x in v.o]
        if items is None and isinstance(v, ConcIter):
            items = v.items
        if items is not None:
            if len(items) != n:
                raise TExc(ValueError)
            return items
        s = self.deref(v)
        if isinstance(s, IterV):
            s = self.lift(s)
        if isinstance(s, Sym) and isinstance(s.ty, ListT):
            ty, t = s.ty, s.t
            sp = self.spine(ty, t)
            if sp is not None:
                if len(sp) != n:
                    raise TExc(ValueError)
                return [Sym(ty.elem, x) for x in sp]
            conds = []
            u = t
            out = []
            for _ in range(n):
                conds.append(znot(is_nil(ty, u)))
                out.append(Sym(ty.elem, T.last(ty, u)))
                u = T.init(ty, u)
            conds.append(is_nil(ty, u))
            if not self.branch(zand(conds)):
                raise TExc(ValueError)
            return list(reversed(out))
        raise Unsupported(f"unpack {v!r}")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                self.call_method(base, "__delitem__", [k], {})
            else:
                raise Unsupported("del")

    def s_If(self, s, fr):
        c = self.cond(s.test, fr)
        if self.branch(c):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def s_Assert(self, s, fr):
        c = self.cond(s.test, fr)
        if not self.branch(c):
            raise TExc(AssertionError, where=f"line {s.lineno}")

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.st.ghost.get("cur_exc")
            if cur is None:
                raise Unsupported("bare raise")
            raise TExc(cur.cls, cur.vargs, cur.where)
        v = self.ev(s.exc, fr)
        if isinstance(v, Con) and isinstance(v.o, type) and issubclass(v.o, BaseException):
            raise TExc(v.o, where=f"line {s.lineno}")
        if isinstance(v, ExcV):
            raise TExc(v.cls, v.vargs, where=f"line {s.lineno}")
        raise Unsupported("raise")

    def s_With(self, s, fr):
        exits = []
        for item in s.items:
            v = self.ev(item.context_expr, fr)
            d = self.deref(v)
            m = d.ty.methods if isinstance(d, Sym) and isinstance(d.ty, OpaqueT) else {}
            if "__enter__" in m:
                v = m["__enter__"](self, d, [], {})
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            if "__exit__" in m:
                exits.append((m["__exit__"], d))
        try:
            self.exec_block(s.body, fr)
        except (TExc, Ret, Brk, Cont):
            for f, d in reversed(exits):
                f(self, d, [], {})
            raise
        for f, d in reversed(exits):
            f(self, d, [], {})

    def s_Try(self, s, fr):
        def fin():
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

        try:
            try:
                self.exec_block(s.body, fr)
            except TExc as e:
                for h in s.handlers:
                    if self.handler_matches(h, e, fr):
                        if h.name:
                            self.setvar(fr, h.name, ExcV(e.cls, e.vargs))
                        prev = self.st.ghost.get("cur_exc")
                        self.st.ghost["cur_exc"] = e
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.st.ghost["cur_exc"] = prev
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (TExc, Ret, Brk, Cont):
            fin()
            raise
        fin()

    def handler_matches(self, h, e, fr):
        if h.type is None:
            return True
        v = self.ev(h.type, fr)
        items = self.tuple_items(v)
        classes = [x.o for x in (items if items is not None else [v])]
        if e.cls is AnyExc:
            # an arbitrary Exception subclass: may or may not match a specific handler
            if any(c in (Exception, BaseException) for c in classes):
                return True
            return self.choose(2) == 0
        return any(isinstance(c, type) and issubclass(e.cls, c) for c in classes)

    # ----------------------------------------------------------- functions

    def call_function(self, fn, args, kwargs, self_cls=None):
        """inline a python function object"""
        node = node_of(fn)
        defaults = [Con(d) for d in (fn.__defaults__ or ())]
        kwd = {k: Con(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        spec = (fn.__module__ or "").startswith("contracts") or (fn.__module__ or "").startswith("pyded")
        parent = None
        if fn.__closure__:
            fr0 = self.new_frame(fn.__globals__, None, "<closure>")
            for nme, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    self.setvar(fr0, nme, Con(c.cell_contents))
                except ValueError:
                    pass
            parent = fr0
        return self.run_body(node, fn.__globals__, parent, args, kwargs, defaults, kwd, fn.__name__, spec=spec)

    def call_closure(self, c, args, kwargs):
        r = self.job.closure_hook(self, c, args, kwargs)
        if r is not None:
            return r
        return self.run_body(c.node, c.glob, self.frames.get(c.fid), args, kwargs, c.defaults, {}, c.name,
                             spec=self.frames[c.fid].spec if c.fid in self.frames else False)

    def run_body(self, node, glob, parent, args, kwargs, defaults, kwd, name, spec=False):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth -= 1
            raise Unsupported(f"call depth ({name})")
        if spec:
            self.spec_depth += 1
        try:
            fr = self.new_frame(glob, parent, name, spec=spec, node=node)
            self.bind_args(node.args, fr, args, kwargs, defaults, kwd, name)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if _has_yield(node):
                fr.yields = True
                self.setvar(fr, "$yield", self.alloc(ListT(self.site_types.get(site_of(node, glob)) or unknown_at(site_of(node, glob))), None, site=site_of(node, glob)))
                c = self.cell(self.st.envs[fr.fid]["$yield"].cid)
                c.term = nil(c.ty)
                try:
                    self.exec_block(node.body, fr)
                except Ret:
                    pass
                return self.rd(self.st.envs[fr.fid]["$yield"])
            try:
                self.exec_block(node.body, fr)
            except Ret as r:
                return r.v
            return Con(None)
        finally:
            self.depth -= 1
            if spec:
                self.spec_depth -= 1

    def bind_args(self, a, fr, args, kwargs, defaults, kwd, name):
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(params):
            if a.vararg is None:
                raise TExc(TypeError)
            env[a.vararg.arg] = TupV(args[len(params):])
            args = args[: len(params)]
        elif a.vararg is not None:
            env[a.vararg.arg] = TupV([])
        for p, v in zip(params, args):
            env[p] = v
        kwargs = dict(kwargs)
        kwonly = [x.arg for x in a.kwonlyargs]
        for p in params[len(args):] + kwonly:
            if p in kwargs:
                env[p] = kwargs.pop(p)
        nd = len(defaults)
        for p, d in zip(params[len(params) - nd:], defaults):
            if p not in env:
                env[p] = d
        for p in kwonly:
            if p not in env and p in kwd:
                env[p] = kwd[p]
        if kwargs:
            if a.kwarg is None:
                raise TExc(TypeError)
            raise Unsupported("**kwargs")
        for p in params + kwonly:
            if p not in env:
                raise TExc(TypeError)
        self.st.envs[fr.fid].update(env)

    # ---------------------------------------------------------- expressions

    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def cond(self, e, fr):
        """truth value of an expression as a z3 Bool, with as little path splitting as possible"""
        if isinstance(e, ast.BoolOp):
            acc = self.cond(e.values[0], fr)
            for x in e.values[1:]:
                acc = simp_bool(acc)
                if isinstance(e.op, ast.And):
                    if z3.is_false(acc):
                        return FALSE
                    guard = acc
                else:
                    if z3.is_true(acc):
                        return TRUE
                    guard = znot(acc)
                m = self._guarded(guard, lambda x=x: Sym(BOOL, self.cond(x, fr)))
                if m is None:
                    # fall back to real branching
                    if not self.branch(guard):
                        return z3.BoolVal(not isinstance(e.op, ast.And))
                    acc = self.cond(x, fr)
                else:
                    acc = zand([acc, m]) if isinstance(e.op, ast.And) else zor([acc, m])
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return znot(self.cond(e.operand, fr))
        return self.truth(self.ev(e, fr))

    def _guarded(self, guard, run):
        """value (z3 Bool) of run() under guard if it is total there, else None; None also if guard is infeasible"""
        if not z3.is_true(guard):
            def go():
                self.st.pc.append((guard, "g"))
                return run()
        else:
            go = run
        base = self.st
        n0 = len(base.pc)
        try:
            outs = self.explore(go, "guard")
        except Infeasible:
            return None
        if not outs:
            return None
        for k, v, s in outs:
            if k != "ok" or len(s.trace) != len(base.trace):
                return None
            if any(not same_cell(c, base.heap[i]) for i, c in s.heap.items() if i in base.heap):
                return None
            for f, en in s.envs.items():
                b = base.envs.get(f)
                if b is not None and any(not same_val(b.get(x), y) for x, y in en.items()):
                    return None
        base.cnt = max([base.cnt] + [s.cnt for _, _, s in outs])
        r = None
        assumptions = []
        for k, v, s in outs:
            pre = []
            for t, kd in s.pc[n0:]:
                if kd == "a":
                    assumptions.append(z3.Implies(zand([guard] + pre), t))
                elif kd == "b":
                    pre.append(t)
            r = v.t if r is None else zite(zand(pre), v.t, r)
        for a in assumptions:
            self.assume_once(a)
        return r

    def e_Constant(self, e, fr):
        return Con(e.value)

    def e_Name(self, e, fr):
        v = self.lookup(fr, e.id)
        if isinstance(v, Sym) and isinstance(v.ty, UnionT):
            return self.flow_narrow(v)
        return v

    def flow_narrow(self, v):
        """the only alternative of a union left by the tests on this path"""
        if len(v.ty.alts) > 8:
            return v
        pos, neg = set(), set()
        stack = [(t, True) for t, _ in self.st.pc]
        while stack:
            t, b = stack.pop()
            if z3.is_not(t):
                stack.append((t.arg(0), not b))
            elif b and z3.is_and(t) or not b and z3.is_or(t):
                stack.extend((c, b) for c in t.children())
            else:
                (pos if b else neg).add(t.get_id())
        if not pos and not neg:
            return v
        left = []
        for i, a in enumerate(v.ty.alts):
            r = v.ty.is_(i, v.t)
            if r.get_id() in pos:
                left = [i]
                break
            if r.get_id() not in neg:
                left.append(i)
        if len(left) != 1:
            return v
        a = v.ty.alts[left[0]]
        if a == NONE:
            return Con(None)
        return Sym(a, v.ty.proj(left[0], v.t))

    def e_Tuple(self, e, fr):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items.extend(self.concrete_items(self.ev(x.value, fr)))
            else:
                items.append(self.ev(x, fr))
        if all(isinstance(x, Con) for x in items):
            return Con(tuple(x.o for x in items))
        return TupV(items)

    def concrete_items(self, v):
        it = self.to_iter(v)
        if isinstance(it, ConcIter):
            return it.items
        raise Unsupported("starred of unknown length")

    def e_List(self, e, fr):
        st = site_of(e, fr.glob)
        if any(isinstance(x, ast.Starred) for x in e.elts):
            acc = None
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    part = self.as_list(self.ev(x.value, fr))
                else:
                    part = self.mk_listlit([self.ev(x, fr)], ListT)
                acc = part if acc is None else self.list_concat(acc, part)
            s = acc
        else:
            s = self.mk_listlit([self.ev(x, fr) for x in e.elts], ListT, st)
        return self.new_mutable(s, st)

    def new_mutable(self, s, site=None):
        if self.spec_depth:
            return s
        return self.alloc(s.ty, s.t, site=site)

    def e_Set(self, e, fr):
        st = site_of(e, fr.glob)
        return self.new_mutable(self.mk_setlit([self.ev(x, fr) for x in e.elts], st), st)

    def e_Dict(self, e, fr):
        st = site_of(e, fr.glob)
        if any(k is None for k in e.keys):
            acc = self.mk_dictlit([], st) if self.site_types.get(st) else None
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.deref(self.ev(v, fr))
                    if isinstance(d, Sym) and is_union(d.ty):
                        d = self.narrow(d, lambda a: isinstance(a, DictT))
                        if d is None:
                            raise TExc(TypeError)
                    d = self.lift(d)
                    if d.ty == NONE:
                        raise TExc(TypeError)
                    if not isinstance(d.ty, DictT):
                        raise TExc(TypeError)
                else:
                    d = self.mk_dictlit([(self.ev(k, fr), self.ev(v, fr))])
                if acc is None:
                    acc = Sym(d.ty if d.ty.pytype is dict else DictT(d.ty.k, d.ty.v), d.t)
                else:
                    acc = self.dict_merge(acc, d)
            return self.new_mutable(acc, st)
        return self.new_mutable(self.mk_dictlit([(self.ev(k, fr), self.ev(v, fr)) for k, v in zip(e.keys, e.values)], st), st)

    def dict_merge(self, a, b):
        j = self.join(a.ty, b.ty)
        if j.pytype is not dict:
            j = DictT(j.k, j.v)
        if isinstance(j.k, UnknownT):
            return a
        x, y = self.coerce(a, j), self.coerce(b, j)
        # literal spine on the right: explicit puts
        pd = TH.f_put(j)
        puts = []
        u = y
        while z3.is_app(u) and u.decl().eq(pd):
            puts.append((u.arg(1), u.arg(2)))
            u = u.arg(0)
        if u.eq(j.empty()):
            r = x
            for k, v in reversed(puts):
                r = pd(r, k, v)
            return Sym(j, r)
        if x.eq(j.empty()):
            return Sym(j, y)
        return Sym(j, TH.f_merge(j)(x, y))

    def e_Lambda(self, e, fr):
        defaults = [self.ev(d, fr) for d in e.args.defaults]
        return Clo(e, fr.fid, fr.glob, "<lambda>", defaults)

    def e_IfExp(self, e, fr):
        c = simp_bool(self.cond(e.test, fr))
        if z3.is_true(c):
            return self.ev(e.body, fr)
        if z3.is_false(c):
            return self.ev(e.orelse, fr)
        if self.spec_depth:
            m = self.merge(lambda: self.ev(e.body, fr) if self.branch(c) else self.ev(e.orelse, fr), "ifexp")
            if m is not None:
                return m[0]
        return self.ev(e.body, fr) if self.branch(c) else self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        if self.spec_depth:
            # boolean-valued in specifications whenever possible
            try:
                m = self.merge(lambda: self._boolop_value(e, fr), "boolop")
                if m is not None:
                    return m[0]
            except Infeasible:
                raise
        return self._boolop_value(e, fr)

    def _boolop_value(self, e, fr):
        v = self.ev(e.values[0], fr)
        for x in e.values[1:]:
            c = simp_bool(self.truth(v))
            isand = isinstance(e.op, ast.And)
            if isinstance(v, Sym) and v.ty == BOOL:
                guard = c if isand else znot(c)
                if z3.is_false(guard):
                    return v
                m = None
                if not z3.is_true(guard):
                    def go(x=x):
                        r = self.ev(x, fr)
                        r = self.snapshot(r)
                        if isinstance(r, Con) and isinstance(r.o, bool) or isinstance(r, Sym) and r.ty == BOOL:
                            return self.lift(r)
                        raise Unsupported("not boolean")
                    try:
                        m = self._guarded(guard, go)
                    except Unsupported:
                        m = None
                if m is not None:
                    v = Sym(BOOL, zand([c, m]) if isand else zor([c, m]))
                    continue
            take = self.branch(c)
            if take != isand:
                return v
            v = self.ev(x, fr)
        return v

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return self.mkbool(znot(self.cond(e.operand, fr)))
        v = self.ev(e.operand, fr)
        if isinstance(v, Con):
            return Con({ast.USub: lambda a: -a, ast.UAdd: lambda a: +a, ast.Invert: lambda a: ~a}[type(e.op)](v.o))
        if isinstance(self.deref(v), Sym):
            s = self.lift(self.deref(v))
            s = self.flow_narrow(s) if is_union(s.ty) else s
            h = EXT_ATTR.get((s.ty.name, type(e.op))) if isinstance(s.ty, OpaqueT) else None
            if h is not None:
                return h(self, s)
        v = self.num(v)
        if isinstance(e.op, ast.USub):
            return Sym(INT, -v)
        if isinstance(e.op, ast.UAdd):
            return Sym(INT, v)
        raise Unsupported("unary op")

    def mkbool(self, c):
        c2 = simp_bool(c)
        if z3.is_true(c2):
            return Con(True)
        if z3.is_false(c2):
            return Con(False)
        return Sym(BOOL, c)

    def num(self, v):
        v = self.lift(v)
        if is_union(v.ty):
            w = self.narrow(v, lambda a: a in (INT, BOOL, FLOAT))
            if w is None:
                raise TExc(TypeError)
            v = self.split_union(w) if is_union(w.ty) else w
        if v.ty == INT:
            return v.t
        if v.ty == BOOL:
            return self.coerce(v, INT)
        if v.ty == FLOAT:
            raise Unsupported("float arithmetic")
        raise TExc(TypeError)

    def as_float(self, s):
        if s.ty == FLOAT:
            return s.t
        if s.ty in (INT, BOOL):
            return TH.uf("float_of_int", [INT], FLOAT)(self.coerce(s, INT))
        raise TExc(TypeError)

    def e_Compare(self, e, fr):
        if len(e.ops) == 1:
            a = self.ev(e.left, fr)
            c = e.comparators[0]
            if isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(c, (ast.Tuple, ast.List, ast.Set)) and any(isinstance(x, ast.Starred) for x in c.elts):
                vs = [(isinstance(x, ast.Starred), self.ev(x.value if isinstance(x, ast.Starred) else x, fr)) for x in c.elts]
                r = zor([self.compare(ast.In(), a, self.as_list(v)) if st else self.compare(ast.In(), a, TupV([v])) for st, v in vs])
                return self.mkbool(znot(r) if isinstance(e.ops[0], ast.NotIn) else r)
            b = self.ev(c, fr)
            h = self.own_compare(a, b)
            if h is not None:
                return h(self, e.ops[0], a, b)
            return self.mkbool(self.compare(e.ops[0], a, b))
        acc = TRUE
        a = self.ev(e.left, fr)
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, fr)
            h = self.own_compare(a, b)
            acc = zand([acc, self.truth(h(self, op, a, b)) if h is not None else self.compare(op, a, b)])
            a = b
        return self.mkbool(acc)

    def own_compare(self, a, b):
        """comparison of values whose type redefines it (a value of another type than bool)"""
        for x in (a, b):
            s = self.deref(x) if isinstance(x, Ref) else x
            if isinstance(s, Sym) and isinstance(s.ty, OpaqueT) and (s.ty.name, "compare") in EXT_ATTR:
                return EXT_ATTR[(s.ty.name, "compare")]
            if isinstance(s, Sym) and is_union(s.ty) and any(isinstance(t, OpaqueT) and (t.name, "compare") in EXT_ATTR for t in s.ty.alts):
                f = self.flow_narrow(s)
                if isinstance(f.ty, OpaqueT):
                    return EXT_ATTR[(f.ty.name, "compare")]
        return None

    def compare(self, op, a, b):
        # emptiness tests by length, in the form the rest of the reasoning uses
        if isinstance(b, Con) and type(b.o) is int and b.o in (0, 1) and isinstance(a, Sym) and z3.is_app(a.t) and a.t.decl().name().startswith("len<"):
            e = a.t.arg(0)
            nl = a.t.arg(0).sort().recognizer(0)(e)
            k = (type(op), b.o)
            if k in ((ast.Eq, 0), (ast.LtE, 0), (ast.Lt, 1)):
                return nl
            if k in ((ast.NotEq, 0), (ast.Gt, 0), (ast.GtE, 1)):
                return znot(nl)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return znot(self.eq(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return znot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return znot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, Con) and isinstance(b, Con):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            try:
                return z3.BoolVal(bool(f(a.o, b.o)))
            except TypeError:
                raise TExc(TypeError)
        la, lb = self.deref(a), self.deref(b)
        sa, sb = self.lift(la), self.lift(lb)
        if sa.ty == STR and sb.ty == STR:
            x, y = sa.t, sb.t
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x, ast.GtE: y <= x}[type(op)]
        ia, ib = self.tuple_items(sa), self.tuple_items(sb)
        if ia is not None and ib is not None:
            return self.lex(op, ia, ib)
        if isinstance(sa.ty, SetT) and isinstance(sb.ty, SetT):
            j = self.join(sa.ty, sb.ty)
            x, y = self.coerce(sa, j), self.coerce(sb, j)
            sub = lambda p, q: z3.IsSubset(p, q)
            return {ast.LtE: sub(x, y), ast.GtE: sub(y, x), ast.Lt: z3.And(sub(x, y), x != y), ast.Gt: z3.And(sub(y, x), x != y)}[type(op)]
        if is_union(sa.ty) and FLOAT in sa.ty.alts:
            return self.compare(op, self.split_union(sa), sb)
        if is_union(sb.ty) and FLOAT in sb.ty.alts:
            return self.compare(op, sa, self.split_union(sb))
        if FLOAT in (sa.ty, sb.ty):
            x, y = self.as_float(sa), self.as_float(sb)
            if isinstance(op, (ast.Gt, ast.GtE)):
                x, y = y, x
            TH.trust("python:floats are ordered", "no NaN is compared: of two floats one is less than or equal to the other")
            le = TH.uf("float_le", [FLOAT, FLOAT], BOOL)
            return znot(le(y, x)) if isinstance(op, (ast.Lt, ast.Gt)) else le(x, y)
        x, y = self.num(sa), self.num(sb)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def lex(self, op, a, b):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        lt = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        if not a or not b:
            if isinstance(op, ast.Lt):
                return z3.BoolVal(len(a) < len(b))
            if isinstance(op, ast.LtE):
                return z3.BoolVal(len(a) <= len(b))
            if isinstance(op, ast.Gt):
                return z3.BoolVal(len(a) > len(b))
            return z3.BoolVal(len(a) >= len(b))
        return z3.Or(self.compare(lt, a[0], b[0]), z3.And(self.eq(a[0], b[0]), self.lex(op, a[1:], b[1:])))

    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Con) and x.o is None:
                if isinstance(y, Con):
                    return z3.BoolVal(y.o is None)
                if isinstance(y, Sym):
                    if y.ty == NONE:
                        return TRUE
                    if isinstance(y.ty, OpaqueT) and (y.ty.name, "is None") in EXT_ATTR:
                        return EXT_ATTR[(y.ty.name, "is None")](self, y)
                    if is_union(y.ty):
                        return zor([y.ty.is_(i, y.t) for i, al in enumerate(y.ty.alts) if al == NONE])
                    return FALSE
                if isinstance(y, Choice):
                    return zor([z3.And(c, self.is_(v, x)) for c, v in y.alts])
                return FALSE
            if isinstance(x, Con) and isinstance(x.o, (bool, enum.Enum)):
                if isinstance(y, Con):
                    return z3.BoolVal(y.o is x.o)
                if isinstance(y, Sym) and isinstance(x.o, bool):
                    if y.ty == BOOL:
                        return self.eq(x, y)
                    if is_union(y.ty):
                        return zor([z3.And(y.ty.is_(i, y.t), y.ty.proj(i, y.t) == z3.BoolVal(x.o)) for i, al in enumerate(y.ty.alts) if al == BOOL])
                    return FALSE
                return self.eq(x, y)
        if isinstance(a, Con) and isinstance(b, Con):
            return z3.BoolVal(a.o is b.o)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if isinstance(a.ty, EnumT) or isinstance(b.ty, EnumT) or a.ty == NONE or b.ty == NONE:
                return self.eq(a, b)
            if isinstance(a.ty, OpaqueT) and a.ty == b.ty:
                return a.t == b.t
        if isinstance(a, Choice) or isinstance(b, Choice):
            if not isinstance(a, Choice):
                a, b = b, a
            return zor([z3.And(c, self.is_(v, b)) for c, v in a.alts])
        if isinstance(a, Ref) and isinstance(b, Ref):
            return z3.BoolVal(a.cid == b.cid)
        raise Unsupported("identity of values")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.setvar(fr, e.target.id, v)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(Con(x.value))
            else:
                v = self.ev(x.value, fr)
                if x.format_spec is not None:
                    raise Unsupported("format spec")
                if x.conversion not in (-1, 115):
                    parts.append(self.to_repr(v))
                else:
                    parts.append(self.to_str(v))
        if all(isinstance(p, Con) for p in parts):
            return Con("".join(p.o for p in parts))
        ts = [self.lift(p).t for p in parts]
        r = ts[0]
        if len(ts) > 1:
            r = z3.Concat(*ts)
        return Sym(STR, r)

    def e_FormattedValue(self, e, fr):
        raise Unsupported("formatted value")

    def e_Attribute(self, e, fr):
        return self.attr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        base = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower is not None else None
            hi = self.ev(e.slice.upper, fr) if e.slice.upper is not None else None
            st = self.ev(e.slice.step, fr) if e.slice.step is not None else None
            return self.slice(base, lo, hi, st)
        return self.getitem(base, self.ev(e.slice, fr))

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_Call(self, e, fr):
        f = self.ev_callee(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if self.star_special(f, v, args):
                    continue
                args.extend(self.concrete_items(v))
            elif isinstance(a, ast.GeneratorExp):
                args.append(GenV(a, fr))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs in call")
            kwargs[k.arg] = self.ev(k.value, fr)
        self.call_site = (e, fr)
        return self.call(f, args, kwargs)

    def star_special(self, f, v, args):
        """f(*seq) with a sequence of unknown length: passed on as one StarV argument"""
        it = self.to_iter(v)
        if isinstance(it, ConcIter):
            return False
        args.append(StarV(v))
        return True

    def ev_callee(self, e, fr):
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
                return SuperM(fr, e.attr)
            base = self.ev(e.value, fr)
            return self.attr(base, e.attr, call=True)
        return self.ev(e, fr)

    def e_Yield(self, e, fr):
        f = fr
        v = self.ev(e.value, fr) if e.value is not None else Con(None)
        self.call_method(self.st.envs[f.fid]["$yield"], "append", [v], {})
        return Con(None)

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        self.call_method(self.st.envs[fr.fid]["$yield"], "extend", [v], {})
        return Con(None)

    # ------------------------------------------------------ comprehensions

    def e_ListComp(self, e, fr):
        return self.comp("listcomp", e.elt, None, e.generators, fr, site_of(e, fr.glob))

    def e_SetComp(self, e, fr):
        return self.comp("setcomp", e.elt, None, e.generators, fr, site_of(e, fr.glob))

    def e_DictComp(self, e, fr):
        return self.comp("dictcomp", e.key, e.value, e.generators, fr, site_of(e, fr.glob))

    def e_GeneratorExp(self, e, fr):
        return GenV(e, fr)

    def comp(self, kind, elt, val, gens, fr, site):
        f2 = self.new_frame(fr.glob, fr, "<comp>", spec=fr.spec)
        s = self.comp_gen(kind, elt, val, gens, f2, site)
        return self.new_mutable(self.lift(s), site) if kind in ("listcomp", "setcomp", "dictcomp") else s

    def comp_gen(self, kind, elt, val, gens, fr, site, first_iter=None):
        g = gens[0]
        it = self.to_iter(self.ev(g.iter, fr) if first_iter is None else first_iter)
        if isinstance(it, ConcIter):
            acc = None
            for x in it.items:
                part = self.comp_one(kind, elt, val, gens, fr, site, x)
                if part is None:
                    continue
                acc = part if acc is None else self.comp_join(kind, acc, part)
                if kind in ("any", "all"):
                    b = simp_bool(self.truth(acc))
                    if z3.is_true(b) and kind == "any" or z3.is_false(b) and kind == "all":
                        return acc
            return acc if acc is not None else self.comp_empty(kind, site)
        return self.comp_fold(kind, elt, val, gens, fr, site, it)

    def comp_empty(self, kind, site):
        if kind == "listcomp":
            return self.mk_listlit([], ListT, site)
        if kind == "setcomp":
            return self.mk_setlit([], site)
        if kind == "dictcomp":
            return self.mk_dictlit([], site)
        if kind == "any":
            return Con(False)
        if kind == "all":
            return Con(True)
        if kind == "sum":
            return Con(0)
        raise Unsupported(kind)

    def comp_join(self, kind, a, b):
        if kind == "listcomp":
            return self.list_concat(self.lift(a), self.lift(b))
        if kind == "setcomp":
            return self.set_op("|", self.lift(a), self.lift(b))
        if kind == "dictcomp":
            return self.dict_merge(self.lift(a), self.lift(b))
        if kind == "any":
            return self.mkbool(zor([self.truth(a), self.truth(b)]))
        if kind == "all":
            return self.mkbool(zand([self.truth(a), self.truth(b)]))
        if kind == "sum":
            if isinstance(a, Con) and isinstance(b, Con):
                return Con(a.o + b.o)
            return Sym(INT, self.num(a) + self.num(b))

    def comp_one(self, kind, elt, val, gens, fr, site, x):
        """contribution of one known element; None if filtered out"""
        self.assign(gens[0].target, x, fr)
        cs = zand([self.cond(c, fr) for c in gens[0].ifs]) if gens[0].ifs else TRUE
        cs = simp_bool(cs)
        if z3.is_false(cs):
            return None

        def contrib():
            if len(gens) > 1:
                return self.comp_gen(kind, elt, val, gens[1:], fr, site)
            v = self.ev(elt, fr)
            if kind == "listcomp":
                return self.mk_listlit([v], ListT, site)
            if kind == "setcomp":
                return self.mk_setlit([v], site)
            if kind == "dictcomp":
                return self.mk_dictlit([(v, self.ev(val, fr))], site)
            if kind in ("any", "all"):
                return self.mkbool(self.truth(v))
            if kind == "sum":
                return v
            raise Unsupported(kind)

        if z3.is_true(cs):
            return contrib()
        if kind in ("any", "all"):
            b = self._guarded(cs, lambda: Sym(BOOL, self.truth(contrib())))
            if b is not None:
                return Sym(BOOL, zand([cs, b]) if kind == "any" else z3.Implies(cs, b))
        m = self.merge(lambda: contrib() if self.branch(cs) else self.comp_empty(kind, site), "compcond")
        if m is not None:
            return m[0]
        return contrib() if self.branch(cs) else None

    def comp_fold(self, kind, elt, val, gens, fr, site, it):
        x = self.fresh(it.elem, "cx")
        p = self.fresh_term(ListT(it.elem).sort(), "cp")
        cnt0 = self.st.cnt
        base_st = self.st
        n0 = len(base_st.pc)

        def run():
            self.assume(TH.f_mem(it.elem)(x.t, it.base))
            if it.assume is not None:
                for a in it.assume(x, p):
                    self.assume(a)
            v, guard = it.bind(self, x, p)
            if guard is not None and not self.branch(guard):
                return ("skip",)
            self.assign(gens[0].target, self.loop_elem(v, it), fr)
            for c in gens[0].ifs:
                if not self.branch(self.cond(c, fr)):
                    return ("skip",)
            if len(gens) > 1:
                r = self.comp_gen(kind, elt, val, gens[1:], fr, site)
                return ("part", self.lift(r))
            w = self.ev(elt, fr)
            if kind == "dictcomp":
                return ("kv", self.lift(w), self.lift(self.ev(val, fr)))
            if kind in ("any", "all"):
                return ("b", self.truth(w))
            return ("v", self.lift(w))

        outs = self.explore(run, "comp:" + kind)
        # exceptions
        rows = []
        excs = []
        for k, v, s in outs:
            conds = zand([t for t, kd in s.pc[n0:] if kd == "b"])
            if k == "exc":
                excs.append((conds, v))
            elif k == "ok":
                if len(s.trace) != len(base_st.trace) or any(not same_cell(c, base_st.heap[i]) for i, c in s.heap.items() if i in base_st.heap):
                    raise Unsupported("effect in comprehension")
                rows.append((conds, v, s))
            else:
                raise Unsupported("control flow in comprehension")
        self.st.cnt = max([self.st.cnt] + [s.cnt for _, _, s in outs])
        for conds, ex in excs:
            conds = _sb(conds)
            bad = self.over_set("any", conds, it.base, x.t, p)
            if bad is None:
                f, caps = self.fold_of(BOOL, it.elem, p, x.t, lambda acc: (FALSE, zor([acc, conds])), "any", {"elt": conds, "cond": None}, it)
                bad = f.dcl(*caps, it.base)
            if self.branch(bad):
                raise ex
        r = self.build_fold(kind, rows, it, x, p, site)
        self.check_pure_term(r, base_st, x, p, outs)
        return r

    def check_pure_term(self, r, base_st, x, p, outs):
        pass

    def fold_of(self, acc_ty, elem_ty, p, x, mk, kind, parts, it):
        acc = z3.Const(f"facc:{acc_ty.key}", acc_ty.sort())
        i, s = mk(acc)
        for t in [s, i]:
            for c in TH._free_consts(t):
                nm = c.decl().name()
                if nm.startswith("nd!"):
                    raise Unsupported("nondeterministic value inside a comprehension")
        return TH.mk_fold(acc_ty, elem_ty, p, x, acc, i, s, kind, parts)

    def over_set(self, kind, pos, base, x, p):
        """any/all membership of the elements of a set, as an intersection or difference of sets"""
        if not (z3.is_app(base) and base.decl().name().startswith("setlist<")):
            return None
        e = z3.K(x.sort(), FALSE)
        if not any(c.eq(x) or c.eq(p) for c in TH._free_consts(pos)):
            return z3.And(pos, base.arg(0) != e) if kind == "any" else z3.Or(pos, base.arg(0) == e)
        if z3.is_app_of(pos, z3.Z3_OP_ITE) and not any(c.eq(x) or c.eq(p) for c in TH._free_consts(pos.arg(0))):
            a, b = [self.over_set(kind, q, base, x, p) for q in pos.children()[1:]]
            return None if a is None or b is None else zite(pos.arg(0), a, b)
        parts = list(pos.children()) if kind == "any" and z3.is_and(pos) or kind == "all" and (z3.is_or(pos) or z3.is_implies(pos)) else []
        if z3.is_implies(pos):
            parts[0] = znot(parts[0])
        free = [q for q in parts if not any(c.eq(x) or c.eq(p) for c in TH._free_consts(q))]
        if free:
            bound = [q for q in parts if not any(q.eq(r) for r in free)]
            r = self.over_set(kind, zand(bound) if kind == "any" else zor(bound), base, x, p)
            return None if r is None else zand(free + [r]) if kind == "any" else zor(free + [r])
        neg = False
        while z3.is_not(pos):
            neg, pos = not neg, pos.arg(0)
        if not (z3.is_select(pos) and pos.arg(1).eq(x)):
            return None
        s, t = pos.arg(0), base.arg(0)
        if any(c.eq(x) or c.eq(p) for c in TH._free_consts(s)) or s.sort() != t.sort():
            return None
        if kind == "any":
            return z3.SetDifference(t, s) != e if neg else z3.SetIntersect(t, s) != e
        return z3.SetIntersect(t, s) == e if neg else z3.SetDifference(t, s) == e

    def build_fold(self, kind, rows, it, x, p, site):
        inc = [(c, v) for c, v, s in rows if v[0] != "skip"]
        if kind in ("any", "all"):
            if any(v[0] == "part" for _, v in inc):
                b = None
                neutral = z3.BoolVal(kind == "all")
                body = neutral
                for c, v in inc:
                    body = zite(c, self.truth(v[1]) if v[0] == "part" else v[1], body)
                cond = zor([c for c, _ in inc])
            else:
                cond = zor([c for c, _ in inc])
                body = z3.BoolVal(kind == "all")
                for c, v in inc:
                    body = zite(c, v[1], body)
            cond, body = _sb(cond), _sb(body)
            if z3.is_true(cond):
                pos = body
            elif kind == "any":
                pos = zand([cond, body])
            else:
                pos = z3.Implies(cond, body)
            short = self.over_set(kind, pos, it.base, x.t, p)
            if short is not None:
                return Sym(BOOL, short)
            mk = (lambda acc: (FALSE, z3.Or(acc, pos))) if kind == "any" else (lambda acc: (TRUE, z3.And(acc, pos)))
            f, caps = self.fold_of(BOOL, it.elem, p, x.t, mk, kind, {"elt": pos, "cond": None}, it)
            return Sym(BOOL, f.dcl(*caps, it.base))
        if kind == "sum":
            body = z3.IntVal(0)
            for c, v in inc:
                body = zite(c, self.coerce(v[1], INT) if v[0] != "part" else self.num(v[1]), body)
            f, caps = self.fold_of(INT, it.elem, p, x.t, lambda acc: (z3.IntVal(0), acc + body), "sum", {}, it)
            return Sym(INT, f.dcl(*caps, it.base))
        if not inc:
            return self.comp_empty(kind, site)
        cond = _sb(zor([c for c, _ in inc]))
        if any(v[0] == "part" for _, v in inc):
            ty = None
            for c, v in inc:
                ty = v[1].ty if ty is None else self.join(ty, v[1].ty)
            t = None
            for c, v in inc:
                u = self.coerce(v[1], ty)
                t = u if t is None else zite(c, u, t)
            if kind == "listcomp":
                i0 = nil(ty)
                step = lambda acc: zite(cond, TH.mk_concat(ty, acc, t), acc)
            elif kind == "setcomp":
                i0 = z3.K(ty.elem.sort(), FALSE)
                step = lambda acc: zite(cond, z3.SetUnion(acc, t), acc)
            else:
                i0 = ty.empty()
                step = lambda acc: zite(cond, TH.f_merge(ty)(acc, t), acc)
            f, caps = self.fold_of(ty, it.elem, p, x.t, lambda acc: (i0, step(acc)), kind + "-flat", {}, it)
            return Sym(ty, f.dcl(*caps, it.base))
        et = None
        for c, v in inc:
            et = v[1].ty if et is None else self.join(et, v[1].ty)
        st = self.site_types.get(site)
        if st is not None and not isinstance(st, DictT):
            et = self.join(st, et)
        if isinstance(st, DictT):
            et = self.join(st.k, et)
        e = None
        for c, v in reversed(inc):
            u = self.coerce(v[1], et)
            e = u if e is None else zite(c, u, e)
        parts = {"elt": e, "cond": None if z3.is_true(cond) else cond}
        if kind == "listcomp":
            ty = ListT(et)
            if z3.is_true(cond) and e.eq(x.t):
                return Sym(ty, it.base)
            mk = lambda acc: (nil(ty), zite(cond, snoc(ty, acc, e), acc))
        elif kind == "setcomp":
            ty = SetT(et)
            mk = lambda acc: (z3.K(et.sort(), FALSE), zite(cond, z3.Store(acc, e, TRUE), acc))
        else:
            vt = None
            for c, v in inc:
                vt = v[2].ty if vt is None else self.join(vt, v[2].ty)
            if isinstance(st, DictT):
                vt = self.join(st.v, vt)
            w = None
            for c, v in reversed(inc):
                u = self.coerce(v[2], vt)
                w = u if w is None else zite(c, u, w)
            ty = DictT(et, vt)
            parts["val"] = w
            mk = lambda acc: (ty.empty(), zite(cond, TH.f_put(ty)(acc, e, w), acc))
        f, caps = self.fold_of(ty, it.elem, p, x.t, mk, kind, parts, it)
        return Sym(ty, f.dcl(*caps, it.base))

    def gen_consume(self, g, kind):
        """consume a generator expression by any/all/sum/list/set/..."""
        e, fr = g.node, g.fr
        f2 = self.new_frame(fr.glob, fr, "<comp>", spec=fr.spec)
        return self.comp_gen(kind, e.elt, None, e.generators, f2, site_of(e, fr.glob))

    # ---------------------------------------------------------- iteration

    def to_iter(self, v):
        if isinstance(v, (ConcIter, IterV)):
            return v
        if isinstance(v, GenV):
            return self.gen_iter(v)
        if isinstance(v, Con):
            o = v.o
            if isinstance(o, (list, tuple)):
                return ConcIter([Con(x) for x in o])
            if isinstance(o, (set, frozenset)):
                return ConcIter([Con(x) for x in sorted(o, key=repr)])
            if isinstance(o, dict):
                return ConcIter([Con(x) for x in o])
            if isinstance(o, type) and issubclass(o, enum.Enum):
                return ConcIter([Con(x) for x in o])
            if isinstance(o, str):
                return ConcIter([Con(x) for x in o])
            if isinstance(o, range):
                return ConcIter([Con(x) for x in o])
            if isinstance(o, (type({}.items()), type({}.keys()), type({}.values()))):
                return ConcIter([Con(x) for x in o])
            if o is None or isinstance(o, (int, float)):
                raise TExc(TypeError)
            raise Unsupported(f"iterate {type(o)}")
        if isinstance(v, TupV):
            return ConcIter(v.items)
        if isinstance(v, Choice):
            for c, x in v.alts[:-1]:
                if self.branch(c):
                    return self.to_iter(x)
            return self.to_iter(v.alts[-1][1])
        if isinstance(v, Ref) and self.cell(v.cid).fields is not None:
            m = getattr(self.cell(v.cid).ty.cls, "__iter__", None)
            if m is None:
                raise TExc(TypeError)
            return self.to_iter(self.call(Con(m), [v], {}))
        s = self.deref(v)
        if isinstance(s, Sym):
            if is_union(s.ty):
                w = self.narrow(s, lambda a: isinstance(a, (ListT, TupT, DictT, SetT)) or a == STR)
                if w is None:
                    raise TExc(TypeError)
                s = w
            ty = s.ty
            if isinstance(ty, TupT):
                return ConcIter(self.tuple_items(s))
            if isinstance(ty, ListT):
                if isinstance(s, SymW) and not isinstance(ty.elem, UnknownT) and self.spine(ty, s.t) is None:
                    return IterV(ty.elem, s.t, lambda I, x, p: (x, None))
                sp = self.spine(ty, s.t)
                if sp is not None:
                    return ConcIter([Sym(ty.elem, x) for x in sp])
                return self.list_iter(ty, s.t)
            if isinstance(ty, DictT):
                return self.dict_iter(s, "keys")
            if isinstance(ty, SetT):
                if isinstance(ty.elem, UnknownT):
                    return ConcIter([])
                return self.list_iter(ListT(ty.elem), TH.f_setlist(ty.elem)(s.t))
            if ty == STR:
                f = TH.f_chars()
                return self.list_iter(ListT(STR), f(s.t))
            if isinstance(ty, RecT) and ty.cls is not None and hasattr(ty.cls, "__iter__"):
                return self.to_iter(self.call(Con(ty.cls.__iter__), [s], {}))
            raise TExc(TypeError)
        raise Unsupported(f"iterate {v!r}")

    def list_iter(self, ty, t):
        """iterate a list term; fused through comprehension folds"""
        if isinstance(ty.elem, UnknownT):
            return ConcIter([])
        if z3.is_app(t) and t.get_id() not in self.unfused:
            f = TH.FOLD_BY_NAME.get(t.decl().name())
            if f is not None and f.kind == "listcomp" and f.parts.get("elt") is not None and not getattr(f, "nofuse", False):
                pid = f.p
                elt, cond = f.parts["elt"], f.parts.get("cond")
                used = TH.const_ids(elt) | (TH.const_ids(cond) if cond is not None else set())
                if pid.get_id() not in used:
                    caps = [t.arg(i) for i in range(len(f.caps))]
                    base = t.arg(t.num_args() - 1)
                    inner = self.list_iter(ListT(f.elem_ty), base)
                    if isinstance(inner, IterV):
                        def bind(I, x, p, inner=inner, f=f, caps=caps, elt=elt, cond=cond):
                            v0, g0 = inner.bind(I, x, p)
                            y = I.lift(v0)
                            y = I.coerce(y, f.elem_ty)
                            sub = list(zip(f.caps, caps)) + [(f.x, y)]
                            g = z3.substitute(cond, *sub) if cond is not None else None
                            if g0 is not None:
                                g = g0 if g is None else z3.And(g0, g)
                            return Sym(f.acc_ty.elem, z3.substitute(elt, *sub)), g
                        return IterV(inner.elem, inner.base, bind, inner.assume)
        return IterV(ty.elem, t, lambda I, x, p: (x, None))

    def dict_iter(self, d, what):
        ty, t = d.ty, d.t
        if isinstance(ty.k, UnknownT):
            return ConcIter([])
        assume = lambda x, p: [ty.has(t, x.t)]
        if what == "keys":
            b = lambda I, x, p: (x, None)
        elif what == "values":
            b = lambda I, x, p: (Sym(ty.v, ty.get(t, x.t)), None)
        else:
            b = lambda I, x, p: (TupV([x, Sym(ty.v, ty.get(t, x.t))]), None)
        base = ty.order(t)
        sp = self.spine(ListT(ty.k), z3.simplify(base)) if False else None
        return IterV(ty.k, base, b, assume)

    def gen_iter(self, g):
        """lazy generator expression as an iterable"""
        e, fr = g.node, g.fr
        if len(e.generators) != 1:
            return self.to_iter(self.gen_consume(g, "listcomp"))
        gen = e.generators[0]
        f2 = self.new_frame(fr.glob, fr, "<gen>", spec=fr.spec)
        it = self.to_iter(self.ev(gen.iter, f2))
        if isinstance(it, ConcIter) and not gen.ifs:
            out = []
            for x in it.items:
                self.assign(gen.target, x, f2)
                out.append(self.ev(e.elt, f2))
            return ConcIter(out)
        return self.to_iter(self.gen_consume(g, "listcomp"))

    def iter_to_list(self, it):
        """list value of an IterV"""
        if isinstance(it, ConcIter):
            return self.mk_listlit(it.items, ListT)
        x = self.fresh(it.elem, "cx")
        p = self.fresh_term(ListT(it.elem).sort(), "cp")
        v, g = it.bind(self, x, p)
        if isinstance(v, Sym) and v.t.eq(x.t) and g is None:
            return Sym(ListT(it.elem), it.base)
        n0 = len(self.st.pc)
        e = self.lift(v)
        ty = ListT(e.ty)
        cond = TRUE if g is None else g
        f, caps = self.fold_of(ty, it.elem, p, x.t, lambda acc: (nil(ty), zite(cond, snoc(ty, acc, e.t), acc)), "listcomp",
                               {"elt": e.t, "cond": g}, it)
        return Sym(ty, f.dcl(*caps, it.base))

    def as_list(self, v):
        """Sym of a ListT for any iterable"""
        v0 = v
        if isinstance(v, GenV):
            return self.lift(self.gen_consume(v, "listcomp"))
        s = self.deref(v)
        if isinstance(s, Sym) and isinstance(s.ty, ListT):
            return Sym(ListT(s.ty.elem), s.t)
        it = self.to_iter(s)
        r = self.iter_to_list(it)
        return Sym(ListT(r.ty.elem), r.t)

    def list_concat(self, a, b):
        j = self.join(a.ty, b.ty)
        if isinstance(j.elem, UnknownT):
            return a
        x, y = self.coerce(a, j), self.coerce(b, j)
        sp = self.spine(j, y)
        if sp is not None:
            r = x
            for e in sp:
                r = snoc(j, r, e)
            return Sym(j, r)
        if z3.is_app(x) and x.decl().eq(j.sort().constructor(0)):
            return Sym(j, y)
        TH.lem_len_concat(j.elem)
        TH.lem_mem_concat(j.elem)
        return Sym(j, TH.mk_concat(j, x, y))

    # -------------------------------------------------------------- loops

    def s_For(self, s, fr):
        it = self.to_iter(self.ev(s.iter, fr))
        if isinstance(it, ConcIter):
            broke = False
            for x in it.items:
                self.assign(s.target, x, fr)
                try:
                    self.exec_block(s.body, fr)
                except Brk:
                    broke = True
                    break
                except Cont:
                    continue
            if not broke and s.orelse:
                self.exec_block(s.orelse, fr)
            return
        src = None
        self.loop(s, fr, it)

    def s_While(self, s, fr):
        # loops whose condition is decided at entry and after few iterations unroll
        self.loop(s, fr, None)

    def modified_names(self, s):
        names = set()

        def tgt(t):
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    tgt(x)
            elif isinstance(t, ast.Starred):
                tgt(t.value)

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(n, ast.FunctionDef):
                    names.add(n.name)
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        names.add(c.target.id)
                return
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.NamedExpr):
                names.add(n.target.id)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add(a.asname or a.name)
            for c in ast.iter_child_nodes(n):
                go(c)

        for n in s.body + (list(s.orelse) if False else []):
            go(n)
        return names

    def loop(self, s, fr, it):
        is_for = it is not None
        entry = self.st
        names = self.modified_names(s)
        if is_for:
            tn = set()
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    tn.add(n.id)
            names |= tn
        env0 = dict(entry.envs[fr.fid])
        heap0 = dict(entry.heap)
        base_scope_heap = set(entry.heap)
        L = ListT(it.elem) if is_for else None
        # --- discover modified locations and their types (fixpoint) --------
        var_ty = {}  # name -> Ty of havocked Sym, or ("ref", Ty) for fresh mutable
        for n in names:
            v = env0.get(n, MISSING)
            if v is MISSING or isinstance(v, MaybeUnbound):
                var_ty[n] = None  # loop local
            else:
                var_ty[n] = self.loc_type(v)
        mod_cells = {}  # cid -> type (cells that exist at entry)
        mod_fields = {}  # (cid, field) -> loc type
        outer_iters = entry.ghost.get("iters", ())

        def head(assume_inv):
            """havoc and set up one arbitrary iteration; returns (PRE, x)"""
            self.st.cnt += 1
            for n, ty in sorted(var_ty.items()):
                if ty is None:
                    self.st.envs[fr.fid][n] = MaybeUnbound()
                    continue
                self.st.envs[fr.fid][n] = self.havoc_loc(ty, env0[n], n)
            for cid, ty in sorted(mod_cells.items()):
                c = self.cell(cid).copy()
                c.ty = ty
                c.term = self.fresh(ty, "h").t
                c.sver += 1
                c.dver += 1
                self.st.heap[cid] = c
            for (cid, f), ty in sorted(mod_fields.items()):
                c = self.cell(cid).copy()
                c.fields[f] = self.havoc_loc(ty, c.fields.get(f), f)
                self.st.heap[cid] = c
            pre = self.fresh_term(L.sort(), "PRE") if is_for else None
            return pre

        def bind_elem(pre):
            x = self.fresh(it.elem, "x")
            self.assume(TH.f_mem(it.elem)(x.t, it.base))
            nxt = snoc(L, pre, x.t)
            ln = TH.f_len(it.elem)
            self.assume(ln(pre) < ln(it.base))
            self.assume(ln(pre) >= 0)
            if it.assume is not None:
                for a in it.assume(x, pre):
                    self.assume(a)
            self.st.ghost["iters"] = outer_iters + ((it.elem, pre, x.t),)
            v, guard = it.bind(self, x, pre)
            return x, v, guard, nxt

        def body(pre):
            """one iteration; leaves the loop condition False path as ('exit',)"""
            if is_for:
                x, v, guard, nxt = bind_elem(pre)
                self.st.ghost[("next", id(s))] = nxt
                if guard is not None and not self.branch(guard):
                    return "again"
                self.assign(s.target, self.loop_elem(v, it), fr)
            else:
                if not self.branch(self.cond(s.test, fr)):
                    return "exit"
                self.st.ghost[("next", id(s))] = None
            try:
                self.exec_block(s.body, fr)
            except Cont:
                pass
            return "again"

        self.quiet += 1
        try:
            for rnd in range(12):
                changed = False

                def run():
                    pre = head(False)
                    return body(pre)

                outs = self.explore(run, f"loop{s.lineno}:dry{rnd}")
                for k, v, st in outs:
                    if not (k == "ok" and v == "again"):
                        # cells may also be modified before break/return; those paths keep their own state
                        continue
                    saved = self.st
                    self.st = st
                    try:
                        env = st.envs[fr.fid]
                        for n in list(var_ty):
                            if var_ty[n] is None:
                                continue
                            nt = self.join_loc(var_ty[n], self.loc_type(env[n]))
                            if nt != var_ty[n]:
                                var_ty[n] = nt
                                changed = True
                        for cid in base_scope_heap:
                            a, b = heap0[cid], st.heap[cid]
                            if b.fields is not None:
                                for f, fv in b.fields.items():
                                    key = (cid, f)
                                    if key not in mod_fields:
                                        if a.fields.get(f) is not fv:
                                            mod_fields[key] = self.join_loc(self.loc_type(a.fields[f]) if f in a.fields else self.loc_type(fv), self.loc_type(fv))
                                            changed = True
                                    else:
                                        nt = self.join_loc(mod_fields[key], self.loc_type(fv))
                                        if nt != mod_fields[key]:
                                            mod_fields[key] = nt
                                            changed = True
                            elif cid not in mod_cells:
                                if b.term is not a.term and not (b.term is not None and a.term is not None and b.term.eq(a.term)):
                                    mod_cells[cid] = b.ty
                                    changed = True
                            elif b.ty != mod_cells[cid]:
                                mod_cells[cid] = self.join(mod_cells[cid], b.ty)
                                changed = True
                        # element mutation flag
                    finally:
                        self.st = saved
                if not changed:
                    break
            else:
                raise Unsupported("loop typing does not converge")
        finally:
            self.quiet -= 1
        # outer locals of enclosing frames are not assignable (no nonlocal)

        # --- candidate invariants ----------------------------------------
        locs = {}
        for n, ty in var_ty.items():
            if ty is not None:
                locs[("v", n)] = self.loc_ty(ty)
        for cid, ty in mod_cells.items():
            locs[("c", cid)] = ty
        for key, ty in mod_fields.items():
            locs[("f",) + key] = self.loc_ty(ty)

        def read(loc):
            if loc[0] == "v":
                return self.st.envs[fr.fid].get(loc[1])
            if loc[0] == "c":
                return Ref(loc[1])
            return self.cell(loc[1]).fields[loc[2]]

        entry_vals = {}
        for loc in locs:
            try:
                if loc[0] == "v":
                    v0 = env0[loc[1]]
                elif loc[0] == "c":
                    v0 = Ref(loc[1])
                else:
                    v0 = heap0[loc[1]].fields.get(loc[2])
                entry_vals[loc] = self.lift(v0)
            except Unsupported:
                entry_vals[loc] = None
        cands = self.job.candidates(self, s, fr, it, locs, read, entry_vals, L)

        def eval_cand(c, pre):
            """z3 Bool, or None if the candidate does not apply in the current state"""
            try:
                self.quiet += 1
                n0 = len(self.st.pc)
                try:
                    r = c.eval(self, pre)
                finally:
                    self.quiet -= 1
                return r
            except (Unsupported, TExc, Infeasible):
                return None

        def check(c, pre, st):
            saved = self.st
            self.st = st.clone()
            self.st.scope = (st.scope, "cand")
            try:
                g = eval_cand(c, pre)
                if g is None:
                    return False
                if z3.is_true(simp_bool(g)):
                    return True
                r, _, _ = solve.prove(self.hyps(), g, timeout=c.timeout, use_cvc5=z3.is_quantifier(g), tries=1, cvc5_first=z3.is_quantifier(g))
                if r != "proved" and self.job.verbose and self.job.dump:
                    self.job.dump(self.hyps(), g, c.name)
                return r == "proved"
            finally:
                self.st = saved

        live = []
        expl0 = self.st.expl
        mkey = ("houdini", entry.scope, tuple(entry.dec[: entry.di]), entry.expl, s.lineno, s.col_offset)
        cached = self.memo.get(mkey)
        if cached is not None:
            live = [cands[i] for i in cached]
            for c in cands:
                pass
        else:
            idx = {id(c): i for i, c in enumerate(cands)}
            e2 = self.st.clone()
            # a candidate that once failed at this loop is not tried again (until a run without this shortcut)
            dead = self.job.dead if not self.job.typing else set()
            for c in cands:
                if (fr.fn_name, s.lineno, s.col_offset, c.name) in dead:
                    continue
                if check(c, nil(L) if is_for else None, e2):
                    live.append(c)
                else:
                    if self.job.shortcut:
                        dead.add((fr.fn_name, s.lineno, s.col_offset, c.name))
                    if self.job.verbose:
                        print("     not initially:", c.name)
            rnd = 0
            while True:
                self.job.tick()
                self.quiet += 1
                try:
                    def run():
                        pre = head(True)
                        for c in live:
                            g = eval_cand(c, pre)
                            if g is not None:
                                self.assume(g)
                        self.st.ghost["pre"] = pre
                        return body(pre)

                    outs = self.explore(run, f"loop{s.lineno}:h{rnd}")
                finally:
                    self.quiet -= 1
                drop = set()
                for k, v, st in outs:
                    if not (k == "ok" and v == "again"):
                        continue
                    for c in live:
                        if id(c) in drop:
                            continue
                        if not check(c, st.ghost.get(("next", id(s))), st):
                            drop.add(id(c))
                            if self.job.shortcut:
                                dead.add((fr.fn_name, s.lineno, s.col_offset, c.name))
                            if self.job.verbose:
                                print("     not preserved:", c.name, [simp_bool(t).sexpr()[:150] for t, kd in st.pc if kd == "b"][-4:])
                if not drop:
                    break
                live = [c for c in live if id(c) not in drop]
                rnd += 1
            self.memo[mkey] = [idx[id(c)] for c in live]
        self.st.expl = expl0
        self.job.loop_report(self, s, fr, cands, live)

        # --- final round: obligations of the body, and the exits ----------
        def run():
            pre = head(True)
            for c in live:
                g = eval_cand(c, pre)
                if g is not None:
                    self.assume(g)
            return body(pre)

        outs = self.explore(run, f"loop{s.lineno}:final")
        exits = [o for o in outs if not (o[0] == "ok" and o[1] == "again")]
        if is_for and not self.job.typing:
            self.early_exits(s, fr, it, exits, entry_vals)
        if is_for:
            def done():
                pre = head(True)
                self.assume(pre == it.base)
                for c in live:
                    g = eval_cand(c, it.base)
                    if g is not None:
                        self.assume(g)
                return "exit"
            exits = self.explore(done, f"loop{s.lineno}:exit") + exits
        k = self.choose(len(exits))
        kind, v, st = exits[k]
        self.adopt(st)
        self.st.ghost["iters"] = outer_iters
        if kind == "exc":
            raise v
        if kind == "ret":
            raise Ret(v)
        if kind == "brk":
            return
        # normal exit
        if s.orelse:
            self.exec_block(s.orelse, fr)

    def early_exits(self, s, fr, it, exits, entry_vals):
        """facts about the unvisited rest of the list on paths that leave a loop early"""
        extra = [v.t for v in entry_vals.values() if v is not None] + self.hyps()
        folds = self.job.goal_folds(self, it, extra)
        for kind, v, st in exits:
            nxt = st.ghost.get(("next", id(s)))
            if nxt is None:
                continue
            if st.ghost.get(("left", id(s))):
                continue
            st.ghost[("left", id(s))] = True
            saved, self.st = self.st, st
            try:
                rest = self.fresh_term(ListT(it.elem).sort(), "rest")
                hyps = self.hyps()
                for f, caps in folds:
                    if f.kind == "listcomp":
                        lab = f"lemma:{f.name} concat"
                        if lab in TH.LEMMA_PROOFS:
                            cc = TH.f_concat(f.acc_ty.elem)
                            self.assume(f.dcl(*caps, it.base) == cc(f.dcl(*caps, nxt), f.dcl(*caps, rest)))
                            self.job.labels.add(("lemma", lab))
                        continue
                    here = f.dcl(*caps, nxt)
                    x = self.fresh_term(it.elem.sort(), "later")
                    p = self.fresh_term(ListT(it.elem).sort(), "laterp")
                    sub = list(zip(f.caps, caps)) + [(f.p, p), (f.x, x), (f.acc, here)]
                    step = z3.substitute(f.step_t, *sub)
                    r = solve.prove(hyps, step == here, timeout=800, use_cvc5=False, tries=1)
                    if r[0] == "proved":
                        # induction on the rest of the list: the fold no longer changes
                        self.assume(f.dcl(*caps, it.base) == here)
            finally:
                self.st = saved

    def loop_elem(self, v, it):
        """loop variable; mutable records become fresh cells so attribute stores are allowed"""
        if isinstance(v, Sym) and isinstance(v.ty, RecT) and not v.ty.frozen and not self.spec_depth:
            return self.obj_from_sym(v, origin="elem")
        return v

    def obj_from_sym(self, v, origin=None, param=None):
        r = v.ty
        fields = {}
        for f, ft in r.fields.items():
            fields[f] = self.thaw(Sym(ft, r.get(v.t, f)), f"{param}.{f}" if param else param)
        for f, o in r.con_fields.items():
            fields[f] = Con(o() if callable(o) and getattr(o, "_lazy", False) else o)
        return self.alloc(r, None, fields=fields, origin=origin, param=param)

    def thaw(self, s, param=None):
        """immutable snapshot -> mutable location (for list/dict/set/object fields)"""
        if isinstance(s.ty, (DictT, SetT)) or type(s.ty) is ListT:
            return self.alloc(s.ty, s.t, param=param)
        return s

    def loc_type(self, v):
        if isinstance(v, Ref):
            c = self.cell(v.cid)
            if c.fields is not None:
                return ("obj", c.ty, v.cid)
            return ("ref", c.ty)
        if isinstance(v, PRef):
            return ("ref", v.ty)
        if isinstance(v, Sym):
            return ("sym", v.ty)
        if isinstance(v, TupV):
            try:
                return ("sym", self.lift(v).ty)
            except Unsupported:
                return ("opq", v)
        if isinstance(v, Con):
            try:
                return ("con", v.o, self.lift(v).ty)
            except Unsupported:
                return ("opq", v)
        return ("opq", v)

    def loc_ty(self, lt):
        if lt[0] == "con":
            return lt[2]
        return lt[1] if isinstance(lt[1], Ty) else UNKNOWN

    def join_loc(self, a, b):
        if a == b:
            return a
        if a[0] == "con" and b[0] == "con":
            try:
                if type(a[1]) is type(b[1]) and a[1] == b[1]:
                    return a
            except Exception:
                pass
            return ("sym", self.join(a[2], b[2]))
        ty = lambda z: z[2] if z[0] == "con" else z[1]
        if a[0] in ("sym", "con") and b[0] in ("sym", "con"):
            return ("sym", self.join(ty(a), ty(b)))
        if a[0] == "ref" and b[0] == "ref":
            return ("ref", self.join(a[1], b[1]))
        if a[0] == "obj" and b[0] == "obj":
            return ("newobj", a[1]) if a[1] == b[1] else ("opq", None)
        if a[0] == "newobj" and b[0] in ("obj", "newobj"):
            return a
        if a[0] == "opq" and b[0] == "opq" and a[1] is b[1]:
            return a
        if {a[0], b[0]} <= {"ref", "con", "sym"}:
            return ("sym", self.join(ty(a), ty(b)))
        if {a[0], b[0]} <= {"obj", "newobj", "con", "sym"}:
            return ("sym", self.join(ty(a), ty(b)))
        return ("opq", None)

    def havoc_loc(self, lt, v0, hint):
        k = lt[0]
        if k == "con":
            return Con(lt[1])
        if k == "sym":
            s = self.fresh(lt[1], hint)
            if isinstance(lt[1], DynT):
                self.assume(union_domain(lt[1], s.t))
            return s
        if k == "ref":
            # same cell reassigned or a new list object: a fresh cell of that type
            if isinstance(v0, Ref) and v0.cid in self.st.heap and self.cell(v0.cid).ty == lt[1]:
                c = self.cell(v0.cid)
            return self.alloc(lt[1], self.fresh(lt[1], hint).t, site=self.cell(v0.cid).site if isinstance(v0, Ref) and v0.cid in self.st.heap else None)
        if k == "obj":
            return v0
        if k == "newobj":
            return self.obj_from_sym(self.fresh(lt[1], hint))
        if k == "opq":
            if lt[1] is None:
                raise Unsupported("loop variable of mixed kind")
            return lt[1]
        raise Unsupported(k)


class ExcV(V):
    def __init__(self, cls, vargs):
        self.cls, self.vargs = cls, vargs


class GenV(V):
    def __init__(self, node, fr):
        self.node, self.fr = node, fr


class StarV(V):
    def __init__(self, v):
        self.v = v


class SuperM(V):
    def __init__(self, fr, name):
        self.fr, self.name = fr, name


class AnyExc(Exception):
    """some subclass of Exception (of an external call)"""


def _sb(c):
    s = z3.simplify(c)
    return s if z3.is_true(s) or z3.is_false(s) else c


def _esc(s):
    return "".join(ch if 32 <= ord(ch) < 127 and ch != "\\" else "\\u{%x}" % ord(ch) for ch in s)


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    raise Unsupported("augmented target")


def _has_yield(node):
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if go(c):
                return True
        return False

    return go(node)


def site_of(node, glob):
    return f"{glob.get('__name__', '?')}:{node.lineno}:{node.col_offset}"
