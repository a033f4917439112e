"""Theory: inductive lists, dictionaries, sets, folds and uninterpreted
operations, as z3 declarations with the axioms that define them.

An axiom is either a *definition* (recursive equations of a fold: conservative),
or a *lemma* (a consequence, discharged by structural induction on every run
before it may be used), or *trusted* (a fact about a Python or library operation
that is assumed; listed in the evidence).
"""
import itertools
import z3
from .ty import *
from . import ty as T

AX = {}  # decl name -> list of (formula, kind, label)
LEMMA_PROOFS = {}  # label -> thunk returning list of queries [(hyps, goal)]
TRUSTED = {}  # label -> text
_decls = {}
_keep = []


def decl(name, *sorts):
    d = _decls.get(name)
    if d is None:
        d = z3.Function(name.replace("|", "/"), *sorts)
        _decls[name] = d
    return d


def uf(name, argtys, retty):
    return decl(name, *[a.sort() for a in argtys], retty.sort())


def add_ax(d, formula, kind="def", label=None, proof=None, need=()):
    """need: operations (besides d) that must occur for the fact to be of any use"""
    AX.setdefault(d.name(), []).append((formula, kind, label, frozenset(n.name() for n in need)))
    if kind == "lemma" and proof is not None:
        LEMMA_PROOFS[label] = proof


def trust(label, text):
    TRUSTED[label] = text


def fresh_name_gen():
    c = itertools.count()
    return lambda p: f"{p}!{next(c)}"


_q = itertools.count()


def qvar(sort, hint="q"):
    return z3.Const(f"{hint}?{next(_q)}", sort)


def forall(vs, body, *pats):
    pats = [p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats]
    if not vs:
        return body
    return z3.ForAll(vs, body, patterns=pats)


# --------------------------------------------------------------------------
# list operations


def _lst(e):
    return ListT(e)


def f_len(e):
    L = _lst(e)
    n = f"len<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), z3.IntSort())
    p, x = qvar(L.sort(), "p"), qvar(e.sort(), "x")
    add_ax(d, d(nil(L)) == 0)
    add_ax(d, forall([p, x], d(snoc(L, p, x)) == d(p) + 1, d(snoc(L, p, x))))
    lab = f"lemma:{n}>=0"
    add_ax(d, forall([p], d(p) >= 0, d(p)), "lemma", lab, lambda: [
        ([], d(nil(L)) >= 0), ([d(p) >= 0], d(snoc(L, p, x)) >= 0)])
    lab2 = f"lemma:{n}=0 iff nil"
    add_ax(d, forall([p], (d(p) == 0) == (p == nil(L)), d(p)), "lemma", lab2, lambda: [
        ([], d(nil(L)) == 0), ([d(p) >= 0], d(snoc(L, p, x)) != 0)])
    return d


def f_mem(e):
    L = _lst(e)
    n = f"mem<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, e.sort(), L.sort(), z3.BoolSort())
    p, x, y = qvar(L.sort(), "p"), qvar(e.sort(), "x"), qvar(e.sort(), "y")
    add_ax(d, forall([y], z3.Not(d(y, nil(L))), d(y, nil(L))))
    add_ax(d, forall([p, x, y], d(y, snoc(L, p, x)) == z3.Or(y == x, d(y, p)), d(y, snoc(L, p, x))))
    return d


def f_concat(e):
    L = _lst(e)
    n = f"concat<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), L.sort(), L.sort())
    a, b, c, x = (qvar(L.sort(), "a"), qvar(L.sort(), "b"), qvar(L.sort(), "c"), qvar(e.sort(), "x"))
    N = nil(L)
    add_ax(d, forall([a], d(a, N) == a, d(a, N)))
    add_ax(d, forall([a, b, x], d(a, snoc(L, b, x)) == snoc(L, d(a, b), x), d(a, snoc(L, b, x))))
    add_ax(d, forall([a], d(N, a) == a, d(N, a)), "lemma", f"lemma:{n} nil-left", lambda: [
        ([], d(N, N) == N), ([d(N, a) == a], d(N, snoc(L, a, x)) == snoc(L, a, x))])
    add_ax(d, forall([a, b, c], d(d(a, b), c) == d(a, d(b, c)), d(d(a, b), c)), "lemma", f"lemma:{n} assoc", lambda: [
        ([], d(d(a, b), N) == d(a, d(b, N))),
        ([d(d(a, b), c) == d(a, d(b, c))], d(d(a, b), snoc(L, c, x)) == d(a, d(b, snoc(L, c, x))))])
    add_ax(d, forall([a, b], (d(a, b) == N) == z3.And(a == N, b == N), d(a, b)), "lemma", f"lemma:{n} nil", lambda: [
        ([], (d(a, N) == N) == (a == N)), ([], d(a, snoc(L, b, x)) != N)])
    return d


def mk_concat(ty, x, y):
    """concatenation, nested to the left and with empty parts dropped"""
    L = ty
    C = L.sort()
    is_nil = lambda t: z3.is_app(t) and t.decl().eq(C.constructor(0))
    if is_nil(y):
        return x
    if is_nil(x):
        return y
    if z3.is_app(y):
        if y.decl().eq(C.constructor(1)):
            return snoc(L, mk_concat(L, x, y.arg(0)), y.arg(1))
        if y.decl().eq(f_concat(L.elem)):
            return mk_concat(L, mk_concat(L, x, y.arg(0)), y.arg(1))
        built = lambda t: z3.is_app(t) and (is_nil(t) or t.decl().eq(C.constructor(1)) or t.decl().eq(f_concat(L.elem)) or t.decl().kind() == z3.Z3_OP_ITE and (built(t.arg(1)) or built(t.arg(2))))
        if y.decl().kind() == z3.Z3_OP_ITE and built(y):
            return z3.If(y.arg(0), mk_concat(L, x, y.arg(1)), mk_concat(L, x, y.arg(2)))
    return f_concat(L.elem)(x, y)


def lem_len_concat(e):
    L = _lst(e)
    d = f_concat(e)
    ln = f_len(e)
    lab = f"lemma:len-concat<{e.key}>"
    if lab in LEMMA_PROOFS:
        return
    a, b, x = qvar(L.sort()), qvar(L.sort()), qvar(e.sort())
    add_ax(ln, forall([a, b], ln(d(a, b)) == ln(a) + ln(b), ln(d(a, b))), "lemma", lab, lambda: [
        ([], ln(d(a, nil(L))) == ln(a) + ln(nil(L))),
        ([ln(d(a, b)) == ln(a) + ln(b)], ln(d(a, snoc(L, b, x))) == ln(a) + ln(snoc(L, b, x)))])


def lem_mem_concat(e):
    L = _lst(e)
    d = f_concat(e)
    m = f_mem(e)
    lab = f"lemma:mem-concat<{e.key}>"
    if lab in LEMMA_PROOFS:
        return
    a, b, x, y = qvar(L.sort()), qvar(L.sort()), qvar(e.sort()), qvar(e.sort())
    add_ax(m, forall([a, b, y], m(y, d(a, b)) == z3.Or(m(y, a), m(y, b)), m(y, d(a, b))), "lemma", lab, lambda: [
        ([], m(y, d(a, nil(L))) == z3.Or(m(y, a), m(y, nil(L)))),
        ([m(y, d(a, b)) == z3.Or(m(y, a), m(y, b))],
         m(y, d(a, snoc(L, b, x))) == z3.Or(m(y, a), m(y, snoc(L, b, x))))])


def f_nth(e):
    L = _lst(e)
    n = f"nth<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), z3.IntSort(), e.sort())
    ln = f_len(e)
    m = f_mem(e)
    p, x, i = qvar(L.sort(), "p"), qvar(e.sort(), "x"), qvar(z3.IntSort(), "i")
    add_ax(d, forall([p, x, i], d(snoc(L, p, x), i) == z3.If(i == ln(p), x, d(p, i)), d(snoc(L, p, x), i)))
    inb = lambda q: z3.And(i >= 0, i < ln(q))
    add_ax(d, forall([p, i], z3.Implies(inb(p), m(d(p, i), p)), d(p, i)), "lemma", f"lemma:{n} mem", lambda: [
        ([inb(nil(L))], z3.BoolVal(False)),
        ([z3.Implies(inb(p), m(d(p, i), p)), inb(snoc(L, p, x))], m(d(snoc(L, p, x), i), snoc(L, p, x)))])
    return d


def f_rev(e):
    L = _lst(e)
    n = f"rev<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), L.sort())
    c = f_concat(e)
    N = nil(L)
    p, q, x = qvar(L.sort(), "p"), qvar(L.sort(), "q"), qvar(e.sort(), "x")
    one = lambda y: snoc(L, N, y)
    add_ax(d, d(N) == N)
    add_ax(d, forall([p, x], d(snoc(L, p, x)) == c(one(x), d(p)), d(snoc(L, p, x))))
    # rev(concat(p,q)) = concat(rev q, rev p)
    add_ax(d, forall([p, q], d(c(p, q)) == c(d(q), d(p)), d(c(p, q))), "lemma", f"lemma:{n} concat", lambda: [
        ([], d(c(p, N)) == c(d(N), d(p))),
        ([d(c(p, q)) == c(d(q), d(p))], d(c(p, snoc(L, q, x))) == c(d(snoc(L, q, x)), d(p)))])
    add_ax(d, forall([p], d(d(p)) == p, d(d(p))), "lemma", f"lemma:{n} involution", lambda: [
        ([], d(d(N)) == N), ([d(d(p)) == p], d(d(snoc(L, p, x))) == snoc(L, p, x))])
    add_ax(d, forall([p], (d(p) == N) == (p == N), d(p)), "lemma", f"lemma:{n} nil", lambda: [
        ([], d(N) == N), ([], d(snoc(L, p, x)) != N)])
    # [y] + q == rev(p) makes y the last element of p
    y = qvar(e.sort())
    first = lambda r: z3.Implies(d(r) == c(one(y), q), z3.And(r != N, T.last(L, r) == y))
    h1 = d(c(one(y), q)) == snoc(L, d(q), y)
    h2 = d(d(snoc(L, p, x))) == snoc(L, p, x)
    add_ax(d, forall([p, q, y], first(p), (d(p), c(one(y), q))), "lemma", f"lemma:{n} first", lambda: [
        ([], first(N)), ([], h1), ([], h2), ([h1, h2], first(snoc(L, p, x)))])
    m = f_mem(e)
    lem_mem_concat(e)
    add_ax(d, forall([p, y], m(y, d(p)) == m(y, p), m(y, d(p))), "lemma", f"lemma:{n} mem", lambda: [
        ([], m(y, d(N)) == m(y, N)),
        ([m(y, d(p)) == m(y, p)], m(y, d(snoc(L, p, x))) == m(y, snoc(L, p, x)))])
    return d


def f_update(e):
    L = _lst(e)
    n = f"update<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), z3.IntSort(), e.sort(), L.sort())
    ln, nt = f_len(e), f_nth(e)
    p, x, i, v, j = (qvar(L.sort(), "p"), qvar(e.sort(), "x"), qvar(z3.IntSort(), "i"), qvar(e.sort(), "v"), qvar(z3.IntSort(), "j"))
    add_ax(d, forall([i, v], d(nil(L), i, v) == nil(L), d(nil(L), i, v)))
    add_ax(d, forall([p, x, i, v], d(snoc(L, p, x), i, v) == z3.If(i == ln(p), snoc(L, p, v), snoc(L, d(p, i, v), x)),
                     d(snoc(L, p, x), i, v)))
    add_ax(d, forall([p, i, v], ln(d(p, i, v)) == ln(p), d(p, i, v)), "lemma", f"lemma:{n} len", lambda: [
        ([], ln(d(nil(L), i, v)) == ln(nil(L))),
        ([ln(d(p, i, v)) == ln(p)], ln(d(snoc(L, p, x), i, v)) == ln(snoc(L, p, x)))])
    goal = lambda q: z3.Implies(z3.And(i >= 0, i < ln(q), j >= 0, j < ln(q)), nt(d(q, i, v), j) == z3.If(i == j, v, nt(q, j)))
    add_ax(d, forall([p, i, v, j], goal(p), nt(d(p, i, v), j)), "lemma", f"lemma:{n} nth", lambda: [
        ([], goal(nil(L))), ([goal(p), ln(d(p, i, v)) == ln(p)], goal(snoc(L, p, x)))])
    return d


def f_take(e):
    L = _lst(e)
    n = f"take<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), z3.IntSort(), L.sort())
    ln = f_len(e)
    p, x, i = qvar(L.sort(), "p"), qvar(e.sort(), "x"), qvar(z3.IntSort(), "i")
    add_ax(d, forall([i], d(nil(L), i) == nil(L), d(nil(L), i)))
    add_ax(d, forall([p, x, i], d(snoc(L, p, x), i) == z3.If(i >= ln(p) + 1, snoc(L, p, x), d(p, i)), d(snoc(L, p, x), i)))
    g = lambda q: z3.Implies(i >= ln(q), d(q, i) == q)
    add_ax(d, forall([p, i], g(p), d(p, i)), "lemma", f"lemma:{n} all", lambda: [
        ([], g(nil(L))), ([], g(snoc(L, p, x)))])
    return d


def f_drop(e):
    L = _lst(e)
    n = f"drop<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), z3.IntSort(), L.sort())
    ln = f_len(e)
    p, x, i = qvar(L.sort(), "p"), qvar(e.sort(), "x"), qvar(z3.IntSort(), "i")
    add_ax(d, forall([i], d(nil(L), i) == nil(L), d(nil(L), i)))
    add_ax(d, forall([p, x, i], d(snoc(L, p, x), i) == z3.If(i >= ln(p) + 1, nil(L), snoc(L, d(p, i), x)), d(snoc(L, p, x), i)))
    g = lambda q: z3.Implies(i <= 0, d(q, i) == q)
    add_ax(d, forall([p, i], g(p), d(p, i)), "lemma", f"lemma:{n} all", lambda: [
        ([], g(nil(L))), ([g(p), ln(p) >= 0], g(snoc(L, p, x)))])
    return d


def f_setof(e):
    """set(list)"""
    L = _lst(e)
    S = SetT(e)
    n = f"setof<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, L.sort(), S.sort())
    m = f_mem(e)
    p, x, y = qvar(L.sort(), "p"), qvar(e.sort(), "x"), qvar(e.sort(), "y")
    add_ax(d, d(nil(L)) == z3.K(e.sort(), z3.BoolVal(False)))
    add_ax(d, forall([p, x], d(snoc(L, p, x)) == z3.Store(d(p), x, z3.BoolVal(True)), d(snoc(L, p, x))))
    add_ax(d, forall([p, y], z3.Select(d(p), y) == m(y, p), z3.Select(d(p), y)), "lemma", f"lemma:{n} mem", lambda: [
        ([], z3.Select(d(nil(L)), y) == m(y, nil(L))),
        ([z3.Select(d(p), y) == m(y, p)], z3.Select(d(snoc(L, p, x)), y) == m(y, snoc(L, p, x)))])
    c = f_concat(e)
    q = qvar(L.sort(), "q")
    un = lambda a, b: z3.SetUnion(a, b)
    return d


def f_setlist(e):
    """some enumeration of a set (iteration order of a set is arbitrary but fixed per set value)"""
    L = _lst(e)
    S = SetT(e)
    n = f"setlist<{e.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, S.sort(), L.sort())
    m = f_mem(e)
    s, y = qvar(S.sort(), "s"), qvar(e.sort(), "y")
    add_ax(d, forall([s, y], m(y, d(s)) == z3.Select(s, y), m(y, d(s))), "trusted", "python:set iteration yields exactly the elements")
    trust("python:set iteration yields exactly the elements", "iterating a set yields exactly its elements, in an arbitrary order that depends on the set value only")
    return d


def f_chars():
    """the characters of a string"""
    L = _lst(STR)
    if "str_chars" in _decls:
        return _decls["str_chars"]
    d = decl("str_chars", STR.sort(), L.sort())
    m = f_mem(STR)
    s, y = qvar(STR.sort(), "s"), qvar(STR.sort(), "y")
    lab = "python:iterating a string yields its characters"
    add_ax(d, forall([s, y], m(y, d(s)) == z3.And(z3.Length(y) == 1, z3.Contains(s, y)), m(y, d(s))), "trusted", lab)
    trust(lab, "a string of length one is a character of a string iff the string contains it")
    return d


def char_facts(terms):
    """characters of strings that have a known prefix, suffix or part"""
    if "str_chars" not in _decls or "str_chars" not in decls_in(terms):
        return []
    atoms, chars, seen, stack = [], set(), set(), list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
        k = t.decl().kind()
        if k in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX) and z3.is_string_value(t.arg(0)):
            atoms.append((t, t.arg(1), t.arg(0)))
        elif k == z3.Z3_OP_SEQ_CONTAINS and z3.is_string_value(t.arg(1)):
            atoms.append((t, t.arg(0), t.arg(1)))
        elif k == z3.Z3_OP_EQ and z3.is_string(t.arg(0)):
            for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if z3.is_string_value(b):
                    atoms.append((t, a, b))
        elif t.decl().name() == "str_chars":
            chars.add(t.arg(0).get_id())
    m, d = f_mem(STR), f_chars()
    out = []
    for t, x, lit in atoms:
        v = lit.py_value()
        if x.get_id() in chars and isinstance(v, str) and v.isascii() and len(v) <= 40:
            out.extend(z3.Implies(t, m(z3.StringVal(c), d(x))) for c in sorted(set(v)))
    return out


def f_put(dt):
    n = f"put<{dt.k.key},{dt.v.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, dt.sort(), dt.k.sort(), dt.v.sort(), dt.sort())
    K = ListT(dt.k)
    a, k, v = qvar(dt.sort(), "d"), qvar(dt.k.sort(), "k"), qvar(dt.v.sort(), "v")
    t = d(a, k, v)
    add_ax(d, forall([a, k, v], z3.And(
        dt.order(t) == z3.If(dt.has(a, k), dt.order(a), snoc(K, dt.order(a), k)),
        dt.arr(t) == z3.Store(dt.arr(a), k, dt.present(v))), t))
    return d


def f_merge(dt):
    """{**a, **b}"""
    n = f"merge<{dt.k.key},{dt.v.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, dt.sort(), dt.sort(), dt.sort())
    pt = f_put(dt)
    a, b, k, v = qvar(dt.sort(), "a"), qvar(dt.sort(), "b"), qvar(dt.k.sort(), "k"), qvar(dt.v.sort(), "v")
    lab = f"python:dict-merge<{dt.k.key},{dt.v.key}>"
    add_ax(d, forall([a, b, k, v], d(a, pt(b, k, v)) == pt(d(a, b), k, v), d(a, pt(b, k, v))), "trusted", lab)
    add_ax(d, forall([a], d(a, dt.empty()) == a, d(a, dt.empty())), "trusted", lab)
    add_ax(d, forall([a], d(dt.empty(), a) == a, d(dt.empty(), a)), "trusted", lab)
    add_ax(d, forall([a, b, k], z3.And(
        dt.has(d(a, b), k) == z3.Or(dt.has(a, k), dt.has(b, k)),
        z3.Implies(dt.has(b, k), dt.get(d(a, b), k) == dt.get(b, k)),
        z3.Implies(z3.And(dt.has(a, k), z3.Not(dt.has(b, k))), dt.get(d(a, b), k) == dt.get(a, k))),
        z3.Select(dt.arr(d(a, b)), k)), "trusted", lab)
    trust(lab, "{**a, **b} is a updated with b's items in b's order")
    return d


def f_del(dt):
    n = f"del<{dt.k.key},{dt.v.key}>"
    if n in _decls:
        return _decls[n]
    d = decl(n, dt.sort(), dt.k.sort(), dt.sort())
    a, k = qvar(dt.sort(), "a"), qvar(dt.k.sort(), "k")
    t = d(a, k)
    add_ax(d, forall([a, k], dt.arr(t) == z3.Store(dt.arr(a), k, dt.absent()), t))
    return d


# --------------------------------------------------------------------------
# folds


class Fold:
    def __init__(self, name, dcl, caps, acc_ty, elem_ty, p, x, acc, init_t, step_t, kind, parts):
        self.__dict__.update(locals())


FOLDS = {}  # key -> Fold
FOLD_BY_NAME = {}


def _free_consts(t, seen=None):
    out = []
    seen = set() if seen is None else seen

    def go(u):
        i = u.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_quantifier(u):
            go(u.body())
            return
        if z3.is_app(u):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(u)
            for c in u.children():
                go(c)

    go(t)
    return out


def const_ids(t):
    return {c.get_id() for c in _free_consts(t)}


def has_var(t, cache):
    i = t.get_id()
    if i in cache:
        return cache[i]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = True
    else:
        r = any(has_var(c, cache) for c in t.children())
    cache[i] = r
    return r


def abstract_caps(terms, bound):
    """Replace maximal subterms that mention free constants but no bound one."""
    bound_ids = {b.get_id() for b in bound}
    bcache = {}
    fcache = {}

    def mentions_bound(t):
        i = t.get_id()
        if i in bcache:
            return bcache[i]
        r = i in bound_ids or z3.is_var(t) or z3.is_quantifier(t) or any(mentions_bound(c) for c in t.children())
        bcache[i] = r
        return r

    def mentions_free(t):
        i = t.get_id()
        if i in fcache:
            return fcache[i]
        if z3.is_app(t) and t.num_args() == 0:
            r = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and i not in bound_ids
        else:
            r = any(mentions_free(c) for c in t.children())
        fcache[i] = r
        return r

    caps = []
    ids = {}

    def collect(t, seen):
        i = t.get_id()
        if i in seen:
            return
        seen.add(i)
        if not mentions_bound(t):
            if mentions_free(t) and i not in ids:
                ids[i] = len(caps)
                caps.append(t)
            return
        for c in t.children():
            collect(c, seen)

    seen = set()
    for t in terms:
        collect(t, seen)
    return caps


def mk_fold(acc_ty, elem_ty, p, x, acc, init_t, step_t, kind="fold", parts=None, list_is_set=False):
    """Returns (Fold, caps).  The value of the fold over xs is fold.dcl(*caps, xs)."""
    parts = parts or {}
    terms = [init_t, step_t] + [v for v in parts.values() if v is not None]
    caps = abstract_caps(terms, [p, x, acc])
    cvars = [z3.Const(f"cap{i}:{c.sort()}", c.sort()) for i, c in enumerate(caps)]
    L = ListT(elem_ty)
    P = z3.Const(f"fp:{L.sort()}", L.sort())
    X = z3.Const(f"fx:{elem_ty.key}", elem_ty.sort())
    A = z3.Const(f"fa:{acc_ty.key}", acc_ty.sort())
    sub = list(zip(caps, cvars)) + [(p, P), (x, X), (acc, A)]
    ni = z3.substitute(init_t, *sub)
    ns = z3.substitute(step_t, *sub)
    ns = z3.simplify(ns) if False else ns
    nparts = {k: (z3.substitute(v, *sub) if v is not None else None) for k, v in parts.items()}
    key = (acc_ty.key, elem_ty.key, ni.get_id(), ns.get_id(), tuple(c.sort().get_id() if hasattr(c.sort(), "get_id") else str(c.sort()) for c in caps))
    f = FOLDS.get(key)
    if f is None:
        name = f"fold{len(FOLDS)}:{kind}"
        d = decl(name, *[c.sort() for c in caps], L.sort(), acc_ty.sort())
        f = Fold(name, d, cvars, acc_ty, elem_ty, P, X, A, ni, ns, kind, nparts)
        FOLDS[key] = f
        FOLD_BY_NAME[name] = f
        _keep.append((ni, ns, caps))
        t0 = d(*cvars, nil(L))
        add_ax(d, forall(cvars, t0 == ni, t0))
        ts = d(*cvars, snoc(L, P, X))
        rec = d(*cvars, P)
        add_ax(d, forall(cvars + [P, X], ts == z3.substitute(ns, (A, rec)), ts))
        _fold_lemmas(f, L)
    return f, caps


def _is_built(t):
    """a conditional between lists of which one is built explicitly"""
    if not z3.is_app_of(t, z3.Z3_OP_ITE):
        return False
    return any(_is_built(c) or z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR for c in (t.arg(1), t.arg(2)))


def lift_lists(t, memo):
    """folds over conditional lists: the conditional moved outwards and elements appended in it folded"""
    i = t.get_id()
    if i in memo:
        return memo[i][0]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [lift_lists(c, memo) for c in t.children()]
        f = FOLD_BY_NAME.get(t.decl().name())
        if f is not None and t.decl().eq(f.dcl) and _is_built(ch[-1]):
            r = _push(f, ch[:-1], ch[-1], memo)
        elif any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = z3.simplify(z3.If(*ch)) if z3.is_app_of(t, z3.Z3_OP_ITE) else t.decl()(*ch) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT) else z3.And(ch) if z3.is_and(t) else z3.Or(ch) if z3.is_or(t) else z3.Distinct(*ch)
    memo[i] = (r, t)
    return r


def _push(f, caps, l, memo):
    if z3.is_app_of(l, z3.Z3_OP_ITE):
        a, b = _push(f, caps, l.arg(1), memo), _push(f, caps, l.arg(2), memo)
        return a if a.eq(b) else z3.If(l.arg(0), a, b)
    C = ListT(f.elem_ty).sort()
    if z3.is_app(l) and l.decl().eq(C.constructor(1)):
        rec = _push(f, caps, l.arg(0), memo)
        return z3.simplify(z3.substitute(f.step_t, *zip(f.caps, caps), (f.p, l.arg(0)), (f.x, l.arg(1)), (f.acc, rec)))
    if z3.is_app(l) and l.decl().eq(C.constructor(0)):
        return z3.substitute(f.init_t, *zip(f.caps, caps))
    return f.dcl(*caps, l)


def _fold_lemmas(f, L):
    """element-wise characterisations, each proved by induction before use"""
    d, cv, P, X = f.dcl, f.caps, f.p, f.x
    m = f_mem(f.elem_ty)
    N = nil(L)
    pid = {P.get_id()}
    cond = f.parts.get("cond")
    elt = f.parts.get("elt")

    def uses_p(t):
        return t is not None and P.get_id() in const_ids(t)

    if f.kind in ("all", "any"):
        body = f.parts["elt"]
        if cond is None:
            cond = z3.BoolVal(True)
        if uses_p(body) or uses_p(cond):
            return
        pos = z3.And(cond, z3.Not(body)) if f.kind == "all" else z3.And(cond, body)
        # value==neutral <-> no element satisfies pos
        neutral = z3.BoolVal(f.kind == "all")
        y = z3.Const(f"fy:{f.elem_ty.key}", f.elem_ty.sort())
        posy = z3.substitute(pos, (X, y))
        t = d(*cv, P)
        lab = f"lemma:{f.name} element"
        add_ax(d, forall(cv + [P, y], z3.Implies(z3.And(m(y, P), posy), t != neutral), (m(y, P), t)), "lemma", lab, lambda: [
            ([m(y, N), posy], z3.BoolVal(False)),
            ([z3.Implies(z3.And(m(y, P), posy), t != neutral), m(y, snoc(L, P, X)), posy], d(*cv, snoc(L, P, X)) != neutral)])
        w = decl(f"wit:{f.name}", *[c.sort() for c in cv], L.sort(), f.elem_ty.sort())
        W = w(*cv, P)
        posw = z3.substitute(pos, (X, W))
        lab2 = f"lemma:{f.name} witness"
        # skolemised existence; proof: by induction some element satisfies pos
        y2 = qvar(f.elem_ty.sort(), "y")

        def pr():
            ex = lambda q, wt: z3.And(m(wt, q), z3.substitute(pos, (X, wt)))
            S = snoc(L, P, X)
            # IH gives witness y for P if d(P) != neutral
            return [
                ([], d(*cv, N) == neutral),
                ([z3.Implies(t != neutral, ex(P, y)), d(*cv, S) != neutral], z3.Or(ex(S, y), ex(S, X))),
            ]

        add_ax(d, forall(cv + [P], z3.Implies(t != neutral, z3.And(m(W, P), posw)), t), "lemma", lab2, pr)
        return
    if f.kind in ("listcomp", "setcomp", "dictcomp") and elt is not None:
        cond = z3.BoolVal(True) if cond is None else cond
        if uses_p(elt) or uses_p(cond):
            return
        y = z3.Const(f"fy:{f.elem_ty.key}", f.elem_ty.sort())
        t = d(*cv, P)
        if f.kind == "listcomp":
            rm = f_mem(f.acc_ty.elem)
            inn = lambda e, l: rm(e, l)
        elif f.kind == "setcomp":
            inn = lambda e, l: z3.Select(l, e)
        else:
            inn = lambda e, l: f.acc_ty.has(l, e)
        cy, ey = z3.substitute(cond, (X, y)), z3.substitute(elt, (X, y))
        st = lambda q: z3.Implies(z3.And(m(y, q), cy), inn(ey, d(*cv, q)))
        lab = f"lemma:{f.name} member"
        add_ax(d, forall(cv + [P, y], st(P), (m(y, P), t)), "lemma", lab, lambda: [
            ([], st(N)), ([st(P)], st(snoc(L, P, X)))], need=(m,))
        w = decl(f"wit:{f.name}", *[c.sort() for c in cv], L.sort(), elt.sort(), f.elem_ty.sort())
        e = z3.Const(f"fe:{elt.sort()}", elt.sort())
        W = w(*cv, P, e)
        cw, ew = z3.substitute(cond, (X, W)), z3.substitute(elt, (X, W))
        trig = inn(e, t) if f.kind != "dictcomp" else z3.Select(f.acc_ty.arr(t), e)
        lab2 = f"lemma:{f.name} origin"

        dval = f.parts.get("val")
        if f.kind == "dictcomp" and dval is not None and not uses_p(dval):
            vw = lambda q, v: [f.acc_ty.get(d(*cv, q), e) == z3.substitute(dval, (X, v))]
        else:
            vw = lambda q, v: []

        def pr2():
            S = snoc(L, P, X)
            ex = lambda q, v: z3.And(m(v, q), z3.substitute(cond, (X, v)), e == z3.substitute(elt, (X, v)), *vw(q, v))
            return [
                ([inn(e, d(*cv, N))], z3.BoolVal(False)),
                ([z3.Implies(inn(e, t), ex(P, y)), inn(e, d(*cv, S))], z3.Or(ex(S, y), ex(S, X))),
            ]

        add_ax(d, forall(cv + [P, e], z3.Implies(inn(e, t), z3.And(m(W, P), cw, e == ew, *vw(P, W))), trig), "lemma", lab2, pr2, need=(rm,) if f.kind == "listcomp" else ())
        if f.kind == "listcomp" and z3.is_true(cond):
            ln1, ln2 = f_len(f.acc_ty.elem), f_len(f.elem_ty)
            add_ax(d, forall(cv + [P], ln1(t) == ln2(P), ln1(t)), "lemma", f"lemma:{f.name} length", lambda: [
                ([], ln1(d(*cv, N)) == ln2(N)), ([ln1(t) == ln2(P)], ln1(d(*cv, snoc(L, P, X))) == ln2(snoc(L, P, X)))], need=(ln1,))
            nt1, nt2 = f_nth(f.acc_ty.elem), f_nth(f.elem_ty)
            i = z3.Const("fi:int", z3.IntSort())
            g = lambda q: z3.Implies(z3.And(i >= 0, i < ln2(q)), nt1(d(*cv, q), i) == z3.substitute(elt, (X, nt2(q, i))))
            add_ax(d, forall(cv + [P, i], g(P), nt1(t, i)), "lemma", f"lemma:{f.name} nth", lambda: [
                ([], g(N)), ([g(P), ln1(t) == ln2(P)], g(snoc(L, P, X)))], need=(nt1,))
        if f.kind == "listcomp":
            # filter/map distributes over concatenation
            c1, c2 = f_concat(f.elem_ty), f_concat(f.acc_ty.elem)
            Q = z3.Const(f"fq:{L.sort()}", L.sort())
            g2 = lambda q: d(*cv, c1(P, q)) == c2(d(*cv, P), d(*cv, q))
            if z3.is_app(f.init_t) and f.init_t.decl().name().startswith("nil"):
                add_ax(d, forall(cv + [P, Q], g2(Q), d(*cv, c1(P, Q))), "lemma", f"lemma:{f.name} concat", lambda: [
                    ([], g2(N)), ([g2(Q)], g2(snoc(L, Q, X)))], need=(c1,))
                r1, r2 = f_rev(f.elem_ty), f_rev(f.acc_ty.elem)
                g3 = lambda q: d(*cv, r1(q)) == r2(d(*cv, q))
                add_ax(d, forall(cv + [P], g3(P), d(*cv, r1(P))), "lemma", f"lemma:{f.name} rev", lambda: [
                    ([], g3(N)), ([g3(P)], g3(snoc(L, P, X)))], need=(r1,))


# --------------------------------------------------------------------------


def decls_in(terms):
    seen = set()
    names = set()
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            for k in range(t.num_patterns()):
                stack.append(t.pattern(k))
            continue
        if z3.is_app(t):
            names.add(t.decl().name())
            stack.extend(t.children())
    return names


_ax_decls = {}


def axioms_for(terms, exclude=(), definitions_only=False):
    """Closure of the axioms of every operation mentioned."""
    todo = list(decls_in(terms))
    seen = set()
    out = []
    labels = []
    wait = []
    while todo or wait:
        if not todo:
            ready = [w for w in wait if w[2][3] <= seen]
            if not ready:
                break
            wait = [w for w in wait if not w[2][3] <= seen]
        else:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            ready = []
            for k, ax in enumerate(AX.get(n, ())):
                if ax[2] in exclude or (definitions_only and ax[1] != "def"):
                    continue
                (ready if ax[3] <= seen else wait).append((n, k, ax))
        for n, k, (fm, kind, label, _) in ready:
            out.append(fm)
            labels.append((kind, label))
            key = (n, k)
            if key not in _ax_decls:
                _ax_decls[key] = decls_in([fm])
            todo.extend(m for m in _ax_decls[key] if m not in seen)
    return out, labels
