"""Running contracts on the real code: generators, comparison, witnesses.

Used for (1) replaying a failed obligation against the real function and (2) a
bounded cross-check of specification and engine; it never counts as a proof."""
import collections
import copy
import dataclasses
import enum
import inspect
import io
import os
import pathlib
import random
import re
import sys
import time
import traceback
from .ty import *
from .values import Con, V

WORDS = ["", "a", "b", "aa", "x1", "edulint", "all", "foo", "bar", "A", "é", " ", "a,b", "-", "0"]


class Skip(Exception):
    pass


def build(ty, rng, pools, path="", depth=0):
    p = pools.get(path)
    if p is None and "." in path:
        p = pools.get("." + path.rsplit(".", 1)[1])
    if p is None:
        p = pools.get(ty.key)
    if p is not None:
        return p(rng) if callable(p) else copy.deepcopy(rng.choice(list(p)))
    if ty == INT:
        return rng.choice([0, 1, 2, 3, -1, 5, 10, 32])
    if ty == BOOL:
        return rng.random() < 0.5
    if ty == STR:
        return rng.choice(WORDS)
    if ty == NONE:
        return None
    if ty == FLOAT:
        return rng.choice([0.0, 1.0, 1.5, -2.0])
    if isinstance(ty, VTupT):
        return tuple(build(ty.elem, rng, pools, path + "[]", depth + 1) for _ in range(_n(rng, depth)))
    if isinstance(ty, ListT):
        return [build(ty.elem, rng, pools, path + "[]", depth + 1) for _ in range(_n(rng, depth))]
    if isinstance(ty, SetT):
        return {build(ty.elem, rng, pools, path + "[]", depth + 1) for _ in range(_n(rng, depth))}
    if isinstance(ty, DictT):
        d = {build(ty.k, rng, pools, path + ".key", depth + 1): build(ty.v, rng, pools, path + "[]", depth + 1) for _ in range(_n(rng, depth))}
        return d if ty.pytype is dict else ty.pytype(d)
    if isinstance(ty, TupT):
        return tuple(build(e, rng, pools, f"{path}.{i}", depth + 1) for i, e in enumerate(ty.elems))
    if isinstance(ty, EnumT):
        return rng.choice(ty.members)
    if isinstance(ty, UnionT):
        alts = [a for a in ty.alts]
        return build(rng.choice(alts), rng, pools, path, depth)
    if isinstance(ty, DynT):
        return build_dyn(rng, 0)
    if isinstance(ty, RecT):
        vals = {f: build(t, rng, pools, f"{ty.name}.{f}", depth + 1) for f, t in ty.fields.items()}
        return make_rec(ty, vals)
    raise Skip(f"no generator for {ty}")


def make_rec(ty, vals):
    o = object.__new__(getattr(ty.cls, "__origin__", ty.cls))
    for f, v in vals.items():
        object.__setattr__(o, f, v)
    for f, v in ty.con_fields.items():
        object.__setattr__(o, f, v)
    return o


def _n(rng, depth):
    return rng.choice([0, 1, 1, 2, 2, 3, 4] if depth < 2 else [0, 1, 1, 2])


def build_dyn(rng, depth):
    k = rng.randrange(9 if depth < 2 else 5)
    import datetime
    if k == 0:
        return rng.random() < .5
    if k == 1:
        return rng.choice([0, 1, -3, 7])
    if k == 2:
        return rng.choice([0.5, 2.0])
    if k in (3, 4):
        return rng.choice(WORDS)
    if k == 5:
        return datetime.date(2024, 1, 2)
    if k in (6, 7):
        return [build_dyn(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {rng.choice(WORDS): build_dyn(rng, depth + 1) for _ in range(rng.randrange(3))}


def norm(x, depth=0):
    """structure of a value, for comparison and for the replay file"""
    if depth > 12:
        return "..."
    if x is None or isinstance(x, (bool, int, str, float, enum.Enum, bytes)):
        return x
    if type(x).__module__.startswith("astroid.") and hasattr(x, "as_string"):
        return x.as_string()
    if isinstance(x, (list, collections.deque)):
        return ["list"] + [norm(y, depth + 1) for y in x]
    if isinstance(x, tuple):
        return ("tuple",) + tuple(norm(y, depth + 1) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((norm(y, depth + 1) for y in x), key=repr))
    if isinstance(x, dict):
        return ("dict", sorted(((norm(k, depth + 1), norm(v, depth + 1)) for k, v in x.items()), key=lambda kv: repr(kv[0])))
    if isinstance(x, pathlib.PurePath):
        return ("path", str(x))
    if isinstance(x, (re.Pattern,)):
        return ("re", x.pattern)
    r = rec_of(type(x))
    if r is not None:
        return (r.name, [(f, norm(getattr(x, f, "<unset>"), depth + 1)) for f in r.fields])
    if isinstance(x, BaseException):
        return ("exception", type(x).__name__)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return (type(x).__name__, [(f.name, norm(getattr(x, f.name), depth + 1)) for f in dataclasses.fields(x)])
    if hasattr(x, "__next__"):
        return ["list"] + [norm(y, depth + 1) for y in x]
    if isinstance(x, type) or callable(x):
        return ("callable", getattr(x, "__qualname__", None) or re.sub(" at 0x[0-9a-f]+", "", repr(x)))
    return repr(x)


def same_value(a, b):
    na, nb = norm(a), norm(b)
    return na == nb and type(na) is type(nb) or _loose(na, nb)


def _loose(a, b):
    return a == b and isinstance(a, (int, float, str)) and isinstance(b, (int, float, str))


class Silence:
    def __enter__(self):
        from loguru import logger
        logger.disable("edulint")
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        from loguru import logger
        logger.enable("edulint")


class Alarmed(BaseException):
    pass


def _alarm(*a):
    raise Alarmed()


def one(c, kw):
    """None if the real function meets the contract on these arguments, else a description"""
    want = lambda f, env: f(**{n: env[n] for n in inspect.signature(f).parameters})
    env = {n: v for n, v in kw.items()}
    if c.requires is not None and not want(c.requires, copy.deepcopy(env)):
        return "skip"
    before = norm_all(env)
    orig = copy.deepcopy(env)
    call = {n: v for n, v in kw.items() if n in c.order or n in c.ghost}
    try:
        got = c.run(c.fn, call) if c.run is not None else c.fn(**call)
        if inspect.isgenerator(got):
            got = list(got)
        exc = None
    except Exception as e:
        got, exc = None, e
    first = next((k for k in c.raises if exc is not None and isinstance(exc, k)), None)
    for cls, when in c.raises.items():
        if when is not None:
            w = want(when, copy.deepcopy(orig))
            if w and not isinstance(exc, cls):
                return f"expected {cls.__name__}, got {desc(got, exc)}"
            if not w and first is cls:
                return f"unexpected {cls.__name__}: {exc}"
    if exc is not None:
        if any(isinstance(exc, k) for k in c.raises):
            return None
        for k, when in c.may_raise.items():
            if isinstance(exc, k) and want(when, copy.deepcopy(orig)):
                return None
        return f"unexpected exception {type(exc).__name__}: {exc}"
    if c.spec is not None:
        exp = want(c.spec, copy.deepcopy(orig))
        if not same_value(got, exp):
            return f"result {short(norm(got))}, specified {short(norm(exp))}"
    for lab, e in c.ensures:
        env2 = dict(copy.deepcopy(orig))
        env2["result"] = got
        for m in c.modifies:
            b = m.partition(".")[0]
            env2["new_" + b] = kw[b]
        if not want(e, env2):
            return f"postcondition '{lab}' fails: result {short(norm(got))}"
    for n, v in kw.items():
        if n not in c.order and n not in c.ghost:
            continue
        fields = {m: f for m, f in c.modifies.items() if m.partition(".")[0] == n}
        if not fields:
            if isinstance(c.params.get(n), (Con,)):
                continue
            if norm(v) != before[n]:
                return f"argument {n} was modified: {short(norm(v))} (was {short(before[n])})"
        else:
            for m, f in fields.items():
                if f is None:
                    continue
                _, _, fld = m.partition(".")
                cur = getattr(v, fld) if fld else v
                exp = want(f, copy.deepcopy(orig))
                if not same_value(cur, exp):
                    return f"{m} afterwards is {short(norm(cur))}, specified {short(norm(exp))}"
    return None


def norm_all(env):
    return {n: norm(v) for n, v in env.items()}


def desc(got, exc):
    return f"{type(exc).__name__}: {exc}" if exc is not None else short(norm(got))


def short(x, n=700):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def gen_args(c, rng):
    if c.gen is not None:
        return c.gen(rng)
    env = {}
    pools = c.pools
    for n, ty in c.params.items():
        if isinstance(ty, Con):
            env[n] = ty.o
        elif hasattr(ty, "rec") and hasattr(ty.rec, "cls"):
            env[n] = make_rec(ty.rec, {})
        elif isinstance(ty, V):
            raise Skip("symbolic parameter")
        else:
            env[n] = build(ty, rng, pools, n)
    return env


def search(c, seed, limit, seconds):
    """(cases tried, violation or None, skipped)"""
    if c.fn is None:
        return 0, None, "target not found"
    rng = random.Random(f"{seed}:{c.short}")
    t0 = time.time()
    tried = 0
    k = 0
    import signal
    with Silence():
        while tried < limit and time.time() - t0 < seconds and k < limit * 20:
            k += 1
            try:
                kw = gen_args(c, rng)
            except Skip as e:
                return tried, None, str(e)
            shown = norm_all(kw)
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, 20)
            try:
                r = one(c, kw)
            except Alarmed:
                r = "no answer within 20 s"
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
            if r == "skip":
                continue
            tried += 1
            if r is not None:
                return tried, {"arguments": {n: short(v, 3000) for n, v in shown.items()}, "what": r, "case": k}, None
    return tried, None, None
