"""Discharging obligations: z3 (in process), cvc5 as a second back end."""
import os
import subprocess
import tempfile
import time
import z3
from . import theory as TH

STATS = {"z3": 0, "cvc5": 0, "time": 0.0, "queries": 0}
RLIM = 800
_lemma_state = {}  # label -> bool


def _z3_check(asserts, timeout_ms, seed=0, mbqi=False):
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout_ms * 8))
    s.set("rlimit", int(timeout_ms * RLIM))
    s.set("auto_config", False)
    s.set("mbqi", mbqi)
    s.set("random_seed", seed)
    for a in asserts:
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        return z3.unknown, s
    global _last
    _last = s
    return r, s


def _cvc5_check(asserts, timeout_ms):
    s = z3.SimpleSolver()
    for a in asserts:
        s.add(a)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + txt
    txt = txt.replace("(_ is ", "(_ is ")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        path = f.name
    try:
        p = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={int(timeout_ms)}", path], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "error"
    except Exception:
        return "error"
    finally:
        os.unlink(path)


def prove(hyps, goal, timeout=4000, exclude=(), axterms=None, use_cvc5=True, tries=2, cvc5_first=False):
    """('proved', backend, labels) or ('unknown', reason, labels)"""
    t0 = time.time()
    STATS["queries"] += 1
    try:
        neg = z3.Not(goal)
        ground = list(hyps) + [neg]
        # quick: without axioms
        r, _ = _z3_check(ground, min(timeout, 400))
        if r == z3.unsat:
            STATS["z3"] += 1
            return "proved", "z3", []
        ground += TH.char_facts(ground)
        axs, labels = TH.axioms_for(ground, exclude)
        labels = sorted({l for l in labels if l[1]})
        if cvc5_first:
            use_cvc5 = False
            if _cvc5_check(axs + ground, 1500) == "unsat":
                STATS["cvc5"] += 1
                return "proved", "cvc5", labels
        for k in range(tries):
            r, s = _z3_check(axs + ground, timeout * (1 if k == 0 else 2), seed=k * 7)
            if r == z3.unsat:
                STATS["z3"] += 1
                return "proved", "z3", labels
            if r == z3.sat:
                return "refuted", str(s.model())[:2000], labels
            if "incomplete" in s.reason_unknown() and k == 0 and tries > 1:
                continue
        reason = s.reason_unknown()
        if use_cvc5:
            c = _cvc5_check(axs + ground, timeout)
            if c == "unsat":
                STATS["cvc5"] += 1
                return "proved", "cvc5", labels
        return "unknown", reason, labels
    finally:
        STATS["time"] += time.time() - t0


def feasible(self, hyps, extra, timeout):
        self.sync(hyps)
        self.s.set("timeout", int(timeout * 8))
        self.s.set("rlimit", int(timeout * RLIM))
        self.s.push()
        try:
            self.s.add(extra)
            try:
                return self.s.check() != z3.unsat
            except z3.Z3Exception:
                return True
        finally:
            self.s.pop()


def feasible(hyps, timeout=150):
    """False only if the ground hypotheses are contradictory"""
    r, _ = _z3_check(hyps, timeout)
    return r != z3.unsat


def sat_with_axioms(hyps, timeout=1500):
    axs, _ = TH.axioms_for(hyps)
    r, _ = _z3_check(axs + list(hyps), timeout)
    return r


def discharge_lemma(label):
    """prove an inductive lemma from definitions and earlier lemmas"""
    if label in _lemma_state:
        return _lemma_state[label]
    _lemma_state[label] = False
    order = list(TH.LEMMA_PROOFS)
    later = set(order[order.index(label):])
    ok = True
    for hyps, goal in TH.LEMMA_PROOFS[label]():
        st, _, used = prove(hyps, goal, timeout=5000, exclude=later)
        if st != "proved":
            ok = False
            break
        for kind, l in used:
            if kind == "lemma" and l != label and not discharge_lemma(l):
                ok = False
    _lemma_state[label] = ok
    return ok
