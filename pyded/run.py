"""Deciding a property: verify every function under contract for it, discharge
the lemmas used, replay failures on the real code, write the evidence file."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NFIF = "no-failing-input-found"


def load():
    import contracts
    errs = []
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        try:
            importlib.import_module("contracts." + m)
        except Exception as e:
            errs.append((m, f"{type(e).__name__}: {e}", traceback.format_exc()))
    return errs


def limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def task(arg):
    kind, idx, tier, seed = arg
    limit()
    try:
        return verify_contract(idx, tier, seed) if kind == "contract" else run_bounded(idx, tier, seed)
    except Exception as e:
        return {"kind": kind, "idx": idx, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()}


def verify_contract(idx, tier, seed):
    from . import job, solve, theory as TH, concrete
    c = job.REGISTRY[idx]
    t0 = time.time()
    out = {"kind": "contract", "idx": idx, "target": c.short, "name": c.name, "props": c.props, "obls": [], "unsup": None, "lemmas": [],
           "note": c.note, "trusted": []}
    if c.fn is None:
        out["unsup"] = f"target not found: {c.missing}"
        out["wall"] = time.time() - t0
        return out
    mult = {"quick": 1, "thorough": 25}[tier]
    j = job.Job(c).run()
    bad = [o for o in j.obls if o["status"] != "proved"]
    found = None
    if bad or j.unsup:
        # a failed proof is replayed on the real code
        found = concrete.search(c, seed, max(c.samples * mult, 20000), 25)
        if found[1] is None and (bad or "budget" in j.unsup) and j.wall < 200:
            # once more with a larger budget: an alarm must not be a matter of solver time
            solve.RLIM *= 3
            j2 = job.Job(c, deadline=time.time() + c.budget, shortcut=False).run()
            if j2.unsup is None or j.unsup is not None:
                j = j2
            bad = [o for o in j.obls if o["status"] != "proved"]
    out["obls"] = [{k: o[k] for k in ("name", "status", "by", "time", "note")} for o in j.obls]
    out["failed"] = bad[:6]
    out["unsup"] = j.unsup
    out["paths"] = getattr(j, "npaths", 0)
    out["loops"] = {f"{k[0]}:{k[1]}": v[1] for k, v in j.loops.items()}
    out["calls"] = sorted(j.called_contracts)
    lem = []
    if not bad and not j.unsup:
        used = {l for k, l in j.labels if k == "lemma"}
        for l in sorted(used):
            ok = solve.discharge_lemma(l)
            lem.append((l, ok))
        for l, ok in sorted(solve._lemma_state.items()):
            if (l, ok) not in lem:
                lem.append((l, ok))
    out["lemmas"] = lem
    used_tr = {l for k, l in j.labels if k == "trusted"}
    out["trusted"] = sorted({f"{l}: {TH.TRUSTED[l]}" if l in TH.TRUSTED else str(l) for l in used_tr | set(TH.TRUSTED)})
    if c.trusted:
        out["trusted"] += [f"{c.short}: {t}" for t in c.trusted]
    out["solver"] = dict(solve.STATS)
    if found is None:
        failing = any(not ok for _, ok in lem)
        found = concrete.search(c, seed, c.samples * mult if not failing else 20000, 6 * mult if not failing else 25)
    tried, viol, skip = found
    out["sampled"] = tried
    out["sample_skip"] = skip
    out["witness"] = viol
    out["wall"] = time.time() - t0
    return out


def run_bounded(idx, tier, seed):
    from . import job
    b = job.BOUNDED[idx]
    t0 = time.time()
    rng = random.Random(f"{seed}:{b.name}")
    cases, viol, (distinct, samples) = b.run(rng, tier)
    return {"kind": "bounded", "idx": idx, "name": b.name, "props": b.props, "cases": cases, "distinct": distinct, "samples": samples, "violation": viol, "bound": b.bound(tier), "wall": time.time() - t0}


def level(prop):
    sys.path.insert(0, os.path.join(HERE, "tools"))
    try:
        import status
        return status.CLAIMED.get(prop, ("proof",))[0]
    except ImportError:
        return "proof"


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["kind"] == "known"]


def matches(kn, text):
    return kn.get("match") and kn["match"] in text


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    errs = load()
    from . import job
    tasks = [("bounded", i, a.tier, seed) for i, b in enumerate(job.BOUNDED) if prop in b.props]
    cs = [i for i, c in enumerate(job.REGISTRY) if prop in c.props]
    cs.sort(key=lambda i: -job.REGISTRY[i].weight)
    tasks = [("contract", i, a.tier, seed) for i in cs] + tasks
    if not tasks and not errs:
        print(f"no contract for {prop}")
        return 2
    ctx = mp.get_context("fork")
    results = []
    with ctx.Pool(min(a.j, max(1, len(tasks))), maxtasksperchild=1) as pool:
        pend = [(t, pool.apply_async(task, (t,))) for t in tasks]
        hard = t0 + (700 if a.tier == "quick" else 3400)
        for t, p in pend:
            try:
                results.append(p.get(timeout=max(1, hard - time.time())))
            except mp.TimeoutError:
                results.append({"kind": t[0], "idx": t[1], "error": "time"})
        pool.terminate()
    return report(prop, a.tier, seed, results, errs, t0, a.v)


def report(prop, tier, seed, results, errs, t0, verbose):
    from . import job
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viols = []
    undecided = [f"contracts.{m} not loaded: {e}" for m, e, _ in errs]
    obls = disc = lem = 0
    by = {}
    trusted = set()
    funcs = []
    sampled = 0
    bounded = []
    solver_t = 0.0
    for r in results:
        if r.get("error"):
            nm = job.REGISTRY[r["idx"]].short if r["kind"] == "contract" else job.BOUNDED[r["idx"]].name
            undecided.append(f"{nm}: {r['error']}")
            if verbose:
                print(r.get("tb"))
            continue
        if r["kind"] == "bounded":
            bounded.append({"name": r["name"], "bound": r["bound"], "cases": r["cases"], "distinct_nontrivial": r["distinct"], "samples": r["samples"], "wall_s": round(r["wall"], 2)})
            if r["violation"]:
                viols.append((r["name"], {"bounded_check": r["name"], "bound": r["bound"], "violation": r["violation"]}, False))
            continue
        c = job.REGISTRY[r["idx"]]
        nob = len(r["obls"])
        nok = sum(o["status"] == "proved" for o in r["obls"])
        badlem = [l for l, ok in r["lemmas"] if not ok]
        obls += nob + len(r["lemmas"])
        disc += nok + sum(ok for _, ok in r["lemmas"])
        for o in r["obls"]:
            if o["by"]:
                by[o["by"]] = by.get(o["by"], 0) + 1
        lem += len(r["lemmas"])
        trusted |= set(r["trusted"])
        sampled += r.get("sampled", 0)
        solver_t += r.get("solver", {}).get("time", 0)
        funcs.append({"function": r["target"], "obligations": nob, "discharged": nok, "lemmas": len(r["lemmas"]), "paths": r.get("paths"),
                      "loop_invariants": r.get("loops"), "callee_contracts": r.get("calls"), "undecided": r["unsup"],
                      "cross_checked_inputs": r.get("sampled"), "wall_s": round(r["wall"], 1)})
        if r["unsup"]:
            undecided.append(f"{r['target']}: {r['unsup']}")
        w = r.get("witness")
        failed = [] if r["unsup"] else r.get("failed") or []
        info = {"function": c.target, "failed_obligations": [f for f in r.get("failed", [])] + [{"name": f"lemma {l}"} for l in badlem], "witness": w}
        if w is not None:
            viols.append((r["target"], info, False))
        elif failed or badlem:
            viols.append((r["target"], info, True))
    kn = known(prop)
    out = []
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    nviol = 0
    for name, info, nfif in viols:
        txt = json.dumps(info, default=str)
        if any(matches(k, txt) for k in kn):
            continue
        nviol += 1
        h = hashlib.sha1(name.encode()).hexdigest()[:8]
        path = os.path.join(rdir, f"{prop}-{h}.json")
        info.update({"property": prop, "seed": seed, "how_to_replay": f"cd /verif && VERIF_SEED={seed} ./check {prop} -v"})
        with open(path, "w") as f:
            json.dump(info, f, indent=1, default=str)
        ob = [o["name"] for o in info.get("failed_obligations", [])][:4]
        if ob:
            print(f"failed obligation in {name}: " + "; ".join(ob))
        w = info.get("witness") or info.get("violation")
        if w:
            print(f"failing input for {name}: {json.dumps(w, default=str)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}" + (f" {NFIF}" if nfif else ""))
    for u in undecided:
        print(f"undecided: {u}"[:600])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level(prop),
        "coverage": {
            "evaluations": sampled + sum(b["cases"] for b in bounded), "distinct_nontrivial": sum(b["distinct_nontrivial"] for b in bounded),
            "rule": "bounded stand-ins: inputs generated at random from the seed for each named check, a case is non-trivial when it exercises the property (see the check), distinct by its printed form",
            "samples": [x for b in bounded for x in b["samples"]][:6],
            "obligations": obls, "discharged": disc, "checker_cmd": f"./check {prop} --tier {tier}",
            "trusted_base": sorted(trusted) + BASE,
            "functions_under_contract": funcs, "discharged_by": by, "induction_lemmas": lem, "solver_s": round(solver_t, 1),
            "undecided": undecided,
            "bounded_stand_ins": bounded,
            "cross_check_inputs": sampled,
        },
        "assumptions": BASE + [f"bounded, not proved: {b['name']} ({b['bound']})" for b in bounded],
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {disc}/{obls} obligations discharged ({lem} induction lemmas) in {len(funcs)} functions; "
          f"{sampled} concrete cross-checks; {len(bounded)} bounded stand-ins; {nviol} violations; {time.time() - t0:.1f} s")
    return 1 if nviol else 0


BASE = [
    "pyded's semantics of the Python subset it accepts (statements, builtins, str/list/dict/set/tuple/dataclass operations)",
    "Python integers are mathematical integers; memory exhaustion, recursion limits and signals are not modelled",
    "annotated parameter types hold at the boundary of the verified functions (str, int, ... as declared by the contract)",
    "z3 4.16 and cvc5 1.1.2 are sound",
    "logging calls have no effect on results",
]

if __name__ == "__main__":
    sys.exit(main())
