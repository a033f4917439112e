"""Rewrites the generated sections of DESIGN.md (status of properties, functions under contract, trusted facts)
from status.py, known_findings.json and the evidence of the last run."""
import glob
import json
import os
import re

from status import CLAIMED, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def section(text, name, body):
    return re.sub(f"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m.group(1) + body + m.group(2), text, flags=re.S)


def main():
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
    ev = {i: json.load(open(p)) for i in CLAIMED for p in [os.path.join(V, "evidence", i + ".json")] if os.path.exists(p)}
    rows = ["| id | title | level | decided by |\n|---|---|---|---|\n"]
    for i, (level, how) in CLAIMED.items():
        rows.append(f"| {i} | {props[i]['title']} | {level} | {how} |\n")
    for i, why in NOT_APPLICABLE.items():
        rows.append(f"| {i} | {props[i]['title']} | not applicable | {why} |\n")
    fns = ["| property | functions whose contract is verified (obligations discharged) | bounded stand-ins |\n|---|---|---|\n"]
    trusted = {}
    for i, e in sorted(ev.items()):
        c = e["coverage"]
        f = "; ".join(f"{x['function']} ({x['discharged']}/{x['obligations']}{', undecided' if x.get('undecided') else ''})" for x in c.get("functions_under_contract", []))
        b = "; ".join(f"{x['name']}: {x['bound']}" for x in c.get("bounded_stand_ins", []))
        fns.append(f"| {i} | {f or '-'} | {b or '-'} |\n")
        for t in c.get("trusted_base", []):
            trusted.setdefault(t, []).append(i)
    tr = [f"* {t} ({', '.join(ids) if len(ids) < 12 else 'all'})\n" for t, ids in sorted(trusted.items())]
    kf = [f"* {x.get('line') or 'KNOWN-FINDING: property=%s %s' % (x['property'], x['what'])}\n" for x in json.load(open(os.path.join(V, "known_findings.json")))["findings"]]
    p = os.path.join(V, "DESIGN.md")
    t = open(p).read()
    for n, b in (("status", "".join(rows)), ("functions", "".join(fns)), ("trusted", "".join(tr)), ("findings", "".join(kf))):
        t = section(t, n, b)
    open(p, "w").write(t)


main()
