#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: tools/properties.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from config import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = []
NA = {}


def P(id, title, statement, over, text, why, files, mech, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    OUT.append(d)
    if na:
        NA[id] = " ".join(na.split())


exec(open(os.path.join(HERE, "tools", "property_texts.py")).read())

ids = [p["id"] for p in OUT]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in OUT:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
for i in ids:
    if i not in PROPS:
        assert i in NA, f"{i}: neither a check nor a reason"
        continue
    assert i not in NA, i
    c = PROPS[i]
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 check.py {i} quick",
        thorough_cmd=f"python3 check.py {i} thorough",
        technique=c.get("technique", "deductive verification (Verus contracts on the functions extracted from /repo on every run), with bounded replay on the compiled code"),
        level=c["level"],
        level_note=c["explain"] + (" Assumes: " + "; ".join(c["assumptions"]) + "." if c.get("assumptions") else ""),
    ))
man = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="none: no hooks were needed", enable="nothing to enable", source_commits=[]),
    checks=checks,
    not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
    notes="See DESIGN.md. Every check re-extracts the functions from /repo, runs Verus on them, and rebuilds its replay driver from the same sources.",
)
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
extra = set(PROPS) - set(ids)
assert not extra, extra
print(len(ids), "properties,", len(checks), "checks,", len(NA), "not applicable")


# ---------------------------------------------------------------- DESIGN.md
import re

def section(text, name, body):
    a, b = f"<!-- {name}: begin -->", f"<!-- {name}: end -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + "\n" + text[j:]

rows = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(HERE, "known", "findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        rows.append(f"| {m[1]} | {m[2]} | {m[3]} |")
body = []
for p in OUT:
    i = p["id"]
    body.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in NA:
        body.append(f"*Not applicable*: {NA[i]}\n")
        continue
    c = PROPS[i]
    body.append(f"*Decided by* contracts ({c['level']}): {c['explain']}")
    for u, ls in c["units"].items():
        by = {}
        for l in ls:
            f, n = l.rsplit(".rs:", 1)
            by.setdefault(f + ".rs", []).append(n)
        body.append(f"- unit `{u}`: " + "; ".join(f"{f}: {', '.join(v)}" for f, v in by.items()))
    body.append(f"- replay (bounded): `harness/{c['driver']}`" if c.get("driver") else "- no replay")
    if c.get("assumptions"):
        body.append("- assumed: " + "; ".join(c["assumptions"]))
    body.append(f"- beyond the tests: {p['why_tests_cant']}\n")
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
caught = {}
cf = os.path.join(HERE, "known", "seeds.txt")
if os.path.exists(cf):
    for l in open(cf):
        k, _, v = l.strip().partition(" ")
        caught[k] = v
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '?')} |")
D = os.path.join(HERE, "DESIGN.md")
t = open(D).read()
t = section(t, "findings", "\n".join(rows))
t = section(t, "generated", "\n".join(body))
if len(seeds) > 2:
    t = section(t, "seeds", "\n".join(seeds))
open(D, "w").write(t)
