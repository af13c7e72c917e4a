#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, na.json and budgets.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from budgets import BUDGETS
V = os.path.dirname(H)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(H, "na.json")))
nap = {n["property"] for n in na}
checks = []
for p in props:
    i = p["id"]
    if i in nap:
        continue
    if i not in BUDGETS:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(
        property=i, quick_cmd="./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i,
        evidence_file="evidence/%s.json" % i,
        technique="deterministic simulation with fault injection (seeded schedule and fault search)",
        level="exploration",
        level_note="Real code from /repo, rebuilt with preemption points, runs under a seeded scheduler and simulated world: %s. Sampling: a clean batch is evidence, not proof. Trusts the simulated environment, the reference model in sim/scen and, below seth's own packages, the libraries it calls." % BUDGETS[i]["text"]))
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
               hooks=dict(guard="none: /repo carries no hooks; preemption points and environment seams are inserted into a build overlay generated from the working tree",
                          enable="/verif/check builds with go test -overlay", source_commits=[]),
               notes="See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
