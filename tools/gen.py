#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/table.py"""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import P, NA
with open(V + "/properties.jsonl", "w") as f:
    for p in P + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hooks", "2448985..HEAD"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "LI_VERIFY", "enable": "goto-cc -DLI_VERIFY=1 -I/verif/cbmc/include on the real sources (loop annotations expand to CBMC loop contracts; without the define they expand to nothing)",
               "source_commits": hooks},
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
# DESIGN.md: the hand written tools/DESIGN.in.md with the tables filled in
import importlib, glob
sys.dont_write_bytecode = True
sys.path[:0] = [V + "/vlib", V + "/props"]
from table import D, SEEDS
props, units = [], []
for p in sorted(P, key=lambda p: p["id"]):
    mod = importlib.import_module(p["id"])
    pr = [u for u in mod.UNITS if not u.is_bounded]
    bo = [u for u in mod.UNITS if u.is_bounded]
    props.append("### %s %s (%s)\n\n%s\n\n%s%s%s%s\n" % (p["id"], p["title"], p["level"], D.get(p["id"], ""),
        "* proved: " + (", ".join("`%s`" % f for u in pr for f in u.functions) or "-") + "\n",
        "* bounded: " + ("; ".join("%s (%s)" % (", ".join("`%s`" % f for f in u.functions), u.is_bounded) for u in bo) or "-") + "\n",
        "* executed: " + ", ".join((["native/%s.c" % p["id"]] if mod.NATIVE else []) + (["e2e/" + mod.E2E["prog"]] if getattr(mod, "E2E", None) else [])) + "\n",
        "".join("* assumed: %s\n" % a for a in mod.ASSUMPTIONS)))
    for u in mod.UNITS:
        units.append("| %s | %s | %s | %s | %s | %s |" % (p["id"], u.name, ", ".join(u.functions), "loop contracts" if u.loops else "unwound" if u.unwind else "no loops", u.is_bounded or "all inputs", "; ".join(u.trusted)))
seeds = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m2 = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    seeds.append("| %s | %s | %s | %s |" % (n, m2["property"], m2["what_it_breaks"].replace("|", "/"), SEEDS.get(n, "")))
d = open(V + "/tools/DESIGN.in.md").read()
d = d.replace("@PROPS@", "\n".join(props)).replace("@SEEDS@", "| change | property | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
d = d.replace("@NA@", "\n".join("* **%s %s**: %s" % (p["id"], p["title"], p["reason"]) for p in NA) or "-")
d = d.replace("@UNITS@", "| property | unit | functions | loops | bound | trusted |\n|---|---|---|---|---|---|\n" + "\n".join(units))
open(V + "/DESIGN.md", "w").write(d)
