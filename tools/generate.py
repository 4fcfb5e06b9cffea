#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vf/props.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from vf.props import PROPS  # noqa: E402

HOW = {"asan": "AddressSanitizer + UBSan build", "tsan": "ThreadSanitizer build", "plain": "uninstrumented build with injected delays"}

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")

checks = []
for pid, p in PROPS.items():
    flavours = "; ".join("%s" % HOW[x] for x in sorted(set(y["flavour"] for y in p["passes"])))
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py %s" % pid,
        "thorough_cmd": "python3 run.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "runtime monitoring: " + p["oracle"],
        "level": "exploration",
        "level_note": "The real code is run on generated workloads (%s) and judged by the monitor. %s" % (flavours, " ".join(p["assumptions"])),
    })
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 /verif/run.py --setup", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: the code is observed through its interface, sanitizers, interposed C library calls "
                        "and compiler inserted function entry and exit calls (-finstrument-functions). See DESIGN.md."}, f, indent=1)
    f.write("\n")

HEAD, TAIL = "<!-- properties: generated from vf/props.py -->\n", "<!-- end of properties -->\n"
path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
body = []
for pid, p in PROPS.items():
    body.append("### %s %s\n\n%s\n" % (pid, p["title"], p["statement"]))
    body.append("* Over: %s. Anchored in %s." % (p["qtext"], ", ".join("`%s`" % f for f in p["files"])))
    body.append("* Run: `%s` (%s). %s" % (p["harness"], "; ".join("%s, %d quick / %d thorough cases" % (HOW[x["flavour"]], x["cases"][0], x["cases"][1]) for x in p["passes"]), p["rule"]))
    body.append("* Observed: %s. Oracle: %s." % ("; ".join(p["observe"]), p["oracle"]))
    body.append("* Beyond the tests: %s" % p["why"])
    if p["assumptions"]:
        body.append("* Bounds: %s" % " ".join(p["assumptions"]))
    body.append("")
a, b = text.index(HEAD) + len(HEAD), text.index(TAIL)
with open(path, "w") as f:
    f.write(text[:a] + "\n" + "\n".join(body) + text[b:])
