#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist under harness/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive enumeration (stateless model checking) of the real code against an executable reference model"
HIST = "exhaustive exploration of bounded operation histories (stateless model checking) of the real code against an executable reference model"
SCHED = "exhaustive exploration of all step interleavings within a bound (stateless model checking) of the real code"
T = {
 "C03": HIST, "C17": HIST, "C18": HIST, "C19": HIST, "C20": HIST, "C22": HIST, "C23": HIST, "C24": HIST, "C28": HIST, "C30": SCHED, "C31": HIST, "C33": HIST, "C34": HIST,
 "C32": "exhaustive enumeration of truncation points over bounded header families, real code",
}
NOTE = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(here, "harness", i.lower(), "main.go")):
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": T.get(i, ENUM), "level": "model_checking", "level_note": NOTE[i] + " " + COMMON})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "The checks need no hooks in /repo: they are compiled into the module through go build -overlay, together with a few shim files that export unexported functions. "
              "known-findings.jsonl lists the defects that were repaired."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
