#!/usr/bin/env python3
"""Prints the overlay that lays a check, and the shims that open the internal seams it uses, over the repository.

usage: overlay.py VERIF REPO WORK full|exported CHECK
harness/CHECK/shims.txt names the shims: files below harness/shim, by package directory."""
import json, os, sys
here, repo, work, mode, check = sys.argv[1:6]
rep = {}
h = os.path.join(here, "harness")
for d, _, files in os.walk(h):
    rel = os.path.relpath(d, h)
    if rel == "shim" or rel.startswith("shim" + os.sep):
        continue
    for f in files:
        if f.endswith(".go"):
            rep[os.path.join(repo, "internal", "zzverif", rel, f)] = os.path.join(d, f)
shims = os.path.join(h, check, "shims.txt")
if mode == "full" and os.path.exists(shims):
    for s in open(shims).read().split():
        p, f = os.path.split(s)
        rep[os.path.join(repo, "internal", p, "zz_verif_" + f)] = os.path.join(h, "shim", s)
# sources rewritten for the check
o = os.path.join(work, "rewritten")
for d, _, files in os.walk(o):
    for f in files:
        rep[os.path.join(repo, os.path.relpath(d, o), f)] = os.path.join(d, f)
json.dump({"Replace": rep}, sys.stdout)
