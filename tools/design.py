#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.md, the evidence in a directory (default: evidence), known-findings.txt,
seeded/*/meta.json and tools/caught.txt (the output of tools/catch.sh)"""
import json, os, re, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
evdir = sys.argv[1] if len(sys.argv) > 1 else os.path.join(root, "evidence")
out = [open(os.path.join(here, "design.md")).read().rstrip(), ""]

def human(n):
    return f"{n/1e9:.1f} G" if n >= 1e9 else f"{n/1e6:.1f} M" if n >= 1e6 else f"{n/1e3:.0f} k" if n >= 1e4 else str(n)

out += ["## Spaces and costs of the quick checks", "",
        "Every index of every space is executed. The thorough checks have the same spaces with larger bounds.", "",
        "| property | spaces (executions) | transitions | distinct states | wall time |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(evdir, "C*.json"))):
    if "replay" in f:
        continue
    e = json.load(open(f))
    c = e["coverage"]
    sp = "; ".join(f"{s['name']} ({human(s['size'])})" for s in c["spaces"])
    wall = sum(s["wall_s"] for s in c["spaces"])
    out.append(f"| {e['property']} | {sp} | {human(c['transitions'])} | {human(c['states'])} | {wall:.0f} s |")

out += ["", "(`transitions` are calls of the library; `states` are distinct values seen: documents, texts or results.)", "",
        "## Defects found", "",
        "Each was reported by the check of its property on the tree before its commit. The repaired ones:", "",
        "| property | commit | what failed |", "|---|---|---|"]
finding = []
for l in open(os.path.join(root, "known-findings.txt")):
    if m := re.match(r"fixed: property=(\S+) (\S+) (.*)", l):
        out.append(f"| {m[1]} | {m[2]} | {m[3]} |")
    elif m := re.match(r"finding: property=(\S+) key=(.*?) what=(.*)", l):
        finding.append(f"* {m[1]}, `{m[2]}`: {m[3]}")
out += ["", "Recorded, not repaired (an existing test pins the behaviour):", ""] + finding

caught = {}
for l in open(os.path.join(here, "caught.txt")):
    if m := re.match(r"(\S+): (C\d\d):rc=(\d+),v=(\d+)", l):
        caught[m[1]] = m[3] == "1" and m[4] == "1"
missed = set(open(os.path.join(here, "missed-first.txt")).read().split())
out += ["", "## Planted changes", "",
        "Each is in `seeded/`. The check is the quick one of the property. Those marked *extended* were missed when they were",
        "planted; the spaces of the check were extended until it caught them.", "",
        "| change | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    c = {True: m["property"], False: "no check", None: "?"}[caught.get(b)]
    out.append(f"| {b} | {m['needs']} | {c}{' (*extended*)' if b in missed else ''} |")
n = sum(1 for b in caught.values() if b)
out += ["", f"{n} of {len(caught)} are caught.", ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
