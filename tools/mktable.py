#!/usr/bin/env python3
"""Merges results of tools/catch.sh (TSVs) into the table of DESIGN.md."""
import sys, json, re
notes = {
 "c01-load-shedding": "more than two callers", "c02-memo-xor-key": "predicates with outcomes that differ, swapped axes",
 "c02-environment-switch": "simulated environment", "c02-scratch-gone-at-thread-exit": "calls from thread-local destructors",
 "c02-violations-tolerated": "error outcomes in histories", "c03-nesting-limit": "chains of nested calls",
 "c03-stack-of-eight": "chains up to 20", "c01-pool-of-eight": "crowds with differing arguments",
 "c04-drain-before-rebuild": "survivors that make hundreds of calls", "c05-panic-budget": "series of failing calls",
 "c05-drop-guard-abort": "abort class", "c07-arclen-recursion": "stack measured at two steps",
 "c08-closed-curve-snapped": "listing oracle", "c08-clone-from-skips": "clone_from in place",
 "c08-version-wraps": "long series of edits", "c06-report-every-256": "repeated calls", "c07-history-scanned": "work over many calls",
 "c09-short-search": "longer B-splines", "c10-flatness-across-axes": "axes in other units",
 "c10-bbox-normalised": "values that make an axis special", "c10-degenerate-shortcut": "degenerate figures",
 "c04-five-permits": "crowds",
 "c01-aba": "overtaken callers", "c02-stack-depth": "calls from far down the stack", "c15-short-span": "uneven knots",
 "c07-bisection-stuck": "comparisons without an order", "c06-error-display": "formatting of errors",
 "c19-axis-u8": "points of 67 axes", "c16-nan-linear": "questions about lost coordinates",
}
import os
d = open("/verif/DESIGN.md").read()
have = {}
for l in re.findall(r"^\| (c\d\d-[^ ]*) (\|.*)$", d, flags=re.M):
    if os.path.isdir("/verif/seeded/" + l[0]): have[l[0]] = "| " + l[0] + " " + l[1]
for l in (l for n in sys.argv[1:] for l in open(n)):
    f = l.rstrip("\n").split("\t")
    if f[1] != f[2]: continue
    m = json.load(open(f"/verif/seeded/{f[0]}/meta.json"))
    n = f" [{notes[f[0]]}]" if f[0] in notes else ""
    run = f[5].split("-")[-1].split(".")[0] if f[3] == "rc=1" else "MISSED"
    have[f[0]] = f"| {f[0]} | {m['needs']}{n} | {f[2]} | {f[6].strip()}, run {run} |"
rows = ["| change | needs | check | first violation |", "|---|---|---|---|"] + [have[k] for k in sorted(have)]
t = "\n".join(rows)
if "CATCHTABLE" in d: d = d.replace("CATCHTABLE", t)
else: d = re.sub(r"\| change \| needs.*?(?=\n\n## 8)", lambda _: t, d, flags=re.S)
open("/verif/DESIGN.md", "w").write(d)
