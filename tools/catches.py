#!/usr/bin/env python3
"""tools/catches.py LOG...: the table of planted bugs and what their checks reported, from the logs of sweeps.

A line of a log is: <bug> <property> CAUGHT|MISSED rc=<n> <seconds>s [<clauses>]; the last line on a bug counts.
Writes CATCHES.md. Only a record of what was tried: no check reads it or seeded/.
"""
import ast
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LINE = re.compile(r"^(\S+) (C\d\d) (CAUGHT|MISSED) rc=(\d+) \d+s (\[.*?\])")


def main(logs):
    found = {}
    for log in logs:
        with open(log) as f:
            for m in map(LINE.match, f):
                if m:
                    found[m.group(1)] = (m.group(2), m.group(3), ast.literal_eval(m.group(5)))
    rows = []
    for bug in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        with open(os.path.join(VERIF, "seeded", bug, "meta.json")) as f:
            meta = json.load(f)
        prop, verdict, clauses = found.get(bug, (meta["property"], "not run", []))
        needs = " ".join(str(meta["needs"]).split()).replace("|", "/")
        shown = ", ".join(clauses[:4]) + (", ..." if len(clauses) > 4 else "")
        rows.append((prop, bug, needs[:110], verdict.lower(), shown))
    rows.sort()
    with open(os.path.join(VERIF, "CATCHES.md"), "w") as f:
        f.write("# Planted bugs (seeded/) and the clauses their property's quick check rejects them for\n\n")
        f.write(f"{len(rows)} bugs, {sum(r[3] == 'caught' for r in rows)} caught. Written by tools/catches.py.\n\n")
        f.write("| property | bug | needs | verdict | clauses |\n|---|---|---|---|---|\n")
        for r in rows:
            f.write("| " + " | ".join(r) + " |\n")
    print(len(rows), sum(r[3] == "caught" for r in rows), [r[1] for r in rows if r[3] != "caught"])


if __name__ == "__main__":
    main(sys.argv[1:])
