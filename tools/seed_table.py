#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "c01-empty-text-after-eol": "universe `edge`", "c05-many-lines": "draining of `big`", "c07-eager-second-option": "`untaken`",
    "c12-unstable-ties": "`many` panes", "c16-tall-split": "`tall`", "c17-many-values": "`many`", "c18-oracle-max-width": "`long`",
    "c02-negative-check": "`index`", "c03-upward-forgets-eol": "`pair`", "c20-truncate": "failing destinations",
    "c21-id-wrap": "`many-ids`", "c10-count-in-fold": "folds unrolled in the model of validation",
    "c01-char-widths": "`odd`; model measures strings, not characters", "c16-upward-long-line": "`wide-text-newline`",
    "c17-ascii-words": "`comments`", "c18-oracle-chars": "`odd` (also found a defect of the oracle, 3983c55)",
}
MISSED.update(json.load(open(f"{HERE}/tools/missed.json")))
rows = ["| id | needs | caught by | missed at first; then added |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append(f"| {i} | {m['needs']} | {m['property']} | {MISSED.get(i, '')} |")
p = f"{HERE}/DESIGN.md"; s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
