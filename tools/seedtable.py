"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.

Not part of any check."""

import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted changes\n"
with open(HERE + "/DESIGN.md") as f:
    text = f.read()
text = text[: text.index(MARK)] + MARK + """
Each was written from a property's text and the code, builds, passes the stable tests, has a
demonstration which fails with it, and is reported by the check of its property (all of them, at
`VERIF_SEED=1`, quick tier). First missed, and what was strengthened since: `plaintext-not-send`
(C20 checks `Send`/`Sync` of PLAINTEXT with buffers which are neither), `nonce-pool` (C11 ended
with an error of the harness instead of the violation), `big-list-by-key`, `digest-64k-write`
(cases with very large inputs were added before these two were run).

| change | property | what it breaks | needs |
|---|---|---|---|
"""
for p in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    with open(p) as f:
        m = json.load(f)
    text += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(p)), m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"))
with open(HERE + "/DESIGN.md", "w") as f:
    f.write(text)
