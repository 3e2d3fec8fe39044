#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (development only; no check reads seeded/)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
mark = "## Planted bugs\n"
text = (root / "DESIGN.md").read_text().split(mark)[0]
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s |\n" % (d.name, m["property"], m["what_it_breaks"]))
text += mark + """
Each was written from the text of its property and the code; `tools/mkseed.py` confirmed that it builds, passes the 25
stable tests and that its demonstration fails with it and passes without it. Every one is caught by the quick tier of
the check of its property (seed 1), most by related checks too (C03/C04/C05 share cases, as do C17/C18/C19). Beyond
these, about 1500 mechanical and hand-written mutations of the source files were run against the recorded observations
of the quick cases; what survived was examined one by one, and turned into cases unless it was equivalent.

| planted bug | caught by | what it breaks |
|---|---|---|
""" + "".join(rows)
(root / "DESIGN.md").write_text(text)
