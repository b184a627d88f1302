"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (which check reports each was found by running them)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## Planted bugs\n"
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " ")))
text = open(os.path.join(HERE, "DESIGN.md")).read()
text = text.split(HEAD)[0].rstrip() + "\n\n" + HEAD + "\nEach is caught by the check of its property (run one after another against the patched tree; exit 1 with that property's VIOLATION line).\n\n| change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
