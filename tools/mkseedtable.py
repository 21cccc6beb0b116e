"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"),
                                      m["needs"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
head = "| change | what it breaks | needs |\n|---|---|---|\n"
i = t.index(head) + len(head)
j = t.index("\n\n", i) if "\n\n" in t[i:] else len(t)
open(p, "w").write(t[:i] + "\n".join(rows) + t[j:])
