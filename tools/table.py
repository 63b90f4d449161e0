"""rewrites the catch table of DESIGN.md from the planted bugs; argument: ids that the last verification missed"""
import glob
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(sys.argv[1:])
rows = []
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {'**missed**' if i in missed else 'yes'} | {m['needs'].replace('|', '/')} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- catches -->"), s.index("<!-- /catches -->")
head = f"<!-- catches -->\n{len(rows)} planted bugs; each is run against the check of the property that starts its id.\n\n| id | caught | what it needs |\n|---|---|---|\n"
open(p, "w").write(s[:a] + head + "\n".join(rows) + "\n" + s[b:])
