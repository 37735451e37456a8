"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
rows = "".join("| %s | %s |\n" % (p, ", ".join(sorted(by[p]))) for p in sorted(by))
d = open(root + "/DESIGN.md").read()
d = re.sub(r"(\| property \| planted bugs caught \|\n\|----\|----\|\n)(\|.*\n)*", lambda m: m.group(1) + rows, d)
open(root + "/DESIGN.md", "w").write(d)
