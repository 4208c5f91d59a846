"""Fill the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(ROOT, "tools/missed_at_first.txt")).read().split())
rows = ["| bug | property | needs | first |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {'no, strengthened' if i in MISSED else 'yes'} |")
p = os.path.join(ROOT, "DESIGN.md"); s = open(p).read()
t = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
