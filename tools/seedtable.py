"""Rewrite the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = "\n".join(rows) + "\n<!-- /seeds -->"
s = open(V + "/DESIGN.md").read()
s = re.sub(r"SEEDTABLE|<!-- seeds -->.*?<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
