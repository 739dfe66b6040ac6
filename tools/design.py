"""Fills tools/DESIGN.tmpl (fix list, planted bugs) into DESIGN.md."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(root + "/tools/DESIGN.tmpl").read()
kf = json.load(open(root + "/known_findings.json"))["findings"]
fixed = "\n".join(f"* `{f['commit']}` **{f['property']}** {f['what'].split(' ', 3)[3]}" for f in kf if f["status"] == "fixed")
rows = ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |".replace("\n", " "))
t = t.replace("@@FIXED@@", fixed).replace("@@SEEDS@@", "\n".join(rows))
t = t.replace("@@MORE@@\n\n", "")
open(root + "/DESIGN.md", "w").write(t)
