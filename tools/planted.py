"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, re
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
s = open("/verif/DESIGN.md").read()
t = "| planted bug | needs | breaks | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m[1] + t + m[2], s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
