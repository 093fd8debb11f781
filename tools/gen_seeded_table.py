"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = open(root + "/DESIGN.md").read()
head = "| change | property | what it breaks | needs |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
j = re.search(r"\n\n", s[i:]).start() + i
open(root + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + s[j:])
