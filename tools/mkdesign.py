"Fills the generated parts of DESIGN.md (between the markers) from metadata, the obligations and the planted bugs."
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from metadata import APPROACH, ASSUME, BOUNDED, NOTE  # noqa: E402

meta = json.load(open(os.path.join(HERE, "meta", "properties.json")))
out = []
for i, m in meta.items():
    out.append(f"### {i} {m['title']}\n\nLevel: {m['level']}; {len(m['obligations'])} obligations.\n\n{APPROACH.get(i, '')}\n")
    if BOUNDED.get(i):
        out.append("Bounded only: " + "; ".join(BOUNDED[i]) + ".\n")
    if ASSUME.get(i):
        out.append("Assumed: " + "; ".join(ASSUME[i]) + ".\n")
bugs = ["| planted bug | property | breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    b = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    bugs.append(f"| {d} | {b['property']} | {b['what_it_breaks']} | {b['needs']} |".replace("\n", " "))
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
for name, text in (("TABLE", "\n".join(out)), ("BUGS", "\n".join(bugs))):
    s = s.replace(f"@@{name}@@", f"<!-- {name} -->\n<!-- /{name} -->")
    s = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n{text}\n<!-- /{name} -->", s, flags=re.S)
open(path, "w").write(s)
