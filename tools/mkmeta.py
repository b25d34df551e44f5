"""
Regenerates meta/properties.json (obligations that are discharged on the current tree) and MANIFEST.json.

Run after a change of the contracts: python3-vt -B tools/mkmeta.py [PROPERTY...]
"""

import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, HERE)
import check  # noqa: E402
from metadata import ASSUME, BOUNDED, GENERAL_ASSUMPTIONS, LEVEL, NOTE, RULES, TRUSTED  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
path = os.path.join(HERE, "meta", "properties.json")
old = json.load(open(path)) if os.path.exists(path) else {}
want = sys.argv[1:]


seconds_path = os.path.join(HERE, "meta", "seconds.json")
seconds = json.load(open(seconds_path)) if os.path.exists(seconds_path) else {}


def run(prop):
    t0 = time.time()
    results = []
    for p in check.start_provers(prop, 8, 900):
        out, err, rc = check.finish(p, 1800)
        d = check.last_json(out)
        if d is None:
            print(prop, "verifier failed", err[-2000:])
            continue
        if d["fatal"]:
            print(prop, d["fatal"])
        results += d["results"]
    for o in results:
        if o["status"] != "proved":
            print(prop, "NOT PROVED:", o["name"], o["detail"][:300])
    slow = max((o["seconds"] for o in results), default=0)
    print(prop, len(results), "obligations", round(time.time() - t0, 1), "s, slowest", round(slow, 1), "s", flush=True)
    seconds[prop] = {o["name"]: max(1, round(o["seconds"])) for o in sorted(results, key=lambda o: o["name"])}
    return prop, sorted(o["name"] for o in results if o["status"] == "proved")


todo = [p["id"] for p in props if not want or p["id"] in want]
done = dict(map(run, todo))
with open(seconds_path, "w") as f:
    json.dump(seconds, f, indent=1)
    f.write("\n")

meta = {}
for p in props:
    i = p["id"]
    obs = done[i] if i in done else old.get(i, {}).get("obligations", [])
    proof = bool(obs) and LEVEL.get(i, "proof") == "proof"
    meta[i] = dict(
        title=p["title"], proof=bool(obs), level="proof" if proof else "exploration", obligations=obs,
        rule=RULES[i], trusted=TRUSTED, assumptions=GENERAL_ASSUMPTIONS + ASSUME.get(i, []),
        bounded=BOUNDED.get(i, []),
        bounded_reason="" if proof else NOTE.get(i, ""),
    )
with open(path, "w") as f:
    json.dump(meta, f, indent=1)
    f.write("\n")

checks = []
for p in props:
    i = p["id"]
    m = meta[i]
    if m["level"] == "proof":
        tech = "contract-based deductive verification of the real Python functions (symbolic execution of their source against postconditions, loop summaries; z3 and cvc5); bounded evaluation of the contracts for replay"
        note = f"{len(m['obligations'])} obligations discharged for all inputs."
    else:
        tech = "bounded evaluation of contracts at run time against the real code (stand-in: not proved)"
        note = "Bounded stand-in, not proved."
    note += " " + NOTE.get(i, "")
    checks.append(
        dict(
            property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique=tech, level=m["level"], level_note=note.strip(),
        )
    )
manifest = dict(version=1, setup_cmd="python3-vt -B tools/selftest.py", checks=checks, not_applicable=[])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
