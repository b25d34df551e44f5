#!/usr/bin/env python3
"""
Decides one property: discharges its obligations against the current source in /repo, and evaluates the contracts on
concrete inputs (replay of failed obligations, bounded stand-in where the verifier is undecided).

  check.py PROPERTY [--tier quick|thorough]
"""

import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "python3-vt"
REPO = os.environ.get("VERIF_REPO", "/repo")  # another directory only while developing the checks


def load_meta():
    with open(os.path.join(HERE, "meta", "properties.json")) as f:
        return json.load(f)


def load_findings(prop):
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: "):
                fields = dict(x.split("=", 1) for x in line.split(" ")[1:4])
                if fields["property"] == prop:
                    out.append(dict(id=fields["id"], repro=fields["repro"], what=line.split(" ", 4)[4]))
    return out


def spawn(args, env=None, fds=()):
    e = dict(os.environ)
    e.pop("PYTHONPATH", None)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.update(env or {})
    return subprocess.Popen([PY, "-B"] + args, cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, pass_fds=fds)


def finish(p, timeout):
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        return out, err, p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        return out, err + "\n(time limit)", -9


def start_provers(prop, count, limit):
    "Verifier processes that share the obligations of a property: each takes the next one from a pipe."

    r, w = os.pipe()
    os.write(w, b"".join(k.to_bytes(2, "big") for k in range(2000)))
    os.close(w)
    ps = [spawn(["-m", "pyvc.runner", prop, "0", "1", str(limit), str(r)], {"PYTHONHASHSEED": "0"}, (r,)) for k in range(count)]
    os.close(r)
    return ps


def last_json(text):
    for line in reversed(text.strip().splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                return None
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    meta = load_meta()[prop]
    has_proof = bool(meta.get("proof"))
    baseline = set(meta.get("obligations", []))

    thorough = tier == "thorough"
    rac_budget = 240.0 if thorough else 18.0
    proof_limit = 600.0 if thorough else 400.0
    shards = 3
    proof_shares = 6 if has_proof else 0
    if not has_proof:
        shards, rac_budget = 7, (300.0 if thorough else 30.0)

    provers = start_provers(prop, proof_shares, proof_limit)

    def rac_round(budget, base, count):
        ps = [spawn(["-m", "rac.run", prop, str(seed), str(base + k), "64", str(budget), "[]"], {"PYTHONHASHSEED": str((seed * 1000 + base + k) % 4294967295)}) for k in range(count)]
        return [finish(p, budget + 90) for p in ps]

    rac = rac_round(rac_budget, 0, shards)

    # known findings
    for kf in load_findings(prop):
        p = spawn([os.path.join(HERE, kf["repro"])], {"PYTHONPYCACHEPREFIX": "/nonexistent"})
        out, err, rc = finish(p, 60)
        if "FAILS" in out.splitlines():
            print(f"KNOWN-FINDING: property={prop} {kf['what']}")

    # obligations
    obligations, fatal, backends, solver_s, solver_checks = [], [], {}, 0.0, 0
    for p in provers:
        out, err, rc = finish(p, proof_limit + 120 - (time.time() - t0))
        d = last_json(out)  # each line repeats the results so far, so what was done before a time limit counts
        if d is None:
            fatal.append(f"verifier ended with status {rc}: {err[-600:]}")
            continue
        if d["fatal"]:
            fatal.append(d["fatal"])
        obligations += d["results"]
        solver_s += d["solver_s"]
        solver_checks += d["checks"]
        for k, n in d["backends"].items():
            backends[k] = backends.get(k, 0) + n
    proved = [o for o in obligations if o["status"] == "proved"]
    refuted = [o for o in obligations if o["status"] == "refuted" and o["name"] in baseline]
    done = {o["name"] for o in obligations}
    missing = sorted(baseline - done)
    undecided = [o for o in obligations if o["status"] == "undecided" or (o["status"] == "refuted" and o["name"] not in baseline)]

    found, errors, keys, samples, evals = [], [], set(), [], 0

    def collect(rounds):
        nonlocal evals
        for out, err, rc in rounds:
            d = last_json(out)
            if d is None:
                errors.append(f"worker ended with status {rc}: {err[-600:]}")
                continue
            found.extend(d["found"])
            errors.extend(d["errors"])
            keys.update(d["keys"])
            evals += d["evaluations"]
            if len(samples) < 4:
                samples.extend(d["samples"][:2])

    collect(rac)
    if not found and has_proof and (refuted or undecided or missing or fatal):
        # an obligation is not discharged: search for an input that breaks the property
        collect(rac_round(60.0, 16, 7))

    violation = None
    if found or refuted:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}: {meta['title']}\n\n")
            for o in refuted:
                f.write(f"FAILED OBLIGATION: {o['name']}\n  {o['detail']}\n  counterexample of the verifier:\n{o['model']}\n\n")
            for v in found[:3]:
                f.write(f"FAILING INPUT ({v['suite']}#{v['case']}): {v['message']}\n")
                for k, x in v["details"].items():
                    f.write(f"  {k}: {x}\n")
                f.write(
                    f"replay: cd {HERE} && PYTHONHASHSEED={v['hashseed']} {PY} -B -m rac.run {prop} {v['seed']} 0 1 1 '[]' '{v['suite']}#{v['case']}'\n\n"
                )
        violation = f"VIOLATION property={prop} replay={path}"
        if not found:
            violation += " no-failing-input-found"

    for o in refuted:
        print(f"obligation not discharged: {o['name']}: {o['detail'][:400]}")
    for o in undecided:
        print(f"undecided, bounded evaluation stands in: {o['name']}: {o['detail'][:400]}")
    for m in missing:
        print(f"undecided, bounded evaluation stands in: {m}: not attempted")
    for x in fatal:
        print(f"verifier: {x}")
    for v in found[:3]:
        print(f"failing input {v['suite']}#{v['case']}: {v['message']}")
        for k, x in v["details"].items():
            print(f"  {k}: {x[:600]}")
    for x in errors[:3]:
        print(f"harness: {x}")

    traced = sorted({f for o in obligations for f in o["trace"] if f.startswith("strong_typing.")})
    contracts_used = sorted({f for o in obligations for f in o["contracts"]})
    models_used = sorted({f for o in obligations for f in o["models_"]})
    bounded = dict(
        evaluations=evals,
        distinct_nontrivial=len(keys),
        rule=meta["rule"],
        samples=[str(s)[:600] for s in samples] or ["(none)"],
    )
    if has_proof:
        coverage = dict(
            obligations=len(obligations) + len(missing),
            discharged=len(proved),
            statements_discharged=sum(o["goals"] for o in proved),
            paths=sum(o["paths"] for o in proved),
            backends=backends,
            solver_checks=solver_checks,
            solver_s=round(solver_s, 3),
            checker_cmd=f"cd {HERE} && {PY} -B -m pyvc.runner {prop} 0 1 {int(proof_limit)}",
            trusted_base=meta["trusted"] + [f"model of {m}" for m in models_used],
            functions_under_contract=sorted({f for o in obligations for f in o["functions"]}),
            functions_executed_symbolically=traced,
            assumed_or_separately_verified_contracts=contracts_used,
            obligation_list=[dict(name=o["name"], status=o["status"], paths=o["paths"], statements=o["goals"], seconds=round(o["seconds"], 2), detail=o["detail"][:300]) for o in obligations],
            bounded_evaluation=bounded,
            bounded_only=meta.get("bounded", []),
        )
    else:
        coverage = dict(bounded, explanation=meta.get("bounded_reason", ""))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=meta["level"], coverage=coverage, assumptions=meta["assumptions"],
        wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    print(f"{prop}: {len(proved)}/{len(obligations) + len(missing)} obligations discharged, {evals} concrete evaluations ({len(keys)} distinct), {time.time() - t0:.1f} s")
    if violation:
        print(violation)
        return 1
    if evals == 0 and len(proved) == 0:
        print("nothing was evaluated")
        return 2
    if has_proof and not baseline:
        print("no obligations")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
