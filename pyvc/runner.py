"Discharges the obligations of one property (or a share of them) and prints the result as JSON."

import importlib
import json
import os
import sys
import time
import traceback
from typing import Iterator


def durations(prop: str) -> dict:
    "How long obligations took when they were recorded (only decides the order)."

    try:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "meta", "seconds.json")) as f:
            return json.load(f).get(prop, {})
    except (OSError, ValueError):
        return {}


def main(argv: list) -> int:
    prop, share, shares, limit = argv[0], int(argv[1]), int(argv[2]), float(argv[3])
    # with a fifth argument, numbers of obligations to take come from that file descriptor, one byte pair each
    queue = int(argv[4]) if len(argv) > 4 else None
    sys.setrecursionlimit(20000)
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = sys.stdout
    sys.stdout = sys.stderr
    t0 = time.time()
    results: list = []
    fatal = None

    def emit() -> None:
        from pyvc import core

        print(
            json.dumps(dict(results=results, fatal=fatal, backends=core.STATS.backends, checks=core.STATS.checks, solver_s=core.STATS.solver_s, wall=time.time() - t0)),
            file=out,
        )
        out.flush()

    try:
        from pyvc import verify

        # compiled code found beside the sources is not trusted: what counts is the text of the working tree
        sys.pycache_prefix = "/nonexistent"

        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for name in sorted(os.listdir(os.path.join(here, "contracts"))):
            if len(name) == 6 and name[0] == "c" and name.endswith(".py"):
                try:
                    importlib.import_module(f"contracts.{name[:3]}")
                except Exception:
                    fatal = traceback.format_exc()[-3000:]
        obs = verify.OBLIGATIONS.get(prop, [])
    except Exception:
        fatal = traceback.format_exc()[-3000:]
        emit()
        return 0
    rank = durations(prop)
    obs = sorted(obs, key=lambda ob: -rank.get(ob.name, 1e6))  # the longest first

    def mine() -> "Iterator[int]":
        if queue is None:
            yield from (k for k in range(len(obs)) if k % shares == share)
            return
        while True:
            word = os.read(queue, 2)
            if len(word) < 2:
                return
            k = int.from_bytes(word, "big")
            if k < len(obs):
                yield k

    for k in mine():
        ob = obs[k]
        if time.time() - t0 > limit:
            results.append(dict(name=ob.name, status="undecided", detail="time limit of the check", model=None, goals=0, paths=0, seconds=0, trace=[], contracts=[], models_=[], functions=[]))
            continue
        r = verify.discharge(ob)
        d = dict(r.__dict__)
        d["functions"] = [str(f) for f in ob.functions]
        results.append(d)
        emit()
    emit()
    return 0


if __name__ == "__main__":
    sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
    sys.exit(main(sys.argv[1:]))
