"Run-time contract evaluation: suites of random cases, run against the real code in /repo."

import json
import os
import random
import sys
import time
import traceback
import typing

# typing shares equal type expressions, e.g. `Union[int, float]` may stand for `Union[float, int]` if that was mentioned
# before; each case gets the types it mentions
for _f in list(typing._caches):
    typing._caches[_f] = _f

SUITES = {}


class Violation(Exception):
    "The real code broke the property on a concrete input."

    def __init__(self, message, **details):
        super().__init__(message)
        self.message = message
        self.details = details


def suite(prop, name=None, weight=1):
    def wrap(fn):
        SUITES.setdefault(prop, []).append((name or fn.__name__, fn, weight))
        return fn

    return wrap


class Recorder:
    def __init__(self):
        self.keys = set()
        self.samples = []
        self.evals = 0
        self.trivial = 0

    def case(self, key, sample=None):
        "Registers one evaluated case; key None marks a trivial one."
        self.evals += 1
        if key is None:
            self.trivial += 1
            return
        h = hash(key)
        if h not in self.keys:
            self.keys.add(h)
            if len(self.samples) < 3 and sample is not None:
                self.samples.append(sample)


def check(cond, message, **details):
    if not cond:
        raise Violation(message, **details)


def run_case(prop, name, index, seed, rec=None):
    for n, fn, _ in SUITES[prop]:
        if n == name:
            rng = random.Random(f"{seed}:{prop}:{name}:{index}")
            return fn(rng, rec or Recorder())
    raise KeyError(name)


def run_suites(prop, seed, start, step, budget, known=(), limit=None, stop_at=3):
    "Runs the suites of a property on case numbers start, start+step, ... until the time budget is used up."

    rec = Recorder()
    found = []
    knowns = {}
    t0 = time.monotonic()
    entries = SUITES.get(prop, [])
    index = start
    errors = []
    while entries and time.monotonic() - t0 < budget and (limit is None or index < limit):
        for name, fn, weight in entries:
            for w in range(weight):
                case = index * weight + w
                try:
                    run_case(prop, name, case, seed, rec)
                except Violation as v:
                    kf = next((k for k in known if match_known(k, name, v)), None)
                    if kf is not None:
                        knowns[kf["id"]] = kf
                        continue
                    found.append(dict(property=prop, suite=name, case=case, seed=seed, hashseed=os.environ.get("PYTHONHASHSEED", ""), message=v.message, details={k: str(x) for k, x in v.details.items()}))
                except RecursionError as ex:
                    errors.append(f"{name}#{case}: RecursionError")
                except Exception as ex:
                    if raised_by_code(ex):
                        found.append(dict(property=prop, suite=name, case=case, seed=seed, hashseed=os.environ.get("PYTHONHASHSEED", ""), message=f"unexpected {type(ex).__name__} raised by the code: {ex}", details={"traceback": traceback.format_exc()[-3000:]}))
                        continue
                    errors.append(f"{name}#{case}: {traceback.format_exc()[-1500:]}")
            if len(found) >= stop_at or len(errors) >= 20:
                break
        if len(found) >= stop_at or len(errors) >= 20:
            break
        index += step
    return dict(found=found, knowns=list(knowns.values()), errors=errors, evaluations=rec.evals, keys=list(rec.keys), trivial=rec.trivial, samples=rec.samples, wall=time.monotonic() - t0)


def raised_by_code(ex):
    "True if the exception that the harness did not expect comes from the code under test."
    tb = ex.__traceback__
    inside = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith("/verif/"):
            inside = False
        elif "/strong_typing/" in f:
            inside = True
        tb = tb.tb_next
    return inside


def match_known(k, name, v):
    return k.get("suite") in (None, name) and k.get("match") is not None and k["match"] == v.details.get("known")
