"Checks that the tools the checks need are present and that the verifier refutes what is false."

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import z3

from pyvc import core, verify
from pyvc.verify import Obligation, discharge, goal


def wrong() -> None:
    x = z3.Int("x")
    goal(x * x > x, "false for 0 and 1")


def right() -> None:
    x = z3.Int("x")
    goal(x * x >= x, "true")


assert discharge(Obligation("X", "wrong", wrong, ())).status == "refuted"
assert discharge(Obligation("X", "right", right, ())).status == "proved"
assert subprocess.run(["cvc5", "--version"], capture_output=True).returncode == 0
import hypothesis  # noqa: F401
import jsonschema  # noqa: F401

print("ready")
