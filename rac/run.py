"Runs a shard of the suites of one property and prints the result as JSON."

import json
import os
import sys

sys.setrecursionlimit(3000)


def main(argv):
    prop, seed, start, step, budget, known = argv[0], argv[1], int(argv[2]), int(argv[3]), float(argv[4]), argv[5]
    sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get("VERIF_REPO", "/repo")]
    # compiled code found beside the sources is not trusted: what counts is the text of the working tree
    sys.pycache_prefix = "/nonexistent"
    from rac import framework, load_suites

    load_suites(prop)
    kf = json.loads(known)
    if len(argv) > 6:
        name, case = argv[6].rsplit("#", 1)
        try:
            framework.run_case(prop, name, int(case), seed)
        except framework.Violation as v:
            print("VIOLATED:", v.message)
            for k, x in v.details.items():
                print(f"  {k}: {x}")
            return 1
        except Exception as ex:
            if framework.raised_by_code(ex):
                import traceback

                print("VIOLATED: unexpected exception raised by the code")
                traceback.print_exc(file=sys.stdout)
                return 1
            raise
        print("property holds on this case")
        return 0
    res = framework.run_suites(prop, seed, start, step, budget, kf)
    print(json.dumps(res))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
