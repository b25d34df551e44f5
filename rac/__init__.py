"Run-time contract evaluation against the real code."

MODULES = {}


def load_suites(prop):
    import importlib

    n = int(prop[1:])
    importlib.import_module("rac.suites_json" if n <= 10 else "rac.suites_types")
