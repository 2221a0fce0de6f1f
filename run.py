import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        module = importlib.import_module("checks." + prop.lower())
    except Exception as exc:
        # the package under test not importing at all is not a verdict about the property
        print("ERROR cannot import check", prop, repr(exc))
        raise
    return core.run_check(module, tier, seed, only)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
