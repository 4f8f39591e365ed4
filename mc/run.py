"""Entry point of every check: python -m mc.run PROPERTY TIER"""
import importlib
import sys

from . import common


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    replay = sys.argv[3] if len(sys.argv) > 3 else None
    mod = importlib.import_module(f"mc.checks.{prop}")
    sys.exit(common.run_check(mod, prop, tier, replay))


if __name__ == "__main__":
    main()
