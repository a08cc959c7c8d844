#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module("props." + prop.lower())
    sys.exit(core.main(prop, tier, mod.check))


if __name__ == "__main__":
    main()
