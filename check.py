#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] [--only SCENARIO]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    only = None
    if "--only" in argv:
        i = argv.index("--only")
        only = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    from sa import base

    prop = importlib.import_module(f"sa.props.{pid.lower()}").PROP
    if only:
        old = prop.scenarios
        prop.scenarios = lambda t: [s for s in old(t) if s.name == only]
    return base.run(prop, tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
