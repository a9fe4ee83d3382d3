import os, sys


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--thorough" in argv:
        tier = "thorough"
    from . import checker
    from .levels import LEVEL
    return checker.main(pid, tier, LEVEL.get(pid, "other"))
