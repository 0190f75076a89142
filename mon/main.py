import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mon import core  # noqa


def main(argv):
    if argv and argv[0] == "--replay":
        return core.replay(argv[1])
    if argv and argv[0] == "--selftest":
        core.import_library()
        print("normalize imports from %s" % core.REPO)
        return 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return core.run_check(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
