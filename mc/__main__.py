import importlib
import sys
import traceback

from . import core


def _main():
    if sys.argv[1] == "replay":
        return core.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    mod = importlib.import_module("mc.props." + pid.lower())
    return core.main(mod, tier)


if __name__ == "__main__":
    try:
        rc = _main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
