import importlib
import sys
import traceback

from harness import core


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(f"harness.props.{pid.lower()}")
    try:
        c = core.Check(pid, getattr(mod, "LEVEL", "model_checking"))
        mod.check(c)
        rc = c.finish()
    except core.Machinery as e:
        print(f"MACHINERY: {e}", file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)


main()
