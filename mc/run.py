import importlib
import os
import sys
import traceback

sys.path.insert(0, os.environ.get("HERMES_ALT", "/repo"))  # HERMES_ALT: development against a scratch copy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    from mc.core import Check

    check = Check(prop)
    try:
        import warnings

        warnings.filterwarnings("ignore")
        import numpy as np

        np.seterr(all="ignore")
        import logging

        logging.disable(logging.CRITICAL)
        mod = importlib.import_module("mc.checks." + prop.lower())
        mod.main(check)
    except SystemExit:
        raise
    except BaseException as e:  # the code under test failed outside of a case
        check.acc.violation("harness", "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-4000:]))
    code = check.finish()
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
