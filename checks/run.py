"""python3 -m checks.run <property>"""
import importlib
import sys
import traceback


def main(argv):
    pid = argv[0]
    m = importlib.import_module("checks.%s" % pid.lower())
    try:
        return m.main()
    except Exception:  # the analysis itself failed: no verdict, never an alarm
        traceback.print_exc()
        print("%s: the analysis failed, no verdict" % pid)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
