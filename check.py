#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property from the source in /repo (see DESIGN.md)."""
import importlib, os, sys, threading, resource, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(50000)
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    from sa.loader import Program, AnalysisError
    from sa.report import Report

    R = Report(pid, tier)
    try:
        prog = Program()
        mod = importlib.import_module(f"sa.rules.{pid.lower()}")
        mod.check(prog, R, tier)
    except AnalysisError as e:
        print(f"{pid}: the analysis could not be carried out: {e}")
        return 2
    except SyntaxError as e:
        print(f"{pid}: source does not parse: {e}")
        return 2
    return R.finish(prog)


if __name__ == "__main__":
    rc = []

    def run():
        try:
            rc.append(main())
        except BaseException:
            traceback.print_exc()
            rc.append(2)

    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
