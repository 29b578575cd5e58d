#!/usr/bin/env python3
"""Decide one property:  python3 check.py C01 [--thorough]     (exit 0: holds, exit 1: VIOLATION line)"""
import os, sys, traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    # same exploration order on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
sys.dont_write_bytecode = True
import facts, report, importlib


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ck = report.Check(pid, tier)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        ck.rule = (mod.__doc__ or "").strip()
        for tag in getattr(mod, "TAGS", ["rel"]):
            ck.tag = tag
            mod.run(ck)
    except SystemExit:
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        ck.bad("undecided", f"the analysis could not decide the property on this tree ({type(e).__name__}: {str(e)[:1500]})", tb[-1500:])
    sys.exit(ck.finish())


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            main()
        except SystemExit as e:
            rc.append(e.code or 0)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 1)
