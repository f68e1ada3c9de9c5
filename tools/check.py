#!/usr/bin/env python3
"""check.py <property>   decides one property on /repo's current source"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
import threading
from frontend import Broken
from common import Report

CHECKS = {
    "C11": ("kernels", "c11"),
    "C18": ("transpose", "c18"), "C27": ("returns", "c27"), "C25": ("threads", "c25"), "C26": ("checker", "c26"),
    "C15": ("dispatch", "c15"),
    "C16": ("effects", "c16"), "C07": ("effects", "c07"),
    "C19": ("probe", "c19"), "C13": ("tiles", "c13"), "C14": ("align", "c14"), "C09": ("undef", "c09"), "C12": ("backends", "c12"),
    "C08": ("resources", "c08"), "C10": ("resources", "c10"),
    **{c: ("drv", c.lower()) for c in ("C01", "C02", "C03", "C04", "C05", "C06", "C17", "C20", "C21")},
}


def main():
    p = sys.argv[1]
    mod, fn = CHECKS[p]
    r = Report(p)
    try:
        getattr(__import__(mod), fn)(r)
    except Broken as e:
        print("analysis broken: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    return r.finish()


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":          # the same orders, hence the same terms, on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 3)
