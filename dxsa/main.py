"""Entry point: python3 /verif/dxsa/main.py <property> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

MODULES = ["checks_time", "checks_gmres", "checks_st", "checks_mesh", "checks_drv", "checks_lint", "checks_names"]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    from dxsa.report import Report
    for m in MODULES:
        try:
            mod = importlib.import_module("dxsa." + m)
        except ModuleNotFoundError as e:
            if e.name == "dxsa." + m:
                continue
            raise
        if pid in mod.CHECKS:
            rep = Report(pid, tier)
            rep.guard("analysis", mod.CHECKS[pid], rep)
            return rep.finish()
    print(f"unknown property {pid}")
    return 2


if __name__ == "__main__":
    import threading
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
