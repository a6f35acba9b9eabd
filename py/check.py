"""check.py C01 [...]: decide one property.  VERIF_SEED and VERIF_TIER select the exploration.
check.py --replay FILE: run one recorded failure again."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, sim


def registry():
    import props_solver, props_fault, props_launch, props_build
    reg = {}
    for m in (props_solver, props_fault, props_launch, props_build):
        for c in m.PROPS:
            reg[c.id] = c
    return reg


def main(argv):
    reg = registry()
    try:
        if argv and argv[0] == "--setup":
            b = build.Build([("api", "fd_n"), ("main", "cheb_c")])
            b.close()
            print("toolchain and sources are in order")
            return 0
        if argv and argv[0] == "--replay":
            return core.replay(argv[1], reg)
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = os.environ.get("VERIF_SEED", "1")
        count = None
        ids = []
        for a in argv:
            if a.startswith("--count="):
                count = int(a[8:])
            elif a.startswith("--seed="):
                seed = a[7:]
            elif a.startswith("--tier="):
                tier = a[7:]
            else:
                ids.append(a)
        rc = 0
        for i in ids:
            rc = max(rc, core.run_check(reg[i](), tier, seed, count))
        return rc
    except (core.GateError, sim.HarnessError, build.BuildError) as e:
        print("CHECK ERROR %s: %s" % (type(e).__name__, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
