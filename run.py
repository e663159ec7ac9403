#!/usr/bin/env python3
"""run.py <property id>: decide one property of /repo by static analysis (see DESIGN.md)."""
import importlib, os, sys, traceback
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    from sa.probe import Ctx, Internal
    import threading
    rc = [3]
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    def go():
        ctx = Ctx(pid, tier if tier in ("quick", "thorough") else "quick", seed)
        try:
            mod = importlib.import_module("checks." + pid.lower())
            rc[0] = mod.check(ctx)
        except Internal as e:
            print("ANALYSIS ERROR property=%s %s" % (pid, e))
            rc[0] = 3
        except Exception:
            traceback.print_exc()
            rc[0] = 3
        finally:
            ctx.close()
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return rc[0]


if __name__ == "__main__":
    sys.exit(main())
