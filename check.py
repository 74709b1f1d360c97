#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
sys.dont_write_bytecode = True
import vlib
import registry


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        a = [x for x in a if x != tier]
    prop = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn = registry.CHECKS[prop]
    run = vlib.Run(prop, tier, seed)
    rc = 0
    try:
        getattr(importlib.import_module(mod), fn)(run)
        for k in registry.known_findings(prop):
            run.known.append(k)
            vlib.log("KNOWN-FINDING: property=%s %s" % (prop, k))
        run.evidence()
        rc = 1 if run.violations else 0
        vlib.log("%s %s: %s (%.0fs, %d traces, %d events, %d states)" % (
            prop, tier, "VIOLATED" if rc else "held", __import__("time").time() - run.t0, run.traces, run.events, run.states))
    except vlib.MachineryError as e:
        vlib.log("MACHINERY ERROR: %s" % e)
        rc = 1 if run.violations else 3
    except Exception:
        traceback.print_exc()
        rc = 1 if run.violations else 3
    finally:
        run.close()
    sys.exit(rc)


main()
