#!/usr/bin/env python3
import importlib, os, sys, traceback
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "lib"); sys.path.insert(0, "checks")
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
import registry, vf
pid = [a for a in sys.argv[1:] if not a.startswith("-")][0]
mod, fn = registry.CHECKS[pid]["func"].split(":")
try:
    getattr(importlib.import_module(mod), fn)(vf.Check(pid))
except vf.CheckError as e:
    print("CHECK ERROR %s: %s" % (pid, e))
    sys.exit(2)
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)
