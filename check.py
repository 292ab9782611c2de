#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough]   decide one property of /repo
   check.py --replay FILE                 run a recorded violation again"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vf


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        c = vf.Check(r["property"], "quick", int(os.environ.get("VERIF_SEED", "1")))
        print(json.dumps({k: v for k, v in r.items() if k in ("property", "kind", "what", "event")}, indent=1))
        if "driver" in r and "script" in r:
            for race in ([True] if r.get("race") else [False]):
                rec = c.execute(r["driver"], [r["script"]], race=race, env=r.get("env"))
                print(json.dumps(rec[0], indent=1)[:20000])
                if rec[0] and "fail" in rec[0]:
                    c.compare(r["driver"], [r["script"]], rec, "replay")
                elif rec[0] and "module" in r and "trace" in rec[0]:
                    c.validate(r["module"], [rec[0]["trace"]], "replay", constants=r.get("constants", ""))
        elif "trace" in r:
            c.validate(r["module"], [r["trace"]], "replay", constants=r.get("constants", ""))
        ev = os.path.join(vf.VERIF, "evidence", r["property"] + ".json")
        old = open(ev).read() if os.path.exists(ev) else None
        rc = c.finish()
        if old is not None:
            open(ev, "w").write(old)
        return rc
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + prop.lower())
    c = vf.Check(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(c)
        return c.finish()
    except vf.Enough as e:
        c.log(e)
        return c.finish()
    except vf.CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        if c.violations:  # what was found before counts
            return c.finish()
        return 3
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
