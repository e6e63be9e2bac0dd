"""Developer entry: python3-vt -m vf.run C01 [spec ...] [--trace]"""
import sys
from . import driver
if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    driver.load_specs()
    props = [args[0]] if args and args[0] != "all" else sorted(driver.SPECS)
    for p in props:
        for r in driver.run_property(p, only=args[1:] or None, procs=1 if "--trace" in sys.argv else 8):
            n = len(r["obligations"])
            d = sum(o["status"] == "discharged" for o in r["obligations"].values())
            print(f"{p} {r['spec']}: {d}/{n} discharged, paths {r['paths']}, z3 {r['z3_queries']}q {r['z3_s']}s, {r['time_s']}s")
            for k, o in r["obligations"].items():
                if o["status"] != "discharged" or "--all" in sys.argv:
                    print("   ", k, o["status"], o["backend"], o["detail"][:1500])
            for u in r["unsupported"][:5]:
                print("    UNSUPPORTED", u[:500])
            if "--exec" in sys.argv:
                print("    executed", r["executed"])
