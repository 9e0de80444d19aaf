import sys, os, json, time
sys.path.insert(0, "/verif"); sys.dont_write_bytecode = True
from contracts import registry, run_contract
pat = sys.argv[1:]
tier = os.environ.get("VERIF_TIER", "quick")
verbose = os.environ.get("V")
for c in registry():
    if pat and not any(p in c.name or p in c.props for p in pat): continue
    try: r = run_contract(c, tier)
    except Exception as e:
        import traceback; print(c.name, "CRASH", "".join(traceback.format_exc().split("  File")[-4:])); continue
    print("%-34s paths %d reach %d q %d solver %.1fs wall %.1fs %s" % (c.name, r["paths"], r["reachable"], r["queries"], r["solver_time"], r["wall"], "ERROR " + r["error"] if r["error"] else ""))
    for n, o in r["obligations"].items():
        st = "ok" if o["proved"] == o["paths"] else "REFUTED" if o["refuted"] else "unknown"
        print("    %-70s %d/%d %s" % (n, o["proved"], o["paths"], st))
        if verbose:
            for x in (o["refuted"] + o["unknown"])[:1]:
                for k, v in x.items(): print("        ", k, ":", v if isinstance(v, str) else "\n            ".join(v))
