"""unrolled.py [pattern...]: the refutation mode of the contracts on the clean tree must refute nothing"""
import sys; sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from contracts import registry, run_once
for c in registry():
    if not c.opts.get("unroll") or sys.argv[1:] and not any(x in c.name for x in sys.argv[1:]): continue
    r = run_once(c, "quick", c.opts["unroll"]); bad = {n: o for n, o in r["obligations"].items() if o["refuted"]}
    print("%-40s %5.1fs %s %d/%d proved %s" % (c.name, r["wall"], r["error"] or "", sum(o["proved"] for o in r["obligations"].values()), sum(o["paths"] for o in r["obligations"].values()), "REFUTED " + str(list(bad)) if bad else ""))
    for n, o in bad.items(): print(o["refuted"][0]["model"][:300], o["refuted"][0]["goal"][:400])
