"""regress.py [procs]: every contract on the current tree, in parallel, plus the refutation mode; prints what is not discharged"""
import sys, time, multiprocessing as mp
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from contracts import registry, run_contract, run_once
def one(a):
    i, mode = a; c = registry()[i]
    try: r = run_contract(c, "quick") if not mode else run_once(c, "quick", c.opts["unroll"])
    except Exception as e: return c.name, mode, 0, "CRASH %r" % e, {}  # noqa
    return c.name, mode, r["wall"], r["error"], {n: (o["proved"], o["paths"], len(o["refuted"])) for n, o in r["obligations"].items()}
if __name__ == "__main__":
    R = registry(); jobs = [(i, 0) for i in range(len(R))] + [(i, 1) for i in range(len(R)) if R[i].opts.get("unroll")]
    t0 = time.time(); tot = dis = 0
    with mp.Pool(int(sys.argv[1]) if sys.argv[1:] else 6, maxtasksperchild=1) as p:
        for n, mode, w, err, ob in p.imap_unordered(one, jobs, chunksize=1):
            bad = {k: v for k, v in ob.items() if (v[0] < v[1] if not mode else v[2])}
            if not mode: tot += len(ob); dis += len(ob) - len(bad)
            print("%-42s %s %6.1fs %s %s" % (n, "unrolled" if mode else "", w, (err or "") if not mode or (err or "").startswith("CRASH") else "", bad or ""), flush=True)
    print("contracts %d obligations %d discharged %d wall %.0fs" % (len(R), tot, dis, time.time() - t0))
