"""unit.py UNIT N [SEED0]: runs one bounded unit N times on VP_REPO (default /repo), prints a tally (development aid)"""
import sys, os, random, collections, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rt")); sys.dont_write_bytecode = True
import bounded as B
if __name__ == "__main__":
    u, n = sys.argv[1], int(sys.argv[2]); s0 = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    prop = sys.argv[4] if len(sys.argv) > 4 else "C01"
    c = collections.Counter(); ex = {}
    dn = os.open(os.devnull, os.O_WRONLY); out = os.fdopen(os.dup(1), "w"); os.dup2(dn, 1); os.dup2(dn, 2)
    B.PLAN[prop] = (B.PLAN[prop][0], {"cover", "error", "shape", "type", "cap", "stops", "dur", "tw", "pd", "sdc", "cost", "report", "fleet", "prep", "price", "check", "sched", "lock", "hyper", "best"}, [])
    kind = "unit" if u.startswith("unit") else "e2e"
    with mp.Pool(6, maxtasksperchild=100) as p:
        for job, st, tag, text, data, nt in p.imap_unordered(B.one, [(kind, u, s0 + i, prop) for i in range(n)]):
            c[st, tag] += 1; ex.setdefault((st, tag), (job[2], text[:300]))
    for k, v in c.items(): print(v, k, ex[k], file=out)
