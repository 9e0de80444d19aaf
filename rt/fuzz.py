import sys, random, collections, json, multiprocessing as mp, time, os
sys.path.insert(0, os.path.dirname(__file__)); sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))
import inst, oracle
def one(seed):
    fam = sys.argv[3] if len(sys.argv) > 3 else None
    I = inst.gen(random.Random(seed), fam)
    t = time.time()
    r = inst.run_instance(I)
    return seed, I, r, oracle.check(I, r), time.time() - t
if __name__ == "__main__":
    a, b = int(sys.argv[1]), int(sys.argv[2])
    os.environ["OMP_NUM_THREADS"] = "1"
    cnt = collections.Counter(); ex = {}; fams = collections.Counter()
    with mp.Pool(8, maxtasksperchild=100) as p:
        for seed, I, r, viol, dt in p.imap_unordered(one, range(a, b), chunksize=4):
            fams[I["fam"]] += 1
            for prop, txt in viol:
                key = (I["fam"], prop, "dive" if I["solve"].get("dive") else "", "cspy" if I["solve"].get("cspy") else "lp", txt[:60] if prop == "error" else "")
                cnt[key] += 1; ex.setdefault(key, []).append((seed, txt))
    print(fams)
    for k, v in sorted(cnt.items(), key=str): print(v, k, min(ex[k]))
