"""bounded.py PROP SEED BUDGET_S  -> one JSON line on the real stdout.
Runs the bounded contract executions of one property in a process pool."""
import sys, os, json, random, time, signal, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))
sys.dont_write_bytecode = True
import inst as I_, oracle as O, units as U

ALL = ["cvrp", "stops", "dur", "tw", "sdc", "pd", "mixed", "periodic", "drop", "fleet", "fixed", "lock", "heur", "init", "plain", "tw+", "span", "greedy", "mixlock", "mixfleet", "mixtw", "sdctw", "perio2", "mixsdc"]
# property: (e2e families, tags that break it, [(unit, weight)])
PLAN = {
 "C01": (ALL, {"cover", "error"}, [("unit_master", 2), ("unit_stopped", 1), ("unit_star", 1), ("unit_lp", 1), ("unit_greedyprice", 1), ("unit_convert", 1), ("unit_walk", 1)]),
 "C02": (ALL, {"shape", "type", "error"}, [("unit_lp", 2), ("unit_greedyprice", 1), ("unit_cw", 1), ("unit_walk", 2)]),
 "C03": (["cvrp", "mixed", "mixfleet", "greedy", "heur", "init", "drop", "fixed", "periodic", "tw+", "mixlock", "lock", "mixtw"], {"cap", "type", "error"}, [("unit_lp", 2), ("unit_cspy", 2), ("unit_greedyprice", 2), ("unit_cw", 2), ("unit_convert", 1)]),
 "C04": (["stops", "stops", "cvrp", "greedy", "heur", "sdc", "tw", "mixed", "dur"], {"stops", "error"}, [("unit_lp", 2), ("unit_cspy", 2), ("unit_greedyprice", 2), ("unit_cw", 2), ("unit_stops", 1)]),
 "C05": (["dur", "dur", "greedy", "heur", "tw+", "mixtw", "pd", "sdctw", "drop"], {"dur", "error"}, [("unit_lp", 2), ("unit_cspy", 2), ("unit_greedyprice", 2), ("unit_cw", 2)]),
 "C06": (["tw", "tw+", "mixtw", "sdctw", "pd"], {"tw", "error"}, [("unit_lp", 2), ("unit_cspy", 2)]),
 "C07": (["pd"], {"pd", "error", "shape", "cover"}, [("unit_lp_pd", 2)]),
 "C08": (["sdc", "sdctw", "mixsdc"], {"sdc", "cap", "error"}, [("unit_lp_sdc", 2), ("unit_cspy_sdc", 2)]),
 "C09": (["mixed", "fixed", "drop", "span", "mixfleet", "mixlock", "lock", "cvrp", "fleet", "init", "heur"], {"cost", "error"}, [("unit_lp", 1), ("unit_greedyprice", 1), ("unit_cw", 1), ("unit_master", 1), ("unit_convert", 1), ("unit_walk", 1)]),
 "C10": (["cvrp", "mixed", "tw", "tw+", "dur", "sdc", "sdctw", "mixsdc", "pd", "mixtw", "heur", "lock"], {"report", "error"}, []),
 "C11": (["fleet", "fleet", "mixfleet", "drop", "fixed"], {"fleet", "error"}, [("unit_master", 4), ("unit_star", 1)]),
 "C12": (["cvrp", "tw", "mixtw", "sdc"], {"error"}, [("unit_prune", 3), ("unit_stops", 3), ("unit_cg", 2)]),
 "C13": ([], {"price", "error"}, [("unit_lp", 3), ("unit_cg", 3), ("unit_weight", 1)]),
 "C14": ([], {"check", "error"}, [("unit_checks", 1)]),
 "C15": (["periodic", "perio2"], {"sched", "error"}, [("unit_sched", 2)]),
 "C16": (["lock", "mixlock"], {"lock", "error"}, []),
 "C17": (["heur"], {"cover", "cap", "dur", "stops", "shape", "cost", "error"}, [("unit_cw", 3)]),
 "C18": (["resolve", "resolve", "mixres"], {"cap", "dur", "stops", "cover", "shape", "tw", "error", "cost"}, []),
 "C19": (["hyper"], {"error"}, [("unit_hyper", 4)]),
}
SPECIAL = {
 "unit_lp_pd": lambda r: U.unit_lp(r, ("pd",)), "unit_lp_sdc": lambda r: U.unit_lp(r, ("sdc", "sdctw", "mixsdc")), "unit_cspy_sdc": lambda r: U.unit_cspy(r, ("sdc", "sdctw", "mixsdc")),
}
# which unit results matter to a property besides its own tags
EXTRA = {"C07": {"pd", "price"}, "C08": {"sdc", "cap", "price"}, "C11": {"fleet"}, "C01": {"cover"}, "C09": {"cost", "best"}, "C19": {"hyper"}, "C12": {"prep", "price"}, "C06": set(), "C04": {"stops"}}


class TimeUp(Exception): pass


def reap():
    me = str(os.getpid())
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                st = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                if st[1] == me: os.kill(int(p), signal.SIGKILL)
            except OSError: pass


def gen_e2e(fam, seed):
    rng = random.Random(seed)
    if fam == "hyper":
        I = I_.gen(rng, rng.choice(["cvrp", "dur", "tw", "mixed", "stops", "sdc", "plain", "resolve"]))
        I["solve"]["pricing_strategy"] = "Hyper"; I["solve"].pop("max_iter", None)
        return I
    return I_.gen(rng, fam)


def one(job):
    kind, name, seed, prop = job
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeUp()))
    signal.alarm(15)
    try:
        if kind == "e2e":
            I = gen_e2e(name, seed)
            res = I_.run_instance(I)
            if "TimeUp" in res.get("error", ""): return job, "skip", "timeout", "", None, 0
            v = [x for x in O.check(I, res) if x[0] in PLAN[prop][1]]
            nt = int("error" not in res and any(len(r) > 3 for r in res.get("routes", {}).values()))
            if v: return job, "viol", v[0][0], v[0][1], {"inst": I, "res": json.loads(json.dumps(res, default=str))}, nt
            return job, "ok" if nt else "trivial", "", "", ({"inst": I, "routes": res.get("routes")} if seed % 97 == 0 else None), nt
        f = SPECIAL.get(name) or getattr(U, name)
        st, tag, text, data = f(random.Random(seed))
        tags = PLAN[prop][1] | EXTRA.get(prop, set())
        if st == "viol" and tag not in tags: st = "ok"
        return job, st, tag, text, (data if st == "viol" or seed % 97 == 0 else None), int(st == "ok")
    except U.Skip as e:
        return job, "skip", "interface", str(e), None, 0
    except TimeUp:
        return job, "skip", "timeout", "", None, 0
    except Exception as e:  # noqa: an exception escaping the real code inside a unit
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        rep = os.path.realpath(os.environ.get("VP_REPO", "/repo"))
        inrepo = any(os.path.realpath(f.filename).startswith(rep) for f in tb)
        if isinstance(e, (AttributeError, TypeError, NameError)) or not inrepo:
            return job, "skip", "interface", "%r %s" % (e, traceback.format_exc()[-300:]), None, 0
        return job, "viol", "error", "%r" % e + " | " + traceback.format_exc()[-600:], {}, 0
    finally:
        signal.alarm(0); reap()


def jobs(prop, seed):
    fams, _, units = PLAN[prop]
    rng = random.Random("%s/%s" % (prop, seed))
    kinds = [("e2e", f) for f in fams]
    if units:
        w = max(1, len(fams)) if fams else 1
        for u, k in units: kinds += [("unit", u)] * max(1, (k * w) // 3)
    while True:
        rng.shuffle(kinds)
        for k, n in kinds: yield (k, n, rng.randrange(10**9), prop)


def main():
    prop, seed, budget = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    out = os.fdopen(os.dup(1), "w"); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    os.environ["OMP_NUM_THREADS"] = "1"
    t0 = time.time(); ev = nt = 0; skip = {}; viol = []; samples = []; kinds = {}
    g = jobs(prop, seed)
    nproc = int(os.environ.get("VP_PROCS", "8"))
    with mp.Pool(nproc, maxtasksperchild=150) as pool:
        pending = []
        def submit(): pending.append(pool.apply_async(one, (next(g),)))
        for _ in range(nproc * 3): submit()
        while pending:
            r = next((q for q in pending if q.ready()), None)
            if r is None:
                if time.time() - t0 > budget + 20: break       # a stuck external solver is not waited for
                time.sleep(0.005); continue
            pending.remove(r)
            job, st, tag, text, data, n = r.get()
            ev += 1; nt += n
            kinds[job[1]] = kinds.get(job[1], 0) + 1
            if st == "skip": key = tag + ":" + job[1]; skip.setdefault(key, [0, text]); skip[key][0] += 1
            if st == "viol": viol.append({"job": job, "tag": tag, "text": text, "data": data})
            elif data is not None and len(samples) < 3: samples.append({"case": job[1], "seed": job[2], "data": data})
            if time.time() - t0 < budget and len(viol) < 3: submit()
        pool.terminate()
    json.dump({"evaluations": ev, "nontrivial": nt, "kinds": kinds, "skipped": skip, "violations": viol, "samples": samples, "wall": time.time() - t0}, out, default=str)
    out.write("\n"); out.flush()


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2])); r = one(tuple(d["job"])); print(json.dumps(r, default=str, indent=1)); sys.exit(1 if r[1] == "viol" else 0)
    main()
