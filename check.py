#!/usr/bin/env python3
"""check.py PROP  (run with python3-vt).  Layer A: contracts discharged by pyvc on
the current source of /repo.  Layer B: the same contracts executed on the real
code (CPython) on bounded inputs; finds concrete inputs for replay files.
Exit 0 held / 1 with a VIOLATION line / 2 error of the check."""
import sys, os, json, time, subprocess, multiprocessing as mp, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = {"quick": 34.0, "thorough": 600.0}.get(TIER, 34.0)
A_LIMIT = {"quick": 360, "thorough": 740}.get(TIER, 360)
OUT = os.path.join(HERE, "evidence")
ASSUME = [
 "machine arithmetic: Python floats are treated as mathematical reals, ints as integers",
 "logging and print calls are dropped by the extraction",
 "external contracts (networkx, pulp/CBC, cspy, time, random) are assumed as stated in /verif/pyvc/ext.py and DESIGN.md",
 "edge cost lists are not shared between edges of the input network (no aliasing of nested containers)",
]


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO, VP_REPO=REPO, PYTHONHASHSEED="0")
    return e


def start_b(prop, budget, seed, procs):
    e = env(); e["VP_PROCS"] = str(procs)
    return subprocess.Popen([PY, os.path.join(HERE, "rt", "bounded.py"), prop, str(seed), str(budget)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e)


def end_b(p, budget):
    try: out, _ = p.communicate(timeout=budget + 120)
    except subprocess.TimeoutExpired:
        p.kill(); out = ""
    try: return json.loads(out.strip().split("\n")[-1])
    except (ValueError, IndexError): return None


def layer_a(prop, procs):
    """-> list of contract results"""
    try:
        from contracts import registry, run_contract
    except ImportError: return []
    todo = [c for c in registry() if prop in c.props]
    todo.sort(key=lambda c: -c.cost)
    q = mp.Queue(); live = {}; res = {}
    t0 = time.time()
    def child(c):
        try: r = run_contract(c, TIER)
        except BaseException as e: r = dict(name=c.name, error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])  # noqa
        q.put(r); q.close(); q.join_thread(); os._exit(0)
    pend = list(todo)
    while pend or live:
        while pend and len(live) < procs:
            c = pend.pop(0); p = mp.Process(target=child, args=(c,)); p.start(); live[c.name] = (p, c, time.time())
        try:
            while True:
                r = q.get(timeout=0.05); res[r["name"]] = r
        except Exception: pass  # noqa: queue empty
        for n, (p, c, t) in list(live.items()):
            if n in res: p.join(2); p.kill(); del live[n]
            elif not p.is_alive() and time.time() - t > 1:
                p.join()
                try: r = q.get(timeout=0.3); res[r["name"]] = r
                except Exception: res.setdefault(n, dict(name=n, error="contract process died"))  # noqa
                live.pop(n, None)
            elif time.time() - t > c.limit(TIER) or time.time() - t0 > A_LIMIT:
                p.kill(); p.join(); res[n] = dict(name=n, error="time limit"); del live[n]
        if time.time() - t0 > A_LIMIT and pend:
            for c in pend: res[c.name] = dict(name=c.name, error="not started: time limit")
            pend = []
    for c in todo:
        res[c.name].setdefault("targets", c.targets); res[c.name].setdefault("what", c.what)
    return [res[c.name] for c in todo]


def known(prop):
    """known findings of this property, replayed on the current tree"""
    out = []
    for l in open(os.path.join(HERE, "known_findings.jsonl")):
        if not l.strip(): continue
        d = json.loads(l)
        if d.get("status") != "open" or prop not in d["property"].split(): continue
        r = subprocess.run([PY, os.path.join(HERE, "rt", "known.py"), d["id"]], capture_output=True, text=True, env=env(), timeout=120)
        if "STILL-FAILS" in r.stdout: out.append(d)
    return out


def replay_file(prop, tag, data):
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(OUT, "replay", "%s-%s-%s.json" % (prop, tag, h))
    json.dump(data, open(p, "w"), indent=1, default=str)
    return p


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    b = start_b(prop, BUDGET, SEED, 5)
    A = layer_a(prop, 4)
    B = end_b(b, BUDGET)
    if B is None:
        print("ERROR: bounded layer gave no answer"); return 2
    obl = dis = refuted = unknown = 0; reports = []; bad = []; undec = []; backends = {}; stime = 0.0; queries = 0; assume = set(ASSUME); funcs = set(); inl = set()
    for r in A:
        stime += r.get("solver_time", 0); queries += r.get("queries", 0)
        for k, v in r.get("backends", {}).items(): backends[k] = backends.get(k, 0) + v
        assume |= set(r.get("assumptions", []))
        names = {}
        for n, o in r.get("obligations", {}).items():
            obl += 1
            st = "discharged" if o["proved"] == o["paths"] and o["paths"] > 0 and not r.get("error") else "refuted" if o["refuted"] else "undecided"
            names[n] = st
            if st == "discharged": dis += 1
            elif st == "refuted": refuted += 1; bad.append((r, n, o))
            else: unknown += 1; undec.append("%s/%s: %s" % (r["name"], n, (o["unknown"] or [{}])[0].get("why", r.get("error", ""))))
        if r.get("error") and not r.get("obligations"):
            obl += 1; unknown += 1; undec.append("%s: %s" % (r["name"], r["error"]))
        if r.get("obligations"):
            funcs |= set(r.get("targets", [])); inl |= set(r.get("inlined", []))
        reports.append(dict(contract=r["name"], what=r.get("what"), functions=r.get("targets"), obligations=names, paths=r.get("paths"), reachable=r.get("reachable"), error=r.get("error"), solver_s=round(r.get("solver_time", 0), 2), wall_s=round(r.get("wall", 0), 2)))
    lines = []; nviol = 0
    for v in B["violations"]:
        nviol += 1
        p = replay_file(prop, v["tag"], dict(property=prop, kind="bounded", job=v["job"], tag=v["tag"], text=v["text"], data=v["data"],
                        obligations_refuted=["%s/%s" % (x[0]["name"], x[1]) for x in bad], obligations_undecided=undec[:20],
                        how_to_replay="PYTHONPATH=%s %s %s --replay THIS_FILE" % (REPO, PY, os.path.join(HERE, "rt", "bounded.py"))))
        if nviol == 1: lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s: %s" % (v["tag"], v["text"][:300]))
    if bad and not nviol:
        # look longer for a concrete failing input before reporting the refuted obligation alone
        B2 = end_b(start_b(prop, BUDGET * 1.5, SEED + 7919, 8), BUDGET * 1.5) or {"violations": [], "evaluations": 0, "nontrivial": 0}
        B["evaluations"] += B2["evaluations"]; B["nontrivial"] += B2["nontrivial"]
        r, n, o = bad[0]
        d = dict(property=prop, kind="obligation", contract=r["name"], functions=r.get("targets"), obligation=n, failed=[dict(contract=x[0]["name"], obligation=x[1], solver=x[2]["refuted"][:2]) for x in bad[:6]])
        if B2["violations"]:
            v = B2["violations"][0]; d.update(job=v["job"], tag=v["tag"], text=v["text"], data=v["data"], how_to_replay="PYTHONPATH=%s %s %s --replay THIS_FILE" % (REPO, PY, os.path.join(HERE, "rt", "bounded.py")))
            lines.append("VIOLATION property=%s replay=%s" % (prop, replay_file(prop, "obligation", d)))
        else: lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_file(prop, "obligation", d)))
        nviol += len(bad)
    for r, n, o in bad: print("  obligation %s/%s refuted" % (r["name"], n))
    kf = known(prop)
    for d in kf: print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, wall_s=round(time.time() - t0, 2), violations=nviol, assumptions=sorted(assume),
              coverage=dict(obligations=obl, discharged=dis, refuted=refuted, undecided=unknown, undecided_list=undec[:60],
                            checker_cmd="python3-vt /verif/check.py %s" % prop, trusted_base=["pyvc (VC generator, /verif/pyvc)", "z3 5.3.2", "cvc5 1.1.2", "external contracts in pyvc/ext.py"],
                            functions_under_contract=sorted(funcs), functions_inlined=sorted(inl - funcs), backends=backends, solver_s=round(stime, 2), solver_queries=queries, contracts=reports,
                            bounded_label="bounded (executions of the real code, never counted as proved)", evaluations=B["evaluations"], distinct_nontrivial=B["nontrivial"],
                            rule="random small networks (2-7 customers) and option mixes per family %s; non-trivial: the contract was evaluated on a multi-customer route or a decided unit case" % sorted(B.get("kinds", {})),
                            samples=B["samples"] or [{"kinds": B.get("kinds")}], skipped=B.get("skipped", {}), bounded_wall_s=B.get("wall"), known_findings=[d["id"] for d in kf]))
    json.dump(ev, open(os.path.join(OUT, prop + ".json"), "w"), indent=1, default=str)
    print("%s: obligations %d discharged %d refuted %d undecided %d | bounded %d evaluations (%d non-trivial) | %.1fs" % (prop, obl, dis, refuted, unknown, B["evaluations"], B["nontrivial"], time.time() - t0))
    for l in lines: print(l)
    if lines: return 1
    if B["evaluations"] == 0 or B["nontrivial"] == 0:
        print("ERROR: nothing was evaluated"); return 2
    return 0


if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException: traceback.print_exc(); rc = 2  # noqa
    sys.stdout.flush(); os._exit(rc)
