"""Instances of the routing problem as plain data, a seeded generator, and a
runner that feeds one to the real vrpy from /repo.  Used only by the bounded
contract executions and by replays; no verdict of a proof depends on it."""
import json, random, sys, os, logging, time

REPO = os.environ.get("VP_REPO", "/repo")


def build_graph(inst):
    from networkx import DiGraph
    G = DiGraph()
    for v, a in inst["nodes"]:
        G.add_node(v, **dict(a))
    for u, v, a in inst["edges"]:
        a = dict(a)
        if isinstance(a.get("cost"), list):
            a["cost"] = list(a["cost"])
        G.add_edge(u, v, **a)
    return G


def extract(p, kw):
    out = {}
    out["routes"] = {k: list(v) for k, v in p.best_routes.items()}
    out["types"] = {k: (int(v) if v is not None else None) for k, v in dict(p.best_routes_type).items()}
    for name in ("best_value", "best_routes_cost", "best_routes_load", "node_load",
                 "best_routes_duration", "arrival_time", "departure_time", "schedule"):
        try:
            out[name] = getattr(p, name)
        except Exception as e:  # noqa
            out[name + "!"] = type(e).__name__ + ": " + str(e)
    try:
        out["dropped"] = list(p._dropped_nodes) if kw.get("drop_penalty") else []
    except AttributeError:
        out["dropped"] = None
    try:
        out["lb"] = list(p._lower_bound)
    except AttributeError:
        out["lb"] = None
    return out


def run_instance(inst):
    """-> dict(result) ; 'error' key if an exception escaped."""
    import numpy, random as _r
    from vrpy import VehicleRoutingProblem
    logging.disable(logging.CRITICAL)
    _r.seed(inst.get("seed", 0)); numpy.random.seed(inst.get("seed", 0))
    G = build_graph(inst)
    try:
        kw = json.loads(json.dumps(inst["kw"]))
        p = VehicleRoutingProblem(G, **kw)
        for pre in inst.get("history", []):        # earlier solves with other options
            for k, v in pre["set"].items():
                setattr(p, k, json.loads(json.dumps(v)))
            if pre.get("types"):      # a network with costs for that many vehicle types
                for e in p.G.edges(): p.G.edges[e]["cost"] = [p.G.edges[e]["cost"][0]] * pre["types"]
            try:
                p.solve(**json.loads(json.dumps(pre["solve"])))
            except Exception:  # noqa  an earlier call may be infeasible
                pass
            if pre.get("types"):
                for u, v, a in inst["edges"]: p.G.add_edge(u, v, cost=list(a["cost"]))
                if p.G.has_edge("Source", "Sink"): p.G.remove_edge("Source", "Sink")
        if inst.get("history"):
            for k in ("num_stops", "load_capacity", "duration", "time_windows", "fixed_cost"):
                setattr(p, k, json.loads(json.dumps(inst["kw"].get(k, 0 if k == "fixed_cost" else (False if k == "time_windows" else None)))))
        p.solve(**json.loads(json.dumps(inst["solve"])))
        return extract(p, inst["kw"])
    except Exception as e:  # noqa
        import traceback
        return {"error": type(e).__name__ + ": " + str(e), "trace": traceback.format_exc()[-1500:]}


FAMS = ["cvrp", "stops", "dur", "tw", "sdc", "pd", "mixed", "periodic", "drop", "fleet", "fixed", "lock", "heur", "init", "plain", "tw+", "span", "greedy", "resolve", "mixlock", "mixfleet", "mixtw", "sdctw", "perio2", "mixsdc", "mixres"]


def gen(rng, fam=None, dive=False):
    fam = fam or rng.choice(FAMS)
    big = rng.random() < 0.12
    n = rng.randint(6, 8) if big else rng.randint(2, 5)
    if fam in ("pd", "span", "periodic", "perio2"):
        n = min(n, 4)
    if fam in ("mixsdc", "mixres"): n = min(n, 5)
    names = list(range(1, n + 1))
    if rng.random() < 0.2:
        names = ["c%d" % i for i in names]
    elif rng.random() < 0.15:
        names = [10 * i for i in names]
    C = names
    if fam == "pd":
        n = rng.choice([2, 4, 4, 6]); C = list(range(1, n + 1))
    mixed = fam in ("mixed", "mixlock", "mixfleet", "mixtw", "mixsdc", "mixres")
    K = rng.randint(2, 3) if mixed else 1
    sym = rng.random() < 0.3
    hi = rng.choice([12, 12, 60])
    fl = rng.random() < 0.2
    def c():
        x = rng.randint(1, hi)
        return x + rng.choice([0, 0.5, 0.25]) if fl else x
    nodes, edges = [], []
    dens = rng.choice([1.0, 1.0, 0.7])
    if fam == "greedy" or fam == "heur": dens = 1.0 if rng.random() < .8 else 0.7
    metric = rng.random() < 0.3
    pos = {v: (rng.randint(0, 20), rng.randint(0, 20)) for v in C + ["D"]}
    def dist(u, v):
        a, b = pos["D" if u == "Source" else u], pos["D" if v == "Sink" else v]
        return abs(a[0] - b[0]) + abs(a[1] - b[1])
    cost = {}
    for u in ["Source"] + C:
        for v in C + ["Sink"]:
            if u == v or (u == "Source" and v == "Sink"): continue
            if u != "Source" and v != "Sink" and rng.random() > dens: continue
            if metric: cc, t = [dist(u, v) + 3 * k for k in range(K)], dist(u, v)
            elif sym and (v, u) in cost: cc, t = cost[(v, u)]
            else:
                cc, t = [c() for _ in range(K)], rng.randint(1, 8)
            cost[(u, v)] = (cc, t)
            a = {"cost": list(cc) if mixed else cc[0]}
            a["time"] = t
            edges.append([u, v, a])
    kw, sv = {}, {}
    att = {v: {} for v in ["Source"] + C + ["Sink"]}
    tt = {(u, v): a["time"] for u, v, a in edges}
    for v in C: att[v]["demand"] = rng.randint(1, 6) if rng.random() < .93 else 0
    if fam in ("cvrp", "drop", "fleet", "fixed", "lock", "heur", "init", "periodic", "tw+", "greedy", "resolve") or rng.random() < 0.2:
        if fam != "pd" and not mixed: kw["load_capacity"] = rng.randint(6, 14)
    if fam == "stops" or rng.random() < 0.15 or (fam in ("greedy", "heur", "cvrp") and rng.random() < .4): kw["num_stops"] = rng.randint(1, 4)
    svc = fam in ("dur", "tw", "tw+", "heur", "greedy", "mixtw", "sdctw", "resolve") and rng.random() < 0.7 or fam == "pd" and rng.random() < .4
    if svc:
        for v in C: att[v]["service_time"] = rng.randint(0, 4)
    rt = {v: tt["Source", v] + tt[v, "Sink"] + att[v].get("service_time", 0) for v in C}
    if fam == "dur" or (fam in ("cvrp", "heur", "tw+", "init", "greedy", "mixtw", "pd", "sdctw", "periodic", "drop") and rng.random() < 0.4):
        if fam != "pd":
            kw["duration"] = max(rt.values()) + rng.randint(0, 12)
    if fam in ("tw", "tw+", "mixtw", "sdctw"):
        kw["time_windows"] = True
        s0 = rng.choice([0, 0, 0, rng.randint(1, 6)])
        if s0: att["Source"]["lower"] = s0
        for v in C:
            lo = rng.randint(0, 20)
            att[v]["lower"] = lo
            att[v]["upper"] = max(lo, s0 + tt["Source", v]) + rng.choice([0, 0, 1, rng.randint(0, 15), rng.randint(0, 15), rng.randint(10, 40)])
        if rng.random() < 0.5:
            att["Sink"]["upper"] = max(max(att[v]["lower"], s0 + tt["Source", v]) + att[v].get("service_time", 0) + tt[v, "Sink"] for v in C) + rng.randint(0, 10)
            if rng.random() < .3: att["Sink"]["lower"] = rng.randint(0, att["Sink"]["upper"])
        att["Source"]["upper"] = 1000 if (rng.random() < .5 or s0) else 0
        if "duration" in kw:
            kw["duration"] = max(max(att[v]["lower"], s0 + tt["Source", v]) + att[v].get("service_time", 0) + tt[v, "Sink"] for v in C) + rng.randint(0, 12)
    if fam in ("sdc", "sdctw", "mixsdc"):
        kw["distribution_collection"] = True
        for v in C: att[v]["collect"] = rng.randint(0, 6)
        kw["load_capacity"] = rng.randint(6, 14)
    if fam == "pd":
        kw["pickup_delivery"] = True
        kw["load_capacity"] = rng.randint(6, 12)
        kw.pop("num_stops", None)
        if rng.random() < .2: kw["num_stops"] = rng.randint(2, 4)
        perm = C[:]
        if rng.random() < .5: rng.shuffle(perm)
        for q in range(0, n, 2):
            a, b = perm[q], perm[q + 1]
            d = rng.randint(1, 6)
            att[a]["demand"] = d; att[b]["demand"] = -d; att[a]["request"] = b
            if (a, b) not in tt:
                edges.append([a, b, {"cost": c(), "time": 3}]); tt[a, b] = 3
        if rng.random() < .3:
            kw["duration"] = max(tt["Source", perm[q]] + tt[perm[q], perm[q + 1]] + tt[perm[q + 1], "Sink"] + att[perm[q]].get("service_time", 0) + att[perm[q + 1]].get("service_time", 0) for q in range(0, n, 2)) + rng.randint(0, 10)
        if rng.random() < .3:
            kw["time_windows"] = True
            for q in range(0, n, 2):
                a, b = perm[q], perm[q + 1]
                att[a]["lower"] = rng.randint(0, 8); att[a]["upper"] = max(att[a]["lower"], tt["Source", a]) + rng.randint(0, 12)
                t = max(att[a]["lower"], tt["Source", a]) + att[a].get("service_time", 0) + tt[a, b]
                att[b]["lower"] = rng.randint(0, 15); att[b]["upper"] = max(att[b]["lower"], t, tt["Source", b]) + rng.randint(0, 20)
            att["Sink"]["upper"] = 200
            # the tightened window of a delivery starts at its direct link: keep round trips feasible
            for q in range(0, n, 2):
                a, b = perm[q], perm[q + 1]
                att[b]["upper"] = max(att[b]["upper"], tt["Source", b] + 1)
            if "duration" in kw: kw["duration"] += 60
        sv["cspy"] = False
        sv["pricing_strategy"] = "Exact"
    if mixed:
        kw["mixed_fleet"] = True
        caps = [rng.randint(3, 14) for _ in range(K)]
        if max(caps) < 6: caps[0] = 6
        kw["load_capacity"] = caps
        if rng.random() < .5: kw["fixed_cost"] = [rng.randint(0, 9) for _ in range(K)]
        if not kw.get("fixed_cost") or not any(kw["fixed_cost"]): kw.pop("fixed_cost", None)
        if fam == "mixfleet" or rng.random() < .3:
            kw["num_vehicles"] = [rng.randint(1, n) for _ in range(K)]
            if rng.random() < .6: kw["num_vehicles"][caps.index(max(caps))] = n
    if fam in ("periodic", "perio2"):
        kw["periodic"] = rng.randint(2, 3)
        for v in C:
            if rng.random() < .5: att[v]["frequency"] = rng.randint(1, kw["periodic"])
        if rng.random() < .5: kw["num_vehicles"] = rng.randint(1, 3)
        if fam == "perio2":
            for v in C:
                if rng.random() < .5: att[v]["demand"] = 0
            if rng.random() < .5: kw["num_stops"] = rng.randint(1, 2)
    if fam == "drop":
        kw["drop_penalty"] = rng.randint(1, 2 * hi)
        if rng.random() < .6: kw["num_vehicles"] = rng.randint(1, 2)
    if fam == "fleet":
        kw["num_vehicles"] = rng.choice([rng.randint(1, n), n])
        if rng.random() < .5: kw["use_all_vehicles"] = True
    if fam == "fixed":
        kw["fixed_cost"] = rng.randint(1, 20)
        if rng.random() < .3: kw["num_vehicles"] = n
    if fam == "heur": sv["heuristic_only"] = True
    if fam in ("lock", "mixlock"):
        perm = C[:]; rng.shuffle(perm)
        es = {(u, v) for u, v, _ in edges}
        pre, at = [], 0
        for _ in range(rng.randint(1, 2)):
            k = rng.randint(1, 3)
            r = ["Source"] + perm[at:at + k] + ["Sink"]
            if len(r) < 3: break
            if fam == "lock" and not pre and rng.random() < .15: r = r[:-1]
            at += k
            if all((a, b) in es for a, b in zip(r, r[1:])): pre.append(r)
        cap = kw.get("load_capacity")
        mx = (max(cap) if isinstance(cap, list) else cap) if cap else 1e9
        pre = [r for r in pre if sum(att[v].get("demand", 0) for v in r) <= mx]
        if pre: sv["preassignments"] = pre
        kw.pop("num_stops", None); kw.pop("num_vehicles", None)
    if fam == "init":
        sv["initial_routes"] = [["Source", v, "Sink"] for v in C]
        if rng.random() < .4 and len(C) > 2:      # one longer feasible route
            es = {(u, v) for u, v, _ in edges}
            a, b = C[0], C[1]
            if (a, b) in es and att[a]["demand"] + att[b]["demand"] <= kw["load_capacity"] and kw.get("num_stops", 9) >= 2 and \
               kw.get("duration", 1e9) >= tt["Source", a] + tt[a, b] + tt[b, "Sink"] + att[a].get("service_time", 0) + att[b].get("service_time", 0):
                sv["initial_routes"] = [["Source", a, b, "Sink"]] + [["Source", v, "Sink"] for v in C[2:]]
    if fam == "mixed" and rng.random() < .4:      # several customers on one initial route
        es = {(u, v) for u, v, _ in edges}
        perm = C[:]; rng.shuffle(perm); rs = []
        for v in perm:
            r = rs[-1] if rs else None
            if r and (r[-2], v) in es and sum(att[x].get("demand", 0) for x in r[1:-1] + [v]) <= max(caps) and len(r) - 2 < kw.get("num_stops", 9) and rng.random() < .8: r.insert(-1, v)
            else: rs.append(["Source", v, "Sink"])
        sv["initial_routes"] = rs
    if fam == "span":
        kw["minimize_global_span"] = True; sv["cspy"] = False
    if fam not in ("pd", "span"):
        sv["cspy"] = rng.random() < .5 or n > 5
        sv["pricing_strategy"] = rng.choice(["Exact", "BestEdges1", "BestEdges2", "BestPaths", "Hyper"])
        if fam == "greedy" or rng.random() < .15: sv["greedy"] = True
        if sv["cspy"] and rng.random() < .2: sv["elementary"] = True
        if rng.random() < .06: sv["max_iter"] = rng.randint(1, 3)
        if rng.random() < .04: sv["time_limit"] = rng.choice([1, 5])
        if rng.random() < .1: sv["run_exact"] = rng.randint(1, 4)
    if dive: sv["dive"] = True
    I = {"fam": fam}
    if fam == "resolve":
        pre = {"set": {}, "solve": {"cspy": sv["cspy"]}}
        kw["num_stops"] = rng.choice([None, 1, 2])
        if rng.random() < .5: kw["duration"] = max(rt.values()) + rng.randint(0, 6)
        pre["set"] = {"num_stops": None, "duration": None, "load_capacity": 40}
        if rng.random() < .3: pre["set"]["load_capacity"] = None
        kw = {k: v for k, v in kw.items() if v is not None}
        I["history"] = [pre]
        if rng.random() < .2: sv["preassignments"] = [["Source", v, "Sink"] for v in (C if rng.random() < .5 else C[:1])]
        if rng.random() < .3: I["history"].append({"set": {"num_stops": 3}, "solve": {}})
    if fam == "mixres":      # solved before with fewer or more vehicle types
        kw.pop("num_vehicles", None); kw.pop("fixed_cost", None)
        K0 = rng.choice([k for k in (1, 2, 3) if k != K])
        I["history"] = [{"set": {"load_capacity": [14] * K0}, "types": K0, "solve": {"cspy": sv["cspy"]}}]
    for v in ["Source"] + C + ["Sink"]:
        nodes.append([v, att[v]])
    # leave out what defaults fill in, now and then
    if rng.random() < .3 and not ({"duration", "time_windows"} & set(kw)) and fam != "resolve":
        for e in edges: e[2].pop("time", None)
    if rng.random() < .1 and fam not in ("heur",):
        att["Source"]["demand"] = rng.choice([0, 3])
    I.update({"nodes": nodes, "edges": edges, "kw": kw, "solve": sv, "seed": rng.randint(0, 10**6)})
    return I
