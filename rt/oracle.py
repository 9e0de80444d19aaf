"""Independent oracle over (instance, result).  check() -> list of (tag, text).
Written from the property statements; shares no code with vrpy."""
import itertools
BIG = 1e10
EPS = 1e-6


def net(inst):
    nodes = {v: dict(a) for v, a in inst["nodes"]}
    edges = {(u, v): dict(a) for u, v, a in inst["edges"]}
    for u, v in edges:
        nodes.setdefault(u, {}); nodes.setdefault(v, {})
    mixed = inst["kw"].get("mixed_fleet")
    K = 1
    if mixed:
        K = len(inst["kw"].get("load_capacity") or inst["kw"].get("fixed_cost") or inst["kw"].get("num_vehicles"))
    for v in nodes:
        if v in ("Source", "Sink"): continue
        for e in (("Source", v), (v, "Sink")):
            if e not in edges: edges[e] = {"cost": BIG}
    for e, a in edges.items():
        a["cost"] = list(a["cost"]) if isinstance(a["cost"], list) else [a["cost"]]
        a.setdefault("time", 0)
    for v, a in nodes.items():
        for k in ("demand", "collect", "service_time", "lower", "upper"): a.setdefault(k, 0)
        if v in ("Source", "Sink"): a["demand"] = min(0, a["demand"])
        a.setdefault("frequency", 1)
    fc = inst["kw"].get("fixed_cost") or 0
    fc = fc if isinstance(fc, list) else [fc]
    for (u, v), a in edges.items():
        if u == "Source":
            a["cost"] = [c + (fc[k] if k < len(fc) else 0) for k, c in enumerate(a["cost"])]
    edges.setdefault(("Source", "Sink"), {"cost": [0] * K, "time": 0})
    if nodes["Sink"]["upper"] == 0:
        nodes["Sink"]["upper"] = max(nodes[u]["upper"] + nodes[u]["service_time"] + edges[u, "Sink"]["time"] for (u, w) in edges if w == "Sink")
    return nodes, edges, K


def close(a, b):
    return a is not None and b is not None and abs(a - b) <= EPS * max(1, abs(a), abs(b))


def capacity(inst, k):
    cap = inst["kw"].get("load_capacity")
    return (cap[k] if isinstance(cap, list) else cap) if cap else None


def route_feasible(inst, nodes, edges, r, k):
    """violations of one route as (tag, text)"""
    kw = inst["kw"]; out = []
    capk = capacity(inst, k)
    inner = r[1:-1]
    if len(r) < 2 or r[0] != "Source" or r[-1] != "Sink" or len(set(r)) != len(r) or "Source" in inner or "Sink" in inner:
        out.append(("shape", "not an elementary Source-Sink path %s" % r))
    for e in zip(r, r[1:]):
        if e not in edges:
            out.append(("shape", "edge %s not in network %s" % (e, r))); return out
    if kw.get("num_stops") and len(inner) > kw["num_stops"]:
        out.append(("stops", "%s stops > %s in %s" % (len(inner), kw["num_stops"], r)))
    if capk is not None and not kw.get("pickup_delivery"):
        if sum(nodes[v]["demand"] for v in r) > capk + EPS: out.append(("cap", "load %s > %s type %s in %s" % (sum(nodes[v]["demand"] for v in r), capk, k, r)))
    if kw.get("distribution_collection") and capk is not None:
        onboard = sum(nodes[v]["demand"] for v in r)
        mx = onboard
        for v in r:
            onboard += nodes[v]["collect"] - nodes[v]["demand"]; mx = max(mx, onboard)
        if mx > capk + EPS: out.append(("sdc", "on-board %s > %s in %s" % (mx, capk, r)))
    if kw.get("pickup_delivery"):
        l = 0
        for v in r:
            l += nodes[v]["demand"]
            if l < -EPS or (capk is not None and l > capk + EPS): out.append(("pd", "load %s at %s in %s" % (l, v, r)))
        for v in inner:
            q = nodes[v].get("request")
            if q is not None and (q not in inner or inner.index(q) < inner.index(v)): out.append(("pd", "request %s-%s in %s" % (v, q, r)))
        reqs = {a["request"]: v for v, a in nodes.items() if "request" in a}
        for v in inner:
            if v in reqs and reqs[v] not in inner: out.append(("pd", "delivery without pickup %s in %s" % (v, r)))
    dur = sum(edges[e]["time"] for e in zip(r, r[1:])) + sum(nodes[v]["service_time"] for v in r)
    if kw.get("duration") and dur > kw["duration"] + EPS: out.append(("dur", "duration %s > %s in %s" % (dur, kw["duration"], r)))
    if kw.get("time_windows"):
        t = nodes["Source"]["lower"]
        for i, j in zip(r, r[1:]):
            t = max(t + nodes[i]["service_time"] + edges[i, j]["time"], nodes[j]["lower"])
            if t > nodes[j]["upper"] + EPS: out.append(("tw", "arrival %s > %s at %s in %s" % (t, nodes[j]["upper"], j, r)))
    return out


def all_routes(inst, nodes, edges, k, loose_duration=False):
    """every feasible customer route for vehicle type k (small networks only)"""
    C = [v for v in nodes if v not in ("Source", "Sink")]
    for m in range(1, len(C) + 1):
        for p in itertools.permutations(C, m):
            r = ["Source"] + list(p) + ["Sink"]
            if all(e in edges for e in zip(r, r[1:])) and not route_feasible(inst, nodes, edges, r, k):
                yield r


def excused(inst, nodes, err):
    """'no plan within the fleet limit' is a legitimate refusal unless single round trips would do"""
    kw, sv = inst["kw"], inst["solve"]
    if sv.get("dive"): return True
    nv = kw.get("num_vehicles")
    if "Infeasible" in err and nv and not kw.get("periodic"):
        if kw.get("drop_penalty"): return False
        nvl = nv if isinstance(nv, list) else [nv]
        locked = {v for r in sv.get("preassignments") or [] if r[0] == "Source" and r[-1] == "Sink" for v in r}
        n = len([v for v in nodes if v not in ("Source", "Sink") and v not in locked])
        if kw.get("use_all_vehicles"): return True
        return min(nvl) < n
    if "Not Solved" in err and sv.get("time_limit"): return True
    return False


def check(inst, res):
    kw, sv = inst["kw"], inst["solve"]
    nodes, edges, K = net(inst)
    out = []
    if "timeout" in res: return []
    if "error" in res:
        return [] if excused(inst, nodes, res["error"]) else [("error", res["error"] + " | " + res.get("trace", "")[-600:])]
    routes, types = res["routes"], res["types"]
    C = [v for v in nodes if v not in ("Source", "Sink")]
    for i, r in routes.items():
        k = types.get(i)
        if k is None: out.append(("type", "route %s has no vehicle type" % i)); continue
        if not 0 <= k < K: out.append(("type", "route %s has vehicle type %s of %s" % (i, k, K))); continue
        locked = r in (sv.get("preassignments") or [])
        out += [(p, t) for p, t in route_feasible(inst, nodes, edges, r, k) if not locked or p in ("shape", "cap")]
    ok = not any(t in ("shape", "type") for t, _ in out)
    dropped = res["dropped"]
    cnt = {v: sum(r.count(v) for r in routes.values()) for v in C}
    if dropped is not None:
        for v in C:
            want = nodes[v]["frequency"] if kw.get("periodic") else 1
            got = cnt[v] + dropped.count(v)
            if got != want: out.append(("cover", "customer %s visited %s dropped %s wanted %s" % (v, cnt[v], dropped.count(v), want)))
    # fleet
    nv = kw.get("num_vehicles")
    if nv and not kw.get("periodic") and not sv.get("heuristic_only"):
        nvl = nv if isinstance(nv, list) else [nv]
        for k in range(len(nvl)):
            used = sum(1 for i in routes if types.get(i) == k)
            if used > nvl[k] or (kw.get("use_all_vehicles") and used != nvl[k]): out.append(("fleet", "type %s uses %s of %s" % (k, used, nvl[k])))
    for k in res:
        if k.endswith("!"):
            out.append(("cost" if "cost" in k or "value" in k else "report", "%s raised %s" % (k[:-1], res[k])))
    if ok:
        # cost
        cost = {i: sum(edges[e]["cost"][types[i]] for e in zip(r, r[1:])) for i, r in routes.items()}
        if "best_routes_cost" in res:
            if set(res["best_routes_cost"]) != set(cost): out.append(("cost", "costs reported for %s" % list(res["best_routes_cost"])))
            for i in cost:
                if not close(cost[i], res["best_routes_cost"].get(i)): out.append(("cost", "route %s cost %s reported %s" % (i, cost[i], res["best_routes_cost"].get(i))))
            tot = (max(cost.values()) if kw.get("minimize_global_span") else sum(cost.values())) if cost else 0
            tot += (kw.get("drop_penalty") or 0) * len(dropped or [])
            if "best_value" in res and not close(tot, res["best_value"]): out.append(("cost", "value %s reported %s" % (tot, res["best_value"])))
        out += reports(inst, nodes, edges, res)
    # locks
    for r in sv.get("preassignments") or []:
        if r[0] == "Source" and r[-1] == "Sink":
            ids = [i for i, q in routes.items() if q == r]
            if len(ids) != 1: out.append(("lock", "locked %s appears %s times" % (r, len(ids))))
            elif types.get(ids[0]) is not None:
                c = [sum(edges[e]["cost"][k] for e in zip(r, r[1:])) for k in range(K)]
                load = sum(nodes[v]["demand"] for v in r)
                okk = [k for k in range(K) if capacity(inst, k) is None or load <= capacity(inst, k)]
                if types[ids[0]] not in okk or c[types[ids[0]]] > min(c[k] for k in okk) + EPS: out.append(("lock", "locked %s driven by type %s, costs %s, possible %s" % (r, types[ids[0]], c, okk)))
            for v in r[1:-1]:
                if cnt.get(v) != 1: out.append(("lock", "customer %s of locked %s visited %s times" % (v, r, cnt.get(v))))
    if kw.get("periodic"):
        s = res.get("schedule")
        if s:
            allr = [r for d in s.values() for r in d]
            if sorted(allr) != sorted(routes): out.append(("sched", "schedule %s for routes %s" % (s, list(routes))))
            else:
              for d, rs in s.items():
                if not 0 <= d < kw["periodic"]: out.append(("sched", "day %s" % d))
                for v in C:
                    if sum(v in routes[r] for r in rs) > 1: out.append(("sched", "customer %s twice on day %s" % (v, d)))
                for k, q in enumerate(nv if isinstance(nv, list) else [nv] if nv else []):
                    if sum(1 for r in rs if types[r] == k) > q: out.append(("sched", "%s vehicles of type %s on day %s" % (sum(1 for r in rs if types[r] == k), k, d)))
        elif routes and not sv.get("time_limit") and not feasible_nosched(inst, nodes, routes, types):
            out.append(("sched", "no schedule although one exists for %s" % routes))
    return out


def feasible_nosched(inst, nodes, routes, types):
    """True if no schedule exists (or too large to decide)"""
    kw = inst["kw"]; T = kw["periodic"]; ids = list(routes); nv = kw.get("num_vehicles")
    if T ** len(ids) > 3000: return True
    nvl = nv if isinstance(nv, list) else [nv] if nv else []
    for asg in itertools.product(range(T), repeat=len(ids)):
        good = True
        for d in range(T):
            rs = [ids[i] for i in range(len(ids)) if asg[i] == d]
            seen = [v for r in rs for v in routes[r][1:-1]]
            if len(seen) != len(set(seen)) or any(sum(types[r] == k for r in rs) > q for k, q in enumerate(nvl)): good = False; break
        if good: return False
    return True


def reports(inst, nodes, edges, res):
    kw = inst["kw"]; out = []; routes, types = res["routes"], res["types"]
    def cmp(name, want):
        got = res.get(name)
        if got is None: return
        if set(got) != set(want): out.append(("report", "%s has routes %s" % (name, list(got)))); return
        for i in want:
            if isinstance(want[i], dict):
                if set(want[i]) != set(got[i]): out.append(("report", "%s route %s has nodes %s" % (name, i, list(got[i])))); continue
                for v in want[i]:
                    if not close(want[i][v], got[i][v]): out.append(("report", "%s route %s node %s is %s should be %s (%s)" % (name, i, v, got[i][v], want[i][v], routes[i])))
            elif not close(want[i], got[i]): out.append(("report", "%s route %s is %s should be %s (%s)" % (name, i, got[i], want[i], routes[i])))
    cap, dc, pd = kw.get("load_capacity"), kw.get("distribution_collection"), kw.get("pickup_delivery")
    cmp("best_routes_load", {i: sum(nodes[v]["demand"] for v in r) for i, r in routes.items()} if cap and not dc and not pd else {})
    want = {}
    if cap or dc or pd:
        for i, r in routes.items():
            l = capacity(inst, types[i]) if dc else 0
            want[i] = {}
            for v in r:
                l += nodes[v]["collect"] - nodes[v]["demand"] if dc else nodes[v]["demand"]
                want[i][v] = l
    cmp("node_load", want)
    timed = kw.get("duration") or kw.get("time_windows")
    cmp("best_routes_duration", {i: sum(edges[e]["time"] for e in zip(r, r[1:])) + sum(nodes[v]["service_time"] for v in r) for i, r in routes.items()} if timed else {})
    arr, dep = {}, {}
    if timed:
        for i, r in routes.items():
            t = nodes["Source"]["lower"]; arr[i] = {"Source": t}; dep[i] = {"Source": t}
            for a, b in zip(r, r[1:]):
                t = max(t + nodes[a]["service_time"] + edges[a, b]["time"], nodes[b]["lower"]); arr[i][b] = t
                dep[i][b] = t + nodes[b]["service_time"]
    cmp("arrival_time", arr); cmp("departure_time", dep)
    return out
