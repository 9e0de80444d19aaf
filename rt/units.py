"""Bounded contract executions: the contracts of /verif/contracts evaluated on
the real classes of /repo with small random inputs against brute-force oracles.
Each unit_* takes a Random and returns (status, tag, text, data):
status in ok / trivial / skip / viol.  They address stable entry points only;
when one is gone after a refactoring the unit says skip."""
import itertools, json, math, os, sys, random, logging
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))
import inst as I_, oracle as O
logging.disable(logging.CRITICAL)

class Skip(Exception): pass


def grab(mod, name):
    import importlib
    try:
        return getattr(importlib.import_module("vrpy." + mod), name)
    except (ImportError, AttributeError) as e:
        raise Skip("%s.%s: %s" % (mod, name, e))


def call(f, *a, **k):
    """calls an internal entry point; a changed signature is a skip, not an alarm"""
    try:
        return f(*a, **k)
    except TypeError as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        if len(tb) == 1:       # raised by the call itself
            raise Skip("signature of %s: %s" % (f, e))
        raise


def prepared(inst):
    """network as the pricing problems see it: (nodes, edges, K, DiGraph)"""
    from networkx import DiGraph
    nodes, edges, K = O.net(inst)
    G = DiGraph()
    for v, a in nodes.items(): G.add_node(v, **a)
    for (u, v), a in edges.items(): G.add_edge(u, v, cost=list(a["cost"]), time=a["time"])
    return nodes, edges, K, G


def pricing_args(rng, inst):
    nodes, edges, K, G = prepared(inst)
    C = [v for v in nodes if v not in ("Source", "Sink")]
    duals = {v: round(rng.choice([0, 1, 1, 1]) * rng.uniform(0, 30), 3) for v in C}
    if inst["kw"].get("num_vehicles"): duals["upper_bound_vehicles"] = {k: -round(rng.uniform(0, 8), 3) for k in range(K)}
    k = rng.randrange(K)
    return nodes, edges, K, G, C, duals, k


def rc(edges, duals, r, k):
    c = sum(edges[e]["cost"][k] for e in zip(r, r[1:]))
    return c - sum(duals[v] for v in r[1:-1]) - duals.get("upper_bound_vehicles", {}).get(k, 0)


def kwlist(inst, K):
    kw = inst["kw"]; cap = kw.get("load_capacity")
    cap = cap if isinstance(cap, list) or not cap else [cap]
    return kw.get("num_stops"), cap, kw.get("duration"), kw.get("time_windows", False), kw.get("pickup_delivery", False), kw.get("distribution_collection", False)


def nxpath(g):
    if "path" in g.graph: return list(g.graph["path"])
    p = ["Source"]
    while p[-1] != "Sink":
        s = list(g.successors(p[-1]))
        if len(s) != 1 or len(p) > 50: return p + ["?"]
        p.append(s[0])
    return p


def small(rng, fams):
    for _ in range(50):
        inst = I_.gen(rng, rng.choice(fams))
        if len(inst["nodes"]) <= 6: return inst
    return inst


def unit_lp(rng, fams=("cvrp", "stops", "dur", "tw", "sdc", "pd", "mixed", "plain", "tw+", "mixtw", "sdctw")):
    """LP pricing: solve() returns a best feasible route of reduced cost < -0.001, or none exists"""
    LP = grab("subproblem_lp", "_SubProblemLP")
    inst = small(rng, fams)
    nodes, edges, K, G, C, duals, k = pricing_args(rng, inst)
    if inst["kw"].get("pickup_delivery") or rng.random() < .5:
        pass
    best, br = 0, None
    for r in O.all_routes(inst, nodes, edges, k):
        x = rc(edges, duals, r, k)
        if br is None or x < best: best, br = x, r
    ns, cap, dur, tw, pd, dc = kwlist(inst, K)
    routes, rwn = [], {v: [] for v in C}
    sp = call(LP, G, duals, rwn, routes, k, None, ns, cap, dur, tw, pd, dc, "Exact", None, solver="cbc")
    got, more = call(sp.solve, None)
    data = {"inst": inst, "duals": {str(a): b for a, b in duals.items()}, "k": k, "best": [best, br]}
    if br is not None and best < -1e-3 - 1e-5 and not more:
        return "viol", "price", "route %s of reduced cost %s overlooked" % (br, best), data
    if more:
        r = nxpath(got[-1]); g = got[-1].graph
        data["route"] = r
        f = O.route_feasible(inst, nodes, edges, r, k)
        if f: return "viol", f[0][0], "LP pricing returned %s: %s" % (r, f[0][1]), data
        x = rc(edges, duals, r, k)
        if abs(g["cost"] - sum(edges[e]["cost"][k] for e in zip(r, r[1:]))) > 1e-6 or g["vehicle_type"] != k:
            return "viol", "cost", "column %s has cost %s type %s" % (r, g["cost"], g["vehicle_type"]), data
        if br is None or x > best + 1e-4: return "viol", "price", "returned %s (%s), best is %s (%s)" % (r, x, br, best), data
        if best > -1e-3 + 1e-5: return "viol", "price", "returned %s (%s) although no route is below -0.001" % (r, x), data
        for v in C:
            if sum(1 for q in rwn[v] if q is got[-1]) != (1 if v in r else 0): return "viol", "cover", "index of routes by customer wrong for %s" % v, data
    return ("ok" if br is not None else "trivial"), "", "", data


def unit_cspy(rng, fams=("cvrp", "stops", "dur", "tw", "sdc", "mixed", "plain", "tw+", "mixtw", "sdctw")):
    """cspy pricing: the resources of a path are within bounds only if the route is feasible,
    and, with a stop limit, if it is"""
    CS = grab("subproblem_cspy", "_SubProblemCSPY")
    inst = small(rng, fams)
    nodes, edges, K, G, C, duals, k = pricing_args(rng, inst)
    ns, cap, dur, tw, pd, dc = kwlist(inst, K)
    sp = call(CS, G, duals, {v: [] for v in C}, [], k, None, ns, cap, dur, tw, pd, dc, "Exact", None, elementary=False)
    if not hasattr(sp, "formulate") or not hasattr(sp, "get_REF") or not hasattr(sp, "max_res"): raise Skip("cspy internals")
    sp.formulate(); ref = sp.get_REF()
    if ref is not None: ref._sub_G = sp.sub_G
    data = {"inst": inst, "k": k}
    nt = False
    # the library starts the clock at the Source's earliest time only through tightened windows
    if tw:
        for v in C:
            G.nodes[v]["lower"] = max(G.nodes[v]["lower"], nodes["Source"]["lower"] + edges["Source", v]["time"])
    for m in range(1, len(C) + 1):
        for p in itertools.permutations(C, m):
            r = ["Source"] + list(p) + ["Sink"]
            if not all(e in edges for e in zip(r, r[1:])): continue
            res = [0] * len(sp.max_res); ok = True
            for e in zip(r, r[1:]):
                if ref is None: res = [a + b for a, b in zip(res, sp.sub_G.edges[e]["res_cost"])]
                else: res = list(ref.REF_fwd(res, e[0], e[1], None, None, 0))
                ok = ok and all(a <= b + 1e-9 for a, b in zip(res, sp.max_res)) and all(a >= b - 1e-9 for a, b in zip(res, sp.min_res))
            f = O.route_feasible(inst, nodes, edges, r, k)
            nt = nt or bool(f)
            if ok and f: data["route"] = r; return "viol", f[0][0], "cspy accepts %s: %s (resources %s, bounds %s)" % (r, f[0][1], res, sp.max_res), data
            if not ok and not f and ns and not (dur and tw) and not (tw and not nodes_tri(nodes, edges, C)):
                data["route"] = r; return "viol", "price", "cspy rejects feasible %s (resources %s, bounds %s)" % (r, res, sp.max_res), data
    return ("ok" if nt else "trivial"), "", "", data


def nodes_tri(nodes, edges, C):
    s, t = "Source", "Sink"
    return all(edges[s, v]["time"] <= edges[s, u]["time"] + nodes[u]["service_time"] + a["time"] and edges[u, t]["time"] <= a["time"] + edges[v, t]["time"] + nodes[v]["service_time"] for (u, v), a in edges.items() if u != s and v != t)


def best_partition(inst, nodes, edges, pool, K, kw, span=False):
    """min cost over multisets of pool (route,type,cost) covering exactly; brute force"""
    C = [v for v in nodes if v not in ("Source", "Sink")]
    nv = kw.get("num_vehicles"); nvl = nv if isinstance(nv, list) else [nv] if nv else None
    best = [None]
    idx = {v: i for i, v in enumerate(C)}
    need = [1] * len(C)
    by = {v: [p for p in pool if v in p[0]] for v in C}
    pen = kw.get("drop_penalty")
    def rec(done, cost, used):
        if best[0] is not None and cost >= best[0] - 1e-9: return
        v = next((v for v in C if v not in done), None)
        if v is None:
            if nvl and kw.get("use_all_vehicles") and any(used.get(k, 0) != nvl[k] for k in range(len(nvl))): return
            best[0] = cost; return
        if pen: rec(done | {v}, cost + pen, used)
        for r, k, c in by[v]:
            if done & set(r): continue
            if nvl and used.get(k, 0) + 1 > nvl[k]: continue
            u = dict(used); u[k] = u.get(k, 0) + 1
            rec(done | set(r[1:-1]), max(cost, c) if span else cost + c, u)
    rec(frozenset(), -1e18 if span else 0, {})
    return best[0]


def unit_master(rng, fams=("cvrp", "drop", "fleet", "mixed", "mixfleet", "stops")):
    """integer master problem over a random pool of feasible columns = best partition of that pool"""
    from networkx import DiGraph, add_path
    M = grab("master_solve_pulp", "_MasterSolvePulp")
    inst = small(rng, fams); kw = inst["kw"]
    nodes, edges, K, G = prepared(inst)
    C = [v for v in nodes if v not in ("Source", "Sink")]
    pool = [(r, k, sum(edges[e]["cost"][k] for e in zip(r, r[1:]))) for k in range(K) for r in O.all_routes(inst, nodes, edges, k)]
    rng.shuffle(pool)
    pool = [p for p in pool if len(p[0]) == 3 and rng.random() < .8] + [p for p in pool if len(p[0]) > 3][:12]
    for v in C:
        if not any(v in p[0] for p in pool) and not kw.get("drop_penalty"): return "trivial", "", "", {}
    routes, rwn = [], {v: [] for v in C}
    half = len(pool) // 2 if rng.random() < .5 else len(pool)
    span = rng.random() < .2 and not kw.get("drop_penalty")
    off = rng.choice([1, 1, 70, 995]) if span else 1
    def mk(i):
        r, k, c = pool[i]
        g = DiGraph(name=i + (1 if i < half else off), cost=c, vehicle_type=k); add_path(g, r)
        return g
    routes = [mk(i) for i in range(half)]
    nv = kw.get("num_vehicles"); nvl = nv if isinstance(nv, list) else [nv] if nv else []
    m = call(M, G, rwn, routes, kw.get("drop_penalty"), nvl, kw.get("use_all_vehicles", False), None, span, "cbc")
    for i in range(half, len(pool)):
        g = mk(i); routes.append(g); call(m.update, g)
    want = best_partition(inst, nodes, edges, pool, K, kw, span)
    data = {"inst": inst, "pool": pool, "half": half, "best": want, "span": span, "offset": off}
    try:
        call(m.solve, False, None)
    except Skip: raise
    except Exception as e:
        if want is None: return "ok", "", "", data
        return "viol", "fleet" if nvl else "cover", "master refuses (%s) although a plan of cost %s exists" % (e, want), data
    val, best = call(m.get_total_cost_and_routes, False)
    used = [nxpath(g) for g in best]; dropped = list(m.dropped_nodes) if kw.get("drop_penalty") else []
    data["used"] = used
    for v in C:
        c = sum(v in r for r in used) + dropped.count(v)
        if c != 1: return "viol", "cover", "customer %s counted %s times in %s dropped %s" % (v, c, used, dropped), data
    for k, q in enumerate(nvl):
        u = sum(1 for g in best if g.graph["vehicle_type"] == k)
        if u > q or (kw.get("use_all_vehicles") and u != q): return "viol", "fleet", "type %s uses %s of %s" % (k, u, q), data
    true = max(g.graph["cost"] for g in best) if span and best else sum(g.graph["cost"] for g in best) + (kw.get("drop_penalty") or 0) * len(dropped)
    if want is not None and true > want + 1e-4: return "viol", "best", "plan costs %s, the pool has one of cost %s" % (true, want), data
    if want is None: return "viol", "fleet", "master returned %s although no plan exists" % used, data
    return ("ok" if len(pool) > len(C) else "trivial"), "", "", data


def unit_stopped(rng):
    """the final solve is stopped early (stand-in: the solver leaves the values it had and reports what CBC reports then):
    whatever is returned still is a plan, or nothing is returned"""
    from networkx import DiGraph, add_path
    M = grab("master_solve_pulp", "_MasterSolvePulp")
    n = rng.choice([3, 3, 4, 5]); C = list(range(1, n + 1)); G = DiGraph()
    for v in C: G.add_edge("Source", v, cost=[rng.randint(1, 9)], time=0); G.add_edge(v, "Sink", cost=[rng.randint(1, 9)], time=0)
    for v in G: G.nodes[v].update(demand=1, frequency=1)
    pool = [([v], rng.randint(12, 20)) for v in C] + [([a, b], rng.randint(8, 15)) for a in C for b in C if a < b and (n == 3 or rng.random() < .7)]
    routes = []
    for i, (vs, c) in enumerate(pool):
        g = DiGraph(name=i + 1, cost=c, vehicle_type=0); add_path(g, ["Source"] + vs + ["Sink"]); routes.append(g)
    m = call(M, G, {v: [] for v in C}, routes, None, [], False, None, False, "cbc")
    call(m.solve, True, None)
    frac = [y.value() for y in m.y.values() if y.value() and abs(y.value() - round(y.value())) > 1e-2]
    prob = m.prob
    def stopped(*a, **k): prob.status = 1; prob.sol_status = 2; return 1
    prob.solve = stopped; prob.resolve = stopped
    data = {"pool": pool, "fractional": frac}
    try:
        call(m.solve, False, 5); val, best = call(m.get_total_cost_and_routes, False)
    except Skip: raise
    except Exception: return ("ok" if frac else "trivial"), "", "", data
    used = [nxpath(g) for g in best]
    if not frac: return "trivial", "", "", data
    for v in C:
        c = sum(v in r for r in used)
        if c != 1: return "viol", "cover", "the final solve stopped without an integer solution; customer %s visited %s times in the routes returned: %s" % (v, c, used), data
    return "ok", "", "", data


def unit_sched(rng):
    S = grab("schedule", "_Schedule")
    inst = small(rng, ["periodic", "perio2"]); kw = inst["kw"]
    nodes, edges, K, G = prepared(inst)
    C = [v for v in nodes if v not in ("Source", "Sink")]
    T = rng.randint(1, 3)
    routes, types = {}, {}
    Kt = rng.randint(1, 2)
    for i in range(1, rng.randint(2, 5)):
        p = C[:]; rng.shuffle(p)
        routes[i] = ["Source"] + p[:rng.randint(1, min(2, len(p)))] + ["Sink"]; types[i] = rng.randrange(Kt)
    nv = [rng.randint(1, 2) for _ in range(Kt)] if rng.random() < .6 else []
    s = call(S, G, T, routes, types, nv, "cbc"); call(s.solve, None)
    d = s.routes_per_day
    data = {"nodes": inst["nodes"], "T": T, "routes": routes, "types": types, "nv": nv, "schedule": d}
    fake = {"kw": {"periodic": T, "num_vehicles": nv or None}, "solve": {}}
    if not d:
        if not O.feasible_nosched(fake, nodes, routes, types): return "viol", "sched", "no schedule although one exists", data
        return "ok", "", "", data
    if sorted(r for x in d.values() for r in x) != sorted(routes): return "viol", "sched", "routes scheduled: %s" % d, data
    for t, rs in d.items():
        if not 0 <= t < T: return "viol", "sched", "day %s" % t, data
        for v in C:
            if sum(v in routes[r] for r in rs) > 1: return "viol", "sched", "customer %s twice on day %s" % (v, t), data
        for k, q in enumerate(nv):
            if sum(types[r] == k for r in rs) > q: return "viol", "sched", "type %s on day %s" % (k, t), data
    return "ok", "", "", data


def unit_stops(rng):
    f = grab("preprocessing", "get_num_stops_upper_bound")
    from networkx import DiGraph
    n = rng.randint(1, 9); G = DiGraph(); Q = rng.randint(1, 20); dc = rng.random() < .5
    sm = rng.choice([0, .2, .5])
    for v in ["Source"] + list(range(1, n + 1)) + ["Sink"]:
        d = v in ("Source", "Sink")
        G.add_node(v, demand=0 if d else rng.randint(sm > .25, max(1, Q // n + 1)) if sm else rng.choice([rng.randint(0, Q), rng.randint(1, 4)]), collect=0 if d else rng.randint(sm > .25, max(1, Q // n + 1)) if sm else rng.randint(0, Q))
    ns = rng.choice([None, rng.randint(1, 6)])
    b = call(f, G, Q, ns, dc)
    C = range(1, n + 1)
    def fits(S):
        on = sum(G.nodes[v]["demand"] for v in S)
        if on > Q: return False
        for v in sorted(S, key=lambda v: G.nodes[v]["collect"] - G.nodes[v]["demand"]) if dc else ():
            on += G.nodes[v]["collect"] - G.nodes[v]["demand"]
            if on > Q: return False
        return True
    mx = max(m for m in range(n + 1) for S in itertools.combinations(C, m) if fits(S))
    if ns: mx = min(mx, ns)
    data = {"nodes": [(v, dict(G.nodes[v])) for v in G], "Q": Q, "num_stops": ns, "dc": dc, "bound": b}
    if b < mx: return "viol", "prep", "bound %s on stops, but %s are possible" % (b, mx), data
    if ns and b > ns: return "viol", "stops", "bound %s above the given limit %s" % (b, ns), data
    return "ok", "", "", data


def triangle(rng, inst):
    """make the depot links at most as slow as any detour, as the property requires"""
    nodes, edges, K = O.net(inst)
    C = [v for v in nodes if v not in ("Source", "Sink")]
    E = {(u, v): a for u, v, a in inst["edges"]}
    t = {e: E[e].get("time", 0) for e in E}
    for _ in range(len(C)):
        for (u, v) in t:
            if u == "Source" or v == "Sink": continue
            if ("Source", v) in t and ("Source", u) in t: t["Source", v] = min(t["Source", v], t["Source", u] + t[u, v])
            if (u, "Sink") in t and (v, "Sink") in t: t[u, "Sink"] = min(t[u, "Sink"], t[u, v] + t[v, "Sink"])
    for e in E: E[e]["time"] = t[e]
    return inst


def unit_prune(rng, fams=("cvrp", "tw", "tw+", "mixed", "mixtw", "sdc", "sdctw", "stops", "pd")):
    from vrpy import VehicleRoutingProblem
    inst = triangle(rng, small(rng, fams)); kw = json.loads(json.dumps(inst["kw"]))
    nodes, edges, K = O.net(inst)
    p = VehicleRoutingProblem(I_.build_graph(inst), **kw)
    for a in ("_pre_solve", "_format"):
        if not hasattr(p, a): raise Skip(a)
    p._pricing_strategy = "Exact"; p._cspy = False
    if not p.mixed_fleet: p._format()
    data = {"inst": inst}
    try:
        p._pre_solve()
    except ValueError:
        return "trivial", "", "", data
    G = p.G; nt = False
    noD = dict(inst); noD["kw"] = {a: b for a, b in inst["kw"].items() if a != "duration"}
    total = 0
    for k in range(K):
        for r in O.all_routes(noD, nodes, edges, k):
            total += 1
            data["route"] = r
            for e in zip(r, r[1:]):
                if not G.has_edge(*e): return "viol", "prep", "feasible route %s lost: edge %s removed" % (r, e), data
            if p.num_stops and len(r) - 2 > p.num_stops: return "viol", "prep", "feasible route %s exceeds the computed bound %s" % (r, p.num_stops), data
            if kw.get("time_windows"):
                t = G.nodes["Source"]["lower"]
                for i, j in zip(r, r[1:]):
                    t = max(t + G.nodes[i]["service_time"] + G.edges[i, j]["time"], G.nodes[j]["lower"])
                    if t > G.nodes[j]["upper"] + 1e-9: return "viol", "prep", "feasible route %s late at %s after preprocessing" % (r, j), data
    return ("ok" if total else "trivial"), "", "", data


def unit_cg(rng, fams=("cvrp", "stops", "dur", "mixed", "tw", "sdc", "pd", "drop", "mixfleet", "plain")):
    """relaxed value at the end of column generation = LP optimum over all feasible routes"""
    import pulp
    inst = triangle(rng, small(rng, fams))
    if len(inst["nodes"]) > 6: return "trivial", "", "", {}
    sv = inst["solve"] = {"cspy": False, "pricing_strategy": "Exact" if inst["kw"].get("pickup_delivery") else rng.choice(["Exact", "BestEdges1", "BestEdges2", "BestPaths"])}
    if rng.random() < .3: sv["run_exact"] = rng.randint(1, 5)
    kw = inst["kw"]
    if set(kw) <= {"load_capacity", "num_stops", "duration", "drop_penalty"} and rng.random() < .3: sv["greedy"] = True
    nodes, edges, K = O.net(inst)
    C = [v for v in nodes if v not in ("Source", "Sink")]
    res = I_.run_instance(inst)
    data = {"inst": inst, "res": {k: str(v)[:300] for k, v in res.items()}}
    if "error" in res:
        if O.excused(inst, nodes, res["error"]): return "trivial", "", "", data
        return "viol", "error", res["error"], data
    if not res.get("lb"): return "skip", "", "no relaxed values", data
    P = pulp.LpProblem("m", pulp.LpMinimize)
    cols = [(r, k) for k in range(K) for r in O.all_routes(inst, nodes, edges, k)]
    y = [pulp.LpVariable("y%d" % i, 0, 1) for i in range(len(cols))]
    obj = pulp.lpSum(sum(edges[e]["cost"][k] for e in zip(r, r[1:])) * y[i] for i, (r, k) in enumerate(cols))
    dv = {v: pulp.LpVariable("d%d" % i, 0, 1) for i, v in enumerate(C)} if kw.get("drop_penalty") else {}
    P += obj + pulp.lpSum(kw["drop_penalty"] * d for d in dv.values()) if dv else obj
    for v in C: P += pulp.lpSum(y[i] for i, (r, k) in enumerate(cols) if v in r) + (dv[v] if dv else 0) >= 1
    nv = kw.get("num_vehicles"); nvl = nv if isinstance(nv, list) else [nv] if nv else []
    for k, q in enumerate(nvl): P += pulp.lpSum(y[i] for i, (r, kk) in enumerate(cols) if kk == k) <= q
    P.solve(pulp.PULP_CBC_CMD(msg=False))
    if P.status != 1: return "trivial", "", "", data
    opt, lb = pulp.value(P.objective), res["lb"][-1]
    data["lp_optimum"] = opt; data["lb"] = lb
    if lb > 1e8: return "trivial", "", "", data       # stopped with the artificial vehicle still in use
    if lb > opt + 1e-3 * (len(C) + 2) + 1e-5 * abs(opt): return "viol", "price", "column generation stopped at %s, all feasible routes give %s" % (lb, opt), data
    if lb < opt - 1e-4 - 1e-6 * abs(opt): return "viol", "price", "relaxed value %s below the optimum %s over feasible routes" % (lb, opt), data
    return "ok", "", "", data


def unit_weight(rng):
    """reduced cost of every edge-disjoint path: sum of edge weights = cost - duals"""
    B = grab("subproblem", "_SubProblemBase")
    inst = small(rng, ["mixed", "cvrp", "mixfleet", "fleet"])
    nodes, edges, K, G, C, duals, k = pricing_args(rng, inst)
    if rng.random() < .5: duals["upper_bound_vehicles"] = {q: -round(rng.uniform(0, 8), 3) for q in range(K)}
    call(B, G, duals, {}, [], k)
    data = {"inst": inst, "duals": {str(a): b for a, b in duals.items()}, "k": k}
    for m in range(1, len(C) + 1):
        for p in itertools.permutations(C, m):
            r = ["Source"] + list(p) + ["Sink"]
            if not all(e in edges for e in zip(r, r[1:])): continue
            if any("weight" not in G.edges[e] for e in zip(r, r[1:])): raise Skip("weight")
            w = sum(G.edges[e]["weight"] for e in zip(r, r[1:]))
            if abs(w - rc(edges, duals, r, k)) > 1e-6: return "viol", "price", "route %s weight %s reduced cost %s" % (r, w, rc(edges, duals, r, k)), data
    return "ok", "", "", data


def unit_greedyprice(rng):
    """randomised greedy pricing only produces feasible columns with the right cost and type"""
    import random as R
    SG = grab("subproblem_greedy", "_SubProblemGreedy")
    inst = small(rng, ["greedy", "dur", "stops", "cvrp", "mixed"])
    nodes, edges, K, G, C, duals, k = pricing_args(rng, inst)
    ns, cap, dur, tw, pd, dc = kwlist(inst, K)
    routes, rwn = [], {v: [] for v in C}
    R.seed(rng.random())
    for v in C: duals[v] = duals[v] + 10
    sp = call(SG, G, duals, rwn, routes, k, None, ns, cap, dur, tw, pd, dc)
    call(sp.solve, 8)
    data = {"inst": inst, "k": k}
    names = [g.graph["name"] for g in routes]
    if len(set(names)) != len(names): return "viol", "cover", "two columns share a name %s" % names, data
    for g in routes:
        r = nxpath(g); data["route"] = r
        f = O.route_feasible(inst, nodes, edges, r, k)
        if f: return "viol", f[0][0], "greedy pricing produced %s: %s" % (r, f[0][1]), data
        if abs(g.graph["cost"] - sum(edges[e]["cost"][k] for e in zip(r, r[1:]))) > 1e-6 or g.graph["vehicle_type"] != k: return "viol", "cost", "column %s cost %s type %s" % (r, g.graph["cost"], g.graph["vehicle_type"]), data
    return ("ok" if routes else "trivial"), "", "", data


def unit_cw(rng):
    CW = grab("clarke_wright", "_ClarkeWright"); GR = grab("greedy", "_Greedy"); RT = grab("clarke_wright", "_RoundTrip")
    inst = small(rng, ["heur", "cvrp", "dur", "stops", "greedy"])
    nodes, edges, K, G = prepared(inst)
    C = [v for v in nodes if v not in ("Source", "Sink")]
    ns, cap, dur, tw, pd, dc = kwlist(inst, K)
    which = rng.choice(["cw", "cw", "cw", "greedy", "rt"])
    full = all((u, v) in edges for u in C for v in C if u != v)
    if which == "greedy" and not full: which = "cw"
    if which == "cw": a = call(CW, G, cap, dur, ns, rng.choice([1, 0.1, 0.5, 1.9]))
    elif which == "greedy": a = call(GR, G, cap, ns, dur)
    else: a = call(RT, G)
    a.run()
    rs = a.round_trips if which == "rt" else a.best_routes
    data = {"inst": inst, "which": which, "routes": rs}
    for v in C:
        c = sum(r.count(v) for r in rs)
        if c != 1: return "viol", "cover", "%s visits customer %s %s times: %s" % (which, v, c, rs), data
    for r in rs:
        if r == ["Source", "Sink"]: continue
        f = O.route_feasible(inst, nodes, edges, r, 0)
        if f: return "viol", f[0][0], "%s: %s" % (which, f[0][1]), data
    if which != "rt":
        c = sum(edges[e]["cost"][0] for r in rs for e in zip(r, r[1:]))
        if not O.close(c, a.best_value): return "viol", "cost", "%s reports %s, routes cost %s" % (which, a.best_value, c), data
    return ("ok" if any(len(r) > 3 for r in rs) else "trivial"), "", "", data


def unit_hyper(rng):
    HH = grab("hyper_heuristic", "_HyperHeuristic")
    from numpy.random import RandomState
    opts = ["BestPaths", "BestEdges1", "BestEdges2", "Exact"]
    h = call(HH, seed=rng.randint(0, 10**6))
    for a in ("init", "current_performance", "move_acceptance", "update_parameters", "pick_heuristic"):
        if not hasattr(h, a): raise Skip(a)
    obj = rng.uniform(50, 500); h.init(obj)
    data = {"history": []}; dec = rng.choice([.02, .4, .67, 1])
    tried = set(); added = {o: 0 for o in opts}
    for it in range(1, rng.choice([rng.randint(3, 12), rng.randint(12, 40), 160])):
        cur = h.current_heuristic; tried.add(cur); added[cur] += 1
        new = obj - (rng.choice([rng.uniform(0, 30), rng.uniform(0, 3)]) if rng.random() < dec else 0)
        act = {o: rng.randint(0, added[o]) for o in opts}; act["Other"] = rng.randint(1, 3)
        prod = rng.random() < .9 or added[cur] == 1
        if not prod: added[cur] -= 1; act[cur] = min(act[cur], added[cur])
        if it <= 12: data["history"].append([cur, new, act, prod])
        h.current_performance(new_objective_value=new, produced_column=prod, active_columns=act)
        h.move_acceptance(); h.update_parameters(it, 0)
        obj = new
        pts = dict(h.heuristic_points)
        ch = h.pick_heuristic()
        data["points"] = pts
        if str(ch) not in opts: return "viol", "hyper", "picked %r" % ch, data
        if any(not math.isfinite(x) for x in pts.values()): return "viol", "hyper", "score not finite %s" % pts, data
        if pts[str(ch)] < max(pts.values()) - 1e-12: return "viol", "hyper", "picked %s with scores %s" % (ch, pts), data
        if len(tried) < 4 and str(ch) in tried: return "viol", "hyper", "picked %s while %s are untried" % (ch, set(opts) - tried), data
        if not 0 < h.theta <= 1: return "viol", "hyper", "theta %s" % h.theta, data
        for d in (h.norm_objective_decrease, h.norm_runtime):
            if any(not -1e-12 <= x <= 1 + 1e-9 for x in d.values()): return "viol", "hyper", "measure out of [0,1] %s" % d, data
    return "ok", "", "", data


def unit_checks(rng):
    """one well-formed instance, at most one malformation: the documented error iff malformed"""
    from networkx import NetworkXError, Graph
    from vrpy import VehicleRoutingProblem
    inst = I_.gen(rng, rng.choice(["cvrp", "mixed", "mixfleet", "dur", "pd", "init", "tw", "heur", "stops", "lock", "periodic", "sdc"]))
    inst = json.loads(json.dumps(inst)); kw, sv = inst["kw"], inst["solve"]
    nodes, edges = inst["nodes"], inst["edges"]
    C = [v for v, _ in nodes if v not in ("Source", "Sink")]
    E = (TypeError, KeyError, ValueError, NetworkXError, NotImplementedError)
    ms = ["none", "none", "graph", "nosource", "nosink", "into_source", "out_of_sink", "nocost", "stops_type", "stops_neg", "dur_type", "dur_neg", "strategy"]
    cap = kw.get("load_capacity")
    if cap: ms += ["cap_type", "cap_neg", "demand", "demand"]
    if kw.get("mixed_fleet"): ms += ["mix_nv", "mix_cost_type", "mix_cost_dim", "mix_fc", "mix_nvfc", "mix_nvfc_nocap", "mix_nocap", "heur_mixed"]
    if kw.get("pickup_delivery"): ms += ["pd_cspy", "pd_cspy", "pd_noreq", "pd_noreq", "heur_pd"]
    if kw.get("duration"): ms += ["far", "far"]
    if kw.get("time_windows"): ms += ["heur_tw", "heur_tw"]
    if kw.get("periodic"): ms += ["heur_periodic"] * 4
    if kw.get("distribution_collection"): ms += ["heur_sdc"] * 4
    if cap and not kw.get("pickup_delivery"): ms += ["demand_eq"]
    if sv.get("initial_routes"): ms += ["init_start", "init_end", "init_missing", "init_edge"] * 2
    if sv.get("preassignments"): ms += ["lock_edge"] * 3
    m = rng.choice(ms)
    want = None; v = rng.choice(C); e = rng.choice(edges); stage = "solve"
    if m == "graph": want = TypeError
    if m == "nosource" or m == "nosink":
        d = "Source" if m == "nosource" else "Sink"
        inst["nodes"] = [x for x in nodes if x[0] != d]; inst["edges"] = [x for x in edges if d not in x[:2]]; want = KeyError if m == "nosource" else (KeyError, NetworkXError)
    if m == "into_source": edges.append([v, "Source", {"cost": e[2]["cost"], "time": 1}]); want = NetworkXError
    if m == "out_of_sink": edges.append(["Sink", v, {"cost": e[2]["cost"], "time": 1}]); want = NetworkXError
    if m == "nocost": e[2].pop("cost"); want = KeyError
    if m == "stops_type": kw["num_stops"] = rng.choice([2.5, "3", 1.0]); want = TypeError
    if m == "stops_neg": kw["num_stops"] = -rng.randint(1, 5); want = TypeError
    if m == "dur_type": kw["duration"] = rng.choice([50.5, "60"]); want = TypeError
    if m == "dur_neg": kw["duration"] = -rng.randint(1, 9); want = TypeError
    if m == "strategy": sv["pricing_strategy"] = rng.choice(["exact", "Best", "", "BestEdges3"]); want = ValueError
    if m == "cap_type": 
        bad = rng.choice([10.5, "12"]); want = TypeError
        if isinstance(cap, list): cap[rng.randrange(len(cap))] = bad
        else: kw["load_capacity"] = bad
    if m == "cap_neg":
        want = TypeError
        if isinstance(cap, list): cap[rng.randrange(len(cap))] = rng.choice([0, -3])
        else: kw["load_capacity"] = -3
    if m == "demand":
        for x in nodes:
            if x[0] == v: x[1]["demand"] = (max(cap) if isinstance(cap, list) else cap) + rng.randint(1, 4)
        want = ValueError
    if m == "mix_nv": kw["num_vehicles"] = [3] * (len(cap) + rng.choice([-1, 1])); want = ValueError
    if m == "mix_fc": kw["fixed_cost"] = [3] * (len(cap) + rng.choice([-1, 1])); want = ValueError
    if m in ("mix_nvfc", "mix_nvfc_nocap"):      # two given lists of different length
        kw["num_vehicles"] = [3] * len(cap); kw["fixed_cost"] = [3] * (len(cap) + rng.choice([-1, 1])); want = ValueError
        if m == "mix_nvfc_nocap": kw.pop("load_capacity")
        if rng.random() < .5: kw["num_vehicles"], kw["fixed_cost"] = kw["fixed_cost"], kw["num_vehicles"]
    if m == "mix_nocap":      # well-formed
        kw.pop("load_capacity"); kw["num_vehicles"] = [9] * len(cap); kw["fixed_cost"] = [3] * len(cap); sv["max_iter"] = 1
        if rng.random() < .5: kw.pop("num_vehicles")
    if m == "demand_eq":      # well-formed: exactly the largest capacity
        for x in nodes:
            if x[0] == v: x[1]["demand"] = max(cap) if isinstance(cap, list) else cap
        sv["max_iter"] = 1; sv.pop("initial_routes", None); sv.pop("preassignments", None)
    if m == "mix_cost_type": e[2]["cost"] = 7; want = TypeError
    if m == "mix_cost_dim": e[2]["cost"] = [7] * (len(cap) + rng.choice([-1, 1])); want = ValueError
    if m.startswith("heur_"): sv.clear(); sv.update({"heuristic_only": True, "cspy": False}); want = ValueError
    if m == "pd_cspy": sv["cspy"] = True; want = NotImplementedError
    if m == "pd_noreq":
        for x in nodes: x[1].pop("request", None); x[1]["demand"] = abs(x[1].get("demand", 0)) and 1
        kw["load_capacity"] = 100; want = KeyError
    if m == "far":
        for x in edges:
            if x[1] == v: x[2]["time"] = kw["duration"] + 1
        want = ValueError
    if m == "init_start": r = rng.choice(sv["initial_routes"]); r.pop(0); want = ValueError
    if m == "init_end": r = rng.choice(sv["initial_routes"]); r.pop(); want = ValueError
    if m == "init_missing":
        sv["initial_routes"] = [r for r in sv["initial_routes"] if v not in r]; want = KeyError
        if not sv["initial_routes"]: return "trivial", "", "", {}
    if m == "init_edge":
        a, b = rng.sample(C, 2)
        inst["edges"] = [x for x in edges if x[:2] != [a, b]]
        sv["initial_routes"] = [["Source", a, b, "Sink"]] + [["Source", c, "Sink"] for c in C if c not in (a, b)]; want = KeyError
    if m == "lock_edge":
        if len(C) < 2: return "trivial", "", "", {}
        a, b = rng.sample(C, 2)
        inst["edges"] = [x for x in edges if x[:2] != [a, b]]
        sv["preassignments"] = [["Source", a, b, "Sink"]]; want = ValueError
    data = {"inst": inst, "malformation": m}
    if m == "none":
        sv["max_iter"] = 1
    G = I_.build_graph(inst)
    if m == "graph": G = rng.choice([Graph(G), None, {}, [1]])
    got = None
    try:
        p = VehicleRoutingProblem(G, **json.loads(json.dumps(kw)))
        p.solve(**json.loads(json.dumps(sv)))
    except Exception as x:
        got = x
    if want is None:
        if got is None: return "ok", "", "", data
        nodes_, _, _ = O.net(inst)
        if O.excused(inst, nodes_, type(got).__name__ + ": " + str(got)): return "trivial", "", "", data
        return "viol", "check", "well-formed input rejected: %r" % got, data
    if got is None: return "viol", "check", "%s accepted, should raise %s" % (m, want), data
    if not isinstance(got, want): return "viol", "check", "%s raised %r, should raise %s" % (m, got, want), data
    return "ok", "", "", data


def unit_convert(rng):
    """initial routes become columns of the first type that can carry them, with that type's cost"""
    from vrpy import VehicleRoutingProblem
    inst = I_.gen(rng, rng.choice(["mixed", "mixed", "mixfleet", "init", "fixed"]))
    inst["solve"].pop("preassignments", None)
    nodes, edges, K = O.net(inst)
    C = [v for v in nodes if v not in ("Source", "Sink")]
    caps = inst["kw"].get("load_capacity"); caps = caps if isinstance(caps, list) or not caps else [caps]
    rs = []
    perm = C[:]; rng.shuffle(perm)
    for v in perm:
        r = rs[-1] if rs else None
        if r and (r[-2], v) in edges and rng.random() < .7 and (not caps or sum(nodes[x]["demand"] for x in r + [v]) <= max(caps)): r.insert(-1, v)
        else: rs.append(["Source", v, "Sink"])
    p = VehicleRoutingProblem(I_.build_graph(inst), **json.loads(json.dumps(inst["kw"])))
    for a in ("_format", "_convert_initial_routes_to_digraphs", "_pre_solve"):
        if not hasattr(p, a): raise Skip(a)
    p._pricing_strategy = "Exact"; p._cspy = False
    if not p.mixed_fleet: p._format()
    p._pre_solve()
    p._initial_routes = [list(r) for r in rs]
    p._convert_initial_routes_to_digraphs()
    data = {"inst": inst, "initial_routes": rs}
    got = p._routes
    if len(got) != len(rs): return "viol", "cover", "%s columns from %s routes" % (len(got), len(rs)), data
    if len({g.graph["name"] for g in got}) != len(rs): return "viol", "cover", "two columns share a name", data
    for r, g in zip(rs, got):
        if nxpath(g) != r: return "viol", "shape", "column %s from route %s" % (nxpath(g), r), data
        k = g.graph["vehicle_type"]
        if caps and (not 0 <= k < len(caps) or sum(nodes[v]["demand"] for v in r) > caps[k]): return "viol", "cap", "route %s given to type %s, capacities %s" % (r, k, caps), data
        c = sum(edges[e]["cost"][k] for e in zip(r, r[1:]))
        if not O.close(c, g.graph["cost"]): return "viol", "cost", "column %s costs %s, route %s" % (r, g.graph["cost"], c), data
    return ("ok" if any(len(r) > 3 for r in rs) else "trivial"), "", "", data


def unit_walk(rng):
    """columns built from cspy paths: never a walk through one customer twice in the integer plan,
    each column counts every visit"""
    CS = grab("subproblem_cspy", "_SubProblemCSPY"); M = grab("master_solve_pulp", "_MasterSolvePulp")
    inst = small(rng, ("plain", "mixed", "fleet", "drop"))
    nodes, edges, K, G, C, duals, k = pricing_args(rng, inst)
    duals = {v: 0.0 for v in C}
    routes, rwn = [], {v: [] for v in C}
    sp = call(CS, G, duals, rwn, routes, k, None, None, None, None, False, False, False, "Exact", None, elementary=False)
    if not hasattr(sp, "create_new_route"): raise Skip("create_new_route")
    succ = {}
    for u, v in edges: succ.setdefault(u, []).append(v)
    walks = [["Source", v, "Sink"] for v in C]
    for _ in range(rng.randint(2, 8)):
        w = ["Source"]
        while w[-1] != "Sink" and len(w) < 9:
            w.append(rng.choice([v for v in succ[w[-1]] if v != "Sink" or len(w) > 1]) if rng.random() < .85 or len(w) < 3 else "Sink")
        if w[-1] != "Sink": w.append("Sink")
        walks.append(w)
    data = {"inst": inst, "walks": walks, "k": k}
    for w in walks:
        n = len(routes)
        g = call(sp.create_new_route, list(w))
        if len(routes) == n: routes.append(g)
        if len(set(w)) == len(w):
            c = sum(edges[e]["cost"][k] for e in zip(w, w[1:]))
            if not O.close(c, g.graph["cost"]): return "viol", "cost", "column %s costs %s" % (w, g.graph["cost"]), data
            if nxpath(g) != w or g.graph["vehicle_type"] != k: return "viol", "shape", "column %s from path %s" % (nxpath(g), w), data
            for v in C:
                if sum(q is g for q in rwn[v]) != (v in w): return "viol", "cover", "index of routes by customer wrong for %s" % v, data
        g.graph["cost"] = 100 * len(w) - 300 * (len(w) - len(set(w)))    # make walks attractive
    T = rng.choice([None, 2, 3])                          # a walk may fill a customer's frequency
    fr = {v: rng.randint(1, T) if T else 1 for v in C}
    for v in C: G.nodes[v]["frequency"] = fr[v]
    data["frequency"] = {str(v): f for v, f in fr.items()}
    m = call(M, G, rwn, routes, None, [], False, T, False, "cbc")
    try: call(m.solve, False, None)
    except Skip: raise
    except Exception as e: return "viol", "cover", "%s although round trips cover everything" % e, data
    _, best = call(m.get_total_cost_and_routes, False)
    for g in best:
        w = list(g.graph.get("path") or nxpath(g))
        if len(set(w)) != len(w): return "viol", "shape", "the integer plan contains the walk %s" % w, data
    for v in C:
        if sum(v in (g.graph.get("path") or nxpath(g)) for g in best) != fr[v]: return "viol", "cover", "customer %s" % v, data
    return ("ok" if any(len(set(w)) != len(w) for w in walks) else "trivial"), "", "", data


def unit_star(rng):
    """customers reachable only from the depot, several vehicle types with few vehicles each: a plan exists exactly if the
    customers can be matched to the vehicles, and the relaxed problem is integral, so solving must find one"""
    n, K = rng.randint(2, 4), rng.randint(2, 3)
    q = [rng.randint(2, 9) for _ in range(K)]; match = [rng.randrange(K) for _ in range(n)]
    dem = [rng.randint(0, q[k]) for k in match]; nv = [match.count(k) for k in range(K)]
    every = all(nv) and rng.random() < .4
    if not every: nv = [x + rng.choice([0, 0, 1]) for x in nv]
    nv = [max(1, x) for x in nv]
    inst = {"nodes": [["Source", {}], ["Sink", {}]] + [[v + 1, {"demand": dem[v]}] for v in range(n)], "edges": [], "kw": {"mixed_fleet": True, "load_capacity": q, "num_vehicles": nv}, "solve": {"cspy": rng.random() < .7, "pricing_strategy": rng.choice(["Exact", "BestEdges1", "BestPaths"])}}
    if every: inst["kw"]["use_all_vehicles"] = True
    for v in range(1, n + 1):
        inst["edges"] += [["Source", v, {"cost": [rng.randint(1, 20) for _ in q]}], [v, "Sink", {"cost": [rng.randint(1, 20) for _ in q]}]]
    res = I_.run_instance(inst); data = {"inst": inst, "res": {k: str(v)[:300] for k, v in res.items()}, "plan": match}
    if "timeout" in res: return "trivial", "", "", data
    if "error" in res: return "viol", "error", "%s, although customer i can be served by type %s" % (res["error"], match), data
    got = sorted(v for r in res["routes"].values() for v in r[1:-1])
    if got != list(range(1, n + 1)): return "viol", "cover", "customers served: %s" % got, data
    for k in range(K):
        u = sum(res["types"][r] == k for r in res["routes"])
        if u > nv[k] or every and u != nv[k]: return "viol", "fleet", "type %d used %d times, available %d" % (k, u, nv[k]), data
    return "ok", "", "", data
