"""known.py ID: replays one recorded finding on the current tree; prints STILL-FAILS when it does."""
import sys, os, logging
sys.path.insert(0, os.environ.get("VP_REPO", "/repo")); logging.disable(logging.CRITICAL)
from networkx import DiGraph
from vrpy import VehicleRoutingProblem


def star(costs, demand=1):
    G = DiGraph()
    for v in costs:
        G.add_edge("Source", v, cost=costs[v]); G.add_edge(v, "Sink", cost=costs[v]); G.nodes[v]["demand"] = demand
        for w in costs:
            if w != v: G.add_edge(v, w, cost=1)
    return G


def dive():
    # diving returns routes of fractional columns: customers covered more or less than once
    import random
    for seed in range(60):
        rng = random.Random(seed); n = 6
        G = DiGraph(); C = list(range(1, n + 1))
        for v in C:
            G.add_edge("Source", v, cost=rng.randint(5, 20)); G.add_edge(v, "Sink", cost=rng.randint(5, 20))
            for w in C:
                if w != v: G.add_edge(v, w, cost=rng.randint(1, 20))
        for v in C: G.nodes[v]["demand"] = rng.randint(1, 5)
        p = VehicleRoutingProblem(G, load_capacity=9)
        try: p.solve(dive=True, cspy=False)
        except Exception as e: return "error %r (seed %d)" % (e, seed)  # noqa
        cnt = {v: sum(r.count(v) for r in p.best_routes.values()) for v in C}
        if any(c != 1 for c in cnt.values()): return "visits %s (seed %d)" % (cnt, seed)


def refix():
    G = star({1: 5, 2: 5})
    p = VehicleRoutingProblem(G, fixed_cost=10); p.solve(cspy=False); a = p.best_value
    p.solve(cspy=False)
    if abs(p.best_value - a) > 1e-6: return "first %s, second %s" % (a, p.best_value)


def relock():
    G = star({1: 5, 2: 5, 3: 5})
    p = VehicleRoutingProblem(G, num_stops=2); p.solve(preassignments=[["Source", 1, 2, "Sink"]], cspy=False)
    try: p.solve(cspy=False)
    except Exception as e: return repr(e)  # noqa
    c = {v: sum(r.count(v) for r in p.best_routes.values()) for v in (1, 2, 3)}
    if any(x != 1 for x in c.values()): return str(c)


def reperiod():
    G = star({1: 5, 2: 5}); 
    for v in (1, 2): G.nodes[v]["frequency"] = 1
    p = VehicleRoutingProblem(G, num_stops=1, periodic=2, num_vehicles=1)
    days = []
    for _ in range(2):
        p.solve(cspy=False); days.append(max(len(r) for r in p.schedule.values()))
    if p._num_vehicles_schedule == [] or days[1] > 1: return "vehicles limit of the schedule at the second solve: %r" % (p._num_vehicles_schedule,)


def restops():
    G = star({1: 5, 2: 5, 3: 5})
    p = VehicleRoutingProblem(G, load_capacity=1); p.solve(cspy=False)
    p.load_capacity = [10]; p.solve(cspy=False)
    if len(p.best_routes) > 1: return "one-stop limit derived from the old capacity still applied: %s" % p.best_routes


if __name__ == "__main__":
    r = {"dive-cover": dive, "resolve-fixed-cost": refix, "resolve-preassignments": relock, "resolve-periodic-fleet": reperiod, "resolve-capacity-stops": restops}[sys.argv[1]]()
    print(("STILL-FAILS " + r) if r else "does not fail")
