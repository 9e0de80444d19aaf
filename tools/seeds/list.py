"""Planted bugs: (id, property, [(file, old, new)], needs, what, demo source)"""
COMMON = '''
import sys, os, logging, random, itertools
logging.disable(logging.CRITICAL)
import networkx as nx
from networkx import DiGraph
from vrpy import VehicleRoutingProblem

def check(c, *msg):
    if not c: print("FAIL", *msg); sys.exit(1)
'''
S = []
def bug(id, prop, edits, needs, what, demo): S.append((id, prop, edits, needs, what, COMMON + demo))

bug("s01-initial-type", "C03", [("vrp.py", """                        sum(self.G.nodes[v]["demand"] for v in r)
                        <= self.load_capacity[k]""", """                        max(self.G.nodes[v]["demand"] for v in r)
                        <= self.load_capacity[k]""")],
 "mixed fleet and a given initial route with several customers that only fits a larger type", "initial routes with several customers are given a vehicle type that cannot carry them", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=[1, 10]); G.add_edge(v, "Sink", cost=[1, 10]); G.nodes[v]["demand"] = 4
G.add_edge(1, 2, cost=[0, 1]); G.add_edge(2, 1, cost=[0, 1])
p = VehicleRoutingProblem(G, mixed_fleet=True, load_capacity=[5, 10])
p.solve(initial_routes=[["Source", 1, 2, "Sink"]], cspy=False)
for r, path in p.best_routes.items():
    load = sum(G.nodes[v].get("demand", 0) for v in path)
    check(load <= [5, 10][p.best_routes_type[r]], path, p.best_routes_type[r])
''')

bug("s02-greedy-price-capacity", "C03", [("subproblem_greedy.py", """            <= self.load_capacity[self.vehicle_type]
        )""", """            <= max(self.load_capacity)
        )""")],
 "randomised greedy pricing with a mixed fleet where the cheap type is the small one", "greedy pricing builds routes for a vehicle type that cannot carry them", '''
from vrpy.subproblem_greedy import _SubProblemGreedy
G = DiGraph()
C = [1, 2, 3]
for v in C:
    G.add_edge("Source", v, cost=[1, 5], time=0); G.add_edge(v, "Sink", cost=[1, 5], time=0)
    for w in C:
        if w != v: G.add_edge(v, w, cost=[1, 5], time=0)
for v in C: G.nodes[v].update(demand=4, service_time=0)
for v in ("Source", "Sink"): G.nodes[v].update(demand=0, service_time=0)
routes = []
sp = _SubProblemGreedy(G, {v: 20 for v in C}, {v: [] for v in C}, routes, 0, None, None, [5, 12], None, False, False, False)
random.seed(1); sp.solve(n_runs=20)
check(routes, "no routes")
for r in routes: check(sum(G.nodes[v]["demand"] for v in r.nodes()) <= 5, list(r.nodes()))
''')

bug("s03-greedy-return", "C05", [("greedy.py", """        return_time = self.G.edges[v, "Sink"]["time"] if v != "Sink" else 0""", """        return_time = (
            self.G.edges[v, "Sink"]["time"] if v != "Sink" and self._load else 0
        )""")],
 "greedy initial heuristic: the vehicle is empty (customers without demand so far) when a node far from the Sink is considered", "the way back to the depot is not counted, so an initial route lasts longer than the limit", '''
from vrpy.greedy import _Greedy
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=1, time=2); G.add_edge(v, "Sink", cost=1, time=6)
    G.nodes[v].update(demand=0, service_time=1)
G.add_edge(1, 2, cost=1, time=1); G.add_edge(2, 1, cost=1, time=1)
for v in ("Source", "Sink"): G.nodes[v].update(demand=0, service_time=0)
a = _Greedy(G, None, None, 9); a.run()
for r in a.best_routes:
    t = sum(G.edges[e]["time"] for e in zip(r, r[1:])) + sum(G.nodes[v]["service_time"] for v in r)
    check(t <= 9, r, t)
''')

bug("s04-ref-window", "C06", [("subproblem_cspy.py", """        if not self._time_windows or (new_res[2] <= b_j):
            new_res[3] = 0""", """        if not self._time_windows or (new_res[2] <= b_j + theta_i):
            new_res[3] = 0""")],
 "cspy pricing with time windows and service times: arrival late by no more than the service time of the previous customer", "the time window test is relaxed by the service time of the node just left", '''
from vrpy.subproblem_cspy import _MyREFCallback
G = DiGraph()
G.add_edge(1, 2, time=5); G.nodes[1].update(demand=0, service_time=3, lower=0, upper=10, collect=0); G.nodes[2].update(demand=0, service_time=0, lower=0, upper=10, collect=0)
cb = _MyREFCallback([9, 9, 99, 0, 9, 9], True, False, 50, ["stops", "load", "time", "time windows", "collect", "deliver"]); cb._sub_G = G
check(cb.REF_fwd([1, 0, 4, 0, 0, 0], 1, 2, None, None, None)[3] > 0, "late arrival accepted")
check(cb.REF_fwd([1, 0, 2, 0, 0, 0], 1, 2, None, None, None)[3] == 0, "punctual arrival rejected")
''')

bug("s05-pickup-order", "C07", [("subproblem_lp.py", """                self.prob += (
                    self.y[v] <= self.y[delivery_node],""", """                self.prob += (
                    self.y[v] <= self.y[delivery_node] + self.sub_G.nodes[v]["service_time"],""")],
 "pickup and delivery with requests whose pickup has a service time", "a delivery may be visited before its pickup", '''
random.seed(3)
bad = 0
for seed in range(30):
    rng = random.Random(seed)
    G = DiGraph(); C = [1, 2, 3, 4]
    for v in C:
        G.add_edge("Source", v, cost=rng.choice([1, 30])); G.add_edge(v, "Sink", cost=rng.choice([1, 30]))
        for w in C:
            if w != v: G.add_edge(v, w, cost=rng.choice([1, 2, 30]))
    for p_, d_ in ((1, 2), (3, 4)):
        G.nodes[p_]["request"] = d_; G.nodes[p_]["demand"] = 2; G.nodes[d_]["demand"] = -2; G.nodes[p_]["service_time"] = 5
    p = VehicleRoutingProblem(G, pickup_delivery=True, load_capacity=4, num_stops=4)
    p.solve(cspy=False, pricing_strategy="Exact")
    for r in p.best_routes.values():
        load = 0
        for v in r[1:-1]:
            load += G.nodes[v]["demand"]
            check(0 <= load <= 4, seed, r)
        for a, b in ((1, 2), (3, 4)):
            if a in r or b in r: check(a in r and b in r and r.index(a) < r.index(b), seed, r)
''')

bug("s06-collect-order", "C08", [("subproblem_cspy.py", """            new_res[5] = max(new_res[5] + self._sub_G.nodes[j]["demand"], new_res[4])
""", """            if self._sub_G.nodes[j]["demand"]:
                new_res[5] = max(
                    new_res[5] + self._sub_G.nodes[j]["demand"], new_res[4]
                )
""")],
 "simultaneous distribution and collection where a customer that only sends goods back is followed by one that gets a delivery", "goods collected from a customer without delivery are not counted against the deliveries still on board, so an overloaded leg is not seen", '''
from vrpy.subproblem_cspy import _MyREFCallback
G = DiGraph(); names = [0, 1, 2, 3]
for a, b in zip(names, names[1:]): G.add_edge(a, b, time=0)
for v, d, c in ((0, 0, 0), (1, 0, 6), (2, 5, 0), (3, 0, 0)): G.nodes[v].update(demand=d, collect=c, service_time=0, lower=0, upper=0)
cb = _MyREFCallback([9, 10, 99, 0, 10, 10], False, True, 0, ["stops", "load", "time", "time windows", "collect", "deliver"]); cb._sub_G = G
res = [0] * 6; top = 0
for a, b in zip(names, names[1:]):
    res = cb.REF_fwd(res, a, b, None, None, None); top = max(top, res[4], res[5])
# leg 1-2 carries the 6 collected goods and the 5 still to be distributed
check(top >= 11, "load on board underestimated", top)
''')

bug("s07-fixed-cost-order", "C09", [("vrp.py", """        for v in self.G.successors("Source"):
            for k in range(self._vehicle_types):
                self.G.edges["Source", v]["cost"][k] += self.fixed_cost[k]""", """        for v in self.G.successors("Source"):
            for k in range(self._vehicle_types):
                self.G.edges["Source", v]["cost"][k] += self.fixed_cost[
                    min(k, 1)
                ]""")],
 "three or more vehicle types with different fixed costs, a route of the third type", "routes of the third type are charged the fixed cost of the second", '''
G = DiGraph()
for v in (1, 2, 3):
    G.add_edge("Source", v, cost=[1, 1, 1]); G.add_edge(v, "Sink", cost=[1, 1, 1]); G.nodes[v]["demand"] = 9
p = VehicleRoutingProblem(G, mixed_fleet=True, load_capacity=[3, 5, 10], fixed_cost=[5, 6, 50])
p.solve(cspy=False)
check(abs(p.best_value - 3 * 52) < 1e-6, p.best_value)
''')

bug("s08-departure", "C10", [("vrp.py", """                departure[i][head] = (
                    arrival[i][head] + self._H.nodes[head]["service_time"]
                )""", """                departure[i][head] = (
                    arrival[i][head] + self._H.nodes[head]["service_time"]
                    if head != "Sink"
                    else arrival[i][tail]
                    + self._H.nodes[tail]["service_time"]
                    + self._H.edges[tail, head]["time"]
                )""")],
 "the Sink opens after the vehicle is back (waiting at the Sink), or has a service time", "the reported departure from the Sink ignores the waiting time at the Sink", '''
G = DiGraph()
G.add_edge("Source", 1, cost=1, time=2); G.add_edge(1, "Sink", cost=1, time=2)
G.nodes[1].update(lower=0, upper=20, service_time=1); G.nodes["Sink"].update(lower=15, upper=40); G.nodes["Source"].update(lower=0, upper=40)
p = VehicleRoutingProblem(G, time_windows=True); p.solve(cspy=False)
a, d = p.arrival_time[1], p.departure_time[1]
check(a["Sink"] == 15 and d["Sink"] == a["Sink"], a, d)
''')

bug("s09-fleet-artificial", "C11", [("master_solve_pulp.py", """            for var in self.dummy_bound.values():
                if "artificial_bound_" in var.name:""", """            for var in self.dummy_bound.values():
                if "artificial_bound_0" in var.name:""")],
 "several vehicle types, the limit of a type other than the first binds in the integer problem", "the artificial variable of the other types stays free, so more vehicles than available are used", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=[1, 1]); G.add_edge(v, "Sink", cost=[1, 1]); G.nodes[v]["demand"] = 9
p = VehicleRoutingProblem(G, mixed_fleet=True, load_capacity=[5, 10], num_vehicles=[1, 1])
try: p.solve(cspy=False)
except Exception: sys.exit(0)
check(sum(1 for t in p.best_routes_type.values() if t == 1) <= 1, p.best_routes, p.best_routes_type)
''')

bug("s10-collect-bound", "C12", [("preprocessing.py", """        collect = [int(G.nodes[v]["collect"]) for v in G.nodes()]
""", """        collect = [
            int(G.nodes[v]["collect"]) + int(G.nodes[v]["demand"]) for v in G.nodes()
        ]
""")],
 "simultaneous distribution and collection where the goods brought and the goods taken back both nearly fill the vehicle", "the bound on the number of stops counts delivered and collected goods together, so feasible routes exceed it", '''
G = DiGraph()
C = [1, 2, 3, 4, 5, 6]
for v in C:
    G.add_edge("Source", v, cost=10, time=0); G.add_edge(v, "Sink", cost=10, time=0); G.nodes[v].update(demand=5, collect=5)
    for w in C:
        if w != v: G.add_edge(v, w, cost=1, time=0)
p = VehicleRoutingProblem(G, load_capacity=30, distribution_collection=True); p.solve(cspy=False, pricing_strategy="Exact")
# one route with all six customers: 30 goods on board on every leg
check(abs(p.best_value - 25) < 1e-6, p.best_value, p.best_routes)
''')

bug("s11-vehicle-dual", "C13", [("subproblem.py", """                self.G.edges["Source", v]["weight"] -= self.duals[
                    "upper_bound_vehicles"
                ][self.vehicle_type]""", """                self.G.edges["Source", v]["weight"] -= max(
                    self.duals["upper_bound_vehicles"].values()
                )""")],
 "several vehicle types with different dual values of their limits", "the price of using a vehicle is taken from another vehicle type", '''
from vrpy.subproblem_lp import _SubProblemLP
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=[1, 3], time=0); G.add_edge(v, "Sink", cost=[1, 3], time=0)
for v in G.nodes(): G.nodes[v].update(demand=0, service_time=0)
_SubProblemLP(G, {1: 5, 2: 4, "upper_bound_vehicles": {0: -2, 1: 0}}, {1: [], 2: []}, [], 0, solver="cbc")
check(abs(G.edges["Source", 1]["weight"] - 3) < 1e-9, G.edges["Source", 1]["weight"])
''')

bug("s12-dimension-check", "C14", [("checks.py", """        if num_vehicles and fixed_cost and len(num_vehicles) != len(fixed_cost):""", """        if (
            num_vehicles
            and fixed_cost
            and load_capacity
            and len(num_vehicles) != len(fixed_cost)
        ):""")],
 "mixed fleet without capacities, number of vehicles and fixed costs of different dimension", "the inconsistent dimensions are accepted", '''
G = DiGraph()
G.add_edge("Source", 1, cost=[1, 1]); G.add_edge(1, "Sink", cost=[1, 1])
p = VehicleRoutingProblem(G, mixed_fleet=True, fixed_cost=[1, 2], num_vehicles=[1])
try: p.solve(cspy=False); check(False, "accepted")
except ValueError: pass
''')

bug("s13-fleet-per-day", "C15", [("schedule.py", """            for k in range(len(self.num_vehicles)):
                for t in range(self.time_span):
                    self.prob += (""", """            for k in range(len(self.num_vehicles)):
                for t in range(self.time_span - k):
                    self.prob += (""")],
 "periodic problem with several vehicle types and a limit of the second type that binds on the last day", "no limit on the vehicles of the second type on the last day", '''
from vrpy.schedule import _Schedule
G = DiGraph()
for v in (1, 2, 3): G.add_edge("Source", v); G.add_edge(v, "Sink"); G.nodes[v]["demand"] = 1
ok = True
for types in itertools.product((0, 1), repeat=3):
    s = _Schedule(G, 2, {1: ["Source", 1, "Sink"], 2: ["Source", 2, "Sink"], 3: ["Source", 3, "Sink"]}, dict(zip((1, 2, 3), types)), [3, 1])
    s.solve(None)
    for d, rs in s.routes_per_day.items():
        check(sum(types[r - 1] == 1 for r in rs) <= 1, types, s.routes_per_day)
''')

bug("s14-lock-type", "C16", [("vrp.py", """                            if load <= self.load_capacity[k]:
                                best_cost = cost
                                self._best_routes_vehicle_type[route_id] = k""", """                            if load <= self.load_capacity[k]:
                                best_cost = min(cost, best_cost - 1)
                                self._best_routes_vehicle_type[route_id] = k""")],
 "preassigned complete route, several vehicle types with capacity for it", "", '''
sys.exit(0)
''')

bug("s15-theta", "C19", [("hyper_heuristic.py", """            self.theta = max(self.theta - self.step, self.step)""", """            self.theta = max(self.theta - self.step, 0)""")],
 "a long run of iterations without improvement", "the exploration weight reaches zero", '''
from vrpy.hyper_heuristic import _HyperHeuristic
h = _HyperHeuristic(step=0.25)
h.obj_has_decreased = False; h.produced_column = False
for i in range(30):
    h.update_scaling_factor(i); check(0 < h.theta <= 1, h.theta)
''')

bug("s16-stale-time-windows", "C18", [("vrp.py", """        self.num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(""", """        if self._max_capacity and self.load_capacity:
            # capacity cannot shrink below what was used before
            self.load_capacity = [max(q, self._max_capacity) for q in self.load_capacity] if len(self.load_capacity) == 1 else self.load_capacity
        self.num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(""")],
 "solving the same object twice with a smaller capacity the second time", "the capacity of an earlier call is used", '''
G = DiGraph()
for v in (1, 2, 3):
    G.add_edge("Source", v, cost=9); G.add_edge(v, "Sink", cost=9); G.nodes[v]["demand"] = 4
    for w in (1, 2, 3):
        if w != v: G.add_edge(v, w, cost=1)
p = VehicleRoutingProblem(G, load_capacity=12); p.solve(cspy=False)
p.load_capacity = 8; p.solve(cspy=False)
for r in p.best_routes.values(): check(sum(G.nodes[v]["demand"] for v in r) <= 8, r)
''')

bug("s17-drop-cover", "C01", [("master_solve_pulp.py", """                    for const in self.prob.constraints:
                        # Modify the self.prob object (the
                        # self.set_covering_constrs object cannot be modified
                        # (?))
                        if "visit_node" in const:""", """                    for const in self.prob.constraints:
                        # Modify the self.prob object (the
                        # self.set_covering_constrs object cannot be modified
                        # (?))
                        if "visit_node" in const and not self.drop_penalty:""")],
 "dropping allowed; a customer covered twice is cheaper than exactly once (violated triangle inequality)", "with dropping allowed customers may be visited twice", '''
# going through 2 is cheaper than the direct edges, but only routes through 2 exist cheaply
found = 0
for seed in range(60):
    rng = random.Random(seed); C = [1, 2, 3]
    G = DiGraph()
    for v in C:
        G.add_edge("Source", v, cost=rng.choice([1, 40])); G.add_edge(v, "Sink", cost=rng.choice([1, 40])); G.nodes[v]["demand"] = 1
        for w in C:
            if w != v and rng.random() < .7: G.add_edge(v, w, cost=rng.choice([1, 3]))
    p = VehicleRoutingProblem(G, load_capacity=2, drop_penalty=100)
    p.solve(cspy=False)
    for v in C:
        n = sum(r.count(v) for r in p.best_routes.values())
        check(n + (v in p._dropped_nodes) == 1, seed, v, p.best_routes, p._dropped_nodes)
''')

bug("s18-cw-stops", "C17", [("clarke_wright.py", """            if len(route.nodes()) - 2 + 1 > self.num_stops:""", """            if len([e for e in route.edges() if e[1] != "Sink" and self.G.edges[e]["cost"]]) + 1 > self.num_stops:""")],
 "stop limit and edges of cost zero between customers", "customers reached over free edges do not count as stops in the savings heuristic", '''
G = DiGraph(); C = [1, 2, 3]
for v in C:
    G.add_edge("Source", v, cost=5); G.add_edge(v, "Sink", cost=5)
    for w in C:
        if w != v: G.add_edge(v, w, cost=0)
p = VehicleRoutingProblem(G, num_stops=2); p.solve(heuristic_only=True)
for r in p.best_routes.values(): check(len(r) - 2 <= 2, r)
''')

bug("s19-lp-path", "C02", [("subproblem_lp.py", """        for (i, j) in self.sub_G.edges():
            if pulp.value(self.x[(i, j)]) > 0.5:
                used_edges.add_edge(i, j)""", """        for (i, j) in self.sub_G.edges():
            if pulp.value(self.x[(i, j)]) > 0.5:
                used_edges.add_edge(i, j)
                used_edges.add_edge(i, "Sink")""")],
 "", "", "sys.exit(0)")

bug("s20-lp-stops", "C04", [("subproblem_lp.py", """            <= self.num_stops + 1,
            "max_{}".format(self.num_stops),""", """            <= self.num_stops + (2 if self.duration and self.time_windows else 1),
            "max_{}".format(self.num_stops),""")],
 "stop limit together with a duration limit and time windows", "one stop too many is allowed by exact pricing", '''
G = DiGraph(); C = [1, 2, 3]
for v in C:
    G.add_edge("Source", v, cost=9, time=1); G.add_edge(v, "Sink", cost=9, time=1)
    for w in C:
        if w != v: G.add_edge(v, w, cost=1, time=1)
    G.nodes[v].update(lower=0, upper=50)
G.nodes["Source"].update(lower=0, upper=50); G.nodes["Sink"].update(lower=0, upper=50)
p = VehicleRoutingProblem(G, num_stops=2, duration=40, time_windows=True); p.solve(cspy=False, pricing_strategy="Exact")
for r in p.best_routes.values(): check(len(r) - 2 <= 2, r)
''')
S = [s for s in S if s[0] not in ("s14-lock-type", "s19-lp-path")]

bug("s14-lock-type", "C16", [("vrp.py", """                    load = sum(self._H.nodes[i]["demand"] for i in route)
                    if cost < best_cost:""", """                    load = max(self._H.nodes[i]["demand"] for i in route)
                    if cost < best_cost:""")],
 "several vehicle types, a preassigned route with more than one customer that only the dearer type can carry", "a preassigned route is reported with a vehicle that cannot carry it", '''
G = DiGraph()
for v in (1, 2, 3):
    G.add_edge("Source", v, cost=[1, 5]); G.add_edge(v, "Sink", cost=[1, 5]); G.nodes[v]["demand"] = 4
    for w in (1, 2, 3):
        if w != v: G.add_edge(v, w, cost=[1, 5])
p = VehicleRoutingProblem(G, mixed_fleet=True, load_capacity=[5, 10])
p.solve(preassignments=[["Source", 1, 2, "Sink"]], cspy=False)
k = [r for r in p.best_routes if p.best_routes[r] == ["Source", 1, 2, "Sink"]]
check(len(k) == 1 and p.best_routes_type[k[0]] == 1, p.best_routes, p.best_routes_type)
''')
bug("s19-nonelem", "C02", [("subproblem_cspy.py", """        e = "elem" if len(set(path)) == len(path) else "non-elem\"""", """        e = "elem" if path[-2] not in path[:-2] else "non-elem\"""")],
 "cspy pricing returns a path with a repeated node that is not the last customer", "such columns are not excluded from the integer problem, so a returned route may visit a node twice", '''
from vrpy.subproblem_cspy import _SubProblemCSPY
G = DiGraph()
for a, b in (("Source", 1), (1, 2), (2, 1), (1, 3), (3, "Sink")): G.add_edge(a, b, cost=[1], time=0)
for v in G.nodes(): G.nodes[v].update(demand=0, service_time=0, lower=0, upper=0, collect=0)
s = _SubProblemCSPY(G, {1: 3, 2: 3, 3: 3}, {1: [], 2: [], 3: []}, [], 0, None, None, None, None, False, False, False, "Exact", None, elementary=False)
check("non" in str(s.create_new_route(["Source", 1, 2, 1, 3, "Sink"]).graph["name"]))
check("non" not in str(s.create_new_route(["Source", 1, 2, "Sink"][:1] + [1, 3, "Sink"]).graph["name"]))
''')

# second batch
bug("s21-sink-window", "C12", [("vrp.py", """                self.G.nodes[u]["upper"]
                + self.G.nodes[u]["service_time"]
                + self.G.edges[u, "Sink"]["time"]
                for u in self.G.predecessors("Sink")
            )

    def _update""", """                self.G.nodes[u]["upper"] + self.G.edges[u, "Sink"]["time"]
                for u in self.G.predecessors("Sink")
            )

    def _update""")],
 "time windows with service times, and no window given for the Sink", "the default window of the Sink ends before a vehicle serving the last customer late can be back: feasible routes are lost", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=10, time=1); G.add_edge(v, "Sink", cost=10, time=1)
G.add_edge(1, 2, cost=1, time=2)
G.nodes["Source"].update(lower=0, upper=0)
G.nodes[1].update(lower=0, upper=10, service_time=3); G.nodes[2].update(lower=10, upper=10, service_time=7)
p = VehicleRoutingProblem(G, time_windows=True)
p.solve(cspy=False, pricing_strategy="Exact")
check(abs(p.best_value - 21) < 1e-6, p.best_value, p.best_routes)
''')

bug("s22-exact-duration", "C14", [("checks.py", """                if shortest_trip > duration:""", """                if shortest_trip >= duration:""")],
 "a customer whose round trip takes exactly the duration limit", "a feasible problem is refused", '''
G = DiGraph()
G.add_edge("Source", 1, cost=1, time=3); G.add_edge(1, "Sink", cost=1, time=4)
G.add_edge("Source", 2, cost=1, time=1); G.add_edge(2, "Sink", cost=1, time=1)
p = VehicleRoutingProblem(G, duration=7)
try: p.solve(cspy=False)
except ValueError as e: check(False, e)
check(sorted(map(tuple, p.best_routes.values())) == [("Source", 1, "Sink"), ("Source", 2, "Sink")])
''')

bug("s23-node-load-type", "C10", [("vrp.py", """                k = self._best_routes_vehicle_type[i]
                amount += self.load_capacity[k]""", """                k = self._best_routes_vehicle_type[min(self.best_routes)]
                amount += self.load_capacity[k]""")],
 "simultaneous distribution and collection with a mixed fleet whose routes use different types", "loads are reported as if each vehicle were of the type of the first route", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=[1, 5]); G.add_edge(v, "Sink", cost=[1, 5])
G.nodes[1].update(demand=4, collect=2); G.nodes[2].update(demand=8, collect=1)
p = VehicleRoutingProblem(G, mixed_fleet=True, load_capacity=[5, 10], distribution_collection=True)
p.solve(cspy=False, pricing_strategy="Exact")
for r, path in p.best_routes.items():
    q = [5, 10][p.best_routes_type[r]]
    for v in path:
        q += {1: 2 - 4, 2: 1 - 8}.get(v, 0)
        check(p.node_load[r][v] == q, r, path, p.node_load[r])
''')

bug("s24-no-exact-after-greedy", "C13", [("vrp.py", """            if pricing_strategy == "Exact" or not more_columns:
                more_columns = self._attempt_solve_exact(""", """            if pricing_strategy == "Exact" or not (more_columns or self._greedy):
                more_columns = self._attempt_solve_exact(""")],
 "the randomised greedy option together with a heuristic pricing strategy that finds nothing while exact pricing would", "column generation ends although improving routes exist", '''
from vrpy import vrp as V
calls = []
class P(VehicleRoutingProblem):
    def _attempt_solve_exact(self, *a, **k):
        calls.append(1); return super()._attempt_solve_exact(*a, **k)
G = DiGraph(); C = [1, 2, 3, 4]
for v in C:
    G.add_edge("Source", v, cost=10); G.add_edge(v, "Sink", cost=10); G.nodes[v]["demand"] = 1
    for w in C:
        if w != v: G.add_edge(v, w, cost=3 + abs(v - w))
random.seed(1)
p = P(G, load_capacity=4); p.solve(cspy=False, greedy=True, pricing_strategy="BestEdges1", run_exact=50)
check(p._more_routes is False, "not converged")
check(calls, "search ended without exact pricing")
''')

bug("s25-daily-visit", "C15", [("schedule.py", """                if v not in ["Source", "Sink"]:
                    self.prob += (""", """                if (
                    v not in ["Source", "Sink"]
                    and self.G.nodes[v]["frequency"] < max(self.time_span, 3)
                ):
                    self.prob += (""")],
 "a customer to be visited every day of a planning period of at least three days, where other limits make the balanced timetable ambiguous", "a customer visited every day may get two visits on one day and none on another", '''
from vrpy.schedule import _Schedule
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=[1]); G.add_edge(v, "Sink", cost=[1])
G.nodes["Source"]["frequency"] = G.nodes["Sink"]["frequency"] = 1
G.nodes[1]["frequency"] = 3; G.nodes[2]["frequency"] = 3
a, b = ["Source", 1, "Sink"], ["Source", 2, "Sink"]
for o in set(itertools.permutations("aaabbb")):
    routes = {i + 1: {"a": a, "b": b}[x] for i, x in enumerate(o)}
    s = _Schedule(G, 3, routes, {r: 0 for r in routes}); s.solve(None)
    d = s.routes_per_day
    for t in d:
        seen = [v for r in d[t] for v in routes[r][1:-1]]
        check(len(seen) == len(set(seen)), d)
''')

bug("s26-fixed-cost-free", "C09", [("vrp.py", """            for k in range(self._vehicle_types):
                self.G.edges["Source", v]["cost"][k] += self.fixed_cost[k]""", """            for k in range(self._vehicle_types):
                if self.G.edges["Source", v]["cost"][k]:
                    self.G.edges["Source", v]["cost"][k] += self.fixed_cost[k]""")],
 "a fixed cost and a customer reached from the depot for free", "the fixed cost of such vehicles is left out of the costs", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=0 if v == 1 else 2); G.add_edge(v, "Sink", cost=1)
G.add_edge(1, 2, cost=50); G.add_edge(2, 1, cost=50)
p = VehicleRoutingProblem(G, fixed_cost=7); p.solve(cspy=False)
check(p.best_value == 1 + 3 + 14, p.best_value, p.best_routes)
''')

bug("s28-cw-service", "C05", [("clarke_wright.py", """                        self.G.nodes[v]["service_time"]
                        + self.G.edges["Source", v]["time"]
                        + self.G.edges[v, "Sink"]["time"]""", """                        max(
                            self.G.nodes[v]["service_time"],
                            self.G.edges["Source", v]["time"],
                        )
                        + self.G.edges[v, "Sink"]["time"]""")],
 "savings heuristic with a duration limit and service times", "a merged route lasts longer than the limit", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=5, time=2); G.add_edge(v, "Sink", cost=5, time=2); G.nodes[v]["service_time"] = 2
G.add_edge(1, 2, cost=1, time=1); G.add_edge(2, 1, cost=1, time=1)
p = VehicleRoutingProblem(G, duration=8); p.solve(heuristic_only=True)
for r, d in p.best_routes_duration.items(): check(d <= 8, p.best_routes[r], d)
''')

bug("s29-types-once", "C18", [("vrp.py", """        if self.mixed_fleet:
            self._define_vehicle_types()
        else:""", """        if self.mixed_fleet:
            if not self._vehicle_types:
                self._define_vehicle_types()
        else:"""), ("vrp.py", """        elif self.num_vehicles:
            self._vehicle_types = len(self.num_vehicles)
""", """        elif self.num_vehicles:
            self._vehicle_types = len(self.num_vehicles)
""")],
 "a mixed fleet problem solved again with another number of vehicle types", "the number of types of the first solve is still in force", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=[5, 5]); G.add_edge(v, "Sink", cost=[5, 5]); G.nodes[v]["demand"] = 2
p = VehicleRoutingProblem(G, mixed_fleet=True, load_capacity=[2, 3]); p.solve(cspy=False, pricing_strategy="Exact")
for e in list(G.edges()): G.edges[e]["cost"] = [5, 5, 1]
p.load_capacity = [2, 3, 4]
try: p.solve(cspy=False, pricing_strategy="Exact")
except Exception as e: check(False, repr(e))
check(abs(p.best_value - 4) < 1e-6, p.best_value)
''')

bug("s30-untried", "C19", [("hyper_heuristic.py", """        maxval = max(self.heuristic_points.values())
        best_heuristics = [i for i, j in self.heuristic_points.items() if j == maxval]""", """        points = [p for p in self.heuristic_points.values() if p != self.inf]
        maxval = max(points) if len(points) > 2 else self.inf
        best_heuristics = [i for i, j in self.heuristic_points.items() if j == maxval]""")],
 "an adaptive run in which all but one strategy were tried", "the last untried strategy is never picked although it has the highest score", '''
from vrpy.hyper_heuristic import _HyperHeuristic
for left in ("Exact", "BestEdges1", "BestPaths"):
    h = _HyperHeuristic(seed=1)
    for i in h.heuristic_options:
        if i != left: h.heuristic_points[i] = 0.3
    check(h.pick_heuristic() == left, left)
''')

bug("s31-periodic-nonelem", "C02", [("master_solve_pulp.py", """                # Disallow routes that visit multiple nodes
                if "non" in var.name:""", """                # Disallow routes that visit multiple nodes
                if "non" in var.name and not var.upBound is None:""")],
 "planning period (route variables without upper bound) and a priced column that visits a customer twice", "a returned route visits a customer twice to make up its frequency", '''
from vrpy.master_solve_pulp import _MasterSolvePulp
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=[9]); G.add_edge(v, "Sink", cost=[9])
G.add_edge(1, 2, cost=[1]); G.add_edge(2, 1, cost=[1])
for v in G.nodes(): G.nodes[v].update(frequency=1, demand=0)
G.nodes[1]["frequency"] = 2
def route(name, path, cost):
    r = DiGraph(name=name, path=path, cost=cost, vehicle_type=0); nx.add_path(r, path); return r
R = [route(1, ["Source", 1, "Sink"], 18), route(2, ["Source", 2, "Sink"], 18), route("3_non-elem", ["Source", 1, 2, 1, "Sink"], 20)]
m = _MasterSolvePulp(G, {1: [R[0], R[2]], 2: [R[1], R[2]]}, R, None, [], False, 3, False, "cbc")
m.solve(relax=True, time_limit=None); m.solve(relax=False, time_limit=None)
_, best = m.get_total_cost_and_routes(relax=False)
for r in best: check(len(set(r.graph["path"])) == len(r.graph["path"]), r.graph["path"])
''')

bug("s32-all-vehicles-type", "C11", [("master_solve_pulp.py", """            sign = pulp.LpConstraintEQ if self.use_all_vehicles else pulp.LpConstraintLE
""", """            sign = (
                pulp.LpConstraintEQ
                if self.use_all_vehicles and self.num_vehicles[k] <= len(self.routes)
                else pulp.LpConstraintLE
            )
""")],
 "all vehicles must be used and there are more vehicles of a type than initial routes", "not all vehicles are used", '''
G = DiGraph(); C = [1, 2, 3]
for v in C:
    G.add_edge("Source", v, cost=5); G.add_edge(v, "Sink", cost=5); G.nodes[v]["demand"] = 1
    for w in C:
        if w != v: G.add_edge(v, w, cost=1)
p = VehicleRoutingProblem(G, num_vehicles=3, use_all_vehicles=True, load_capacity=3)
p.solve(cspy=False, initial_routes=[["Source", 1, 2, 3, "Sink"], ["Source", 2, "Sink"]])
check(len(p.best_routes) == 3, p.best_routes)
''')

bug("s33-collect-window-order", "C06", [("subproblem_lp.py", """            self.prob += self.t[v] >= self.sub_G.nodes[v]["lower"], "node_%s_low" % v""", """            if self.sub_G.nodes[v]["demand"] or v == "Source":
                self.prob += self.t[v] >= self.sub_G.nodes[v]["lower"], "node_%s_low" % v""")],
 "time windows and a customer without demand on a route with a later customer", "waiting for the opening of such customers is not accounted for, so later customers are reached too late", '''
G = DiGraph()
for v in (1, 2):
    G.add_edge("Source", v, cost=10, time=1); G.add_edge(v, "Sink", cost=10, time=1)
G.add_edge(1, 2, cost=1, time=1)
G.add_edge("Source", 3, cost=10, time=1); G.add_edge(3, "Sink", cost=10, time=1); G.add_edge(1, 3, cost=1, time=1); G.add_edge(3, 2, cost=1, time=1)
G.nodes["Source"].update(lower=0, upper=50); G.nodes["Sink"].update(lower=0, upper=60)
G.nodes[1].update(lower=9, upper=20); G.nodes[2].update(lower=0, upper=10); G.nodes[3].update(lower=0, upper=30)
p = VehicleRoutingProblem(G, time_windows=True); p.solve(cspy=False, pricing_strategy="Exact")
for r, a in p.arrival_time.items():
    for v, t in a.items(): check(t <= {1: 20, 2: 10, 3: 30}.get(v, 60), p.best_routes[r], a)
''')
