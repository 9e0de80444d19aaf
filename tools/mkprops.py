"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json
V = "vrpy/"
VALID = ("every network in which each customer (or pickup/delivery request) can be served by a direct round trip of its own within the limits, "
         "with non-negative demands, collections, times and service times, and every combination of options and pricing strategies, except the diving search")
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[V + f for f in files], mechanism=[dict(name=n, where=V + w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=V + w) for n, m, w in (state or [])], observe_at=observe or ["VehicleRoutingProblem.best_routes"], hook_needed=None))
L = [
P("C01", "Every customer is served exactly as often as asked",
  "In every plan a solve returns, each customer appears exactly once over all routes: exactly its frequency times when a planning period is given, and either visited or reported as dropped - never both, never neither - when dropping is allowed. Solving a valid, feasible problem returns such a plan instead of failing.",
  ["inputs", "configurations"], VALID, "The tests solve about forty fixed small networks; coverage must hold for every network, option mix and every sequence of generated columns.",
  ["master_solve_pulp.py", "vrp.py", "subproblem_lp.py", "subproblem_cspy.py", "subproblem_greedy.py"],
  [("set partitioning rows and columns", "master_solve_pulp.py:_add_set_covering_constraints/_add_route_selection_variable/_solve"), ("dropping and periodic variables", "master_solve_pulp.py:_add_drop_variables/_add_artificial_variables"), ("column = path", "subproblem_lp.py:_add_new_route"), ("reading the solution", "master_solve_pulp.py:get_total_cost_and_routes"), ("initial columns", "vrp.py:_convert_initial_routes_to_digraphs")],
  [("routes", "columns of the master problem", "vrp.py"), ("y, drop, dummy", "master variables", "master_solve_pulp.py")]),
P("C02", "Routes are elementary depot-to-depot paths of the network",
  "Every returned route starts at the Source, ends at the Sink, visits no node twice, and uses only edges of the input network (or the direct depot links the library announces it adds).",
  ["inputs", "configurations"], VALID, "Whether a column is a path depends on duals, negative cycles, sparsified graphs and solver ties that fixed examples do not reach.",
  ["subproblem_lp.py", "subproblem_cspy.py", "subproblem_greedy.py", "clarke_wright.py", "greedy.py", "vrp.py", "master_solve_pulp.py", "checks.py"],
  [("flow, start, end, elementarity constraints", "subproblem_lp.py:_formulate/_add_elementarity"), ("path of the solution", "subproblem_lp.py:_add_new_route"), ("non elementary columns excluded from the integer problem", "subproblem_cspy.py:create_new_route, master_solve_pulp.py:_solve"), ("node lists", "vrp.py:_best_routes_as_node_lists")]),
P("C03", "No vehicle is loaded beyond its capacity",
  "When capacities are given, the total demand on each returned route never exceeds the capacity of the vehicle type the route is reported with, for one vehicle type or several.",
  ["inputs", "configurations"], VALID, "Tests pin a few optimal values; an overload in one pricing path or for one vehicle type only shows on networks where that column is chosen.",
  ["subproblem_lp.py", "subproblem_cspy.py", "subproblem_greedy.py", "clarke_wright.py", "greedy.py", "vrp.py"],
  [("load row", "subproblem_lp.py:_add_max_load"), ("load resource", "subproblem_cspy.py:add_max_load/REF_fwd"), ("load test", "subproblem_greedy.py:_check_capacity, clarke_wright.py:_constraints_met, greedy.py:_check_capacity"), ("vehicle type of initial and locked routes", "vrp.py:_convert_initial_routes_to_digraphs/_best_routes_as_node_lists")]),
P("C04", "No route makes more stops than allowed",
  "When a maximum number of stops is given, no returned route visits more customers than that, whatever other limits are active.",
  ["inputs", "configurations"], VALID, "The stop limit is enforced in five places and tightened by a capacity bound; tests sample one or two networks per place.",
  ["subproblem_lp.py", "subproblem_cspy.py", "subproblem_greedy.py", "clarke_wright.py", "greedy.py", "preprocessing.py", "vrp.py"],
  [("stop row", "subproblem_lp.py:_add_max_stops"), ("stop resource", "subproblem_cspy.py:add_max_stops"), ("stop tests", "clarke_wright.py:_constraints_met, greedy.py:_update, subproblem_greedy.py:_update"), ("stop bound", "preprocessing.py:get_num_stops_upper_bound")]),
P("C05", "No route lasts longer than the duration limit",
  "When a maximum duration is given, the travel times plus service times along each returned route never exceed it, also when travel times are asymmetric and whichever heuristic or pricing method produced the route.",
  ["inputs", "configurations"], VALID, "Existing tests use symmetric or trivial times; the limit is implemented six times.",
  ["subproblem_lp.py", "subproblem_cspy.py", "subproblem_greedy.py", "clarke_wright.py", "greedy.py"],
  [("duration row", "subproblem_lp.py:_add_max_duration"), ("time resource", "subproblem_cspy.py:add_max_duration/REF_fwd"), ("duration tests", "clarke_wright.py:_constraints_met, greedy.py:_check_duration, subproblem_greedy.py:_check_duration")]),
P("C06", "Customers are reached within their time windows",
  "When time windows are active, starting each returned route at the Source's earliest time and waiting where early, every customer and the Sink is reached no later than the end of its window.",
  ["inputs", "configurations"], VALID, "Timing feasibility depends on all windows, service and travel times along the route; tests check a handful of arrival times.",
  ["subproblem_lp.py", "subproblem_cspy.py", "vrp.py"],
  [("big-M time constraints", "subproblem_lp.py:_add_time_windows"), ("time and window resources", "subproblem_cspy.py:REF_fwd/formulate"), ("window tightening", "vrp.py:_remove_infeasible_arcs_time_windows"), ("Sink window", "vrp.py:_readjust_sink_time_windows")]),
P("C07", "Pickups precede their deliveries on the same vehicle",
  "With pickup and delivery, each request's pickup and delivery are on one route with the pickup first, and the load on board always stays between zero and the vehicle's capacity.",
  ["inputs", "configurations"], VALID + " (pickup and delivery, linear programming pricing)", "Two toy networks are tested; precedence and load are quantified over all positions and requests.",
  ["subproblem_lp.py", "vrp.py", "checks.py"],
  [("precedence, pairing and load constraints", "subproblem_lp.py:_add_pickup_delivery"), ("rank variables", "subproblem_lp.py:_add_elementarity"), ("initial routes", "vrp.py:_get_initial_solution")]),
P("C08", "Simultaneous distribution and collection never overloads a vehicle",
  "With simultaneous distribution and collection, a vehicle that leaves with exactly the goods it will distribute and picks up each customer's collection on the way never has more on board than its capacity, on any leg of any returned route.",
  ["inputs", "configurations"], VALID + " (distribution and collection)", "The peak load can be anywhere along the route; tests have two three-customer networks.",
  ["subproblem_lp.py", "subproblem_cspy.py", "preprocessing.py"],
  [("load/unload flow", "subproblem_lp.py:_add_distribution_collection"), ("pickup and delivery resources", "subproblem_cspy.py:REF_fwd/formulate")]),
P("C09", "Reported costs are the true costs of the returned plan",
  "The reported cost of each route is the sum of its edges' costs for its vehicle type plus that type's fixed cost, and the reported solution value is the sum of route costs (the maximum when the global span is minimised) plus the drop penalty for each dropped customer.",
  ["inputs", "configurations"], VALID, "Tests compare a few totals; a wrong type index, fixed cost or penalty cancels out on most of them.",
  ["vrp.py", "master_solve_pulp.py", "subproblem_lp.py", "subproblem_cspy.py", "subproblem_greedy.py"],
  [("cost properties", "vrp.py:best_routes_cost/best_value"), ("fixed costs", "vrp.py:_add_fixed_costs"), ("column costs", "subproblem_lp.py:_add_new_route, subproblem_cspy.py:create_new_route"), ("objective coefficients", "master_solve_pulp.py:_add_route_selection_variable/_add_drop_variables")], None, ["best_value", "best_routes_cost"]),
P("C10", "Reported loads and times are the true loads and times of the routes",
  "Reported route loads, loads after each node, route durations, arrival times and departure times equal the values recomputed from the input network along each returned route: loads accumulate demand (collection minus distribution when simultaneous), arrivals accumulate service and travel times and never precede the window's start, and departures are arrivals plus service.",
  ["inputs", "configurations"], VALID, "Tests read a few entries of these nested reports on toy networks.",
  ["vrp.py"], [("reports", "vrp.py:best_routes_load/node_load/best_routes_duration/arrival_time/departure_time"), ("network snapshot", "vrp.py:_update_dummy_attributes")], None, ["best_routes_load", "node_load", "best_routes_duration", "arrival_time", "departure_time"]),
P("C11", "The fleet limit is respected per vehicle type",
  "When a number of vehicles is given (per type for a mixed fleet) and no planning period, a returned plan never uses more routes of a type than available, and exactly that many of each type when all vehicles must be used; if no such plan exists among the routes found, solving fails instead of returning one that breaks the limit.",
  ["inputs", "configurations"], VALID, "Fleet rows interact with artificial variables and dropping; tests use three networks.",
  ["master_solve_pulp.py", "vrp.py", "checks.py"], [("vehicle rows", "master_solve_pulp.py:_add_bound_vehicles/_add_vehicle_dummy_variables/_solve"), ("column coefficients", "master_solve_pulp.py:_add_route_selection_variable")]),
P("C12", "Preprocessing never removes a feasible route",
  "Every elementary Source-Sink route that respects the capacities, stop limit and time windows of the input is still possible after preprocessing: none of its edges is removed, its timing still fits the adjusted windows, and it does not exceed the computed bound on stops.",
  ["inputs", "configurations"], "every network with non-negative integer demands and collections, travel times for which a detour is never quicker than the direct link from or to the depot, every window, capacity list and stop limit", "Losing a feasible route silently worsens or breaks plans; tests compare the bound on two demand lists.",
  ["preprocessing.py", "vrp.py"], [("knapsack stop bound", "preprocessing.py:_knapsack/get_num_stops_upper_bound"), ("arc removal", "vrp.py:_remove_infeasible_arcs_capacities/_remove_infeasible_arcs_time_windows"), ("default attributes", "vrp.py:_set_zero_attributes/_readjust_sink_time_windows")], None, ["best_value", "num_stops"]),
P("C13", "Pricing is exact: no improving route is overlooked, none is invented",
  "Exact pricing by linear programming considers precisely the feasible routes of the current network, values each at its true reduced cost (cost minus the values of its customers and of its vehicle type), and column generation without limits and without the adaptive strategy only ends when, for every vehicle type, exact pricing found no route of reduced cost below -0.001. Hence the final relaxed value is, up to that tolerance, a lower bound for every feasible plan.",
  ["inputs", "configurations", "histories"], VALID + ", linear programming pricing, every vector of dual values", "Completeness is quantified over all routes and dual vectors; tests only see the final optimum of small instances.",
  ["subproblem.py", "subproblem_lp.py", "vrp.py", "master_solve_pulp.py"], [("reduced costs", "subproblem.py:add_reduced_cost_attribute"), ("pricing model", "subproblem_lp.py:_formulate"), ("duals", "master_solve_pulp.py:get_duals"), ("loop control", "vrp.py:_find_columns/_column_generation/_solve_subproblem_with_heuristic")], None, ["best_value"]),
P("C14", "Malformed input is rejected, well-formed input is accepted",
  "Constructing or solving raises the documented kind of error whenever the network or the options are malformed (not a directed graph, depot missing or wired backwards, cost missing, wrong types or dimensions, unknown strategy, unreachable or oversized customers, incomplete initial routes, incompatible options), and never on well-formed input.",
  ["inputs", "configurations"], "every graph and every option value", "Each test triggers one rejection on one graph; the iff over all positions and values is not sampled.",
  ["checks.py", "vrp.py"], [("checks", "checks.py"), ("calls", "vrp.py:_pre_solve/__init__")], None, ["exceptions of VehicleRoutingProblem(...) and solve(...)"]),
P("C15", "The periodic schedule is a valid timetable",
  "When a planning period is given and a schedule is returned, every returned route is scheduled on exactly one day of the period, no customer is visited twice on the same day, and no day uses more vehicles of a type than available.",
  ["inputs", "configurations"], VALID + " (planning period)", "Two tests, one network.",
  ["schedule.py", "vrp.py", "checks.py"], [("schedule model", "schedule.py:_formulate"), ("reading it", "schedule.py:routes_per_day"), ("vehicles per day", "checks.py:check_periodic_num_vehicles")], None, ["schedule"]),
P("C16", "Complete preassigned routes are kept as given",
  "Every complete preassigned route is returned exactly once, unchanged, with the cheapest vehicle type able to carry it, and its customers appear on no other route.",
  ["inputs", "configurations"], VALID + ", with disjoint complete preassigned routes that respect the largest capacity", "Two tests, no mixed fleet.",
  ["vrp.py", "checks.py"], [("locking", "vrp.py:_lock"), ("merging", "vrp.py:_best_routes_as_node_lists")]),
P("C17", "Constructive heuristics return feasible partitions",
  "The savings heuristic (also when its solution alone is requested), the greedy heuristic and the round trips produce routes in which every customer appears exactly once, with capacity, duration and stop limits respected on each route, and report the total cost of their routes.",
  ["inputs", "configurations"], "every network in which each customer can be served by a direct round trip within the limits (the greedy heuristic, on complete networks)", "The heuristics' route states evolve over any number of merges; tests check one five-node network.",
  ["clarke_wright.py", "greedy.py", "vrp.py"], [("merge and test", "clarke_wright.py:_process_edge/_merge_route/_constraints_met"), ("greedy", "greedy.py:_run_forward/_update"), ("round trips", "clarke_wright.py:_RoundTrip")], None, ["best_routes", "best_value"]),
P("C18", "Solving again respects the current options",
  "When options or limits of a problem object are changed and it is solved again, the plan returned satisfies the limits in force at that call, and not those of an earlier call; routes remembered from an earlier call are not used.",
  ["histories", "configurations"], "every sequence of solves of one problem object with changed capacity, stop, duration or time window options", "Tests solve each problem once; the documentation changes options and solves again.",
  ["vrp.py"], [("per-call state", "vrp.py:solve")]),
P("C19", "The adaptive strategy only picks known strategies with sound scores",
  "The adaptive pricing strategy always selects one of its configured strategies, one of those with the highest score (untried ones first); its exploration weight stays in (0,1] and its normalised measures in [0,1], for every history of objective values, run times and produced columns.",
  ["histories"], "every sequence of updates a solve can perform (each update attributes produced columns before scoring)", "Two tests replay a few updates with fixed numbers.",
  ["hyper_heuristic.py", "vrp.py", "master_solve_pulp.py"], [("selection", "hyper_heuristic.py:pick_heuristic"), ("scores", "hyper_heuristic.py:_update_params_wgtavr/_current_performance_wgtavr/update_scaling_factor"), ("distribution", "master_solve_pulp.py:get_heuristic_distribution")], None, ["solve(pricing_strategy='Hyper')"]),
P("C20", "A solve stops within its time limit",
  "With a time limit, a solve ends within the limit plus the time of the sub-solver calls already running and of the final integer problem.",
  ["schedules", "inputs"], "every network, every machine speed", "Wall-clock behaviour of external solvers.",
  ["vrp.py"], [("remaining time", "vrp.py:_get_time_remaining")], None, ["comp_time"]),
]
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in L))
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in L: jsonschema.validate(p, sch)
print(len(L))
