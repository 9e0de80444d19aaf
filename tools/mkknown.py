import json
L = [
 dict(id="dive-cover", property="C01 C11", status="open", what="solve(dive=True) returns routes of fractional columns: a 6-customer capacitated network (rt/known.py dive-cover, seed 1) visits customer 3 twice", where="vrpy/vrp.py:_solve (dive) + restricted_master_heuristics.py"),
 dict(id="resolve-fixed-cost", property="C09 C18", status="open", what="solving the same object twice with fixed_cost=10 charges the fixed cost again: 2-customer network, value 21 then 31 (rt/known.py resolve-fixed-cost)", where="vrpy/vrp.py:_add_fixed_costs"),
 dict(id="resolve-preassignments", property="C18", status="open", what="solving again after a solve with preassignments=[[Source,1,2,Sink]] raises ValueError because the locked customers were removed from G (rt/known.py resolve-preassignments)", where="vrpy/vrp.py:_lock"),
 dict(id="resolve-periodic-fleet", property="C15 C18", status="open", what="solving a periodic problem with num_vehicles=1 twice: the second solve no longer knows the daily vehicle limit, because num_vehicles was emptied by the first (rt/known.py resolve-periodic-fleet)", where="vrpy/vrp.py:_pre_solve + checks.py:check_periodic_num_vehicles"),
 dict(id="resolve-capacity-stops", property="C18", status="open", what="load_capacity 1 then 10 on the same object: the stop bound derived from capacity 1 is kept as num_stops at the second solve (rt/known.py resolve-capacity-stops)", where="vrpy/vrp.py:_pre_solve"),
]
for pid, c, w in [
 ("C01 C02", "f030edc", "LP pricing kept edges of subtours next to the Source-Sink path as part of the route"),
 ("C05 C17", "a53f0e3", "Clarke & Wright ignored the Source leg when inserting a node next to the Source, exceeding the duration limit"),
 ("C05", "21998c4", "cspy pricing ignored service times in the duration limit"),
 ("C09 C13", "a83375b", "initial routes were priced with vehicle type 0 although assigned to another type"),
 ("C13", "bcc1924", "big-M of the LP time window rows cut off feasible routes"),
 ("C15", "6d2de2b", "schedule allowed two visits of a customer without demand on one day"),
 ("C05", "d45e576", "greedy pricing checked the duration without service times and without the leg to the Sink"),
 ("C01", "7f418c9", "periodic customers visited less often than their frequency when a route must be driven twice"),
 ("C18", "e4e9e75", "initial routes of an earlier solve were reused"),
 ("C18", "48d7528", "iteration counter and bounds of an earlier solve were reused"),
 ("C01", "05f7413", "BestPaths pricing divided by zero when all edges have the same reduced cost"),
 ("C01", "5592eb0", "minimize_global_span: routes named 75 or more could never be selected, and route 1000 raised KeyError"),
 ("C01", "a823b3c", "final MIP stopped by the time limit without an integer solution: routes of the fractional solution were returned"),
 ("C18", "b4cb07c", "routes of an earlier solve were reported again when every customer is preassigned"),
 ("C01 C11", "2048583", "use_all_vehicles with fewer initial routes of a type than vehicles (any mixed fleet): the first relaxed problem was infeasible and solving failed although a plan exists"),
 ("C01", "85cbf34", "cspy pricing discarded an improving route because the same nodes were already served by a route of another vehicle type: mixed fleets with vehicle limits failed or stopped early"),
 ("C08", "6492d49", "with simultaneous distribution and collection and several vehicle types, initial and complete preassigned routes were given a type by their demand alone, so the vehicle was overloaded by what it collects"),
 ("C13", "753f0d8", "dropping variables were integer in the relaxed master, whose duals are then undefined")]:
    L.append(dict(id="fixed-" + c, property=pid, status="fixed", what="fixed: property=%s %s %s" % (pid.split()[0], c, w)))
open("/verif/known_findings.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in L))
