From f030edcdba8b1ec49f0f69ccb9af1ff90beb3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 01/18] fix: LP pricing only keeps the Source-Sink path of the
 solution as a route

---
 vrpy/subproblem_lp.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..0b97bb3 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -55,13 +55,19 @@ class _SubProblemLP(_SubProblemBase):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
         self.total_cost = 0
+        used_edges = DiGraph()
         for (i, j) in self.sub_G.edges():
             if pulp.value(self.x[(i, j)]) > 0.5:
-                edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-                self.total_cost += edge_cost
-                new_route.add_edge(i, j, cost=edge_cost)
-                if i != "Source":
-                    self.routes_with_node[i].append(new_route)
+                used_edges.add_edge(i, j)
+        # The solution may hold sub cycles (if their reduced cost is not negative).
+        # Only the path from Source to Sink is a route.
+        path = shortest_path(used_edges, "Source", "Sink")
+        for (i, j) in zip(path[:-1], path[1:]):
+            edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            self.total_cost += edge_cost
+            new_route.add_edge(i, j, cost=edge_cost)
+            if i != "Source":
+                self.routes_with_node[i].append(new_route)
 
         new_route.graph["cost"] = self.total_cost
         new_route.graph["vehicle_type"] = self.vehicle_type
-- 
2.43.0


From a53f0e30147d3cb78a9c2a741ea93c082a72a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 02/18] fix: Clarke & Wright duration when inserting a node
 next to the Source

---
 vrpy/clarke_wright.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..2759309 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._extra_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,23 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _extra_time(self, existing_node, new_node, depot):
+        """Time added to existing_node's route if new_node is inserted next to depot."""
+        if depot == "Sink":
+            detour = (
+                self.G.edges[existing_node, new_node]["time"]
+                + self.G.edges[new_node, "Sink"]["time"]
+                - self.G.edges[existing_node, "Sink"]["time"]
+            )
+        else:
+            detour = (
+                self.G.edges["Source", new_node]["time"]
+                + self.G.edges[new_node, existing_node]["time"]
+                - self.G.edges["Source", existing_node]["time"]
+            )
+        return detour + self.G.nodes[new_node]["service_time"]
+
+    def _constraints_met(self, existing_node, new_node, depot):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +184,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._extra_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -201,7 +209,7 @@ class _ClarkeWright:
         merged = False
         if (
             j not in self._processed_nodes  # 1
-            and self._constraints_met(i, j)  # 2
+            and self._constraints_met(i, j, "Sink")  # 2
             and i in self._route[i].predecessors("Sink")  # 3b
         ):
             self._merge_route(i, j, "Sink")
@@ -211,7 +219,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
-- 
2.43.0


From 21998c4ab6fdfa9afd0dfef83d023ff999f986b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 03/18] fix: service times count in the duration limit with
 cspy

---
 vrpy/subproblem_cspy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..521628e 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -364,7 +364,8 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From a83375b435a687157614960a6474b710045538db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 04/18] fix: initial routes are priced with the vehicle type
 they are assigned to

---
 vrpy/vrp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..840170d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -956,11 +956,6 @@ class VehicleRoutingProblem:
             total_cost = 0
             G = DiGraph(name=route_id)
             edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
                     if (
@@ -975,6 +970,11 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            for (i, j) in edges:
+                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                G.add_edge(i, j, cost=edge_cost)
+                total_cost += edge_cost
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
-- 
2.43.0


From bcc1924a48a680e77c0272a3976f52ef346d09ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 05/18] fix: big-M of the time window constraints is large
 enough for any network

---
 vrpy/subproblem_lp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 0b97bb3..fe8d17c 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -171,14 +171,20 @@ class _SubProblemLP(_SubProblemBase):
         )
 
     def _add_time_windows(self):
-        # Big-M definition
-        M = self.sub_G.nodes["Sink"]["upper"]
         # Add varibles
         self.t = pulp.LpVariable.dicts(
             "t", self.sub_G.nodes(), lowBound=0, cat=pulp.LpContinuous
         )
         # Add big-M constraints
         for (i, j) in self.sub_G.edges():
+            # Big-M definition
+            M = max(
+                0,
+                self.sub_G.nodes[i]["upper"]
+                + self.sub_G.nodes[i]["service_time"]
+                + self.sub_G.edges[i, j]["time"]
+                - self.sub_G.nodes[j]["lower"],
+            )
             self.prob += (
                 self.t[i]
                 + self.sub_G.nodes[i]["service_time"]
-- 
2.43.0


From 6d2de2bca92610c1536176c578803ebccae94c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:01 +0000
Subject: [PATCH 06/18] fix: at most one visit per day also for customers
 without demand

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..a2eb8e2 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -84,7 +84,7 @@ class _Schedule:
         # at most one visit per day per customer
         for t in range(self.time_span):
             for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
-- 
2.43.0


From d45e576d6ea94700983b864b269e9bd87f095fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:46 +0000
Subject: [PATCH 07/18] fix: greedy pricing checks the duration of the whole
 route, service times included

---
 vrpy/subproblem_greedy.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..d777160 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -124,11 +124,12 @@ class _SubProblemGreedy(_SubProblemBase):
         self._load += self.sub_G.nodes[self._new_node]["demand"]
         if forward:
             self._weight += self.sub_G.edges[self._last_node, self._new_node]["weight"]
-            self._time += self.sub_G.edges[self._last_node, self._new_node]["time"]
+            self._time += self._get_time(self._last_node, self._new_node)
             self._current_path.append(self._new_node)
             if self._stops == self.num_stops and self._new_node != "Sink":
                 # Finish path
-                if self._new_node in self.sub_G.predecessors("Sink"):
+                if self._can_finish(self._new_node, "Sink"):
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
                     self._current_path.append("Sink")
                 else:
                     self._new_node = False
@@ -137,11 +138,12 @@ class _SubProblemGreedy(_SubProblemBase):
                 return False
         else:
             self._weight += self.sub_G.edges[self._new_node, self._last_node]["weight"]
-            self._time += self.sub_G.edges[self._new_node, self._last_node]["time"]
+            self._time += self._get_time(self._new_node, self._last_node)
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                if self._can_finish("Source", self._new_node):
+                    self._weight += self.sub_G.edges["Source", self._new_node]["weight"]
                     self._current_path.insert(0, "Source")
                 else:
                     self._new_node = False
@@ -180,15 +182,21 @@ class _SubProblemGreedy(_SubProblemBase):
     def _check_duration(self, v, forward):
         """Checks time constraint."""
         if forward:
-            return (
-                self._time + self.sub_G.edges[self._last_node, v]["time"]
-                <= self.duration
-            )
+            return self._time + self._get_time(self._last_node, v) <= self.duration
         else:
-            return (
-                self._time + self.sub_G.edges[v, self._last_node]["time"]
-                <= self.duration
-            )
+            return self._time + self._get_time(v, self._last_node) <= self.duration
+
+    def _get_time(self, i, j):
+        """Service time at i and travel time from i to j."""
+        return (
+            self.sub_G.nodes[i].get("service_time", 0) + self.sub_G.edges[i, j]["time"]
+        )
+
+    def _can_finish(self, i, j):
+        """Checks if the path can be completed with edge (i, j)."""
+        if (i, j) not in self.sub_G.edges():
+            return False
+        return not self.duration or self._time + self._get_time(i, j) <= self.duration
 
     """
     NOT IMPLEMENTED YET
-- 
2.43.0


From 7f418c98f20e329410d0e786a17bd4e45b1d3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:38 +0000
Subject: [PATCH 08/18] fix: periodic customers are visited as often as
 required when a route must be driven several times

---
 vrpy/master_solve_pulp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..f603f84 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -126,7 +126,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
             if val is not None and val > 0:
-                best_routes.append(r)
+                # A route may be driven several times if periodic
+                best_routes.extend([r] * max(1, round(val)))
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -319,7 +320,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            upBound=None if self.periodic else 1,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From e4e9e75f90ad1fae30d4daf2f1e0d1db86969ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 09/18] fix: initial routes of a previous solve are not reused

---
 vrpy/vrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 840170d..f81dbd7 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -241,8 +241,8 @@ class VehicleRoutingProblem:
         self._start_time = time()
         if preassignments:
             self._preassignments = preassignments
-        if initial_routes:
-            self._initial_routes = initial_routes
+        # Routes computed by a previous call may not meet the current constraints
+        self._initial_routes = initial_routes if initial_routes else []
         # If only one type of vehicle, some formatting is done
         if not self.mixed_fleet:
             self._format()
-- 
2.43.0


From 48d752886bd8b43bf4f7e114f40b98496f9607df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:36 +0000
Subject: [PATCH 10/18] fix: iteration counters and bounds of a previous solve
 are not reused

---
 vrpy/vrp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index f81dbd7..01ce34b 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -239,6 +239,10 @@ class VehicleRoutingProblem:
         if self._pricing_strategy == "Hyper":
             self.hyper_heuristic = _HyperHeuristic()
         self._start_time = time()
+        # Reset search state of a previous call
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
         if preassignments:
             self._preassignments = preassignments
         # Routes computed by a previous call may not meet the current constraints
-- 
2.43.0


From 05f74139180ee23f2469979bcdf1c1c51932dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:56 +0000
Subject: [PATCH 11/18] fix: BestPaths pricing when all edges have the same
 reduced cost

---
 vrpy/subproblem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 308609e..102bfba 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -201,6 +201,10 @@ class _SubProblemBase:
         max_weight = max(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
         min_weight = min(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
         for edge in self.G.edges(data=True):
+            if max_weight == min_weight:
+                # All edges are equivalent
+                edge[2]["pos_weight"] = 0
+                continue
             edge[2]["pos_weight"] = (
                 -max_weight - min_weight + 2 * edge[2]["weight"]
             ) / (max_weight - min_weight)
-- 
2.43.0


From 753f0d8eb35a8bd026640b37d0d7e889083ead8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:34 +0000
Subject: [PATCH 12/18] fix: dropping variables are continuous in the relaxed
 master problem

---
 vrpy/master_solve_pulp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index f603f84..62cc4e0 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -366,8 +366,9 @@ class _MasterSolvePulp(_MasterProblemBase):
 
     def _add_drop_variables(self):
         """
-        Boolean variable.
         drop[v] takes value 1 if and only if node v is dropped.
+        Continuous, so that the duals are those of the relaxed problem; integer
+        as soon as the route selection variables are.
         """
         for node in self.G.nodes():
             if node not in ["Source", "Sink"]:
@@ -375,7 +376,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     "drop_%s" % node,
                     lowBound=0,
                     upBound=1,
-                    cat=pulp.LpInteger,
+                    cat=pulp.LpContinuous,
                     e=(
                         self.drop_penalty * self.objective
                         + self.set_covering_constrs[node]
-- 
2.43.0


From 5592eb026df913fc83045f0d85ebcfbc442c3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:44 +0000
Subject: [PATCH 13/18] fix: every route has a makespan row when minimizing the
 global span

---
 vrpy/master_solve_pulp.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 62cc4e0..7289e6f 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -334,6 +334,15 @@ class _MasterSolvePulp(_MasterProblemBase):
         )
 
     def _add_route_selection_variable_for_global_span(self, route):
+        name = route.graph["name"]
+        if name not in self.makespan_constr:
+            # No row was reserved for this route
+            self.makespan_constr[name] = pulp.LpConstraintVar(
+                "makespan_%s" % name, pulp.LpConstraintLE, 0
+            )
+            self.prob += self.makespan_constr[name]
+            if self.makespan:
+                self.makespan_constr[name].addVariable(self.makespan, -1)
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
@@ -409,8 +418,7 @@ class _MasterSolvePulp(_MasterProblemBase):
             constraints = [self.makespan_constr[new_route.graph["name"]]]
             cost = 0
         else:
-            # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
+            constraints = list(self.makespan_constr.values())
             cost = 1
         self.makespan = pulp.LpVariable(
             "makespan",
-- 
2.43.0


From a823b3ce46b598c67e5c553d81ddbb904846058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:44 +0000
Subject: [PATCH 14/18] fix: fractional routes are not returned when the final
 MIP is stopped early

---
 vrpy/master_solve_pulp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 7289e6f..422f211 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -51,6 +51,9 @@ class _MasterSolvePulp(_MasterProblemBase):
 
         if pulp.LpStatus[self.prob.status] != "Optimal":
             raise Exception("problem " + str(pulp.LpStatus[self.prob.status]))
+        if not relax and not self._is_integral():
+            # Solver stopped before any integer solution was found
+            raise Exception("problem Not Solved")
         # This logging takes time
         # if relax:
         #     for r in self.routes:
@@ -167,6 +170,11 @@ class _MasterSolvePulp(_MasterProblemBase):
 
     # Private methods to solve and output #
 
+    def _is_integral(self):
+        """True if each route is selected a whole number of times."""
+        values = [pulp.value(var) for var in self.y.values()]
+        return all(abs(val - round(val)) < 1e-3 for val in values if val is not None)
+
     def _solve(self, relax: bool, time_limit: Optional[int]):
         # Set variable types
         if not relax:
-- 
2.43.0


From b4cb07c6d7600cde5d8891d87b1e0ede2de499a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:05 +0000
Subject: [PATCH 15/18] fix: routes of an earlier solve were kept when every
 customer is preassigned

---
 vrpy/vrp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 01ce34b..f0bd118 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -243,6 +243,7 @@ class VehicleRoutingProblem:
         self._iteration = 0
         self._no_improvement = 0
         self._lower_bound = []
+        self._best_routes_as_graphs = []
         if preassignments:
             self._preassignments = preassignments
         # Routes computed by a previous call may not meet the current constraints
-- 
2.43.0


From 2048583c411feecc0d30f20cb513cfb8e9466fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 16/18] fix: using all vehicles when the initial routes do not
 suffice

---
 vrpy/master_solve_pulp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 422f211..01f1c1e 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -380,6 +380,15 @@ class _MasterSolvePulp(_MasterProblemBase):
                 cat=pulp.LpContinuous,
                 e=((-1) * self.vehicle_bound_constrs[key] + 1e10 * self.objective),
             )
+            if self.use_all_vehicles:
+                # Routes found so far may not suffice to use all vehicles
+                self.dummy_bound["unused", key] = pulp.LpVariable(
+                    "artificial_bound_unused_%s" % key,
+                    lowBound=0,
+                    upBound=None,
+                    cat=pulp.LpContinuous,
+                    e=(self.vehicle_bound_constrs[key] + 1e10 * self.objective),
+                )
 
     def _add_drop_variables(self):
         """
-- 
2.43.0


From 85cbf34cbc3775e5596d653b7b7894bfbba71e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 17/18] fix: a route already known for another vehicle type is
 not discarded by cspy pricing

---
 vrpy/subproblem_cspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 521628e..49037b6 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -270,7 +270,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and r.graph["vehicle_type"] == self.vehicle_type
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
-- 
2.43.0


From 6492d49b76e3144dd0eced93a55fbd2c34ba9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 18/18] fix: type initial and preassigned routes by what they
 collect too

With simultaneous distribution and collection the vehicle type of an initial
or complete preassigned route was chosen by its demand alone, so the vehicle
could be overloaded by what it collects on the way.
---
 vrpy/vrp.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index f0bd118..7a6aa94 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -966,6 +966,7 @@ class VehicleRoutingProblem:
                     if (
                         sum(self.G.nodes[v]["demand"] for v in r)
                         <= self.load_capacity[k]
+                        and self._collection_fits(r, k)
                     ):
                         G.graph["vehicle_type"] = k
                         break
@@ -987,6 +988,20 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _collection_fits(self, route, k):
+        """
+        If simultaneous distribution and collection, checks that the load on
+        each edge of the route fits in a vehicle of type k.
+        """
+        if not self.distribution_collection:
+            return True
+        return all(
+            sum(self._H.nodes[v]["collect"] for v in route[:i])
+            + sum(self._H.nodes[v]["demand"] for v in route[i:])
+            <= self.load_capacity[k]
+            for i in range(1, len(route))
+        )
+
     def _lock(self):
         """
         Processes preassigned routes and edges.
@@ -1154,7 +1169,9 @@ class VehicleRoutingProblem:
                     load = sum(self._H.nodes[i]["demand"] for i in route)
                     if cost < best_cost:
                         if self.load_capacity:
-                            if load <= self.load_capacity[k]:
+                            if load <= self.load_capacity[
+                                k
+                            ] and self._collection_fits(route, k):
                                 best_cost = cost
                                 self._best_routes_vehicle_type[route_id] = k
                         else:
-- 
2.43.0

