From 976fb15d0e7d21e3b05041a18e8cb9cecc8e7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 01/27] fix: get_tree_as_list keeps the direct parent of nested
 activities

---
 src/openclsim/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..661d753 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,12 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            # only direct children lack a parent in d, deeper levels keep theirs
+            ParentId += [act.id if x is None else x for x in d["ParentId"]]
+            ParentName += [
+                act.name if x is None else y
+                for x, y in zip(d["ParentId"], d["ParentName"])
+            ]
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From 93423835590ceaaafa9545f95eb40caf8783dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 02/27] fix: fill degree of a MultiContainerDependentMovable
 sums all its containers

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..994c6f7 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -222,8 +222,8 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
         return self.compute_v(fill_degree)
 
-- 
2.43.0


From 3bcdeb3f077d7095cf3eb2a88c4af3adbdd61cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 03/27] fix: engine order applies to container dependent
 movables and at construction

---
 src/openclsim/core/movable.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 994c6f7..20f39d0 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
@@ -191,8 +191,9 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
-            self.container.get_level() / self.container.get_capacity()
+        return (
+            self.compute_v(self.container.get_level() / self.container.get_capacity())
+            * self.engine_order
         )
 
 
@@ -225,7 +226,7 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
             sum_level += self.container.get_level(id_)
             sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class Routable(Movable, Locatable):
-- 
2.43.0


From d6b0d3b3c9c33981e21dd69d99aa246c30b53c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 04/27] fix: Routable sails a route over the graph of the
 environment at its own speed

---
 src/openclsim/core/movable.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 20f39d0..245c91f 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -335,7 +335,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
@@ -355,7 +355,7 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
@@ -395,16 +395,16 @@ class Routable(Movable, Locatable):
             a list of nodes that are available on the network
         """
         a = route[0]
-        a_geometry = self.graph.nodes[a]["geometry"]
+        a_geometry = self.env.graph.nodes[a]["geometry"]
         yield from self.move_to_geometry(a_geometry)
         # move self to node + geometry
         self.node = a
         self.geometry = a_geometry
 
         for i, (a, b) in enumerate(pairwise(route)):
-            a_geometry = self.graph[a]["geometry"]
-            b_geometry = self.graph[b]["geometry"]
-            edge_geometry = self.graph[(a, b)]["geometry"]
+            a_geometry = self.env.graph.nodes[a]["geometry"]
+            b_geometry = self.env.graph.nodes[b]["geometry"]
+            edge_geometry = self.env.graph.edges[(a, b)]["geometry"]
             # make sure we are in the right order
             edge_geometry = self.order_geometry(edge_geometry, a_geometry)
             # go to a (we should already be here)
@@ -413,7 +413,7 @@ class Routable(Movable, Locatable):
             # pass over the edge
             yield from self.pass_linestring(edge_geometry)
             # call any other functions we have registered
-            for pass_edge_function in self.pass_edge_function:
+            for pass_edge_function in self.on_pass_edge_functions:
                 yield pass_edge_function(
                     movable=self, a=a, b=b, route=route, geometry=edge_geometry
                 )
-- 
2.43.0


From 61316eded38c3ee68b0eb2ef55d3119c8667397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 05/27] fix: weather windows of a repeated dataset shift with
 the repetition

---
 src/openclsim/plugins/weather.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..38e533b 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -114,12 +114,14 @@ class WeatherPluginActivity(model.AbstractPluginClass):
 
         filter_windows = windows[windows[:, 1] >= start_time]
         i = 0
+        dt = 0
         while len(filter_windows) < 1 and i < 10:
             dt = i * (ts_stop - ts_start)
             filter_windows = windows[windows[:, 1] >= start_time - dt]
             i = i + 1
 
-        return list(filter_windows[0])
+        # windows of a repeated dataset shift along with the repetition
+        return list(filter_windows[0] + dt)
 
     def process_data(self, criterion) -> dict:
         col = criterion.condition
-- 
2.43.0


From 24c05d3e6539121d1044f3f301c676e00bf6fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 06/27] fix: a weather record that only touches its limit is
 workable throughout

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 38e533b..14fe008 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -139,7 +139,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -153,7 +153,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 59d2c410ab11140b877323c86215232055409a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 07/27] fix: a weather window ends at the only exceedance of
 the record

---
 src/openclsim/plugins/weather.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 14fe008..248a7d4 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -187,7 +187,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
             data.iloc[0, data.columns.get_loc("type")] = "start"
             data.iloc[0, data.columns.get_loc("end_inter")] = data.iloc[0]["ts_inter"]
             data.iloc[0, data.columns.get_loc("ts_inter")] = orig_data.iloc[0]["ts"]
-        if data.iloc[-1]["type"] == "start":
+        if data.iloc[-1]["type"] == "start" and np.isnan(data.iloc[-1]["end_inter"]):
             data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
 
         data.rename(columns={"ts_inter": "start_inter"}, inplace=True)
-- 
2.43.0


From 9e454a99d42677814cd5c30f2b202cb6de3001a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 08/27] fix: unloading rate functions get the levels before and
 after unloading

---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..a24dd34 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -264,8 +264,8 @@ class UnloadingFunction:
             return duration, amount
         else:
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From a8007fbe2e2b1dfd597f51dab0bfc6c3605221f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 09/27] fix: accept the documented manual id_map of uuids to
 labels

---
 src/openclsim/plot/log_dataframe.py   | 4 +++-
 src/openclsim/plot/vessel_planning.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..258b8b3 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    if isinstance(id_map, dict) and not any(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 9ab6ee9..4b5e1ee 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -80,7 +80,9 @@ def get_gantt_chart(
     if type(activities) == dict:
         activities = [*activities.values()]
 
-    if type(id_map) == dict:
+    if type(id_map) == dict and not any(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
 
     if type(id_map) == list:
-- 
2.43.0


From 28904a57eb4ef2093dbe6fbfbcc189ccb6c6e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 10/27] fix: ranges of structural activities match START and
 STOP per subprocess

---
 src/openclsim/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 661d753..ad98e3a 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -170,6 +170,10 @@ def get_ranges_dataframe(simulation_object, id_map=None):
     for ActivityID in set(log[idkey]):
         log1 = log[log[idkey] == ActivityID]
 
+        # ranges of subprocesses interleave: match START and STOP per subprocess
+        if "ref" in log1.keys():
+            log1 = log1.sort_values(by="ref", kind="stable", na_position="first")
+
         t0 = log1[log1["ActivityState"] == "START"].rename(
             columns={"Timestamp": "TimestampStart"}
         )
-- 
2.43.0


From d24981b196870ce9479ea888aaf881fc9b833d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 11/27] fix: rate functions get the levels of the shifted
 container

---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..58cd9e2 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -202,9 +202,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From a386d5df8c091c64c38458707dbcd265c631f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 12/27] fix: overlapping transfers of one processor log their
 own activity id

---
 src/openclsim/core/processor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index a24dd34..d83d2b0 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -51,11 +51,14 @@ class Processor(SimpyObject):
         assert self.is_at(origin)
         assert destination.is_at(origin)
 
+        # The processor may start another process before this one is finished
+        activity_id = self.activity_id
+
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.START,
             )
 
@@ -70,7 +73,7 @@ class Processor(SimpyObject):
             reserved_amount=reserved_amount,
             id_=id_,
         )
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
         # Put the amount in the destination
         yield from self.check_possible_shift(
             origin=origin,
@@ -85,7 +88,7 @@ class Processor(SimpyObject):
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.STOP,
             )
 
-- 
2.43.0


From 9e3c5874b841d1105e7e716777a904b63cbd0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 13/27] fix: a weather record repeats for as long as the
 simulation needs it

---
 src/openclsim/plugins/weather.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 248a7d4..eab6d04 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -115,7 +115,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         filter_windows = windows[windows[:, 1] >= start_time]
         i = 0
         dt = 0
-        while len(filter_windows) < 1 and i < 10:
+        while len(filter_windows) < 1 and ts_stop > ts_start:
             dt = i * (ts_stop - ts_start)
             filter_windows = windows[windows[:, 1] >= start_time - dt]
             i = i + 1
-- 
2.43.0


From 06f1c6b3edad2350c829d08361abbc95d5f8cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 14/27] fix: find every activity on a longest path of the
 simulation graph

Discounting the edges of one longest path after the other could mark edges as
non critical that are on another longest path, or recurse without end. Compare
the longest paths up to and from each activity with the maximum duration.
---
 .../critical_path/simulation_graph.py         | 186 +++++-------------
 1 file changed, 49 insertions(+), 137 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..83b1d8d 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,7 +3,6 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
 
@@ -277,148 +276,61 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
+        Create a list of activity edges on a longest path in the graph.
 
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
-            )
-
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
+        For every node the duration of the longest path up to it and of the
+        longest path from it is determined. The latter has to end at the same
+        time as the longest path of the graph. An edge is on a longest path if
+        both of these, together with its own duration, make up the maximum
+        duration.
+        """
+        graph = self.simulation_graph
+        longest_path = nx.dag_longest_path(graph, weight="duration")
+        if len(longest_path) == 0:
+            return []
+        t_max_end = graph.nodes[longest_path[-1]]["time"]
+        logging.debug(
+            f"Max duration {round(self.max_duration, 2)}, t_max end {t_max_end}."
+        )
 
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
+        nodes = list(nx.topological_sort(graph))
+        duration_before = {}
+        for node in nodes:
+            duration_before[node] = max(
+                (
+                    duration_before[previous] + graph.edges[previous, node]["duration"]
+                    for previous in graph.predecessors(node)
+                ),
+                default=0,
             )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
+        duration_after = {}
+        for node in reversed(nodes):
+            duration_after[node] = max(
+                (
+                    graph.edges[node, following]["duration"] + duration_after[following]
+                    for following in graph.successors(node)
+                ),
+                default=-float("inf"),
             )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
+            if graph.nodes[node]["time"] == t_max_end:
+                duration_after[node] = max(duration_after[node], 0)
+
+        list_critical = []
+        for edge in graph.edges:
+            if graph.edges[edge]["edge_type"] != self.__EDGE_TYPES[0]:
+                continue
+            duration = (
+                duration_before[edge[0]]
+                + graph.edges[edge]["duration"]
+                + duration_after[edge[1]]
             )
-
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
-            )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
-                )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
-                )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
-            ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+            if round(duration, 2) == round(self.max_duration, 2):
+                graph.edges[edge][self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+                list_critical.append(edge)
+        logging.debug(f"Critical edges {list_critical}.")
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From c825a574372ec5a5b9d9feee7fc690685d5323f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 15/27] fix: reject circular references between start
 conditions at registration

Start conditions are parsed when an activity runs, so registering activities
that wait for each other never failed: the simulation ended without running
them. Detect this when they are registered.
---
 src/openclsim/model/helpers.py | 46 ++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/openclsim/model/helpers.py b/src/openclsim/model/helpers.py
index e4c06ee..3be93b6 100644
--- a/src/openclsim/model/helpers.py
+++ b/src/openclsim/model/helpers.py
@@ -18,12 +18,58 @@ def get_subprocesses(items):
     return items
 
 
+def raise_on_circular_start_events(processes):
+    """Raise an error if activities can only start after each other has ended."""
+    items = get_subprocesses(processes)
+    finished = set()
+
+    activities = {item.name: item for item in items}
+    activities.update({item.id: item for item in items})
+
+    def can_occur(expr):
+        if isinstance(expr, list):
+            return all(can_occur(e) for e in expr)
+        if isinstance(expr, dict):
+            if "and" in expr:
+                return all(can_occur(e) for e in expr["and"])
+            if "or" in expr:
+                return not expr["or"] or any(can_occur(e) for e in expr["or"])
+            if expr.get("type") == "activity":
+                key = expr.get("ID", expr.get("name"))
+                return key not in activities or activities[key] in finished
+        return True
+
+    def run(item):
+        if item in finished or not can_occur(getattr(item, "start_event", None)):
+            return
+        sub_processes = getattr(item, "sub_processes", [])
+        for sub_process in sub_processes:
+            run(sub_process)
+            if sub_process not in finished and not hasattr(item, "start_parallel"):
+                break
+        if all(sub_process in finished for sub_process in sub_processes):
+            finished.add(item)
+
+    n_finished = -1
+    while n_finished < len(finished) < len(items):
+        n_finished = len(finished)
+        for item in processes if isinstance(processes, list) else [processes]:
+            run(item)
+
+    if len(finished) < len(items):
+        raise ValueError(
+            "Due to recursion in the events of the activities, not all the activities "
+            "can be registered."
+        )
+
+
 def register_processes(processes):
     """Register all the (sub)processes iteratively."""
     items = get_subprocesses(processes)
 
     item_names = [i.name for i in items]
     assert len(item_names) == len(set(item_names))
+    raise_on_circular_start_events(processes)
 
     for item in items:
         item.main_process = None
-- 
2.43.0


From 66069243cebadecc6d8ad81f9d5b21df647750f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 16/27] fix: log entries at the same time keep their order in
 the log table

Sorting by timestamp is not stable for longer logs, which put the START of an
activity before the STOP of the one it follows, or before its own.
---
 src/openclsim/plot/log_dataframe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 258b8b3..7ea7e04 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -33,10 +33,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
+    # entries at the same time remain in the order in which they were logged
+    df = pd.DataFrame(simulation_object.log).sort_values(
+        by=["Timestamp"], kind="stable"
     )
     return pd.concat(
         [
-- 
2.43.0


From a3266aa6af24e6096a783ed7b95940c94b2544e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 17/27] fix: export the resources of activities that have none

---
 src/openclsim/io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index ad98e3a..ae8cb5c 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -121,16 +121,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
-- 
2.43.0


From 5af8b56131d7d631f8dc618864c0a512f1e2d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 18/27] fix: export ranges of logs that are empty or have a
 single open range

---
 src/openclsim/io.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index ae8cb5c..b3dce67 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -201,7 +201,7 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         elif len(t0) == len(t1) + 1:
             print("END missing")
             dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
+                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
             )  # will give NaT
             t1 = pd.concat([t1, dt1], ignore_index=True)
         else:
@@ -214,6 +214,18 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if not li:
+        # nothing has been logged
+        return pd.DataFrame(
+            {
+                "TimestampStart": pd.Series(dtype="datetime64[ns]"),
+                "trip": pd.Series(dtype="int64"),
+                "TimestampStop": pd.Series(dtype="datetime64[ns]"),
+                idkey: pd.Series(dtype=object),
+                "TimestampDt": pd.Series(dtype="float64"),
+            }
+        )
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
-- 
2.43.0


From 4416685e9ad1d2533fda2a0e4ac81315360adbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:15 +0000
Subject: [PATCH 19/27] fix: bars of structural activities in the Gantt chart
 match START and STOP per subprocess

---
 src/openclsim/plot/vessel_planning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 4b5e1ee..b3fb06a 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -2,6 +2,7 @@
 
 import random
 
+import pandas as pd
 import plotly.graph_objs as go
 from plotly.offline import init_notebook_mode, iplot
 
@@ -32,11 +33,14 @@ def get_segments(df, activity, y_val):
     """Extract 'start' and 'stop' of activities from log."""
     x = []
     y = []
-    start = 0
+    # the segments of subprocesses interleave: match 'start' and 'stop' per subprocess
+    starts = {}
     for index, row in df.iterrows():
+        ref = row["ref"] if pd.notna(row.get("ref")) else None
         if "START" in row["activity_state"] and row["log_string"] == activity:
-            start = index
+            starts[ref] = index
         elif "STOP" in row["activity_state"] and row["log_string"] == activity:
+            start = starts[ref]
             x.extend((start, start, index, index, index))
             y.extend((y_val, y_val, y_val, y_val, None))
     return x, y
-- 
2.43.0


From f7a0613b6e8ce93e62b4b585475a4e76a16c454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 20/27] fix: Gantt chart shows all sub-activities of concepts
 and looks up labels by id

---
 src/openclsim/plot/vessel_planning.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index b3fb06a..8a6b0d9 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -93,7 +93,7 @@ def get_gantt_chart(
         id_map = {act.id: act.name for act in get_subprocesses(id_map)}
     else:
         id_map = id_map if id_map else {}
-    act_map = {ves.id: ves.name for ves in concepts}
+    act_map = {act.id: act.name for act in get_subprocesses(concepts)}
 
     if activities is None:
         activities = []
@@ -111,7 +111,7 @@ def get_gantt_chart(
     names = []
     for vessel in concepts:
         if len(vessel.log["Timestamp"]) > 0:
-            df = get_log_dataframe(vessel, concepts).rename(
+            df = get_log_dataframe(vessel).rename(
                 columns={
                     "Activity": "log_string",
                     "ActivityState": "activity_state",
@@ -130,7 +130,6 @@ def get_gantt_chart(
     # prepare traces for each of the activities
     traces = []
     for i, activity in enumerate(activities):
-        activity = act_map.get(activity, activity)
         x_combined = []
         y_combined = []
         for k, df in enumerate(dataframes):
@@ -140,7 +139,7 @@ def get_gantt_chart(
             y_combined.extend(y)
         traces.append(
             go.Scatter(
-                name=id_map.get(activity, activity),
+                name=id_map.get(activity, act_map.get(activity, activity)),
                 x=x_combined,
                 y=y_combined,
                 mode="lines",
-- 
2.43.0


From 4d3b29fb43971a71198b0c163bf9605e142f614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 21/27] fix: the tracing environment also records the event
 that ends a run

---
 .../dependencies_from_simpy_step.py           | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 0e7bd76..78bd35f 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -196,20 +196,22 @@ class CriticalPathEnvironment(simpy.Environment):
             _, prio, e_id, event = self._queue[0]
             e_ids_before = set([t[2] for t in self._queue])
         else:
-            _, prio, e_id, event = None, None, None, None
-            e_ids_before = {}
-
-        super().step()
-
-        if len(self._queue):
-            e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)
-        else:
-            e_ids_new = []
-
-        t_after = copy.deepcopy(self.now)
-
-        self._monitor_cause_effect(e_id, e_ids_new)
-        self._monitor_step(t_before, t_after, prio, e_id, event)
+            # nothing to process, let simpy raise its error
+            super().step()
+            return
+
+        # the event of env.run(until=time) is not part of the simulation
+        only_stops = event.callbacks == [simpy.core.StopSimulation.callback]
+        try:
+            super().step()
+        finally:
+            # other events are processed, also if these end the run
+            if not only_stops:
+                e_ids_new = list(set([t[2] for t in self._queue]) - e_ids_before)
+                t_after = copy.deepcopy(self.now)
+
+                self._monitor_cause_effect(e_id, e_ids_new)
+                self._monitor_step(t_before, t_after, prio, e_id, event)
 
     def _monitor_cause_effect(self, e_id_current, e_ids_new):
         """
-- 
2.43.0


From dde55800d19d02fe2675e3cf58e961e82e2e1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 22/27] fix: find the recorded activity of a timeout at any
 fraction of a second

---
 .../critical_path/dependencies_from_simpy_step.py   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 78bd35f..77e47e9 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -123,11 +123,11 @@ class DependenciesFromSimpy(BaseCP):
 
         # get recorded activities and convert times to floats (seconds since Jan 1970)
         recorded_activities_df = self.recorded_activities_df.copy()
-        recorded_activities_df.start_time = round(
-            recorded_activities_df.start_time.astype("int64") / 10**9, 4
+        recorded_activities_df.start_time = (
+            recorded_activities_df.start_time.astype("int64") / 10**9
         )
-        recorded_activities_df.end_time = round(
-            recorded_activities_df.end_time.astype("int64") / 10**9, 4
+        recorded_activities_df.end_time = (
+            recorded_activities_df.end_time.astype("int64") / 10**9
         )
 
         # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
@@ -151,11 +151,12 @@ class DependenciesFromSimpy(BaseCP):
             From self.get_recorded_activity_df().
         """
         activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
-        end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
+        end_time = self.step_logging_dataframe.loc[e_id, "t1"]
         matching_ids = recorded_activities_df.loc[
             (
                 (recorded_activities_df.ActivityID == activity_id)
-                & (recorded_activities_df.end_time == end_time)
+                & ((recorded_activities_df.end_time - end_time).abs() < 1e-4)
+                & (recorded_activities_df.end_time > recorded_activities_df.start_time)
             ),
             "cp_activity_id",
         ]
-- 
2.43.0


From 50b87a5d06393b02852d3c04ebc554d06bacdec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 23/27] fix: dependencies from the simpy trace of long and of
 aborted simulations

The recursion over the trace ended in a RecursionError for long simulations, failed on
events that were never handled and on timeouts of time conditions nobody waited for.
---
 .../dependencies_from_simpy_step.py           | 169 +++++++++---------
 1 file changed, 87 insertions(+), 82 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 77e47e9..de36612 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -7,12 +7,12 @@ are to be found with method 'simpy step':
 """
 
 import copy
-import logging
 
 import pandas as pd
 import simpy
 
 from openclsim.critical_path.base_cp import BaseCP
+from openclsim.model import get_subprocesses
 
 
 class DependenciesFromSimpy(BaseCP):
@@ -58,71 +58,24 @@ class DependenciesFromSimpy(BaseCP):
         """
         Hidden and protected method for the get_dependency_list.
 
-        This method recursively walks through the simpy dependencies
-        (as the 'monkey-patched' step function recorded these) and keeps only those dependencies
-        which are a timeout event. Then we translate the IDs of these dependencies from
+        This method walks through the simpy dependencies (as the 'monkey-patched' step function
+        recorded these) and keeps only those dependencies which are a timeout event.
+        CriticalPathEnvironment registers all events, but we are only interested in events which
+        are OpenClSim activities with duration, i.e. we are only interested in Timeout events
+        with a _delay attribute > 0. Then we translate the IDs of these dependencies from
         the original simpy e_id values to our openclsim cp_activity_id values.
         """
-        # Define some globals to which the recursive functions/while loop can append
-        DEPENDENCIES_OPENCLSIM = []
-        SEEN = []
-
-        def __extract_openclsim_dependencies(tree_input, elem=None, last_seen=None):
-            """
-            Extract the relevant (OpenCLSim) dependencies from the complete list
-            of all Simpy dependencies.
-
-            This function will walk through a dependency tree which is represented by
-            list of tuples (e.g. [(1, 2), (2, 3), (2, 4))]). Each tuple contains two
-            eids (event-IDs) and can be seen a dependency with a cause (first element
-            tuple) and effect (second and last element tuple).
-            CriticalPathEnvironment registers all events, but we are only
-            interested in events which are OpenClSim activities with duration,
-            i.e. we are only interested in Timeout event with a _delay attribute > 0.
-            This function extracts such dependencies (which Timeout causes which timeout)
-            from the original tree_input.
-            """
-            if elem is None:
-                elem = tree_input[0][0]
-
-            # note that we have seen this one
-            SEEN.append(elem)
-
-            # get effects
-            effects_this_elem = [tup[1] for tup in tree_input if tup[0] == elem]
-            # we only want dependencies that are 1) a Timeout and 2) have a delay > 0
-            # (because these events take time)
-            relevant_timeout = (
-                isinstance(
-                    self.step_logging_dataframe.loc[elem, "event_object"],
-                    simpy.events.Timeout,
-                )
-                and self.step_logging_dataframe.loc[elem, "event_object"]._delay > 0
-            )
-
-            if relevant_timeout:
-                # relevant to SAVE
-                if last_seen is not None:
-                    DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
-                last_seen = elem
-
-            for effect_this_elem in effects_this_elem:
-                logging.debug(f"Effect {effect_this_elem} from {effects_this_elem}")
-                __extract_openclsim_dependencies(
-                    tree_input, elem=effect_this_elem, last_seen=last_seen
-                )
-
-            return None
-
-        # get all relevant dependencies from the simpy dependencies,
-        # that is find how the timeouts depend on one another.
-        tree = copy.deepcopy(self.__cause_effect_list)
-        while len(tree) > 0:
-            __extract_openclsim_dependencies(tree)
-            tree = [tup for tup in tree if tup[0] not in SEEN]
-
-        # get recorded activities and convert times to floats (seconds since Jan 1970)
-        recorded_activities_df = self.recorded_activities_df.copy()
+        # get recorded activities and convert times to floats (seconds since Jan 1970),
+        # only the waiting of structural activities is a timeout, not their execution
+        structural_ids = [
+            activity.id
+            for activity in get_subprocesses(self.activity_list)
+            if hasattr(activity, "sub_processes")
+        ]
+        recorded_activities_df = self.recorded_activities_df.loc[
+            (self.recorded_activities_df.state == "WAITING")
+            | ~self.recorded_activities_df.ActivityID.isin(structural_ids)
+        ].copy()
         recorded_activities_df.start_time = (
             recorded_activities_df.start_time.astype("int64") / 10**9
         )
@@ -130,15 +83,76 @@ class DependenciesFromSimpy(BaseCP):
             recorded_activities_df.end_time.astype("int64") / 10**9
         )
 
+        # for every event the last timeout which lead to it (this may be the event itself)
+        last_timeouts = {}
+        dependencies_timeouts = []
+
+        # causes are handled before their effects
+        for cause, effect in self.__cause_effect_list:
+            if cause not in last_timeouts:
+                last_timeouts[cause] = (
+                    cause if self.__is_activity(cause, recorded_activities_df) else None
+                )
+            last_timeouts[effect] = last_timeouts[cause]
+            if self.__is_activity(effect, recorded_activities_df):
+                if last_timeouts[cause] is not None:
+                    dependencies_timeouts.append((last_timeouts[cause], effect))
+                last_timeouts[effect] = effect
+
         # rename the dependencies from dependencies with e_id to dependencies with cp_activity_id
-        self.dependency_list = [
+        dependency_list = [
             (
-                self._find_cp_act(dependency[0], recorded_activities_df),
-                self._find_cp_act(dependency[1], recorded_activities_df),
+                self._find_cp_act(cause, recorded_activities_df),
+                self._find_cp_act(effect, recorded_activities_df),
             )
-            for dependency in DEPENDENCIES_OPENCLSIM
+            for cause, effect in dependencies_timeouts
         ]
 
+        # an activity which waits for a point in time, is not caused by the activity that
+        # was active when this point in time was set
+        start_times = recorded_activities_df.set_index("cp_activity_id").start_time
+        end_times = recorded_activities_df.set_index("cp_activity_id").end_time
+        start_times = start_times[~start_times.index.duplicated()]
+        end_times = end_times[~end_times.index.duplicated()]
+        self.dependency_list = [
+            (cause, effect)
+            for cause, effect in dependency_list
+            if end_times[cause] == start_times[effect]
+        ]
+
+    def __is_activity(self, e_id, recorded_activities_df):
+        """
+        Check whether an event is a Timeout that takes time, other than that of a condition for
+        which no activity has been waiting (which is not recorded as an activity).
+        """
+        if e_id not in self.step_logging_dataframe.index:
+            # not handled, the simulation ended before this event
+            return False
+        event = self.step_logging_dataframe.loc[e_id, "event_object"]
+        if not isinstance(event, simpy.events.Timeout) or event._delay <= 0:
+            return False
+        if event.value not in self.recorded_activities_df.ActivityID.values:
+            return True
+        return len(self.__find_cp_acts(e_id, recorded_activities_df)) > 0
+
+    def __find_cp_acts(self, e_id, recorded_activities_df):
+        """Get the set of cp activity IDs of the recorded activities that end with an event."""
+        activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
+        end_time = self.step_logging_dataframe.loc[e_id, "t1"]
+        return set(
+            recorded_activities_df.loc[
+                (
+                    (recorded_activities_df.ActivityID == activity_id)
+                    & ((recorded_activities_df.end_time - end_time).abs() < 1e-4)
+                    & (
+                        recorded_activities_df.end_time
+                        > recorded_activities_df.start_time
+                    )
+                ),
+                "cp_activity_id",
+            ]
+        )
+
     def _find_cp_act(self, e_id, recorded_activities_df):
         """
         Get cp activity ID given a time-window and an activity ID.
@@ -150,25 +164,16 @@ class DependenciesFromSimpy(BaseCP):
         recorded_activities_df : pd.DataFrame
             From self.get_recorded_activity_df().
         """
-        activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
-        end_time = self.step_logging_dataframe.loc[e_id, "t1"]
-        matching_ids = recorded_activities_df.loc[
-            (
-                (recorded_activities_df.ActivityID == activity_id)
-                & ((recorded_activities_df.end_time - end_time).abs() < 1e-4)
-                & (recorded_activities_df.end_time > recorded_activities_df.start_time)
-            ),
-            "cp_activity_id",
-        ]
-        if len(set(matching_ids)) == 1:
-            cp_activity_id = matching_ids.iloc[0]
-        else:
+        matching_ids = self.__find_cp_acts(e_id, recorded_activities_df)
+        if len(matching_ids) != 1:
+            activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
+            end_time = self.step_logging_dataframe.loc[e_id, "t1"]
             raise ValueError(
                 f"No recorded activity found for"
                 f" activityID {activity_id} at (end)time {end_time}"
                 f" . Make sure to add `value=activity_id` to timeout events you yield."
             )
-        return cp_activity_id
+        return matching_ids.pop()
 
 
 class CriticalPathEnvironment(simpy.Environment):
-- 
2.43.0


From 6fbed0929815e0b24244ed2445b8f3c4da8ac1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:19 +0000
Subject: [PATCH 24/27] fix: dependencies on activities without duration are
 left out of the simulation graph

---
 src/openclsim/critical_path/simulation_graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 83b1d8d..9e991e6 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -138,6 +138,11 @@ class SimulationGraph:
             )
 
         # drop activities with zero time, they mess up algorithm
+        self.activities_zero_time = set(
+            recorded_activities_df.loc[
+                recorded_activities_df.duration == 0, "cp_activity_id"
+            ]
+        )
         recorded_activities_df = recorded_activities_df.loc[
             recorded_activities_df.duration != 0, :
         ]
@@ -160,6 +165,8 @@ class SimulationGraph:
         dependency_list = [
             (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
             for end, start in dependency_list
+            # activities with zero time are not in the graph
+            if self.activities_zero_time.isdisjoint((end, start))
         ]
         return dependency_list
 
-- 
2.43.0


From 4e1594872728ac353e50f60fe071e1a4ef0eca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:19 +0000
Subject: [PATCH 25/27] fix: rounded durations do not break ties between
 longest paths

---
 src/openclsim/critical_path/simulation_graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 9e991e6..6f6f48e 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -128,9 +128,9 @@ class SimulationGraph:
         )
         if is_timedelta64_dtype(recorded_activities_df["duration"]):
             logging.debug("Converting duration to seconds (float)")
-            recorded_activities_df["duration"] = round(
-                recorded_activities_df["duration"].dt.total_seconds(), 3
-            )
+            recorded_activities_df["duration"] = recorded_activities_df[
+                "duration"
+            ].dt.total_seconds()
         if not is_numeric_dtype(recorded_activities_df["duration"]):
             raise TypeError(
                 f"Duration computed as type {type(recorded_activities_df['duration'][0])} "
@@ -333,7 +333,7 @@ class SimulationGraph:
                 + graph.edges[edge]["duration"]
                 + duration_after[edge[1]]
             )
-            if round(duration, 2) == round(self.max_duration, 2):
+            if abs(duration - self.max_duration) < 1e-3:
                 graph.edges[edge][self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
                 list_critical.append(edge)
         logging.debug(f"Critical edges {list_critical}.")
-- 
2.43.0


From 5be6c90857143b2176dae47a3ba44a8054308652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 26/27] fix: look up activities referred to by name by their
 name before their id

---
 src/openclsim/model/base_activities.py | 4 +++-
 src/openclsim/model/helpers.py         | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index 6d618e3..d6537a4 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -201,7 +201,9 @@ class GenericActivity(PluginActivity):
 
                 activity_from_id = self.registry.get("id", {}).get(key)
                 activity_from_name = self.registry.get("name", {}).get(key)
-                if activity_from_id is not None:
+                if activity_from_id is not None and (
+                    "ID" in expr or activity_from_name is None
+                ):
                     activity_ = activity_from_id
                 elif activity_from_name is not None:
                     activity_ = activity_from_name
diff --git a/src/openclsim/model/helpers.py b/src/openclsim/model/helpers.py
index 3be93b6..8c185c1 100644
--- a/src/openclsim/model/helpers.py
+++ b/src/openclsim/model/helpers.py
@@ -23,8 +23,8 @@ def raise_on_circular_start_events(processes):
     items = get_subprocesses(processes)
     finished = set()
 
-    activities = {item.name: item for item in items}
-    activities.update({item.id: item for item in items})
+    names = {item.name: item for item in items}
+    ids = {item.id: item for item in items}
 
     def can_occur(expr):
         if isinstance(expr, list):
@@ -36,6 +36,7 @@ def raise_on_circular_start_events(processes):
                 return not expr["or"] or any(can_occur(e) for e in expr["or"])
             if expr.get("type") == "activity":
                 key = expr.get("ID", expr.get("name"))
+                activities = ids if "ID" in expr else names
                 return key not in activities or activities[key] in finished
         return True
 
-- 
2.43.0


From ade105670275e82e6aa0feae0dbfaf55aa18f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 27/27] fix: a transfer that fills its destination does not
 wait for ever because of rounding

---
 src/openclsim/model/shift_amount_activity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 58cd9e2..2095584 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -99,9 +99,13 @@ class ShiftAmountActivity(GenericActivity):
                         operator="ge",
                         id_=self.id_,
                     ),
+                    # the amount fits at the current level, however
+                    # capacity - amount is rounded
                     self.destination.container.get_container_event(
-                        level=self.destination.container.get_capacity(self.id_)
-                        - amount,
+                        level=max(
+                            self.destination.container.get_capacity(self.id_) - amount,
+                            self.destination.container.get_level(self.id_),
+                        ),
                         operator="le",
                         id_=self.id_,
                     ),
-- 
2.43.0

