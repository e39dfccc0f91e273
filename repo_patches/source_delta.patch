From 5b9d0051d4348713301f82c8f3ae2ad46a4eb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 01/76] fix: keep agents (not their fields) when clearing
 locations in serial mode

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..4efcf29 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1826,7 +1826,7 @@ class Ecosystem:
         new_agents = []
         for i in range(0, len(self.agents)):
             if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+                new_agents.append(self.agents[i])  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
-- 
2.43.0


From 5dedcbd891a89994053cdd754348295d1d94b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 02/76] fix: clearing locations must cope with deactivated
 agents

---
 flee/flee.py  | 3 ++-
 flee/pflee.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 4efcf29..c879f70 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1825,7 +1825,8 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
+            # deactivated agents have no location, and stay as they are.
+            if self.agents[i].location is None or self.agents[i].location.name not in location_names:
                 new_agents.append(self.agents[i])  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
diff --git a/flee/pflee.py b/flee/pflee.py
index 23c1b19..e2d9cae 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -687,7 +687,8 @@ class Ecosystem(flee.Ecosystem):
 
         new_agents = []
         for agent in self.agents:
-            if agent.location.name not in location_names:
+            # deactivated agents have no location, and stay as they are.
+            if agent.location is None or agent.location.name not in location_names:
                 new_agents += [agent]
             else:
                 # print("Agent removed: ", agent.location.name)
-- 
2.43.0


From e233b9846ad5003ca3c758c5d38a3bc21ead0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 03/76] fix: parallel time step must skip deactivated agents,
 like the serial one

---
 flee/pflee.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index e2d9cae..6602ac5 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -853,14 +853,16 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
-            a.evolve(self, time=self.time)
+            if a.location is not None:
+                a.evolve(self, time=self.time)
 
         # print("NumAgents after evolve:", file=sys.stderr)
         self.updateNumAgents(CountClosed=True, log=False)
 
         for a in self.agents:
-            a.finish_travel(self, time=self.time)
-            a.timesteps_since_departure += 1
+            if a.location is not None:
+                a.finish_travel(self, time=self.time)
+                a.timesteps_since_departure += 1
 
         if SimulationSettings.log_levels["agent"] > 0:
             write_agents_par(rank=self.mpi.rank, agents=self.agents, time=self.time)
@@ -886,10 +888,11 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["camps_are_sinks"] == True:
             for a in self.agents:
                 if a.travelling == False:
-                    if a.location.camp == True:
-                        outcome = random.random()
-                        if outcome < a.location.attributes.get("deactivation_probability", 0.0):
-                            a.location = None
+                    if a.location is not None:
+                        if a.location.camp == True:
+                            outcome = random.random()
+                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                                a.location = None
 
         self.time += 1
 
-- 
2.43.0


From f783d7b0ad36eb3a30b20f12b2f8eb88381935f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 04/76] fix: deactivation_probability comes from CSV as text,
 compare it as a number

---
 flee/flee.py  | 2 +-
 flee/pflee.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c879f70..34fe632 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1683,7 +1683,7 @@ class Ecosystem:
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                 a.location = None
 
         self.time += 1
diff --git a/flee/pflee.py b/flee/pflee.py
index 6602ac5..2492f67 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -891,7 +891,7 @@ class Ecosystem(flee.Ecosystem):
                     if a.location is not None:
                         if a.location.camp == True:
                             outcome = random.random()
-                            if outcome < a.location.attributes.get("deactivation_probability", 0.0):
+                            if outcome < float(a.location.attributes.get("deactivation_probability", 0.0)):
                                 a.location = None
 
         self.time += 1
-- 
2.43.0


From 7c7c09e9276ab25bacae17d47bb6f444c8dba66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 05/76] fix: parallel model uses random without importing it

---
 flee/pflee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 2492f67..c43218e 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import os
+import random
 import sys
 from functools import wraps
 from typing import List, Optional
-- 
2.43.0


From 03434408c8d0787201a2cd48673db3b4d64c0cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 06/76] fix: read camps_are_sinks under its documented name

---
 flee/SimulationSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2720e4e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", False)) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
-- 
2.43.0


From 2d95d639e5c82720ffcfd2d4d09ccdfd6844e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 07/76] fix: loading settings must define all spawn and flood
 settings, also when their section is absent

---
 flee/SimulationSettings.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index 2720e4e..df729fc 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -152,6 +152,10 @@ class SimulationSettings:
         # Setting defaults, to be overwritten right below when needed.
         SimulationSettings.spawn_rules["conflict_driven_spawning"] = False # Conflicts provide a direct push factor.
         SimulationSettings.spawn_rules["flood_driven_spawning"] = False # Flood provide a direct push factor.
+        SimulationSettings.spawn_rules["conflict_spawn_mode"] = "constant"
+        SimulationSettings.spawn_rules["displaced_per_conflict_day"] = 500
+        SimulationSettings.spawn_rules["flood_spawn_mode"] = "pop_ratio"
+        SimulationSettings.spawn_rules["displaced_per_flood_day"] = [0.0,0.1,0.2,0.5,0.9]
 
         spawn_type = "conflict"
         if SimulationSettings.spawn_rules["flood_zone_spawning_only"] is True:
@@ -297,16 +301,27 @@ class SimulationSettings:
         # DFlee Flood Location Move rules
         dpf = fetchss(dpr, "flood_rules", None)
 
+        # Defaults when there is no flood_rules section (flood driven spawning may still enable flood rules),
+        # so that nothing is undefined or left over from an earlier settings file.
+        SimulationSettings.spawn_rules["MaxFloodLevel"] = -1
+        SimulationSettings.move_rules["FloodMovechances"] = [0.3,0.4,0.7,1.0,1.0]
+        SimulationSettings.move_rules["FloodLocWeights"] = [1.0,0.5,0.2,0.0,0.0]
+        SimulationSettings.move_rules["FloodLinkWeights"] = None
+        SimulationSettings.move_rules["FloodForecasterTimescale"] = 0
+        SimulationSettings.move_rules["FloodForecasterWeights"] = None
+        SimulationSettings.move_rules["FloodForecasterEndTime"] = 0
+        SimulationSettings.move_rules["FloodAwarenessWeights"] = None
+
         if dpf is not None:
           SimulationSettings.move_rules["FloodRulesEnabled"] = True
           SimulationSettings.spawn_rules["MaxFloodLevel"] = int(fetchss(dpf,"max_flood_level", -1))
     
           # FloodMovechances *override* move chances when flood level is higher than 0.
-          SimulationSettings.move_rules["FloodMovechances"] = fetchss(dpf,"flood_movechances", None) # Expect an array or dict
+          SimulationSettings.move_rules["FloodMovechances"] = fetchss(dpf,"flood_movechances", [0.3,0.4,0.7,1.0,1.0]) # Expect an array or dict
           print("Flood Movechances set to:", SimulationSettings.move_rules["FloodMovechances"], file=sys.stderr)
 
           # FloodLocWeights *multiply* existing location weights when flood level is higher than 0.
-          SimulationSettings.move_rules["FloodLocWeights"] = fetchss(dpf,"flood_loc_weights", None) # Expect an array or dict
+          SimulationSettings.move_rules["FloodLocWeights"] = fetchss(dpf,"flood_loc_weights", [1.0,0.5,0.2,0.0,0.0]) # Expect an array or dict
           print("Flood Location Weights set to:", SimulationSettings.move_rules["FloodLocWeights"], file=sys.stderr)
           
           # FloodLinkWeights *multiply* existing link weights when flood level is higher than 0.
-- 
2.43.0


From 73c4cf89804d067869683cb52619cea85c2a0c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 08/76] fix: read the flood spawn mode under its documented
 name flood_spawn_mode

---
 flee/SimulationSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index df729fc..b26d35a 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -194,7 +194,7 @@ class SimulationSettings:
 
             SimulationSettings.spawn_rules["flood_driven_spawning"] = True # Conflicts provide a direct push factor.
 
-            SimulationSettings.spawn_rules["flood_spawn_mode"] = fetchss(dpsc,"spawn_mode","pop_ratio") # constant, Poisson, pop_ratio
+            SimulationSettings.spawn_rules["flood_spawn_mode"] = fetchss(dpsc,"flood_spawn_mode",fetchss(dpsc,"spawn_mode","pop_ratio")) # constant, Poisson, pop_ratio
 
             if SimulationSettings.spawn_rules["flood_spawn_mode"] == "pop_ratio":
               SimulationSettings.spawn_rules["displaced_per_flood_day"] = fetchss(dpsc,"displaced_per_flood_day", [0.0,0.1,0.2,0.5,0.9]) #expect an array.
-- 
2.43.0


From 88e4dc13f6f04995552b8cdc612b70f2b6c7cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 09/76] fix: SetCampMoveChance reads the camp move chance from
 the move rules

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index 34fe632..ba65809 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -601,7 +601,7 @@ class Location:
             None.
 
         """
-        self.movechance = SimulationSettings.CampMoveChance
+        self.movechance = SimulationSettings.move_rules["CampMoveChance"]
 
 
     @check_args_type
-- 
2.43.0


From 61b0d6730847493677086afb0fa36420f0629e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 10/76] fix: template run scripts use names that exist

---
 flee/config_template/run.py     | 4 ++--
 flee/config_template/run_par.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flee/config_template/run.py b/flee/config_template/run.py
index cdac975..b157d01 100644
--- a/flee/config_template/run.py
+++ b/flee/config_template/run.py
@@ -31,7 +31,7 @@ if __name__ == "__main__":
 
   ig = InputGeography.InputGeography()
 
-  ig.ReadConflictInputCSV(flee.SimulationSettings.FlareConflictInputFile)
+  ig.ReadConflictInputCSV(flee.SimulationSettings.ConflictInputFile)
 
   ig.ReadLocationsFromCSV("%s/locations.csv" % input_csv_directory)
 
@@ -66,7 +66,7 @@ if __name__ == "__main__":
 
     new_refs,refugees_raw,refugee_debt = spawning.spawn_daily_displaced(e,t,d)
 
-    spawning.refresh_conflict_spawn_weights(e)
+    spawning.refresh_spawn_weights(e)
     t_data = t
 
     e.enact_border_closures(t)
diff --git a/flee/config_template/run_par.py b/flee/config_template/run_par.py
index 277907a..bacb205 100644
--- a/flee/config_template/run_par.py
+++ b/flee/config_template/run_par.py
@@ -33,7 +33,7 @@ if __name__ == "__main__":
 
   ig = InputGeography.InputGeography()
 
-  ig.ReadConflictInputCSV(flee.SimulationSettings.FlareConflictInputFile)
+  ig.ReadConflictInputCSV(flee.SimulationSettings.ConflictInputFile)
 
   ig.ReadLocationsFromCSV("%s/locations.csv" % input_csv_directory)
 
@@ -71,7 +71,7 @@ if __name__ == "__main__":
 
     new_refs,refugees_raw,refugee_debt = spawning.spawn_daily_displaced(e,t,d)
 
-    spawning.refresh_conflict_spawn_weights(e)
+    spawning.refresh_spawn_weights(e)
     t_data = t
 
     e.enact_border_closures(t)
-- 
2.43.0


From c124769622c2dcb199f046a068cf64ddd55f1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 11/76] fix: parallel run script adds the IDP column to its
 header

---
 runscripts/run_par.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runscripts/run_par.py b/runscripts/run_par.py
index 751844c..72b9337 100644
--- a/runscripts/run_par.py
+++ b/runscripts/run_par.py
@@ -62,7 +62,7 @@ if __name__ == "__main__":
   output_header_string += "Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
 
   if SimulationSettings.log_levels["idp_totals"] > 0:
-      output += ",total IDPs".format(e.numIDPs())
+      output_header_string += ",total IDPs"
 
   if e.getRankN(0):
       print(output_header_string)
-- 
2.43.0


From b9765ac4beb657db9c2004c97c8f866c4a7a3a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 12/76] fix: run_UNHCR_uncertainty uses names that exist

---
 runscripts/run_UNHCR_uncertainty.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runscripts/run_UNHCR_uncertainty.py b/runscripts/run_UNHCR_uncertainty.py
index adce07d..9cc514c 100644
--- a/runscripts/run_UNHCR_uncertainty.py
+++ b/runscripts/run_UNHCR_uncertainty.py
@@ -12,7 +12,7 @@ def AddInitialRefugees(e, d, loc):
     """ Add the initial refugees to a location, using the location name"""
     num_refugees = int(d.get_field(loc.name, 0, FullInterpolation=True))
     for i in range(0, num_refugees):
-        e.addAgent(location=loc, attributes={})
+        e.addAgent(loc, attributes={})
 
 
 if __name__ == "__main__":
@@ -32,7 +32,7 @@ if __name__ == "__main__":
         end_time = int(sys.argv[3])
 
     if len(sys.argv) == 5:
-        flee.SimulationSettings.ReadFromCSV(sys.argv[4])
+        flee.SimulationSettings.ReadFromYML(sys.argv[4])
     flee.SimulationSettings.ConflictInputFile = "%s/conflicts.csv" % (
         input_csv_directory)
 
@@ -50,7 +50,7 @@ if __name__ == "__main__":
 
     d = handle_refugee_data.RefugeeTable(
         csvformat="generic", data_directory=validation_data_directory,
-        start_date=start_date, data_layout="data_layout.csv", start_empty=SimulationSettings.spawn_rules["EmptyCampsOnDay0"])
+        start_date=start_date, data_layout="data_layout.csv", start_empty=flee.SimulationSettings.spawn_rules["EmptyCampsOnDay0"])
 
     d.ReadL1Corrections("%s/registration_corrections.csv" %
                         input_csv_directory)
-- 
2.43.0


From ddb357ff4563ba9dc71ce25c2bc018e990d13613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 13/76] fix: links are closed and reopened by comparing
 location names, not string objects

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index ba65809..090ec53 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From 1d8c3a67d62410dc189a01eaf4997a01a5eb1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 14/76] fix: two-way closing and reopening of a link covers
 both directions

---
 flee/flee.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 090ec53..3b20cdf 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1086,14 +1086,15 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = False
         if twoway:
-            return self._remove_link_1way(
+            removed = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
             )
 
         return self._remove_link_1way(
             startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        ) or removed
 
 
     @check_args_type
@@ -1111,10 +1112,11 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = False
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint) or reopened
 
 
     @check_args_type
-- 
2.43.0


From 879fb450bb863c1cdd1e3f2b1cb88ab7bcebe96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 15/76] fix: an unknown location name no longer stands for the
 first location

---
 flee/flee.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 3b20cdf..0f4d9f5 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -958,8 +958,7 @@ class Ecosystem:
         #         x = i
 
         if x < 0:
-            print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
+            raise ValueError("location with name [{}] does not exist in the FLEE ecosystem".format(name))
 
         return x
 
-- 
2.43.0


From 3cdd479ff38bea8a24ef8b82bede3f2619c8b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 16/76] fix: closing a location closes all its incoming links,
 and reopening finds them again

---
 flee/flee.py | 68 ++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 0f4d9f5..eff22d3 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1180,8 +1180,18 @@ class Ecosystem:
                 if mode == "reopen":
                     link_set = self.locations[i].closed_links
 
+                # incoming links are kept at the locations they start from.
+                if dir_mode % 2 == 0:
+                    for l in self.locations:
+                        incoming = l.closed_links if mode == "reopen" else l.links
+                        if any(link.endpoint.name == location_name for link in incoming):
+                            if mode == "reopen":
+                                self.reopen_link(startpoint=l.name, endpoint=location_name, twoway=False)
+                            else:
+                                self.close_link(startpoint=l.name, endpoint=location_name, twoway=False)
+
                 j = 0
-                while j < len(link_set):
+                while dir_mode > 0 and j < len(link_set):
                     if Debug:
                         print(
                             "starting to {} link "
@@ -1192,47 +1202,31 @@ class Ecosystem:
                         )
                     if mode == "close":
 
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
+                        if self.close_link(
+                            startpoint=self.locationNames[i],
+                            endpoint=link_set[j].endpoint.name,
+                            twoway=False,
+                        ):
+                            # shrink the link list. # This operation
+                            # affects the overall loop, so no major
+                            # operations should take place after this.
+                            link_set = self.locations[i].links
                         else:
                             j += 1
 
                     elif mode == "reopen":
 
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+                        if self.reopen_link(
+                            startpoint=self.locationNames[i],
+                            endpoint=link_set[j].endpoint.name,
+                            twoway=False,
+                        ):
+                            # shrink the closed link list. # This operation
+                            # affects the overall loop, so no major
+                            # operations should take place after this.
+                            link_set = self.locations[i].closed_links
+                        else:
+                            j += 1
 
         return changed_anything
 
-- 
2.43.0


From a6a4348d3fa7cb8b1c0e24839a2d9bbc0839fd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 17/76] fix: changing a location to a conflict zone reads the
 attributes of that location

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index eff22d3..895151f 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1402,7 +1402,7 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1420,7 +1420,7 @@ class Ecosystem:
         else:
             print(
                 "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
-- 
2.43.0


From 650fd25949f7a2761a930168558fe4f389d1f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 18/76] fix: opening an ordinary camp at an IDP camp clears the
 IDP flag

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index 895151f..7d50ba2 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -453,6 +453,7 @@ class Location:
         """
         self.movechance = SimulationSettings.move_rules["CampMoveChance"]
         self.camp = True
+        self.idpcamp = False
         self.conflict = -1.0
         self.town = False
         self.forward = False
-- 
2.43.0


From e074225ba58b915df3d5a723897aaaee6985d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 19/76] fix: conflict zones with a low move chance do not
 become camps

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index 7d50ba2..9c7096f 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -387,7 +387,7 @@ class Location:
         # Automatically tags a location as a Camp if refugees are less than 2%
         # likely to move out on a given day.
         # Don't want flood zone to become a camp if movechance is low. 
-        if self.movechance < 0.005 and not self.camp and not self.flood_zone:
+        if self.movechance < 0.005 and not self.camp and not self.flood_zone and self.conflict <= 0.0:
             print(
                 "Warning: automatically setting location {} to camp, "
                 "as movechance = {}".format(self.name, self.movechance),
-- 
2.43.0


From d250f9f35c2f27430c33922d286204db9ca443e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 20/76] fix: adding a conflict zone without changing its move
 chance still makes it a conflict zone

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 9c7096f..77494d3 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1532,8 +1532,8 @@ class Ecosystem:
             if self.locationNames[i] == name:
                 if change_movechance:
                     self.locations[i].movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-                    self.locations[i].conflict = conflict_intensity
-                    self.locations[i].town = False
+                self.locations[i].conflict = conflict_intensity
+                self.locations[i].town = False
 
                 self.locations[i].time_of_conflict = self.time                  
                 spawning.refresh_spawn_weights(self)
-- 
2.43.0


From 00c5c4a575b4bfff908fd6e778783b0ce1feb34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 21/76] fix: getEndPointScore uses spawning, which moving never
 imported

---
 flee/moving.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..41452dc 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -2,6 +2,7 @@ import os
 import sys
 import numpy as np
 import random
+import flee.spawning as spawning
 from beartype.typing import List, Optional, Tuple
 from flee.SimulationSettings import SimulationSettings
 
-- 
2.43.0


From 877b23547cff6186411c863210b7f61cf1812c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 22/76] fix: StayCloseToHome weighs the distance to the home
 location, not to the current one

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 41452dc..6ba0486 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -49,7 +49,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From e24c3430e8912896dbfa19f8216ec2c066ed469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 23/76] fix: UsePopForLocWeight scales with the population as
 documented

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 6ba0486..3ddccc9 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -142,12 +142,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From ff8e906fe015e28f169bc3b2c5ab0473e72b5a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 24/76] fix: BoysTakeRisk returned an integer score, which the
 declared float return rejects

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 3ddccc9..793c32b 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -44,7 +44,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["BoysTakeRisk"]:
             if agent.attributes["gender"]=="male" and agent.attributes["age"]>14:
                 # Hypothesis that perceived safety does not affect routing decisions for teenage boys.
-                base = 1 
+                base = 1.0
 
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
-- 
2.43.0


From e7147dc46d1e512647159bbf8999686b123258cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 25/76] fix: pruneRoutes drops the options at the position
 found, and accepts having none

---
 flee/moving.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 793c32b..7bd342a 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -450,7 +450,7 @@ def pruneRoutes(weights, routes):
     #check_routes(weights, routes, "START")
 
     threshold = SimulationSettings.move_rules["PruningThreshold"]
-    if threshold < 1.001:
+    if threshold < 1.001 or len(weights) == 0:
         #check_routes(weights, routes, "LOTHRESHOLD")
         return weights, routes
 
@@ -458,8 +458,8 @@ def pruneRoutes(weights, routes):
     i = 0
     while i < len(weights):
         if weights[i] < min_weight_threshold:
-            weights.remove(weights[i])
-            routes.remove(routes[i])
+            del weights[i]
+            del routes[i]
             i -= 1
         i += 1
 
-- 
2.43.0


From c9acbc09413b4277294468b8d080ce45ecbc5c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 26/76] fix: AwarenessLevel 0 returns a route of location
 names, not a link number

---
 flee/moving.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 7bd342a..82b48be 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -486,7 +486,9 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return None
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From 9f7be59db739c6cfb64b67b4556e8e4a2d2ea246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 27/76] fix: no random draw when storing routes at
 AwarenessLevel 0

---
 flee/crawling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..0a2f854 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -262,8 +262,8 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   l.routes = {}
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
-    linklen = len(l.links)
-    return [np.random.randint(0, linklen)]
+    # agents pick a random link themselves, so there is nothing to store.
+    return l.routes
 
   for k, e in enumerate(l.links):
     calculateLocCrawlLinkWeight(
-- 
2.43.0


From 592bf92e10380c6dee4b3d3746ec48a9588842d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 28/76] fix: an agent for which no route can be found stays
 where it is

---
 flee/flee.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index 77494d3..c9d57e0 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -190,6 +190,11 @@ class Person:
                     # Determine which route to take
                     self.route = moving.selectRoute(self, time=time)
 
+                # No route could be found, so the agent stays.
+                if self.route is None:
+                    self.route = []
+                    return
+
                 # Attempt to follow route. Return None if fail.  
                 chosenDest = self.take_next_step(e)
 
-- 
2.43.0


From d0e2846964c3454932f65cd631b6f36e09aa2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 29/76] fix: a major route competes with the routes of the
 location it is stored at

---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 0a2f854..0cc8559 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,7 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > loc.routes.get(link.endpoint.name, [0,None])[0]:
+    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0


From 78d2513b28d5722da50de6ee09a595cdba5e714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 30/76] fix: markers do not count as a step in stored routes
 either

---
 flee/crawling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index 0cc8559..766ffda 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -143,6 +143,8 @@ def calculateLocCrawlLinkWeight(
   if link.endpoint.marker is False:
 
       _addLocationRoute(source_loc, loc, link, prior_distance, origin_names, time, major=False)
+  else:
+      step -= 1
 
   if SimulationSettings.move_rules["AwarenessLevel"] > step:
       # Traverse the tree one step further.
-- 
2.43.0


From 6e76e8ac0bdbbe56bf008e73e54a91b6293d8925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 31/76] fix: combined major routes do not return to a place
 already on the route

---
 flee/crawling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/crawling.py b/flee/crawling.py
index 766ffda..838a8e1 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -192,6 +192,8 @@ def insertMajorRoutesForLocation(
         #print(f"MR contains: {mr}", file=sys.stderr)
         if mr[-1] not in dest_names:
             route = route_to_l + mr
+            if len(set([source_loc.name] + route)) <= len(route):
+                continue # the combined route would return to a place already on it.
             #print(f"Adding route for {source_loc.name}: {route}, {route_to_l}, {mr}", file=sys.stderr)
 
             _addMajorRouteToLocation(source_loc, route, time)
-- 
2.43.0


From 89400671ba4e269c7d44ca6f35ed75dc4e0e8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 32/76] fix: the flood forecast is read under the name it is
 stored under, for the day considered

---
 flee/scoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/scoring.py b/flee/scoring.py
index 9d745f7..5847d2b 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -84,7 +84,7 @@ def updateLocationScore(time: int, loc) -> None:
                                     forecast_day = forecast_end_time  # same as time + x
 
                                 #Get the forecast flood level for the location on the day we're considering in the for loop
-                                forecast_flood_level = loc.attributes.get("forecast_flood_level",0)
+                                forecast_flood_level = int(loc.attributes.get("forecast_flood_levels",0)[forecast_day])
                         
                                 # print("forecast_flood_level",forecast_flood_level, file=sys.stderr)
                                 # print("forecast_day",forecast_day, file=sys.stderr)
-- 
2.43.0


From 5b6140cee7e53f9eb4c1dce93dd862d08c8bb6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 33/76] fix: conflict zones of locations.csv are read from the
 current columns

---
 flee/InputGeography.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..a68becc 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -124,7 +124,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -658,12 +658,12 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
+                if "conflict" in loc[5].lower() and int(loc[6]) == time:
                     conflict_intensity = 1.0
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], loc[7], conflict_intensity
                             ),
                             file=sys.stderr,
                         )
-- 
2.43.0


From 53a3819734b6628a06e6457b5d20ec1a6425cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 34/76] fix: links with forced redirection 1 are no longer
 created twice

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index a68becc..525f1e5 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -534,7 +534,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 3522da1a66a5c5e54eb18da5085f19ce63fd7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 35/76] fix: comment and empty rows are not major routes

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 525f1e5..5d0cdf1 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -269,7 +269,7 @@ class InputGeography:
             values = csv.reader(csvfile)
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
-                    pass
+                    continue
                 self.major_routes.append(row)
 
 
-- 
2.43.0


From 5d3c88b332ad45dd092a3b5423b56c18ad889056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 36/76] fix: the first data row of agents.csv is the header,
 also after comments

---
 flee/InputGeography.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 5d0cdf1..6b02625 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -381,11 +381,11 @@ class InputGeography:
         with open(csv_name, newline="", encoding="utf-8") as csvfile:
             values = csv.reader(csvfile)
 
-            i = 0
+            headers = None
             for row in values:
                 if len(row) == 0 or row[0][0] == "#":
                     pass
-                elif i == 0:
+                elif headers is None:
                     headers = row[1:]
                     print(headers)
                 else:
@@ -401,8 +401,7 @@ class InputGeography:
                             loc_found= True
 
                     if not loc_found:
-                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", sys.stderr)
-                i += 1
+                        print("could not map location to CSV-loaded agent on line. (not count commented lines or empty lines)", file=sys.stderr)
 
 
     def StoreInputGeographyInEcosystem(self, e):
-- 
2.43.0


From 8937f194a546e61752873f8f1bee2a0a356f2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 37/76] fix: the missing conflict value message named an
 undefined variable

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 6b02625..3231cb2 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -674,7 +674,7 @@ class InputGeography:
 
             for conflict_name in conflict_names:
                 if len(self.conflicts[conflict_name]) < (time - 1):
-                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(conflicts[conflict_name])}.", file=sys.stderr)
+                    print(f"Error: conflict value at time {time} requested, but the conflicts table for {conflict_name} only has values up to t = {len(self.conflicts[conflict_name])}.", file=sys.stderr)
 
                 if Debug and e.getRankN(e.time) is True:
                     print("L:", conflict_name, self.conflicts[conflict_name], time, file=sys.stderr)
-- 
2.43.0


From f69dc95df577eeb906250d5a614c0746f2dc4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 38/76] fix: all input tables exist before their file is read

---
 flee/InputGeography.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 3231cb2..0aca559 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -28,6 +28,10 @@ class InputGeography:
         self.major_routes = []
         self.conflicts = {}
         self.attributes = {}
+        self.closures = []
+        self.location_changes = []
+        self.columns = []
+        self.link_columns = []
 
 
     @check_args_type
-- 
2.43.0


From 2807f57b53b712832ab745a78a9b7d17db44cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 39/76] fix: spawn_agents called a method that does not exist

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..4763056 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -339,7 +339,7 @@ def spawn_agents(e, number):
     """
     #Insert refugee agents
     for i in range(0, number):
-        loc = e.pick_spawn_location()
+        loc = e.pick_spawn_locations(1)[0]
         attributes = draw_samples(e, loc)
         e.addAgent(location=loc, attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-- 
2.43.0


From 048db1be671152effab9e6faab1fe4fe3c6f3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 40/76] fix: demographics are read in a fixed order

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 4763056..e8d5da4 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -131,7 +131,7 @@ def read_demographics(e):
   if not os.path.exists("input_csv"):
       return
 
-  csv_list = glob.glob(os.path.join("input_csv","demographics_*.csv"))
+  csv_list = sorted(glob.glob(os.path.join("input_csv","demographics_*.csv")))
 
   for csvname in csv_list:
       read_demographic_csv(e, csvname)
-- 
2.43.0


From 1f16af1f463d68c6bb0ca5e1a83e1c955889107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 41/76] fix: the attribute name comes from the file name,
 wherever the file is

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index e8d5da4..3930294 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -98,7 +98,7 @@ def read_demographic_csv(e, csvname):
   Returns:
         None.
   """
-  attribute = (csvname.split(os.sep)[1].split('.')[0]).split('_')[1]
+  attribute = (os.path.basename(csvname).split('.')[0]).split('_', 1)[1]
 
   if not os.path.exists(csvname):
       return
-- 
2.43.0


From cf16bd4982bb0ef10ac631685f7e33ee543276c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 42/76] fix: days without new agents do not need spawn weights

---
 flee/flee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index c9d57e0..ff3c2d8 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1617,6 +1617,9 @@ class Ecosystem:
         Returns:
             list[Location]: A list of unique locations.
         """
+        if number == 0:
+            return []
+
         spawn_weight_total = sum(self.spawn_weights)
 
         assert spawn_weight_total > 0
-- 
2.43.0


From 314e13816d0cd7e39b4298e0ee0bb14996838a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 43/76] fix: agents draw their random link from their own
 generator

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 82b48be..4224895 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -488,7 +488,7 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
       linklen = len(a.location.links)
       if linklen == 0:
           return None
-      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
+      return [a.location.links[random.randrange(linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From 3ff285008bc1d8fe5fe2f9d0a0c1ede82a125fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 44/76] fix: numIDPs counted every IDP once per process

---
 flee/pflee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index c43218e..b9aedbf 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -466,7 +466,7 @@ class Ecosystem(flee.Ecosystem):
 
         for loc in self.locations:
             if loc.idpcamp:
-                num_idps += loc.numAgents
+                num_idps += loc.numAgentsOnRank
 
         num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
         return num_idps_all
-- 
2.43.0


From a50553ca494fde1e122002820d6f595def876c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 45/76] fix: spawned agents were counted once per process in
 the spawn totals

---
 flee/pflee.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index b9aedbf..b518322 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -619,7 +619,6 @@ class Ecosystem(flee.Ecosystem):
         if SimulationSettings.spawn_rules["TakeFromPopulation"]:
             if location.pop > 1: 
                 location.pop -= 1
-                location.numAgentsSpawnedOnRank += 1
                 location.numAgentsSpawned += 1
             else:
                 print(
@@ -630,6 +629,8 @@ class Ecosystem(flee.Ecosystem):
                 assert location.pop > 1
         self.total_agents += 1
         if self.total_agents % self.mpi.size == self.mpi.rank:
+            if SimulationSettings.spawn_rules["TakeFromPopulation"]:
+                location.numAgentsSpawnedOnRank += 1
             self.agents.append(Person(self, location=location, attributes=attributes))
 
 
-- 
2.43.0


From a6908ce65b4cd34ac7f84a7787fb25591e131e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 46/76] fix: stored routes of locations updated by other
 processes are regenerated every step

---
 flee/pflee.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index b518322..4319b47 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -835,9 +835,8 @@ class Ecosystem(flee.Ecosystem):
             if SimulationSettings.move_rules["FixedRoutes"] is True:
                 for i in range(len(self.locations)):
                     loc = self.locations[i]
-                    if len(loc.routes) == 0:
-                        #print("INFO: Generating location routes.", file=sys.stderr)
-                        crawling.generateLocationRoutes(loc, self.time)
+                    #print("INFO: Generating location routes.", file=sys.stderr)
+                    crawling.generateLocationRoutes(loc, self.time)
 
 
         # SYNCHRONIZE SPAWN COUNTS IN LOCATIONS (needed for all versions).
-- 
2.43.0


From 6d0dc8eaf3ce224df81f6f1c4eec0310b4f2ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 47/76] fix: all processes draw spawning decisions from the
 same random numbers

---
 flee/pflee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 4319b47..7dddc3f 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -404,6 +404,10 @@ class Ecosystem(flee.Ecosystem):
         self.print_location_output = False
         self.mpi = MPIManager()
 
+        # All processes take the same spawning decisions, so they draw these
+        # (from numpy) with the same seed. Agents use the random module.
+        np.random.seed(self.mpi.comm.bcast(np.random.randint(2**31 - 1), root=0))
+
         if self.getRankN(0):
             print("Creating Flee Ecosystem.", file=sys.stderr)
 
-- 
2.43.0


From e2f2819b63ce73ce493a3c5a600d01ed7ff30445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 48/76] fix: arrival statistics of a parallel run cover the
 agents of all processes

---
 flee/pflee.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 7dddc3f..bcbe8a9 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -454,6 +454,29 @@ class Ecosystem(flee.Ecosystem):
         return False
 
 
+    @check_args_type
+    def _aggregate_arrivals(self) -> None:
+        """
+        Summary:
+            Adds up arrival statistics over all processes.
+
+        Args:
+            None.
+
+        Returns:
+            None.
+        """
+        super()._aggregate_arrivals()
+
+        if SimulationSettings.log_levels["camp"] > 0:
+            arrivals = self.num_arrivals[-1]
+            total_time = int(round(self.travel_durations[-1] * arrivals))
+            arrivals = int(self.mpi.CalcCommWorldTotalSingle(arrivals))
+            total_time = int(self.mpi.CalcCommWorldTotalSingle(total_time))
+            self.num_arrivals[-1] = arrivals
+            self.travel_durations[-1] = float(total_time) / float(max(arrivals, 1))
+
+
     @check_args_type
     def numIDPs(self) -> int:
         """
-- 
2.43.0


From 5b0352f1a333a2c5d6cd1fcada7ff47f35e75075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 49/76] fix: locations, links and agents no longer share
 attribute collections

---
 flee/flee.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index ff3c2d8..3667764 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -72,7 +72,7 @@ class Person:
         # current link.
         self.distance_travelled_on_link = 0
 
-        self.attributes=attributes
+        self.attributes = dict(attributes)
         self.route = []
 
         if SimulationSettings.log_levels["agent"] > 0:
@@ -357,7 +357,7 @@ class Location:
         self.time_of_conflict = -1 # Time that a major conflict event last took place.
         self.numAgentsSpawned = 0
 
-        self.attributes = attributes # This will store a range of attributes that are read from file.
+        self.attributes = dict(attributes) # This will store a range of attributes that are read from file.
 
         if location_type is not None:
             if "camp" in location_type.lower():
@@ -685,7 +685,7 @@ class Link:
         # if True, then all Persons will go down this link.
         self.forced_redirection = forced_redirection
 
-        self.attributes = attributes
+        self.attributes = dict(attributes)
 
 
     @check_args_type
-- 
2.43.0


From 619d5aec6f809b0de437f53f4beb9ee2b1880041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 50/76] fix: printInfo used a list of conflict zones that no
 longer exists

---
 flee/flee.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 3667764..d563fbd 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1967,15 +1967,16 @@ class Ecosystem:
         Returns:
             None.
         """
+        conflict_zones = [loc for loc in self.locations if loc.conflict > 0.0]
         print(
             "Time: {}, # of agents: {}, # of conflict zones {}.".format(
-                self.time, len(self.agents), len(self.conflict_zones)
+                self.time, len(self.agents), len(conflict_zones)
             ),
             file=sys.stderr,
         )
-        if len(self.conflict_zones) > 0:
+        if len(conflict_zones) > 0:
             print(
-                "First conflict zone is called {}".format(self.conflict_zones[0].name),
+                "First conflict zone is called {}".format(conflict_zones[0].name),
                 file=sys.stderr,
             )
         for loc in self.locations:
-- 
2.43.0


From 0b9068d64f2ac86bc09b1efa68c7d15a7a3c9cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 51/76] fix: Ecosystem.setAttribute stored into a collection
 that was never created

---
 flee/flee.py  | 1 +
 flee/pflee.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index d563fbd..8dcef71 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -797,6 +797,7 @@ class Ecosystem:
         self.closures = []  # format [type, source, dest, start, end]
         self.time = 0
         self.print_location_output = True  # print location output data
+        self.attributes = {}
 
         # FLEE3 does not have a conflict zone list, and spawn weights cover all locations.
         self.spawn_weights = np.array([])
diff --git a/flee/pflee.py b/flee/pflee.py
index bcbe8a9..4786fd1 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -402,6 +402,7 @@ class Ecosystem(flee.Ecosystem):
         self.closures = []  # format [type, source, dest, start, end]
         self.time = 0
         self.print_location_output = False
+        self.attributes = {}
         self.mpi = MPIManager()
 
         # All processes take the same spawning decisions, so they draw these
-- 
2.43.0


From 83411c7b534028846d389331e9ced4faae21c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 52/76] fix: the agent log can be written at region granularity

---
 flee/Diagnostics.py | 2 +-
 flee/flee.py        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 8cef636..7ef850d 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -92,7 +92,7 @@ def write_agents_par(
             y = a.location.y
 
             if SimulationSettings.log_levels["granularity"] == "region":
-                loc_name = location.region
+                loc_name = a.location.region
                 x = 0.0
                 y = 0.0
 
diff --git a/flee/flee.py b/flee/flee.py
index 8dcef71..f42bdcf 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -671,6 +671,7 @@ class Link:
         # links for now always connect two endpoints
         self.startpoint = startpoint
         self.endpoint = endpoint
+        self.region = startpoint.region
         self.x = (self.startpoint.x + self.endpoint.x) / 2.0
         self.y = (self.startpoint.y + self.endpoint.y) / 2.0
 
-- 
2.43.0


From 1ae1157064c1b6a545bb6d0f0156c3ea129e0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 53/76] fix: the agent log can be started without any agents

---
 flee/Diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 7ef850d..70f0d13 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -71,7 +71,7 @@ def write_agents_par(
         my_file = open("agents.out.%s" % rank, "w", encoding="utf-8")
         print(
             "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,"
-            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0])),
+            "places_travelled,distance_moved_this_timestep,{}".format(print_attribute_keys(agents[0]) if len(agents) > 0 else ""),
             file=my_file,
         )
     else:
-- 
2.43.0


From edb6a1bfe90b4995ce1a326a76457e6f523c8b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 54/76] fix: serial log writers pass on their limits

---
 flee/Diagnostics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/Diagnostics.py b/flee/Diagnostics.py
index 70f0d13..7795896 100644
--- a/flee/Diagnostics.py
+++ b/flee/Diagnostics.py
@@ -77,7 +77,7 @@ def write_agents_par(
     else:
         my_file = open("agents.out.%s" % rank, "a", encoding="utf-8")
 
-    if max_written < 0:
+    if max_written < 0 or max_written > len(agents):
         max_written = len(agents)
 
     if time % timestep_interval == 0:
@@ -191,7 +191,7 @@ def write_agents(agents, time: int, max_written: int = -1, timestep_interval: in
     Returns:
         None.
     """
-    write_agents_par(rank=0, agents=agents, time=time, max_written=-1, timestep_interval=1)
+    write_agents_par(rank=0, agents=agents, time=time, max_written=max_written, timestep_interval=timestep_interval)
 
 
 @check_args_type
@@ -300,5 +300,5 @@ def write_links(locations, time: int, timestep_interval: int = 1) -> None:
     Returns:
         None.
     """
-    write_links_par(rank=0, locations=locations, time=time, timestep_interval=1)
+    write_links_par(rank=0, locations=locations, time=time, timestep_interval=timestep_interval)
 
-- 
2.43.0


From da05447d75cadcaac43beefa117eb8e704d56592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 55/76] fix: numIDPs returns a plain int

---
 flee/pflee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/pflee.py b/flee/pflee.py
index 4786fd1..2882b4e 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -497,7 +497,7 @@ class Ecosystem(flee.Ecosystem):
                 num_idps += loc.numAgentsOnRank
 
         num_idps_all = self.mpi.CalcCommWorldTotalSingle(num_idps)
-        return num_idps_all
+        return int(num_idps_all)
 
 
     @check_args_type
-- 
2.43.0


From 549aea2b45a72f573e1fa55c203a95ed28c6cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 56/76] fix: adding tables failed when the second one starts
 later

---
 flee/datamanager/DataTable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/datamanager/DataTable.py b/flee/datamanager/DataTable.py
index c365430..bf1f080 100644
--- a/flee/datamanager/DataTable.py
+++ b/flee/datamanager/DataTable.py
@@ -130,7 +130,7 @@ def AddCSVTables(table1: np.ndarray, table2: np.ndarray) -> np.ndarray:
     table = np.zeros([0, 2])
 
     offset = 0
-    last_c2 = np.zeros(([1, 2]))
+    last_c2 = np.zeros(2)
     for c2 in table2:
 
         # If table 2 date value is higher, then keep adding entries from table
-- 
2.43.0


From 6057092465a71828f400b369acfec3d45b90eb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 57/76] fix: correctLevel1Registrations failed for dates
 without a record

---
 flee/datamanager/handle_refugee_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..d3afeb8 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -71,6 +71,7 @@ class RefugeeTable(DataTable.DataTable):
             #If the wrong data is before the simulation period, then ignore the correction altogether.
             return 1.0
 
+        first_level_2_value = last_level_1_value = 1.0
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
-- 
2.43.0


From c076aef668727c5097faa2ea7a4fd0da2f6f9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 58/76] fix: coupling only removes agents from the locations it
 reports

---
 flee/coupling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 84a9f8a..a216e51 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -344,7 +344,11 @@ class CouplingInterface:
                 newAgents = self.readInputFromFile(t=time)
 
             if self.submodel in ["micro", "macro"]:
-                self.e.clearLocationsFromAgents(location_names=self.location_names)
+                self.e.clearLocationsFromAgents(
+                    location_names=[
+                        name for i, name in enumerate(self.location_names) if "out" in self.directions[i]
+                    ]
+                )
                 for i in range(0, len(self.location_names)):
                     # write departing agents to file
                     # read incoming agents from file
-- 
2.43.0


From 48278d0eec606b6b58a2ba36aba1ef8c16f6456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 59/76] fix: coupled locations without incoming agents no
 longer stop the run

---
 flee/coupling.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index a216e51..94b036d 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -355,12 +355,11 @@ class CouplingInterface:
                     # print(self.names, i, newAgents)
                     if "in" in self.directions[i]:
 
-                        print(
-                            "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
-                            file=sys.stderr,
-                        )
-
                         if self.names[i] in newAgents:
+                            print(
+                                "Couple IN: {} {}".format(self.names[i], newAgents[self.names[i]]),
+                                file=sys.stderr,
+                            )
                             self.e.insertAgents(
                                 location=self.e.locations[self.location_ids[i]],
                                 number=newAgents[self.names[i]],
-- 
2.43.0


From d1bec6bcf24f7af70a0a2527ac33e9d19f199951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 60/76] fix: coupling files appear only when they are complete

---
 flee/coupling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 94b036d..6eb26e6 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -461,8 +461,10 @@ class CouplingInterface:
         csv_outputfile_name = "{}[{}].{}.csv".format(self.outputfilename, self.instance_index, day)
         csv_outputfile_path = os.path.join(self.outputdir, "file", "coupled", csv_outputfile_name)
 
-        with open(csv_outputfile_path, "a", encoding="utf-8") as file:
+        # the other model reads this file as soon as it exists.
+        with open(csv_outputfile_path + ".tmp", "w", encoding="utf-8") as file:
             file.write(out_csv_string)
+        os.replace(csv_outputfile_path + ".tmp", csv_outputfile_path)
 
         print(
             "{}[{}] t={} Couple: output written to {}".format(
-- 
2.43.0


From 15b662e6a0ae58fef1ed6e9a01bc8bdc059ffabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 61/76] fix: exchanged data can be logged for serial models

---
 flee/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index 6eb26e6..d3d2b75 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -641,7 +641,7 @@ class CouplingInterface:
             self.logTotalAgents = []
             # logTotalAgents.append([day,total_agents])
 
-        self.logTotalAgents.append([t, self.e.total_agents])
+        self.logTotalAgents.append([t, self.e.numAgents()])
 
         # save log of numAgents in locations
         if not hasattr(self, "logLocationsNumAgents"):
-- 
2.43.0


From 47047e59eef2295e7b14b689766ed4f200cb9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 62/76] fix: the summed output of all instances is written, not
 that of the last one

---
 flee/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/coupling.py b/flee/coupling.py
index d3d2b75..b921c3d 100644
--- a/flee/coupling.py
+++ b/flee/coupling.py
@@ -686,9 +686,9 @@ class CouplingInterface:
 
         for column_name in list(frame):
             if "error" not in column_name.lower():
-                frame[column_name].round(0).astype(int)
+                frame[column_name] = frame[column_name].round(0).astype(int)
 
-        df.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8", index=False)
+        frame.to_csv(os.path.join(dirInputFiles, "out.csv"), encoding="utf-8")
 
     # ------------------------------------------------------------------------
     #                           Plotting functions
-- 
2.43.0


From 981605c4906e52f08b43d5cd7b31d89aeddba087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:16 +0000
Subject: [PATCH 63/76] fix: a location that became a marker keeps no stored
 routes

---
 flee/crawling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index 838a8e1..17d7343 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -260,11 +260,11 @@ def generateLocationRoutes(l, time: int, debug: bool = False):
   Returns:
       int: Index of the chosen route
   """
+  l.routes = {}
+
   if l.marker:
       return {}
 
-  l.routes = {}
-
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
     # agents pick a random link themselves, so there is nothing to store.
     return l.routes
-- 
2.43.0


From 8c44dd6f71ea01d03ed504b9b327d4c350912ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 64/76] fix: columns of conflict and attribute tables that have
 no name are skipped

---
 flee/InputGeography.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 0aca559..816feb3 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -64,6 +64,8 @@ class InputGeography:
                 else:
                     for i in range(1, len(row)):  # field 0 is day.
                         # print(row[0])
+                        if len(headers[i]) == 0:
+                            continue
                         self.conflicts[headers[i]].append(float(row[i].strip()))
                 row_count += 1
 
@@ -104,6 +106,8 @@ class InputGeography:
                 else:
                     for i in range(1, len(row)):  # field 0 is day.
                         # print("RAICSV", row[0], row[i], file=sys.stderr)
+                        if len(headers[i]) == 0:
+                            continue
                         if attribute_type == "int":
                             self.attributes[attribute_name][headers[i]].append(int(row[i].strip()))
                         elif attribute_type == "float":
-- 
2.43.0


From 6daa4a2749ee764fd2fa82c9f3f550475dcb91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:26 +0000
Subject: [PATCH 65/76] fix: flood levels are read for flood rules without
 flood driven spawning too

---
 flee/InputGeography.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index 816feb3..ec05b1e 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -155,7 +155,9 @@ class InputGeography:
 
         if "flood_driven_spawning" in SimulationSettings.spawn_rules.keys():
             # Read flood location attributes.
-            if SimulationSettings.spawn_rules["flood_driven_spawning"] is True:
+            # (flood rules can be used without flood driven spawning)
+            flood_rules = SimulationSettings.move_rules["FloodRulesEnabled"] is True and len(SimulationSettings.FloodLevelInputFile) > 0
+            if SimulationSettings.spawn_rules["flood_driven_spawning"] is True or flood_rules:
                 self.ReadAttributeInputCSV("flood_level","int",SimulationSettings.FloodLevelInputFile)
                 self.ReadAttributeInputCSV("forecast_flood_levels","int",SimulationSettings.FloodLevelInputFile)
 
-- 
2.43.0


From 1e5b2cd0edcb77d530617ed9344ea8db44404198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 66/76] fix: forecast flood levels of an endpoint are converted
 to a level before they index the weights

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 4224895..3e5e20b 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -100,7 +100,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
                           forecast_day = forecast_end_time #same as time + x
                     
                       #get the forecast flood level for location on the day we're considering in the for loop
-                      forecast_flood_level = endpoint.attributes.get("forecast_flood_levels",0)[forecast_day]
+                      forecast_flood_level = int(endpoint.attributes.get("forecast_flood_levels",0)[forecast_day])
 
                       # if it's not zero, then we need to modify the base forecast value, otherwise leave the base as it will zero.
                       if forecast_flood_level > 0.0: 
-- 
2.43.0


From 704696bf875052e6fb8861278620a209b4faf616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:12 +0000
Subject: [PATCH 67/76] fix: parallel runs refresh the spawn weights every
 step, like serial runs

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 2882b4e..2579b80 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -821,6 +821,8 @@ class Ecosystem(flee.Ecosystem):
             None.
 
         """
+        spawning.refresh_spawn_weights(self) # Required to correctly incorporate TakeFromPopulation and ConflictSpawnDecay.
+
         if self.time == 0:
             # print("rank, num_agents:", self.mpi.rank, len(self.agents))
 
-- 
2.43.0


From ea21ee31e2585ed0bfeef4248b416e0e0a7ecb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 68/76] fix: major routes padded with empty columns also run in
 the other direction

---
 flee/InputGeography.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index ec05b1e..bf50a1d 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -513,12 +513,14 @@ class InputGeography:
 
             # Add major link information
             for mr in self.major_routes:
-                if mr[0] == name:
-                    major_route = [x for x in mr[1:] if x]
+                # rows can be padded with empty columns
+                mr = [x for x in mr if x]
+                if mr[:1] == [name]:
+                    major_route = mr[1:]
                     #lm[name].major_routes.append(mr[1:])
                     lm[name].major_routes.append(major_route)
-                if mr[-1] == name:
-                    major_route = [x for x in mr[-2::-1] if x]
+                if mr[-1:] == [name]:
+                    major_route = mr[-2::-1]
                     # operator below reverses the list, then skips the first value.
                     #lm[name].major_routes.append(mr[-2::-1])
                     lm[name].major_routes.append(major_route)
-- 
2.43.0


From c6355244c40a3d482e0f2cac6be6ce5348df6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:48 +0000
Subject: [PATCH 69/76] fix: start each parallel step with no intermediate
 stops in the agent log

---
 flee/pflee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flee/pflee.py b/flee/pflee.py
index 2579b80..dee371f 100644
--- a/flee/pflee.py
+++ b/flee/pflee.py
@@ -884,6 +884,8 @@ class Ecosystem(flee.Ecosystem):
 
         # update agent locations
         for a in self.agents:
+            if SimulationSettings.log_levels["agent"] > 1:
+                a.locations_visited = []
             if a.location is not None:
                 a.evolve(self, time=self.time)
 
-- 
2.43.0


From eea67ceeaac164d19a0746b50fea489cb56a5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:44 +0000
Subject: [PATCH 70/76] fix: persons of the micro model take their attributes
 like those of the parallel model

---
 flee/pmicro_flee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flee/pmicro_flee.py b/flee/pmicro_flee.py
index 82f1450..289e548 100644
--- a/flee/pmicro_flee.py
+++ b/flee/pmicro_flee.py
@@ -44,7 +44,7 @@ class Person(pflee.Person):
     The Person class
     """
 
-    def __init__(self, e, location):
+    def __init__(self, e, location, attributes):
         """
         Summary:
             Initialise the Person class.
@@ -52,11 +52,12 @@ class Person(pflee.Person):
         Args:
             e (TYPE): ecocystem of the person
             location (TYPE): location of the person
+            attributes (dict): attributes of the person
 
         Returns:
             None.
         """
-        super().__init__(e, location)
+        super().__init__(e, location, attributes)
 
 
 class Location(pflee.Location):
-- 
2.43.0


From 8a77c4284d0347d490e47153b8215362d4e51663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:44 +0000
Subject: [PATCH 71/76] fix: the parallel run template imports the modules it
 uses

---
 flee/config_template/run_par.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flee/config_template/run_par.py b/flee/config_template/run_par.py
index bacb205..f4ff35c 100644
--- a/flee/config_template/run_par.py
+++ b/flee/config_template/run_par.py
@@ -1,4 +1,5 @@
-from flee import flee
+from flee import pflee as flee
+from flee import spawning
 from flee.datamanager import handle_refugee_data, read_period
 from flee.datamanager import DataTable #DataTable.subtract_dates()
 from flee import InputGeography
-- 
2.43.0


From 84cd778aa8cae880532f2ceeddaab52994dc29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:03 +0000
Subject: [PATCH 72/76] fix: weather-coupled links keep the attributes,
 counters and distance interface of other links

---
 flee/pmicro_flee.py | 50 ++++++---------------------------------------
 1 file changed, 6 insertions(+), 44 deletions(-)

diff --git a/flee/pmicro_flee.py b/flee/pmicro_flee.py
index 289e548..3aee78a 100644
--- a/flee/pmicro_flee.py
+++ b/flee/pmicro_flee.py
@@ -250,24 +250,11 @@ class Link_weather_coupling(pflee.Link):
         Returns:
             None.
         """
-        self.name = "L:{}:{}".format(startpoint.name, endpoint.name)
-        self.closed = False
+        super().__init__(startpoint, endpoint, distance, forced_redirection)
 
         # distance in km.
         self.__distance = float(distance)
 
-        # links for now always connect two endpoints
-        self.startpoint = startpoint
-        self.endpoint = endpoint
-
-        # number of agents that are in transit.
-        self.numAgents = 0
-        # refugee population on current rank (for pflee).
-        self.numAgentsOnRank = 0
-
-        # if True, then all Persons will go down this link.
-        self.forced_redirection = forced_redirection
-
         self.link_type = link_type
 
         self.latMid, self.lonMid = self.midpoint()
@@ -291,34 +278,6 @@ class Link_weather_coupling(pflee.Link):
             ]
 
 
-    def DecrementNumAgents(self):
-        """
-        Summary:
-            Decrement the number of agents on this link by 1.
-
-        Args:
-            None.
-
-        Returns:
-            None.
-        """
-        self.numAgents -= 1
-
-
-    def IncrementNumAgents(self):
-        """
-        Summary:
-            Increment the number of agents on this link by 1.
-
-        Args:
-            None.
-
-        Returns:
-            None.
-        """
-        self.numAgents += 1
-
-
     @check_args_type
     def get_start_date(self, time: int):
         """
@@ -507,17 +466,20 @@ class Link_weather_coupling(pflee.Link):
 
 
     @check_args_type
-    def get_distance(self, time: int) -> float:
+    def get_distance(self, time: Optional[int] = None) -> float:
         """
         Summary:
             Get the distance of the link.
 
         Args:
-            time (int): time of the conflict
+            time (int, optional): time of the conflict. Defaults to the current time step.
 
         Returns:
             new_distance (float): distance of the link      
         """
+        if time is None:
+            time = self.startpoint.e.time
+
         if len(weather_source_files) == 0:
             print("Error!!! there is NO input file names for weather coupling")
             sys.exit()
-- 
2.43.0


From 7095afdd2a55c59d93e69e15f3b6d96740d42b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:06 +0000
Subject: [PATCH 73/76] fix: the flood forecast enters scores as the average
 over its days, not as the square of their sum

---
 flee/moving.py  | 2 +-
 flee/scoring.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 3e5e20b..a13abe4 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -119,7 +119,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
                     
                   #the flood_forecast_base now represents the total weight of the flooding during the forecast for the endpoint location,
                   # this needed to be divided by the total number of days in the forecast to get the average weight based on the severity and relative imporatance of the forecasted days
-                  flood_forecast_base *= float(flood_forecast_base/forecast_timescale)
+                  flood_forecast_base = float(flood_forecast_base/forecast_timescale)
 
                   #down weight the overall importance of the flood forecast on the base depending on the agents awareness weighting
                   #currently using a simple down weighting, but may want lower awareness agents to only respond to high flood levels 
diff --git a/flee/scoring.py b/flee/scoring.py
index 5847d2b..a192279 100644
--- a/flee/scoring.py
+++ b/flee/scoring.py
@@ -109,7 +109,7 @@ def updateLocationScore(time: int, loc) -> None:
 
                             #the flood_forecast_base now represents the total weight of the flooding during the forecast for the endpoint location,
                             # this needed to be divided by the total number of days in the forecast to get the average weight based on the severity and relative imporatance of the forecasted days
-                            flood_forecast_score *= float(flood_forecast_score/forecast_timescale)
+                            flood_forecast_score = float(flood_forecast_score/forecast_timescale)
 
                             # Make the flood_forecast_base effect the actual base score
                             score *= flood_forecast_score
-- 
2.43.0


From cfc2f2e74221e28780a7640d0775ea9a76eefff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:24 +0000
Subject: [PATCH 74/76] fix: the micro model reads locations.csv by its current
 columns

---
 flee/micro_InputGeography.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index e351c96..d981cb9 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -109,30 +109,37 @@ class InputGeography(based_InputGeography_class):
             name = loc[0]
 
             # if population field is empty, just set it to 0.
-            if len(loc[1]) < 1:
+            if len(loc[7]) < 1:
                 population = 0
             else:
-                population = int(loc[1]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
+                population = int(loc[7]) // SimulationSettings.optimisations["PopulationScaleDownFactor"]
 
-            x = float(loc[2]) if len(loc[2]) > 0 else 0.0
-            y = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            x = float(loc[3]) if len(loc[3]) > 0 else 0.0
+            y = float(loc[4]) if len(loc[4]) > 0 else 0.0
 
-            # if population field is empty, just set it to 0.
-            if len(loc[7]) < 1:
+            # if region field is empty, just set it to unknown.
+            if len(loc[1]) < 1:
+                region = "unknown"
+            else:
+                region = loc[1]
+
+            # if country field is empty, just set it to unknown.
+            if len(loc[2]) < 1:
                 country = "unknown"
             else:
-                country = loc[7]
+                country = loc[2]
 
             # print(loc, file=sys.stderr)
-            location_type = loc[4]
+            location_type = loc[5]
             if "conflict" in location_type.lower():
                 num_conflict_zones += 1
-                if int(loc[5]) > 0:
+                if int(loc[6]) > 0:
                     location_type = "town"
 
-            if "camp" in loc[4].lower():
+            if "camp" in location_type.lower():
                 lm[name] = e.addLocation(
                     name=name,
+                    region=region,
                     location_type=location_type,
                     capacity=population,
                     x=x,
@@ -142,6 +149,7 @@ class InputGeography(based_InputGeography_class):
             else:
                 lm[name] = e.addLocation(
                     name=name,
+                    region=region,
                     location_type=location_type,
                     pop=population,
                     x=x,
-- 
2.43.0


From ce0b92f683cbe52cb5c8d01abf3f4ecb18a14931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:24 +0000
Subject: [PATCH 75/76] fix: links of the micro model with forced redirection 1
 are no longer created twice

---
 flee/micro_InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index d981cb9..14671c5 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -167,7 +167,7 @@ class InputGeography(based_InputGeography_class):
                         forced_redirection=True,
                         link_type=str(link[4]),
                     )
-                if int(link[3]) == 2:
+                elif int(link[3]) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 84e1ec7ef9af9df3e6b962befb650b05e22ab241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:59 +0000
Subject: [PATCH 76/76] fix: empty rows in the links of the micro model are
 skipped

---
 flee/micro_InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/micro_InputGeography.py b/flee/micro_InputGeography.py
index 14671c5..7a75f80 100644
--- a/flee/micro_InputGeography.py
+++ b/flee/micro_InputGeography.py
@@ -58,7 +58,7 @@ class InputGeography(based_InputGeography_class):
             values = csv.reader(csvfile)
 
             for row in values:
-                if row[0][0] == "#":
+                if len(row) == 0 or row[0][0] == "#":
                     pass
                 else:
                     # print(row)
-- 
2.43.0

