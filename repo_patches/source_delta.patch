From 5ae206999a6413d95349ecbc524e12671a15a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 01/50] fix: an inclusive gateway that both joins and splits
 follows the inclusive join rule

---
 prosimos/control_flow_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index ea509f9..6d8bdaf 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -301,7 +301,7 @@ class BPMNGraph:
                     return True
             return False
         elif e_info.type == BPMN.INCLUSIVE_GATEWAY:
-            if e_info.is_split():
+            if e_info.is_split() and not e_info.is_join():
                 if p_state.has_token(e_info.incoming_flows[0]):
                     return True
                 for flow_id in e_info.outgoing_flows:
-- 
2.43.0


From ad3370c8898dbafb8790f51098fa48d882329fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 02/50] fix: a flow that still carries tokens stays in the
 state mask when one of them is consumed

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 6d8bdaf..e07b164 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -341,7 +341,8 @@ class BPMNGraph:
                 for in_flow in e_info.incoming_flows:
                     if p_state.tokens[in_flow] > 0:
                         p_state.tokens[in_flow] -= 1
-                        p_state.state_mask &= ~self.arcs_bitset[in_flow]
+                        if p_state.tokens[in_flow] == 0:
+                            p_state.state_mask &= ~self.arcs_bitset[in_flow]
             flows = e_info.outgoing_flows
             f_arcs = [(flow, None) for flow in flows]
 
-- 
2.43.0


From d53af9edae5cf1028fb33ed02a47a8209ff89863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 03/50] fix: the offset of a datetime from the simulation start
 includes its days

---
 prosimos/simulation_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 9b1a905..2641311 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -606,7 +606,7 @@ class SimBPMEnv:
 
     def simulation_at_from_datetime(self, datetime):
         td = datetime - self.sim_setup.start_datetime
-        return td.seconds
+        return td.total_seconds()
 
     def get_utilization_for(self, resource_id):
         if self.sim_resources[resource_id].available_time == 0:
-- 
2.43.0


From 3acd06c8e897d2460bd91ac63098085632738fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 04/50] fix: a branching range without upper end has no upper
 end

---
 prosimos/branch_condition_rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prosimos/branch_condition_rules.py b/prosimos/branch_condition_rules.py
index efc1c0f..6c01cab 100644
--- a/prosimos/branch_condition_rules.py
+++ b/prosimos/branch_condition_rules.py
@@ -1,4 +1,3 @@
-import sys
 from typing import List, Tuple
 
 
@@ -25,7 +24,7 @@ class BranchConditionRule:
     def _parse_value(self, value):
         if self.condition == "in":
             min_boundary = float(value[0])
-            max_boundary = sys.maxsize if value[1] == "inf" else float(value[1])
+            max_boundary = float("inf") if value[1] == "inf" else float(value[1])
             return min_boundary, max_boundary
         else:
             return value
-- 
2.43.0


From 9f3129515556d37defc4105f8f18a6bf5a76469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 05/50] fix: a priority range without upper end has no upper
 end

---
 prosimos/prioritisation_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/prioritisation_rules.py b/prosimos/prioritisation_rules.py
index 48d7fd6..d4538d2 100644
--- a/prosimos/prioritisation_rules.py
+++ b/prosimos/prioritisation_rules.py
@@ -25,7 +25,7 @@ class PrioritisationRule:
     def _parse_value(self, value):
         if self.condition == "in":
             min_boundary = float(value[0])
-            max_boundary = sys.maxsize if value[1] == "inf" else float(value[1])
+            max_boundary = float("inf") if value[1] == "inf" else float(value[1])
 
             return min_boundary, max_boundary
         else:
-- 
2.43.0


From 13cca1fc5188716b2963bfb47c8f96c12e04d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 06/50] fix: peeking a queue skips removed entries in priority
 order

---
 prosimos/simulation_queues_ds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_queues_ds.py b/prosimos/simulation_queues_ds.py
index 50aca39..d6acc79 100644
--- a/prosimos/simulation_queues_ds.py
+++ b/prosimos/simulation_queues_ds.py
@@ -49,10 +49,11 @@ class PriorityQueue:
 
     def peek(self):
         """Return the lowest priority task (without removing it from the queue)"""
-        for heap_item in self.pq:
-            priority, _, task = heap_item
+        while self.pq:
+            priority, _, task = self.pq[0]
             if task is not self.REMOVED:
                 return task, priority
+            heappop(self.pq)
 
         return None, None
 
-- 
2.43.0


From fcf4192ad361f552eb7b4688632ae0776f2fe8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:26 +0000
Subject: [PATCH 07/50] fix: exclusive gateways whose true conditions all have
 zero probability no longer divide by zero

---
 prosimos/outgoing_flow_selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/outgoing_flow_selector.py b/prosimos/outgoing_flow_selector.py
index 21f9f89..a0913a7 100644
--- a/prosimos/outgoing_flow_selector.py
+++ b/prosimos/outgoing_flow_selector.py
@@ -110,6 +110,9 @@ class OutgoingFlowSelector:
     @staticmethod
     def _scale_to_one(values):
         total = sum(values)
+        if total == 0:
+            # none of the flows has a weight of its own: all of them are equally likely
+            return [1 / len(values) for _ in values]
         return [value / total for value in values]
 
     @staticmethod
-- 
2.43.0


From 91d2422ef497dcc2c2de00cf10ea6037f9dd57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 08/50] fix: a fired batch executes the cases that leave the
 queue, not more urgent ones that stay

---
 prosimos/control_flow_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index e07b164..0a32110 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -20,7 +20,8 @@ seconds_per_unit = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
 
 class BatchInfoForExecution:
     def __init__(self, all_case_ids, task_batch_info, curr_task_id, batch_spec, start_time_from_rule):
-        self.case_ids = all_case_ids[curr_task_id].copy()
+        # only the longest-waiting cases leave the queue for this execution (see _clear_batch)
+        self.case_ids = dict(list(all_case_ids[curr_task_id].items())[:sum(batch_spec)])
         self.task_batch_info = task_batch_info[curr_task_id]
         self.batch_spec = batch_spec
         self.start_time_from_rule = start_time_from_rule
-- 
2.43.0


From 97fadcf6489d153a2b99bd1a3656ef4460977797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 09/50] fix: a batch whose only rule is a lower bound on its
 size fires once enough cases wait

---
 prosimos/batch_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 4de0143..7a1d1d0 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -718,7 +718,7 @@ class AndFiringRule():
                 # initial_batch_size = batch_size
                 # if previously batch_size satisfy the size rule - return it
                 # if not - return the one we've just calculated with the size rule limitations
-                batch_size = batch_size if rule_operator(batch_size, value2) else batch_size_rule
+                batch_size = batch_size if batch_size != sys.maxsize and rule_operator(batch_size, value2) else batch_size_rule
                 
                 if batch_size > current_batch_size or \
                     enabled_time > initial_curr_enabled_at:
-- 
2.43.0


From 6f86c9a65ea48e06d879416b9e9d860f47fb265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 10/50] fix: batch waiting times longer than a day are measured
 in full

---
 prosimos/batch_processing.py     | 10 +++++++---
 prosimos/control_flow_manager.py |  6 +++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 7a1d1d0..69a3160 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -31,6 +31,10 @@ def _get_operator_symbols_ge(operator_str: str):
 def _get_operator_symbols_lt(operator_str: str):
     return _get_operator_symbols(operator_str, operator.lt)
 
+def get_waited_seconds(since: datetime, until: datetime):
+    """ Full length of the wait; nothing bounds the wait for a moment that is not reached in this order """
+    return (until - since).total_seconds() if since <= until else sys.maxsize
+
 def _is_greater(op: operator):
     return op in [operator.ge, operator.gt]
 
@@ -123,7 +127,7 @@ class FiringSubRule():
             curr_enabled_datetime = element["curr_enabled_at"]
             op = _get_operator_symbols_ge(self.operator)
 
-            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).seconds
+            ready_wt_sec = get_waited_seconds(last_enabled_datetime, curr_enabled_datetime)
             is_rule_true = op(ready_wt_sec, self.value2)
            
             if is_rule_true == False:
@@ -466,7 +470,7 @@ class AndFiringRule():
                 # happens when no new cases will arrive 
                 return en_time_index, _get_enabled_time_for_wt_rule(prev_item, operator.gt, high_boundary)
 
-            diff = (item - prev_item).seconds
+            diff = get_waited_seconds(prev_item, item)
             is_batch_enabled_low = diff < low_boundary
 
             if is_batch_enabled_low:
@@ -508,7 +512,7 @@ class AndFiringRule():
         prev_item = first_item
         list_len = len(enabled_dt_with_curr_enabled)
         for en_time_index, item in enumerate(enabled_dt_with_curr_enabled[1:], 1):
-            diff = (item - first_item).seconds
+            diff = get_waited_seconds(first_item, item)
             is_batch_enabled_low = diff > low_boundary
             
             if not is_batch_enabled_low:
diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 0a32110..dbdb462 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -10,7 +10,7 @@ from typing import List
 from pix_framework.statistics.distribution import DurationDistribution
 
 from prosimos.batch_processing import (BATCH_TYPE, AndFiringRule,
-                                       BatchConfigPerTask)
+                                       BatchConfigPerTask, get_waited_seconds)
 from prosimos.exceptions import InvalidBpmnModelException
 from prosimos.weekday_helper import CustomDatetimeAndSeconds
 from prosimos.simulation_execution_stats import SimulationExecutionStats
@@ -1065,9 +1065,9 @@ class BPMNGraph:
         all_keys = list(waiting_tasks.keys())
 
         first_key = all_keys[0]
-        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).seconds
+        first_wt = get_waited_seconds(waiting_tasks[first_key].datetime, current_point_of_time.datetime)
 
         last_key = all_keys[-1]
-        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).seconds
+        last_wt = get_waited_seconds(waiting_tasks[last_key].datetime, current_point_of_time.datetime)
 
         return self.batch_info[task_id].firing_rules.is_invalid_end(num_tasks_wait_batch, first_wt, last_wt)
-- 
2.43.0


From 7e5c965d26f3a943312e135fd59bec16d25ae68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 11/50] fix: the end-of-simulation check of a rule on the time
 since the last arrival no longer fails

---
 prosimos/batch_processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 69a3160..8736e9b 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -333,7 +333,7 @@ class FiringSubRule():
             return 0, None
 
 
-    def is_invalid_end(self, curr_batch_size, last_wt):
+    def is_invalid_end(self, curr_batch_size, last_wt, ready_wt_boundaries=None):
         is_invalid = False
 
         if RULE_TYPE(self.variable1) == RULE_TYPE.SIZE:
@@ -347,7 +347,7 @@ class FiringSubRule():
             # if we surpass the upper limit of waiting_time,
             # this will not be changed in the future cause we will not receive a new item
             # and thus ready_wt value will not be reset
-            _, high_boundary = self.ready_wt_boundaries
+            _, high_boundary = ready_wt_boundaries
             is_invalid = last_wt > high_boundary
 
         return is_invalid
@@ -843,7 +843,7 @@ class AndFiringRule():
         is_invalid = False
         
         for simple_rule in self.rules:
-            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt)
+            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt, self.ready_wt_boundaries)
 
             if is_invalid:
                 break
-- 
2.43.0


From 6a46a4c1d813078b906ab016267459239bf88100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 12/50] fix: completing an element that is no longer enabled
 (after a terminate end event) does not stop the simulation

---
 prosimos/control_flow_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index dbdb462..9dfb5f4 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -327,7 +327,7 @@ class BPMNGraph:
                                           which equals to enabled time for current event
         """
         if not self.is_enabled(e_id, p_state):
-            return []
+            return [], {}
         enabled_tasks = list()
         to_execute = [e_id]
         current = 0
-- 
2.43.0


From 9cdcf8b1aff3032868c0e134090937141232924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 13/50] fix: every executed event is recorded on its own, later
 events no longer overwrite it

---
 prosimos/execution_info.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/prosimos/execution_info.py b/prosimos/execution_info.py
index 498a5fd..dcfbad0 100644
--- a/prosimos/execution_info.py
+++ b/prosimos/execution_info.py
@@ -77,24 +77,25 @@ class TaskEvent:
 
     @classmethod
     def create_event_entity(cls, c_event: EnabledEvent, ended_at, ended_datetime):
-        cls.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
-        cls.task_id = c_event.task_id  # Name of the task related to the current event
-        cls.type = BPMN.INTERMEDIATE_EVENT
-        cls.enabled_at = c_event.enabled_at
-        cls.enabled_datetime = c_event.enabled_datetime
-        cls.started_at = c_event.enabled_at
-        cls.started_datetime = c_event.enabled_datetime
-        cls.completed_at = ended_at
-        cls.completed_datetime = ended_datetime
-        cls.idle_time = 0.0
-        cls.waiting_time = 0.0
-        cls.idle_cycle_time = 0.0
-        cls.idle_processing_time = 0.0
-        cls.cycle_time = 0.0
-        cls.processing_time = 0.0
-        cls.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
-
-        return cls
+        event = cls.__new__(cls)
+        event.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
+        event.task_id = c_event.task_id  # Name of the task related to the current event
+        event.type = BPMN.INTERMEDIATE_EVENT
+        event.enabled_at = c_event.enabled_at
+        event.enabled_datetime = c_event.enabled_datetime
+        event.started_at = c_event.enabled_at
+        event.started_datetime = c_event.enabled_datetime
+        event.completed_at = ended_at
+        event.completed_datetime = ended_datetime
+        event.idle_time = 0.0
+        event.waiting_time = 0.0
+        event.idle_cycle_time = 0.0
+        event.idle_processing_time = 0.0
+        event.cycle_time = 0.0
+        event.processing_time = 0.0
+        event.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
+
+        return event
 
     def update_enabling_times(self, enabled_at):
         # what's the use case ?
-- 
2.43.0


From 2eaa0bfabb4fdca4ef5a345a4cf1bcfebc5369ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 14/50] fix: the event chosen by an event-based gateway lasts
 as long as it was sampled for the choice

---
 prosimos/simulation_engine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 2641311..26b5877 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -582,9 +582,10 @@ class SimBPMEnv:
 
     def execute_event(self, c_event):
         # Handle event types separately (they don't need assigned resource)
-        event_duration_seconds = None
-        event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
-        [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
+        event_duration_seconds = c_event.duration_sec
+        if event_duration_seconds is None:
+            event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
+            [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
 
         completed_at = c_event.enabled_at + event_duration_seconds
         completed_datetime = c_event.enabled_datetime + timedelta(seconds=event_duration_seconds)
-- 
2.43.0


From 1289de4affcfc013a3e5318b0d51923399cfa460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 15/50] fix: the length of a union of intervals is right for
 nested and non-adjacent overlaps

---
 prosimos/simulation_stats_calculator.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index d170562..fac7ed7 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -341,15 +341,11 @@ def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
     interval_list = sorted(interval_list, key=lambda interval: interval.start)
-    t_duration = interval_list[0].duration
-    for i in range(1, len(interval_list)):
-        i_interval = interval_list[i - 1].intersection(interval_list[i])
-        for j in range(i - 2, -1, -1):
-            intersection = interval_list[j].intersection(i_interval)
-            if intersection is None:
-                break
-            i_interval = intersection
-        t_duration += interval_list[i].duration - i_interval.duration if i_interval else interval_list[i].duration
+    t_duration, covered_until = 0, interval_list[0].start
+    for interval in interval_list:
+        if interval.end > covered_until:
+            t_duration += (interval.end - max(interval.start, covered_until)).total_seconds()
+            covered_until = interval.end
     return round(t_duration, 6)
 
 
-- 
2.43.0


From 9f4b2448414c3cba202d7832ffc12cae3835922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 16/50] fix: worked and available time of a resource are
 reported under their own names

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index fac7ed7..9cff9df 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -211,8 +211,8 @@ def compute_resource_utilization(bpm_env):
         # r_info = bpm_env.sim_setup.resources_map[r_id]
         resource_info[r_id] = ResourceKPI(bpm_env.sim_setup.resources_map[r_id],
                                           bpm_env.sim_resources[r_id].allocated_tasks,
-                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.sim_resources[r_id].available_time,
+                                          bpm_env.sim_resources[r_id].worked_time,
                                           bpm_env.get_utilization_for(r_id))
 
     # for r_id in bpm_env.sim_setup.resources_map:
-- 
2.43.0


From fe5face01af4aec02609d0d84a5927d561bcec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 17/50] fix: resource availability under fuzzy calendars skips
 events, which no resource performs

---
 prosimos/simulation_stats_calculator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 9cff9df..1328681 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -272,6 +272,9 @@ def compute_fuzzy_availability(bpm_env):
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
+            if ev.type != BPMN.TASK:
+                # events are not performed by a resource
+                continue
             if ev.resource_id not in r_working_intervals:
                 r_working_intervals[ev.resource_id] = []
             for interval in ev.worked_intervals:
-- 
2.43.0


From 3e9616689f4ba06ed8a227f9bbfee28375c52cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 18/50] fix: a resource stays busy until all items of its
 parallel batch are completed

---
 prosimos/simulation_engine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 26b5877..87bf460 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -534,6 +534,7 @@ class SimBPMEnv:
             is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
             if not is_working:
                 r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
+            busy_until = r_avail_at
 
             for case_id, enabled_time in batch_item:
                 p_case = case_id
@@ -552,10 +553,12 @@ class SimBPMEnv:
                     c_event.batch_info_exec.batch_id
                 )
 
+                # the resource is busy until the last of the parallel items completes
+                busy_until = max(busy_until, full_evt.completed_at)
                 (
                     completed_at,
                     completed_datetime,
-                ) = self._update_logs_and_resource_availability(full_evt, r_id)
+                ) = self._update_logs_and_resource_availability(full_evt, r_id, busy_until)
 
                 yield completed_at, completed_datetime, p_case
 
@@ -563,10 +566,10 @@ class SimBPMEnv:
             # we add their duration only once cause they were happening at the same time
             self.sim_resources[r_id].worked_time += full_evt.ideal_duration
 
-    def _update_logs_and_resource_availability(self, full_evt: TaskEvent, r_id):
+    def _update_logs_and_resource_availability(self, full_evt: TaskEvent, r_id, busy_until=0):
         self.log_info.add_event_info(full_evt.p_case, full_evt, self.sim_setup.resources_map[r_id].cost_per_hour)
 
-        r_next_available = full_evt.completed_at
+        r_next_available = max(full_evt.completed_at, busy_until)
 
         if self.sim_resources[r_id].switching_time > 0:
             r_next_available += self.sim_setup.next_resting_time(r_id, full_evt.completed_datetime)
-- 
2.43.0


From 8ef12add62b3906a275fb094dc0f3d91e1ada997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 19/50] fix: the items of a parallel batch start together, on
 duty and once all of them are enabled

---
 prosimos/simulation_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 87bf460..78ab5b3 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -529,7 +529,8 @@ class SimBPMEnv:
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
-            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds)
+            last_enabled_at = max(enabled_time.seconds_from_start for _, enabled_time in batch_item)
+            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds, last_enabled_at)
             avail_datetime = self._datetime_from(r_avail_at)
             is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
             if not is_working:
-- 
2.43.0


From 80ffb73634749464c6ff3be7d635616736d367ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 20/50] fix: count executed tasks under multitasking only where
 the workload is tracked

---
 prosimos/multitasking/multitasking_struct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prosimos/multitasking/multitasking_struct.py b/prosimos/multitasking/multitasking_struct.py
index 97e3e03..8a67a9b 100644
--- a/prosimos/multitasking/multitasking_struct.py
+++ b/prosimos/multitasking/multitasking_struct.py
@@ -54,8 +54,10 @@ class MultiTaskDS:
                 self.active_datetimes[r_id] = completed_at
             else:
                 self.active_datetimes[r_id] = max(self.active_datetimes[r_id], completed_at)
-            self.executed_tasks[r_id][t_id] += 1
-            self.total_tasks[t_id] += 1
+            # the workload is only tracked after calling init_relative_workload
+            if t_id in self.executed_tasks.get(r_id, {}):
+                self.executed_tasks[r_id][t_id] += 1
+                self.total_tasks[t_id] += 1
 
     def release_tasks_from(self, r_id: str, completed_at: datetime):
         if r_id in self.allocated_tasks and self.active_datetimes[r_id] is not None:
-- 
2.43.0


From b94fd6680192dee1b6344bb3fdde5c603604ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 21/50] fix: a resource at its multitasking capacity is next
 available when its tasks complete

---
 prosimos/simulation_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 78ab5b3..b0140d1 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -311,7 +311,7 @@ class SimBPMEnv:
         r_next_avail = r_init_avail
         if not self.sim_setup.multitask_info.can_get_new_tasks(r_id, completed_dt):
             last_time = self.sim_setup.multitask_info.release_tasks_from(r_id, completed_dt)
-            r_next_avail += self.sim_setup.next_resting_time(r_id, last_time)
+            r_next_avail = self.simulation_at_from_datetime(last_time) + self.sim_setup.next_resting_time(r_id, last_time)
 
         self.resource_queue.update_resource_availability(r_id, r_next_avail)
         self.sim_resources[r_id].worked_time += full_evt.ideal_duration
-- 
2.43.0


From 4a424e6ab0c24e3e4a5bf3f6f472836ff27a1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 22/50] fix: count the tasks allocated to a resource under
 multitasking

---
 prosimos/simulation_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index b0140d1..8967789 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -295,7 +295,7 @@ class SimBPMEnv:
         #         self.resource_queue.update_resource_availability(candidates[j][0], candidates[j][1])
         #
         # r_id, r_avail_at = best_r, best_avail
-        # self.sim_resources[r_id].allocated_tasks += 1
+        self.sim_resources[r_id].allocated_tasks += 1
         if c_event.enabled_at > r_avail_at:
             next_avail_at = c_event.enabled_at
             avail_datetime = self._datetime_from(next_avail_at)
-- 
2.43.0


From 0b621bdfe28461033b6da6af2820fc567659ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 23/50] fix: under multitasking a task starts only while its
 resource is on duty

---
 prosimos/simulation_engine.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 8967789..62ac660 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -296,12 +296,11 @@ class SimBPMEnv:
         #
         # r_id, r_avail_at = best_r, best_avail
         self.sim_resources[r_id].allocated_tasks += 1
-        if c_event.enabled_at > r_avail_at:
-            next_avail_at = c_event.enabled_at
-            avail_datetime = self._datetime_from(next_avail_at)
-            is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
-            if not is_working:
-                r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
+        next_avail_at = max(c_event.enabled_at, r_avail_at)
+        avail_datetime = self._datetime_from(next_avail_at)
+        is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
+        if not is_working:
+            r_avail_at = next_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
 
         return r_id, r_avail_at
 
-- 
2.43.0


From 6e27b419c689e6238f296b10a4077f4a4e85597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 24/50] fix: registering the probability of k parallel tasks
 again replaces entry k

---
 prosimos/multitasking/multitasking_struct.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/prosimos/multitasking/multitasking_struct.py b/prosimos/multitasking/multitasking_struct.py
index 8a67a9b..a06e873 100644
--- a/prosimos/multitasking/multitasking_struct.py
+++ b/prosimos/multitasking/multitasking_struct.py
@@ -94,13 +94,14 @@ class MultiTaskDS:
         if not 0 <= prob <= 1.0:
             raise ValueError("Probability 'prob' must be between 0 and 1.0 inclusive")
         if self.mt_type is MultiType.GLOBAL:
-            self.res_multitask_info[r_id].extend([prob] * (task_freq - len(self.res_multitask_info[r_id])))
-            self.res_multitask_info[r_id].append(prob)
+            probabilities = self.res_multitask_info[r_id]
         else:
-            self.res_multitask_info[r_id][week_day][granule].extend(
-                [prob] * (task_freq - len(self.res_multitask_info[r_id][week_day][granule]))
-            )
-            self.res_multitask_info[r_id][week_day][granule].append(prob)
+            probabilities = self.res_multitask_info[r_id][week_day][granule]
+        if task_freq < len(probabilities):
+            probabilities[task_freq] = prob
+        else:
+            probabilities.extend([prob] * (task_freq - len(probabilities)))
+            probabilities.append(prob)
 
     def register_local_multitasks(self, r_id: str, week_day: int, from_dt: datetime, to_dt: datetime, task_freq: int,
                                   prob: float):
-- 
2.43.0


From 3290c24fb96c31cb962325e94f96edfb34bf03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:03 +0000
Subject: [PATCH 25/50] fix: a fuzzy calendar period that wraps around the end
 of the week covers its weekdays

---
 prosimos/simulation_properties_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index b24fae3..aac966e 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -222,7 +222,9 @@ def convert_to_fuzzy_time_periods(time_period):
 
     time_periods = []
 
-    for day in range(from_day, to_day + 1):
+    # a period may wrap around the end of the week, e.g., from SATURDAY to MONDAY
+    for i in range((to_day - from_day) % 7 + 1):
+        day = (from_day + i) % 7
         week_day = list(int_week_days.keys())[list(int_week_days.values()).index(day)]
         time_period = {
             "weekDay": week_day,
-- 
2.43.0


From 855306a52bc47eb5b90e3d5f5d33dd5decb3c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 26/50] fix: a simulation with a single event ends instead of
 failing on the time of its last event

---
 prosimos/simulation_engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 62ac660..e1c1dc7 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -658,6 +658,9 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
             new_attributes = {attr.name: attr.get_next_value() for attr in global_case_attributes}
             bpm_env.sim_setup.bpmn_graph.all_attributes["global"].update(new_attributes)
 
+        # save the datetime of the last executed task in the flow
+        last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
+
         bpm_env.execute_enabled_event(current_event)
 
         # find the next event to be executed
@@ -668,10 +671,7 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
             bpm_env.append_any_enabled_batch_tasks(intermediate_event)
 
         current_event = bpm_env.events_queue.pop_next_event()
-        if current_event is not None:
-            # save the datetime of the last executed task in the flow
-            last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
-        else:
+        if current_event is None:
             # we reached the point where all tasks enabled for the execution were executed
             # add to the events_queue batched tasks if any
             bpm_env.execute_if_any_unexecuted_batch(last_event_datetime)
-- 
2.43.0


From a8ed83889a24380e01dc2c14b87fb243da113775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 27/50] fix: without an arrival calendar the calendars of the
 starter resources are combined

---
 prosimos/simulation_setup.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prosimos/simulation_setup.py b/prosimos/simulation_setup.py
index 824be34..211c8a7 100644
--- a/prosimos/simulation_setup.py
+++ b/prosimos/simulation_setup.py
@@ -104,12 +104,20 @@ class SimDiffSetup:
         return self.bpmn_graph.is_any_unexecuted_batch(last_task_enabled_time)
 
     def find_arrival_calendar(self):
-        # TODO: make sure this 0 as p_case does not break anything
-        enabled_tasks = self.update_process_state(0, self.bpmn_graph.starting_event, self.initial_state(), None)
+        # the starter resources are those of the tasks reached first from the starting event
         starter_resources = set()
         arrival_calendar = RCalendar("arrival_calendar")
-        for task_id in enabled_tasks:
-            for r_id in self.task_resource[task_id]:
+        pending, visited = [self.bpmn_graph.starting_event], set()
+        while pending:
+            e_info: ElementInfo = self.bpmn_graph.element_info[pending.pop(0)]
+            if e_info.id in visited:
+                continue
+            visited.add(e_info.id)
+            if e_info.type is not BPMN.TASK:
+                for flow_id in e_info.outgoing_flows:
+                    pending.append(self.bpmn_graph.flow_arcs[flow_id][1])
+                continue
+            for r_id in self.task_resource.get(e_info.id, dict()):
                 if r_id in starter_resources:
                     continue
                 arrival_calendar.combine_calendar(self.calendars_map[self.resources_map[r_id].calendar_id])
-- 
2.43.0


From 831753b9f0d9f1f563647353f360755574d256ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 28/50] fix: every comparison of a chained comparison counts in
 an attribute expression

---
 prosimos/event_attributes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 4a3dc2e..a80d87a 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -114,7 +114,14 @@ def eval_expr(expr, vars_dict):
             elif isinstance(node, ast.Str):
                 return node.s
             elif isinstance(node, ast.Compare):
-                return operators[type(node.ops[0])](_eval(node.left), _eval(node.comparators[0]))
+                left, result = _eval(node.left), True
+                for operator, comparator in zip(node.ops, node.comparators):
+                    right = _eval(comparator)
+                    result = operators[type(operator)](left, right)
+                    if not result:
+                        break
+                    left = right
+                return result
             elif isinstance(node, ast.BoolOp):
                 if type(node.op) is ast.And:
                     return all(_eval(value) for value in node.values)
-- 
2.43.0


From d5079978bbfdc9726ed88eecb92bbd348bd54ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 29/50] fix: a tiny negative value of an attribute expression
 stays negative

---
 prosimos/event_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index a80d87a..eb6b51e 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -196,7 +196,7 @@ class EventAttribute:
                 elif result == -float('inf'):
                     return np.finfo(np.float32).min
                 elif abs(result) < np.finfo(np.float32).tiny:
-                    return np.finfo(np.float32).tiny
+                    return np.finfo(np.float32).tiny if result > 0 else -np.finfo(np.float32).tiny
                 elif abs(result) > np.finfo(np.float32).max:
                     return np.finfo(np.float32).max if result > 0 else np.finfo(np.float32).min
                 else:
-- 
2.43.0


From f75d317f031721d54a8cda201ee635126eb2a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 30/50] fix: a state-based attribute changes no value another
 attribute of the activity is computed from

---
 prosimos/event_attributes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index eb6b51e..be7953e 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -179,7 +179,6 @@ class EventAttribute:
                 current_value = all_attributes.get(self.name, None)
                 next_state = self.get_next_markov_state(current_value)
                 if next_state is not None:
-                    all_attributes[self.name] = next_state
                     return next_state
                 return current_value
             else:
-- 
2.43.0


From 2fb7cdbd50302ce6424d3c6ee88d926e7dbd53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 31/50] fix: global attributes accept probabilities that add up
 to one within a small tolerance

---
 prosimos/global_attributes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/global_attributes.py b/prosimos/global_attributes.py
index 13e1dbc..722dc22 100644
--- a/prosimos/global_attributes.py
+++ b/prosimos/global_attributes.py
@@ -52,10 +52,12 @@ class GlobalAttribute:
             return self.value.generate_sample(1)[0]
 
     def validate(self):
+        epsilon = 1e-6
+
         if self.global_attr_type == GLOBAL_ATTR_TYPE.DISCRETE:
             actual_sum_probabilities = reduce(lambda acc, item: acc + item, self.value["probabilities"], 0)
 
-            if actual_sum_probabilities != 1:
+            if not (1 - epsilon <= actual_sum_probabilities <= 1 + epsilon):
                 raise InvalidGlobalAttributeException(
                     f"Global attribute ${self.name}: probabilities' sum should be equal to 1")
 
-- 
2.43.0


From 616cb1ba915add4d3871d9a9e95985d17999d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 32/50] fix: an expression with a unary plus has the value of
 its operand

---
 prosimos/event_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index be7953e..e9d07d5 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -21,7 +21,7 @@ class EVENT_ATTR_TYPE(Enum):
 
 operators = {
     ast.Add: op.add, ast.Sub: op.sub, ast.Mult: op.mul, ast.Div: op.truediv,
-    ast.USub: op.neg, ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt,
+    ast.USub: op.neg, ast.UAdd: op.pos, ast.Eq: op.eq, ast.NotEq: op.ne, ast.Lt: op.lt,
     ast.LtE: op.le, ast.Gt: op.gt, ast.GtE: op.ge, ast.Not: op.not_,
     ast.And: op.and_, ast.Or: op.or_, ast.Mod: op.mod, ast.Pow: op.pow,
     ast.FloorDiv: op.floordiv
-- 
2.43.0


From b27f71b006fb3e4a5d723c92a3d06e8c1c743d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 33/50] fix: an attribute expression whose value is too large
 for a float is limited instead of failing

---
 prosimos/event_attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index e9d07d5..2785516 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -142,6 +142,8 @@ def eval_expr(expr, vars_dict):
                         return 0
             else:
                 return 0
+        except OverflowError:
+            return np.finfo(np.float32).max
         except (SyntaxError, ZeroDivisionError, TypeError, KeyError):
             return 0
 
-- 
2.43.0


From f2a9b3719c5e9cf68d410429514955cb3293963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 34/50] fix: an arithmetic operation without a real result
 yields zero like the functions do

---
 prosimos/event_attributes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 2785516..77e389a 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -105,7 +105,9 @@ def eval_expr(expr, vars_dict):
             if isinstance(node, ast.Num):
                 return node.n
             elif isinstance(node, ast.BinOp):
-                return operators[type(node.op)](_eval(node.left), _eval(node.right))
+                result = operators[type(node.op)](_eval(node.left), _eval(node.right))
+                # neither a negative number to a fractional power nor inf - inf is a number
+                return 0 if isinstance(result, complex) or result != result else result
             elif isinstance(node, ast.UnaryOp):
                 return operators[type(node.op)](_eval(node.operand))
             elif isinstance(node, ast.Name):
-- 
2.43.0


From a5696cdb369e8cee4f61449d6d5e1a1795b0cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 35/50] fix: the attributes of an activity are also updated
 when it is executed in a batch

---
 prosimos/simulation_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index e1c1dc7..ed1ad71 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -576,6 +576,7 @@ class SimBPMEnv:
 
         self.resource_queue.update_resource_availability(r_id, r_next_available)
 
+        self.update_attributes(full_evt)
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
 
         completed_at = full_evt.completed_at
-- 
2.43.0


From 727eb1e44c73eb58c346d9e79a239d2a3694a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 36/50] fix: the log of a simulation with given arrival times
 is written to its file

---
 prosimos/simulation_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index ed1ad71..27e796f 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -743,6 +743,7 @@ def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting
     bpm_env = SimBPMEnv(diffsim_info, stat_fwriter, log_fwriter)
     execute_full_process(bpm_env, fixed_starting_times)
     if fixed_starting_times is not None:
+        bpm_env.log_writer.force_write()
         return bpm_env
     if log_fwriter is None and stat_fwriter is None:
         return bpm_env.log_info.compute_process_kpi(bpm_env), bpm_env.log_info
-- 
2.43.0


From 62eb0454c0cc74ef3457e41a2d1d800de63af6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 37/50] fix: work under a fuzzy calendar does not begin within
 a granule in which the resource is unavailable

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 1269d0a..71ca60f 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -120,12 +120,15 @@ class FuzzyModel:
 
         avail_info, size_seconds, week_day, i = self._extract_date_info(current_date)
 
-        real_duration = min(avail_info.duration_to_interval_end(current_date), ideal_duration)
+        real_duration = avail_info.duration_to_interval_end(current_date)
         if self.is_available(week_day, i):
+            real_duration = min(real_duration, ideal_duration)
             to_date = it_date + timedelta(seconds=real_duration)
             worked_intervals.append(Interval(it_date, to_date))
             it_date = to_date
             ideal_duration -= real_duration
+        else:
+            it_date += timedelta(seconds=real_duration)
         i += 1
         while ideal_duration > 0:
             if i >= avail_info.i_count:
-- 
2.43.0


From 43098116bc353cd4e429f6436248a647e3aca965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 38/50] fix: the time available within a single granule of a
 fuzzy calendar is not estimated as the whole granule

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 71ca60f..62e9473 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -159,6 +159,10 @@ class FuzzyModel:
         last_duration = fuzzy_c.duration_from_interval_start(to_date)
         first_duration = fuzzy_c.duration_to_interval_end(from_date)
 
+        if from_date + timedelta(seconds=first_duration) >= to_date:
+            # nothing but a part of one granule
+            return fuzzy_c.probability_intervals[week_day][i] * (to_date - from_date).total_seconds()
+
         duration = fuzzy_c.probability_intervals[week_day][i] * first_duration
         duration += fuzzy_c.probability_intervals[to_date.weekday()][fuzzy_c.interval_index(to_date)] * last_duration
 
-- 
2.43.0


From 964ed759b391808ca2fa248b383d596aaef3f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 39/50] fix: the availability of a resource under a fuzzy
 calendar after its work counts from the end of the interval that ends last

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 1328681..687e634 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -302,7 +302,6 @@ def compute_fuzzy_availability(bpm_env):
 
         available_time = f_calendar.estimate_available_time(started_at, r_working_intervals[r_id][0].start)
         available_time += r_working_intervals[r_id][0].duration
-        available_time += f_calendar.estimate_available_time(r_working_intervals[r_id][i_len - 1].end, completed_at)
 
         last_date = r_working_intervals[r_id][0].end
         for i in range(1, i_len):
@@ -319,6 +318,7 @@ def compute_fuzzy_availability(bpm_env):
                 worked_time += c_interval.duration
                 available_time += c_interval.duration
             last_date = c_interval.end
+        available_time += f_calendar.estimate_available_time(last_date, completed_at)
         cumulative_worked_time[r_id] = worked_time
         cumulative_available_time[r_id] = available_time
         bpm_env.sim_resources[r_id].available_time = available_time
-- 
2.43.0


From 7c1cd9b86c17e7bdf4ea5c63cc9db1e838b22532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 40/50] fix: the available time of a resource that executed no
 task is also reported under fuzzy calendars

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 687e634..a8c776e 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -268,7 +268,7 @@ def compute_resorce_availability(bpm_env):
 
 def compute_fuzzy_availability(bpm_env):
     trace_list = bpm_env.log_info.trace_list
-    r_working_intervals = dict()
+    r_working_intervals = {r_id: [] for r_id in bpm_env.sim_resources}
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
-- 
2.43.0


From a7cbdfcdf2770f2d4ba3d475be517a6fc0907175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 41/50] fix: a range condition over an attribute written as
 text compares its number instead of failing

---
 prosimos/branch_condition_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prosimos/branch_condition_rules.py b/prosimos/branch_condition_rules.py
index 6c01cab..14fbc59 100644
--- a/prosimos/branch_condition_rules.py
+++ b/prosimos/branch_condition_rules.py
@@ -47,7 +47,11 @@ class BranchConditionRule:
 
         if self.condition == "in":
             min_value, max_value = comparison_value
-            return min_value <= case_value <= max_value
+            try:
+                # discrete attributes are written as text
+                return min_value <= float(case_value) <= max_value
+            except ValueError:
+                return False
         elif self.condition == ">":
             return case_value > comparison_value
         elif self.condition == ">=":
-- 
2.43.0


From a320b184526b3af68a073fb319bab4295ab62d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 42/50] fix: a priority range over an attribute written as text
 compares its number instead of failing

---
 prosimos/prioritisation_rules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prosimos/prioritisation_rules.py b/prosimos/prioritisation_rules.py
index d4538d2..d672b89 100644
--- a/prosimos/prioritisation_rules.py
+++ b/prosimos/prioritisation_rules.py
@@ -34,7 +34,11 @@ class PrioritisationRule:
     def is_rule_true(self, all_case_values):
         case_value = all_case_values[self.attribute]
         if self.condition == "in":
-            evaluator = InOperatorEvaluator(self.value, case_value)
+            try:
+                # discrete attributes are written as text
+                evaluator = InOperatorEvaluator(self.value, float(case_value))
+            except ValueError:
+                return False
             return evaluator.eval()
         else:
             # TODO: clarify whether == is the only possible option
-- 
2.43.0


From ed2d8e5c2acbf4923044f812337b4a2e43dc6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 43/50] fix: the processing time of a case counts each working
 interval once

---
 prosimos/simulation_stats_calculator.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index a8c776e..974133d 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -91,8 +91,8 @@ class LogInfo:
                     for interval in event_info.worked_intervals:
                         real_work_intervals.append(interval)
                 else:
-                    r_calendar.remove_idle_times(event_info.started_datetime, event_info.completed_datetime,
-                                                 real_work_intervals)
+                    real_work_intervals.extend(
+                        working_intervals(r_calendar, event_info.started_datetime, event_info.completed_datetime))
             processing_intervals.append(Interval(event_info.started_datetime, event_info.completed_datetime))
             waiting_intervals.append(Interval(event_info.enabled_datetime, event_info.started_datetime))
 
@@ -340,6 +340,20 @@ def print_event_state(state, e_step, bpm_env, resource_id, to_print):
                                                     to_print, bpm_env.simpy_env.now))
 
 
+def working_intervals(r_calendar, from_date, to_date):
+    # RCalendar.remove_idle_times counts the first working interval of a day twice if the task starts within it
+    intervals = list()
+    c_day = from_date.replace(hour=0, minute=0, second=0, microsecond=0)
+    while c_day < to_date:
+        for interval in r_calendar.work_intervals[c_day.weekday()]:
+            start = max(from_date, c_day + (interval.start - r_calendar.new_day))
+            end = min(to_date, c_day + (interval.end - r_calendar.new_day))
+            if start < end:
+                intervals.append(Interval(start, end))
+        c_day += datetime.timedelta(days=1)
+    return intervals
+
+
 def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
-- 
2.43.0


From 23adedd343055afc0e74698e7a41d91304f169cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 44/50] fix: replaying a trace keeps all enabled predecessors
 at the same distance

---
 prosimos/control_flow_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 9dfb5f4..0be952a 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -689,7 +689,7 @@ class BPMNGraph:
                             c_min, closer_pred, or_f, temp_path = d, e_p, o_f, t_path
 
                 for e_id in closer_pred:
-                    enabled_pred[e_id] = closer_pred[e_id]
+                    enabled_pred.setdefault(e_id, list()).extend(closer_pred[e_id])
                 for e_id in temp_path:
                     path_split[e_id] = temp_path[e_id]
                 for e_id in or_f:
-- 
2.43.0


From 5c29dd896ba0cb3a2b392c862f9149f998ad2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 45/50] fix: replaying a trace repeats a block at the start of
 the process instead of starting anew

---
 prosimos/control_flow_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 0be952a..74b8a2f 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -685,7 +685,10 @@ class BPMNGraph:
                         d, e_p, o_f, t_path = self.closer_enabled_predecessors(pr_info, in_flow, dict(), dict(), dict(),
                                                                                visited, p_state, dist + 1, min_dist)
 
-                        if d < c_min or (BPMNGraph._has_start_event(closer_pred) and d != sys.maxsize):
+                        # the start event is always enabled: it counts only if nothing else is
+                        from_start = BPMNGraph._has_start_event(e_p) and len(closer_pred) > 0
+                        if (d < c_min and not from_start) or (
+                                BPMNGraph._has_start_event(closer_pred) and d != sys.maxsize):
                             c_min, closer_pred, or_f, temp_path = d, e_p, o_f, t_path
 
                 for e_id in closer_pred:
-- 
2.43.0


From 8120fc410fd2020f39b8583ce8e829abf95be48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 46/50] fix: a granule of zero minutes is refused like any
 other invalid size

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 17eaf91..391551c 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -174,7 +174,7 @@ def compute_kpi_times_from_csv_log(log_path, bpmn_graph):
 
 
 def parse_and_validate_input(log_path, bpmn_path, minutes_x_granule, conf, supp, part, is_csv=False):
-    if minutes_x_granule < 0 or 1440 % minutes_x_granule != 0:
+    if minutes_x_granule <= 0 or 1440 % minutes_x_granule != 0:
         raise InvalidInputDiscoveryParameters(
             "Invalid granule_size. The time interval must be a divisor of 1400, e.g., 15, 30, 60 minutes"
         )
-- 
2.43.0


From bfe9837bbdfe99e543e1ec3d71e036d1da8c5afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 47/50] fix: mostly regular arrivals can be observed without an
 error

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 391551c..b00d1e4 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -958,7 +958,7 @@ def _reject_outliers(data, m=5.0):
     data = np.asarray(data)
     d = np.abs(data - np.median(data))
     mdev = np.median(d)
-    s = d / mdev if mdev else 0.0
+    s = d / mdev if mdev else np.zeros(len(d))
     return data[s < m]
 
 
-- 
2.43.0


From eb11e7fdf3fc6016fa1e9eb4e887c25960887744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 48/50] fix: cases without any known activity do not arrive in
 the year 9999

---
 bpdfr_discovery/log_parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index b00d1e4..2d5bec6 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -352,7 +352,6 @@ def preprocess_xes_log(
         total_traces += 1
         started_events = dict()
         trace_info = Trace(caseid)
-        initial_events[caseid] = datetime(9999, 12, 31, tzinfo=pytz.UTC)
         for event in trace:
             total_events += 1
             if is_trace_event_start_or_end(event, bpmn_graph):
@@ -372,7 +371,7 @@ def preprocess_xes_log(
                 min_date = timestamp
             min_date = min(min_date, timestamp)
 
-            initial_events[caseid] = min(initial_events[caseid], timestamp)
+            initial_events[caseid] = min(initial_events.get(caseid, timestamp), timestamp)
 
             if resource not in resource_freq:
                 resource_cases[resource] = set()
-- 
2.43.0


From bcd1c64252193444ed7e6f8b2898aeb6a4ef72d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 49/50] fix: options of the commands have their types and
 defaults

---
 cli/diff_res_bpsim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cli/diff_res_bpsim.py b/cli/diff_res_bpsim.py
index fe1e1f2..806da18 100644
--- a/cli/diff_res_bpsim.py
+++ b/cli/diff_res_bpsim.py
@@ -30,7 +30,7 @@ def cli():
 @click.option('--starting_at', required=False,
               help='Date-time of the first process case in the simulation.'
                    'If this parameter is not provided, the current date-time is assigned.')
-@click.option('--is_event_added_to_log', required=False,
+@click.option('--is_event_added_to_log', required=False, type=click.BOOL, default=False,
               help='Boolean showing whether event should be added to the resulted simulation log.'
                    'If this parameter is not provided, False is considered as the parameter value.')
 @click.pass_context
@@ -45,15 +45,15 @@ def start_simulation(ctx, bpmn_path, json_path, total_cases, stat_out_path=None,
               help='Path to the event log in XES format')
 @click.option('--out_json', required=True,
               help='Path to the JSON file to produce as output with the differentiated simulation parameters')
-@click.option('--granule_size', required=False,
+@click.option('--granule_size', required=False, type=click.INT, default=60,
               help='Length of the working intervals in the calendars in minutes, 60 minutes by default')
-@click.option('--conf', required=False,
+@click.option('--conf', required=False, type=click.FLOAT, default=0.1,
               help='Confidence ratio in [0, 1] to consider a timestamp in the event-log as outlier, 0.1 by default.'
                    'Timestamps under the confidence threshold are not included in the calendar.')
-@click.option('--supp', required=False,
+@click.option('--supp', required=False, type=click.FLOAT, default=0.7,
               help='Support ratio in [0, 1] describing the coverage of timestamps by the calendar, 0.7 by default.'
                    'The calendar will include a ratio of timestamps in the log over the support threshold.')
-@click.option('--part', required=False,
+@click.option('--part', required=False, type=click.FLOAT, default=0.3,
               help='Resource participation ratio in [0, 1] to mark a resource as external, 0.3 by default.'
                    'Resources with participation ratio under the threshold in the event-log are discarded.')
 @click.pass_context
-- 
2.43.0


From 48dc151d172e0aa72bf8971b34f3cd34a9620f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:17 +0000
Subject: [PATCH 50/50] fix: the discovered arrival calendar is a list of
 intervals, as the simulation reads it

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 2d5bec6..181b979 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -468,7 +468,7 @@ def preprocess_xes_log(
     # # (2) Discovering Arrival Time Calendar
     arrival_calendar = discover_arrival_calendar(initial_events, 60, 0.1, 1.0)
     # arrival_calendar = discover_arrival_calendar(initial_events, minutes_x_granule, min_confidence, min_support)
-    json_arrival_calendar = arrival_calendar.to_dict()
+    json_arrival_calendar = arrival_calendar.intervals_to_json()
 
     # # (3) Discovering Arrival Time Distribution
     arrival_time_dist = discover_arrival_time_distribution(initial_events, arrival_calendar, use_observed_arrival_times)
-- 
2.43.0

