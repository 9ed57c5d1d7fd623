From c4c5fa68a9e97571c1c0303db0436920e2734b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 01/39] fix: record execution timestamps for execution_ids
 other than the default

A run in absolute time mode under a new execution_id raised KeyError,
because execution_timestamps was only ever initialized for
default_execution_id.
---
 src/graph_scheduler/scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d4d4edb..ac2708d 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -579,6 +579,11 @@ class Scheduler:
             else:
                 self.execution_list[execution_id] = []
 
+        if execution_id not in self.execution_timestamps:
+            self.execution_timestamps[execution_id] = list(
+                self.execution_timestamps.get(base_execution_id, [])
+            )
+
         self._init_clock(execution_id, base_execution_id)
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
-- 
2.43.0


From 6cd36c07259b7968c1ff9d54c2f3c1f5082e9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 02/39] fix: run under default_execution_id, and start other
 execution_ids fresh

run() always used execution_id None, not default_execution_id, when none
was supplied, and took the state of None as the base of every new
execution_id. So a Scheduler with another default_execution_id could not
run() at all (SchedulerError), and otherwise a new execution_id began
with the counts and execution_list of the default one.
---
 src/graph_scheduler/scheduler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index ac2708d..1db3758 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -861,8 +861,8 @@ class Scheduler:
     def run(
         self,
         termination_conds=None,
-        execution_id=None,
-        base_execution_id=None,
+        execution_id=NotImplemented,
+        base_execution_id=NotImplemented,
         skip_environment_state_update_time_increment=False,
         **kwargs,
     ):
@@ -872,7 +872,14 @@ class Scheduler:
 
         :param termination_conds: (dict) - a mapping from `TimeScale`\\s to `Condition`\\s that when met
                terminate the execution of the specified `TimeScale`
+        :param execution_id: the identifier of the independent scheduling to run. Defaults to
+               `default_execution_id`
+        :param base_execution_id: if specified, the state of a new **execution_id** is copied from that of
+               **base_execution_id**
         """
+        if execution_id is NotImplemented:
+            execution_id = self.default_execution_id
+
         self._validate_run_state()
 
         if termination_conds is None:
-- 
2.43.0


From df7b1a007e2bf74032f406eeda2a58d2e832daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 03/39] fix: copy the clock of base_execution_id when running a
 new execution_id

run called get_clock, which creates a new Clock, before _init_counts, so
counts and execution_list were copied from base_execution_id but its
clock was not.
---
 src/graph_scheduler/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 1db3758..98d6b08 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -588,7 +588,6 @@ class Scheduler:
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
         # instantiate new Clock for this execution_id if necessary
-        # currently does not work with base_execution_id
         if execution_id not in self.clocks:
             if base_execution_id is not NotImplemented:
                 if base_execution_id not in self.clocks:
@@ -887,6 +886,9 @@ class Scheduler:
         else:
             termination_conds = self._combine_termination_conditions(termination_conds)
 
+        # must precede get_clock, which creates a new clock if none exists
+        self._init_counts(execution_id, base_execution_id)
+
         current_time = self.get_clock(execution_id).time
         is_satisfied_kwargs = {
             'scheduler': self,
@@ -917,7 +919,6 @@ class Scheduler:
 
         current_time.absolute_enabled = in_absolute_time_mode
 
-        self._init_counts(execution_id, base_execution_id)
         self._reset_counts_useable(execution_id)
         self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)
 
-- 
2.43.0


From 7918ec3c48105187966051ab253a1078d6ebed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 04/39] fix: JustRan is not satisfied when nothing has run yet

It raised IndexError in the first consideration set of the first run.
---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e57feca..2aa3992 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2180,6 +2180,9 @@ class JustRan(_DependencyValidation, Condition):
     def __init__(self, dependency):
         def func(dependency, scheduler=None, execution_id=None):
             logger.debug(f'checking if {dependency} in previous execution step set')
+            if len(scheduler.execution_list[execution_id]) == 0:
+                return False
+
             try:
                 return dependency in scheduler.execution_list[execution_id][-1]
             except TypeError:
-- 
2.43.0


From 9a9bbe579dba620c988853ef44cf40fc9e9cd1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 05/39] fix: do not modify the termination_conds argument while
 parsing it

String TimeScale keys raised RuntimeError (dictionary changed size
during iteration) because the new keys were added to the dictionary being
iterated over.
---
 src/graph_scheduler/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 98d6b08..689c6cf 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -639,7 +639,7 @@ class Scheduler:
         )
 
         # parse string representation of TimeScale
-        parsed_conds = termination_conds
+        parsed_conds = dict(termination_conds)
         delkeys = set()
         for scale in termination_conds:
             try:
-- 
2.43.0


From 3509780592ec7641d7aa24b4de89ad1c9b880b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 06/39] fix: reset ENVIRONMENT_SEQUENCE counts in
 end_environment_sequence

Conditions on the number of calls of a node within an
ENVIRONMENT_SEQUENCE kept counting across sequences, because only the
clock was advanced.
---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 689c6cf..1a44655 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -678,7 +678,9 @@ class Scheduler:
         if execution_id is NotImplemented:
             execution_id = self.default_execution_id
 
+        self._init_counts(execution_id)
         self._increment_time(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
+        self._reset_counts_total(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
 
     def add_graph_edge(self, sender: Hashable, receiver: Hashable) -> AddEdgeTo:
         """
-- 
2.43.0


From a2523be169932e88ffa4907dc1dc82f2b1fd9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 07/39] fix: return the condition removed by remove_condition

It returned its argument: None when a condition was removed by owner, and
the condition when none was removed.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 2aa3992..7722dc9 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -845,7 +845,7 @@ class ConditionSet(object):
         else:
             warnings.warn(f'Condition {condition} not found for owner {owner}.')
 
-        return condition
+        return condition_found
 
     def add_condition_set(
         self, conditions: Union['ConditionSet', typing_dict_condition_set]
-- 
2.43.0


From 9cc1a9e52fe39e296c7d01d73802a70a31562e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 08/39] fix: ConditionSet item assignment for an owner of
 structural conditions

It raised TypeError, calling remove_condition with an extra argument.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 7722dc9..98ab121 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -706,7 +706,7 @@ class ConditionSet(object):
     def __setitem__(self, key, value):
         if key in self.conditions_structural:
             for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(key, cond)
+                self.remove_condition(cond)
 
         self.add_condition(key, value)
 
-- 
2.43.0


From 68272dfdd6a547cbe2165fa2f9dc0dc433ee5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 09/39] fix: keep graphs in step with structural conditions
 when one fails

When modify_graph raised, graphs had been popped or pushed without
_last_handled_structural_condition_order being updated, so the next
access of the graph pushed conditions twice or popped too many.
---
 src/graph_scheduler/scheduler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 1a44655..b212bbf 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1119,15 +1119,17 @@ class Scheduler:
                 for cond in self._last_handled_structural_condition_order[common_index + 1:]:
                     self._pop_graph()
 
+            self._last_handled_structural_condition_order = (
+                self.conditions.structural_condition_order[:common_index + 1]
+            )
+
             # add dependency dicts for new structural conditions
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
                 self._push_graph(cur_graph)
-
-            self._last_handled_structural_condition_order = copy.copy(
-                self.conditions.structural_condition_order
-            )
+                # modify_graph may raise, so track each graph when it is added
+                self._last_handled_structural_condition_order.append(cond)
 
     def _push_graph(self, graph):
         try:
-- 
2.43.0


From 25264b442dd96de4e2a8e308974f502686b1ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 10/39] fix: reset CONSIDERATION_SET_EXECUTION counts for each
 consideration set

They were reset only once per PASS, so were the same as PASS counts.
---
 src/graph_scheduler/scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index b212bbf..aa855b4 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -938,6 +938,10 @@ class Scheduler:
                 and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                 and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
             ):
+                self._reset_counts_total(
+                    TimeScale.CONSIDERATION_SET_EXECUTION, execution_id
+                )
+
                 # all nodes to be added during this consideration set execution
                 cur_consideration_set_execution_exec = set()
                 # the current "layer/group" of nodes that MIGHT be added during this consideration set execution
-- 
2.43.0


From 77c1f17dd23a5d72cf756e838900c1b4d7da82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 11/39] fix: do not count executions of a set that a failing
 condition discards

If a condition raised after other nodes in its consideration set were
added, those nodes stayed counted as having run, though the set was never
yielded or recorded in execution_list.
---
 src/graph_scheduler/scheduler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index aa855b4..7518ce1 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -961,7 +961,17 @@ class Scheduler:
                         # only add each node once during a single consideration set execution, this also serves
                         # to prevent infinitely cascading adds
                         if current_node not in cur_consideration_set_execution_exec:
-                            if self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs):
+                            try:
+                                is_satisfied = self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs)
+                            except BaseException:
+                                # this set will never be yielded, so its
+                                # nodes have not run
+                                for n in cur_consideration_set_execution_exec:
+                                    for ts in TimeScale:
+                                        self.counts_total[execution_id][ts][n] -= 1
+                                raise
+
+                            if is_satisfied:
                                 cur_consideration_set_execution_exec.add(current_node)
                                 execution_list_has_changed = True
                                 cur_consideration_set_has_changed = True
-- 
2.43.0


From bfc88053cfd5627a9a768d214fccf1418b3f8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 12/39] fix: compare TimeInterval start and end as times

They were compared before being parsed, so start='2ms', end='10ms' was
rejected as strings, and mixed types raised TypeError.
---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 98ab121..cb676dc 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1368,13 +1368,13 @@ class TimeInterval(AbsoluteCondition):
                 'At least one of "repeat", "start", "end" must be specified'
             )
 
-        if start is not None and end is not None and start > end:
-            raise ConditionError(f'Start ({start}) is later than {end}')
-
         repeat = _parse_absolute_unit(repeat, unit)
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
+        if start is not None and end is not None and start > end:
+            raise ConditionError(f'Start ({start}) is later than {end}')
+
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
-- 
2.43.0


From 9865593f16838f4516e0762d748db4637273a989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 13/39] fix: use the absolute time arguments of Time

---
 src/graph_scheduler/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 53bf032..d4b9ed9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -260,10 +260,10 @@ class Time(types.SimpleNamespace):
             **{
                 _time_scale_to_attr_str(ts): v for ts, v in time_scale_values.items()
             },
-            absolute=_get_pint_unit(0, 'ms'),
-            absolute_interval=_get_pint_unit(1, 'ms'),
-            absolute_time_unit_scale=TimeScale.CONSIDERATION_SET_EXECUTION,
-            absolute_enabled=False,
+            absolute=absolute,
+            absolute_interval=absolute_interval,
+            absolute_time_unit_scale=absolute_time_unit_scale,
+            absolute_enabled=absolute_enabled,
         )
 
     def __repr__(self):
-- 
2.43.0


From ad2d8d0aedf01d900a2e822188b2995f04e749d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 14/39] fix: remove only aliased conditions in
 remove_time_scale_alias

Removing an alias such as RUN also deleted AllHaveRun from the package,
and raised AttributeError or ValueError for names outside
graph_scheduler.condition.
---
 src/graph_scheduler/time.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index d4b9ed9..c50a3e9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -733,7 +733,8 @@ def remove_time_scale_alias(name: str):
     assert len(name_aliased_time_scales) <= 1
 
     try:
-        del _time_scale_aliases[name_aliased_time_scales[0]]
+        target = name_aliased_time_scales[0]
+        del _time_scale_aliases[target]
     except (IndexError, KeyError):
         return
     else:
@@ -742,6 +743,7 @@ def remove_time_scale_alias(name: str):
         delattr(SimpleTime, name.lower())
 
         new_class_segment_name = _time_scale_to_class_str(name)
+        target_class_segment_name = _time_scale_to_class_str(target)
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
 
             if isinstance(cls, (type, types.ModuleType)):
@@ -759,10 +761,16 @@ def remove_time_scale_alias(name: str):
                     # not all modules have docstrings
                     pass
 
-            # NOTE: this could accidentally remove some unintended conditions if
-            # an alias is constructed such that its determined class name is
-            # a substring of some other Condition class name, but this is unlikely
-            if new_class_segment_name in cls_name:
+            # the alias's class name may be a substring of some other
+            # Condition class name (e.g. Run in AllHaveRun), which must be kept
+            target_cls_name = cls_name.replace(
+                new_class_segment_name,
+                target_class_segment_name
+            )
+            if (
+                target_cls_name != cls_name
+                and graph_scheduler.__dict__.get(target_cls_name) is cls
+            ):
                 delattr(graph_scheduler.condition, cls_name)
                 delattr(graph_scheduler, cls_name)
 
-- 
2.43.0


From 0e2cceda849ee1c1d3f7bceb013f854c44c40437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 15/39] fix: start runs at times that repeating absolute
 conditions can reach

A run began wherever the previous one left the absolute clock, which may
be part way through a PASS or off the current interval, and at the first
fixed time even if no PASS could start there. TimeInterval conditions
with a repeat were then never satisfied again, and the run never ended.
---
 src/graph_scheduler/scheduler.py | 62 +++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 7518ce1..0dfc493 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -313,6 +313,7 @@ import datetime
 import enum
 import fractions
 import logging
+import math
 import warnings
 from typing import Dict, Hashable, Iterable, List, Set, Union
 
@@ -901,23 +902,9 @@ class Scheduler:
         in_absolute_time_mode = len(self.get_absolute_conditions(termination_conds)) > 0
         if in_absolute_time_mode:
             current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(termination_conds)
-            # advance absolute clock time to first necessary time
-            current_time.absolute = max(
-                current_time.absolute,
-                min([
-                    min(c.absolute_fixed_points)
-                    if len(c.absolute_fixed_points) > 0 else 0
-                    for c in self.get_absolute_conditions(termination_conds).values()
-                ])
+            current_time.absolute = self._get_absolute_start_time(
+                current_time, termination_conds
             )
-            # convert to interval time unit to avoid pint floating point issues
-            current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
-
-            # .to auto converts to float even if magnitude is an int, undo
-            try:
-                current_time.absolute = _quantity_as_integer(current_time.absolute)
-            except ValueError:
-                pass
 
         current_time.absolute_enabled = in_absolute_time_mode
 
@@ -1060,6 +1047,49 @@ class Scheduler:
                 res = fractions.Fraction(numerator=numerator, denominator=denominator)
             return res * min_time_unit
 
+    def _get_absolute_start_time(self, current_time, termination_conds=None):
+        """Computes the absolute time of the first consideration set execution of a run
+        """
+        def in_interval_unit(q):
+            # convert to interval time unit to avoid pint floating point issues
+            q = q.to(interval.u)
+            # .to auto converts to float even if magnitude is an int, undo
+            try:
+                q = _quantity_as_integer(q)
+            except ValueError:
+                pass
+            return q.m
+
+        interval = current_time.absolute_interval
+        absolute_conds = self.get_absolute_conditions(termination_conds).values()
+
+        # advance absolute clock time to first necessary time
+        current = in_interval_unit(current_time.absolute)
+        first = in_interval_unit(min([
+            min(c.absolute_fixed_points)
+            if len(c.absolute_fixed_points) > 0 else _get_pint_unit(0, 'ms')
+            for c in absolute_conds
+        ]))
+
+        if (
+            self.mode is SchedulingMode.EXACT_TIME
+            or any(len(c.absolute_intervals) > 0 for c in absolute_conds)
+        ):
+            # the times at which absolute conditions can be satisfied are all
+            # a multiple of a full PASS away from the first necessary time (in
+            # exact time mode or with one consideration set) or from 0, so the
+            # PASSes of every run must start at one of them
+            pass_length = interval.m * len(self.consideration_queue)
+
+            if not self._in_exact_time_mode:
+                first = first // pass_length * pass_length
+
+            if current > first:
+                passes = round((current - first) / pass_length, _unit_registry.precision)
+                current = first + math.ceil(passes) * pass_length
+
+        return in_interval_unit(max(current, first) * interval.u) * interval.u
+
     def get_absolute_conditions(self, termination_conds=None):
         if termination_conds is None:
             termination_conds = self.termination_conds
-- 
2.43.0


From d9d75de726c813ccec9459510291859520ed929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 16/39] fix: update default conditions when the graph changes
 between runs

The conditions assigned at the first run to nodes with none specified
were kept after graph structure conditions changed the parents of those
nodes, so the schedule depended on whether run had been called before.
---
 src/graph_scheduler/scheduler.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 0dfc493..0cf93d1 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -475,6 +475,8 @@ class Scheduler:
         """
         self.conditions = ConditionSet()
         self._last_handled_structural_condition_order = None
+        # default conditions assigned and the dependencies they are based on
+        self._default_conditions = {}
 
         self._graphs = []
         self._consideration_queues = []
@@ -830,6 +832,18 @@ class Scheduler:
     def _validate_conditions(self):
         unspecified_nodes = []
         for node in self.nodes:
+            try:
+                default_cond, default_dependencies = self._default_conditions[node]
+            except KeyError:
+                pass
+            else:
+                # a default condition must follow changes to the graph
+                if (
+                    self.conditions.conditions_basic.get(node) is default_cond
+                    and default_dependencies != self.graph[node]
+                ):
+                    self.conditions.remove_condition(default_cond)
+
             if node not in self.conditions.conditions_basic:
                 dependencies = list(self.graph[node])
                 if len(dependencies) == 0:
@@ -840,6 +854,7 @@ class Scheduler:
                     cond = All(*[EveryNCalls(x, 1) for x in dependencies])
 
                 self.add_condition(node, cond)
+                self._default_conditions[node] = (cond, set(dependencies))
                 unspecified_nodes.append(node)
         if len(unspecified_nodes) > 0:
             logger.info(
-- 
2.43.0


From ab402c0edb9f2e8d8a94657bdd662d5ddb69f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 17/39] fix: TimeInterval with repeat as a termination
 condition

It raised UnboundLocalError because only an owner in the consideration
queue determined the offset.
---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index cb676dc..d6bc5a1 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1379,6 +1379,9 @@ class TimeInterval(AbsoluteCondition):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
 
+            # as a termination condition, there is no owner
+            offset = 0 * clock.time.absolute_interval
+
             if scheduler._in_exact_time_mode and start is not None:
                 offset = start
             else:
-- 
2.43.0


From 6695af5109d1ab4cc7a7ccc6f51ea884b47915f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 18/39] fix: Not and NWhen of absolute conditions are absolute

Absolute time was not enabled by, for example, Not(TimeInterval(end=5)),
so the clock never advanced past the time that it depends on.
---
 src/graph_scheduler/condition.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index d6bc5a1..75daff6 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1261,6 +1261,18 @@ class Not(Condition):
         super(Not, Not).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
 
 class NWhen(Condition):
     """NWhen
@@ -1287,6 +1299,18 @@ class NWhen(Condition):
         super(NWhen, NWhen).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
     def satis(self, condition, n, *args, scheduler=None, execution_id=None, **kwargs):
         if execution_id not in self.satisfactions:
             self.satisfactions[execution_id] = 0
-- 
2.43.0


From 0948b8938bea30aafae672fec4993b3b65cdc185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 19/39] fix: copy graphs used as keys of cached graph functions

The cached key shared its sets with the graph passed in, so modifying the
graph also modified the key. If node hashes collide (e.g. -1 and -2), the
outdated result could then be returned for the modified graph.
---
 src/graph_scheduler/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 33496dc..ded01b6 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -274,7 +274,8 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        return cached_hashable_graph_function(func, HashableDict(graph))
+        # copy, because the cache must not change when graph is modified
+        return cached_hashable_graph_function(func, HashableDict(clone_graph(graph)))
 
     return graph_function_wrapper
 
-- 
2.43.0


From 148e1a1c8141febd716a6f7d39e5bcfcdc985c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 20/39] fix: compare nodes by equality in graph structure
 conditions

Nodes are identified by equality and hash, but cycle pruning and conflict
detection compared them by identity, so with equal but distinct node
objects (e.g. strings read from a file) cycles were not pruned.
---
 src/graph_scheduler/condition.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 75daff6..332525e 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2948,7 +2948,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _get_edge_conflicts(
         self, sender, receiver, new_sender_nodes, new_receiver_nodes, old_sender_nodes, old_receiver_nodes
     ):
-        if receiver is self.owner:
+        if receiver == self.owner:
             sender_operation = 'owner_senders'
             sender_sources = old_sender_nodes[self.owner]
             sender_comparisons = set().union(*[old_sender_nodes[n] for n in self.nodes])
@@ -2957,7 +2957,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             sender_sources = old_sender_nodes[receiver]
             sender_comparisons = old_sender_nodes[self.owner]
 
-        if sender is self.owner:
+        if sender == self.owner:
             receiver_operation = 'owner_receivers'
             receiver_sources = old_receiver_nodes[self.owner]
             receiver_comparisons = set().union(*[old_receiver_nodes[n] for n in self.nodes])
@@ -3045,7 +3045,7 @@ class _GSCWithOperations(_GSCUsingNodes):
 
     def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
         len_cycle = len(cycle)
-        assert cycle[owner_idx % len_cycle] is self.owner
+        assert cycle[owner_idx % len_cycle] == self.owner
 
         owner_is_full_ancestor = True
         owner_is_full_descendant = True
@@ -3096,11 +3096,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver_idx = (i + 1) % len_c
                     receiver = c[receiver_idx]
 
-                    if receiver is self.owner:
+                    if receiver == self.owner:
                         self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                     elif (
                         receiver in base_graph[sender]
-                        and sender is not self.owner
+                        and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
                         # may have been removed in another cycle
@@ -3333,7 +3333,7 @@ class BeforeNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if self.owner in graph[n]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender is self.owner and receiver in self.nodes
+        return sender == self.owner and receiver in self.nodes
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3390,7 +3390,7 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
         return [n for n in self.nodes if graph[n] == graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return receiver is self.node or receiver is self.owner
+        return receiver == self.node or receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3439,7 +3439,7 @@ class AfterNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if n in graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender in self.nodes and receiver is self.owner
+        return sender in self.nodes and receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
-- 
2.43.0


From f1f7937398642633b4c11a6dc5fb1f4db9b7d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 21/39] fix: do not share consideration queues among Schedulers

Queues were cached by equality of graphs, so a Scheduler could yield the
equal but distinct node objects of another Scheduler.
---
 src/graph_scheduler/scheduler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 0cf93d1..8e9f755 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -330,7 +330,7 @@ from graph_scheduler.condition import (
 )
 from graph_scheduler.time import _get_pint_unit, Clock, TimeScale
 from graph_scheduler.utilities import (
-    cached_graph_function, clone_graph, networkx_digraph_to_dependency_dict,
+    clone_graph, networkx_digraph_to_dependency_dict,
     typing_graph_dependency_dict,
 )
 
@@ -359,7 +359,6 @@ class SchedulingMode(enum.Enum):
     EXACT_TIME = enum.auto()
 
 
-@cached_graph_function
 def _build_consideration_queue(
     graph: typing_graph_dependency_dict
 ) -> List[Set[Hashable]]:
-- 
2.43.0


From fc473f1d4b90410d022009cc1483b5b38c9edaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 22/39] fix: report operation conflicts between nodes that are
 not strings

TypeError was raised while formatting the ConditionError message.
---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 332525e..4515da5 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2934,8 +2934,8 @@ class _GSCWithOperations(_GSCUsingNodes):
         except TypeError:
             pass
 
-        sources_str = ','.join(sources) if len(sources) else '{}'
-        comparisons_str = ','.join(comparisons) if len(comparisons) else '{}'
+        sources_str = ','.join(map(str, sources)) if len(sources) else '{}'
+        comparisons_str = ','.join(map(str, comparisons)) if len(comparisons) else '{}'
 
         return '\t{0} {1} applied on {2} with {3} against {4}'.format(
             str(operation_arg_name).ljust(self._operations_names_max_length()),
-- 
2.43.0


From 7a371e0d78df3b82b1d2495b0bff129da2deaeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 23/39] fix: end a run when its termination conditions were met
 within a pass

---
 src/graph_scheduler/scheduler.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 8e9f755..1b789d3 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -925,8 +925,13 @@ class Scheduler:
         self._reset_counts_useable(execution_id)
         self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)
 
+        # remember termination within a PASS, because the conditions may no
+        # longer be satisfied when they are checked after that PASS
+        terminated = False
+
         while (
-            not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
+            not terminated
+            and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
             and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
         ):
             self._reset_counts_total(TimeScale.PASS, execution_id)
@@ -934,11 +939,14 @@ class Scheduler:
             execution_list_has_changed = False
             cur_index_consideration_queue = 0
 
-            while (
-                cur_index_consideration_queue < len(self.consideration_queue)
-                and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
-                and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
-            ):
+            while cur_index_consideration_queue < len(self.consideration_queue):
+                if (
+                    termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
+                    or termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
+                ):
+                    terminated = True
+                    break
+
                 self._reset_counts_total(
                     TimeScale.CONSIDERATION_SET_EXECUTION, execution_id
                 )
@@ -1005,7 +1013,7 @@ class Scheduler:
                 cur_index_consideration_queue += 1
 
             # if an entire pass occurs with nothing running, add an empty consideration set execution
-            if not execution_list_has_changed and not in_absolute_time_mode:
+            if not execution_list_has_changed and not in_absolute_time_mode and not terminated:
                 self.execution_list[execution_id].append(set())
                 yield self.execution_list[execution_id][-1]
 
-- 
2.43.0


From 9a00da7fa4b96cc2b29671eb7fba8384930b75a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 24/39] fix: do not share dependency sets between nodes in
 graph structure conditions

---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 4515da5..4dd9f57 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3165,7 +3165,8 @@ class _GSCWithOperations(_GSCUsingNodes):
                         sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                     )
                     conflict_strings.extend(edge_conflicts)
-            result_graph[receiver] = new_sender_nodes[receiver]
+            # copied because some operations return the same set for several nodes
+            result_graph[receiver] = set(new_sender_nodes[receiver])
 
         # sender has an operation that changes its receiver nodes
         # ([owner/subject]_receiver)
-- 
2.43.0


From 156c5bd37cf1b607a5642380a007c41cf62ebf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 25/39] fix: compare absolute times within the supported
 precision

---
 src/graph_scheduler/condition.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 4dd9f57..156e83e 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -461,6 +461,11 @@ def _quantity_as_integer(q):
         raise ValueError(f'{q} cannot be safely converted to integer magnitude')
 
 
+def _difference_in_precision(q1, q2):
+    # differences too small to be represented are floating point errors
+    return round(q1 - q2, _unit_registry.precision)
+
+
 def _reduce_quantity_to_integer(q):
     # find the largest time unit for which q can be expressed as an integer
     for u in filter(lambda u: u <= q.u, _pint_all_time_units):
@@ -1414,22 +1419,25 @@ class TimeInterval(AbsoluteCondition):
                         offset = i * clock.time.absolute_interval
 
             if repeat is not None:
-                satisfied &= round(
-                    (clock.time.absolute - offset) % repeat,
-                    _unit_registry.precision
-                ) == 0
+                remainder = (clock.time.absolute - offset) % repeat
+                satisfied &= (
+                    round(remainder, _unit_registry.precision) == 0
+                    or _difference_in_precision(remainder, repeat) == 0
+                )
 
             if start is not None:
+                from_start = _difference_in_precision(clock.time.absolute, start)
                 if start_inclusive:
-                    satisfied &= clock.time.absolute >= start
+                    satisfied &= from_start >= 0
                 else:
-                    satisfied &= clock.time.absolute > start
+                    satisfied &= from_start > 0
 
             if end is not None:
+                from_end = _difference_in_precision(clock.time.absolute, end)
                 if end_inclusive:
-                    satisfied &= clock.time.absolute <= end
+                    satisfied &= from_end <= 0
                 else:
-                    satisfied &= clock.time.absolute < end
+                    satisfied &= from_end < 0
 
             return satisfied
 
@@ -1489,11 +1497,12 @@ class TimeTermination(AbsoluteCondition):
 
         def func(scheduler, execution_id):
             clock = scheduler.get_clock(execution_id)
+            from_t = _difference_in_precision(clock.time.absolute, t)
 
             if inclusive:
-                return clock.time.absolute >= t
+                return from_t >= 0
             else:
-                return clock.time.absolute > t
+                return from_t > 0
 
         super().__init__(func, t=t, inclusive=inclusive)
 
-- 
2.43.0


From 81fd9027e0047fc439a45732b943f467eee0975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 26/39] fix: time advances in exact time mode if a fixed point
 is 0

---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 1b789d3..78fd3c1 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1043,7 +1043,8 @@ class Scheduler:
         for c in self.get_absolute_conditions(termination_conds).values():
             intervals.extend(c.absolute_intervals)
             if self.mode is SchedulingMode.EXACT_TIME:
-                intervals.extend(c.absolute_fixed_points)
+                # time 0 can be reached with any interval between sets
+                intervals.extend(fp for fp in c.absolute_fixed_points if fp.m != 0)
 
         if len(intervals) == 0:
             return self.default_absolute_time_unit
-- 
2.43.0


From 07da56757bc7128b0732f54635332a2f0e23cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 27/39] fix: absolute times do not overflow

---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 78fd3c1..fab3649 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1058,7 +1058,8 @@ class Scheduler:
 
             # numerator is the largest possible length of a pass
             # denominator evenly divides this length by number of consideration set executions
-            numerator = np.gcd.reduce([interval.m for interval in intervals])
+            # as a python int, because numpy ints in a fraction can overflow
+            numerator = int(np.gcd.reduce([interval.m for interval in intervals]))
             if self.mode == SchedulingMode.STANDARD:
                 denominator = len(self.consideration_queue)
             elif self.mode == SchedulingMode.EXACT_TIME:
-- 
2.43.0


From ec708b01cc3487538b8cea8b6d7fec2648478667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 28/39] fix: express absolute times in decimal units

---
 src/graph_scheduler/condition.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 156e83e..f288fe7 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -412,6 +412,7 @@ import functools
 import inspect
 import itertools
 import logging
+import math
 import operator
 import warnings
 from typing import Callable, Dict, Hashable, Iterable, List, Set, Union
@@ -430,11 +431,18 @@ _additional__all__ = ['ConditionError', 'ConditionSet', 'Operation']
 
 logger = logging.getLogger(__name__)
 
+
+def _is_decimal_time_unit(u):
+    exponent = math.log10((1 * u).to(_unit_registry.s).m)
+    return round(exponent, _unit_registry.precision) == round(exponent)
+
+
+# units related by powers of 10, without e.g. semiseconds or kibiseconds
 _pint_all_time_units = sorted(
-    set([
+    filter(_is_decimal_time_unit, set([
         getattr(_unit_registry, f'{x}s')
         for x in _unit_registry._prefixes.keys()
-    ]),
+    ])),
     reverse=True
 )
 
-- 
2.43.0


From 92f4b6aca1253c5e68b0a699df3082edf4401dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 29/39] fix: remove a structural condition given by its owner

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index f288fe7..e72e5be 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -844,8 +844,8 @@ class ConditionSet(object):
                         )
                     )
                 elif len(owner_struct_conds) == 1:
-                    remove_structural_condition(owner_struct_conds[0])
                     condition_found = owner_struct_conds[0]
+                    remove_structural_condition(condition_found)
         else:
             if condition is owner_basic_cond:
                 remove_basic_condition(condition)
-- 
2.43.0


From e3a8e87062924537b03fdc00a3149b0425b48cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 30/39] fix: parts of a composite condition follow when it is
 given to another owner

---
 src/graph_scheduler/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e72e5be..77daec3 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1155,10 +1155,12 @@ class Never(Condition):
 class CompositeCondition(Condition):
     @Condition.owner.setter
     def owner(self, value):
+        previous_owner = self.owner
         super(CompositeCondition, CompositeCondition).owner.__set__(self, value)
         for cond in self.args:
             logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
-            if cond.owner is None:
+            # a condition owned only as part of this one follows it
+            if cond.owner is None or cond.owner == previous_owner:
                 cond.owner = value
 
     @property
-- 
2.43.0


From bd1787396da6e55402f0bd42c2c5e83023e074b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 31/39] fix: structural conditions do not modify the operations
 dict given to them

---
 src/graph_scheduler/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 77daec3..3715516 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3243,7 +3243,9 @@ class _GSCWithOperations(_GSCUsingNodes):
                     raise ConditionError(
                         f'{_format_arg(n)} in {operation_arg_name} but not in nodes {nodes}'
                     )
-                subject[n] = self._parse_operation_arg(v)
+
+            # a new dict, because the argument must not be modified
+            subject = {n: self._parse_operation_arg(v) for n, v in subject.items()}
 
             nodes_missing_subject_operations = subject.keys() - set(nodes)
             if len(nodes_missing_subject_operations) > 0:
-- 
2.43.0


From be2d8a3f4db4849ed90c43abbeb6472d27a81ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 32/39] fix: accept functions that are not hashable or weakly
 referenceable

---
 src/graph_scheduler/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index ded01b6..2083371 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -51,6 +51,9 @@ def prune_unused_args(func, args=None, kwargs=None):
     except KeyError:
         sig = inspect.signature(func)
         _unused_args_sig_cache[func] = sig
+    except TypeError:
+        # func is not hashable or cannot be weakly referenced
+        sig = inspect.signature(func)
 
     has_args_param = False
     has_kwargs_param = False
-- 
2.43.0


From 83f3ec527b230ad0fc5dfb1581ac6455d336d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 33/39] fix: pass arguments to functions with positional-only
 parameters

---
 src/graph_scheduler/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 2083371..567389c 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -65,6 +65,8 @@ def prune_unused_args(func, args=None, kwargs=None):
             has_args_param = True
         elif param.kind is inspect.Parameter.VAR_KEYWORD:
             has_kwargs_param = True
+        elif param.kind is inspect.Parameter.POSITIONAL_ONLY:
+            count_positional += 1
         elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
             if param.default is inspect.Parameter.empty:
                 count_positional += 1
-- 
2.43.0


From d8b7b6a3497e52efab20a27914141f93605b84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 34/39] fix: refuse operations given for only some of the
 subjects of a condition

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 3715516..101abee 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3247,7 +3247,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             # a new dict, because the argument must not be modified
             subject = {n: self._parse_operation_arg(v) for n, v in subject.items()}
 
-            nodes_missing_subject_operations = subject.keys() - set(nodes)
+            nodes_missing_subject_operations = set(nodes) - subject.keys()
             if len(nodes_missing_subject_operations) > 0:
                 raise ConditionError(
                     f'{operation_arg_name} specified as a dict but does not'
-- 
2.43.0


From fc7a0304dbf221906feed2ea397f2d1a3bee4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 35/39] fix: do not reconnect a node to itself

When the owner of a structural condition has a node as both sender and
receiver, as in a graph with a cycle left by another condition,
reconnect_non_subject_receivers added an edge from that node to itself.
Its default condition was never satisfied.
---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 101abee..e454168 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3036,6 +3036,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                 for receiver in orig_receivers_old[self.owner]:
                     if (
                         receiver not in self.nodes
+                        and receiver != sender
                         and self.owner in base_graph[receiver]
                         and sender in base_graph[self.owner]
                         and (
-- 
2.43.0


From 0fdd3e3a1bace17af371f6545ef4b3c73ba2f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 36/39] fix: do not count keyword-only parameters as positional

---
 src/graph_scheduler/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 567389c..384963a 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -68,7 +68,10 @@ def prune_unused_args(func, args=None, kwargs=None):
         elif param.kind is inspect.Parameter.POSITIONAL_ONLY:
             count_positional += 1
         elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
-            if param.default is inspect.Parameter.empty:
+            if (
+                param.default is inspect.Parameter.empty
+                and param.kind is not inspect.Parameter.KEYWORD_ONLY
+            ):
                 count_positional += 1
             func_kwargs_names.add(name)
 
-- 
2.43.0


From 4adf9d01aade5d4572ff5d46101391f45b6503d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 37/39] fix: compare the start and end of TimeInterval within
 precision

A start equal to the end in another unit, as start='8000 ns' and
end='8 us', was refused as later than the end, because of the floating
point error of the conversion.
---
 src/graph_scheduler/condition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e454168..f61b7c9 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1411,7 +1411,11 @@ class TimeInterval(AbsoluteCondition):
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
-        if start is not None and end is not None and start > end:
+        if (
+            start is not None
+            and end is not None
+            and _difference_in_precision(start, end) > 0
+        ):
             raise ConditionError(f'Start ({start}) is later than {end}')
 
         def func(scheduler, execution_id):
-- 
2.43.0


From bf5445618a8d09792cdafec97e60fc48e23d0944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 38/39] fix: refuse operations of structural conditions that do
 not exist

They were accepted, and raised TypeError each time the graph was read,
after the condition had been added.
---
 src/graph_scheduler/condition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index f61b7c9..488ec72 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3229,6 +3229,10 @@ class _GSCWithOperations(_GSCUsingNodes):
         try:
             return Operation.__members__[str.upper(operation)]
         except (KeyError, TypeError):
+            if not callable(operation):
+                raise ConditionError(
+                    f'{_format_arg(operation)} is not an Operation'
+                ) from None
             return operation
 
     def _handle_subject_arg(
-- 
2.43.0


From 18263bc52c0e834ace4eb5344ca835303d41c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:06 +0000
Subject: [PATCH 39/39] fix: let the indices of Threshold be an iterator

The first evaluation used it up, so that later ones failed.
---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 488ec72..0ecb57f 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2549,6 +2549,9 @@ class Threshold(_DependencyValidation, Condition):
 
         if isinstance(indices, TimeScale):
             indices = [indices.value]
+        elif isinstance(indices, collections.abc.Iterator):
+            # the first evaluation would use it up
+            indices = list(indices)
         elif indices is not None and not isinstance(indices, collections.abc.Iterable):
             indices = [indices]
 
-- 
2.43.0

