"""Writes /verif/properties.jsonl (kept as code only to keep the JSON valid)."""
import json
import os

SCH = 'src/graph_scheduler/scheduler.py'
CON = 'src/graph_scheduler/condition.py'
TIM = 'src/graph_scheduler/time.py'
UTI = 'src/graph_scheduler/utilities.py'
INI = 'src/graph_scheduler/__init__.py'

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
            'observe_at': observe,
            'hook_needed': hook,
        },
    })


p('P01', 'Every execution set is one the documented algorithm allows',
  'Each set that a run yields, and the point at which the run ends, is one that the documented scheduling algorithm allows for the current graph, conditions and history: consideration sets are visited in queue order, a node is in the set exactly when its condition became satisfied while its consideration set was considered, and a set is empty only when a whole pass executed nothing (or absolute time is in use). Within a consideration set, executions count at once for the other nodes of the set.',
  ['schedules', 'histories', 'inputs'],
  'all acyclic graphs, condition assignments (nested, mixed families), termination conditions, consecutive runs, sequence ends, world changes between steps, and interleavings of several runs',
  'Tests fix about 400 hand-written graph/condition pairs and compare one complete output list each; the algorithm is a fixpoint over mutable counters whose state after any prefix of steps, runs and interruptions is what determines the next set.',
  [SCH, CON],
  [('consideration loop', 'Scheduler.run'), ('consideration queue', 'Scheduler.consideration_queue')],
  ['sets yielded by Scheduler.run', 'end of the generator'],
  [('counts', 'executions per time scale and usable by each node', 'Scheduler.counts_total / counts_useable')])

p('P02', 'Execution contexts of one scheduler do not affect each other',
  'Runs of one scheduler under different execution_ids may be interleaved step by step, aborted, failed or abandoned, and each execution_id still gets exactly the sets, clock, counts and recorded history it would get alone. A new execution_id starts from nothing unless a base is named, in which case it starts from a copy of the state of the base (clock included) that is independent afterwards.',
  ['schedules', 'histories', 'fault_sequences', 'crash_points'],
  'all interleavings of runs under any number of execution_ids, with closes, injected exceptions and abandoned generators at any step',
  'Tests run at most two execution_ids, one after the other and to completion.',
  [SCH, CON],
  [('state kept per execution_id', 'Scheduler._init_counts, get_clock'), ('per-id satisfaction counts', 'NWhen')],
  ['sets yielded per execution_id', 'get_clock(execution_id)', 'execution_list[execution_id]'])

p('P03', 'Schedulers do not affect each other, their inputs, or shared nodes',
  'Any number of schedulers, over equal or different graphs and used alternately or from different threads, each behave as if they were the only one in the process, and yield their own node objects. Constructing, modifying and running a scheduler never modifies the graph, condition collection or termination dictionary that it was given, and later changes to those by the caller do not change the scheduler.',
  ['schedules', 'histories', 'inputs'],
  'all interleavings (between steps, and between lines of code for threads) of schedulers with separate condition objects; all caller mutations of the inputs',
  'Tests build one scheduler at a time; state shared across schedulers (caches keyed by graphs, module-level dictionaries, default arguments) shows up only in histories with several.',
  [SCH, CON, UTI],
  [('graph copies', 'clone_graph'), ('cached graph functions', 'cached_graph_function'), ('argument pruning cache', 'prune_unused_args')],
  ['sets yielded by each scheduler', 'identity of yielded nodes', 'the arguments after the calls'])

p('P04', 'The clock counts exactly the completed units of time',
  'At every step of every history, the time of an execution_id is the number of completed units of each time scale within the enclosing unit, and the totals reported for any time scale relative to a coarser one (environment state update or above), for the current or any past base unit, equal the number of completed finer units since that base unit began. A unit in progress (a set just yielded, an interrupted pass or state update) is not counted, the previous time is the time before the unit completed last, a run closes one environment state update unless told not to, a history kept down to any other depth answers in the same way for the scales that it records, and units of time are never lost, repeated or attributed to another execution_id.',
  ['histories', 'schedules', 'crash_points'],
  'all histories of runs, interruptions, skipped increments and ends of environment sequence, over all pairs of query time scale and base time scale (environment state update and above, the documented depth of the history) and base indices',
  'Tests check a few increments on a bare clock and a few totals in a linear run; the history tree branches at every state update and sequence.',
  [TIM, SCH],
  [('history tree', 'TimeHistoryTree'), ('increment and reset of finer scales', 'Time'), ('increments at the end of units', 'Scheduler.run, end_environment_sequence')],
  ['get_clock().time', 'get_clock().previous_time', 'get_clock().get_total_times_relative', 'get_clock().simple_time'])

p('P05', 'Call-count conditions agree with the executions delivered',
  'At any point of any history, a condition on the number of calls of nodes (before, at or after n calls, combined calls, all have run) is satisfied exactly when it is true of the number of delivered sets that contain those nodes within the current unit of its time scale, from the consideration set to the life of the execution_id. EveryNCalls is satisfied exactly when the dependency was executed at least n times since the owner last executed in this run, and JustRan exactly when the dependency is in the last set delivered.',
  ['histories', 'schedules', 'crash_points'],
  'all histories of interleaved, consecutive, interrupted and failed runs, all call-count conditions, time scales and n',
  'Tests use mostly the default time scale within one or two complete runs; the counters must be reset or kept correctly at each boundary of each scale, after every abort and for each context.',
  [CON, SCH],
  [('counts per time scale', 'Scheduler.run, _reset_counts_total'), ('calls usable by each node', 'EveryNCalls'), ('last set', 'JustRan')],
  ['is_satisfied of probe conditions between steps', 'sets yielded'])

p('P06', 'Time-based conditions agree with completed units of time',
  'At any point of any history, each condition on consideration set executions, passes, environment state updates or environment sequences (before, at, after, after n, every n, start of) is satisfied exactly when it is true of the number of units of that kind completed so far within the enclosing unit of the given time scale (environment state update or above) for that execution_id.',
  ['histories', 'schedules', 'crash_points'],
  'all histories of consecutive, interleaved, interrupted runs and ends of sequences; all time-based conditions, time scales and n',
  'Tests evaluate each condition in one or two complete runs, mostly with the default time scale.',
  [CON, TIM],
  [('relative totals', 'Clock.get_total_times_relative'), ('time-based conditions', 'Before/At/After/EveryN conditions')],
  ['is_satisfied of probe conditions between steps', 'sets yielded'])

p('P07', 'A run ends exactly when its termination conditions say so',
  'No set is delivered after a termination condition of the run became true, and a run does not end before one is; the conditions given to a run replace those of the scheduler for that run and those time scales only. By default a run ends when every node has executed in it, conditions given by the name of a time scale act like those given by the time scale, and setting or resetting the conditions of the scheduler affects exactly the runs started afterwards.',
  ['histories', 'schedules', 'inputs'],
  'all termination conditions over both scales, from the scheduler, its setter or the run, in any order of runs and changes, including conditions already true at the start and runs that overlap a change',
  'Tests check single runs with one termination condition; precision (not one set late or early) and non-persistence must hold at every consideration set and across runs.',
  [SCH, CON],
  [('checks between consideration sets', 'Scheduler.run'), ('combination with base conditions', 'Scheduler.termination_conds'), ('parsing', '_parse_termination_conditions')],
  ['end of the generator', 'Scheduler.termination_conds'])

p('P08', 'An interrupted or failing run leaves the scheduler consistent',
  'When a run is closed, abandoned, or ended by an exception (thrown in by the caller, or raised by a condition or by a node while a set is being determined), the exception reaches the caller unchanged, sets already delivered stay counted and recorded exactly once, a set not delivered leaves no trace, and the next run under the same or another execution_id behaves as after any other end of a run. A failed run never prevents the later ones.',
  ['fault_sequences', 'crash_points', 'histories'],
  'all points at which a condition can raise or a generator can be closed, abandoned or thrown into, repeated in any order and over several execution_ids',
  'No test interrupts a run or makes a condition raise in the middle of one.',
  [SCH],
  [('generator', 'Scheduler.run'), ('counts of a discarded set', 'Scheduler.run'), ('state reset at the start of a run', 'Scheduler.run')],
  ['exceptions from next()/throw()', 'sets yielded afterwards', 'probe conditions', 'execution_list'])

p('P09', 'Adding, replacing and removing basic conditions acts at once and completely',
  'After any history of adding, replacing and removing basic conditions, each node is governed by the last condition given to it and not removed, or by the default if there is none, from the next time it is considered, and no other node is affected; additions and replacements act in runs in progress too, removals in the runs started afterwards. Removal returns the condition that was removed and releases its owner; failed removals change nothing.',
  ['histories', 'schedules'],
  'all histories of additions (single, sets, dictionaries, item assignment) and replacements between any steps of any runs, and of removals between runs',
  'Tests add conditions before a single run and check the condition set as data.',
  [CON, SCH],
  [('basic conditions by owner', 'ConditionSet'), ('default conditions', 'Scheduler._validate_conditions')],
  ['sets yielded', 'Scheduler.conditions', 'return value of remove_condition', 'owner of conditions'])

p('P10', 'The graph is the base graph modified by the current structural conditions',
  'After any history of giving graph structure conditions (to the constructor, one by one, or several at once in a dictionary or ConditionSet), of removing them, of additions that fail, and of replacing the whole condition set, the graph is the base graph modified by the conditions that remain, in the order in which they were added; the consideration queue and its indices are the topological layers of that graph, in which every node occurs exactly once and after all of its parents. The result does not depend on intermediate states, on when the graph was read, or on runs in between.',
  ['histories', 'fault_sequences', 'inputs'],
  'all histories of additions (single and in collections), removals, failed additions and reads, for all kinds of structural conditions and acyclic base graphs',
  'Tests cover one fixed history of six additions and one replacement; the stack of modified graphs is maintained incrementally and lazily.',
  [SCH, CON],
  [('stack of graphs', 'Scheduler._handle_modified_structural_conditions'), ('modification', 'GraphStructureCondition.modify_graph'), ('layers', 'consideration_queue')],
  ['Scheduler.graph', 'consideration_queue', 'consideration_queue_indices', 'sets yielded'])

p('P11', 'Structural conditions impose the order they name',
  'Adding BeforeNode(s), AfterNode(s), AddEdgeTo or RemoveEdgeFrom makes, respectively, the owner a parent of its subjects, a child of them, adds, or removes exactly that edge, and WithNode gives the owner and its subject the same parents, so that they are considered in that relation in every pass of every later run. With default options, a condition on a single subject leaves every other node after all of the nodes that it was after before, BeforeNode never creates a cycle, and no node or edge appears that is unrelated to the owner and its subjects. With other operations, the parents and children of the owner and its subjects become what the operations yield for those they had, and operations that contradict each other, or are not given for exactly the subjects, are refused. A condition applied directly to a graph leaves that graph unmodified and gives one that shares no part of it. Conditions on nodes that are not in the graph are refused, and a graph that is left with a cycle is refused when a run starts, never scheduled.',
  ['inputs', 'histories', 'configurations'],
  'all acyclic graphs, owners and subjects, with default and other operations, applied in any order and followed by runs',
  'Tests compare about a hundred hand-computed graphs; the pruning of cycles and reconnection of neighbours works on arbitrary graphs and on graphs already modified.',
  [CON],
  [('operations on neighbours', '_GSCWithOperations._process'), ('required edges', 'BeforeNodes, AfterNodes, WithNode'), ('cycle pruning', '_handle_prune_cycles')],
  ['Scheduler.graph', 'sets yielded'])

p('P12', 'Absolute time advances evenly and absolute conditions act at their times',
  'While absolute conditions are in use, every consideration set is delivered with its absolute time, which advances by the same interval from set to set and never goes back over any history of runs; a TimeInterval lets its owner execute exactly at the reachable times that its start, end, repeat and their inclusiveness allow, and a TimeTermination ends the run at the first time that it allows. In exact time mode all nodes are considered together at every time, and every start, end and repeat time that must be met is one of the times considered.',
  ['histories', 'inputs', 'configurations', 'schedules'],
  'all combinations of absolute conditions and units in both modes, over consecutive, interrupted and interleaved runs with different conditions',
  'Tests check single runs from time zero; the alignment of the clock in later runs, after an interruption or a change of conditions is not covered.',
  [SCH, CON, TIM],
  [('interval', 'Scheduler._get_absolute_consideration_set_execution_unit'), ('start of a run', 'Scheduler.run'), ('conditions', 'TimeInterval, TimeTermination')],
  ['execution_timestamps', 'get_clock().time.absolute', 'sets yielded'])

p('P13', 'Unspecified nodes follow their parents, independently of order and identity',
  'A node without a condition executes exactly when it is considered and each of its current parents has executed since it last did, so with defaults alone every pass executes every node once, after its parents, and in standard mode no set ever contains a node together with an ancestor. The schedule does not depend on the hashes, kind or insertion order of the nodes, the format of the graph, or the order in which independent conditions were given.',
  ['configurations', 'inputs', 'schedules'],
  'all acyclic graphs, node types and hash values, graph formats, and permutations of insertion order, with conditions whose outcome is order-independent',
  'Tests use the hash order of one process; set iteration order is a source of nondeterminism that they cannot vary.',
  [SCH, CON, UTI],
  [('default conditions', 'Scheduler._validate_conditions'), ('topological layers', '_build_consideration_queue'), ('fixpoint within a set', 'Scheduler.run')],
  ['sets yielded'])

p('P14', 'A run progresses and ends as soon as its conditions allow',
  'A run whose nodes cannot execute delivers one empty set per pass and returns control to the caller each time, and once conditions allow execution again (because the world, the clock or the conditions changed) nodes execute within the next pass and the run ends within the bound that its conditions imply. What nodes wait for is determined by the clock, the recorded executions and the state of the world alone, so nothing that a stalled, interrupted or failed run leaves behind blocks a later one.',
  ['histories', 'fault_sequences', 'schedules'],
  'all histories that end with conditions that permit progress, including stalls of any length and absolute time left anywhere by earlier runs',
  'Tests have no stalled run, and a run that never ends would hang them rather than fail.',
  [SCH, CON],
  [('empty set of an idle pass', 'Scheduler.run'), ('start of absolute time', 'Scheduler.run')],
  ['sets yielded within a bound', 'end of the generator'])

p('P15', 'Observation and the environment do not influence a schedule',
  'Schedules are the same with debug logging on or off at any step, under any jumps of the wall clock and any garbage collection, and when the graph, queue, conditions, clocks, times and their string representations are read, or conditions evaluated that keep no count, between any steps. Repeating a history gives the same schedule.',
  ['schedules', 'configurations', 'histories'],
  'all histories with observations, collections, log level changes and wall-clock jumps inserted between any steps',
  'Tests do not compare observed with unobserved runs.',
  [SCH, CON, TIM, UTI],
  [('lazy handling on reads', 'Scheduler.graph'), ('logging', 'enable_debug_logging'), ('clock creation on reads', 'Scheduler.get_clock')],
  ['sets yielded with and without the insertions'])

p('P16', 'Composite conditions mean what their parts mean, at every evaluation',
  'At any point of any history All, Any, Not and their nestings are satisfied exactly when the same combination of their parts is, whatever the families of the parts. NWhen is satisfied on exactly the first n evaluations, per execution_id, at which its part is satisfied, over all runs, interruptions and other contexts.',
  ['histories', 'inputs', 'schedules'],
  'all nestings of composites over all families of basic conditions, evaluated at any step of interleaved histories',
  'Tests evaluate a few fixed combinations in complete runs under one execution_id.',
  [CON],
  [('composites', 'All, Any, Not, NWhen'), ('ownership of parts', 'CompositeCondition.owner')],
  ['sets yielded', 'is_satisfied of probe conditions between steps'])

p('P17', 'State-dependent conditions use the current state of the right context',
  'WhenFinished, WhenFinishedAny, WhenFinishedAll, Threshold, While and WhileNot are evaluated on the state that nodes and user functions have when the owner is considered, for the execution_id of the run, and functions receive the arguments given with the condition and with the run. Any change of the state between steps takes effect at the next consideration, and the conditions never remember earlier values.',
  ['schedules', 'histories', 'inputs'],
  'all sequences of state changes between steps of interleaved runs with different execution_ids and run arguments',
  'Tests set the state once before a run or in a fixed pattern under one execution_id.',
  [CON, UTI],
  [('node state', 'WhenFinished*, Threshold'), ('user functions', 'Condition.is_satisfied, call_with_pruned_args')],
  ['sets yielded', 'arguments recorded by user functions'])

p('P18', 'Time scale aliases can be set and removed at any time without other effects',
  'While an alias of a time scale is set, the time scale, the attributes of times and the names of conditions are available under the alias with the same meaning, and after it is removed the public names are exactly those there were before it was set. Schedules in progress, and other aliases, are not affected.',
  ['histories', 'configurations'],
  'all histories of setting and removing aliases (one per time scale at a time) between steps of runs',
  'Tests set one alias once per test and never check what removal leaves.',
  [TIM, INI],
  [('aliases', 'set_time_scale_alias, remove_time_scale_alias')],
  ['public names of the package', 'attributes of times', 'sets yielded'])

p('P19', 'The recorded history is exactly what was delivered',
  'At every step of every history, the recorded executions of an execution_id are the sets delivered under it, in order, each exactly once, over all runs, and a completed run returns them; timestamps are recorded for exactly the sets delivered while absolute time is in use. The times of creation and of the last completed sequence are read from the wall clock and nothing else is.',
  ['histories', 'crash_points', 'schedules'],
  'all histories of interleaved, consecutive, interrupted and failed runs under several execution_ids, with wall-clock jumps',
  'Tests compare the record once, after one complete run.',
  [SCH],
  [('record', 'Scheduler.execution_list, execution_timestamps'), ('dates', 'date_creation, date_last_run_end')],
  ['execution_list', 'execution_timestamps', 'return value of a run', 'date_last_run_end'])

p('P20', 'Graph queries answer for the current content of the graph',
  'The ancestors, descendants, receivers and simple cycles reported for a graph are those of its content at the time of the call, for any history of changes in place, queries and other graphs, equal or not, whatever the hashes of the nodes. Queries do not modify the graph, and copies and converted graphs do not change with the original.',
  ['histories', 'inputs'],
  'all histories of in-place changes of several graphs and queries on them, with colliding and non-colliding node hashes',
  'Tests call each function once on a few fixed graphs; the results are cached by content and the keys are mutable.',
  [UTI],
  [('cache by content', 'cached_graph_function, HashableDict'), ('copies', 'clone_graph')],
  ['return values of the queries', 'the graphs after the queries'])

p('P21', 'An image of a graph shows that graph, or the failure is reported',
  'An image shows exactly the nodes and dependencies that the graph has at the time of the call, in the requested format and in the requested file only, and making it changes neither the graph nor any schedule. When pydot or graphviz is missing, the format is unknown, graphviz dies, or the disk or a node fails at any point, the documented exception (or the one of the failing part) is raised, success is never reported, and the next image is not affected.',
  ['crash_points', 'histories', 'inputs'],
  'all graphs in every accepted form, histories of changes in place and images of them, and all failures of the renderer, its process, the disk and nodes during one',
  'Tests write images of two fixed graphs with a working renderer and disk, and only check that a file appears.',
  [UTI],
  [('images and their failures', 'output_graph_image'), ('conversion', 'dependency_dict_to_networkx_digraph')],
  ['program given to graphviz', 'files written', 'exceptions raised', 'what is printed', 'the graph afterwards'])

p('P22', 'Invalid requests are refused, and change nothing',
  'At any point of any history, an invalid request (termination conditions, base execution_id, execution_id, graph, condition, owner, operations of a graph structure condition, alias, unit of time that does not exist, condition that cannot be removed, evaluation without a scheduler) raises the documented exception. The scheduler, its clocks, histories, conditions and graph, runs in progress - also one under the same execution_id -, other schedulers and the arguments are afterwards as they were before.',
  ['histories', 'inputs', 'schedules'],
  'all invalid requests of many kinds, made between any two steps of interleaved runs under several execution_ids',
  'Tests check that a few requests raise, on new objects, and not what is left behind.',
  [SCH, CON, TIM],
  [('termination conditions', 'Scheduler._parse_termination_conditions'), ('execution_ids', 'Scheduler._init_counts'),
   ('owners and removal', 'ConditionSet.add_condition, remove_condition'), ('aliases', 'set_time_scale_alias')],
  ['exceptions raised', 'public state of the scheduler before and after', 'schedules that follow'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
