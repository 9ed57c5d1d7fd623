"""Planted bugs: sources of /verif/seeded (written by make_seeded.py). No check
reads this file."""
S = 'src/graph_scheduler/scheduler.py'
C = 'src/graph_scheduler/condition.py'
T = 'src/graph_scheduler/time.py'
U = 'src/graph_scheduler/utilities.py'

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- P01
bug('p01-cascade', 'P01',
    [(S, '''                while True:
                    cur_consideration_set_has_changed = False
                    for current_node in cur_consideration_set:
''', '''                while True:
                    for current_node in cur_consideration_set:
                        cur_consideration_set_has_changed = False
''')],
    'a consideration set in which a node that is iterated early becomes satisfied only because of a later one, and the node iterated last is not satisfied',
    'cascading within a consideration set stops after one pass over it if the last node iterated did not execute',
    '''
s = gs.Scheduler(graph={0: set(), 1: set(), 2: set()}, conditions=None)
s.add_condition(0, gs.AfterNCalls(1, 1))
s.add_condition(1, gs.Always())
s.add_condition(2, gs.AtPass(7))
run = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)})
out = list(run)
assert out == [{0, 1}], out
''')

# ---------------------------------------------------------------- P02
bug('p02-base-shares-counts', 'P02',
    [(S, '''                self.counts_total[execution_id] = {
                    ts: {n: self.counts_total[base_execution_id][ts][n] for n in self.nodes} for ts in TimeScale
                }
''', '''                self.counts_total[execution_id] = dict(self.counts_total[base_execution_id])
''')],
    'a run with base_execution_id, then further runs of one of the two execution_ids',
    'the execution counts of a context started from a base are those of the base',
    '''
L = gs.TimeScale.LIFE
s = gs.Scheduler(graph={'a': set()})
list(s.run(execution_id='x'))
list(s.run(execution_id='y', base_execution_id='x'))
assert s.counts_total['y'][L]['a'] == 2, s.counts_total
assert s.counts_total['x'][L]['a'] == 1, s.counts_total
''')

bug('p02-reset-useable-all', 'P02',
    [(S, '''        self.counts_useable[execution_id] = {
            node: {n: 0 for n in self.nodes} for node in self.nodes
        }

    def _combine''', '''        for eid in self.counts_useable if execution_id == self.default_execution_id else [execution_id]:
            self.counts_useable[eid] = {
                node: {n: 0 for n in self.nodes} for node in self.nodes
            }

    def _combine''')],
    'a run of the default execution_id that starts while a run under another one is between the execution of a node and that of its dependent',
    'starting a run of the default context clears the calls that nodes of other contexts wait for',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
g = s.run(execution_id='x')
assert next(g) == {'a'}
assert next(s.run()) == {'a'}
assert next(g) == {'b'}
''')

bug('p02-pass-flag-shared', 'P02',
    [(S, '''            execution_list_has_changed = False
            cur_index''', '''            self._execution_list_has_changed = False
            cur_index'''),
     (S, '''                                execution_list_has_changed = True
''', '''                                self._execution_list_has_changed = True
'''),
     (S, '''            if not execution_list_has_changed and not in_abs''', '''            if not self._execution_list_has_changed and not in_abs''')],
    'two contexts interleaved so that one starts a pass, or executes something, while another is within a pass',
    'whether anything executed in a pass is remembered for the scheduler and not for the run, so interleaved runs deliver superfluous empty sets or omit them',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('b', gs.AfterPass(0))
t = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)}
alone = [set(x) for x in gs.Scheduler(graph={'a': set(), 'b': {'a'}}, conditions=gs.ConditionSet({'b': gs.AfterPass(0)})).run(termination_conds=t)]
s.add_condition('a', gs.Always())
g, h = s.run(execution_id='x', termination_conds=t), s.run(execution_id='y', termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(9)})
got = [set(next(g))]
next(h)
s.conditions.conditions_basic['a'], s.conditions.conditions_basic['b'] = gs.Never(), gs.Never()
assert next(h) == set()
s.add_condition('a', gs.Always())
s.add_condition('b', gs.AfterPass(0))
got += [set(x) for x in g]
assert got == alone, (got, alone)
''')

bug('p02-falsy-id', 'P02',
    [(S, '''    def get_clock(self, execution_id=NotImplemented):
        if execution_id is NotImplemented:
            execution_id''', '''    def get_clock(self, execution_id=NotImplemented):
        if execution_id is NotImplemented or not execution_id:
            execution_id''')],
    'an execution_id that is false, such as 0 or an empty string, beside the default one',
    'runs under an execution_id that is false use the clock of the default one',
    '''
s = gs.Scheduler(graph={'a': set()}, default_execution_id='d')
list(s.run(execution_id=0))
assert s.clocks['d'].time.environment_state_update == 0, s.clocks
assert s.clocks[0].time.environment_state_update == 1, s.clocks
''')

# ---------------------------------------------------------------- P03
bug('p03-arg-cache-name', 'P03',
    [(U, '''_unused_args_sig_cache = weakref.WeakKeyDictionary()
''', '''_unused_args_sig_cache = {}
'''),
     (U, '''import logging
import weakref
''', '''import logging
'''),
     (U, '''    try:
        sig = _unused_args_sig_cache[func]
    except KeyError:
        sig = inspect.signature(func)
        _unused_args_sig_cache[func] = sig
''', '''    # functions made by the same code have the same signature
    key = getattr(func, '__module__', None), getattr(func, '__qualname__', func)
    try:
        sig = _unused_args_sig_cache[key]
    except KeyError:
        sig = inspect.signature(func)
        _unused_args_sig_cache[key] = sig
''')],
    'two user functions with the same qualified name and different signatures in one process',
    'a function given to a condition of one scheduler decides which arguments a function of the same name in another scheduler receives',
    '''
seen = []
c1 = gs.Condition(lambda: True)
c2 = gs.Condition(lambda scheduler, execution_id: seen.append((scheduler, execution_id)) or True)
s1 = gs.Scheduler(graph={'a': set()}, conditions={'a': c1})
s2 = gs.Scheduler(graph={'a': set()}, conditions={'a': c2})
assert list(s1.run()) == [{'a'}]
assert list(s2.run(execution_id=5)) == [{'a'}]
assert seen == [(s2, 5)], seen
''')

# ---------------------------------------------------------------- P04
bug('p04-base-index-zero', 'P04',
    [(T, '''        if base_index is None:
            base_index = self.get_time_by_time_scale(base_time_scale)

        return self''', '''        base_index = base_index or self.get_time_by_time_scale(base_time_scale)

        return self''')],
    'a query for the first unit (index 0) when a later one is in progress',
    'totals relative to unit 0 are those of the current unit',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
list(s.run())
g = s.run()
next(g)
n = s.get_clock().get_total_times_relative(gs.TimeScale.CONSIDERATION_SET_EXECUTION, gs.TimeScale.ENVIRONMENT_STATE_UPDATE, 0)
assert n == 2, n
''')

bug('p04-close-counts', 'P04',
    [(S, '''                    yield self.execution_list[execution_id][-1]

                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index''', '''                    try:
                        yield self.execution_list[execution_id][-1]
                    finally:
                        self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index''')],
    'a run that is closed or abandoned after a set was delivered',
    'an interrupted consideration set execution is counted as completed',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
g = s.run()
next(g)
g.close()
t = s.get_clock().time
assert t.consideration_set_execution == 0, t
''')

bug('p04-skip-resets-pass', 'P04',
    [(S, '''        if not skip_environment_state_update_time_increment:
            self.get_clock(execution_id)._increment_time(TimeScale.ENVIRONMENT_STATE_UPDATE)
''', '''        if skip_environment_state_update_time_increment:
            current_time._reset_by_time_scale(TimeScale.ENVIRONMENT_STATE_UPDATE)
        else:
            self._increment_time(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)
''')],
    'a run that does not close its environment state update, continued by another run',
    'the time within an environment state update that is continued by a later run goes back to 0',
    '''
s = gs.Scheduler(graph={'a': set()})
list(s.run(skip_environment_state_update_time_increment=True))
t = s.get_clock().time
assert t.pass_ == 1, t
''')

# ---------------------------------------------------------------- P05
bug('p05-interrupted-counts', 'P05',
    [(S, '''        self._reset_counts_useable(execution_id)
        self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)

''', '''        self._reset_counts_useable(execution_id)

'''),
     (S, '''        if not skip_environment_state_update_time_increment:
            self.get_clock(execution_id)._increment_time(TimeScale.ENVIRONMENT_STATE_UPDATE)
''', '''        self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)
        if not skip_environment_state_update_time_increment:
            self.get_clock(execution_id)._increment_time(TimeScale.ENVIRONMENT_STATE_UPDATE)
''')],
    'a run that is interrupted, followed by another under the same execution_id',
    'calls in an interrupted run count in the next one',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
g = s.run()
next(g)
g.close()
out = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNCalls('a', 2)}))
assert out[-3:] == [{'a'}, {'b'}, {'a'}] and len(out) == 3, out
''')

bug('p05-justran-empty', 'P05',
    [(C, '''                return dependency in scheduler.execution_list[execution_id][-1]
            except''', '''                return dependency in [e for e in scheduler.execution_list[execution_id] if len(e) > 0 or e is scheduler.execution_list[execution_id][0]][-1]
            except''')],
    'JustRan after an empty set',
    'JustRan looks past empty sets',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('a', gs.AtPass(0))
s.add_condition('b', gs.All(gs.AtPass(2), gs.JustRan('a')))
out = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)}))
assert out == [{'a'}, set(), set()], out
''')

# ---------------------------------------------------------------- P06
bug('p06-before-esu', 'P06',
    [(C, '''                return scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.ENVIRONMENT_STATE_UPDATE, time_scale) < n
''', '''                return scheduler.get_clock(execution_id).time.environment_state_update < n
''')],
    'BeforeEnvironmentStateUpdate with time scale LIFE in a second environment sequence',
    'BeforeEnvironmentStateUpdate ignores its time scale',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
s.add_condition('a', gs.BeforeEnvironmentStateUpdate(1, gs.TimeScale.LIFE))
t = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}
list(s.run(termination_conds=t))
s.end_environment_sequence()
out = list(s.run(termination_conds=t))
assert out[-1] == {'b'}, out
''')

bug('p06-every-pass', 'P06',
    [(C, '''                return scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.PASS, time_scale) % n == 0
''', '''                return scheduler.get_clock(execution_id).time.pass_ % n == 0
''')],
    'EveryNPasses over a coarser time scale, in a second environment state update',
    'EveryNPasses ignores its time scale',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
s.add_condition('a', gs.EveryNPasses(2, gs.TimeScale.LIFE))
t = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}
list(s.run(termination_conds=t))
out = list(s.run(termination_conds=t))
assert out[-1] == {'b'}, out
''')

# ---------------------------------------------------------------- P07
bug('p07-reset-to-module-default', 'P07',
    [(S, '''        if termination_conds is None:
            self._termination_conds = self.default_termination_conds.copy()
        else:
            self._term''', '''        if termination_conds is None:
            self._termination_conds = default_termination_conds.copy()
        else:
            self._term''')],
    'a scheduler constructed with termination conditions, whose termination conditions are set and then reset',
    'resetting the termination conditions of a scheduler does not restore those it was constructed with',
    '''
E = gs.TimeScale.ENVIRONMENT_STATE_UPDATE
s = gs.Scheduler(graph={'a': set()}, termination_conds={E: gs.AfterNPasses(3)})
s.termination_conds = {E: gs.AfterNPasses(2)}
s.termination_conds = None
out = list(s.run())
assert len(out) == 3, out
''')

bug('p07-names-constructor', 'P07',
    [(S, '''                parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
''', '''                parsed_conds.setdefault(getattr(TimeScale, scale.upper()), termination_conds[scale])
''')],
    'termination conditions given to the constructor by the name of a time scale that has a default',
    'termination conditions given to the constructor by name do not replace the defaults',
    '''
s = gs.Scheduler(graph={'a': set()}, termination_conds={'environment_state_update': gs.AfterNPasses(3)})
out = [x for x in s.run()]
assert len(out) == 3, out
''')

bug('p07-sequence-end-state', 'P07',
    [(S, '''        new_conds = self.termination_conds.copy()
        new_conds.update(termination_conds)

        return new_conds
''', '''        if TimeScale.ENVIRONMENT_STATE_UPDATE in termination_conds:
            return {**default_termination_conds, **termination_conds}

        return {**self.termination_conds, **termination_conds}
''')],
    'a scheduler with a termination condition for the environment sequence, and a run that is given one for the state update only',
    'giving a termination condition for the environment state update drops the one of the scheduler for the sequence',
    '''
T = gs.TimeScale
s = gs.Scheduler(graph={'a': set()}, termination_conds={T.ENVIRONMENT_SEQUENCE: gs.AfterNPasses(2)})
out = [x for x in s.run(termination_conds={T.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(5)})]
assert len(out) == 2, out
''')

# ---------------------------------------------------------------- P08
bug('p08-append-after', 'P08',
    [(S, '''                    self.execution_list[execution_id].append(cur_consideration_set_execution_exec)
                    if in_abs''', '''                    if in_abs'''),
     (S, '''                    yield self.execution_list[execution_id][-1]

                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index''', '''                    yield cur_consideration_set_execution_exec

                    self.execution_list[execution_id].append(cur_consideration_set_execution_exec)
                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index''')],
    'a run that is closed after a set was delivered',
    'the last set of an interrupted run is not recorded',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
g = s.run()
next(g)
g.close()
assert s.execution_list[None] == [{'a'}], s.execution_list
''')

bug('p08-running-guard', 'P08',
    [(S, '''        # must precede get_clock, which creates a new clock if none exists
        self._init_counts(execution_id, base_execution_id)

        current_time''', '''        # must precede get_clock, which creates a new clock if none exists
        self._init_counts(execution_id, base_execution_id)
        if execution_id in self._failing:
            raise SchedulerError(f'a run is in progress for {execution_id}')

        current_time'''),
     (S, '''                            try:
                                is_satisfied = self''', '''                            self._failing.add(execution_id)
                            try:
                                is_satisfied = self'''),
     (S, '''                            if is_satisfied:
                                cur_con''', '''                            self._failing.discard(execution_id)
                            if is_satisfied:
                                cur_con'''),
     (S, '''        self.cycle_nodes = set()
''', '''        self.cycle_nodes, self._failing = set(), set()
''')],
    'an exception raised by a condition during a run, and then another run under the same execution_id',
    'after a run failed no other run can be started under its execution_id',
    '''
boom = [True]


def f():
    if boom[0]:
        raise ValueError('x')
    return True


s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.Condition(f)})
try:
    list(s.run())
except ValueError:
    pass
boom[0] = False
assert list(s.run()) == [{'a'}]
''')

bug('p08-stopiteration-like', 'P08',
    [(C, '''            for d in dependencies:
                try:
                    if d.is_finished(execution_id):
                        return True
                except AttributeError as e:
''', '''            for d in dependencies:
                try:
                    if d.is_finished(execution_id):
                        return True
                except (AttributeError, LookupError) as e:
''')],
    'a node whose is_finished raises KeyError',
    'an exception raised by a node is replaced by another',
    '''
class N:
    def is_finished(self, execution_id):
        raise KeyError('mine')


n = N()
s = gs.Scheduler(graph={n: set()}, conditions={n: gs.WhenFinishedAny(n)})
try:
    list(s.run())
except KeyError:
    pass
''')

# ---------------------------------------------------------------- P09
bug('p09-conditions-per-pass', 'P09',
    [(S, '''            execution_list_has_changed = False
            cur_index_consideration_queue = 0
''', '''            conditions = self.conditions.conditions_basic.copy()
            cur_index_consideration_queue, execution_list_has_changed = 0, False
'''),
     (S, '''                                is_satisfied = self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs)
''', '''                                is_satisfied = conditions[current_node].is_satisfied(**is_satisfied_kwargs)
''')],
    'a condition replaced in the middle of a pass, for a node that is considered later in that pass',
    'a condition given during a pass acts from the next pass',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('b', gs.Always())
g = s.run()
next(g)
s.add_condition('b', gs.Never())
assert next(g) == {'a'}
''')

bug('p09-setitem-skips', 'P09',
    [(C, '''            for cond in reversed(self.conditions_structural[key]):
                self.remove_condition(cond)
''', '''            for cond in self.conditions_structural[key]:
                self.remove_condition(cond)
''')],
    'assignment to a node that owns two or more structural conditions',
    'assigning conditions to a node leaves every second structural condition in force',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set()})
s.add_condition('a', gs.AddEdgeTo('b'))
s.add_condition('a', gs.AddEdgeTo('c'))
s.conditions['a'] = gs.Always()
assert s.graph == {'a': set(), 'b': set(), 'c': set()}, s.graph
''')

bug('p09-remove-keeps-owner', 'P09',
    [(C, '''            del self.conditions_basic[owner]
            if c is not None:
                c.owner = None
''', '''            c.owner = None if c is not self.conditions_basic.pop(owner) else owner
''')],
    'removal of a basic condition',
    'a removed condition still has its owner',
    '''
s = gs.Scheduler(graph={'a': set()})
c = gs.Always()
s.add_condition('a', c)
assert s.remove_condition('a') is c
assert c.owner is None
''')

# ---------------------------------------------------------------- P10
bug('p10-length', 'P10',
    [(S, '''        if self._last_handled_structural_condition_order != self.conditions.structural_condition_order:
''', '''        if len(self._last_handled_structural_condition_order or ()) != len(self.conditions.structural_condition_order):
''')],
    'a structural condition removed and another added without the graph being used in between',
    'the graph is not updated if as many structural conditions were added as removed since it was last used',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set()})
c = gs.AddEdgeTo('b')
s.add_condition('a', c)
s.remove_condition(c)
s.conditions.add_condition('a', gs.AddEdgeTo('c'))
assert s.graph == {'a': set(), 'b': set(), 'c': {'a'}}, s.graph
''')

bug('p10-indices-stale', 'P10',
    [(S, '''            self._consideration_queue_indices.pop(),
        )''', '''        )'''),
     (S, '''        self._consideration_queue_indices.append(
            _generate_consideration_queue_indices(consideration_queue)
        )
''', '''        self._consideration_queue_indices[len(self._graphs):] = [
            _generate_consideration_queue_indices(consideration_queue)
        ]
''')],
    'structural conditions that were removed',
    'the indices of the consideration queue remain those of a graph with conditions that were removed',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
c = gs.AddEdgeTo('b')
s.add_condition('a', c)
s.remove_condition(c)
assert s.consideration_queue == [{'a', 'b'}]
assert s.consideration_queue_indices == {'a': 0, 'b': 0}, s.consideration_queue_indices
''')

bug('p10-failed-modify', 'P10',
    [(S, '''                cur_graph = cond.modify_graph(cur_graph)
                self._push_graph(cur_graph)
''', '''                self._push_graph(cur_graph)
                self._graphs[-1] = cur_graph = cond.modify_graph(cur_graph)
                self._push_graph(self._graphs.pop())
                del self._consideration_queues[-2], self._consideration_queue_indices[-2]
''')],
    'a structural condition that cannot be applied, which is then removed',
    'a structural condition that fails leaves a spurious graph behind, which shifts what later removals restore',
    '''
def bad(graph):
    raise ValueError('bad')


s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set()})
k = gs.CustomGraphStructureCondition(bad)
try:
    s.add_condition('a', k)
except ValueError:
    pass
s.remove_condition(k)
d = gs.AddEdgeTo('b')
s.add_condition('a', d)
s.remove_condition(d)
e = gs.AddEdgeTo('c')
s.add_condition('a', e)
s.remove_condition(e)
assert s.graph == {'a': set(), 'b': set(), 'c': set()}, s.graph
assert len(s._graphs) == 1
''')

# ---------------------------------------------------------------- P11
bug('p11-owner-not-checked', 'P11',
    [(C, '''        nodes_used = {self.owner}.union(self.nodes)
''', '''        nodes_used = set(self.nodes)
''')],
    'AddEdgeTo owned by an object that is not a node of the graph',
    'a structural condition of an owner that is not in the graph is accepted',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
try:
    s.add_condition('z', gs.AddEdgeTo('b'))
except gs.ConditionError:
    pass
else:
    assert False, s.graph
''')

bug('p11-exact-cycle', 'P11',
    [(S, '''        try:
            _build_consideration_queue(self.graph)
        except''', '''        try:
            _build_consideration_queue(self.graph if self.consideration_queue == [set()] else {})
        except''')],
    'exact time mode and structural conditions that leave a cycle',
    'a graph with a cycle is scheduled in exact time mode',
    '''
import warnings
warnings.simplefilter('ignore')
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}}, mode=gs.SchedulingMode.EXACT_TIME)
s.add_condition('b', gs.AddEdgeTo('a'))
try:
    next(s.run())
except gs.SchedulerError:
    pass
else:
    assert False
''')

# ---------------------------------------------------------------- P12
bug('p12-run-terminations', 'P12',
    [(S, '''        for c in self.get_absolute_conditions(termination_conds).values():
            intervals.extend''', '''        for c in self.get_absolute_conditions().values():
            intervals.extend''')],
    'a TimeTermination given to a run, in exact time mode',
    'the times of termination conditions given to a run are not among those considered',
    '''
s = gs.Scheduler(graph={'a': set()}, mode=gs.SchedulingMode.EXACT_TIME)
s.add_condition('a', gs.TimeInterval(repeat='2ms'))
list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination('3ms')}))
t = s.get_clock().time.absolute
assert abs(t.to('ms').m - 3) < 1e-9, t
''')

bug('p12-composite', 'P12',
    [(C, '''    @property
    def is_absolute(self):
        return any(a.is_absolute for a in self.args)
''', '''    @property
    def is_absolute(self):
        return len(self.absolute_intervals) + len(self.absolute_fixed_points) > 0
''')],
    'a composite of absolute conditions that have neither a repeat nor an inclusive bound',
    'composites of absolute conditions with exclusive bounds only do not put a run into absolute time',
    '''
s = gs.Scheduler(graph={'a': set()})
s.add_condition('a', gs.All(gs.TimeInterval(end='3ms', end_inclusive=False), gs.Always()))
out = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(5)}))
assert len(out) == 5 and out[3] == out[4] == set(), out
assert len(s.execution_timestamps[None]) == 5
''')

bug('p12-offset', 'P12',
    [(C, '''                for i, cs in enumerate(scheduler.consideration_queue):
                    if self.owner in cs:
                        offset = i * clock.time.absolute_interval
''', '''                i = scheduler.consideration_queue_indices.get(self.owner, 0)
                offset = i * clock.time.absolute_interval
''')],
    'exact time mode, an interval without a start, and an owner that has parents',
    'in exact time mode, intervals without a start are shifted by the layer of their owner in the graph',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}}, mode=gs.SchedulingMode.EXACT_TIME)
s.add_condition('a', gs.TimeInterval(repeat='1ms'))
s.add_condition('b', gs.TimeInterval(repeat='2ms'))
out = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination('4ms')}))
assert out == [{'a', 'b'}, {'a'}, {'a', 'b'}, {'a'}], out
''')

# ---------------------------------------------------------------- P13
# ---------------------------------------------------------------- P14
bug('p17-finished-remembers', 'P17',
    [(C, '''            for d in dependencies:
                try:
                    if not d.is_finished(execution_id):
                        return False
''', '''            for d in dependencies[getattr(self, '_done', 0):] if len(self.args) > 0 else dependencies:
                try:
                    if d.is_finished(execution_id):
                        self._done = getattr(self, '_done', 0) + 1
                    else:
                        return False
''')],
    'WhenFinishedAll with several nodes of which one stops being finished before the others are',
    'WhenFinishedAll remembers which nodes were finished',
    '''
class N:
    done = False

    def is_finished(self, execution_id):
        return self.done


m, n, o = N(), N(), N()
s = gs.Scheduler(graph={m: set(), n: set(), o: {m, n}}, conditions={o: gs.WhenFinishedAll(m, n)})
t = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}
m.done = True
assert [set(x) for x in s.run(termination_conds=t)] == [{m, n}]
m.done, n.done = False, True
assert [set(x) for x in s.run(termination_conds=t)] == [{m, n}], s.execution_list
''')

# ---------------------------------------------------------------- P15
bug('p15-debug-evaluates', 'P15',
    [(C, '''        for cond in conds:
            if not cond.is_satisfied(**kwargs):
                return False
        return True
''', '''        results = (cond.is_satisfied(**kwargs) for cond in conds)
        if logger.isEnabledFor(logging.DEBUG):
            results = list(results)
            logger.debug(f'{self}: {results}')
        return all(results)
''')],
    'debug logging, and All with an NWhen part after another part that is not satisfied',
    'with debug logging, All evaluates all of its parts and NWhen parts are used up',
    '''
import logging
logging.getLogger().setLevel(logging.DEBUG)
for h in list(logging.getLogger().handlers):
    logging.getLogger().removeHandler(h)
logging.getLogger().addHandler(logging.NullHandler())
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.All(gs.AtPass(3), gs.NWhen(gs.Always(), 1))})
out = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(4)}))
assert out[-1] == {'a'}, out
''')

bug('p15-clock-read', 'P15',
    [(T, '''    def __repr__(self):
        abs_str = f'{self.absolute}, ' if self.absolute_enabled else ''
''', '''    def __repr__(self):
        if self.absolute_enabled:
            self.absolute = self.absolute.to(self.absolute_interval.u)
        abs_str = f'{self.absolute:~}, ' if self.absolute_enabled else ''
        self.absolute = round(self.absolute)
''')],
    'the string representation of a time that is not a whole number of its unit, during a run in absolute time',
    'printing a time rounds it',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}, 'c': {'b'}})
s.add_condition('a', gs.TimeInterval(repeat='1ms'))
g = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination('3ms')})
next(g)
next(g)
before = s.get_clock().time.absolute
str(s.get_clock())
assert s.get_clock().time.absolute == before
''')

# ---------------------------------------------------------------- P16
bug('p16-nwhen-falsy', 'P16',
    [(C, '''        if execution_id not in self.satisfactions:
            self.satisfactions[execution_id] = 0

        if self.satisfactions[execution_id] < n:
            if call''', '''        key = execution_id or getattr(scheduler, 'default_execution_id', None)
        if key not in self.satisfactions:
            self.satisfactions[key] = 0

        if self.satisfactions[key] < n:
            if call'''),
     (C, '''                self.satisfactions[execution_id] += 1
''', '''                self.satisfactions[key] += 1
''')],
    'an execution_id that is false beside the default one',
    'NWhen counts the satisfactions of an execution_id that is false for the default one',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.NWhen(gs.Always(), 1)})
assert next(s.run()) == {'a'}
assert next(s.run(execution_id=0)) == {'a'}
''')

bug('p16-nwhen-rerun', 'P16',
    [(C, '''        if execution_id not in self.satisfactions:
            self.satisfactions[execution_id] = 0
''', '''        if execution_id not in self.satisfactions or (
            scheduler is not None and len(scheduler.execution_list.get(execution_id, [1])) == 0
        ):
            self.satisfactions[execution_id] = 0
''')],
    'NWhen satisfied more than n times before the first set of an execution_id is delivered, as by failed runs or repeated evaluation',
    'NWhen counts from 0 until a set was delivered',
    '''
c = gs.NWhen(gs.Always(), 1)
s = gs.Scheduler(graph={'a': set(), 'b': set()})
s.add_condition('a', gs.Always())
list(s.run(execution_id='warm'))
s.add_condition('a', c)
s._init_counts('x')
assert c.is_satisfied(scheduler=s, execution_id='x')
assert not c.is_satisfied(scheduler=s, execution_id='x')
''')

bug('p16-any-kwargs', 'P16',
    [(C, '''        for cond in conds:
            if cond.is_satisfied(**kwargs):
                return True
        return False
''', '''        return any(
            cond.is_satisfied(scheduler=kwargs.get('scheduler'), execution_id=kwargs.get('execution_id'))
            for cond in conds
        )
''')],
    'a user function within Any that takes an argument given with the run',
    'functions within Any do not receive the arguments given with the run',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.Any(gs.Never(), gs.Condition(lambda flag=False: flag))})
assert next(s.run(flag=True)) == {'a'}
''')

# ---------------------------------------------------------------- P17
bug('p17-finished-default-id', 'P17',
    [(C, '''                    if d.is_finished(execution_id):
                        return True
''', '''                    if d.is_finished(scheduler.default_execution_id if len(dependencies) > 2 else execution_id):
                        return True
''')],
    'WhenFinishedAny with more than two nodes under an execution_id that is not the default one',
    'WhenFinishedAny asks whether its nodes are finished in the default context',
    '''
class N:
    def is_finished(self, execution_id):
        return execution_id == 'x'


a, b, c, d = (N() for i in range(4))
s = gs.Scheduler(graph={a: set(), b: set(), c: set(), d: {a}}, conditions={d: gs.WhenFinishedAny(a, b, c)})
assert [set(x) for x in s.run(execution_id='x')] == [{a, b, c}, {d}]
''')

bug('p17-threshold-cache', 'P17',
    [(C, '''            param_value = self.get_parameter_value(execution_id)
            if indices is not None:
                for i in indices:
                    param_value = param_value[i]
''', '''            param_value = self.get_parameter_value(execution_id)
            if indices is not None:
                # look up the innermost container once
                if getattr(self, '_container', (None,))[0] is not param_value:
                    container = param_value
                    for i in list(indices)[:-1]:
                        container = container[i]
                    self._container = param_value, container, list(indices)[-1]
                param_value = self._container[1][self._container[2]]
''')],
    'Threshold with two or more indices, on a value whose inner container is replaced in place',
    'Threshold with several indices remembers the inner container',
    '''
class N:
    value = [[0]]


n = N()
s = gs.Scheduler(graph={n: set()}, conditions={n: gs.Threshold(n, 'value', 1, '>=', indices=[0, 0])})
g = s.run()
assert next(g) == set()
n.value[0] = [2]
assert next(g) == {n}
''')

# ---------------------------------------------------------------- P18
bug('p18-all-once', 'P18',
    [(T, '''            graph_scheduler.condition.__all__.append(new_cls_name)
            graph_scheduler.__all__.append(new_cls_name)
''', '''            if new_cls_name not in graph_scheduler.__all__:
                graph_scheduler.condition.__all__.append(new_cls_name)
            graph_scheduler.__all__.append(new_cls_name)
            if cls_name.startswith('After') and len(_time_scale_aliases) > 1:
                graph_scheduler.__all__.append(new_cls_name)
''')],
    'two aliases set at a time',
    'public names are listed twice if an alias is set while another is, and remain when the alias is removed',
    '''
before = list(gs.__all__)
gs.set_time_scale_alias('TRIAL', 'ENVIRONMENT_STATE_UPDATE')
gs.set_time_scale_alias('RUN', 'ENVIRONMENT_SEQUENCE')
gs.remove_time_scale_alias('RUN')
gs.remove_time_scale_alias('TRIAL')
assert sorted(gs.__all__) == sorted(before), set(gs.__all__) - set(before)
''')

bug('p18-setter', 'P18',
    [(T, '''    def setter(self, value):
        setattr(self, _time_scale_to_attr_str(target), value)
''', '''    def setter(self, value):
        self[target] = value
        self._reset_by_time_scale(target)
''')],
    'a time that is assigned under an alias',
    'assigning an attribute of a time by its alias resets the finer units',
    '''
t = gs.Time(pass_=3, environment_state_update=1)
gs.set_time_scale_alias('TRIAL', 'ENVIRONMENT_STATE_UPDATE')
t.trial = 5
assert (t.environment_state_update, t.pass_) == (5, 3), t
''')

# ---------------------------------------------------------------- P19
bug('p19-date', 'P19',
    [(S, '''        if termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs):
            self.date''', '''        if not skip_environment_state_update_time_increment:
            self.date''')],
    'a run that completes without completing an environment sequence',
    'the time of the last completed sequence is set by every run',
    '''
s = gs.Scheduler(graph={'a': set()})
list(s.run())
assert s.date_last_run_end is None
''')

bug('p19-timestamps', 'P19',
    [(S, '''                        self.execution_timestamps[execution_id].append(
                            copy.copy(current_time)
                        )
''', '''                        self.execution_timestamps[execution_id].append(
                            copy.copy(current_time) if len(cur_consideration_set_execution_exec) > 0 else current_time
                        )
''')],
    'an empty set in absolute time',
    'the timestamps of empty sets change with the clock',
    '''
s = gs.Scheduler(graph={'a': set()})
s.add_condition('a', gs.TimeInterval(repeat='1ms', start='2ms', end='2ms'))
list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination('6ms')}))
ts = [t.absolute.to('ms').m for t in s.execution_timestamps[None]]
assert ts == [2, 3, 4, 5], ts
''')

bug('p19-merged-empty', 'P19',
    [(S, '''                self.execution_list[execution_id].append(set())
                yield''', '''                if self.execution_list[execution_id][-1:] != [set()]:
                    self.execution_list[execution_id].append(set())
                yield''')],
    'two passes in a row in which nothing executes',
    'consecutive empty sets are recorded once',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.AtPass(2)})
out = list(s.run())
assert s.execution_list[None] == [set(), set(), {'a'}], s.execution_list
''')

# ---------------------------------------------------------------- P20
bug('p20-hash-equality', 'P20',
    [(U, '''        return hash(frozenset((k, tuple(v)) for k, v in self.items()))
''', '''        return hash(frozenset((k, frozenset(v)) for k, v in self.items()))

    def __eq__(self, other):
        return hash(self) == hash(other)
''')],
    'two graphs that differ in nodes with equal hashes, such as -1 and -2',
    'a query is answered for another graph with the same hash',
    '''
gs.get_receivers({0: set(), 1: {0}, -1: set()})
r = gs.get_receivers({0: set(), 1: {0}, -2: set()})
assert r == {0: {1}, 1: set(), -2: set()}, r
''')

bug('p20-cycle-edges', 'P20',
    [(U, '''    receivers = {node: set() for node in graph}
    for node, senders in graph.items():
        for s in senders:
''', '''    receivers = {node: set() for node in graph}
    for node, senders in graph.items():
        for s in senders - {node}:
''')],
    'a graph with an edge from a node to itself',
    'a node that is its own parent is not among its receivers',
    '''
r = gs.get_receivers({'a': {'a'}})
assert r == {'a': {'a'}}, r
''')

bug('p20-descendants-missing', 'P20',
    [(U, '''    return {node: nx.descendants(nx_graph, node) for node in graph}
''', '''    # descendants of senders before those of their receivers
    res = {}
    for node in graph:
        res[node] = set()
        for rec in nx_graph[node]:
            res[node].add(rec)
            res[node] |= res[rec] if rec in res else nx.descendants(nx_graph, rec)
    return res
''')],
    'a graph with a cycle',
    'descendants in a cycle include the node itself, depending on the order of the graph',
    '''
d = gs.get_descendants({'a': {'b'}, 'b': {'a'}})
assert d == {'a': {'b'}, 'b': {'a'}}, d
''')
