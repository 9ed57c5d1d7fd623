"""More planted bugs (see seeds.py). No check reads this file."""
from seeds import C, S, T, U, bug

# ---------------------------------------------------------------- P01
bug('p01-cascade-limit', 'P01',
    [(S, '''                while True:
                    cur_consideration_set_has_changed = False
''', '''                for _ in range(3):
                    cur_consideration_set_has_changed = False
''')],
    'a consideration set in which nodes become satisfied one after another in the reverse of the order in which they are iterated, at least four deep',
    'nodes cascade within a consideration set at most three times',
    '''
s = gs.Scheduler(graph={n: set() for n in range(6)})
order = list(s.consideration_queue[0])
s.add_condition(order[-1], gs.AtPass(0))
for a, b in zip(order, order[1:]):
    s.add_condition(a, gs.EveryNCalls(b, 1))
out = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}))
assert out == [set(order)], out
''')

bug('p01-wait-parents', 'P01',
    [(S, '''                        if current_node not in cur_consideration_set_execution_exec:
                            try:''', '''                        if (
                            current_node not in cur_consideration_set_execution_exec
                            and (
                                cur_index_consideration_queue < 3
                                or len(self.conditions.conditions_basic[current_node].args) == 0
                                or any(self.counts_total[execution_id][TimeScale.PASS].values())
                            )
                        ):
                            try:''')],
    'a node in the fourth or a later consideration set with a condition that is satisfied in a pass in which no node before it executed',
    'nodes in deep consideration sets are not considered while nothing executed in the pass',
    '''
s = gs.Scheduler(graph={0: set(), 1: {0}, 2: {1}, 3: {2}})
s.add_condition(0, gs.AtPass(0))
s.add_condition(1, gs.EveryNCalls(0, 1))
s.add_condition(2, gs.EveryNCalls(1, 1))
s.add_condition(3, gs.AtPass(1))
out = list(s.run())
assert out == [{0}, {1}, {2}, {3}], out
''')

# ---------------------------------------------------------------- P02
bug('p02-clock-shallow', 'P02',
    [(S, '''                self.clocks[execution_id] = copy.deepcopy(self.clocks[base_execution_id])
''', '''                self.clocks[execution_id] = Clock()
                self.clocks[execution_id].history = copy.copy(self.clocks[base_execution_id].history)
                self.clocks[execution_id].history.current_time = copy.copy(self.clocks[base_execution_id].time)
''')],
    'a run with base_execution_id, and queries of totals after further runs of either',
    'the clock copied from a base shares the history of finished units with it',
    '''
TS = gs.TimeScale
s = gs.Scheduler(graph={'a': set()})
list(s.run())
list(s.run(execution_id='x', base_execution_id=None))
list(s.run())
list(s.run())
c = s.get_clock('x')
assert c.get_total_times_relative(TS.ENVIRONMENT_STATE_UPDATE, TS.ENVIRONMENT_SEQUENCE) == 2, c.history.total_times
assert s.get_clock().get_total_times_relative(TS.PASS, TS.ENVIRONMENT_SEQUENCE) == 3
''')

bug('p02-useable-copied-rows', 'P02',
    [(S, '''                    node: {n: self.counts_useable[base_execution_id][node][n] for n in self.nodes} for node in self.nodes
''', '''                    node: self.counts_useable[base_execution_id][node] for node in self.nodes
'''),
     (S, '''        self.counts_useable[execution_id] = {
            node: {n: 0 for n in self.nodes} for node in self.nodes
        }

    def _combine''', '''        for node in self.nodes:
            for n in self.nodes:
                self.counts_useable[execution_id][node][n] = 0

    def _combine''')],
    'a run under a new execution_id with base_execution_id while a run of the base is in progress',
    'useable counts are shared between an execution_id and its base',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('b', gs.EveryNCalls('a', 2))
end = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNCalls('b', 2)}
g = s.run(termination_conds=end)
assert [next(g) for _ in range(2)] == [{'a'}, {'a'}]
h = s.run(execution_id='x', base_execution_id=None, termination_conds=end)
next(h)
assert next(g) == {'b'}
''')

# ---------------------------------------------------------------- P03
bug('p03-adopts-conditions', 'P03',
    [(S, '''        if conditions is not None:
            self.add_condition_set(conditions)
''', '''        if isinstance(conditions, ConditionSet):
            self.conditions = conditions
            self._handle_modified_structural_conditions()
        elif conditions is not None:
            self.add_condition_set(conditions)
''')],
    'a ConditionSet given to a Scheduler and used or changed afterwards',
    'a Scheduler uses the ConditionSet that it was given instead of its own',
    '''
cs = gs.ConditionSet({'a': gs.AtPass(1)})
s = gs.Scheduler(graph={'a': set(), 'b': set()}, conditions=cs)
list(s.run())
assert set(cs) == {'a'}, cs
''')

bug('p03-input-alias', 'P03',
    [(S, '''                **clone_graph(graph)
''', '''                **{k: v if isinstance(v, set) and len(v) > 1 else set(v) for k, v in clone_graph(graph).items()},
                **{k: v for k, v in graph.items() if isinstance(v, set) and len(v) > 1}
''')],
    'a graph with a node of two or more parents, changed by the caller after the Scheduler was made',
    'sets of several dependencies are shared with the graph given to a Scheduler',
    '''
g = {'a': set(), 'b': set(), 'c': {'a', 'b'}}
s = gs.Scheduler(graph=g)
g['c'].add('zz')
assert s.graph['c'] == {'a', 'b'}, s.graph
''')

bug('p03-alias-conditions-cache', 'P03',
    [(C, '''        kwargs_to_pass = self.kwargs.copy()
        kwargs_to_pass.update(kwargs)
''', '''        kwargs_to_pass = self.kwargs
        kwargs_to_pass.update(kwargs)
''')],
    'a condition with a function that takes an argument of a run, in a run that does not give it after one that does',
    'arguments of a run stay with the conditions evaluated in it',
    '''
seen = []


def f(extra=None):
    seen.append(extra)
    return True


s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.While(f)})
list(s.run(extra=1))
list(s.run())
assert seen == [1, None], seen
''')

# ---------------------------------------------------------------- P04
bug('p04-skip-sequence', 'P04',
    [(S, '''        if not skip_environment_state_update_time_increment:
''', '''        if (
            not skip_environment_state_update_time_increment
            or termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
        ):
''')],
    'a run told not to close its environment state update that ends by the termination condition of the sequence',
    'a run that ends the sequence counts an environment state update although told not to',
    '''
s = gs.Scheduler(graph={'a': set()})
list(s.run(skip_environment_state_update_time_increment=True, termination_conds={
    gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.AfterNCalls('a', 1)}))
assert s.get_clock().time.environment_state_update == 0, s.get_clock()
''')

# ---------------------------------------------------------------- P05
bug('p05-every-exact', 'P05',
    [(C, '''                num_calls = scheduler.counts_useable[execution_id][dependency][self.owner]
                logger.debug('{0} has reached {1} num_calls'.format(dependency, num_calls))
                return num_calls >= n
''', '''                num_calls = scheduler.counts_useable[execution_id][dependency][self.owner]
                logger.debug('{0} has reached {1} num_calls'.format(dependency, num_calls))
                return num_calls >= n if n < 3 else num_calls > 0 and num_calls % n == 0
''')],
    'EveryNCalls with n of at least 3 whose owner was held back by another condition when the dependency had executed n times',
    'EveryNCalls(x, 3) is missed if the owner does not execute at the third call',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('b', gs.All(gs.EveryNCalls('a', 3), gs.AfterPass(3)))
out = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(5)}))
assert out == [{'a'}] * 5 + [{'b'}], out
''')

bug('p05-before-life', 'P05',
    [(C, '''                num_calls = scheduler.counts_total[execution_id][time_scale][dependency]
                logger.debug('{0} has reached {1} num_calls in {2}'.format(dependency, num_calls, time_scale.name))
                return num_calls > n
''', '''                if time_scale is TimeScale.LIFE:
                    # all calls in the recorded history
                    num_calls = sum(dependency in s for s in scheduler.execution_list[execution_id])
                else:
                    num_calls = scheduler.counts_total[execution_id][time_scale][dependency]
                logger.debug('{0} has reached {1} num_calls in {2}'.format(dependency, num_calls, time_scale.name))
                return num_calls > n
''')],
    'AfterCall over the life on a node of the same consideration set, evaluated after that node was added to the set in progress',
    'executions within the set in progress are not counted by AfterCall over the life',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
s.add_condition('b', gs.AfterCall('a', 1, gs.TimeScale.LIFE))
end = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)}
assert list(s.run(termination_conds=end)) == [{'a'}, {'a', 'b'}]
''')

# ---------------------------------------------------------------- P06
bug('p06-start-of-sequence', 'P06',
    [(C, '''                return scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.ENVIRONMENT_STATE_UPDATE, time_scale) == n
''', '''                return scheduler.get_clock(execution_id).time.environment_state_update == n
''')],
    'AtEnvironmentStateUpdate over the life, in the second or a later environment sequence',
    'AtEnvironmentStateUpdate ignores its time scale',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
s.add_condition('a', gs.AtEnvironmentStateUpdate(1, gs.TimeScale.LIFE))
end = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}
assert list(s.run(termination_conds=end)) == [{'b'}]
s.end_environment_sequence()
assert list(s.run(termination_conds=end)) == [{'a', 'b'}]
''')

bug('p06-after-n-cse', 'P06',
    [(T, '''            if relative_time_scale >= time_scale:
                continue
''', '''            if (
                relative_time_scale >= time_scale
                or relative_time_scale == TimeScale.PASS and time_scale == TimeScale.ENVIRONMENT_SEQUENCE
            ):
                continue
'''),
     (C, '''                return scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.PASS, time_scale) == n
''', '''                clock = scheduler.get_clock(execution_id)
                if time_scale is TimeScale.ENVIRONMENT_STATE_UPDATE:
                    return clock.time.pass_ == n
                return clock.get_total_times_relative(TimeScale.PASS, time_scale) == n
''')],
    'end_environment_sequence while an environment state update is incomplete (a closed run, or one told not to increment)',
    'the pass count is not reset when a sequence is ended in the middle of an environment state update, so AtPass(0) is not satisfied in the next run',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
s.add_condition('a', gs.AtPass(0))
end = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)}
list(s.run(termination_conds=end, skip_environment_state_update_time_increment=True))
s.end_environment_sequence()
assert list(s.run(termination_conds=end)) == [{'a', 'b'}, {'b'}]
''')

# ---------------------------------------------------------------- P07
bug('p07-setter-in-place', 'P07',
    [(S, '''            self._termination_conds = self._combine_termination_conditions(
                termination_conds
            )
''', '''            self._termination_conds.update(
                Scheduler._parse_termination_conditions(termination_conds)
            )
''')],
    'setting termination_conds while a run that uses those of the scheduler is in progress',
    'setting the termination conditions of the scheduler changes runs in progress',
    '''
TS = gs.TimeScale
s = gs.Scheduler(graph={'a': set()}, termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)})
g = s.run()
next(g)
s.termination_conds = {TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1)}
assert list(g) == [{'a'}, {'a'}]
''')

bug('p07-setter-from-default', 'P07',
    [(S, '''            self._termination_conds = self._combine_termination_conditions(
                termination_conds
            )
''', '''            self._termination_conds = {
                **self.default_termination_conds,
                **Scheduler._parse_termination_conditions(termination_conds)
            }
''')],
    'termination_conds set twice, for different time scales',
    'setting the condition of one time scale resets that of the other',
    '''
TS = gs.TimeScale
s = gs.Scheduler(graph={'a': set()})
s.termination_conds = {TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)}
s.termination_conds = {TS.ENVIRONMENT_SEQUENCE: gs.AfterNPasses(9)}
assert len(list(s.run())) == 3
''')

# ---------------------------------------------------------------- P08
bug('p08-justran-fallback', 'P08',
    [(C, '''                except AttributeError as e:
                    raise ConditionError(f'WhenFinishedAll: Unsupported dependency type: {type(d)}; ({e})')
''', '''                except (AttributeError, TypeError, LookupError) as e:
                    raise ConditionError(f'WhenFinishedAll: Unsupported dependency type: {type(d)}; ({e})')
''')],
    'a node whose is_finished raises KeyError, in WhenFinishedAll',
    'exceptions raised by a node are replaced by a ConditionError',
    '''
class N:
    def is_finished(self, execution_id):
        raise KeyError('x')


s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.WhenFinishedAll(N())})
try:
    list(s.run())
except KeyError:
    pass
''')

bug('p08-thrown-is-end', 'P08',
    [(S, '''                    yield self.execution_list[execution_id][-1]

                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index''', '''                    try:
                        yield self.execution_list[execution_id][-1]
                    except LookupError:
                        # the caller is done with this run
                        return self.execution_list[execution_id]

                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index''')],
    'IndexError or KeyError thrown into a run by its caller',
    'some exceptions thrown into a run end it silently instead of reaching the caller',
    '''
s = gs.Scheduler(graph={'a': set()})
g = s.run()
next(g)
try:
    g.throw(KeyError('x'))
except KeyError:
    pass
''')

bug('p08-absolute-stays', 'P08',
    [(S, '''        current_time.absolute_enabled = in_absolute_time_mode
''', '''        current_time.absolute_enabled = in_absolute_time_mode or (
            # resume a run that was interrupted
            current_time.absolute_enabled and current_time.consideration_set_execution > 0
        )
''')],
    'a run in absolute time that is closed or fails after its first pass began, and a run without absolute conditions after it',
    'the clock stays in absolute time after an interrupted run',
    '''
TS = gs.TimeScale
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}}, conditions={'a': gs.TimeInterval(repeat=1)})
g = s.run()
next(g), next(g)
g.close()
s.add_condition('a', gs.Always())
list(s.run())
assert not s.get_clock().time.absolute_enabled
''')

# ---------------------------------------------------------------- P09
bug('p09-same-repr', 'P09',
    [(C, '''            self.conditions_basic[owner] = condition
        self._rebuild''', '''            if str(self.conditions_basic.get(owner)) != str(condition):
                self.conditions_basic[owner] = condition
        self._rebuild''')],
    'a condition replaced by one with the same representation (functions are not part of it)',
    'a condition is not replaced by one that prints alike',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.While(lambda: True)})
s.add_condition('a', gs.While(lambda: False))
assert next(s.run()) == set()
''')

# ---------------------------------------------------------------- P10
bug('p10-common-later', 'P10',
    [(S, '''                        common_index = i
                    else:
                        break
''', '''                        common_index = i
''')],
    'structural conditions replaced such that a later one keeps its place in the order while an earlier one changes',
    'a structural condition that comes before an unchanged one is not applied',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set()})
x, y, z = gs.AddEdgeTo('b'), gs.AddEdgeTo('c'), gs.AddEdgeTo('c')
s.add_condition('a', x)
s.add_condition('b', y)
assert s.graph == {'a': set(), 'b': {'a'}, 'c': {'b'}}
cs = gs.ConditionSet()
cs.add_condition('a', z)
cs.add_condition('b', y)
s.conditions = cs
assert s.graph == {'a': set(), 'b': set(), 'c': {'a', 'b'}}, s.graph
''')

bug('p10-pop-one-less', 'P10',
    [(S, '''                for cond in self._last_handled_structural_condition_order[common_index + 1:]:
                    self._pop_graph()
''', '''                for cond in self._last_handled_structural_condition_order[max(common_index + 1, len(self._graphs) - 4):]:
                    self._pop_graph()
''')],
    'four or more structural conditions, of which one of the first is removed',
    'too few graphs are dropped when an early structural condition is removed',
    '''
s = gs.Scheduler(graph={n: set() for n in 'abcdefg'})
conds = [s.add_graph_edge(x, y) for x, y in zip('abcdef', 'bcdefg')]
s.remove_condition(conds[0])
assert s.graph['b'] == set(), s.graph
assert s.graph['c'] == {'b'}, s.graph
''')

# ---------------------------------------------------------------- P11
bug('p11-subject-dict-first', 'P11',
    [(C, '''            subject_receivers_n = self._get_subject_operation(self.subject_receivers, n)
''', '''            subject_receivers_n = self._get_subject_operation(
                self.subject_receivers, n if isinstance(self.subject_senders, dict) else self.nodes[0]
            )
''')],
    'subject_receivers given for each subject while subject_senders is given for all',
    'the operation on the receivers of the first subject is used for all',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set(), 'd': {'b', 'c'}})
s.add_condition('a', gs.AfterNodes(
    'b', 'c', owner_receivers='KEEP', subject_senders='KEEP', subject_receivers={'b': 'KEEP', 'c': 'DISCARD'}))
assert s.graph['d'] == {'b'}, s.graph
''')

# ---------------------------------------------------------------- P12
# ---------------------------------------------------------------- P13
bug('p13-four-parents', 'P13',
    [(S, '''                    cond = All(*[EveryNCalls(x, 1) for x in dependencies])
''', '''                    cond = All(*[EveryNCalls(x, 1) for x in sorted(dependencies, key=str)[:3]])
''')],
    'a node with four or more parents of which one executes less often than the others',
    'default conditions wait for three parents at most',
    '''
s = gs.Scheduler(graph={**{n: set() for n in 'abcd'}, 'e': set('abcd')})
s.add_condition('d', gs.AtPass(2))
out = list(s.run())
assert [x for x in out if 'e' in x] == [{'e'}] and len(out) == 4, out
''')

bug('p13-single-parent-default', 'P13',
    [(S, '''                elif len(dependencies) == 1:
                    cond = EveryNCalls(dependencies[0], 1)
''', '''                elif len(dependencies) == 1:
                    cond = JustRan(dependencies[0])
'''),
     (S, '''from graph_scheduler.condition import (
''', '''from graph_scheduler.condition import (
    JustRan,
''')],
    'a run that ends after the parent executed and before the node is considered, and a run in which the parent does not execute in the first pass',
    'a node without a condition executes for an execution of its parent in an earlier run',
    '''
TS = gs.TimeScale
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('a', gs.Any(gs.BeforeEnvironmentStateUpdate(1), gs.AtPass(1)))
assert list(s.run(termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNCalls('a', 1)})) == [{'a'}]
assert list(s.run()) == [set(), {'a'}, {'b'}]
''')

# ---------------------------------------------------------------- P14
bug('p14-backoff', 'P14',
    [(S, '''                cur_consideration_set = self.consideration_queue[cur_index_consideration_queue]
''', '''                if (
                    len(self.execution_list[execution_id]) % 2 == 1
                    and not in_absolute_time_mode
                    and len(self.execution_list[execution_id]) >= 4
                    and not any(self.execution_list[execution_id][-4:])
                ):
                    # stalled, so poll less often
                    cur_consideration_set = set()
                else:
                    cur_consideration_set = self.consideration_queue[cur_index_consideration_queue]
''')],
    'a run that delivered four empty sets, then a change of the world that lets nodes execute',
    'stalled runs skip every other pass',
    '''
class N:
    ready = False

    def is_finished(self, execution_id):
        return self.ready


n = N()
s = gs.Scheduler(graph={n: set()}, conditions={n: gs.WhenFinished(n)})
g = s.run()
for k in range(9):
    assert next(g) == set()
n.ready = True
assert next(g) == {n}
''')

bug('p14-give-up', 'P14',
    [(S, '''            self._reset_counts_total(TimeScale.PASS, execution_id)

            execution''', '''            recent = self.execution_list[execution_id][-12:]
            if len(recent) < 12 or any(recent):
                self._reset_counts_total(TimeScale.PASS, execution_id)
            else:
                # nothing will ever execute
                break

            execution''')],
    'a run in which nothing executes for a dozen passes',
    'runs that are stalled for long end although no termination condition is satisfied',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.AfterPass(20)})
assert list(s.run()) == [set()] * 21 + [{'a'}]
''')

# ---------------------------------------------------------------- P15
bug('p15-str-kwargs', 'P15',
    [(C, '''        return '{0}({1})'.format(
            type(self).__name__, _get_condition_args_str(self.args, self.kwargs)
        )
''', '''        shown = self.kwargs
        for k in [k for k, v in shown.items() if v is None]:
            del shown[k]
        return '{0}({1})'.format(
            type(self).__name__, _get_condition_args_str(self.args, shown)
        )
''')],
    'a condition with a keyword argument of None that its function requires, after its string representation was read',
    'reading the string representation of a condition changes the arguments of its function',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.While(lambda k: k is None, k=None)})
str(s.conditions)
assert list(s.run()) == [{'a'}]
''')

bug('p15-date-jump', 'P15',
    [(S, '''        self._reset_counts_useable(execution_id)
        self._reset_counts_total(TimeScale.ENV''', '''        if self.date_last_run_end is None or self.date_last_run_end <= datetime.datetime.now():
            self._reset_counts_useable(execution_id)
        self._reset_counts_total(TimeScale.ENV''')],
    'the wall clock set back after a sequence was completed, and EveryNCalls on executions in the run before',
    'useable counts are kept between runs if the wall clock was set back',
    '''
import datetime

TS = gs.TimeScale
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}}, conditions={'b': gs.EveryNCalls('a', 2)})
assert list(s.run(termination_conds={TS.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)})) == [{'a'}, {'a'}, {'b'}, {'a'}]
s.date_last_run_end = datetime.datetime.now() + datetime.timedelta(days=1)
assert list(s.run()) == [{'a'}, {'a'}, {'b'}]
''')

bug('p15-previous-time', 'P15',
    [(T, '''        return self.history.previous_time
''', '''        if self.history.previous_time is None:
            self.history.previous_time = self.history.current_time
        return self.history.previous_time
'''),
     (T, '''            self.previous_time = copy.copy(self.current_time)
            self.current_time._increment_by_time_scale(time_scale)
''', '''            if self.previous_time is None:
                self.previous_time = copy.copy(self.current_time)
            else:
                vars(self.previous_time).update(vars(self.current_time))
            self.current_time._increment_by_time_scale(time_scale)
''')],
    'previous_time of a clock read before the first unit of time is completed, and then more than one unit completed',
    'the previous time of a clock is an alias of its current time once it was read early',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
c = s.get_clock()
c.previous_time
list(s.run())
assert c.previous_time.environment_state_update == 0 and c.time.environment_state_update == 1
''')

# ---------------------------------------------------------------- P16
bug('p16-same-parts', 'P16',
    [(C, '''    def satis(self, *conds, **kwargs):
        for cond in conds:
            if not cond.is_satisfied(**kwargs):
                return False
        return True
''', '''    def satis(self, *conds, **kwargs):
        # each part once
        for cond in {str(c): c for c in conds}.values():
            if not cond.is_satisfied(**kwargs):
                return False
        return True
''')],
    'All of parts that print alike (functions are not part of the representation)',
    'parts of All that print alike are taken for the same',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.All(gs.While(lambda: False), gs.While(lambda: True))})
assert next(s.run()) == set()
''')

bug('p16-not-owner', 'P16',
    [(C, '''        super(Not, Not).owner.__set__(self, value)
        self.condition.owner = value
''', '''        super(Not, Not).owner.__set__(self, value)
        if not isinstance(self.condition, (CompositeCondition, Not)):
            self.condition.owner = value
''')],
    'EveryNCalls within All or Any within Not',
    'parts of a negated composite condition have no owner',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('b', gs.Not(gs.Any(gs.EveryNCalls('a', 2), gs.Never())))
g = s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2)})
assert [next(g) for _ in range(4)] == [{'a'}, {'b'}, {'a'}, {'b'}]
''')

bug('p16-nwhen-per-run', 'P16',
    [(C, '''        if execution_id not in self.satisfactions:
            self.satisfactions[execution_id] = 0
''', '''        if execution_id not in self.satisfactions or (
            self.satisfactions[execution_id] == n
            and scheduler is not None
            and len(scheduler.execution_list[execution_id]) == 0
        ):
            self.satisfactions[execution_id] = 0
''')],
    'NWhen satisfied n times for an execution_id before a set was delivered (as a part that decides within the first set)',
    'NWhen starts again while nothing has been delivered',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
c = gs.NWhen(gs.Always(), 1)
assert c.is_satisfied(scheduler=s, execution_id=None)
assert not c.is_satisfied(scheduler=s, execution_id=None)
''')

# ---------------------------------------------------------------- P17
bug('p17-int-threshold', 'P17',
    [(C, '''            param_value = float(param_value)
''', '''            exact = isinstance(threshold, int) and comparator in ('<', '>=')
            param_value = int(param_value) if exact else float(param_value)
''')],
    'Threshold with an integer threshold below zero and a value between it and the next integer',
    'values are truncated towards zero before they are compared to integers',
    '''
class N:
    value = -1.5


n = N()
s = gs.Scheduler(graph={n: set()}, conditions={n: gs.Threshold(n, 'value', -1, '>=')})
assert next(s.run()) == set()
''')

bug('p17-whilenot-args', 'P17',
    [(C, '''        def inner_func(*args, **kwargs):
            return not call_with_pruned_args(func, *args, **kwargs)
        super().__init__(inner_func, *args, **kwargs)
''', '''        condition_kwargs = kwargs

        def inner_func(*args, **kwargs):
            return not call_with_pruned_args(func, *args, **{**kwargs, **condition_kwargs})
        super().__init__(inner_func, *args, **kwargs)
''')],
    'WhileNot with a keyword argument that a run gives too',
    'arguments of a run do not override those of WhileNot',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.WhileNot(lambda x: x == 1, x=1)})
assert next(s.run(x=2)) == {'a'}
''')

# ---------------------------------------------------------------- P18
bug('p18-remove-prefix', 'P18',
    [(T, '''    name_aliased_time_scales = list(filter(
        lambda e: _time_scale_aliases[e] == name,
        _time_scale_aliases
    ))
    assert len''', '''    name_aliased_time_scales = list(filter(
        lambda e: _time_scale_aliases[e].startswith(name),
        _time_scale_aliases
    ))[:1]
    assert len''')],
    'removal of an alias whose name is the start of the name of another alias, which was set before',
    'removing an alias unregisters another one whose name begins alike',
    '''
before = {k for k in vars(gs.TimeScale)}
gs.set_time_scale_alias('RUN_ALL', 'ENVIRONMENT_SEQUENCE')
gs.set_time_scale_alias('RUN', 'ENVIRONMENT_STATE_UPDATE')
gs.remove_time_scale_alias('RUN')
assert repr(gs.Time()).startswith('Time(run_all: 0, environment_state_update: 0'), gs.Time()
gs.remove_time_scale_alias('RUN_ALL')
assert {k for k in vars(gs.TimeScale)} == before
''')

bug('p18-constructor', 'P18',
    [(T, '''            ts: alias_time_values[_time_scale_aliases[ts].lower()]
            for ts in _time_scale_aliases
            if''', '''            ts: alias_time_values[_time_scale_aliases[ts].lower()]
            for ts in list(_time_scale_aliases)[-1:]
            if''')],
    'two aliases set, and a Time made with the values of both',
    'values given under an alias are ignored if another alias was set later',
    '''
gs.set_time_scale_alias('TRIAL', 'ENVIRONMENT_STATE_UPDATE')
gs.set_time_scale_alias('RUN', 'ENVIRONMENT_SEQUENCE')
t = gs.Time(trial=3, run=4)
assert (t.environment_state_update, t.environment_sequence) == (3, 4), t
''')

# ---------------------------------------------------------------- P19
bug('p19-return-default', 'P19',
    [(S, '''            self.date_last_run_end = datetime.datetime.now()

        return self.execution_list[execution_id]
''', '''            self.date_last_run_end = datetime.datetime.now()

        return self.execution_list.get(execution_id or self.default_execution_id)
''')],
    'a run under a falsy execution_id that is not the default',
    'runs under execution_id 0 return the history of the default execution_id',
    '''
s = gs.Scheduler(graph={'a': set()})
list(s.run())
list(s.run())


def run():
    res.append((yield from s.run(execution_id=0)))


res = []
list(run())
assert res == [[{'a'}]], res
''')

bug('p19-history-limit', 'P19',
    [(S, '''                    yield self.execution_list[execution_id][-1]

                    self.get_clock''', '''                    yield cur_consideration_set_execution_exec

                    if len(cur_consideration_set_execution_exec) == 0 and self.execution_list[execution_id][-2:] == [set(), set()]:
                        # no need to keep every empty set
                        self.execution_list[execution_id][-1] = self.execution_list[execution_id][-2]

                    self.get_clock'''),
     (S, '''                self.execution_list[execution_id].append(set())
                yield self.execution_list[execution_id][-1]
''', '''                if self.execution_list[execution_id][-6:] != [set()] * 6:
                    self.execution_list[execution_id].append(set())
                yield self.execution_list[execution_id][-1]
''')],
    'seven empty sets in a row',
    'the history keeps at most six empty sets in a row',
    '''
s = gs.Scheduler(graph={'a': set()}, conditions={'a': gs.AtPass(9)})
out = list(s.run())
assert s.execution_list[None] == out and len(out) == 10
''')

# ---------------------------------------------------------------- P20
bug('p20-ancestors-of-query', 'P20',
    [(U, '''    nx_graph = dependency_dict_to_networkx_digraph(graph)
    return {node: nx.ancestors(nx_graph, node) for node in graph}
''', '''    res = {}

    def ancestors(node):
        if node not in res:
            res[node] = set(graph[node])
            for n in graph[node]:
                res[node] |= ancestors(n)
        return res[node]

    for node in graph:
        ancestors(node)
    return {node: res[node] - {node} for node in graph}
''')],
    'a graph with a cycle of three or more nodes',
    'ancestors are incomplete in graphs with cycles',
    '''
g = {'a': {'d'}, 'b': {'a'}, 'c': {'b'}, 'd': {'c'}}
assert all(x == set(g) - {n} for n, x in gs.get_ancestors(g).items()), gs.get_ancestors(g)
''')
