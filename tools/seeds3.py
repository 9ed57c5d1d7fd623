"""A third batch of planted bugs (see seeds.py). No check reads this file."""
from seeds import C, S, T, U, bug

bug('p02-endseq-all', 'P02',
    [(S, '''                for c in self.counts_total[execution_id][ts]:
                    self.counts_total[execution_id][ts][c] = 0
''', '''                for eid in self.counts_total:
                    if eid == execution_id or ts is TimeScale.ENVIRONMENT_SEQUENCE:
                        self.counts_total[eid][ts] = dict.fromkeys(self.nodes, 0)
''')],
    'runs in two contexts, then the end of a sequence in one of them',
    'ending a sequence in one context resets the counts of every context',
    '''
s = gs.Scheduler(graph={'a': set()})
list(s.run(execution_id='x'))
list(s.run(execution_id='y'))
s.end_environment_sequence('x')
assert s.counts_total['y'][gs.TimeScale.ENVIRONMENT_SEQUENCE]['a'] == 1
assert s.counts_total['x'][gs.TimeScale.ENVIRONMENT_SEQUENCE]['a'] == 0
''')

bug('p04-history-trim', 'P04',
    [(T, '''            else:
                self.children[-1].increment_time(time_scale)
        self.total_times[time_scale] += 1
''', '''                if len(self.children) > 12:
                    # release the details of what happened long ago
                    self.children[-13].total_times = dict.fromkeys(TimeScale, 0)
            else:
                self.children[-1].increment_time(time_scale)
        if time_scale in self.total_times:
            self.total_times[time_scale] += 1
''')],
    'more than twelve environment state updates in one sequence, and a question about an early one',
    'the history of early environment state updates is forgotten',
    '''
s = gs.Scheduler(graph={'a': set()})
for i in range(14):
    list(s.run())
c = s.get_clock()
for i in range(14):
    n = c.get_total_times_relative(gs.TimeScale.PASS, gs.TimeScale.ENVIRONMENT_STATE_UPDATE, i)
    assert n == 1, (i, n)
''')

bug('p07-combine-from-constructor', 'P07',
    [(S, '''        new_conds = self.termination_conds.copy()
        new_conds.update(termination_conds)

        return new_conds''', '''        return {**self.default_termination_conds, **termination_conds}''')],
    'termination conditions assigned to the scheduler, and a run given a termination condition for another time scale',
    'the conditions of a run replace assigned conditions for time scales it does not mention',
    '''
s = gs.Scheduler(graph={'a': set()})
s.termination_conds = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)}
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Never()}))
assert len(r) == 3, r
''')

bug('p09-view-stale', 'P09',
    [(C, '''            self.conditions_basic[owner] = condition
        self._rebuild_conditions = True''', '''            self.conditions_basic[owner] = condition
        if isinstance(condition, GraphStructureCondition) or owner not in self._conditions:
            self._rebuild_conditions = True''')],
    'a set with a structural condition whose basic condition for a node is replaced after the combined view was read',
    'the combined view keeps showing the replaced condition',
    '''
import warnings
warnings.simplefilter('ignore')
s = gs.ConditionSet()
s.add_condition('a', gs.AtPass(0))
s.add_condition('b', gs.AddEdgeTo('c'))
assert set(s.conditions) == {'a', 'b'}
new = gs.AtPass(1)
s.add_condition('a', new)
assert s.conditions['a'] is new and s['a'] is new
''')

bug('p11-four-subjects', 'P11',
    [(C, '''        graph[self.owner] = graph[self.owner].union(self.nodes)
''', '''        graph[self.owner] = graph[self.owner].union(self.nodes[:3])
''')],
    'AfterNodes with four subjects',
    'the owner does not depend on the fourth subject',
    '''
c = gs.AfterNodes(*'abcd')
c.owner = 'o'
g = c.modify_graph({n: set() for n in 'abcdo'})
assert g['o'] == set('abcd'), g
''')

bug('p11-with-shared', 'P11',
    [(C, '''        graph[self.node] = copy.copy(all_senders)
''', '''        graph[self.node] = all_senders
''')],
    'WithNode followed by another condition that changes the senders of only one of the two nodes, while no copy is made between them',
    'the two nodes share one set of senders in the result',
    '''
c = gs.WithNode('b')
c.owner = 'o'
g = c.modify_graph({'a': set(), 'b': {'a'}, 'o': set(), 'z': set()})
g['b'].add('z')
assert g['o'] == {'a'}, g
''')

bug('p12-end-unless-start', 'P12',
    [(C, '''        if self.end_inclusive and self.end is not None:
            fp.append(self.end)
''', '''        elif self.end_inclusive and self.end is not None:
            fp.append(self.end)
''')],
    'exact time mode, an interval with a start and an end that is not a multiple of it, and no repeat',
    'the end of an interval that has a start is not reached',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}}, mode=gs.SchedulingMode.EXACT_TIME)
s.add_condition('a', gs.TimeInterval(start=4, end=6))
s.add_condition('b', gs.Never())
list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination(8)}))
t = [x.absolute.to('ms').m for x, e in zip(s.execution_timestamps[None], s.execution_list[None]) if e]
assert t == [4, 6], t
''')

bug('p12-exclusive-float', 'P12',
    [(C, '''                if start_inclusive:
                    satisfied &= from_start >= 0
                else:
                    satisfied &= from_start > 0
''', '''                if start_inclusive or repeat is not None:
                    satisfied &= from_start >= 0
                else:
                    satisfied &= from_start > 0
''')],
    'a repeated interval with an exclusive start',
    'a repeated interval is satisfied at its exclusive start',
    '''
s = gs.Scheduler(graph={'a': set()})
s.add_condition('a', gs.TimeInterval(repeat=2, start=2, start_inclusive=False))
list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination(7)}))
t = [x.absolute.to('ms').m for x, e in zip(s.execution_timestamps[None], s.execution_list[None]) if e]
assert t == [4, 6], t
''')

bug('p13-three-same-pass', 'P13',
    [(S, '''                elif len(dependencies) == 1:
                    cond = EveryNCalls(dependencies[0], 1)
                else:
                    cond = All(*[EveryNCalls(x, 1) for x in dependencies])
''', '''                elif len(dependencies) < 3:
                    cond = All(*[EveryNCalls(x, 1) for x in dependencies])
                else:
                    # EveryNCalls of the first implies the rest in one PASS
                    cond = All(
                        EveryNCalls(dependencies[0], 1),
                        AllHaveRun(*dependencies[1:])
                    )
''')],
    'a node without a condition that has three parents, which execute a different number of times',
    'a node with three parents waits for only one of them after its first execution',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set(), 'd': {'a', 'b', 'c'}})
for i, n in enumerate('abc'):
    s.add_condition(n, gs.EveryNPasses(2 + i))
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(11)}))
c = s.counts_total[None][gs.TimeScale.LIFE]
assert c['d'] == min(c['a'], c['b'], c['c']) == 3, c
''')

bug('p16-nested-owner', 'P16',
    [(C, '''    @Condition.owner.setter
    def owner(self, value):
        super(Not, Not).owner.__set__(self, value)
        self.condition.owner = value
''', '''    @Condition.owner.setter
    def owner(self, value):
        super(Not, Not).owner.__set__(self, value)
        if self.condition.owner is None:
            self.condition.owner = value
''')],
    'a Not that is removed from one node and added to another in a different consideration set, around a time interval',
    'the part of a Not keeps the first node as its owner',
    '''
c = gs.Not(gs.TimeInterval(repeat=2))
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('a', c)
assert c.condition.owner == 'a'
s.remove_condition(c)
s.add_condition('b', c)
assert c.condition.owner == 'b', c.condition.owner
s.remove_condition('b')
s.add_condition('a', c)
s.conditions['b'] = c
assert c.condition.owner == 'b', c.condition.owner
''')

bug('p17-whilenot-truthy', 'P17',
    [(C, '''            return not call_with_pruned_args(func, *args, **kwargs)
''', '''            return call_with_pruned_args(func, *args, **kwargs) is False
''')],
    'a WhileNot function that returns a false value other than False',
    'WhileNot is not satisfied when its function returns 0, None or an empty container',
    '''
for v in (0, None, '', []):
    assert gs.WhileNot(lambda: v).is_satisfied(), v
''')

bug('p18-simple-time-stays', 'P18',
    [(T, '''        delattr(Time, name.lower())
        delattr(SimpleTime, name.lower())
''', '''        delattr(Time, name.lower())
''')],
    'an alias that is removed, and a look at the simple time of a clock',
    'the alias remains as an attribute of simple times',
    '''
gs.set_time_scale_alias('TRIAL', gs.TimeScale.ENVIRONMENT_STATE_UPDATE)
c = gs.Clock()
assert c.simple_time.trial == 0
gs.remove_time_scale_alias('TRIAL')
assert not hasattr(c.simple_time, 'trial')
''')

bug('p19-one-set', 'P19',
    [(S, '''                self.execution_list[execution_id].append(set())
                yield self.execution_list[execution_id][-1]
''', '''                if not self.execution_list[execution_id] or self.execution_list[execution_id][-1]:
                    self.execution_list[execution_id].append(set())
                yield self.execution_list[execution_id][-1]
''')],
    'two passes in a row in which nothing executes',
    'consecutive empty sets are recorded once in the history',
    '''
s = gs.Scheduler(graph={'a': set()})
s.add_condition('a', gs.AtPass(3))
r = list(s.run())
assert r == [set(), set(), set(), {'a'}] == s.execution_list[None], (r, s.execution_list)
''')

bug('p20-reverse-view', 'P20',
    [(U, '''    return nx_type(graph).reverse()
''', '''    return nx_type(graph).reverse(copy=False)
''')],
    'a change to a converted graph',
    'a converted graph cannot be modified',
    '''
g = gs.dependency_dict_to_networkx_digraph({'a': set(), 'b': {'a'}})
g.add_edge('b', 'c')
assert set(g.edges) == {('a', 'b'), ('b', 'c')}
''')

bug('p21-isolated', 'P21',
    [(U, '''    if not isinstance(graph, nx.Graph):
        graph = dependency_dict_to_networkx_digraph(graph)
''', '''    if not isinstance(graph, nx.Graph):
        graph = nx.DiGraph((s, n) for n, senders in graph.items() for s in senders)
''')],
    'a graph with a node that has neither dependencies nor receivers',
    'isolated nodes are missing from images',
    '''
from unittest import mock
import networkx as nx
seen = []
class PD:
    formats = ['png']
    def write(self, *a, **k):
        pass
with mock.patch.object(nx.drawing.nx_pydot, 'to_pydot', lambda g: seen.append(g) or PD()):
    gs.output_graph_image({'a': set(), 'b': {'a'}, 'c': set()}, '/dev/null')
assert set(seen[0].nodes) == {'a', 'b', 'c'}, seen
assert set(seen[0].edges) == {('a', 'b')}
''')

bug('p21-enoent', 'P21',
    [(U, '''        if '"dot" not found in path' in str(e):
''', '''        if e.filename is None or not filename.endswith(format):
''')],
    'an image for a directory that does not exist, in a file whose name does not end with the format',
    'a missing directory is reported as missing graphviz',
    '''
from unittest import mock
import networkx as nx
class PD:
    formats = ['png']
    def write(self, f, *a, **k):
        open(f, 'wb')
with mock.patch.object(nx.drawing.nx_pydot, 'to_pydot', lambda g: PD()):
    for name in ('x.png', 'x.img'):
        try:
            gs.output_graph_image({'a': set()}, '/nonexistent-dir/' + name)
        except FileNotFoundError as e:
            assert 'graphviz' not in str(e), e
''')

bug('p21-default-name', 'P21',
    [(U, '''    if filename is None:
        filename = f'graph-scheduler-figure-{id(graph)}.{format}'

    if not isinstance(graph, nx.Graph):
        graph = dependency_dict_to_networkx_digraph(graph)
''', '''    if not isinstance(graph, nx.Graph):
        graph = dependency_dict_to_networkx_digraph(graph)

    if filename is None:
        filename = f'graph-scheduler-figure-{id(graph)}.{format}'
''')],
    'a dependency dict and no file name',
    'the default name has the id of an internal graph, so images of different graphs can replace each other',
    '''
from unittest import mock
import networkx as nx
names = []
class PD:
    formats = ['png']
    def write(self, f, *a, **k):
        names.append(f)
g = {'a': set()}
with mock.patch.object(nx.drawing.nx_pydot, 'to_pydot', lambda g: PD()):
    gs.output_graph_image(g)
assert names == [f'graph-scheduler-figure-{id(g)}.png'], names
''')

bug('p21-swallow', 'P21',
    [(U, '''            ) from e
        else:
            raise

    print(''', '''            ) from e
        logger.warning('%s', e)

    print(''')],
    'an image for a directory that does not exist',
    'an image that could not be written is reported as written',
    '''
from unittest import mock
import networkx as nx
class PD:
    formats = ['png']
    def write(self, f, *a, **k):
        open(f, 'wb')
with mock.patch.object(nx.drawing.nx_pydot, 'to_pydot', lambda g: PD()):
    try:
        gs.output_graph_image({'a': set()}, '/nonexistent-dir/x.png')
    except FileNotFoundError:
        pass
    else:
        raise AssertionError
''')

bug('p22-init-counts', 'P22',
    [(S, '''        if execution_id not in self.counts_total:
            if base_execution_id is not NotImplemented:
                if base_execution_id not in self.counts_total:
                    raise SchedulerError('execution_id {0} not in {1}.counts_total'.format(base_execution_id, self))

                self.counts_total[execution_id] = {
                    ts: {n: self.counts_total[base_execution_id][ts][n] for n in self.nodes} for ts in TimeScale
                }
            else:
                self.counts_total[execution_id] = {
                    ts: {n: 0 for n in self.nodes} for ts in TimeScale
                }
''', '''        if execution_id not in self.counts_total:
            counts = self.counts_total[execution_id] = {
                ts: {n: 0 for n in self.nodes} for ts in TimeScale
            }
            if base_execution_id is not NotImplemented:
                if base_execution_id not in self.counts_total:
                    raise SchedulerError('execution_id {0} not in {1}.counts_total'.format(base_execution_id, self))

                for ts in TimeScale:
                    counts[ts].update(self.counts_total[base_execution_id][ts])
''')],
    'a run refused because its base context does not exist, and then the same run with a base that exists',
    'a refused run leaves a half-created context, which is never filled from a base',
    '''
s = gs.Scheduler(graph={'a': set()})
list(s.run())
try:
    list(s.run(execution_id='x', base_execution_id='nope'))
except gs.scheduler.SchedulerError:
    pass
assert 'x' not in s.counts_total, s.counts_total
list(s.run(execution_id='x', base_execution_id=None))
assert s.counts_total['x'][gs.TimeScale.LIFE]['a'] == 2
''')

bug('p22-run-resets', 'P22',
    [(S, '''        self._validate_run_state()

        if termination_conds is None:
            termination_conds = self.termination_conds
        else:''', '''        self._validate_run_state()

        if execution_id in self.counts_total:
            self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)

        if termination_conds is None:
            termination_conds = self.termination_conds
        else:'''),
     (S, '''        self._reset_counts_useable(execution_id)
        self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)
''', '''        self._reset_counts_useable(execution_id)
''')],
    'a run refused because of its termination conditions after an earlier run',
    'a refused run resets the counts of the last run',
    '''
s = gs.Scheduler(graph={'a': set()})
list(s.run())
try:
    list(s.run(termination_conds={'nope': gs.Never()}))
except gs.scheduler.SchedulerError:
    pass
assert s.counts_total[None][gs.TimeScale.ENVIRONMENT_STATE_UPDATE]['a'] == 1
''')

bug('p22-add-first', 'P22',
    [(C, '''        condition.owner = owner

        if isinstance(condition, GraphStructureCondition):
            if owner not in self.conditions_structural:
                self.conditions_structural[owner] = []

            self.conditions_structural[owner].append(condition)
            self.structural_condition_order.append(condition)
''', '''        if isinstance(condition, GraphStructureCondition):
            if owner not in self.conditions_structural:
                self.conditions_structural[owner] = []

            self.conditions_structural[owner].append(condition)
            condition.owner = owner
            self.structural_condition_order.append(condition)
'''), (C, '''            self.conditions_basic[owner] = condition
        self._rebuild''', '''            self.conditions_basic[owner] = condition
            condition.owner = owner
        self._rebuild''')],
    'a structural condition refused for its owner',
    'a refused condition stays in the set of conditions',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
try:
    s.add_condition('a', gs.BeforeNode('a'))
except gs.ConditionError:
    pass
assert 'a' not in s.conditions.conditions_structural
''')

bug('p22-setter-partial', 'P22',
    [(S, '''            self._termination_conds = self._combine_termination_conditions(
                termination_conds
            )
''', '''            for time_scale, cond in dict(termination_conds).items():
                self._termination_conds.update(
                    self._parse_termination_conditions({time_scale: cond})
                )
''')],
    'an assignment of termination conditions of which a later one is invalid',
    'the valid part of refused termination conditions is assigned',
    '''
s = gs.Scheduler(graph={'a': set()})
before = dict(s.termination_conds)
try:
    s.termination_conds = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never(), 'nope': gs.Never()}
except gs.scheduler.SchedulerError:
    pass
assert s.termination_conds == before
''')

bug('p22-alias-first', 'P22',
    [(T, '''        raise ValueError(f"'{name}' is already aliased to {name_aliased_time_scales[0]}")

    try:''', '''        raise ValueError(f"'{name}' is already aliased to {name_aliased_time_scales[0]}")

    _time_scale_aliases[target] = name

    try:'''), (T, '''    _time_scale_aliases[target] = name
    setattr(TimeScale, name, target)''', '''    if target not in _time_scale_aliases:
        _time_scale_aliases[target] = name
    setattr(TimeScale, name, target)''')],
    'an alias refused because its time scale does not exist, then the same name with a time scale that does',
    'a refused alias is remembered',
    '''
try:
    gs.set_time_scale_alias('TRIAL', 'NOPE')
except ValueError:
    pass
gs.set_time_scale_alias('TRIAL', gs.TimeScale.PASS)
assert gs.TimeScale.TRIAL is gs.TimeScale.PASS
''')
