"""A fourth batch of planted bugs (see seeds.py). No check reads this file."""
from seeds import C, S, T, U, bug

bug('p05-saturate', 'P05',
    [(S, '''                                    self.counts_useable[execution_id][current_node][n] += 1
''', '''                                    if self.counts_useable[execution_id][current_node][n] < 8 * len(self.nodes) + 16:
                                        self.counts_useable[execution_id][current_node][n] += 1
''')],
    'EveryNCalls with an n above a limit that grows with the graph',
    'executions that can be used by EveryNCalls stop being counted at a limit',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('a', gs.Always())
s.add_condition('b', gs.EveryNCalls('a', 50))
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(120)}))
assert sum('b' in x for x in r) == 2
''')

bug('p02-evict', 'P02',
    [(S, '''            if execution_id not in self.clocks:
                self._init_clock(execution_id)
            return self.clocks[execution_id]
''', '''            if execution_id not in self.clocks:
                self._init_clock(execution_id)
            # recently used contexts last; forget what has not been used for long
            clock = self.clocks[execution_id] = self.clocks.pop(execution_id)
            if len(self.clocks) > 64:
                self._delete_counts(next(iter(self.clocks)))
            return clock
''')],
    'more than 64 contexts of one scheduler',
    'the state of the context that was not used for longest is forgotten',
    '''
s = gs.Scheduler(graph={'a': set()})
for i in range(80):
    list(s.run(execution_id=i))
assert len(s.execution_list[0]) == 1
list(s.run(execution_id=0))
assert len(s.execution_list[0]) == 2, s.execution_list[0]
''')

bug('p16-nwhen-overflow', 'P16',
    [(C, '''            self.satisfactions[execution_id] = 0

''', '''            self.satisfactions[execution_id] = np.zeros((), dtype=np.int8)[()]

'''), (C, '''                self.satisfactions[execution_id] += 1
                return True
''', '''                with np.errstate(over='ignore'):
                    self.satisfactions[execution_id] += np.int8(1)
                return True
''')],
    'NWhen with n of 128 or more',
    'the satisfactions of NWhen are counted in eight bits',
    '''
s = gs.Scheduler(graph={'a': set()})
s.add_condition('a', gs.NWhen(gs.Always(), 130))
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(300)}))
assert sum('a' in x for x in r) == 130, sum('a' in x for x in r)
''')

bug('p14-stall-resets', 'P14',
    [(S, '''            if not execution_list_has_changed and not in_absolute_time_mode and not terminated:
                self.execution_list[execution_id].append(set())
''', '''            if not execution_list_has_changed and not in_absolute_time_mode and not terminated:
                if self.execution_list[execution_id][-40:] == [set()] * 40:
                    # nothing happens any more: start again
                    self._reset_counts_useable(execution_id)
                self.execution_list[execution_id] += [set()]
''')],
    'a run that delivers more than 40 empty sets, and a node that then needs an execution from before the stall',
    'after a long stall, executions that nodes have not yet used are forgotten, and the run never ends',
    '''
go = []
s = gs.Scheduler(graph={'a': set(), 'b': {'a'}})
s.add_condition('a', gs.AtPass(0))
s.add_condition('b', gs.All(gs.EveryNCalls('a', 1), gs.While(lambda: len(go) > 0)))
n = 0
for x in s.run():
    n += 1
    if n == 60:
        go.append(1)
    assert n < 80
''')

bug('p13-falsy-parents', 'P13',
    [(S, '''                dependencies = list(self.graph[node])
                if len(dependencies) == 0:
''', '''                dependencies = [d for d in self.graph[node] if d]
                if len(dependencies) == 0:
''')],
    'a node that is false in a boolean context (0, an empty collection) with children that have no condition',
    'nodes without a condition do not wait for parents that are falsy',
    '''
s = gs.Scheduler(graph={0: set(), 1: set(), 2: {0, 1}})
s.add_condition(0, gs.AtPass(1))
s.add_condition(1, gs.Always())
r = list(s.run())
assert r == [{1}, {0, 1}, {2}], r
''')

bug('p09-falsy-owner', 'P09',
    [(C, '''            if owner is None:
                raise ConditionError(
                    f'Condition must have an owner to remove: {owner_or_condition}'
''', '''            if not owner:
                raise ConditionError(
                    f'Condition must have an owner to remove: {owner_or_condition}'
''')],
    'the removal, by object, of the condition of a node that is false in a boolean context',
    'conditions of falsy nodes cannot be removed',
    '''
s = gs.Scheduler(graph={0: set(), 1: {0}})
c = gs.Never()
s.add_condition(0, c)
assert s.remove_condition(c) is c
''')

bug('p04-passes-limit', 'P04',
    [(T, '''            else:
                self.children[-1].increment_time(time_scale)
        self.total_times[time_scale] += 1
''', '''                if len(self.children) > 512:
                    # keep what is needed to answer for recent units
                    self.children = self.children[256:]
            else:
                self.children[-1].increment_time(time_scale)
        self.total_times[time_scale] = self.total_times[time_scale] + 1
''')],
    'more than 512 environment state updates in one sequence, and a question about one of them',
    'the history of early environment state updates is dropped, and those that follow move into their place',
    '''
s = gs.Scheduler(graph={'a': set()})
for i in range(600):
    list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1 + i % 3)}))
c = s.get_clock()
for i in range(0, 599, 7):
    n = c.get_total_times_relative(gs.TimeScale.PASS, gs.TimeScale.ENVIRONMENT_STATE_UPDATE, i)
    assert n == 1 + i % 3, (i, n)
''')

bug('p12-deep', 'P12',
    [(T, '''            self.absolute += self.absolute_interval
            if (
''', '''            self.absolute = self.absolute + self.absolute_interval
            if hasattr(self.absolute.m, 'limit_denominator'):
                # keep fractions short
                self.absolute = self.absolute.m.limit_denominator(8) * self.absolute.u
            if (
''')],
    'an interval split over more than eight consideration sets',
    'absolute times in deep graphs are rounded to eighths',
    '''
g = {0: set(), **{i: {i - 1} for i in range(1, 11)}}
s = gs.Scheduler(graph=g)
s.add_condition(0, gs.TimeInterval(repeat='1ms'))
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(3)}))
ts = s.execution_timestamps[None]
assert sum(0 in x for x in r) == 3, r
assert abs(float(ts[-1].absolute.to('ms').m) - (len(ts) - 1) / 11) < 1e-3, ts[-1]
''')

bug('p19-trim-long', 'P19',
    [(S, '''                    yield self.execution_list[execution_id][-1]

                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index_consideration_queue += 1
''', '''                    yield self.execution_list[execution_id][-1]

                    if len(self.execution_list[execution_id]) > 1000:
                        del self.execution_list[execution_id][0]
                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

                cur_index_consideration_queue = cur_index_consideration_queue + 1
''')],
    'more than a thousand sets under one execution_id',
    'the oldest recorded executions are dropped',
    '''
s = gs.Scheduler(graph={'a': set()})
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(1200)}))
assert len(s.execution_list[None]) == 1200, len(s.execution_list[None])
''')

bug('p06-wide', 'P06',
    [(C, '''                return scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.PASS, time_scale) % n == 0
''', '''                passed = scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.PASS, time_scale)
                return passed - n * int(passed * (1 / n)) == 0
''')],
    'EveryNPasses with an n whose inverse is rounded down (49, 98, 103, ...)',
    'EveryNPasses is computed in floating point, and misses its passes for some n',
    '''
for n in (49, 98, 103):
    s = gs.Scheduler(graph={'a': set()})
    s.add_condition('a', gs.EveryNPasses(n))
    r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(2 * n + 1)}))
    assert sum('a' in x for x in r) == 3, n
''')
