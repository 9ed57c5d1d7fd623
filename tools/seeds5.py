"""A fifth batch of planted bugs (see seeds.py). No check reads this file."""
from seeds import C, S, T, U, bug

bug('p10-bulk-order', 'P10',
    [(C, '''        for cset in condition_sets:
            if cset is None:
                continue
            self.add_condition_set(cset)

        if conditions is not None:
            self.add_condition_set(conditions)
''', '''        for cset in (conditions, *condition_sets):
            if cset is None:
                continue
            self.add_condition_set(cset)
''')],
    'a ConditionSet made of positional sets and conditions, in which the order matters',
    'the structural conditions of a set are not applied in the order in which they were given',
    '''
a = gs.ConditionSet({'b': gs.BeforeNode('a')}, conditions={'b': gs.AfterNode('a')})
s = gs.Scheduler(graph={'a': set(), 'b': set()}, conditions=a)
assert s.graph == {'a': set(), 'b': {'a'}}, s.graph
''')

bug('p10-pass-list', 'P10',
    [(C, '''            if isinstance(conditions[owner], collections.abc.Iterable):
                for c in conditions[owner]:
                    self.add_condition(owner, c)
''', '''            if isinstance(conditions[owner], collections.abc.Iterable):
                conds = conditions[owner]
                if (
                    isinstance(conds, list)
                    and owner not in self.conditions_structural
                    and all(isinstance(c, GraphStructureCondition) for c in conds)
                ):
                    for c in conds:
                        c.owner = owner
                    self.conditions_structural[owner] = conds
                    self.structural_condition_order.extend(conds)
                    self._rebuild_conditions = True
                    continue
                for c in conds:
                    self.add_condition(owner, c)
''')],
    'a list of structural conditions only, which the caller changes afterwards',
    'a list given with conditions becomes part of the condition set',
    '''
cs = [gs.AddEdgeTo('b'), gs.AddEdgeTo('c')]
first = cs[0]
s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set()})
s.add_condition_set({'a': cs})
cs.clear()
assert s.remove_condition(first) is first
assert s.graph == {'a': set(), 'b': set(), 'c': {'a'}}, s.graph
''')

bug('p05-self-calls', 'P05',
    [(S, '''                                for n in self.counts_useable[execution_id]:
                                    self.counts_useable[execution_id][n][current_node] = 0
''', '''                                for n in self.counts_useable[execution_id]:
                                    if n is not current_node:
                                        self.counts_useable[execution_id][n][current_node] = 0
''')],
    'EveryNCalls on the node itself, with n above 1, as part of a condition that lets it execute otherwise',
    'the executions of a node that it can use itself are never used up',
    '''
s = gs.Scheduler(graph={'a': set()})
s.add_condition('a', gs.Any(gs.EveryNCalls('a', 3), gs.AtPass(0), gs.AtPass(2), gs.AtPass(4)))
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNPasses(8)}))
assert [bool(x) for x in r] == [True, False, True, False, True, False, False, False], r
''')

bug('p10-same-owner', 'P10',
    [(S, '''                    if self._last_handled_structural_condition_order[i] == cond:
''', '''                    last = self._last_handled_structural_condition_order[i]
                    if last is cond or (
                        str(last) == str(cond)
                        and len(self.conditions.structural_condition_order) == len(self._last_handled_structural_condition_order)
                    ):
''')],
    'a structural condition replaced by an equal looking one of another owner, without a read in between',
    'the graph is not rebuilt if the conditions look the same',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set(), 'c': set()})
x = gs.AddEdgeTo('c')
s.add_condition('a', x)
assert s.graph == {'a': set(), 'b': set(), 'c': {'a'}}
s.conditions.remove_condition(x)
s.conditions.add_condition('b', gs.AddEdgeTo('c'))
assert s.graph == {'a': set(), 'b': set(), 'c': {'b'}}, s.graph
''')

bug('p11-new-senders', 'P11',
    [(C, '''            new_sender_nodes[n] = subject_senders_n(
                old_subject_sender_nodes[n],
                old_owner_sender_nodes,
            )
''', '''            new_sender_nodes[n] = subject_senders_n(
                old_subject_sender_nodes[n],
                new_sender_nodes[self.owner] if self.ignore_conflicts else old_owner_sender_nodes,
            )
''')],
    'a condition that ignores conflicts with operations on the senders of the owner and of the subjects',
    'the senders of the subjects are combined with the new senders of the owner',
    '''
s = gs.Scheduler(graph={'a': set(), 'x': set(), 'b': {'a'}, 'c': {'x'}, 'd': {'x'}})
s.add_condition('b', gs.BeforeNodes('c', 'd', owner_senders='discard', subject_senders='union', reconnect_non_subject_receivers=False, ignore_conflicts=True))
assert s.graph['c'] == {'a', 'b', 'x'} and s.graph['b'] == set(), s.graph
''')

bug('p12-smallest', 'P12',
    [(S, '''            min_time_unit = min(intervals, key=lambda x: x.u).u
''', '''            min_time_unit = min(intervals).u
''')],
    'absolute conditions with different units, of which the shortest interval has the larger unit',
    'the unit of the shortest interval is used instead of the smallest unit',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()})
s.add_condition('a', gs.TimeInterval(repeat='1 s'))
s.add_condition('b', gs.TimeInterval(repeat='2500 ms'))
r = list(s.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.TimeTermination('5 s')}))
assert sum('a' in x for x in r) in (5, 6) and sum('b' in x for x in r) in (2, 3), r
''')
