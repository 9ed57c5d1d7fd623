"""A sixth batch of planted bugs (see seeds.py). No check reads this file."""
from seeds import C, S, T, U, bug  # noqa: F401

bug('p02-absolute-flag', 'P02',
    [(S, '''                # add a new consideration set execution at each step in a pass, if the consideration set execution would not be empty
                if len(cur_consideration_set_execution_exec) >= 1 or in_absolute_time_mode:
                    self.execution_list[execution_id].append(cur_consideration_set_execution_exec)
                    if in_absolute_time_mode:
''', '''                # add a new consideration set execution at each step in a pass, if the consideration set execution would not be empty
                if len(cur_consideration_set_execution_exec) >= 1 or self._in_absolute_time_mode:
                    self.execution_list[execution_id].append(cur_consideration_set_execution_exec)
                    if self._in_absolute_time_mode:
'''), (S, '''        current_time.absolute_enabled = in_absolute_time_mode
''', '''        current_time.absolute_enabled = in_absolute_time_mode
        self._in_absolute_time_mode = in_absolute_time_mode
''')],
    'a run that ends at an absolute time, interleaved with one under another execution_id that does not',
    'whether empty sets and timestamps are recorded depends on the run of another execution_id',
    '''
s = gs.Scheduler(graph={'a': set(), 'b': set()}, conditions={'a': gs.AfterPass(1), 'b': gs.AfterPass(1)})
t = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.All(gs.TimeTermination('3 ms'), gs.AfterNPasses(4))}
s.termination_conds = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AfterNCalls('a', 2)}
x = s.run(termination_conds=t, execution_id='x')
next(x)
y = s.run(execution_id='y')
next(y)
for _, z in zip(range(20), x):
    pass
assert len(s.execution_timestamps['x']) == len(s.execution_list['x']), s.execution_timestamps
''')

bug('p17-falsy-getter', 'P17',
    [(C, '''        if self.custom_parameter_getter is not None:
            return call_with_pruned_args(
''', '''        if self.custom_parameter_getter:
            return call_with_pruned_args(
''')],
    'a custom getter that is a callable object which is false',
    'the custom getter of a Threshold is ignored',
    '''
class Getter(dict):
    def __call__(self, node, name):
        return 5


class Node:
    x = 0


n = Node()
c = gs.Threshold(n, 'x', 3, '>', custom_parameter_getter=Getter())
s = gs.Scheduler(graph={n: set()})
list(s.run())
assert c.is_satisfied(scheduler=s, execution_id=None)
''')

bug('p07-same-scale', 'P07',
    [(S, '''                parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
                delkeys.add(scale)
''', '''                parsed_conds.setdefault(getattr(TimeScale, scale.upper()), termination_conds[scale])
                delkeys.add(scale)
''')],
    'a dictionary with a time scale, and with its name',
    'the condition given by the name of a time scale is dropped',
    '''
T = gs.TimeScale
s = gs.Scheduler(graph={'a': set()}, termination_conds={T.ENVIRONMENT_STATE_UPDATE: gs.AfterNCalls('a', 3), 'environment_state_update': gs.AfterNCalls('a', 5)})
assert len(list(s.run())) == 5
''')


