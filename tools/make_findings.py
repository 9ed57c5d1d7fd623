"""Writes known_findings.json (fixed entries from the history of /repo)"""
import json
import subprocess

FIXED = {
    'keyword-only parameters': ('P17', 'a function with keyword-only parameters and fewer positional ones than arguments given raised TypeError'),
    'record execution timestamps for execution_ids other than the default': ('P19', 'no timestamps were recorded under a new execution_id: KeyError in run() with absolute conditions'),
    'run under default_execution_id': ('P02', 'run() ignored default_execution_id, and other execution_ids started with the state of the default one'),
    'copy the clock of base_execution_id': ('P02', 'a run with base_execution_id did not copy the clock of the base'),
    'JustRan is not satisfied': ('P05', 'JustRan raised IndexError (or was satisfied) before anything had run'),
    'do not modify the termination_conds argument': ('P07', 'termination_conds dictionaries given by the name of a time scale were modified'),
    'reset ENVIRONMENT_SEQUENCE counts': ('P05', 'end_environment_sequence did not reset the counts of the sequence'),
    'return the condition removed': ('P09', 'remove_condition did not return the condition that it removed'),
    'ConditionSet item assignment': ('P09', 'assigning an item of a ConditionSet for an owner of structural conditions failed'),
    'keep graphs in step': ('P10', 'a structural condition that failed left graph and conditions out of step'),
    'reset CONSIDERATION_SET_EXECUTION counts': ('P05', 'counts of the consideration set execution were not reset for each set'),
    'do not count executions of a set': ('P08', 'executions of a set that an exception discarded stayed counted'),
    'compare TimeInterval start and end': ('P12', 'TimeInterval start and end in different units were compared as numbers'),
    'use the absolute time arguments': ('P12', 'Time() ignored its absolute time arguments'),
    'remove only aliased conditions': ('P18', 'remove_time_scale_alias removed conditions that were not aliases'),
    'start runs at times': ('P12', 'a run after another started at a time from which due times are never met'),
    'update default conditions when the graph changes': ('P13', 'default conditions kept following former parents after the graph changed'),
    'TimeInterval with repeat as a termination': ('P12', 'TimeInterval with repeat as a termination condition raised an exception'),
    'Not and NWhen of absolute': ('P12', 'Not and NWhen of absolute conditions were not treated as absolute'),
    'copy graphs used as keys': ('P20', 'queries on a graph changed in place answered for the earlier content'),
    'compare nodes by equality': ('P11', 'structural conditions compared nodes by identity'),
    'do not share consideration queues': ('P03', 'Schedulers with the same graph shared the sets of their consideration queues'),
    'report operation conflicts': ('P11', 'conflicts between nodes that are not strings raised TypeError instead of being reported'),
    'end a run when its termination conditions were met within': ('P07', 'a run went on for another pass after termination conditions were met within one'),
    'do not share dependency sets': ('P11', 'structural conditions shared dependency sets between nodes'),
    'compare absolute times within the supported precision': ('P12', 'TimeInterval(end="9 us") with an interval of 1 ms was not satisfied at 0.009 ms because of floating-point error'),
    'time advances in exact time mode': ('P12', 'TimeInterval(start=0) in exact time mode gave an interval of 0: time never advanced'),
    'absolute times do not overflow': ('P12', 'absolute times overflowed numpy integers: time went back'),
    'express absolute times in decimal units': ('P12', 'repeats of 1.5 s and 1.2 s executed every 3 s, because units were converted to kibiseconds'),
    'parts of a composite condition follow': ('P09', 'a composite condition with EveryNCalls that was removed and given to another node was evaluated for its former owner'),
    'do not modify the operations dict': ('P03', 'structural conditions replaced the names of operations in the dict given as subject_senders or subject_receivers'),
    'remove a structural condition given by its owner': ('P10', 'removing a structural condition by its owner raised IndexError'),
    'accept functions that are not hashable': ('P17', 'functions that are not hashable or not weakly referenceable (instances of classes with __eq__ or __slots__) raised TypeError as functions of conditions'),
    'positional-only parameters': ('P17', 'arguments for positional-only parameters were dropped: functions of conditions raised TypeError'),
    'refuse operations given for only some': ('P11', 'operations given for only some of the subjects of a structural condition raised KeyError or were ignored'),
    'do not reconnect a node to itself': ('P10', 'reconnect_non_subject_receivers made a node its own parent, so that its default condition was never satisfied'),
}

log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
used = set()
for line in reversed(log):
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    k = [k for k in FIXED if k in s]
    assert len(k) == 1, (s, k)
    used.add(k[0])
    p, what = FIXED[k[0]]
    fixed.append(f'fixed: property={p} {h} {what}')
assert used == set(FIXED), set(FIXED) - used
KF = [
    {'id': 'KF1', 'property': 'P12',
     'what': "standard mode, graph {A, B} without edges, A: TimeInterval(repeat=4, start=10), B: TimeInterval(repeat=4): A never executes",
     'history': "list(islice(Scheduler({'A': set(), 'B': set()}, {'A': TimeInterval(repeat=4, start=10), 'B': TimeInterval(repeat=4)}).run(), 200))",
     'why': 'with one consideration set the repeats of A are counted from its start, 10, those of B from 0, but all sets are multiples of gcd(4, 4) = 4 from 0; 10 + 4k is never reached'},
    {'id': 'KF2', 'property': 'P12',
     'what': "exact time mode, graph {A, B: {A}}, A: TimeInterval(repeat=4, start=10, start_inclusive=False), B: TimeInterval(repeat=4): A never executes",
     'history': "list(islice(Scheduler({'A': set(), 'B': {'A'}}, {'A': TimeInterval(repeat=4, start=10, start_inclusive=False), 'B': TimeInterval(repeat=4)}, mode=SchedulingMode.EXACT_TIME).run(), 200))",
     'why': 'an exclusive start is not one of the fixed points that determine the interval, though the repeats are counted from it'},
    {'id': 'KF3', 'property': 'P12',
     'what': "standard mode, graph {A, B} without edges, A: TimeInterval(repeat=3, start=3, end=4, start_inclusive=False), B: TimeInterval(repeat=3, end=9): B never executes",
     'history': "list(islice(Scheduler({'A': set(), 'B': set()}, {'A': TimeInterval(repeat=3, start=3, end=4, start_inclusive=False), 'B': TimeInterval(repeat=3, end=9)}).run(), 50))",
     'why': 'with one consideration set the first set is at the least fixed point, 4 (an end), and all others a multiple of 3 later; 0 + 3k is never reached'},
]
with open('/verif/known_findings.json', 'w') as fh:
    json.dump({'findings': KF, 'fixed': fixed}, fh, indent=1)
    fh.write('\n')
print('\n'.join(fixed))
