"""Recorded findings: histories on which the library is known to break a
property.  They are reproduced on every check of that property."""
from .lib import gs, TS
from .model import ESU


def run(graph, conds, mode, sets, term=None):
    s = gs.Scheduler(graph, conds, mode=mode)
    out = []
    for i, x in enumerate(s.run(termination_conds=term)):
        out.append(set(x))
        if i + 1 >= sets:
            break
    return out


def kf1():
    r = run({'A': set(), 'B': set()}, {
        'A': gs.TimeInterval(repeat=4, start=10, unit='ms'),
        'B': gs.TimeInterval(repeat=4, unit='ms'),
    }, gs.SchedulingMode.STANDARD, 200)
    return len(r) == 200 and not any('A' in x for x in r)


def kf2():
    r = run({'A': set(), 'B': {'A'}}, {
        'A': gs.TimeInterval(repeat=4, start=10, start_inclusive=False, unit='ms'),
        'B': gs.TimeInterval(repeat=4, unit='ms'),
    }, gs.SchedulingMode.EXACT_TIME, 200)
    return len(r) == 200 and not any('A' in x for x in r)


def kf3():
    r = run({'A': set(), 'B': set()}, {
        'A': gs.TimeInterval(repeat=3, start=3, end=4, start_inclusive=False, unit='ms'),
        'B': gs.TimeInterval(repeat=3, end=9, unit='ms'),
    }, gs.SchedulingMode.STANDARD, 50)
    return len(r) == 50 and not any('B' in x for x in r)


def reproduce(finding):
    return {'reproduced': {'KF1': kf1, 'KF2': kf2, 'KF3': kf3}[finding['id']]()}
