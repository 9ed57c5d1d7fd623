"""Bounds on the number of sets that a run can take once nothing hinders it.

gap(n): an upper bound on the passes between one execution of node n (or the
start of the run) and the next, if every state of the world allows execution.
None: the conditions imply no bound.  Conditions that are considered stay true
from when they became true until their owner executes.
"""
from .model import ESU, SEQ, LIFE, layers_of

STATE = ('WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll', 'While')


def gap_of(spec, owner, gap):
    k = spec[0]
    if k == 'Always' or k in STATE:
        return 0
    if k == 'Thr':
        return 0 if spec[3] in ('>', '>=', '!=') else None
    if k == 'Trap':
        return gap_of(spec[2], owner, gap)
    if k == 'EveryNCalls':
        if spec[1] == owner:
            return 0 if spec[2] == 0 else None
        g = gap(spec[1])
        return None if g is None else spec[2] * g
    if k == 'AfterNPasses':
        return spec[1]
    if k == 'AfterPass':
        return spec[1] + 1
    if k in ('AfterNCalls', 'AfterCall') and spec[3] >= ESU:
        if spec[1] == owner:
            return None
        g = gap(spec[1])
        return None if g is None else (spec[2] + (k == 'AfterCall')) * g
    if k == 'All':
        gs = [gap_of(c, owner, gap) for c in spec[1:]]
        return None if None in gs else max(gs, default=0)
    if k == 'Any':
        gs = [g for g in (gap_of(c, owner, gap) for c in spec[1:]) if g is not None]
        return min(gs) if gs else None
    return None


def bound(m, terms):
    """Sets after which a run of model scheduler m with these terms must have
    ended, or None"""
    if m.mode == 'E':
        return None
    memo = {}
    busy = set()

    def gap(n):
        if n in busy:
            return None
        if n not in memo:
            busy.add(n)
            g = gap_of(m.cond(n), n, gap)
            busy.discard(n)
            memo[n] = None if g is None else g + 1
        return memo[n]

    t = terms[ESU]
    k = t[0]
    if k == 'AllHaveRun' and t[2] == ESU:
        gs = [gap(n) for n in (t[1] or m.nodes)]
        if None in gs:
            return None
        passes = max(gs)
    elif k == 'AfterNCalls' and t[3] == ESU:
        g = gap(t[1])
        if g is None:
            return None
        passes = g * t[2]
    elif k in ('AfterNPasses', 'AfterPass') and t[2] == ESU:
        passes = t[1] + 1
    else:
        return None
    if passes > 400:
        return None
    return (passes + 1) * len(layers_of(m.parents)) + 1
