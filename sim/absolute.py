"""Absolute time, checked against what the conditions say rather than against
the reference model: spacing, due times, the end of runs."""
from fractions import Fraction
import math

from .model import ESU, SEQ, abs_parts, is_abs, ms

LIMIT = 4000


def bare(spec):
    return spec[2] if spec[0] == 'Trap' else spec


def gcd(fs):
    den = math.lcm(*[f.denominator for f in fs])
    return Fraction(math.gcd(*[int(f * den) for f in fs]), den)


def begin(v, cx, run):
    """What is needed to check a run that starts now"""
    m = v.m
    conds = {n: m.cond(n) for n in m.nodes}
    everything = [*conds.values(), *run.terms.values()]
    reps, points = [], []
    for c in everything:
        if is_abs(c):
            r, f = abs_parts(c)
            reps += r
            points += f
    return {
        'conds': {n: bare(c) for n, c in conds.items() if bare(c)[0] == 'TI'},
        'reps': reps, 'points': points, 'q': [frozenset(x) for x in m.queue],
        'exact': m.mode == 'E', 'term': run.terms[ESU], 'seq': run.terms[SEQ],
        'sets': [], 'before': cx.stamps[-1] if cx.stamps else None,
    }


def due(c, t, offset, single):
    _, rep, start, end, si, ei = c[:6]
    rep, start, end = ms(rep), ms(start), ms(end)
    if start is not None and (t < start or t == start and not si):
        return False
    if end is not None and (t > end or t == end and not ei):
        return False
    if rep is None:
        return True
    if single and start is not None:
        return (t - start) % rep == 0
    return (t - offset) % rep == 0




def finish(sim, v, r, ended):
    rec = r.get('absrec')
    if rec is None or len(rec['sets']) < 1:
        return
    name = f'scheduler {v.i}, execution_id {r["eid"]}'
    ts = [t for t, _ in rec['sets']]
    q, single = rec['q'], len(rec['q']) == 1
    steps = {b - a for a, b in zip(ts, ts[1:])}
    if rec['before'] is not None and ts[0] <= rec['before'] - Fraction(1, 10**6):
        sim.fail('absolute', f'{name}: a run starts at {ts[0]} after a set at {rec["before"]}')
    if any(s <= 0 for s in steps) or steps and max(steps) - min(steps) > Fraction(1, 10**6):
        sim.fail('absolute', f'{name}: sets at {list(map(str, ts[:8]))} are not evenly spaced')
    if not steps:
        return
    dt = steps.pop()
    base = [x for x in (rec['reps'] + (rec['points'] if rec['exact'] else [])) if x]
    g = gcd(base) if base else None
    # known findings KF1 and KF2: times off the grid of the repeats
    known = g is not None and all(
        x % g == 0 for x in [ms(c[2]) for c in rec['conds'].values() if c[2] is not None]
        + (rec['points'] if single else []))
    # membership
    for j, (t, nodes) in enumerate(rec['sets']):
        layer = q[j % len(q)]
        for n in layer & set(rec['conds']):
            want = due(rec['conds'][n], t, (j % len(q)) * dt, single)
            if want != (n in nodes):
                sim.fail('absolute', f'{name}: node {n} with {rec["conds"][n]} is {"" if n in nodes else "not "}executed at {t}')
        sim.stats['abs checks'] = sim.stats.get('abs checks', 0) + 1
    # no due time is passed over
    if known:
        for n, c in rec['conds'].items():
            i = next(i for i, l in enumerate(q) if n in l)
            rep = ms(c[1])
            if rep is None:
                continue
            phase = ms(c[2]) if single and c[2] is not None else i * dt
            mine = {t for j, (t, _) in enumerate(rec['sets']) if j % len(q) == i}
            lo, hi = ts[0], ts[-1]
            k = math.ceil((lo - phase) / rep)
            steps_ = 0
            while phase + k * rep <= hi and steps_ < LIMIT:
                t = phase + k * rep
                steps_ += 1
                k += 1
                if due(c, t, i * dt, single) and t not in mine:
                    sim.fail('absolute', f'{name}: node {n} with {c} is due at {t}, but times are {list(map(str, ts[:6]))}...')
    if rec['exact']:
        have = set(ts)
        for p in rec['points']:
            if ts[0] <= p <= ts[-1] and p not in have:
                sim.fail('absolute', f'{name}: the time {p} is passed over: {list(map(str, ts[:8]))}')
    # the end
    if ended and rec['term'][0] == 'TT' and rec['seq'] == ['Never']:
        T, inc = ms(rec['term'][1]), rec['term'][2]
        met = (lambda t: t >= T) if inc else (lambda t: t > T)
        if met(ts[-1]):
            sim.fail('absolute', f'{name}: a set at {ts[-1]} after {rec["term"]}')
        if not met(ts[-1] + dt):
            sim.fail('absolute', f'{name}: ended after {ts[-1]} before {rec["term"]}')
