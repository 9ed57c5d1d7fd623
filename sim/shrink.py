"""Minimises a plan while a violation of the same kind persists."""
import copy
import json
import time


class _Budget(Exception):
    pass


def place(r):
    """Where an answer could not be used: a plan cut down too far must not
    stand for one in which the library's answer cannot be used"""
    msg = (r['violation'] or {}).get('msg', '')
    return msg[msg.rfind('('):] if 'answer of the library is unusable' in msg else None


def shrink(plan, kind, run, seconds=60):
    end = time.monotonic() + seconds
    best = [plan, run(plan)]
    where = place(best[1])

    def ok(p):
        if time.monotonic() > end:
            raise _Budget()
        p = json.loads(json.dumps(p))
        try:
            r = run(p)
        except _Budget:
            raise
        except Exception:
            return False
        if r['violation'] is not None and r['violation']['kind'] == kind and place(r) == where:
            best[0], best[1] = p, r
            return True
        return False

    try:
        while True:
            size = len(json.dumps(best[0]))
            op = (best[1]['violation'] or {}).get('op', -1)
            if op >= 0 and op + 1 < len(best[0]['ops']):
                ok({**best[0], 'ops': best[0]['ops'][:op + 1]})
            lists(best, ok)
            for p in simpler(best[0]):
                # candidates are made from the plan as it was; apply lazily
                try:
                    q = p(copy.deepcopy(best[0]))
                except (IndexError, KeyError, ValueError):
                    # made for a scheduler or operation that is gone
                    continue
                if q is not None and q != best[0]:
                    ok(q)
            if len(json.dumps(best[0])) >= size:
                break
    except _Budget:
        pass
    return best[0], best[1]


def paths(plan):
    yield ('ops',)
    for k in range(len(plan.get('parts', ()))):
        yield ('parts', k, 'ops')
    for i, s in enumerate(plan.get('scheds', ())):
        yield ('scheds', i, 'conds')
        if s.get('structs'):
            yield ('scheds', i, 'structs')
        yield ('scheds', i, 'e')


def get(p, path):
    for k in path:
        p = p[k]
    return p


def put(p, path, v):
    p = copy.deepcopy(p)
    q = p
    for k in path[:-1]:
        q = q[k]
    q[path[-1]] = v
    return p


def lists(best, ok):
    for path in paths(best[0]):
        n = max(1, len(get(best[0], path)) // 2)
        while n >= 1:
            i = 0
            while True:
                xs = get(best[0], path)
                if i >= len(xs):
                    break
                if not ok(put(best[0], path, xs[:i] + xs[i + n:])):
                    i += n
            n //= 2


def simpler(plan):
    res = []
    for k in ('dense', 'fullclock', 'lazygraph'):
        if plan.get(k):
            res.append(lambda p, k=k: {a: b for a, b in p.items() if a != k})
    for i, op in enumerate(plan['ops']):
        if op[0] in ('go', 'progress') and isinstance(op[-1], dict):
            for key in list(op[-1]):
                def f(p, i=i, key=key, n=op[0]):
                    if i < len(p['ops']) and p['ops'][i][0] == n and isinstance(p['ops'][i][-1], dict):
                        p['ops'][i][-1].pop(key, None)
                        return p
                res.append(f)
        if op[0] in ('bulk', 'replace', 'cond'):
            for j in range(len(op[2])):
                def f(p, i=i, j=j, n=op[0]):
                    if p['ops'][i][0] != n or len(p['ops'][i][2]) < 2:
                        return None
                    del p['ops'][i][2][j]
                    return p
                res.append(f)
        if op[0] == 'go' and op[3] > 1:
            for k in (1, op[3] // 2, op[3] - 1):
                def f(p, i=i, k=k):
                    if i < len(p['ops']) and p['ops'][i][0] == 'go' and p['ops'][i][3] > k >= 1:
                        p['ops'][i][3] = k
                        return p
                res.append(f)
    for i, s in enumerate(plan.get('scheds', ())):
        for key in ('term', 'unit', 'deid', 'chow', 'tkeys', 'gform'):
            if s.get(key):
                def f(p, i=i, key=key):
                    p['scheds'][i].pop(key, None)
                    return p
                res.append(f)
        if s['mode'] == 'E':
            def f(p, i=i):
                p['scheds'][i]['mode'] = 'S'
                return p
            res.append(f)
    if len(plan.get('scheds', ())) > 1:
        for i in range(len(plan['scheds'])):
            def f(p, i=i):
                from .plans import CTX_OPS, SCHED_OPS
                if len(p['scheds']) < 2 or i >= len(p['scheds']):
                    return None
                p['scheds'].pop(i)
                ops = []
                for op in p['ops']:
                    if op[0] in CTX_OPS or op[0] in SCHED_OPS:
                        if op[1] == i:
                            continue
                        if op[1] > i:
                            op = [op[0], op[1] - 1, *op[2:]]
                    ops.append(op)
                p['ops'] = ops
                return p
            res.append(f)
    # nodes that nothing mentions
    for n in reversed(range(len(plan.get('nodes', ())))):
        def f(p, n=n):
            for s in p['scheds']:
                if n not in s['n'] or len(s['n']) < 2:
                    continue
                if any(n in e for e in s['e']) or any(n == c for c, _ in s['conds']):
                    continue
                s['n'] = [x for x in s['n'] if x != n]
            return p
        if 'scheds' in plan:
            res.append(f)
    for i, s in enumerate(plan.get('scheds', ())):
        for j, (n, c) in enumerate(s['conds']):
            for sub in (c[1:] if c[0] in ('All', 'Any', 'Not') else [c[2]] if c[0] == 'Trap' else []):
                def f(p, i=i, n=n, sub=sub):
                    for x in p['scheds'][i]['conds']:
                        if x[0] == n:
                            x[1] = sub
                    return p
                if isinstance(sub, list):
                    res.append(f)
    return res
