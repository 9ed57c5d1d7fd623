"""Types of plans: how each is generated and executed.

make(type, profile, seed) -> plan (JSON), execute(plan) -> result.  execute is
called in a forked process that has done nothing but load the library.
"""
import copy
import json
import os
import random

from . import engine, gen
from .proc import isolated

CTX_OPS = {'go': 1, 'close': 1, 'throw': 1, 'drop': 1, 'abandon': 1, 'endseq': 1, 'probe': 1,
           'compo': 1, 'nweval': 1, 'progress': 1, 'refuse': 1}
SCHED_OPS = {'cond', 'readd', 'rm', 'term', 'badterm', 'struct', 'rmstruct', 'replace', 'bulk', 'getgraph', 'mutin', 'obs', 'mode'}
OBS_OPS = {'obs', 'log', 'gc', 'wall', 'probe', 'compo', 'check'}


def make(typ, prof, seed):
    if typ == 'graphq':
        from . import graphq
        plan = graphq.make(seed, prof)
    elif typ == 'tree':
        from . import tree
        plan = tree.make(seed, prof)
    elif typ == 'image':
        from . import image
        plan = image.make(seed, prof)
    else:
        plan = gen.Gen(seed, prof).plan()
        if typ == 'twin':
            twin_ops(plan)
        if typ == 'variant':
            plan['variant'] = seed % 1000003
        if typ == 'threads':
            plan = {'parts': [plan, gen.Gen(seed + 1, prof).plan()], 'seed': seed % 1000003, 'ops': []}
            # each thread runs schedulers of its own
    plan['type'] = typ
    return plan


def execute(plan):
    typ = plan['type']
    if typ == 'sched':
        return engine.execute(plan)
    if typ == 'graphq':
        from . import graphq
        return graphq.execute(plan)
    if typ == 'tree':
        from . import tree
        return tree.execute(plan)
    if typ == 'image':
        from . import image
        return image.execute(plan)
    if typ == 'threads':
        from . import threads
        return threads.execute(plan)
    return {'twin': twin, 'variant': variant, 'bare': bare, 'repeat': repeat}[typ](plan)


# --------------------------------------------------------------------------
# the same history, differently
# --------------------------------------------------------------------------
def realtok(plan, si, tok):
    return plan['scheds'][si].get('deid', 'n') if tok == 'd' else tok


def twin_ops(plan):
    """Only operations whose effect can be attributed to one context"""
    out = []
    for op in plan['ops']:
        if op[0] == 'world' and op[1] == 'trap' and op[3] == '*':
            continue
        if op[0] in ('drop', 'rm', 'readd', 'struct', 'rmstruct', 'replace', 'bulk'):
            continue
        if op[0] in ('go', 'progress'):
            op[-1].pop('base', None)
        out.append(op)
    plan['ops'] = out


def contexts(plan):
    res = []
    for op in plan['ops']:
        if op[0] in CTX_OPS:
            c = (op[1], realtok(plan, op[1], op[2]))
            if c not in res:
                res.append(c)
    return res


def only(plan, ctx):
    """The plan without the other contexts"""
    si, tok = ctx
    p = {k: v for k, v in plan.items() if k not in ('scheds', 'ops')}
    p['scheds'] = [plan['scheds'][si]]
    p['ops'] = []
    for op in plan['ops']:
        if op[0] in CTX_OPS:
            if (op[1], realtok(plan, op[1], op[2])) != ctx:
                continue
            op = [op[0], 0, *op[2:]]
        elif op[0] in SCHED_OPS:
            if op[1] != si:
                continue
            op = [op[0], 0, *op[2:]]
        p['ops'].append(op)
    return p


def events(trace, name=None, kinds=('r', 'probe', 'compo', 'nweval')):
    """What a context (all, if None) saw"""
    rids = {}
    res = []
    for e in trace:
        if e[0] not in kinds:
            continue
        if e[0] == 'r':
            ctx = e[2] if len(e) > 2 and '/' in str(e[2]) else None
            if ctx is not None:
                rids[e[1]] = ctx
            ctx = rids.get(e[1])
            if name is not None and ctx != name:
                continue
            order = rids.setdefault(('order', name), [])
            if e[1] not in order:
                order.append(e[1])
            res.append(['r', order.index(e[1])] + [x for x in e[2:] if x != ctx])
        else:
            if name is not None and f'{e[1]}/{e[2]}' != name:
                continue
            res.append([e[0]] + list(e[3:]))
    return res


def compare(res, a, b, kind, what):
    """Adds a violation to res if the event lists differ"""
    if a == b:
        return False
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    res['violation'] = {
        'kind': kind, 'op': -1,
        'msg': f'{what}: event {i} is {a[i] if i < len(a) else "missing"}, otherwise {b[i] if i < len(b) else "missing"}',
    }
    return True


def usable(*rs):
    """Whether traces determine each other"""
    return not any(r['violation'] or r['inconclusive'] or r['stats'].get('ambiguous') for r in rs)


def sched(plan):
    return {**plan, 'type': 'sched'}


def merge(res, other):
    if res['violation'] is None and other['violation'] is not None:
        res['violation'] = other['violation']
    for k, v in other['stats'].items():
        if isinstance(v, dict):
            d = res['stats'].setdefault(k, {})
            for q, n in v.items():
                d[q] = d.get(q, 0) + n
        else:
            res['stats'][k] = res['stats'].get(k, 0) + v


def twin(plan):
    res = isolated(engine.execute, sched(plan))
    if res['violation'] or res['inconclusive']:
        return res
    for ctx in contexts(plan):
        alone = isolated(engine.execute, sched(only(plan, ctx)))
        ok = usable(res, alone)
        merge(res, alone)
        if res['violation']:
            return res
        if ok:
            res['stats']['twins'] = res['stats'].get('twins', 0) + 1
            if compare(res, events(res['trace'], f'{ctx[0]}/{ctx[1]}'), events(alone['trace'], f'0/{ctx[1]}'),
                       'twin', f'context {ctx[0]}/{ctx[1]} differs from the same context alone'):
                return res
    return res


def permuted(plan):
    R = random.Random(plan['variant'])
    p = copy.deepcopy(plan)
    kinds = {n['k'] for n in p['nodes']}
    text = json.dumps(p)
    new = gen.Gen(R.random(), gen.BASE).node_specs(len(p['nodes']))
    if '["WhenFinishedAny", []]' in text or '["WhenFinishedAll", []]' in text:
        for n in new:
            n['k'] = next(iter(kinds))
    p['nodes'] = new
    for s in p['scheds']:
        R.shuffle(s['n'])
        R.shuffle(s['e'])
        s['gform'] = R.choice(['dict', 'missing', 'nx', 'frozen', 'list', 'multi'])
        if s.get('structs'):
            # their order is that in the collection
            continue
        R.shuffle(s['conds'])
        s['chow'] = R.choice(['dict', 'cset', 'cset2', 'list'])
    return p


def variant(plan):
    res = isolated(engine.execute, sched(plan))
    if res['violation'] or res['inconclusive']:
        return res
    other = isolated(engine.execute, sched(permuted(plan)))
    ok = usable(res, other)
    merge(res, other)
    if not res['violation'] and ok:
        res['stats']['variants'] = res['stats'].get('variants', 0) + 1
        compare(res, events(res['trace']), events(other['trace']), 'variant',
                'the schedule depends on hashes, kinds or the order of nodes')
    return res


def bare(plan):
    res = isolated(engine.execute, sched(plan))
    if res['violation'] or res['inconclusive']:
        return res
    p = sched(plan)
    p['ops'] = [op for op in plan['ops'] if op[0] not in OBS_OPS]
    p.pop('dense', None)
    other = isolated(engine.execute, p, True)
    ok = usable(res, other)
    merge(res, other)
    if not res['violation'] and ok:
        res['stats']['bare'] = res['stats'].get('bare', 0) + 1
        compare(res, events(res['trace'], None, ('r',)), events(other['trace'], None, ('r',)), 'observation',
                'the schedule differs from that of the same history without observations')
    return res


def repeat(plan):
    res = engine.execute(plan)
    if res['violation'] or res['inconclusive']:
        return res
    other = engine.execute(plan)
    ok = usable(res, other)
    merge(res, other)
    if not res['violation'] and ok:
        res['stats']['repeats'] = res['stats'].get('repeats', 0) + 1
        compare(res, events(other['trace']), events(res['trace']), 'repeat', 'the same history again differs')
    return res
