"""Schedulers in different threads, whose interleaving the simulator decides.

Each thread runs a simulation of its own (own plan, model, nodes).  Only one
runs at a time; at every line of the library that a thread executes, the seeded
scheduler decides whether another goes on.
"""
import random
import sys
import threading
import time

from . import engine
from .lib import SRC


class Baton:
    def __init__(self, n, seed):
        self.R = random.Random(seed)
        self.rate = self.R.choice([.02, .05, .15, .4])
        self.turn = 0
        self.alive = set(range(n))
        self.events = [threading.Semaphore(0) for _ in range(n)]
        self.switches = 0
        self.lines = 0

    def wait(self, me):
        self.events[me].acquire()

    def line(self, me):
        self.lines += 1
        if len(self.alive) > 1 and self.R.random() < self.rate:
            other = self.R.choice(sorted(self.alive))
            if other != me:
                self.switches += 1
                self.events[other].release()
                self.events[me].acquire()

    def done(self, me):
        self.alive.discard(me)
        if self.alive:
            self.events[min(self.alive)].release()


def tracer(baton, me):
    def local(frame, event, arg):
        if event == 'line':
            baton.line(me)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            baton.line(me)
            return local
        return None
    return glob


def execute(plan):
    parts = plan['parts']
    alone = []
    from .proc import isolated
    for p in parts:
        alone.append(isolated(engine.execute, {**p, 'type': 'sched', 'threaded': True}))
    baton = Baton(len(parts), plan['seed'])
    out = [None] * len(parts)

    def body(i):
        baton.wait(i)
        sys.settrace(tracer(baton, i))
        try:
            out[i] = engine.execute({**parts[i], 'type': 'sched', 'threaded': True})
        except BaseException as e:      # a fault of the harness
            import traceback
            out[i] = traceback.format_exc()
        finally:
            sys.settrace(None)
            baton.done(i)

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(parts))]
    for t in ts:
        t.start()
    baton.events[0].release()
    from .model import Limit
    blocked = None
    try:
        end = time.monotonic() + 45
        for t in ts:
            t.join(max(.1, end - time.monotonic()))
            if t.is_alive():
                blocked = 'inconclusive'
    except Limit:
        blocked = 'hang'
    if blocked:
        # a thread that waits for a lock which another holds that is not its turn
        return {'violation': {'kind': 'hang', 'msg': 'a thread does not end', 'op': -1} if blocked == 'hang' else None,
                'inconclusive': blocked, 'trace': [], 'digest': blocked, 'stats': {}, 'states': []}
    for r in out:
        if isinstance(r, str):
            raise RuntimeError(r)
    from .plans import compare, events, merge, usable
    traces = [r['trace'] for r in out]
    ok = [usable(r, a) for r, a in zip(out, alone)]
    res = out[0]
    for a in alone:
        if a['violation'] is not None and res['violation'] is None:
            # wrong without threads too
            res['violation'] = a['violation']
    for i, r in enumerate(out):
        if i:
            merge(res, r)
            res['trace'] = res['trace'] + [['thread', i]] + r['trace']
    res['stats']['switches'] = baton.switches
    res['stats'].setdefault('faults', {})['thread switch at a line of the library'] = baton.switches
    if res['violation'] is None:
        for i, r in enumerate(out):
            if ok[i] and compare(res, events(traces[i]), events(alone[i]['trace']), 'threads',
                                               f'thread {i} differs from the same alone'):
                break
    import hashlib
    import json
    res['digest'] = hashlib.sha256(json.dumps([res['trace'], baton.switches, baton.lines]).encode()).hexdigest()[:16]
    return res
