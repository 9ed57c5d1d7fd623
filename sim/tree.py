"""Histories of clocks alone: trees of any depth, copies of them, and absolute
time at any time scale.

The reference is the list of the units that were completed, each with the
indices of the units of coarser time scales in which it was.
"""
import copy
import hashlib
import json
import random
from fractions import Fraction

from .engine import Hang, Violation
from .lib import gs, unexpected

CSE, PASS, ESU, SEQ, LIFE = range(5)
ATTR = ['consideration_set_execution', 'pass_', 'environment_state_update', 'environment_sequence', 'life']


def make(seed, prof):
    R = random.Random(seed)
    ops = [['new', 0, R.choice([ESU, ESU, SEQ, PASS, PASS])]]
    ids = [0]
    w = R.choice([[8, 4, 2, 1], [3, 3, 3, 3], [2, 1, 6, 2], [1, 0, 8, .5], [6, 3, 1, 0]])
    # long histories
    much = R.random() < .06
    for _ in range(R.choice([10, 25, 60, 150]) if not much else R.choice([10, 25, 60])):
        t = R.choice(ids[-3:])
        k = R.random()
        if k < .6:
            ops.append(['inc', t, R.choices([CSE, PASS, ESU, SEQ], w)[0], R.choice([1, 1, 1, 1, 2, 5] if not much else [1, 2, 40, 150, 400, 700])])
        elif k < .85:
            q = R.choice([CSE, CSE, PASS, PASS, ESU, SEQ, LIFE])
            base = {}
            for ts in (SEQ, ESU, PASS):
                if R.random() < .4:
                    base[ts] = R.choice([0, 0, 1, 1, 2, 3, 5, 'last', 'last', 'past'] if not much else [0, 1, R.randrange(100), R.randrange(1000), 'last', 'past'])
            ops.append(['query', t, q, sorted(base.items())])
        elif k < .9:
            ids.append(len(ids))
            ops.append(['new', ids[-1], R.choice([ESU, PASS, SEQ])])
        elif k < .94:
            ids.append(len(ids))
            ops.append(['copy', t, ids[-1]])
        elif k < .98:
            ops.append(['abs', t, R.choice([CSE, CSE, PASS, ESU]), R.random() < .8,
                        R.choice([1, 2, 7, .5, .25, .1, 1e-3]), R.choice(['ms', 'us', 's'])])
        else:
            ops.append(['parts', t])
    for t in ids[-3:]:
        ops.append(['parts', t])
    return {'ops': ops}


class Tree:
    def __init__(self, tree, depth):
        self.t, self.depth = tree, depth
        self.now = [0] * 5
        self.count = [0] * 5        # completed within the enclosing unit
        self.events = []
        self.prev = None
        self.abs = Fraction(0)      # of a ms
        self.step = (CSE, False, Fraction(1))


UNIT = {'ms': 1, 'us': Fraction(1, 1000), 's': 1000}


class Sim:
    def __init__(self, plan):
        self.plan = plan
        self.trees = {}
        self.trace = []
        self.stats = {'sets': 0, 'probes': 0, 'queries': 0, 'faults': {}, 'steps': 0}
        self.opi = -1

    def fail(self, msg):
        raise Violation('tree', msg)

    def call(self, what, f, *args, **kw):
        try:
            return f(*args, **kw)
        except Hang:
            raise
        except BaseException as e:
            self.fail(f'{what} raised {type(e).__name__}: {e}')

    def run(self):
        for self.opi, op in enumerate(self.plan['ops']):
            self.stats['steps'] += 1
            if op[0] == 'new':
                t = self.call('TimeHistoryTree', gs.time.TimeHistoryTree, max_depth=gs.TimeScale(op[2]))
                self.trees[op[1]] = Tree(t, op[2])
            elif op[1] in self.trees:
                getattr(self, 'op_' + op[0])(self.trees[op[1]], *op[2:])
            for i, t in self.trees.items():
                self.check(i, t)

    def op_copy(self, t, new):
        self.trees[new] = copy.deepcopy(t, {id(t.t): self.call('deepcopy', copy.deepcopy, t.t)})
        self.stats['faults']['clock copied'] = self.stats['faults'].get('clock copied', 0) + 1

    def op_inc(self, t, ts, n):
        for _ in range(n):
            t.prev = (list(t.count), t.abs)
            t.events.append((ts, tuple(t.now)))
            self.call('increment_time', t.t.increment_time, gs.TimeScale(ts))
            t.count[ts] += 1
            t.now[ts] += 1
            for x in range(ts):
                t.count[x] = t.now[x] = 0
            scale, on, step = t.step
            if on and ts == scale:
                t.abs += step

    def op_abs(self, t, ts, on, n, unit):
        x = t.t.current_time
        x.absolute_time_unit_scale = gs.TimeScale(ts)
        x.absolute_enabled = on
        x.absolute_interval = n * gs._unit_registry.Unit(unit)
        t.step = (ts, on, Fraction(str(n)) * UNIT[unit])

    def values(self, time):
        return [getattr(time, a) for a in ATTR]

    def same(self, time, count, abs_):
        return self.values(time) == count and abs(time.absolute.to('ms').m - float(abs_)) < 1e-6 * max(1, float(abs_))

    def check(self, i, t):
        if not self.same(t.t.current_time, t.count, t.abs):
            self.fail(f'the time of clock {i} is {t.t.current_time!r}, {t.t.current_time.absolute}, expected {t.count}, {float(t.abs)} ms')
        p = t.t.previous_time
        if (p is None) != (t.prev is None) or p is not None and not self.same(p, *t.prev):
            self.fail(f'the previous time of clock {i} is {p!r}, expected {t.prev}')

    def op_query(self, t, q, base):
        base = dict(base)
        finest = min([ts for ts in base if ts > q], default=LIFE)
        where = {}      # the unit of each time scale in which to count
        exists = q != LIFE
        for ts in (SEQ, ESU, PASS):
            # units completed in those chosen so far; there is one more in progress
            done = sum(1 for e in t.events if e[0] == ts and all(e[1][x] == y for x, y in where.items()))
            known = ts >= max(finest, t.depth) and exists
            if ts in base:
                base[ts] = {'last': done, 'past': done + 1}.get(base[ts], base[ts]) if known else 0
            if ts >= finest:
                where[ts] = base.get(ts, done)
                exists = known and where[ts] <= done
        want = None
        if exists:
            want = sum(1 for e in t.events if e[0] == q and all(e[1][x] == y for x, y in where.items()))
        arg = {gs.TimeScale(ts): x for ts, x in base.items()}
        before = dict(arg)
        try:
            got = t.t.get_total_times_relative(gs.TimeScale(q), arg or None)
        except gs.time.TimeScaleError:
            got = None
        except Hang:
            raise
        except BaseException as e:
            self.fail(f'totals of {gs.TimeScale(q).name} relative to {base} raised {type(e).__name__}: {e}')
        self.stats['queries'] += 1
        self.stats['probes'] += 1
        k = 'totals refused' if got is None else 'totals'
        self.stats[k] = self.stats.get(k, 0) + 1
        self.trace.append([q, sorted(base.items()), got])
        if got != want:
            self.fail(f'totals of {gs.TimeScale(q).name} relative to {base} are {got}, expected {want} (None: refused)')
        if arg != before:
            self.fail('the indices given were modified')

    def op_parts(self, t):
        """The times as containers of time scales"""
        for x in gs.TimeScale:
            if t.t.current_time[x] != t.count[x.value]:
                self.fail(f'item {x} of {t.t.current_time!r} is {t.t.current_time[x]}, expected {t.count[x.value]}')
        if repr(t.t.current_time) != repr(copy.copy(t.t.current_time)):
            self.fail('a copy of a time is represented differently')


def execute(plan):
    sim = Sim(plan)
    res = {'violation': None, 'inconclusive': None, 'states': []}
    try:
        sim.run()
    except Violation as e:
        res['violation'] = {'kind': e.kind, 'msg': e.msg, 'op': sim.opi}
    except Hang:
        res['violation'] = {'kind': 'hang', 'msg': 'the library did not return control', 'op': sim.opi}
    except Exception as e:
        res['violation'] = {**unexpected(e), 'op': sim.opi}
    sim.trace.append([t.count + [str(t.abs)] for t in sim.trees.values()])
    res['trace'] = sim.trace
    res['digest'] = hashlib.sha256(json.dumps(sim.trace).encode()).hexdigest()[:16]
    res['stats'] = sim.stats
    return res
