"""The simulated environment: nodes, user functions, injected faults, and the
construction of real conditions from specs."""
import functools
import json
import zlib

import numpy as np

from .lib import Falsy, ESU, SEQ, TS, gs
from .model import TIME_CONDS, World, children

EIDS = {'n': None, 'x': 'x', 'y': 'y', 'z': ('z', 1), 'i': 7, 'o': frozenset(['o']), 'f': 0, 'q': ''}
EIDS.update({f'e{i}': f'id {i}' for i in range(140)})
_TOKENS = {(type(v), v): k for k, v in EIDS.items()}


TRUE = (True, 1, 'yes', np.True_, [0], 2.5, ('',))
FALSE = (False, 0, None, np.False_, [], 0.0, '')


def truth(b, k, n=7):
    """What users return for true and false"""
    return (TRUE if b else FALSE)[k % n]


class SimNode:
    """A node whose identity, hash and state the simulator decides"""

    def __init__(self, env, i, h):
        self.env, self.i, self.h = env, i, h

    def __hash__(self):
        return self.h

    def __repr__(self):
        return f'N{self.i}'

    def __bool__(self):
        # nodes may be empty collections, or arrays without a truth value
        if self.i % 3 == 2:
            raise ValueError('the truth value of a node is ambiguous')
        return self.i % 3 == 0

    def is_finished(self, execution_id=None):
        self.env.calls += 1
        return truth(self.env.world.finished(self.i, self.env.eid_token(execution_id)), self.env.calls, 4)

    @property
    def value(self):
        self.env.calls += 1
        return self.env.world.value(self.i, '*')

    @property
    def vector(self):
        # kinds of containers that keep or change their identity
        x, k = self.value, self.i % 4
        v = self.__dict__.setdefault('_vector', [[0, -1], [0, 99]])
        if k == 0 or k == 1 and x % 2:
            v[0][0] = v[1][0] = x
            return v
        if k == 1:
            v[:] = [[x, -1], [x, 99]]
            return v
        if k == 2:
            return np.array([[x, -1], [x, 99]])
        return {1: (x, 99), 0: (x, -1)}

    def threshold_value(self, execution_id):
        return self.env.world.value(self.i, self.env.eid_token(execution_id))


class EqNode(SimNode):
    """Like SimNode, but equal to the node of the same name of other schedulers"""

    def __eq__(self, other):
        return isinstance(other, EqNode) and other.i == self.i

    def __hash__(self):
        return self.h


class Injected(Exception):
    pass


def make_exc(kind, msg):
    return {
        'val': ValueError, 'key': KeyError, 'type': TypeError, 'inj': Injected,
        'base': KeyboardInterrupt, 'exit': SystemExit, 'mem': MemoryError,
        'os': OSError, 'attr': AttributeError, 'index': IndexError, 'rt': RuntimeError,
        'zero': ZeroDivisionError, 'gen': GeneratorExit,
    }[kind](msg)


class TrapAux:
    """A node outside of any graph that can fail"""

    def __init__(self, env, tid):
        self.env, self.tid = env, tid

    def is_finished(self, execution_id=None):
        self.env.spring(self.tid, execution_id)
        return True

    @property
    def value(self):
        self.env.spring(self.tid, self.env.cur_eid)
        return 1

    def __repr__(self):
        return f'T{self.tid}'


def camel(name):
    return ''.join(x[0].upper() + x[1:].lower() for x in name.split('_'))


def _fresh_str(x):
    return ''.join(list(x))


class Env:
    """Everything around the schedulers in one simulated execution"""

    def __init__(self, plan):
        self.plan = plan
        self.world = World()
        self.errors = []        # violations noticed by user functions
        self.calls = 0          # calls of user code by the library
        self.faults = {}        # kind -> times fired
        self.traps = {}         # id -> (exception kind, last exception)
        self.cur_eid = None
        self.run_kwargs = {}
        self._shared = {}
        self.counter = 0
        self.aliases = {}       # name -> time scale

    # ---- identities
    def eid(self, tok):
        v = EIDS[tok]
        # equal, not the same
        if isinstance(v, str):
            return _fresh_str(v)
        if isinstance(v, tuple):
            return (_fresh_str(v[0]), v[1])
        if isinstance(v, frozenset):
            return frozenset(_fresh_str(x) for x in v)
        return v

    def eid_token(self, eid):
        k = _TOKENS.get((type(eid), eid))
        if k is not None:
            return k
        self.errors.append(f'user code was given an unknown execution_id {eid!r}')
        return '?'

    def node(self, i, shared=True):
        """Node object number i.  Equal on every call; the same object if nodes
        of that kind are compared by identity"""
        spec = self.plan['nodes'][i]
        k = spec['k']
        if k == 'sim':
            if i not in self._shared:
                self._shared[i] = SimNode(self, i, spec['h'])
            return self._shared[i]
        if k == 'eq':
            return EqNode(self, i, spec['h'])
        if k == 'str':
            return _fresh_str(f'node{i}')
        if k == 'int':
            return int(str(spec['h']))
        if k == 'tup':
            return (_fresh_str('t'), i)
        if k == 'frz':
            return frozenset([_fresh_str(f'f{i}')])
        raise ValueError(k)

    def state_node(self, i):
        """An object with state for node i"""
        if self.plan['nodes'][i]['k'] in ('sim', 'eq'):
            return None
        k = ('aux', i)
        if k not in self._shared:
            self._shared[k] = SimNode(self, i, i)
        return self._shared[k]

    # ---- faults
    def spring(self, tid, eid):
        a = self.world.armed.get(tid)
        if a is None or a not in ('*', self.eid_token(eid)):
            return
        del self.world.armed[tid]
        kind = self.plan['traps'][str(tid)]['exc']
        self.counter += 1
        e = make_exc(kind, f'trap {tid} #{self.counter}')
        self.traps[tid] = e
        how = self.plan['traps'][str(tid)]['how']
        self.faults[f'{how} raises {type(e).__name__}'] = self.faults.get(
            f'{how} raises {type(e).__name__}', 0) + 1
        raise e

    # ---- user functions
    def user_func(self, name, variant, neg=False):
        env = self

        def val(eid):
            env.calls += 1
            return truth(env.world.flagged(name, env.eid_token(eid)), env.calls)

        def check_run(eid, kw=None):
            if env.cur_eid is not NotImplemented and eid != env.cur_eid:
                env.errors.append(
                    f'function of flag {name} called for execution_id {eid!r} in a run of {env.cur_eid!r}')

        if variant == 0:
            def f():
                return val(env.cur_eid)
            return f, (), {}
        if variant == 1:
            def f(execution_id=None):
                check_run(execution_id)
                return val(execution_id)
            return f, (), {}
        if variant == 2:
            def f(x, scheduler=None, execution_id=None):
                check_run(execution_id)
                if x != ('arg', name):
                    env.errors.append(f'function of flag {name} got {x!r}')
                if scheduler is not env.cur_sched:
                    env.errors.append(f'function of flag {name} got another scheduler')
                return val(execution_id)
            return f, (('arg', name),), {}
        if variant == 3:
            def f(x, *args, k=None, execution_id=None, extra=None, **kw):
                check_run(execution_id)
                if (x, args, k) != (1, (2,), ('kw', name)):
                    env.errors.append(f'function of flag {name} got {(x, args, k)!r}')
                if env.cur_eid is not NotImplemented and extra != env.run_kwargs.get('extra'):
                    env.errors.append(f'function of flag {name} got extra={extra!r}')
                return val(execution_id)
            return f, (1, 2), {'k': ('kw', name)}
        if variant == 4:
            class C:
                def __call__(self, execution_id):
                    check_run(execution_id)
                    return val(execution_id)

                def __len__(self):
                    return 0
            return C(), (), {}
        if variant == 5:
            class C:
                def m(self, y, execution_id=None):
                    check_run(execution_id)
                    if y != 5:
                        env.errors.append(f'function of flag {name} got {y!r}')
                    return val(execution_id)
            return C().m, (5,), {}
        if variant == 6:
            def g(z, execution_id=None):
                check_run(execution_id)
                if z != 'p':
                    env.errors.append(f'function of flag {name} got {z!r}')
                return val(execution_id)
            return functools.partial(g, 'p'), (), {}
        if variant == 7:
            # overridden by an argument of the run of the same name
            def f(extra=None, execution_id=None):
                check_run(execution_id)
                want = env.run_kwargs.get('extra', ('own', name))
                if env.cur_eid is not NotImplemented and extra != want:
                    env.errors.append(f'function of flag {name} got extra={extra!r}')
                return val(execution_id)
            return f, (), {'extra': ('own', name)}
        if variant == 8:
            # mutable, so not hashable
            class C:
                __hash__ = None

                def __eq__(self, other):
                    return type(other) is type(self)

                def __call__(self, execution_id):
                    check_run(execution_id)
                    return val(execution_id)
            return C(), (), {}
        if variant == 9:
            class C:
                __slots__ = ()

                def __call__(self, y, execution_id):
                    check_run(execution_id)
                    if y != 'sl':
                        env.errors.append(f'function of flag {name} got {y!r}')
                    return val(execution_id)
            return C(), ('sl',), {}
        if variant == 10:
            def f(x, /, y, *, k, execution_id=None):
                check_run(execution_id)
                if (x, y, k) != (1, name, 3):
                    env.errors.append(f'function of flag {name} got {(x, y, k)!r}')
                return val(execution_id)
            return f, (1, name), {'k': 3}
        if variant == 11:
            def g(*a, **kw):
                check_run(kw['execution_id'])
                if a != (name,) or kw['scheduler'] is not env.cur_sched:
                    env.errors.append(f'function of flag {name} got {a!r}, {kw!r}')
                return val(kw['execution_id'])
            return g, (name,), {}
        if variant in (12, 13):
            # of a condition of the user's, which is negated by itself
            def f(a, b='b', *, scheduler, execution_id, own):
                check_run(execution_id)
                if (a, b, own) != (name, 'b', 12) or scheduler is not env.cur_sched:
                    env.errors.append(f'function of flag {name} got {(a, b, own, scheduler)!r}')
                return bool(val(execution_id)) is not neg
            return f, (name,), {'own': 12}
        if variant == 14:
            # more arguments than the function has
            def f(a, *, execution_id):
                check_run(execution_id)
                if a != name:
                    env.errors.append(f'function of flag {name} got {a!r}')
                return val(execution_id)
            return f, (name, 'more'), {'unused': 1}
        if variant == 15:
            def f(a):
                if a != name:
                    env.errors.append(f'function of flag {name} got {a!r}')
                return val(env.cur_eid)
            return f, (name, 'more', 3), {'unused': 1}
        if variant == 16:
            # decorated
            def f(a, scheduler, *, own=None):
                if (a, own) != (name, 16) or scheduler is not env.cur_sched:
                    env.errors.append(f'function of flag {name} got {(a, own, scheduler)!r}')
                return val(env.cur_eid)

            @functools.wraps(f)
            def g(*a, **kw):
                if set(kw) != {'scheduler', 'own'}:
                    env.errors.append(f'function of flag {name} got {sorted(kw)}')
                return f(*a, **kw)
            return g, (name,), {'own': 16}
        raise ValueError(variant)

    # ---- conditions
    def ts(self, i):
        """A time scale, by its alias if there is one"""
        for name, t in self.aliases.items():
            if t == i:
                return getattr(gs.TimeScale, name)
        return TS[i]

    def cls(self, name):
        """A class of conditions, by an alias if there is one"""
        for a, t in self.aliases.items():
            n = name.replace(camel(TS[t].name), camel(a))
            if n != name:
                return getattr(gs, n)
        return getattr(gs, name)

    def build(self, spec, nodes):
        """A real condition; nodes maps node numbers to objects"""
        k = spec[0]
        b = functools.partial(self.build, nodes=nodes)
        # how arguments are given: by position or name, or left to their default
        form = zlib.crc32(json.dumps(spec).encode()) % 8

        def ts(i, default=ESU):
            if i == default and form < 4:
                return {}
            return {'time_scale': self.ts(i)}
        if k in ('BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls'):
            if form % 4 == 1:
                return getattr(gs, k)(dependency=nodes(spec[1]), n=spec[2], **ts(spec[3]))
            if form % 4 == 2:
                return getattr(gs, k)(nodes(spec[1]), spec[2], self.ts(spec[3]))
            return getattr(gs, k)(nodes(spec[1]), spec[2], **ts(spec[3]))
        if k == 'EveryNCalls':
            return gs.EveryNCalls(nodes(spec[1]), **{'n': spec[2]}) if form == 7 else gs.EveryNCalls(nodes(spec[1]), spec[2])
        if k == 'AllHaveRun':
            return gs.AllHaveRun(*[nodes(d) for d in spec[1]], **ts(spec[2]))
        if k == 'AfterNCallsCombined':
            return gs.AfterNCallsCombined(*[nodes(d) for d in spec[1]], n=spec[2], **ts(spec[3]))
        if k == 'JustRan':
            return gs.JustRan(nodes(spec[1]))
        if k in ('AtEnvironmentSequence', 'AfterEnvironmentSequence', 'AfterNEnvironmentSequences'):
            return self.cls(k)(spec[1])
        if k in ('All', 'Any'):
            parts = [b(c) for c in spec[1:]]
            if len(parts) == 3:
                return getattr(gs, k)(parts[0], dependencies=parts[1:])
            if len(parts) == 2 and spec[1][0] in ('Not', 'EveryNCalls', 'AfterNCalls'):
                k = {'All': 'And', 'Any': 'Or'}[k]
            return getattr(gs, k)(*parts)
        if k == 'Not':
            return gs.Not(b(spec[1]))
        if k == 'NWhen':
            return gs.NWhen(b(spec[1])) if spec[2] == 1 and form < 4 else gs.NWhen(b(spec[1]), spec[2])
        if k == 'Trap':
            tid = spec[1]
            how = self.plan['traps'][str(tid)]['how']
            if how == 'condition':
                def f(execution_id):
                    self.spring(tid, execution_id)
                    return True
                t = gs.While(f)
            elif how == 'user function':
                def f(x, execution_id=None, **kw):
                    self.spring(tid, execution_id)
                    return False
                t = gs.WhileNot(f, 'x')
            elif how == 'node':
                t = [gs.WhenFinishedAll, gs.WhenFinishedAny, gs.WhenFinished][tid % 3](TrapAux(self, tid))
            elif how == 'getter':
                def f(dep, par, execution_id):
                    self.spring(tid, execution_id)
                    return 1
                t = gs.Threshold(
                    TrapAux(self, tid), 'v', 1, '==', custom_parameter_getter=f,
                    custom_parameter_validator=lambda d, p: None)
            return gs.All(t, b(spec[2]))
        if k == 'Own':
            c = b(spec[2])
            c.owner = nodes(spec[1])
            return c
        if k in ('Always', 'Never'):
            return getattr(gs, k)()
        sn = lambda i: nodes(i) if self.state_node(i) is None else self.state_node(i)  # noqa: E731
        if k == 'WhenFinished':
            return gs.WhenFinished(sn(spec[1]))
        if k in ('WhenFinishedAny', 'WhenFinishedAll'):
            return getattr(gs, k)(*[sn(d) for d in spec[1]])
        if k in ('While', 'WhileNot'):
            f, a, kw = self.user_func(spec[1], spec[2], k == 'WhileNot')
            if spec[2] == 12:
                return gs.Condition(f, *a, **kw)
            if spec[2] == 13:
                class Custom(gs.Condition):
                    def __init__(self, x):
                        super().__init__(f, x, **kw)
                return Custom(*a)
            return getattr(gs, k)(f, *a, **kw)
        if k == 'Thr':
            _, i, thr, cmp, variant = spec[:5]
            kw = {'atol': spec[5]} if len(spec) > 5 and spec[5] else {}
            if len(spec) > 6 and spec[6]:
                kw['rtol'] = spec[6]
            n = sn(i)
            if variant == 0:
                return gs.Threshold(n, 'value', thr, cmp, **kw)
            if variant == 1:
                return gs.Threshold(n, 'vector', thr, cmp, indices=[[1, 0], (1, 0), iter([1, 0])][int(2 * thr + i) % 3], **kw)
            if variant == 2:
                def f(dep, par, execution_id):
                    if dep is not n or par != 'p':
                        self.errors.append(f'parameter getter got {(dep, par)!r}')
                    return dep.threshold_value(execution_id)
                if int(2 * thr + i) % 2:
                    f = Falsy(f)
                return gs.Threshold(
                    n, 'p', thr, cmp, custom_parameter_getter=f,
                    custom_parameter_validator=lambda d, p: None, **kw)
            if variant == 3:
                # one index: a time scale, a number, or none at all
                which = int(2 * thr) % 3
                at = i % len(TS)

                def f(dep, par, execution_id=None):
                    x = dep.threshold_value(execution_id)
                    if which == 1:
                        return np.float64(x)
                    return [x if j == at else 50 - 100 * (j % 2) for j in range(len(TS))]
                return gs.Threshold(
                    n, 'value', thr, cmp, indices=(TS[at], [], at)[which], custom_parameter_getter=f, **kw)
        if k == 'EsuStart':
            return self.cls('AtEnvironmentStateUpdateStart')()
        if k == 'EsuNStart':
            return self.cls('AtEnvironmentStateUpdateNStart')(spec[1], **ts(spec[2], SEQ))
        if k == 'SeqStart':
            return self.cls('AtEnvironmentSequenceStart')()
        if k == 'SeqNStart':
            return self.cls('AtEnvironmentSequenceNStart')(spec[1])
        if k == 'TI':
            _, rep, start, end, si, ei = spec[:6]
            how = spec[6] if len(spec) > 6 else 'str'
            kw = {}
            units = {x[1] for x in (rep, start, end) if x is not None}
            if how == 'num' and len(units) == 1:
                u = units.pop()
                if u != 'ms' or form < 4:
                    kw['unit'] = u if rep is None else getattr(gs._unit_registry, u)
                q = lambda x: None if x is None else x[0]  # noqa: E731
            elif how == 'q':
                q = lambda x: None if x is None else gs._unit_registry.Quantity(f'{x[0]} {x[1]}')  # noqa: E731
            else:
                q = lambda x: None if x is None else f'{x[0]} {x[1]}'  # noqa: E731
            kw.update(repeat=q(rep), start=q(start), end=q(end), start_inclusive=si, end_inclusive=ei)
            if form % 2:
                kw = {x: y for x, y in kw.items() if not (y is None or y is True)}
            return gs.TimeInterval(**kw)
        if k == 'TT':
            x, u = spec[1]
            kw = {} if spec[2] and form % 2 else {'inclusive': spec[2]}
            if form < 3 and not isinstance(x, str):
                return gs.TimeTermination(x, **kw, **({} if u == 'ms' else {'unit': u}))
            return gs.TimeTermination(gs._unit_registry.Quantity(f'{x} {u}') if form == 3 else f'{x} {u}', **kw)
        if form in (1, 5):
            return self.cls(k)(n=spec[1], **ts(spec[2], SEQ if TIME_CONDS[k][0] == ESU else ESU))
        if form == 2:
            return self.cls(k)(spec[1], self.ts(spec[2]))
        return self.cls(k)(spec[1], **ts(spec[2], SEQ if TIME_CONDS[k][0] == ESU else ESU))
