"""Invalid requests, which must be refused and change nothing."""
import networkx as nx

from . import model as M
from .lib import gs, TS, ESU, SEQ, PASS, CSE, LIFE
from .world import Injected

KINDS = ['runterm', 'runbase', 'runeid', 'endeid', 'term', 'ctor', 'noctx', 'cond', 'owner', 'value', 'time', 'rm', 'alias',
         'modify', 'set', 'eval']


def dump(sim, v):
    """What can be observed of a scheduler"""
    s = v.s
    d = {}
    if v.graph_fails is None:
        d['graph'] = {v.index.get(k, repr(k)): frozenset(v.index.get(p, repr(p)) for p in ps) for k, ps in s.graph.items()}
        if M.layers_of(v.m.parents) is not None:
            d['queue'] = [frozenset(v.index[x] for x in q) for q in s.consideration_queue]
    d['termination conditions'] = {ts.name: id(o) for ts, o in s.termination_conds.items()}
    d['conditions'] = {n: (id(s.conditions.conditions_basic.get(v.node(n))), o.owner == v.node(n)) for n, o in v.condobj.items()}
    d['structural conditions'] = [(id(c), c.owner == node(v, x[1])) for c, x in zip(s.conditions.structural_condition_order, v.structs)]
    d['number of structural conditions'] = len(s.conditions.structural_condition_order)
    d['clocks'] = {sim.env.eid_token(e): (list(map(repr, (c.time, c.previous_time, c.simple_time))), c.time.absolute, c.time.absolute_enabled)
                   for e, c in s.clocks.items()}
    d['histories'] = {sim.env.eid_token(e): [sim.idx(v, x) for x in xs] for e, xs in s.execution_list.items()}
    d['timestamps'] = {sim.env.eid_token(e): [repr(x) for x in xs] for e, xs in s.execution_timestamps.items()}
    d['nodes'] = [v.index[x] for x in s.nodes]
    d['settings'] = (s.mode, str(s.default_absolute_time_unit), s.default_execution_id, s.date_last_run_end)
    return d


def node(v, n):
    return v.node(n) if n >= 0 else f'missing{n}'


class BadKey:
    pass


class Refusal(Exception):
    pass


def bad_terms(k):
    good = {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Always(), gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Always()}
    return [
        {**good, gs.TimeScale.PASS: 'x'}, {**good, 'no such scale': gs.Always()},
        {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AddEdgeTo('x')}, {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: 3},
        {**good, 'PASSES': gs.Always()}, {'environment_sequence': gs.Always(), 7: gs.Always()},
        {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Always, gs.TimeScale.ENVIRONMENT_SEQUENCE: gs.Always()},
        {**good, BadKey(): gs.Always()},
        gs.Always(), 5, [gs.Always()], [(gs.TimeScale.ENVIRONMENT_STATE_UPDATE, gs.Always())],
    ][k % 12]


def apply(sim, si, tok, kind, k, spec):
    v = sim.views[si]
    s = v.s
    if v.graph_fails is not None:
        return
    ns = v.spec['n']
    a = v.node(ns[k % len(ns)])
    b = v.node(ns[k // 7 % len(ns)])
    eid = sim.eidtok(v, tok)
    before = dump(sim, v)
    want = ('SchedulerError',)
    not_dict = ('SchedulerError', 'TypeError', 'ValueError', 'AttributeError')
    given = None
    if kind in ('runterm', 'runbase', 'runeid'):
        args = {}
        if tok != 'd':
            args['execution_id'] = sim.env.eid(tok)
        if kind == 'runterm':
            given = args['termination_conds'] = bad_terms(k)
            if not isinstance(given, dict):
                want = not_dict
        elif kind == 'runeid':
            args['execution_id'] = [[], {}, {'x': 1}, [1]][k % 4]
            want = ('TypeError',)
            if M.layers_of(v.m.parents) is None:
                want = ('SchedulerError',)
        else:
            if eid in v.m.ctx:
                args['execution_id'] = ('nobody', k)
            args['base_execution_id'] = ('nobody either', k)
        if k % 3 == 0:
            args['skip_environment_state_update_time_increment'] = True

        def f():
            g = s.run(**args)
            if k % 5 == 0:
                g.close()
                g = s.run(**args)
            try:
                return next(g)
            finally:
                if k % 2:
                    g.close()
    elif kind == 'endeid':
        want = ('TypeError',)

        def f():
            s.end_environment_sequence([[], {}][k % 2])
    elif kind == 'term':
        given = bad_terms(k)
        if not isinstance(given, dict):
            want = not_dict

        def f():
            s.termination_conds = given
    elif kind == 'ctor':
        graph, _ = sim.make_graph(v, v.spec)
        given = graph if isinstance(graph, dict) else None
        conds = {a: gs.Never(), b: gs.Always()}
        which = k % 6
        if which == 2:
            want = not_dict
        elif which == 4:
            want = ('ConditionError',)
        elif which == 5:
            want = ('AttributeError', 'TypeError')

        def f():
            if which == 0:
                return gs.Scheduler(None)
            if which == 1:
                return gs.Scheduler(nx.Graph([(a, b)]), conditions=conds)
            if which == 2:
                return gs.Scheduler(graph, termination_conds=bad_terms(k))
            if which == 3:
                return gs.Scheduler(graph=nx.MultiGraph())
            if which == 4:
                return gs.Scheduler(graph, conditions={**conds, a: [gs.AddEdgeTo(a)]})
            return gs.Scheduler(graph, conditions={**conds, a: 5})
    elif kind == 'noctx':
        c = sim.env.build(spec, v.node)
        c.owner = a
        plain = all(x[0] not in ('JustRan', 'AllHaveRun') for x in M.walk(spec))
        want = ('ConditionError',) if plain else ('ConditionError', 'AttributeError', 'KeyError', 'TypeError')

        def f():
            if k % 2:
                c.is_satisfied()
            else:
                c.is_satisfied(execution_id=sim.env.eid(eid))
    elif kind == 'cond':
        want = ('ConditionError',)
        c = ['BeforeNode', 'AfterNode', 'WithNode', 'BeforeNodes', 'AfterNodes'][k % 5]
        name = 'subject_receivers'
        which = k // 5 % 13
        if which == 8 and c.endswith('s'):
            return
        if which in (4, 8):
            want = ('ConditionError', 'TypeError')

        if which == 10:
            want = ('Refusal',)

        def f():
            if which == 10:
                def check(dependency, parameter):
                    raise Refusal(dependency, parameter)
                return gs.Threshold(a, '__class__', 1, ['<', '=='][k % 2], custom_parameter_validator=check)
            if which == 11:
                return gs.CustomGraphStructureCondition([None, 5, a, {}][k // 65 % 4])
            if which == 12:
                return gs.TimeInterval(start='5 s', end='5000 us')
            if which == 0:
                return gs.TimeInterval()
            if which == 1:
                return gs.TimeInterval(start=5 + k % 3, end=3)
            if which == 2:
                return gs.Threshold(a, 'no_such_parameter', 1, '<')
            if which == 3:
                return gs.Threshold(a, '__class__', 1, '=>')
            if which == 4:
                return getattr(gs, c)()
            if which == 9:
                bad = ['KEPT', 5, None, 'operation', '', a][k // 50 % 6]
                x = ['owner_senders', 'owner_receivers', 'subject_senders', 'subject_receivers'][k // 300 % 4]
                if c == 'WithNode':
                    x = x.replace('senders', 'receivers')
                return getattr(gs, c)(a, **{x: {a: bad} if x[0] == 's' and k // 1200 % 2 else bad})
            if which == 8:
                return getattr(gs, c)(a, b if b != a else 'another node')
            if which == 5:
                return getattr(gs, c)([a])
            if which == 6:
                return gs.CustomGraphStructureCondition('no function')
            return getattr(gs, c)(a, **{name: {a: 'KEEP', 'another node': 'KEEP'}})
    elif kind == 'eval':
        # conditions that cannot be evaluated with what they were given
        want = ('ConditionError',)
        if eid not in v.m.ctx:
            return
        other = [object(), 'no such node', 7, a if not hasattr(a, 'is_finished') else 2.5][k % 4]
        which = k // 4 % 5

        def f():
            if which == 4:
                c = gs.AfterNCallsCombined(a, b)
            else:
                c = [gs.WhenFinished, gs.WhenFinishedAny, gs.WhenFinishedAll, gs.WhenFinished][which](other)
                if which == 3:
                    c = gs.All(c) if k // 20 % 2 else gs.Not(c)
            if k // 40 % 2:
                c.owner = a
            return c.is_satisfied(scheduler=s, execution_id=sim.env.eid(eid))
    elif kind == 'owner':
        if v.m.live():
            return
        want = ('ConditionError',)
        cls = ['AddEdgeTo', 'RemoveEdgeFrom', 'BeforeNode', 'AfterNode', 'WithNode', 'BeforeNodes', 'AfterNodes'][k % 7]

        def f():
            c = getattr(gs, cls)(a)
            if k % 3 == 0:
                s.add_condition(a, c)
            elif k % 3 == 1:
                s.conditions.add_condition(a, c)
            elif cls == 'AddEdgeTo':
                s.add_graph_edge(a, a)
            elif cls == 'RemoveEdgeFrom':
                s.remove_graph_edge(a, a)
            else:
                s.add_condition_set({a: c})
    elif kind == 'value':
        want = ('AttributeError', 'TypeError', 'ConditionError', 'SchedulerError', 'ValueError')

        def f():
            x = ['x', 5, 2.5, (), object()][k % 5]
            if k % 2:
                s.add_condition(a, x)
            else:
                s.conditions.add_condition(a, x)
    elif kind == 'set':
        # conditions of a set before the invalid one may have been added
        want = ('AttributeError', 'TypeError', 'ConditionError', 'SchedulerError', 'ValueError')

        def f():
            s.add_condition_set([{a: 5}, {a: 'x'}, {a: [5]}, 5, None, {a: None}][k % 6])
    elif kind == 'time':
        want = ('TimeScaleError',)
        if eid not in v.m.ctx:
            return
        clk = s.get_clock(sim.env.eid(eid))
        q, base, i = [(LIFE, LIFE, None), (LIFE, SEQ, 0), (LIFE, CSE, None), (CSE, SEQ, 10**6), (PASS, ESU, 10**6), (ESU, SEQ, 10**6)][k % 6]

        def f():
            if i is None:
                clk.get_total_times_relative(TS[q], TS[base])
            else:
                clk.get_total_times_relative(TS[q], TS[base], i)
    elif kind == 'rm':
        if v.m.live():
            return
        want = ('ConditionError',)

        def f():
            s.remove_condition([gs.Always(), gs.AddEdgeTo(a), gs.BeforeNode(a), gs.All(gs.Always())][k % 4])
    elif kind == 'modify':
        want = ('ConditionError',)
        g = {v.node(n): {v.node(p) for p in ps} for n, ps in v.m.parents.items()}
        given = g

        def f():
            c = [gs.AddEdgeTo, gs.BeforeNode, gs.AfterNode, gs.WithNode][k % 4](['missing', a][k // 4 % 2])
            if k // 4 % 2 == 0:
                c.owner = a
            c.modify_graph(g)
    elif kind == 'alias':
        want = ('ValueError',)
        if sim.env.aliases:
            return

        def f():
            gs.set_time_scale_alias('SWEEP', ['NO_SCALE', 'Pass', 'pass', ''][k % 4])
    was = shot(given)
    # what was refused is refused again
    for _ in range(1 + (k % 3 == 1)):
        try:
            x = f()
        except Injected:
            raise
        except Exception as e:
            if type(e).__name__ not in want:
                sim.fail('refusal', f'{kind} {k} {spec or ""}: raised {type(e).__name__}: {e}, expected {" or ".join(want)}')
        else:
            sim.fail('refusal', f'{kind} {k} {spec or ""}: was accepted, returned {x!r}, expected {" or ".join(want)}')
    if shot(given) != was:
        sim.fail('refusal', f'{kind} {k}: the argument was modified')
    after = dump(sim, v)
    for q in before:
        if before[q] != after[q]:
            sim.fail('refusal', f'{kind} {k}: the {q} changed from {before[q]} to {after[q]}')
    if kind == 'alias':
        from . import alias
        alias.check(sim)
    sim.fault('refused ' + kind)
    sim.note('refuse', kind)


def shot(x):
    if not isinstance(x, dict):
        return None
    return [(k, set(y) if isinstance(y, (set, frozenset)) else y) for k, y in x.items()]
