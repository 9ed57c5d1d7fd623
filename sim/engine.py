"""Executes one plan against the real library and the reference model.

A plan is a JSON object that holds every choice: nodes (and their hashes),
schedulers, conditions, and a sequence of operations which interleaves the
steps of all runs with faults and changes of the world.  Executing a plan
involves no other source of nondeterminism.
"""
import copy
import gc
import hashlib
import io
import json
import logging
import random
import sys
import warnings
from fractions import Fraction

import networkx as nx

from .lib import SimClock, TS, TSN, gs, unexpected
from . import absolute
from . import model as M
from .structs import node_of
from .model import CSE, ESU, LIFE, PASS, SEQ
from .world import Env, make_exc

MISSING = object()


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg = kind, msg


class Hang(BaseException):
    pass


class SchedulerView:
    """One scheduler, its model and what was given to it"""


def to_fraction(q):
    """pint quantity -> ms, exact where its magnitude is"""
    m = q.m
    unit = f'{q.u:~}'
    unit = {'µs': 'us', 'h': 'hour', 'min': 'minute'}.get(unit, unit)
    if unit not in M.UNITS:
        q = q.to('ms')
        m, unit = q.m, 'ms'
    if hasattr(m, 'item'):
        m = m.item()
    if isinstance(m, float):
        return (Fraction(m) * M.UNITS[unit]).limit_denominator(10**6)
    return Fraction(m) * M.UNITS[unit]


def close(a, b):
    return abs(a - b) <= Fraction(1, 10**6)


class Sim:
    def __init__(self, plan, bare=False):
        self.plan = plan
        self.bare = bare                # deliver only, observe nothing
        self.trace = []
        self.runs = {}
        self.nruns = 0
        self.stats = {'steps': 0, 'sets': 0, 'faults': {}, 'probes': 0, 'ends': 0,
                      'interleavings': 0, 'ambiguous': 0, 'simtime': 0}
        self.fault_log = self.stats['faults']
        self.states = set()
        self.env = Env(plan)
        self.views = []
        self.last_ctx = None
        self.opi = -1
        if counted_parts(plan) and not short_circuits():
            # how often the parts of a composite are evaluated is not specified
            raise M.Limit()
        for i, spec in enumerate(plan['scheds']):
            self.views.append(self.make(i, spec))

    # ------------------------------------------------------------------
    def fault(self, kind):
        self.fault_log[kind] = self.fault_log.get(kind, 0) + 1

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def real(self, what, f, *args, **kwargs):
        """Calls the library where no exception is allowed"""
        try:
            return f(*args, **kwargs)
        except Hang:
            raise
        except BaseException as e:
            self.fail('exception', f'{what} raised {type(e).__name__}: {e}')

    # ------------------------------------------------------------------
    def make_graph(self, v, spec):
        node = v.node
        form = spec.get('gform', 'dict')
        parents = {n: [] for n in spec['n']}
        for c, p in spec['e']:
            parents[c].append(p)
        if form in ('nx', 'multi', 'sub'):
            g = {'nx': nx.DiGraph, 'multi': nx.MultiDiGraph, 'sub': type('Graph', (nx.DiGraph,), {})}[form]()
            for n in spec['n']:
                g.add_node(node(n))
            for c, p in spec['e']:
                g.add_edge(node(p), node(c))
                if form == 'multi' and (c + p) % 2:
                    g.add_edge(node(p), node(c))
            return g, parents
        senders = {p for ps in parents.values() for p in ps}
        g = {}
        for n in spec['n']:
            if form == 'missing' and not parents[n] and n in senders:
                continue
            ps = [node(p) for p in parents[n]]
            g[node(n)] = {'frozen': frozenset, 'list': list, 'tuple': tuple, 'keys': dict.fromkeys}.get(form, set)(ps)
        return g, parents

    def make(self, i, spec):
        v = SchedulerView()
        v.i = i
        v.spec = spec
        own = {}

        def node(n):
            k = self.plan['nodes'][n]['k']
            if k == 'eq':
                o = self.env.node(n)
                o.s = i
                return o
            return self.env.node(n)
        v.node = node
        g, parents = self.make_graph(v, spec)
        v.base_parents = {n: set(p) for n, p in parents.items()}
        v.given_graph = g
        deid = spec.get('deid', 'n')
        mode = {'S': gs.SchedulingMode.STANDARD, 'E': gs.SchedulingMode.EXACT_TIME}[spec['mode']]
        unit = spec.get('unit')
        kw = {}
        if unit is not None:
            kw['default_absolute_time_unit'] = f'{unit[0]} {unit[1]}'
        if spec['mode'] == 'E' or spec.get('modekw'):
            kw['mode'] = mode
        if deid != 'n':
            kw['default_execution_id'] = self.env.eid(deid)
        v.condobj = {}
        v.stale = []            # replaced: (node, object, spec)
        v.removed = []          # (object, spec)
        v.structs = []          # [key, owner, sspec, object]
        v.index = {node(n): n for n in spec['n']}
        conds = None
        chow = spec.get('chow', 'dict')
        v.graph_fails = None
        v.m = None
        if spec.get('structs'):
            conds = self.first_structs(v, spec, g, kw)
        elif spec['conds']:
            d = {}
            for n, c in spec['conds']:
                o = self.env.build(c, node)
                d[node(n)] = o
                v.condobj[n] = o
            if chow == 'dict':
                conds = d
            elif chow == 'cset':
                conds = gs.ConditionSet(d)
            elif chow == 'cset2':
                conds = gs.ConditionSet(conditions=d)
            elif chow == 'list':
                conds = {k: [c] for k, c in d.items()}
        v.given_conds = conds
        term = None
        if spec.get('term'):
            term = self.term_dict(v, spec['term'], spec.get('tkeys', 'enum'))
        v.given_term = term
        snap = self.snapshot(v)
        SimClock.offset += 1.0
        before = SimClock.now()
        v.s = self.real('Scheduler()', gs.Scheduler, g, *([conds] if conds is not None and chow != 'after' else []),
                        **({'termination_conds': term} if term is not None else {}), **kw)
        if not self.bare and v.s.date_creation != before:
            self.fail('date', f'date_creation {v.s.date_creation} != {before}')
        if self.snapshot(v) != snap:
            self.fail('inputs', 'constructing a Scheduler modified its arguments')
        v.snap = snap
        v.m = M.Sched(spec['n'], parents, spec['mode'],
                      Fraction(1) if unit is None else M.ms(unit), deid, self.env.world)
        v.m.conds = {n: c for n, c in spec['conds']}
        if spec.get('term'):
            v.m.default_terms = {**v.m.default_terms, **{int(k): c for k, c in spec['term'].items()}}
            v.m.terms = dict(v.m.default_terms)
        v.termobj = v.termobj0 = {} if term is None else {int(k): o for k, o in zip(spec['term'], term.values())}
        v.m.plan_pairs = self.pairs(i)
        v.dates = {None}
        v.mutated = False
        if v.structs:
            self.regraph(v)
            if not self.bare:
                self.check_conds(v)
                self.check_graph(v)
        return v

    def first_structs(self, v, spec, g, kw):
        """Conditions of all kinds for the constructor"""
        from .structs import expected_graph
        items = [[n, None, c] for n, c in spec['conds']]
        for k, (key, owner, sspec) in enumerate(spec['structs']):
            items.insert(k * 2, [owner, key, sspec])
        for again in range(2):
            built = self.built(v, items)
            coll, order = self.collection(v, built, spec.get('chow', 'dict'))
            v.structs = [[key, n, c, o] for n, key, c, o in order if key is not None]
            exc = expected_graph(self, v)[1]
            if exc is None:
                break
            self.expect(exc, 'Scheduler()', gs.Scheduler, g, coll, **kw)
            self.fault('structural condition fails')
            v.structs = []
            items = [x for x in items if x[1] is None]
        for n, key, c, o in order:
            if key is None:
                v.condobj[n] = o
        return coll

    def built(self, v, items):
        """[owner, key of a structural condition or None, spec] -> with objects"""
        from .structs import incomplete, subjects
        res = []
        for n, key, c in items:
            if key is not None and (n < 0 or incomplete(c) or n in subjects(c)):
                # refused, with what is before it added
                continue
            o = self.env.build(c, v.node) if key is None else self.build_struct(v, c)
            res.append([n, key, c, o])
        return res

    def collection(self, v, built, form):
        """The conditions as one argument -> it, and the items in the order in
        which they must be added"""
        def grouped(xs, kind):
            d = {}
            for n, key, c, o in xs:
                d.setdefault(v.node(n), []).append(o)
            for i, (k, os) in enumerate(d.items()):
                if len(os) == 1 and (kind + i) % 2:
                    d[k] = os[0]
                elif (kind + i) % 3 == 1:
                    d[k] = tuple(os)
            return d

        def flat(xs):
            seen = dict.fromkeys(x[0] for x in xs)
            return [x for n in seen for x in xs if x[0] == n]
        if form in ('dict', 'list'):
            return grouped(built, len(form)), flat(built)
        # a set: it has them in the order in which it was given them
        h = len(built) // 2
        if form == 'cset':
            cs = gs.ConditionSet()
            for n, key, c, o in built:
                self.real('add_condition', cs.add_condition, v.node(n), o)
            given = built
        else:
            first, second = built[:h], built[h:]
            inner = self.real('ConditionSet()', gs.ConditionSet, grouped(second, 1))
            if form == 'cset2':
                cs = self.real('ConditionSet()', gs.ConditionSet, grouped(first, 0), None, inner)
            else:
                cs = self.real('ConditionSet()', gs.ConditionSet, None, grouped(first, 0), conditions=inner)
            second = self.iterated(v, inner, flat(second))
            given = flat(first) + second
        order = self.iterated(v, cs, given)
        return cs, order

    def iterated(self, v, cs, given):
        """The items of a ConditionSet as iteration over it gives them"""
        have = {}
        for n, key, c, o in given:
            e = have.setdefault(n, {'basic': None, 'structs': []})
            if key is None:
                e['basic'] = [n, key, c, o]
            else:
                e['structs'].append([n, key, c, o])
        if [id(o) for o in cs.structural_condition_order] != [id(x[3]) for x in given if x[1] is not None]:
            self.fail('conditions', f'the structural conditions of {cs} are in the order {cs.structural_condition_order}, expected that of {given}')
        order = []
        for k in cs:
            n = v.index.get(k)
            got = cs[k]
            got = list(got) if isinstance(got, (list, tuple)) else [got]
            e = have.pop(n, None)
            if e is None:
                self.fail('conditions', f'{cs} has conditions for {k!r}')
            want = ([e['basic']] if e['basic'] else []) + e['structs']
            if sorted(map(id, got)) != sorted(id(x[3]) for x in want):
                self.fail('conditions', f'the conditions of {k!r} in {cs} are {got}, expected {want}')
            if [id(x) for x in got if isinstance(x, gs.GraphStructureCondition)] != [id(x[3]) for x in e['structs']]:
                self.fail('conditions', f'the conditions of {k!r} in {cs} are in the order {got}, expected {want}')
            order += want
        if have:
            self.fail('conditions', f'{cs} lacks the conditions {have}')
        return order

    def pairs(self, i):
        """(dependency, owner) of every EveryNCalls in the plan"""
        res = set()

        def scan(owner, c):
            for o, s in M.walk_owned(c, owner):
                if s[0] == 'EveryNCalls':
                    res.add((s[1], o))
        for n, c in self.plan['scheds'][i]['conds']:
            scan(n, c)
        given = [c for _, c in self.plan['scheds'][i]['conds']]
        given += [c for op in self.plan['ops'] if op[0] in ('cond', 'replace') and op[1] == i for _, c in op[2] if c]
        given += [c for op in self.plan['ops'] if op[0] == 'bulk' and op[1] == i for _, key, c in op[2] if key is None]
        for op in self.plan['ops']:
            if op[0] == 'cond' and op[1] == i:
                for n, c in op[2]:
                    scan(n, c)
            elif op[0] == 'bulk' and op[1] == i:
                for n, key, c in op[2]:
                    if key is None:
                        scan(n, c)
            elif op[0] == 'readd' and op[1] == i:
                for c in given:
                    scan(op[2], c)
            elif op[0] == 'probe' and op[1] == i:
                scan(op[3], op[4])
            elif op[0] == 'replace' and op[1] == i:
                for n, c in op[2]:
                    if c:
                        scan(n, c)
        return res

    def term_dict(self, v, term, keys):
        d = {}
        for k, c in term.items():
            ts = TS[int(k)]
            name = ts.name
            for a, t in self.env.aliases.items():
                if t == int(k) and keys != 'lower':
                    name = a
            key = {'enum': ts, 'upper': name, 'lower': name.lower(),
                   'title': name.title()}[keys]
            d[key] = self.env.build(c, v.node)
        return d

    def snapshot(self, v):
        g = v.given_graph
        if isinstance(g, nx.DiGraph):
            a = (list(map(repr, g.nodes)), sorted(map(repr, g.edges)))
        else:
            a = [(repr(k), type(p).__name__, sorted(map(repr, p))) for k, p in g.items()]
        b = None
        if v.given_conds is not None:
            c = v.given_conds
            b = [(repr(k), [id(x) for x in (c[k] if isinstance(c[k], (list, tuple)) else [c[k]])]) for k in c]
        t = None
        if v.given_term is not None:
            t = [(repr(k), id(c)) for k, c in v.given_term.items()]
        return (a, b, t)

    # ------------------------------------------------------------------
    def idx(self, v, xs):
        res = []
        for x in xs:
            if x not in v.index:
                self.fail('nodes', f'scheduler {v.i} delivered {x!r}, which is not one of its nodes')
            if getattr(x, 's', v.i) != v.i:
                self.fail('nodes', f'scheduler {v.i} delivered the node {x!r} of scheduler {x.s}')
            res.append(v.index[x])
        if len(set(res)) != len(res):
            self.fail('nodes', f'a node twice in one set: {xs}')
        return frozenset(res)

    def eidtok(self, v, tok):
        return v.m.default_eid if tok == 'd' else tok

    def note(self, *x):
        self.trace.append(list(x))

    # ------------------------------------------------------------------
    def run(self):
        for self.opi, op in enumerate(self.plan['ops']):
            getattr(self, 'op_' + op[0])(*op[1:])
            if self.env.errors:
                self.fail('user code', self.env.errors[0])
            if not self.bare:
                self.auto()
        self.opi = len(self.plan['ops'])
        if not self.bare:
            for r in self.runs.values():
                if r['state'] != 'ended':
                    absolute.finish(self, r['v'], r, False)
        self.final()
        for k, n in self.env.faults.items():
            self.fault_log[k] = self.fault_log.get(k, 0) + n

    # ------------------------------------------------------------------
    # runs
    # ------------------------------------------------------------------
    def op_start(self, si, tok, opts):
        self.nruns += 1
        rid = self.nruns
        v = self.views[si]
        m = v.m
        eid = self.eidtok(v, tok)
        kw = {}
        if opts.get('kw'):
            kw.update(opts['kw'])
        args = dict(kw)
        given = None
        if opts.get('term') is not None:
            given = {int(k): c for k, c in opts['term'].items()}
            td = self.term_dict(v, opts['term'], opts.get('tkeys', 'enum'))
            tsnap = list(td.items())
            args['termination_conds'] = td
        if tok != 'd':
            args['execution_id'] = self.env.eid(tok)
        base = NotImplemented
        if opts.get('base') is not None:
            base = self.eidtok(v, opts['base'])
            args['base_execution_id'] = self.env.eid(base)
        if opts.get('skip'):
            args['skip_environment_state_update_time_increment'] = True
        old = m.ctx.get(eid)
        if old is not None and old.run is not None:
            self.runs[old.run.rid]['state'] = 'abandoned'
            m.interrupt(old)
            self.fault('run abandoned')
        gen = self.real('run()', v.s.run, **args)
        r = {'v': v, 'eid': eid, 'gen': gen, 'state': 'new', 'kw': kw, 'id': rid}
        self.runs[rid] = r
        # cases in which no run starts
        expect = None
        if v.graph_fails is not None:
            expect = v.graph_fails
        elif M.layers_of(m.parents) is None:
            expect = 'SchedulerError'
        elif eid not in m.ctx and base is not NotImplemented and base not in m.ctx:
            expect = 'SchedulerError'
            self.fault('unknown base_execution_id')
        if expect is not None:
            r['state'] = 'ended'
            try:
                next(gen)
            except Hang:
                raise
            except BaseException as e:
                if type(e).__name__ != expect:
                    self.fail('exception', f'starting a run raised {type(e).__name__}: {e}, expected {expect}')
                self.note('r', rid, 'refused', expect)
                return
            self.fail('exception', f'starting a run did not raise {expect}')
        run = M.Run(rid, m.terms_for(given), bool(opts.get('skip')), kw)
        cx = m.begin(eid, run, base)
        r['state'] = 'live'
        if run.abs:
            r['absrec'] = absolute.begin(v, cx, run)
        self.resume(r)
        if given is not None and list(td.items()) != tsnap:
            self.fail('inputs', 'run() modified termination_conds')

    def resume(self, r):
        v, eid, gen = r['v'], r['eid'], r['gen']
        m = v.m
        cx = m.ctx[eid]
        succ = m.successors(cx, eid)
        if len({repr(e) for e, _ in succ}) > 1:
            self.stats['ambiguous'] += 1
        env = self.env
        env.cur_eid, env.cur_sched, env.run_kwargs = env.eid(eid), v.s, r['kw']
        self.stats['steps'] += 1
        ctx = (v.i, eid)
        if self.last_ctx is not None and self.last_ctx != ctx:
            self.stats['interleavings'] += 1
        self.last_ctx = ctx
        date0 = v.s.date_last_run_end if not self.bare else None
        try:
            x = next(gen)
        except StopIteration as e:
            ev = ('end', e.value)
        except Hang:
            raise
        except BaseException as e:
            t = [t for t, x in env.traps.items() if x is e]
            if not t:
                self.fail('exception', f'scheduler {v.i}, execution_id {eid}: a run raised {type(e).__name__}: {e}')
            ev = ('raise', t[0])
        else:
            if not isinstance(x, set):
                self.fail('nodes', f'a run delivered {x!r}')
            ev = ('yield', self.idx(v, x))
        finally:
            env.cur_eid = NotImplemented
        name = f'scheduler {v.i}, execution_id {eid}'
        desc = self.desc(ev)
        self.note('r', r['id'], si_eid(v, eid), desc)
        abs_run = cx.run.abs
        if ev[0] == 'end':
            ends = [e for e, _ in succ if e[0] == 'end']
            ok = m.observe(cx, eid, ev, succ)
        else:
            ok = m.observe(cx, eid, ev, succ)
        if not ok:
            allowed = sorted({self.desc(e) for e, _ in succ})
            self.fail('schedule', f'{name}: got {desc}, allowed: {allowed[:6]} (after {[sorted(x) for x in cx.list[-6:]]})')
        for st in cx.states[:4]:
            self.states.add(hash((v.i, st.pos, tuple(st.time()), st.cip, tuple(sorted(st.counts[ESU].items())))))
        if ev[0] == 'yield':
            self.stats['sets'] += 1
            if not self.bare and r.get('absrec') is not None:
                stamp = v.s.execution_timestamps[env.eid(eid)][-1]
                r['absrec']['sets'].append((to_fraction(stamp.absolute), ev[1]))
            if m.mode == 'S' and len(ev[1]) > 1:
                anc = ancestors(m.parents)
                for a in ev[1]:
                    if anc[a] & ev[1]:
                        self.fail('schedule', f'{name}: the set {desc} contains {a} and its ancestors {sorted(anc[a] & ev[1])}')
        if ev[0] != 'yield' and not self.bare:
            absolute.finish(self, v, r, ev[0] == 'end')
        if ev[0] != 'yield':
            r['state'] = 'ended'
            r['gen'] = None
        if ev[0] == 'end':
            self.stats['ends'] += 1
            if not self.bare:
                self.check_list(v, eid, ev[1])
                flags = {e[1] for e in ends}
                now = SimClock.now()
                if v.s.date_last_run_end != now and True in flags and len(flags) == 1:
                    self.fail('date', f'{name}: a sequence ended but date_last_run_end is {v.s.date_last_run_end}')
                if flags == {False} and v.s.date_last_run_end != date0:
                    self.fail('date', f'{name}: date_last_run_end changed without the end of a sequence')
            SimClock.offset += 0.5
        return ev

    @staticmethod
    def desc(ev):
        if ev[0] == 'yield':
            return '{' + ','.join(map(str, sorted(ev[1]))) + '}'
        if ev[0] == 'end':
            return 'end'
        return f'raise {ev[1]}'

    def live(self, si, tok):
        """The run in progress of a context"""
        v = self.views[si]
        cx = v.m.ctx.get(self.eidtok(v, tok))
        return None if cx is None or cx.run is None else self.runs[cx.run.rid]

    def op_go(self, si, tok, k, opts):
        """k steps of a context; starts a run if none is in progress"""
        for i in range(k):
            r = self.live(si, tok)
            if r is None:
                if i > 0:
                    return
                self.op_start(si, tok, opts)
            else:
                self.resume(r)
            if not self.bare and self.plan.get('dense') and i < k - 1:
                self.auto()

    def op_close(self, si, tok):
        r = self.live(si, tok)
        if r is None:
            return
        rid = r['id']
        self.env.cur_eid = NotImplemented
        self.real('close()', r['gen'].close)
        self.ended(r)
        self.note('r', rid, 'closed')
        self.fault('run closed')

    def ended(self, r):
        r['state'] = 'ended'
        r['gen'] = None
        r['v'].m.interrupt(r['v'].m.ctx[r['eid']])

    def op_throw(self, si, tok, kind):
        r = self.live(si, tok)
        if r is None:
            return
        rid = r['id']
        e = make_exc(kind, 'thrown')
        try:
            x = r['gen'].throw(e)
        except Hang:
            raise
        except BaseException as x:
            if x is not e:
                self.fail('exception', f'{type(e).__name__} thrown into a run came back as {x!r}')
        else:
            self.fail('exception', f'{type(e).__name__} thrown into a run was swallowed, it delivered {x!r}')
        self.ended(r)
        self.note('r', rid, 'thrown', kind)
        self.fault('exception thrown in')

    def op_drop(self, si, tok, what):
        """Loses the last reference to a run that is in progress or abandoned"""
        r = self.live(si, tok) if what == 'live' else None
        if r is None:
            r = [x for x in self.runs.values() if x['state'] == 'abandoned' and x['v'].i == si]
            if not r:
                return
            r = r[0]
        rid = r['id']
        live = r['state'] == 'live'
        r['gen'] = None
        gc.collect()
        if live:
            self.ended(r)
        r['state'] = 'ended'
        self.note('r', rid, 'dropped')
        self.fault('run dropped and collected')

    def op_abandon(self, si, tok):
        r = self.live(si, tok)
        if r is None:
            return
        rid = r['id']
        r['state'] = 'abandoned'
        r['v'].m.interrupt(r['v'].m.ctx[r['eid']])
        self.note('r', rid, 'abandoned')
        self.fault('run abandoned')

    def op_endseq(self, si, tok):
        v = self.views[si]
        args = {} if tok == 'd' else {'execution_id': self.env.eid(tok)}
        self.real('end_environment_sequence()', v.s.end_environment_sequence, **args)
        v.m.end_sequence(self.eidtok(v, tok))
        self.note('endseq', si, tok)

    # ------------------------------------------------------------------
    # world and faults
    # ------------------------------------------------------------------
    def op_world(self, what, name, eid, value):
        w = self.env.world
        if what == 'trap':
            if value:
                w.armed[name] = eid
            else:
                w.armed.pop(name, None)
        else:
            {'fin': w.fin, 'val': w.val, 'flag': w.flag}[what][(name, eid)] = value
            self.fault('node or flag state changed')

    def op_heal(self):
        """All faults stop and every state allows progress"""
        w = self.env.world
        w.armed.clear()

    def op_gc(self):
        gc.collect()
        self.fault('garbage collection')

    def op_wall(self, dt):
        SimClock.offset += dt
        self.fault('wall clock jump')

    def op_log(self, on):
        lg = logging.getLogger('graph_scheduler')
        if on:
            lg.handlers[:] = [logging.StreamHandler(io.StringIO())]
            gs.enable_debug_logging()
            lg.setLevel(logging.DEBUG)
        else:
            gs.disable_debug_logging()
            lg.setLevel(logging.NOTSET)
        self.fault('debug logging switched')

    # ------------------------------------------------------------------
    # conditions
    # ------------------------------------------------------------------
    def op_cond(self, si, pairs, how):
        v = self.views[si]
        s = v.s
        if v.graph_fails is not None and how in ('add', 'dict', 'cset', 'list', 'warn'):
            how = 'cs_add'
        objs = {}
        for n, c in pairs:
            objs[n] = self.env.build(c, v.node)
        self.give(v, pairs, objs, how)

    def op_readd(self, si, n, k, stale):
        """A condition that was removed or replaced, for another node"""
        v = self.views[si]
        pool = v.stale if stale else v.removed
        if not pool:
            return
        e = pool.pop(k % len(pool))
        o, spec = e[-2:]
        if any(s[0] == 'Own' for s in M.walk(spec)):
            return
        if stale and any(x is o for x in v.condobj.values()):
            return
        self.give(v, [(n, spec)], {n: o}, 'cs_add' if v.graph_fails is not None or k % 2 else 'add')
        self.fault('condition used again')

    def give(self, v, pairs, objs, how):
        s = v.s
        d = {v.node(n): o for n, o in objs.items()}
        if how == 'add':
            for n, o in objs.items():
                self.real('add_condition', s.add_condition, v.node(n), o)
        elif how == 'dict':
            self.real('add_condition_set', s.add_condition_set, d)
        elif how == 'list':
            self.real('add_condition_set', s.add_condition_set, {k: ([o], (o,), {o})[len(d) % 3] for k, o in d.items()})
        elif how == 'cset':
            self.real('add_condition_set', s.add_condition_set, gs.ConditionSet(d))
        elif how == 'cs_add':
            for n, o in objs.items():
                self.real('add_condition', s.conditions.add_condition, v.node(n), o)
        elif how == 'warn':
            for n in list(objs):
                if self.warned(v, n, objs[n]):
                    del objs[n]
            pairs = [x for x in pairs if x[0] in objs]
        elif how == 'cs_dict':
            self.real('add_condition_set', s.conditions.add_condition_set, d)
        elif how == 'cs_item':
            for n, o in objs.items():
                if v.m.live() and any(x[1] == n for x in v.structs):
                    self.real('add_condition', s.conditions.add_condition, v.node(n), o)
                else:
                    self.real('item assignment', s.conditions.__setitem__, v.node(n), o)
                    if any(x[1] == n for x in v.structs):
                        v.structs = [x for x in v.structs if x[1] != n]
                        self.regraph(v)
        for n, c in pairs:
            if n in v.condobj:
                v.stale.append((n, v.condobj[n], v.m.conds[n]))
            v.condobj[n] = objs[n]
            v.m.conds[n] = c
        self.note('cond', v.i)
        if v.m.live():
            self.fault('condition changed during a run')
            for r in self.runs.values():
                if r['v'] is v:
                    r.pop('absrec', None)

    def check_conds(self, v):
        for n in v.spec['n']:
            node = v.node(n)
            o = v.condobj.get(n)
            if o is None:
                continue
            got = v.s.conditions.conditions_basic.get(node)
            if got is not o:
                self.fail('conditions', f'the condition of node {n} is {got}, not the one given last')
            if o.owner != node:
                self.fail('conditions', f'the owner of the condition of node {n} is {o.owner}')
        want = {}
        for n, o in v.condobj.items():
            want.setdefault(n, []).append(o)
        for _, n, _, o in v.structs:
            want.setdefault(n, []).append(o)
        cs = v.s.conditions
        have = {}
        for k in cs:
            c = cs[k]
            c = c if isinstance(c, list) else [c]
            n = v.index.get(k, -1)
            # conditions that the scheduler uses for nodes without any
            c = [x for i, x in enumerate(c) if n in v.condobj or isinstance(x, gs.GraphStructureCondition)]
            if c:
                have[n] = c
        if {n: sorted(map(id, os)) for n, os in have.items()} != {n: sorted(map(id, os)) for n, os in want.items()}:
            self.fail('conditions', f'the conditions are {cs}, expected {want}')
        for n in v.spec['n']:
            if (v.node(n) in cs) < (n in want):
                self.fail('conditions', f'{n} is not in the conditions')
            if (v.node(n) in v.s) != (v.node(n) in cs):
                self.fail('conditions', f'whether {n} is in the scheduler and in its conditions differs')
        order = [id(c) for c in cs.structural_condition_order]
        if order != [id(x[3]) for x in v.structs]:
            self.fail('conditions', f'the structural conditions are {cs.structural_condition_order}, expected {[x[3] for x in v.structs]}')

    def op_rm(self, si, n, how):
        v = self.views[si]
        s = v.s
        if v.m.live():
            return
        rm = s.remove_condition if how[0] != 'c' else s.conditions.remove_condition
        how = how.lstrip('c')
        node = v.node(n)
        has_struct = [x for x in v.structs if x[1] == n]
        present = v.s.conditions.conditions_basic.get(node)
        if how == 'owner' or how == 'obj':
            o = v.condobj.get(n)
            if how == 'obj':
                if o is None:
                    return
                arg = o
            else:
                arg = node
                if present is not None and has_struct:
                    self.expect('ConditionError', 'remove_condition', rm, arg)
                    self.fault('refused removal')
                    return
                if present is None:
                    if has_struct:
                        return
            got = self.real('remove_condition', rm, arg)
            if o is not None:
                if got is not o:
                    self.fail('conditions', f'remove_condition({how}) returned {got} instead of {o}')
                if o.owner is not None:
                    self.fail('conditions', f'a removed condition still has the owner {o.owner}')
                v.removed.append((v.condobj.pop(n), v.m.conds.pop(n)))
            elif present is None:
                if got is not None:
                    self.fail('conditions', f'remove_condition of nothing returned {got}')
            elif got is not present:
                self.fail('conditions', f'remove_condition returned {got} instead of {present}')
            if v.node(n) in s.conditions.conditions_basic:
                self.fail('conditions', 'a removed condition is still present')
        elif how == 'stale':
            st = [o for m_, o, _ in v.stale if m_ == n and o.owner is not None]
            if not st:
                return
            got = self.real('remove_condition', rm, st[-1])
            if got is not None:
                self.fail('conditions', f'remove_condition of a replaced condition returned {got}')
            self.fault('refused removal')
        elif how == 'unowned':
            self.expect('ConditionError', 'remove_condition', rm, gs.Always())
            self.fault('refused removal')
        elif how == 'unknown':
            got = self.real('remove_condition', rm, 'no such node')
            if got is not None:
                self.fail('conditions', f'remove_condition of nothing returned {got}')
            self.fault('refused removal')
        elif how == 'foreign':
            o = gs.Always()
            o.owner = node
            got = self.real('remove_condition', rm, o)
            if got is not None:
                self.fail('conditions', f'remove_condition of a foreign condition returned {got}')
            self.fault('refused removal')
        self.note('rm', si, n, how)

    def expect(self, exc, what, f, *args, **kw):
        try:
            x = f(*args, **kw)
        except Hang:
            raise
        except BaseException as e:
            if type(e).__name__ != exc:
                self.fail('exception', f'{what} raised {type(e).__name__}: {e}, expected {exc}')
            return e
        self.fail('exception', f'{what} did not raise {exc}, returned {x!r}')

    def op_term(self, si, term, keys):
        v = self.views[si]
        if term is None:
            self.real('termination_conds', setattr, v.s, 'termination_conds', None)
            v.m.terms = dict(v.m.default_terms)
            v.termobj = v.termobj0
        else:
            d = self.term_dict(v, term, keys)
            snap = list(d.items())
            self.real('termination_conds', setattr, v.s, 'termination_conds', d)
            if list(d.items()) != snap:
                self.fail('inputs', 'setting termination_conds modified the dictionary')
            v.m.terms = v.m.terms_for({int(k): c for k, c in term.items()})
            v.termobj = {**v.termobj, **{int(k): o for k, o in zip(term, d.values())}}
            d.clear()
        self.note('term', si)

    def check_terms(self, v):
        """The termination conditions of the scheduler, which runs do not change"""
        got = v.s.termination_conds
        if set(got) != {TS[ESU], TS[SEQ]}:
            self.fail('terms', f'the termination conditions are {got}')
        for ts, default in ((ESU, gs.AllHaveRun), (SEQ, gs.Never)):
            o = got[TS[ts]]
            if ts in v.termobj and o is not v.termobj[ts] or ts not in v.termobj and not isinstance(o, default):
                self.fail('terms', f'the termination condition for {TSN[ts]} is {o}, not {v.termobj.get(ts, default)}')

    def op_badterm(self, si, kind):
        """Termination conditions that must be refused without effect"""
        v = self.views[si]
        bad = {
            'value': {gs.TimeScale.PASS: 'x', gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Always()},
            'key': {'no such scale': gs.Always(), gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Always()},
            'struct': {gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.AddEdgeTo('x')},
        }[kind]
        self.expect('SchedulerError', 'termination_conds', setattr, v.s, 'termination_conds', bad)
        self.fault('refused termination conditions')

    def op_refuse(self, si, tok, kind, k, spec):
        from . import refuse
        refuse.apply(self, si, tok, kind, k, spec)

    # ------------------------------------------------------------------
    # composite conditions, against their parts
    # ------------------------------------------------------------------
    def real_eval(self, v, eid, owner, spec):
        c = self.env.build(spec, v.node)
        c.owner = v.node(owner)
        return bool(self.real(f'is_satisfied of {spec}', c.is_satisfied, scheduler=v.s, execution_id=self.env.eid(eid)))

    def parts(self, v, eid, owner, spec):
        k = spec[0]
        if k == 'All':
            return all([self.parts(v, eid, owner, c) for c in spec[1:]])
        if k == 'Any':
            return any([self.parts(v, eid, owner, c) for c in spec[1:]])
        if k == 'Not':
            return not self.parts(v, eid, owner, spec[1])
        if k == 'Own':
            return self.parts(v, eid, spec[1], spec[2])
        return self.real_eval(v, eid, owner, spec)

    def evaluable(self, v, eid, owner, spec):
        cx = v.m.ctx.get(eid)
        if cx is None or v.graph_fails is not None or v.m.queue is None:
            return False
        for o, k in M.walk_owned(spec, owner):
            if k[0] == 'EveryNCalls' and (cx.run is None or (k[1], o) not in cx.run.pairs):
                return False
        return True

    def op_compo(self, si, tok, owner, spec):
        if self.bare:
            return
        v = self.views[si]
        eid = self.eidtok(v, tok)
        if not self.evaluable(v, eid, owner, spec):
            return
        self.env.cur_eid, self.env.cur_sched, self.env.run_kwargs = self.env.eid(eid), v.s, {}
        want = self.parts(v, eid, owner, spec)
        got = self.real_eval(v, eid, owner, spec)
        self.env.cur_eid = NotImplemented
        self.stats['probes'] += 1
        self.note('compo', si, eid, json.dumps(spec), got)
        if got != want:
            self.fail('condition', f'{spec} is {got}, but its parts give {want}')

    def op_nweval(self, si, tok, uid, spec, n):
        """Evaluates one NWhen of all contexts of a scheduler directly"""
        if self.bare:
            return
        v = self.views[si]
        eid = self.eidtok(v, tok)
        owner = v.spec['n'][0]
        if not self.evaluable(v, eid, owner, spec):
            return
        nws = v.__dict__.setdefault('nws', {})
        if uid not in nws:
            c = gs.NWhen(self.env.build(spec, v.node), n)
            c.owner = v.node(owner)
            nws[uid] = (c, {}, spec, n)
        c, counts, spec, n = nws[uid]
        self.env.cur_eid, self.env.cur_sched, self.env.run_kwargs = self.env.eid(eid), v.s, {}
        part = self.real_eval(v, eid, owner, spec)
        got = bool(self.real('is_satisfied of NWhen', c.is_satisfied, scheduler=v.s, execution_id=self.env.eid(eid)))
        self.env.cur_eid = NotImplemented
        want = part and counts.get(eid, 0) < n
        if want:
            counts[eid] = counts.get(eid, 0) + 1
        self.stats['probes'] += 1
        self.note('nweval', si, eid, uid, got)
        if got != want:
            self.fail('condition', f'NWhen({spec}, {n}) is {got} for execution_id {eid}, its part is {part} and it was satisfied {counts.get(eid, 0) - want} times')

    # ------------------------------------------------------------------
    # liveness
    # ------------------------------------------------------------------
    def op_progress(self, si, tok, opts):
        """From here on nothing fails and the world allows execution: a run
        must end within the bound that its conditions imply"""
        from .live import bound as bound_of
        v = self.views[si]
        if v.graph_fails is not None or M.layers_of(v.m.parents) is None:
            return
        self.op_close(si, tok)
        w = self.env.world
        w.armed.clear()
        for d, x in ((w.fin, True), (w.val, 1000)):
            d.clear()
            for k in range(len(self.plan['nodes'])):
                d[(k, '*')] = x
        w.flag.clear()
        for f in 'fgh':
            w.flag[(f, '*')] = True
        self.fault('faults stop')
        given = {int(k): c for k, c in opts['term'].items()} if opts.get('term') else None
        bound = bound_of(v.m, v.m.terms_for(given))
        if bound is None:
            return
        n = 0
        self.op_start(si, tok, opts)
        while self.live(si, tok) is not None:
            n += 1
            if n > bound:
                self.fail('liveness', f'a run whose conditions allow progress has not ended after {n} sets, expected at most {bound}')
            self.resume(self.live(si, tok))
        self.note('progress', si, n)
        self.stats['progress'] = self.stats.get('progress', 0) + 1

    # ------------------------------------------------------------------
    # aliases of time scales
    # ------------------------------------------------------------------
    def op_alias(self, what, name, ts):
        from . import alias
        alias.apply(self, what, name, ts)

    # ------------------------------------------------------------------
    # graph structure
    # ------------------------------------------------------------------
    def build_struct(self, v, spec):
        from .structs import build, incomplete
        if incomplete(spec):
            self.fault('refused structural condition')
            self.expect('ConditionError', f'{spec} with operations for other than its subjects',
                        lambda: build(self.env, v, spec))
            return None
        return build(self.env, v, spec)

    def op_struct(self, si, key, owner, spec, how):
        v = self.views[si]
        s = v.s
        if v.m.live():
            return
        node = node_of(v, owner)
        o = self.build_struct(v, spec)
        if o is None:
            return
        before = [x[0] for x in v.structs]
        if how == 'item':
            v.structs = [x for x in v.structs if x[1] != owner]
        exc = None
        try:
            if how == 'add' or how == 'edge' and spec[0] not in ('AddEdgeTo', 'RemoveEdgeFrom'):
                s.add_condition(node, o)
            elif how == 'edge' and spec[0] == 'AddEdgeTo':
                o = s.add_graph_edge(node, v.node(spec[1]) if spec[1] >= 0 else 'missing')
            elif how == 'edge':
                o = s.remove_graph_edge(v.node(spec[1]), node)
            elif how == 'dict':
                s.add_condition_set({node: o})
            elif how == 'list':
                s.add_condition_set({node: (o,) if key % 2 else [o]})
            elif how == 'cset':
                s.add_condition_set(gs.ConditionSet({node: [o]}))
            elif how == 'cs_add':
                s.conditions.add_condition(node, o)
            elif how == 'item':
                s.conditions[node] = o
        except Hang:
            raise
        except BaseException as e:
            exc = e
            if how == 'edge':
                o = None
        owner_refused = type(exc).__name__ == 'ConditionError' and 'cannot be assigned as owner' in str(exc)
        if not owner_refused:
            if o is None:
                o = [c for c in s.conditions.structural_condition_order][-1]
            v.structs.append([key, owner, spec, o])
        else:
            self.fault('refused structural condition')
            self.note('struct', si, key, 'refused')
            if how == 'item':
                # the conditions that it was to replace are removed
                self.regraph(v)
            return
        self.regraph(v)
        lazy = how in ('cs_add', 'item')
        if v.graph_fails is None:
            if exc is not None:
                self.fail('exception', f'adding {o} raised {type(exc).__name__}: {exc}, but it can be applied to the graph')
        else:
            self.fault('structural condition fails')
            if exc is None and not lazy:
                self.fail('graph', f'adding {o} must fail with {v.graph_fails}')
            if exc is not None and type(exc).__name__ != v.graph_fails:
                self.fail('exception', f'adding {o} raised {type(exc).__name__}: {exc}, expected {v.graph_fails}')
        self.note('struct', si, key)

    def warned(self, v, n, o):
        """Adds a condition where warnings are exceptions; whether that failed"""
        from .refuse import dump
        before = dump(self, v)
        warnings.simplefilter('error')
        try:
            v.s.add_condition(v.node(n), o)
        except Hang:
            raise
        except Warning as e:
            self.note('warning')
        except BaseException as e:
            self.fail('exception', f'adding {o} raised {type(e).__name__}: {e}')
        else:
            return False
        finally:
            warnings.simplefilter('ignore')
        after = dump(self, v)
        for q in before:
            if before[q] != after[q]:
                self.fail('refusal', f'adding {o} to {n} failed with a warning, but the {q} changed from {before[q]} to {after[q]}')
        self.fault('warning as an exception')
        return True

    def op_mode(self, si, mode, unit):
        """Other settings for the runs from now on"""
        v = self.views[si]
        if v.m.live():
            return
        if mode is not None:
            v.s.mode = {'S': gs.SchedulingMode.STANDARD, 'E': gs.SchedulingMode.EXACT_TIME}[mode]
            v.m.mode = mode
        if unit is not None:
            v.s.default_absolute_time_unit = gs._unit_registry.Quantity(f'{unit[0]} {unit[1]}')
            v.m.unit = M.ms(unit)
        if not self.bare:
            self.check_graph(v)
        self.fault('settings changed')
        self.note('mode', si, mode)

    def op_rmstruct(self, si, key, how):
        v = self.views[si]
        if v.m.live():
            return
        e = [x for x in v.structs if x[0] == key]
        if not e:
            return
        e = e[0]
        arg = e[3]
        if how == 'owner':
            node = node_of(v, e[1])
            if sum(x[1] == e[1] for x in v.structs) > 1 or node in v.s.conditions.conditions_basic:
                self.expect('ConditionError', 'remove_condition', v.s.remove_condition, node)
                self.fault('refused removal')
                return
            arg = node
        got = self.real('remove_condition', v.s.remove_condition, arg)
        if got is not e[3]:
            self.fail('conditions', f'remove_condition returned {got} instead of {e[3]}')
        v.structs.remove(e)
        self.regraph(v)
        self.note('rmstruct', si, key)

    def op_replace(self, si, conds, structs):
        v = self.views[si]
        if v.m.live():
            return
        cs = gs.ConditionSet()
        old, oldspec, oldstructs = v.condobj, v.m.conds, {x[0]: x for x in v.structs}
        v.condobj = {}
        v.structs = []
        v.m.conds = {}
        for n, c in conds:
            if c is None:
                # the object that the node has
                if n not in old:
                    continue
                o, c = old[n], oldspec[n]
            else:
                o = self.env.build(c, v.node)
            cs.add_condition(v.node(n), o)
            v.condobj[n] = o
            v.m.conds[n] = c
        for key, owner, spec in structs:
            if owner is None:
                if key not in oldstructs:
                    continue
                _, owner, spec, o = oldstructs[key]
            else:
                o = self.build_struct(v, spec)
            if o is None:
                continue
            try:
                cs.add_condition(node_of(v, owner), o)
            except gs.ConditionError:
                continue
            v.structs.append([key, owner, spec, o])
        v.s.conditions = cs
        self.regraph(v)
        self.fault('condition set replaced')
        self.note('replace', si)

    def op_bulk(self, si, items, form, lazy):
        """Conditions of all kinds of several nodes at once"""
        v = self.views[si]
        if v.m.live():
            return
        built = self.built(v, items)
        coll, order = self.collection(v, built, form)
        before = self.contents(coll)
        s = v.s
        exc = None
        try:
            (s.conditions if lazy else s).add_condition_set(coll)
        except Hang:
            raise
        except BaseException as e:
            exc = e
        if self.contents(coll) != before:
            self.fail('inputs', f'adding the conditions {coll} modified them')
        for n, key, c, o in order:
            if key is not None:
                v.structs.append([key, n, c, o])
                continue
            if n in v.condobj:
                v.stale.append((n, v.condobj[n], v.m.conds[n]))
            v.condobj[n] = o
            v.m.conds[n] = c
        self.regraph(v)
        if v.graph_fails is None:
            if exc is not None:
                self.fail('exception', f'adding {coll} raised {type(exc).__name__}: {exc}, but it can be applied to the graph')
        else:
            self.fault('structural condition fails')
            if exc is None and not lazy:
                self.fail('graph', f'adding {coll} must fail with {v.graph_fails}')
            if exc is not None and type(exc).__name__ != v.graph_fails:
                self.fail('exception', f'adding {coll} raised {type(exc).__name__}: {exc}, expected {v.graph_fails}')
        if isinstance(coll, dict):
            # the caller's own lists
            for os in coll.values():
                if isinstance(os, list):
                    os.clear()
            coll.clear()
        else:
            for n in v.spec['n'][:2]:
                coll.add_condition(v.node(n), gs.Never())
                coll.add_condition(v.node(n), gs.CustomGraphStructureCondition(lambda graph: {k: set() for k in graph}))
        self.stats['collections'] = self.stats.get('collections', 0) + 1
        self.note('bulk', si)

    @staticmethod
    def contents(coll):
        return [(repr(k), [id(x) for x in (coll[k] if isinstance(coll[k], (list, tuple)) else [coll[k]])]) for k in coll]

    def op_getgraph(self, si):
        v = self.views[si]
        try:
            v.s.graph
        except Exception:
            pass

    def regraph(self, v):
        from .structs import expected_graph
        g, exc = expected_graph(self, v)
        if exc is None:
            v.graph_fails = None
            v.m.set_graph(g)
        else:
            v.graph_fails = exc

    def check_graph(self, v):
        s = v.s
        if v.graph_fails is not None:
            self.expect(v.graph_fails, 'reading the graph', lambda: s.graph)
            return
        # each of them is up to date, whichever is read first
        v.reads = getattr(v, 'reads', 0) + 1
        names = ('graph', 'consideration_queue', 'consideration_queue_indices', 'dependency_dict')
        r = {x: self.real(x, getattr, s, x) for x in (names[(v.i + v.reads + i) % 4] for i in range(4))}
        g = r['graph']
        got = {}
        for k, ps in g.items():
            got[v.index.get(k, repr(k))] = frozenset(v.index.get(p, repr(p)) for p in ps)
        want = {n: frozenset(ps) for n, ps in v.m.parents.items()}
        if got != want:
            self.fail('graph', f'graph of scheduler {v.i} is {show_graph(got)}, expected {show_graph(want)}')
        layers = M.layers_of(v.m.parents)
        if layers is not None and v.m.mode != 'E':
            q = [frozenset(v.index.get(x, repr(x)) for x in cs) for cs in r['consideration_queue']]
            if q != layers:
                self.fail('graph', f'consideration queue {q}, expected {layers}')
        if layers is not None:
            ind = {v.index.get(k, repr(k)): i for k, i in r['consideration_queue_indices'].items()}
            if ind != {n: i for i, l in enumerate(layers) for n in l}:
                self.fail('graph', f'consideration queue indices {ind} for {layers}')
        if r['dependency_dict'] != g:
            self.fail('graph', 'dependency_dict is not the graph')

    # ------------------------------------------------------------------
    # inputs changed by the caller
    # ------------------------------------------------------------------
    def op_mutin(self, si, what):
        v = self.views[si]
        if not v.mutated and self.snapshot(v) != v.snap:
            self.fail('inputs', 'a Scheduler modified its arguments')
        v.mutated = True
        done = v.__dict__.setdefault('mutin', set())
        if what in done:
            return
        done.add(what)
        if what == 'graph':
            g = v.given_graph
            if isinstance(g, nx.DiGraph):
                g.add_edge(v.node(v.spec['n'][0]), 'intruder')
                g.remove_node(v.node(v.spec['n'][-1]))
            else:
                for k in list(g):
                    if isinstance(g[k], set):
                        g[k].add('intruder')
                        g[k].discard(v.node(v.spec['n'][0]))
                    elif isinstance(g[k], list):
                        g[k][:] = ['intruder']
                    elif isinstance(g[k], dict):
                        g[k].clear()
                g['intruder'] = set()
        elif what == 'conds':
            c = v.given_conds
            if isinstance(c, dict):
                for os in c.values():
                    if isinstance(os, list):
                        os.clear()
                c[v.node(v.spec['n'][0])] = gs.Never()
                c.pop(v.node(v.spec['n'][-1]), None)
            elif c is not None:
                for n in v.spec['n']:
                    c.add_condition(v.node(n), gs.Never())
        elif what == 'term' and v.given_term is not None:
            v.given_term.clear()
            v.given_term[TS[ESU]] = gs.Always()
        self.fault('caller changed an argument afterwards')
        self.note('mutin', si, what)

    # ------------------------------------------------------------------
    # observation
    # ------------------------------------------------------------------
    def op_probe(self, si, tok, owner, spec):
        if self.bare:
            return
        v = self.views[si]
        eid = self.eidtok(v, tok)
        cx = v.m.ctx.get(eid)
        if cx is None or v.graph_fails is not None or v.m.queue is None:
            return
        for o, k in M.walk_owned(spec, owner):
            if k[0] in M.CALL_CONDS and k[3] <= ESU and cx.run is None:
                return
            if k[0] == 'AfterNCallsCombined' and k[3] <= ESU and cx.run is None:
                return
            if k[0] == 'AllHaveRun' and k[2] <= ESU and cx.run is None:
                return
            if k[0] == 'EveryNCalls' and (cx.run is None or (k[1], o) not in cx.run.pairs):
                return
        ns = range(0, 7) if any('*' in k for k in M.walk(spec)) else [None]
        if spec[0] == 'EveryNPasses':
            ns = range(1, 7)
        if ns != [None]:
            # and those next to what they are compared to
            for x in {v.m.amount(k, st, o) for o, k in M.walk_owned(spec, owner) if '*' in k for st in cx.states[:50]} - {None}:
                near = {x - 1, x, x + 1}
                if spec[0] == 'EveryNPasses':
                    near.update(d for d in range(7, x // 2 + 1) if x % d == 0)
                    near.update({x // 2 + 1, x // 3 + 1})
                ns = sorted({*ns, *(y for y in near if y > 6)})
        for n in ns:
            sp = subst(spec, n)
            c = self.env.build(sp, v.node)
            c.owner = v.node(owner)
            self.env.cur_eid, self.env.cur_sched, self.env.run_kwargs = self.env.eid(eid), v.s, {}
            got = self.real(f'is_satisfied of {sp}', c.is_satisfied, scheduler=v.s, execution_id=self.env.eid(eid))
            self.env.cur_eid = NotImplemented
            got = bool(got)
            self.stats['probes'] += 1
            self.note('probe', si, eid, json.dumps(sp), got)
            if not v.m.filter(cx, lambda st: v.m.ev(sp, st, cx, eid, owner) == got):
                self.fail('condition', f'{sp} for owner {owner} is {got} in scheduler {v.i}, execution_id {eid}, after {[sorted(x) for x in cx.list[-6:]]}')

    def op_obs(self, si, what):
        """Reads of public state, which must not matter"""
        v = self.views[si]
        s = v.s
        if what == 'graph' or what == 'queue':
            if v.graph_fails is None:
                if what == 'graph':
                    s.graph, s.consideration_queue, s.consideration_queue_indices, s.dependency_dict
                else:
                    s.consideration_queue_indices, s.consideration_queue
        elif what == 'str':
            str(s), repr(s.conditions), [str(c) for c in s.conditions.conditions_basic.values()]
            for c in list(s.clocks.values()):
                repr(c), repr(c.time), repr(c.simple_time)
        elif what == 'clock':
            for tok in list(v.m.ctx):
                c = s.get_clock(self.env.eid(tok))
                c.time, c.previous_time, c.simple_time
                copy.copy(c.time)
                c.get_total_times_relative(TS[CSE], TS[LIFE])
            if v.m.default_eid in v.m.ctx and s.get_clock() is not s.get_clock(self.env.eid(v.m.default_eid)):
                self.fail('clock', 'the clock without an execution_id is not that of the default execution_id')
        elif what == 'conds':
            list(s.conditions), len(s.conditions.conditions), [s.conditions[k] for k in s.conditions]
            s.get_absolute_conditions()
            s.termination_conds
        elif what == 'vars':
            s.nodes, s.execution_list, s.execution_timestamps, s.mode
        elif what == 'bad':
            try:
                s.get_clock(self.env.eid(v.m.default_eid)).get_total_times_relative(TS[PASS], TS[CSE])
            except gs.TimeScaleError:
                pass
        self.fault('observation')

    def check_list(self, v, eid, got=MISSING):
        cx = v.m.ctx[eid]
        if got is MISSING:
            got = v.s.execution_list.get(self.env.eid(eid))
        if not isinstance(got, list):
            self.fail('history', f'execution list of {eid} is {got!r}')
        if set(v.s.nodes) != set(v.index) or len(v.s.nodes) != len(v.index):
            self.fail('history', f'the nodes are {v.s.nodes}')
        got = [self.idx(v, x) for x in got]
        if got != cx.list:
            self.fail('history', f'scheduler {v.i}, execution_id {eid}: recorded {[sorted(x) for x in got][-8:]} ({len(got)}), delivered {[sorted(x) for x in cx.list][-8:]} ({len(cx.list)})')

    def check_stamps(self, v, eid):
        cx = v.m.ctx[eid]
        got = v.s.execution_timestamps.get(self.env.eid(eid))
        if got is None:
            self.fail('history', f'no timestamps for execution_id {eid}')
        got = [to_fraction(t.absolute) for t in got]
        if len(got) != len(cx.stamps) or not all(close(a, b) for a, b in zip(got, cx.stamps)):
            self.fail('history', f'scheduler {v.i}, execution_id {eid}: timestamps {list(map(str, got[-8:]))}, expected {list(map(str, cx.stamps[-8:]))}')

    def check_clock(self, v, eid, full=False):
        cx = v.m.ctx[eid]
        clk = v.s.clocks.get(self.env.eid(eid))
        if clk is None:
            self.fail('clock', f'no clock for execution_id {eid}')
        t = clk.time
        got = [t.consideration_set_execution, getattr(t, 'pass_'), t.environment_state_update,
               t.environment_sequence, t.life]
        if not v.m.filter(cx, lambda st: st.time() == got):
            self.fail('clock', f'scheduler {v.i}, execution_id {eid}: time {got} (set, pass, update, sequence, life), expected one of {[st.time() for st in cx.states][:4]}')
        if cx.run is not None and cx.run.abs or cx.abs_on:
            a = to_fraction(t.absolute)
            if not close(a, cx.abs_t):
                self.fail('absolute', f'scheduler {v.i}, execution_id {eid}: absolute time {a}, expected {cx.abs_t}')
        p = clk.previous_time
        prev = None if p is None else [p.consideration_set_execution, getattr(p, 'pass_'), p.environment_state_update,
                                       p.environment_sequence, p.life]
        if not v.m.filter(cx, lambda st: st.prev == prev):
            self.fail('clock', f'scheduler {v.i}, execution_id {eid}: previous time {prev} (set, pass, update, sequence, life), expected one of {[st.prev for st in cx.states][:4]}')
        if not full:
            return
        sm = clk.simple_time
        if [sm.consideration_set_execution, sm.environment_state_update, sm.environment_sequence] != [got[0], got[2], got[3]]:
            self.fail('clock', 'simple_time differs from time')
        for i in range(5):
            if t[TS[i]] != got[i] or clk.get_time_by_time_scale(TS[i]) != got[i]:
                self.fail('clock', f'time by {TS[i]} differs')
        for b in (ESU, SEQ, LIFE):
            if b == LIFE:
                idx = [None]
            elif b == SEQ:
                idx = [None] + list(range(got[3] + 1))[-4:]
            else:
                idx = [None] + list(range(got[2] + 1))[-4:]
            for q in range(b):
                for i in idx:
                    n = self.real('get_total_times_relative', clk.get_total_times_relative, TS[q], TS[b], *([i] if i is not None else []))
                    if not v.m.filter(cx, lambda st: st.total(q, b, i) == n):
                        self.fail('clock', f'scheduler {v.i}, execution_id {eid}: {n} {TSN[q]}s in {TSN[b]} {i}, expected {cx.states[0].total(q, b, i)}')

        # any state update of the last sequences
        if not v.m.filter(cx, lambda st: len(st.hist) == got[3] + 1):
            self.fail('clock', f'{got[3]} sequences')
        hist = cx.states[0].hist
        for i in range(len(hist))[-4:]:
            for j in range(len(hist[i]))[-3:]:
                for q in range(ESU):
                    n = self.real('get_total_times_relative', clk.history.get_total_times_relative, TS[q], {TS[SEQ]: i, TS[ESU]: j})
                    if not v.m.filter(cx, lambda st: st.total(q, ESU, j, i) == n):
                        self.fail('clock', f'scheduler {v.i}, execution_id {eid}: {n} {TSN[q]}s in state update {j} of sequence {i}, expected {cx.states[0].total(q, ESU, j, i)}')

    def op_check(self):
        if self.bare:
            return
        for v in self.views:
            for eid in v.m.ctx:
                self.check_clock(v, eid, True)
                self.check_list(v, eid)
                self.check_stamps(v, eid)
            self.check_conds(v)
            self.check_graph(v)

    def auto(self):
        op = self.plan['ops'][self.opi]
        for v in self.views:
            self.check_terms(v)
            for eid, cx in v.m.ctx.items():
                self.check_clock(v, eid, bool(self.plan.get('fullclock')))
                el = v.s.execution_list.get(self.env.eid(eid))
                if el is None or len(el) != len(cx.list) or (el and self.idx(v, el[-1]) != cx.list[-1]):
                    self.check_list(v, eid)
                ts = v.s.execution_timestamps.get(self.env.eid(eid))
                if ts is None or len(ts) != len(cx.stamps):
                    self.check_stamps(v, eid)
            extra = {self.env.eid_token(e) for e in v.s.execution_list} - set(v.m.ctx)
            if extra:
                self.fail('history', f'scheduler {v.i} has a history for unused execution_ids {sorted(extra)}')
        if op[0] in ('cond', 'rm', 'replace', 'readd', 'struct', 'rmstruct', 'bulk'):
            self.check_conds(self.views[op[1]])
        if op[0] in ('struct', 'rmstruct', 'replace', 'cond', 'bulk') and op[-1] != 'nocheck':
            v = self.views[op[1]]
            if v.structs or op[0] != 'cond':
                if not self.plan.get('lazygraph'):
                    self.check_graph(v)

    def final(self):
        if self.bare:
            return
        self.op_check()
        for v in self.views:
            if not v.mutated and self.snapshot(v) != v.snap:
                self.fail('inputs', 'a Scheduler modified its arguments')
            for eid, cx in v.m.ctx.items():
                self.stats['simtime'] += float(cx.abs_t)
                self.states.add(hash(tuple(cx.list)))


def counted_parts(plan):
    given = [c for s in plan['scheds'] for _, c in s['conds']]
    given += [c for op in plan['ops'] if op[0] in ('cond', 'replace') for _, c in op[2] if c]
    given += [c for op in plan['ops'] if op[0] == 'bulk' for _, key, c in op[2] if key is None]
    return any(k[0] in ('All', 'Any') and any(c[0] == 'NWhen' for c in k[1:]) for g in given for k in M.walk(g))


def short_circuits():
    n = []

    def f():
        n.append(1)
        return True
    for c in (gs.All(gs.Never(), gs.While(f)), gs.Any(gs.Always(), gs.While(f))):
        c.is_satisfied(scheduler=None, execution_id=None)
    return not n


def ancestors(g):
    from .structs import ancestors as anc
    return anc(g)


def show_graph(g):
    return {k: sorted(map(str, v)) for k, v in g.items()}


def si_eid(v, eid):
    return f'{v.i}/{eid}'


def subst(spec, n):
    return [subst(x, n) if isinstance(x, list) else (n if x == '*' else x) for x in spec]


def execute(plan, bare=False):
    """-> result dict.  To be called in a pristine process"""
    sim = None
    res = {'violation': None, 'inconclusive': None}
    try:
        SimClock.offset = 0.0
        random.seed(0)
        sim = Sim.__new__(Sim)
        Sim.__init__(sim, plan, bare)
        sim.run()
    except Violation as e:
        res['violation'] = {'kind': e.kind, 'msg': e.msg, 'op': getattr(sim, 'opi', -1)}
    except Hang:
        res['violation'] = {'kind': 'hang', 'msg': 'the library did not return control', 'op': getattr(sim, 'opi', -1)}
    except M.Limit:
        res['inconclusive'] = 'too many possible states'
    except Exception as e:
        res['violation'] = {**unexpected(e), 'op': getattr(sim, 'opi', -1)}
    res['trace'] = getattr(sim, 'trace', [])
    res['digest'] = hashlib.sha256(json.dumps(res['trace']).encode()).hexdigest()[:16]
    res['stats'] = getattr(sim, 'stats', {})
    res['states'] = sorted(getattr(sim, 'states', ()))[:400]
    return res
