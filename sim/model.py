"""Reference model of graph_scheduler.

Written from the documentation: consideration sets in topological order,
counts per time scale, termination conditions, absolute time.  The model keeps,
for each execution context, the set of all states that are possible given what
was observed so far (the order in which the nodes of one consideration set are
considered is not specified, so more than one may be).  An observation that
none of them allows is a violation.

Nothing in this file imports graph_scheduler.
"""
from fractions import Fraction
import math

CSE, PASS, ESU, SEQ, LIFE = range(5)

UNITS = {'ns': Fraction(1, 10**6), 'us': Fraction(1, 1000), 'ms': Fraction(1), 's': Fraction(1000),
         'second': Fraction(1000), 'minute': Fraction(60000), 'hour': Fraction(3600000)}


class ModelError(Exception):
    """The model cannot follow the plan (a fault of the harness)"""


class Limit(ModelError):
    """Too many possible states"""


def layers_of(parents):
    """Topological layers of {node: set(parents)}, or None if cyclic"""
    rest = {n: {p for p in ps if p != n} for n, ps in parents.items()}
    res = []
    while rest:
        layer = frozenset(n for n, ps in rest.items() if not ps)
        if not layer:
            return None
        res.append(layer)
        rest = {n: ps - layer for n, ps in rest.items() if n not in layer}
    return res


def ms(x):
    """[number, unit] -> Fraction of ms"""
    return None if x is None else Fraction(str(x[0])) * UNITS[x[1]]


# --------------------------------------------------------------------------
# condition specs
# --------------------------------------------------------------------------
TIME_CONDS = {
    # name: (unit queried, comparison)
    'BeforeConsiderationSetExecution': (CSE, '<'),
    'AtConsiderationSetExecution': (CSE, '=='),
    'AfterConsiderationSetExecution': (CSE, '>'),
    'AfterNConsiderationSetExecutions': (CSE, '>='),
    'BeforePass': (PASS, '<'),
    'AtPass': (PASS, '=='),
    'AfterPass': (PASS, '>'),
    'AfterNPasses': (PASS, '>='),
    'EveryNPasses': (PASS, '%'),
    'BeforeEnvironmentStateUpdate': (ESU, '<'),
    'AtEnvironmentStateUpdate': (ESU, '=='),
    'AfterEnvironmentStateUpdate': (ESU, '>'),
    'AfterNEnvironmentStateUpdates': (ESU, '>='),
    'AtEnvironmentSequence': (SEQ, '=='),
    'AfterEnvironmentSequence': (SEQ, '>'),
    'AfterNEnvironmentSequences': (SEQ, '>='),
}
CALL_CONDS = {
    'BeforeNCalls': '<', 'AtNCalls': '==', 'AfterCall': '>', 'AfterNCalls': '>=',
}


def _cmp(a, op, b):
    if op == '<':
        return a < b
    if op == '==':
        return a == b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '<=':
        return a <= b
    if op == '!=':
        return a != b
    if op == '%':
        return a % b == 0
    raise ModelError(op)


def children(spec):
    k = spec[0]
    if k in ('All', 'Any'):
        return spec[1:]
    if k in ('Not', 'NWhen'):
        return [spec[1]]
    if k in ('Trap', 'Own'):
        return [spec[2]]
    return []


def walk(spec):
    yield spec
    for c in children(spec):
        yield from walk(c)


def walk_owned(spec, owner):
    """(owner, condition) of each part"""
    if spec[0] == 'Own':
        owner = spec[1]
    yield owner, spec
    for c in children(spec):
        yield from walk_owned(c, owner)


def deps(spec, nodes):
    """Nodes whose executions within the current set can change the result"""
    res = set()
    for o, s in walk_owned(spec, None):
        k = s[0]
        if k in CALL_CONDS or k == 'EveryNCalls':
            res.add(s[1])
            if k == 'EveryNCalls' and o is not None:
                # a part that another node owns: executions of that node use up what it counts
                res.add(o)
        elif k in ('AfterNCallsCombined', 'AllHaveRun'):
            res.update(s[1] or nodes)
    return res


def is_abs(spec):
    k = spec[0]
    if k in ('TI', 'TT'):
        return True
    return any(is_abs(c) for c in children(spec))


def abs_parts(spec):
    """(repeats, fixed points) of an absolute condition"""
    k = spec[0]
    if k == 'TI':
        _, rep, start, end, si, ei = spec[:6]
        return (
            [ms(rep)] if rep is not None else [],
            ([ms(start)] if start is not None and si else [])
            + ([ms(end)] if end is not None and ei else []),
        )
    if k == 'TT':
        return [], [ms(spec[1])] if spec[2] else []
    r, f = [], []
    for c in children(spec):
        if is_abs(c):
            a, b = abs_parts(c)
            r += a
            f += b
    return r, f


# --------------------------------------------------------------------------
# state of one execution context
# --------------------------------------------------------------------------
class State:
    """One possible state of an execution context.

    counts[ts][node]   executions in the current unit of each time scale
    us[(dep, owner)]   executions of dep since owner last executed, in this run
    hist               completed passes and sets, [[ [passes, sets] per ESU ] per SEQ]
    cip                completed sets in the current pass
    nw[uid]            satisfactions of each NWhen
    pos                where the run is: None, ('layer', i) or 'idle'
    passany            whether something executed in this pass
    prev               the time before the unit completed last
    """
    __slots__ = ('counts', 'us', 'hist', 'cip', 'nw', 'pos', 'passany', 'prev')

    @classmethod
    def fresh(cls, nodes):
        s = cls()
        s.counts = [{n: 0 for n in nodes} for _ in range(5)]
        s.us = {}
        s.hist = [[[0, 0]]]
        s.cip = 0
        s.nw = {}
        s.pos = None
        s.passany = False
        s.prev = None
        return s

    def copy(self):
        s = State()
        s.counts = [dict(c) for c in self.counts]
        s.us = dict(self.us)
        s.hist = [[list(e) for e in q] for q in self.hist]
        s.cip = self.cip
        s.nw = dict(self.nw)
        s.pos = self.pos
        s.passany = self.passany
        s.prev = self.prev
        return s

    def key(self):
        return (
            tuple(tuple(sorted(c.items())) for c in self.counts),
            tuple(sorted((k, v) for k, v in self.us.items() if v)),
            tuple(tuple(map(tuple, q)) for q in self.hist),
            self.cip, tuple(sorted(self.nw.items())), self.pos, self.passany, self.prev and tuple(self.prev),
        )

    # ---- clock
    def time(self):
        """completed units within the enclosing unit, [CSE, PASS, ESU, SEQ, LIFE]"""
        seq = self.hist[-1]
        return [self.cip, seq[-1][0], len(seq) - 1, len(self.hist) - 1, 0]

    def total(self, query, base, index=None, seq_index=-1):
        """completed units of query within a unit of base; None if undefined"""
        def tot(seq):
            if query == ESU:
                return len(seq) - 1
            return sum(e[0] if query == PASS else e[1] for e in seq)
        if query >= base or base < ESU:
            return None
        if base == LIFE:
            if query == SEQ:
                return len(self.hist) - 1
            return sum(tot(q) for q in self.hist)
        if base == SEQ:
            i = len(self.hist) - 1 if index is None else index
            if not 0 <= i < len(self.hist):
                return None
            return tot(self.hist[i])
        seq = self.hist[seq_index]
        i = len(seq) - 1 if index is None else index
        if not 0 <= i < len(seq):
            return None
        return seq[i][0] if query == PASS else seq[i][1]

    def inc(self, ts):
        self.prev = self.time()
        if ts == CSE:
            self.hist[-1][-1][1] += 1
            self.cip += 1
        elif ts == PASS:
            self.hist[-1][-1][0] += 1
            self.cip = 0
        elif ts == ESU:
            self.hist[-1].append([0, 0])
            self.cip = 0
        elif ts == SEQ:
            self.hist.append([[0, 0]])
            self.cip = 0

    def reset_counts(self, ts):
        for t in range(ts + 1):
            c = self.counts[t]
            for n in c:
                c[n] = 0

    def execute(self, node, pairs):
        for c in self.counts:
            c[node] += 1
        us = self.us
        for k in pairs:
            if k[1] == node:
                us[k] = 0
        for k in pairs:
            if k[0] == node:
                us[k] = us.get(k, 0) + 1


class Run:
    def __init__(self, rid, terms, skip, kwargs):
        self.rid = rid
        self.terms = terms      # [ESU spec, SEQ spec]
        self.skip = skip
        self.kwargs = kwargs
        self.abs = False
        self.pairs = ()


class Context:
    def __init__(self, nodes):
        self.states = [State.fresh(nodes)]
        self.list = []
        self.stamps = []
        self.abs_t = Fraction(0)
        self.abs_i = Fraction(1)
        self.abs_on = False
        self.run = None         # the run in progress
        self.last_run_abs = False

    def copy(self):
        c = Context.__new__(Context)
        c.states = []
        for s in self.states:
            s = s.copy()
            s.pos = None
            c.states.append(s)
        c.list = list(self.list)
        c.stamps = list(self.stamps)
        c.abs_t, c.abs_i, c.abs_on = self.abs_t, self.abs_i, self.abs_on
        c.run = None
        return c


class World:
    """State outside of the scheduler, as conditions see it"""

    def __init__(self):
        self.fin = {}
        self.val = {}
        self.flag = {}
        self.armed = {}     # trap id -> eid it is armed for or '*'

    def finished(self, node, eid):
        v = self.fin.get((node, eid))
        return self.fin.get((node, '*'), False) if v is None else v

    def value(self, node, eid):
        v = self.val.get((node, eid))
        return self.val.get((node, '*'), 0) if v is None else v

    def flagged(self, name, eid):
        v = self.flag.get((name, eid))
        return self.flag.get((name, '*'), False) if v is None else v


class Sched:
    """Model of one Scheduler"""
    max_states = 3000

    def __init__(self, nodes, parents, mode, unit, default_eid, world):
        self.nodes = list(nodes)
        self.parents = {n: set(parents.get(n, ())) for n in nodes}  # current graph
        self.mode = mode
        self.unit = unit
        self.default_eid = default_eid
        self.world = world
        self.conds = {}         # node -> spec; absent: default
        self.default_terms = {ESU: ['AllHaveRun', [], ESU], SEQ: ['Never']}
        self.terms = dict(self.default_terms)
        self.ctx = {default_eid: Context(self.nodes)}
        # (dep, owner) of every EveryNCalls that the plan may use
        self.plan_pairs = set()

    # ---- graph
    def set_graph(self, parents):
        self.parents = {n: set(p) for n, p in parents.items()}

    @property
    def queue(self):
        if self.mode == 'E':
            return [frozenset(self.nodes)]
        return layers_of(self.parents)

    def layer_index(self, node):
        for i, q in enumerate(self.queue):
            if node in q:
                return i

    def cond(self, node):
        c = self.conds.get(node)
        if c is None:
            ps = sorted(self.parents[node])
            return ['All'] + [['EveryNCalls', p, 1] for p in ps]
        return c

    @property
    def in_exact(self):
        return self.mode == 'E' or len(self.queue) == 1

    def live(self):
        return [c for c in self.ctx.values() if c.run is not None]

    def context(self, eid):
        if eid not in self.ctx:
            self.ctx[eid] = Context(self.nodes)
        return self.ctx[eid]

    # ---- conditions
    def amount(self, spec, st, owner):
        """What a condition with a number compares to it, or None"""
        k = spec[0]
        if k in TIME_CONDS:
            unit = TIME_CONDS[k][0]
            if unit == SEQ:
                return len(st.hist) - 1
            v = st.total(unit, spec[2])
            if v is None:
                raise ModelError(spec)
            return v
        if k in CALL_CONDS:
            return st.counts[spec[3]][spec[1]]
        if k == 'EveryNCalls':
            return st.us.get((spec[1], owner), 0)
        if k == 'AfterNCallsCombined':
            return sum(st.counts[spec[3]][d] for d in spec[1])
        return None

    def ev(self, spec, st, cx, eid, owner, run=None):
        k = spec[0]
        if k in TIME_CONDS:
            return _cmp(self.amount(spec, st, owner), TIME_CONDS[k][1], spec[1])
        if k in CALL_CONDS:
            return _cmp(self.amount(spec, st, owner), CALL_CONDS[k], spec[2])
        if k == 'EveryNCalls' or k == 'AfterNCallsCombined':
            return self.amount(spec, st, owner) >= spec[2]
        if k == 'AllHaveRun':
            return all(st.counts[spec[2]][d] >= 1 for d in (spec[1] or self.nodes))
        if k == 'JustRan':
            return bool(cx.list) and spec[1] in cx.list[-1]
        if k == 'All':
            # parts are evaluated in order, up to the first that decides
            return all(self.ev(c, st, cx, eid, owner, run) for c in spec[1:])
        if k == 'Any':
            return any(self.ev(c, st, cx, eid, owner, run) for c in spec[1:])
        if k == 'Not':
            return not self.ev(spec[1], st, cx, eid, owner, run)
        if k == 'NWhen':
            if st.nw.get(spec[3], 0) < spec[2] and self.ev(spec[1], st, cx, eid, owner, run):
                st.nw[spec[3]] = st.nw.get(spec[3], 0) + 1
                return True
            return False
        if k == 'Trap':
            return self.ev(spec[2], st, cx, eid, owner, run)
        if k == 'Own':
            # a part that belongs to another node already stays with it
            return self.ev(spec[2], st, cx, eid, spec[1], run)
        if k == 'Always':
            return True
        if k == 'Never':
            return False
        w = self.world
        if k == 'WhenFinished':
            return w.finished(spec[1], eid)
        if k == 'WhenFinishedAny':
            return any(w.finished(d, eid) for d in (spec[1] or self.nodes))
        if k == 'WhenFinishedAll':
            return all(w.finished(d, eid) for d in (spec[1] or self.nodes))
        if k == 'While':
            return bool(w.flagged(spec[1], eid))
        if k == 'WhileNot':
            return not w.flagged(spec[1], eid)
        if k == 'Thr':
            v = w.value(spec[1], eid if spec[4] in (2, 3) else '*')
            if spec[3] in ('==', '!='):
                tol = [*spec[5:7], 0, 0][:2]
                close = abs(v - spec[2]) <= tol[0] + tol[1] * abs(spec[2])
                return close if spec[3] == '==' else not close
            return _cmp(v, spec[3], spec[2])
        if k == 'EsuStart':
            return st.total(PASS, ESU) == 0
        if k == 'EsuNStart':
            return st.total(PASS, ESU) == 0 and st.total(ESU, spec[2]) == spec[1]
        if k == 'SeqStart':
            return st.total(ESU, SEQ) == 0
        if k == 'SeqNStart':
            return st.total(ESU, SEQ) == 0 and len(st.hist) - 1 == spec[1]
        if k == 'TI':
            _, rep, start, end, si, ei = spec[:6]
            rep, start, end = ms(rep), ms(start), ms(end)
            t = cx.abs_t
            off = Fraction(0)
            if self.in_exact and start is not None:
                off = start
            elif owner is not None:
                off = self.layer_index(owner) * cx.abs_i
            if rep is not None and (t - off) % rep != 0:
                return False
            if start is not None and not (t >= start if si else t > start):
                return False
            if end is not None and not (t <= end if ei else t < end):
                return False
            return True
        if k == 'TT':
            t = ms(spec[1])
            return cx.abs_t >= t if spec[2] else cx.abs_t > t
        raise ModelError(spec)

    def armed(self, spec, eid):
        """ids of the armed traps that evaluating spec meets first"""
        if spec[0] == 'Trap':
            a = self.world.armed.get(spec[1])
            return [spec[1]] if a is not None and a in ('*', eid) else []
        return []

    # ---- absolute time
    def abs_conds(self, run):
        return [
            c for c in [*(self.cond(n) for n in self.nodes), *run.terms.values()] if is_abs(c)
        ]

    def start_abs(self, cx, run):
        conds = self.abs_conds(run)
        run.abs = bool(conds)
        cx.abs_on = run.abs
        if not run.abs:
            return
        q = len(self.queue)
        gcds = []
        repeats = False
        first = []
        for c in conds:
            r, f = abs_parts(c)
            repeats = repeats or bool(r)
            gcds += r
            if self.mode == 'E':
                gcds += [x for x in f if x]
            first.append(min(f) if f else Fraction(0))
        if gcds:
            den = math.lcm(*[g.denominator for g in gcds])
            num = math.gcd(*[int(g * den) for g in gcds])
            cx.abs_i = Fraction(num, den)
            if self.mode != 'E':
                cx.abs_i /= q
        else:
            cx.abs_i = self.unit
        first = min(first)
        cur = cx.abs_t
        if self.mode == 'E' or repeats:
            length = cx.abs_i * q
            if not self.in_exact:
                first = first // length * length
            if cur > first:
                cur = first + -((first - cur) // length) * length
        cx.abs_t = max(cur, first)

    # ---- one resumption of a run
    def begin(self, eid, run, base=NotImplemented):
        """Called at the first resumption"""
        if eid not in self.ctx and base is not NotImplemented:
            self.ctx[eid] = self.ctx[base].copy()
        cx = self.context(eid)
        cx.run = run
        pairs = set(self.plan_pairs)
        for n in self.nodes:
            if n not in self.conds:
                pairs.update((p, n) for p in self.parents[n])
        run.pairs = sorted(pairs)
        for st in cx.states:
            st.us = {}
            st.reset_counts(ESU)
            st.pos = 'new'
        self.start_abs(cx, run)
        return cx

    def successors(self, cx, eid):
        """All (event, state) that the next resumption may give"""
        run = cx.run
        if cx.abs_on and cx.states[0].pos not in ('new', None):
            cx.abs_t += cx.abs_i
        queue = self.queue
        conds = {n: self.cond(n) for n in self.nodes}
        sens = [self.involved(layer, conds, run) for layer in queue]
        traps_t = [t for s in run.terms.values() for t in self.armed(s, eid)]
        res = []
        seen = set()
        work = []
        for st in cx.states:
            st = st.copy()
            if st.pos == 'new':
                work.append((st, 'outer', 0))
            elif st.pos == 'idle':
                st.inc(CSE)
                st.inc(PASS)
                work.append((st, 'outer', 0))
            else:
                st.inc(CSE)
                work.append((st, 'inner', st.pos[1] + 1))
        n = 0
        while work:
            n += 1
            if n > self.max_states:
                raise Limit()
            st, where, i = work.pop()
            if where == 'outer' or i < len(queue):
                # termination
                if traps_t:
                    # the conditions of an ending run are evaluated once more
                    # after its environment state update was closed
                    late = self.armed(run.terms[SEQ], eid)
                    if late and not self.armed(run.terms[ESU], eid) and self.ev(run.terms[ESU], st, cx, eid, None, run):
                        st2 = st.copy()
                        if where == 'inner':
                            st2.inc(PASS)
                        if not run.skip:
                            st2.inc(ESU)
                        st2.pos = None
                        for t in late:
                            res.append((('raise', t), st2))
                    st.pos = None
                    for t in traps_t:
                        res.append((('raise', t), st))
                    continue
                if any([
                    self.ev(run.terms[ts], st, cx, eid, None, run) for ts in (ESU, SEQ)
                ]):
                    if where == 'inner':
                        st.inc(PASS)
                    if not run.skip:
                        st.inc(ESU)
                    st.pos = None
                    date = self.ev(run.terms[SEQ], st, cx, eid, None, run)
                    res.append((('end', date), st))
                    continue
                if where == 'outer':
                    st.reset_counts(PASS)
                    st.passany = False
                    work.append((st, 'inner', 0))
                    continue
                st.reset_counts(CSE)
                layer = queue[i]
                traps = [t for m in layer for t in self.armed(conds[m], eid)]
                if traps:
                    st.pos = None
                    for t in traps:
                        res.append((('raise', t), st))
                    continue
                for added, st2 in self.layer(layer, conds, sens[i], st, cx, eid, run):
                    if added or run.abs:
                        st2.pos = ('layer', i)
                        st2.passany = st2.passany or bool(added)
                        res.append((('yield', added), st2))
                    else:
                        work.append((st2, 'inner', i + 1))
            elif not st.passany and not run.abs:
                st.pos = 'idle'
                res.append((('yield', frozenset()), st))
            else:
                st.inc(PASS)
                work.append((st, 'outer', 0))
        out = []
        for ev, st in res:
            k = (ev, st.key())
            if k not in seen:
                seen.add(k)
                out.append((ev, st))
        return out

    def involved(self, layer, conds, run):
        """Nodes of a consideration set for which the order of execution
        matters, because some of their conditions depend on others of them"""
        res = set()
        for n in layer:
            # (what it depends on of itself does not change before it runs)
            d = (deps(conds[n], self.nodes) & layer) - {n}
            if d:
                res |= d | {n}
        for a, b in run.pairs:
            if a != b and a in layer and b in layer:
                res |= {a, b}
        return res

    def layer(self, layer, conds, involved, st, cx, eid, run):
        """All outcomes of considering one consideration set"""
        st = st.copy()
        first = frozenset(m for m in sorted(layer - involved) if self.ev(conds[m], st, cx, eid, m, run))
        for m in sorted(first):
            st.execute(m, run.pairs)
        if not involved:
            return [(first, st)]
        out = []
        seen = set()
        layer = frozenset(involved)
        stack = [(first, st)]
        while stack:
            added, s = stack.pop()
            k = (added, s.key())
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > self.max_states:
                raise Limit()
            any_ = False
            for m in layer:
                if m in added:
                    continue
                s2 = s.copy()
                if self.ev(conds[m], s2, cx, eid, m, run):
                    any_ = True
                    s2.execute(m, run.pairs)
                    stack.append((added | {m}, s2))
            if not any_:
                out.append((added, s))
        return out

    def observe(self, cx, eid, event, succ):
        """Keeps the states that agree with an event; False if there are none"""
        if event[0] == 'end':
            sts = [(e, s) for e, s in succ if e[0] == 'end']
        else:
            sts = [(e, s) for e, s in succ if e == event]
        if not sts:
            return False
        cx.states = [s for _, s in sts]
        if event[0] == 'yield':
            cx.list.append(event[1])
            if cx.run.abs:
                cx.stamps.append(cx.abs_t)
        else:
            cx.run = None
        return True

    # ---- other events
    def interrupt(self, cx):
        cx.run = None
        for st in cx.states:
            st.pos = None

    def end_sequence(self, eid):
        cx = self.context(eid)
        for st in cx.states:
            st.inc(SEQ)
            st.reset_counts(SEQ)
        return cx

    def filter(self, cx, pred):
        sts = [s for s in cx.states if pred(s)]
        if not sts:
            return False
        cx.states = sts
        return True

    def terms_for(self, given):
        t = dict(self.terms)
        if given:
            t.update(given)
        return t
