"""Histories of graphs that change in place, and of queries on them.

Graphs are held as the library takes them and as sets of pairs of numbers, on
which the answers are computed by brute force.  Nodes have hashes that the plan
decides; they can fail while a query is being answered.
"""
import hashlib
import json
import random

import networkx as nx

from .engine import Hang, Violation
from .lib import gs, unexpected
from .world import Injected

QUERIES = ['get_ancestors', 'get_descendants', 'get_receivers', 'get_simple_cycles']


class Node:
    """Equal to the other nodes of the same number"""
    __slots__ = ('sim', 'i', 'h')

    def __init__(self, sim, i, h):
        self.sim, self.i, self.h = sim, i, h

    def __hash__(self):
        self.sim.spring('hash')
        return self.h

    def __eq__(self, other):
        self.sim.spring('eq')
        return isinstance(other, Node) and other.i == self.i

    def __repr__(self):
        return f'G{self.i}'


def make(seed, prof):
    R = random.Random(seed)
    n = R.choice([2, 3, 3, 4, 4, 5, 6])
    kind = R.choice(['node', 'node', 'int', 'str', 'mixed', 'tup'])
    hs = R.choice([list(range(n)), [7] * n, [-1 - i % 2 for i in range(n)], [i // 2 for i in range(n)],
                   [R.randrange(-2, 9) for _ in range(n)]])
    ints = R.sample([-2, -1, 0, 1, 2, 3, 8, 64, 2 ** 61 - 1, 2 ** 61], n)
    acyclic = R.random() < .4
    d = R.choice([.15, .3, .5])

    def pairs():
        return [[c, p] for c in range(n) for p in range(n)
                if R.random() < d and (p < c if acyclic else p != c or R.random() < .2)]
    ops = [['new', 0, list(range(n)), pairs(), R.choice(['dict', 'missing', 'frozen'])]]
    if R.random() < .05:
        # more graphs than any cache holds
        for k in range(R.choice([130, 260])):
            ops.append(['many', k])
    ids = [0]
    w = {'new': 1, 'edge': 6, 'node': 1, 'del': 1, 'set': 1, 'query': 12, 'clone': 1, 'nx': 1, 'nxedge': 1,
         'back': 1, 'equal': 1.5, 'fault': 1}
    for k in list(w):
        if k not in ('query', 'edge') and R.random() < .3:
            del w[k]
    for _ in range(R.choice([10, 20, 40])):
        k = R.choices(list(w), list(w.values()))[0]
        g = R.choice(ids[-3:])
        if k == 'new':
            g = len(ids)
            ids.append(g)
            ops.append(['new', g, R.sample(range(n), R.randint(1, n)), pairs(), R.choice(['dict', 'missing', 'frozen'])])
        elif k == 'edge':
            ops.append(['edge', g, R.randrange(n), R.randrange(n), R.random() < .5])
        elif k in ('node', 'del'):
            ops.append([k, g, R.randrange(n)])
        elif k == 'set':
            ops.append(['set', g, R.randrange(n), sorted(R.sample(range(n), R.randint(0, n)))])
        elif k == 'query':
            for q in R.sample(QUERIES, R.choice([1, 1, 2, 4])):
                ops.append(['query', g, q])
        elif k in ('clone', 'equal'):
            new = len(ids)
            ids.append(new)
            ops.append([k, g, new])
        elif k == 'nx':
            ops.append(['nx', g, R.choice(['DiGraph', 'OrderedDiGraph'])])
        elif k == 'nxedge':
            ops.append(['nxedge', g, R.randrange(n), R.randrange(n), R.random() < .5])
        elif k == 'back':
            ops.append(['back', g, R.random() < .6])
        elif k == 'fault':
            ops.append(['fault', g, R.choice(QUERIES), R.choice(['hash', 'hash', 'eq']), R.randint(1, 40)])
    return {'n': n, 'kind': kind, 'hs': hs, 'ints': ints, 'ops': ops}


class Sub(nx.DiGraph):
    pass


def reach(edges, a):
    """Nodes reachable from a, without a"""
    seen = set()
    todo = [a]
    while todo:
        x = todo.pop()
        for p, q in edges:
            if p == x and q not in seen:
                seen.add(q)
                todo.append(q)
    seen.discard(a)
    return seen


def cycles(edges):
    out = {}
    for p, q in edges:
        out.setdefault(p, set()).add(q)
    res = set()

    def go(start, path):
        for q in out.get(path[-1], ()):
            if q == start:
                res.add(tuple(path))
            elif q > start and q not in path:
                go(start, path + [q])
    for s in out:
        go(s, [s])
    return res


class Sim:
    def __init__(self, plan):
        self.plan = plan
        self.graphs = {}        # id -> (dict, keys, {(child, parent)}, frozen)
        self.nxs = {}           # id -> (nx graph, nodes, pairs)
        self.trace = []
        self.stats = {'sets': 0, 'probes': 0, 'queries': 0, 'faults': {}, 'steps': 0}
        self.arm = None
        self.opi = -1

    def fail(self, msg):
        self.arm = None
        raise Violation('query', msg)

    def spring(self, what):
        if self.arm is None or self.arm[0] != what:
            return
        # only while the library works
        self.arm[1] -= 1
        if self.arm[1] <= 0:
            self.arm = None
            self.fired = True
            raise Injected(what)

    def node(self, i):
        k = self.plan['kind']
        if k == 'mixed':
            k = ['node', 'int', 'str', 'tup'][i % 4]
        if k == 'node':
            return Node(self, i, self.plan['hs'][i])
        if k == 'int':
            return self.plan['ints'][i]
        if k == 'tup':
            return ('t', i)
        return f'n{i}'

    def num(self, x):
        for i in range(self.plan['n']):
            if self.node(i) == x:
                return i
        self.fail(f'an unknown node {x!r}')

    def build(self, keys, pairs, form):
        ks = set(keys) | {c for c, p in pairs}
        if form != 'missing':
            ks |= {p for c, p in pairs}
        g = {}
        for k in sorted(ks, key=lambda k: self.plan['hs'][k] * 7 % 5):
            ps = [self.node(p) for c, p in pairs if c == k]
            g[self.node(k)] = frozenset(ps) if form == 'frozen' else set(ps)
        return g, ks

    def shot(self, g):
        return [(k, type(v), set(v)) for k, v in g.items()]

    def content(self, g):
        return {self.num(k) for k in g}, {(self.num(k), self.num(p)) for k, v in g.items() for p in v}

    def run(self):
        for self.opi, op in enumerate(self.plan['ops']):
            self.stats['steps'] += 1
            getattr(self, 'op_' + op[0])(*op[1:])
        for i, (g, keys, pairs, _) in self.graphs.items():
            if self.content(g) != (keys, pairs):
                self.fail(f'graph {i} changed')
        for i in self.nxs:
            self.check_nx(i)

    def op_new(self, i, keys, pairs, form):
        g, ks = self.build(keys, pairs, form)
        self.graphs[i] = [g, ks, {tuple(p) for p in pairs}, form == 'frozen']

    def op_many(self, k):
        a = {f'm{k}': set(), 'm': {f'm{k}'}}
        if gs.get_ancestors(a) != {f'm{k}': set(), 'm': {f'm{k}'}}:
            self.fail(f'get_ancestors({a}) is {gs.get_ancestors(a)}')

    def changed(self):
        self.fault('graph changed in place')

    def fault(self, k):
        self.stats['faults'][k] = self.stats['faults'].get(k, 0) + 1

    def op_edge(self, i, c, p, add):
        if i not in self.graphs:
            return
        g, keys, pairs, frozen = self.graphs[i]
        if c not in keys:
            return
        k = self.node(c)
        if frozen:
            g[k] = g[k] | {self.node(p)} if add else g[k] - {self.node(p)}
        elif add:
            g[k].add(self.node(p))
        else:
            g[k].discard(self.node(p))
        (pairs.add if add else pairs.discard)((c, p))
        self.changed()

    def op_node(self, i, n):
        if i in self.graphs and n not in self.graphs[i][1]:
            g, keys, pairs, frozen = self.graphs[i]
            g[self.node(n)] = frozenset() if frozen else set()
            keys.add(n)
            self.changed()

    def op_del(self, i, n):
        if i in self.graphs and n in self.graphs[i][1]:
            g, keys, pairs, frozen = self.graphs[i]
            del g[self.node(n)]
            keys.discard(n)
            self.graphs[i][2] = {(c, p) for c, p in pairs if c != n}
            self.changed()

    def op_set(self, i, n, ps):
        if i in self.graphs and n in self.graphs[i][1]:
            g, keys, pairs, frozen = self.graphs[i]
            g[self.node(n)] = (frozenset if frozen else set)(self.node(p) for p in ps)
            self.graphs[i][2] = {(c, p) for c, p in pairs if c != n} | {(n, p) for p in ps}
            self.changed()

    def op_equal(self, i, new):
        """An equal graph of other objects"""
        if i in self.graphs:
            g, keys, pairs, frozen = self.graphs[i]
            h = {}
            for k in sorted(keys, reverse=True):
                h[self.node(k)] = set(self.node(p) for p in range(self.plan['n'] - 1, -1, -1) if (k, p) in pairs)
            self.graphs[new] = [h, set(keys), set(pairs), False]

    def op_clone(self, i, new):
        if i not in self.graphs:
            return
        g, keys, pairs, frozen = self.graphs[i]
        before = self.shot(g)
        h = self.call('clone_graph', gs.clone_graph, g)
        if self.shot(g) != before:
            self.fail(f'clone_graph modified {g}')
        if h is g or self.content(h) != (keys, pairs) or list(h) != list(g):
            self.fail(f'clone_graph({g}) is {h}')
        for k in g:
            if h[k] is g[k] or type(h[k]) is not set:
                self.fail(f'clone_graph shares the dependencies of {k}')
        same = {id(k) for k in g} == {id(k) for k in h}
        if not same:
            self.fail('clone_graph has other nodes')
        self.graphs[new] = [h, set(keys), set(pairs), False]

    def call(self, what, f, *args, **kw):
        try:
            return f(*args, **kw)
        except Hang:
            raise
        except BaseException as e:
            self.fail(f'{what} raised {type(e).__name__}: {e}')

    def op_nx(self, i, typ):
        if i not in self.graphs:
            return
        g, keys, pairs, frozen = self.graphs[i]
        before = self.shot(g)
        t = {'DiGraph': nx.DiGraph, 'OrderedDiGraph': Sub}[typ]
        kw = {} if typ == 'DiGraph' and len(pairs) % 2 else {'nx_type': t}
        x = self.call('dependency_dict_to_networkx_digraph', gs.dependency_dict_to_networkx_digraph, g, **kw)
        if self.shot(g) != before:
            self.fail(f'conversion modified {g}')
        if type(x) is not t:
            self.fail(f'conversion gives a {type(x).__name__}')
        self.nxs[i] = [x, keys | {p for c, p in pairs}, set(pairs)]
        self.check_nx(i)

    def check_nx(self, i):
        x, nodes, pairs = self.nxs[i]
        got = ({self.num(k) for k in x.nodes}, {(self.num(b), self.num(a)) for a, b in x.edges})
        if got != (nodes, pairs):
            self.fail(f'a converted graph has {got}, expected {(nodes, pairs)}')

    def op_nxedge(self, i, c, p, add):
        if i not in self.nxs:
            return
        x, nodes, pairs = self.nxs[i]
        if add:
            self.call('adding an edge to a converted graph', x.add_edge, self.node(p), self.node(c))
            nodes |= {c, p}
            pairs.add((c, p))
        elif (c, p) in pairs:
            self.call('removing an edge from a converted graph', x.remove_edge, self.node(p), self.node(c))
            pairs.discard((c, p))
        self.changed()

    def op_back(self, i, add):
        if i not in self.nxs:
            return
        x, nodes, pairs = self.nxs[i]
        g = self.call('networkx_digraph_to_dependency_dict', gs.networkx_digraph_to_dependency_dict, x,
                      **({} if add else {'add_missing': False}))
        self.check_nx(i)
        keys = set(nodes) if add else {c for c, p in pairs}
        if self.content(g) != (keys, pairs):
            self.fail(f'conversion of {sorted(nodes)}, {sorted(pairs)} gives {g}')
        # it must not change with the original
        self.graphs[1000 + self.opi] = [g, keys, set(pairs), False]

    def expected(self, keys, pairs, q):
        down = {(p, c) for c, p in pairs}
        if q == 'get_ancestors':
            return {k: reach(pairs, k) for k in keys}
        if q == 'get_descendants':
            return {k: reach(down, k) for k in keys}
        if q == 'get_receivers':
            return {k: {c for c, p in pairs if p == k} for k in keys | {p for c, p in pairs}}
        return cycles(down)

    def answer(self, q, r):
        if q == 'get_simple_cycles':
            res = [[self.num(x) for x in c] for c in r]
            out = set()
            for c in res:
                k = c.index(min(c))
                out.add(tuple(c[k:] + c[:k]))
            if len(out) != len(res):
                self.fail(f'a cycle twice: {r}')
            return out
        return {self.num(k): {self.num(x) for x in v} for k, v in r.items()}

    def op_query(self, i, q):
        if i not in self.graphs:
            return
        g, keys, pairs, frozen = self.graphs[i]
        before = self.shot(g)
        r = self.call(q, getattr(gs, q), g)
        if self.shot(g) != before:
            self.fail(f'{q} modified {g}')
        self.stats['queries'] += 1
        self.stats['probes'] += 1
        got, want = self.answer(q, r), self.expected(keys, pairs, q)
        self.trace.append([q, i, repr(sorted(got) if isinstance(got, set) else sorted((k, sorted(v)) for k, v in got.items()))])
        if got != want:
            self.fail(f'{q} of keys {sorted(keys)}, edges (child, parent) {sorted(pairs)} is {got}, expected {want}')

    def op_fault(self, i, q, what, count):
        """A node fails while a query is answered"""
        if i not in self.graphs:
            return
        g, keys, pairs, frozen = self.graphs[i]
        self.fired = False
        self.arm = [what, count]
        try:
            r = getattr(gs, q)(g)
        except Hang:
            raise
        except BaseException as e:
            r = None
            self.arm = None
            if not self.fired:      # networkx replaces some exceptions
                self.fail(f'{q} raised {type(e).__name__}: {e} when a node failed')
        self.arm = None
        if self.fired:
            self.fault(f'{what} of a node fails during a query')
        if r is not None and not self.fired and self.answer(q, r) != self.expected(keys, pairs, q):
            self.fail(f'{q} is wrong after a node failed')
        self.op_query(i, q)


def execute(plan):
    sim = Sim(plan)
    res = {'violation': None, 'inconclusive': None, 'states': []}
    try:
        sim.run()
    except Violation as e:
        res['violation'] = {'kind': e.kind, 'msg': e.msg, 'op': sim.opi}
    except Hang:
        res['violation'] = {'kind': 'hang', 'msg': 'the library did not return control', 'op': sim.opi}
    except Exception as e:
        res['violation'] = {**unexpected(e), 'op': sim.opi}
    res['trace'] = sim.trace
    res['digest'] = hashlib.sha256(json.dumps(sim.trace).encode()).hexdigest()[:16]
    res['stats'] = sim.stats
    return res
