"""Graph structure conditions: building them, and what their result must be."""
from .lib import gs, Falsy

SINGLE = ('BeforeNode', 'AfterNode', 'WithNode', 'AddEdgeTo', 'RemoveEdgeFrom')


class Refused(Exception):
    pass


def subjects(spec):
    k = spec[0]
    if k in SINGLE:
        return [spec[1]]
    if k in ('BeforeNodes', 'AfterNodes'):
        return list(spec[1])
    return []


def incomplete(spec):
    """Operations for the subjects do not name exactly the subjects"""
    return len(spec) > 2 and isinstance(spec[2], dict) and any(
        isinstance(x, dict) and set(x) != {str(n) for n in subjects(spec)} for x in spec[2].values())


def node_of(v, n):
    return v.node(n) if n >= 0 else f'missing{n}'


def build(env, v, spec):
    k = spec[0]
    node = lambda n: node_of(v, n)  # noqa: E731
    if k in ('AddEdgeTo', 'RemoveEdgeFrom'):
        return getattr(gs, k)(node(spec[1]))
    if k in ('BeforeNode', 'AfterNode', 'WithNode', 'BeforeNodes', 'AfterNodes'):
        opts = options(spec, node)
        was = {q: list(x.items()) for q, x in opts.items() if isinstance(x, dict)}
        c = getattr(gs, k)(*[node(n) for n in subjects(spec)], **opts)
        if {q: list(x.items()) for q, x in opts.items() if isinstance(x, dict)} != was:
            env.errors.append(f'{k} modified the operations given to it: {was}')
        return c
    if k == 'Custom':
        _, what, a, b = spec
        if what == 'add':
            def f(graph):
                graph[v.node(b)].add(v.node(a))
                return graph
        elif what == 'clear':
            def f(self, graph):
                assert self.tag == ('tag', a)
                return {**graph, v.node(a): set()}
            return gs.CustomGraphStructureCondition(f, tag=('tag', a))
        elif what == 'fail':
            def f(graph):
                graph[v.node(a)].clear()
                raise ZeroDivisionError('process_graph_function')
        elif what == 'failif':
            # fails depending on the graph that it is given
            def f(graph):
                if v.node(a) in graph[v.node(b)]:
                    raise ZeroDivisionError('process_graph_function')
                return graph
        return gs.CustomGraphStructureCondition(f)
    raise ValueError(spec)


def operation(x):
    """'=KEEP' stands for the member of Operation, '*KEEP' for a function of the
    user's that does the same"""
    if isinstance(x, str) and x[0] == '*':
        f = OPERATIONS[x[1:]]
        if len(x) % 2:
            return Falsy(lambda s, c: f(set(s), set(c)))
        return lambda source_neighbors, comparison_neighbors: f(frozenset(source_neighbors), frozenset(comparison_neighbors))
    return gs.Operation[x[1:]] if isinstance(x, str) and x[0] == '=' else x


def options(spec, node):
    if len(spec) < 3 or not spec[2]:
        return {}
    res = {}
    for k, x in spec[2].items():
        if isinstance(x, dict):
            x = {node(int(n)): operation(o) for n, o in x.items()}
        res[k] = operation(x)
    return res


OPERATIONS = {
    'KEEP': lambda s, c: set(s), 'REPLACE': lambda s, c: set(c), 'DISCARD': lambda s, c: set(),
    'INTERSECTION': lambda s, c: s & c, 'UNION': lambda s, c: s | c, 'MERGE': lambda s, c: s | c,
    'DIFFERENCE': lambda s, c: s - c, 'INVERSE_DIFFERENCE': lambda s, c: c - s,
    'SYMMETRIC_DIFFERENCE': lambda s, c: s ^ c,
}
DEFAULTS = {
    'Before': {'owner_senders': 'MERGE'},
    'After': {'owner_receivers': 'MERGE', 'subject_senders': 'MERGE'},
    'With': {'owner_senders': 'MERGE', 'subject_senders': 'MERGE'},
}


def reference(owner, spec, g):
    """What the operations of a condition on the order of nodes say.

    -> (graph without cycles pruned and without reconnections, final?), raises
    Refused if its operations contradict each other.  final: the result is g,
    which is as the condition wants it.  None: not determined."""
    k = spec[0]
    if k not in ('BeforeNode', 'AfterNode', 'WithNode', 'BeforeNodes', 'AfterNodes'):
        return None
    subj = subjects(spec)
    opts = spec[2] if len(spec) > 2 else {}
    kind = k.rstrip('s')[:-4]
    if kind == 'Before':
        valid = all(owner in g[s] for s in subj)
    elif kind == 'After':
        valid = all(s in g[owner] for s in subj)
    else:
        valid = g[owner] == g[subj[0]]
    if valid:
        return g, True
    h = {n: set(p) for n, p in g.items()}
    for s in subj:
        h[s].discard(owner)
        h[owner].discard(s)
    recv = {n: {c for c in h if n in h[c]} for n in h}

    def op(name, n):
        x = opts.get(name, DEFAULTS[kind].get(name, 'KEEP'))
        if isinstance(x, dict):
            x = x[str(n)]
        return OPERATIONS[x.lstrip('=*').upper()]
    union = lambda d: set().union(*[d[s] for s in subj])  # noqa: E731
    ns = {owner: op('owner_senders', owner)(h[owner], union(h))}
    nr = {owner: op('owner_receivers', owner)(recv[owner], union(recv))}
    for s in subj:
        ns[s] = op('subject_senders', s)(h[s], h[owner])
        nr[s] = op('subject_receivers', s)(recv[s], recv[owner])
    if any((x in ns[y]) != (y in nr[x]) for x in nr for y in ns):
        if not opts.get('ignore_conflicts'):
            raise Refused('ConditionError')
        return None
    for y in h:
        for x in h:
            if y in ns:
                new = x in ns[y]
            elif x in nr:
                new = y in nr[x]
            else:
                continue
            h[y].discard(x)
            if new:
                h[y].add(x)
    if kind == 'Before':
        for s in subj:
            h[s].add(owner)
    elif kind == 'After':
        h[owner].update(subj)
    else:
        h[owner] = h[subj[0]] = h[owner] | h[subj[0]]
    if opts.get('remove_new_self_referential_edges', True):
        h = {n: p if n in g[n] else p - {n} for n, p in h.items()}
    return h, False


def check_reference(sim, owner, spec, g, r, ref, bad):
    opts = spec[2] if len(spec) > 2 else {}
    h, final = ref
    if final:
        if r != g:
            bad('the graph was as the condition requires')
        return
    if not acyclic(h) and opts.get('prune_cycles', True):
        return
    old_recv = {c for c in g if owner in g[c]} - set(subjects(spec))
    lost = {(x, y) for y in h for x in h[y] - r[y]}
    new = {(x, y) for y in r for x in r[y] - h[y]}
    if lost:
        bad(f'the edges {sorted(lost)} are missing')
    extra = {(x, y) for x, y in new if x not in g[owner] or y not in old_recv}
    if extra or new and not opts.get('reconnect_non_subject_receivers', True):
        bad(f'the edges {sorted(extra or new)} appear')
    if opts.get('reconnect_non_subject_receivers', True):
        anc = ancestors(r)
        for x in g[owner]:
            for y in old_recv:
                if x not in anc[y] and y not in anc[x] and x != y:
                    bad(f'{y} is no longer after {x}')
    elif acyclic(h) and not acyclic(r):
        bad('a cycle')


def simple(owner, spec, g):
    """Result of the conditions whose result is given by their name, or None"""
    k = spec[0]
    g = {n: set(p) for n, p in g.items()}
    if k == 'AddEdgeTo':
        g[spec[1]].add(owner)
        return g
    if k == 'RemoveEdgeFrom':
        g[owner].discard(spec[1])
        return g
    if k == 'Custom':
        _, what, a, b = spec
        if what == 'add':
            g[b].add(a)
        elif what == 'clear':
            g[a] = set()
        elif what == 'fail' or what == 'failif' and a in g[b]:
            raise Refused('ZeroDivisionError')
        return g
    return None


def numbers(sim, v, graph):
    out = {}
    for n, ps in graph.items():
        if n not in v.index or any(p not in v.index for p in ps):
            sim.fail('structure', f'unknown nodes in the graph: {graph}')
        out[v.index[n]] = {v.index[p] for p in ps}
    return out


def apply(sim, v, fresh, owner, spec, g):
    """Adds one condition to the Scheduler fresh, whose graph is g
    -> its graph afterwards.  Raises Refused(exception name)"""
    missing = [n for n in (owner, *subjects(spec)) if n < 0]
    want = None
    refused = 'ConditionError' if missing else None
    ref = None
    if not refused:
        try:
            want = simple(owner, spec, g)
            if want is None:
                ref = reference(owner, spec, g)
        except Refused as e:
            refused = e.args[0]
    try:
        cond = build(sim.env, v, spec)
        fresh.add_condition(node_of(v, owner), cond)
        out = numbers(sim, v, fresh.graph)
    except (gs.ConditionError, ZeroDivisionError) as e:
        name = type(e).__name__
        if refused != name:
            sim.fail('structure', f'{spec} of owner {owner} raised {name}: {e}')
        raise Refused(name)
    if refused:
        sim.fail('structure', f'{spec} of owner {owner} was accepted')
    if want is not None and want != out:
        sim.fail('structure', f'{spec} of owner {owner} on {g} gives {out}, expected {want}')
    if want is None:
        check(sim, owner, spec, g, out, ref)
    if spec[0] != 'Custom':
        independent(sim, v, cond, owner, spec, g)
    return out


def independent(sim, v, cond, owner, spec, g):
    """The result of modify_graph is a copy, of which every part can be
    changed without effect on the others or on the original"""
    graph = {v.node(n): {v.node(p) for p in ps} for n, ps in g.items()}
    r = cond.modify_graph(graph)
    before = numbers(sim, v, r)
    if set(before) != set(g):
        sim.fail('structure', f'{spec} of owner {owner} on {g} gives {before}')
    mark = object()
    for n in r:
        r[n].add(mark)
        if any(mark in r[m] for m in r if m is not n):
            sim.fail('structure', f'{spec} of owner {owner} on {g} gives a graph in which nodes share a set of senders')
        r[n].discard(mark)
        r[n].clear()
    if numbers(sim, v, graph) != {n: set(ps) for n, ps in g.items()}:
        sim.fail('structure', f'{spec} of owner {owner} on {g} modified the graph given to it')


def ancestors(g):
    m = {n: set(p) for n, p in g.items()}
    changed = True
    while changed:
        changed = False
        for n in m:
            new = set(m[n]).union(*[m[p] for p in m[n]]) if m[n] else set()
            if new != m[n]:
                m[n] = new
                changed = True
    return m


def acyclic(g):
    return not any(n in a for n, a in ancestors(g).items())


def check(sim, owner, spec, g, r, ref):
    def bad(what):
        sim.fail('structure', f'{spec} of owner {owner} on { {k: sorted(x) for k, x in g.items()} } gives { {k: sorted(x) for k, x in r.items()} }: {what}')
    k = spec[0]
    subj = subjects(spec)
    default = len(spec) < 3 or not spec[2]
    if set(r) != set(g):
        bad('other nodes')
    if k.startswith('Before') and not all(owner in r[s] for s in subj):
        bad('the owner is not before its subjects')
    if k.startswith('After') and not all(s in r[owner] for s in subj):
        bad('the owner is not after its subjects')
    if k == 'WithNode' and r[owner] != r[subj[0]]:
        bad('the owner is not with its subject')
    sim.stats['structural conditions'] = sim.stats.get('structural conditions', 0) + 1
    if ref is not None:
        sim.stats['structural references'] = sim.stats.get('structural references', 0) + 1
        check_reference(sim, owner, spec, g, r, ref, bad)
    if not default or not acyclic(g):
        return
    ok = acyclic(r)
    if k == 'BeforeNode' and not ok:
        bad('a cycle')
    if ok and len(subj) == 1:
        a0, a1 = ancestors(g), ancestors(r)
        for y in g:
            if y != owner and y not in subj and not (a0[y] - {owner}) <= a1[y]:
                bad(f'{y} is no longer after {sorted(a0[y] - {owner} - a1[y])}')
    if ok:
        for y in g:
            for x in r[y] ^ g[y]:
                if owner in (x, y) or x in subj or y in subj:
                    continue
                if x in r[y] and x in g[owner] and owner in g[y]:
                    continue
                bad(f'the edge {x}, {y} is unrelated')


def expected_graph(sim, v):
    """-> (graph over node numbers, None) or (None, name of the exception)

    The graph of a Scheduler with the same base graph to which the remaining
    conditions are added once, in order."""
    graph, _ = sim.make_graph(v, v.spec)
    fresh = gs.Scheduler(graph)
    g = numbers(sim, v, fresh.graph)
    want = {n: set(p) for n, p in v.base_parents.items()}
    if g != want:
        sim.fail('graph', f'the graph of a new Scheduler is {g}, expected {want}')
    for key, owner, spec, obj in v.structs:
        try:
            g = apply(sim, v, fresh, owner, spec, g)
        except Refused as e:
            return None, e.args[0]
    return g, None
