"""Histories of images of graphs, with the graphviz process and the disk simulated.

The conversion to pydot and pydot itself are real.  The process that pydot
starts is replaced by one that decides by the plan what becomes of it and
answers with the program it was given, and files that are opened for writing
fail when the plan says so.
"""
import builtins
import contextlib
import errno
import hashlib
import io
import json
import os
import random
import re
import shutil
import sys
import tempfile

import networkx as nx
import pydot
import pydot.core
import pydot.dot_parser

from .engine import Hang, Violation
from .graphq import Node
from .lib import gs, unexpected
from .world import Injected

KNOWN = ['png', 'svg', 'pdf', 'dot', 'gif', 'jpg', 'raw']
UNKNOWN = ['pngg', 'nope', 'exe', None]
FAULTS = ['nopydot', 'nodot', 'denied', 'killed', 'nodir', 'open', 'write', 'torn', 'tmp', 'interrupt', 'hash', 'stdout']
ERRNO = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EMFILE]


def make(seed, prof):
    R = random.Random(seed)
    n = R.choice([1, 2, 3, 4, 5, 7])
    kind = R.choice(['node', 'int', 'str', 'tup'])
    hs = R.choice([list(range(n)), [7] * n, [R.randrange(-2, 9) for _ in range(n)]])

    def pairs():
        d = R.choice([.15, .3, .6])
        acyclic = R.random() < .6
        return [[c, p] for c in range(n) for p in range(n)
                if R.random() < d and (p < c if acyclic else p != c or R.random() < .2)]
    faults = [f for f in FAULTS if R.random() < .5]
    ops = []
    for g in range(R.choice([1, 1, 2])):
        ops.append(['new', g, R.sample(range(n), n), pairs(),
                    R.choice(['dict', 'dict', 'missing', 'frozen', 'list', 'DiGraph', 'Sub', 'Graph', 'Multi', 'froz nx'])])
    ng = len(ops)
    if R.random() < .5:
        ops.append(['sched', [[c, p] for c, p in pairs() if p < c]])
    for _ in range(R.choice([3, 6, 12])):
        k = R.choices(['image', 'edge', 'node', 'step', 'live', 'stranger'], [6, 3, 1, 2, 1, .5])[0]
        g = R.randrange(ng)
        fault = [R.choice(faults), R.choice([1, 1, 2, 3]), R.choice(ERRNO)] if faults and R.random() < .5 else None
        what = [R.choice([None, 'a', 'b', 'sub/a', 'with space', "q'uote"]),
                R.choice(KNOWN[:3] if R.random() < .5 else KNOWN if R.random() < .7 else UNKNOWN),
                fault, R.choice(['positional', 'named', 'short'])]
        if k == 'image':
            ops.append(['image', g, *what])
        elif k == 'live':
            ops.append(['live', *what])
        elif k == 'edge':
            ops.append(['edge', g, R.randrange(n), R.randrange(n), R.random() < .5])
        elif k == 'node':
            ops.append(['node', g, R.randrange(n)])
        elif k == 'step':
            ops.append(['step', R.choice([1, 1, 2, 5])])
        else:
            ops.append(['stranger', R.choice(['a', 'b', 'sub/a'])])
    return {'n': n, 'kind': kind, 'hs': hs, 'ops': ops}


class Sub(nx.DiGraph):
    pass


TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|->|--|[;{}]|\[[^\]]*\]|[^\s;{}\[\]"]+')


def parse(text):
    """Type, nodes and edges of a program in the DOT language"""
    toks = [t for t in TOKEN.findall(text) if not t.startswith('[')]
    if '{' not in toks or toks[-1] != '}':
        return parse_any(text)
    i = toks.index('{')
    typ = [t for t in toks[:i] if t in ('graph', 'digraph')]
    nodes, edges = [], []
    stmt = []
    if len(typ) != 1 or toks.count('{') != 1:
        return parse_any(text)
    for t in toks[i + 1:]:
        if t not in (';', '}'):
            stmt.append(t)
            continue
        names = [x.strip('"') for x in stmt if x not in ('->', '--')]
        if len(stmt) == 1:
            nodes += names
        elif len(stmt) == 3 and stmt[1] in ('->', '--'):
            edges.append(tuple(names))
        elif stmt:
            return parse_any(text)
        stmt = []
    return typ[0], nodes, edges


def parse_any(text):
    try:
        P = pydot.graph_from_dot_data(text)[0]
    except Exception:
        return None, [], []
    nodes = [x.get_name().strip('"') for x in P.get_nodes()]
    nodes = [x for x in nodes if x not in ('\\n', 'node', 'edge', 'graph')]
    return P.get_type(), nodes, [(str(e.get_source()).strip('"'), str(e.get_destination()).strip('"')) for e in P.get_edges()]


def scratch():
    """Where files are cheap, if possible"""
    d = '/dev/shm'
    return d if os.path.isdir(d) and os.access(d, os.W_OK) else tempfile.gettempdir()


class Process:
    def __init__(self, code):
        self.returncode = code


class Sim:
    def __init__(self, plan):
        self.plan = plan
        self.graphs = {}        # id -> [graph, nodes, pairs, form]
        self.trace = []
        self.stats = {'sets': 0, 'probes': 0, 'queries': 0, 'faults': {}, 'steps': 0, 'images': 0, 'failed images': 0}
        self.arm = None
        self.opi = -1
        self.files = {}         # what the directory must hold
        self.sched = None

    def fail(self, msg):
        self.arm = None
        # the same in every scratch directory
        for d in (getattr(self, 'dir', None), tempfile.tempdir):
            if d:
                msg = msg.replace(d, '')
        raise Violation('image', msg)

    def spring(self, what):
        """hash or eq of a node"""
        if self.arm is not None and self.arm[0] == what and self.due():
            self.injected = Injected(what)
            raise self.injected

    def due(self):
        self.arm[1] -= 1
        if self.arm[1] > 0:
            return False
        self.stats['faults'][self.arm[0]] = self.stats['faults'].get(self.arm[0], 0) + 1
        self.fired = True
        return True

    def node(self, i):
        k = self.plan['kind']
        if k == 'node':
            return self.nodes[i]
        return {'int': 3 * i, 'str': f'n{i}', 'tup': ('t', i)}[k]

    def name(self, i):
        return str(self.node(i))

    # ---- the simulated process and disk
    def graphviz(self, program, arguments, working_dir, **kw):
        self.called.append(list(arguments))
        f = self.arm and self.arm[0]
        if f == 'nodot' and self.due():
            raise OSError(errno.ENOENT, 'No such file or directory', program)
        if f == 'denied' and self.due():
            raise OSError(errno.EACCES, 'Permission denied', program)
        if f == 'interrupt' and self.due():
            raise KeyboardInterrupt()
        if f == 'killed' and self.due():
            return b'', b'killed', Process(-9)
        fmt = [a[2:] for a in arguments if a.startswith('-T')]
        with builtins.open(os.path.join(working_dir, arguments[-1])) as fh:
            self.program = fh.read()
        if len(fmt) != 1 or fmt[0] not in KNOWN:
            return b'', b'Format not recognized', Process(1)
        self.output = f'{fmt[0]}:'.encode() + self.program.encode()
        return self.output, b'', Process(0)

    def open(self, path, mode='r', *args, **kw):
        own = os.path.abspath(path).startswith(self.dir + os.sep)
        f = self.arm and self.arm[0]
        if 'w' in mode and (f in ('open', 'write', 'torn') and own or f == 'tmp' and not own) and self.due():
            e = OSError(self.arm[2], os.strerror(self.arm[2]), path)
            self.injected = e
            if f in ('open', 'tmp'):
                raise e
            fh = builtins.open(path, mode, *args, **kw)
            write = fh.write

            class File:
                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    fh.close()

                def close(self):
                    fh.close()

                def write(self, s):
                    if f == 'torn':
                        write(s[:len(s) // 2])
                    raise e
            return File()
        return builtins.open(path, mode, *args, **kw)

    # ---- operations
    def run(self):
        self.nodes = [Node(self, i, h) for i, h in enumerate(self.plan['hs'])]
        top = tempfile.mkdtemp(prefix='verif-image-', dir=scratch())
        self.dir = os.path.join(os.path.realpath(top), 'd')
        tempfile.tempdir = os.path.join(top, 't')
        os.mkdir(self.dir)
        os.mkdir(tempfile.tempdir)
        os.mkdir(os.path.join(self.dir, 'sub'))
        os.chdir(self.dir)
        pydot.core.call_graphviz = self.graphviz
        pydot.core.open = self.open
        gs.utilities.open = self.open
        try:
            for self.opi, op in enumerate(self.plan['ops']):
                self.stats['steps'] += 1
                getattr(self, 'op_' + op[0])(*op[1:])
        finally:
            os.chdir('/')
            tempfile.tempdir = None
            shutil.rmtree(top)

    def op_new(self, i, keys, pairs, form):
        keys = set(keys)
        pairs = {tuple(p) for p in pairs}
        if form in ('DiGraph', 'Sub', 'Graph', 'Multi', 'froz nx'):
            g = {'DiGraph': nx.DiGraph, 'Sub': Sub, 'Graph': nx.Graph, 'Multi': nx.MultiDiGraph, 'froz nx': nx.DiGraph}[form]()
            g.add_nodes_from(self.node(k) for k in sorted(keys))
            g.add_edges_from((self.node(p), self.node(c)) for c, p in sorted(pairs))
            if form == 'froz nx':
                g = nx.freeze(g)
        else:
            if form == 'missing':
                keys = {c for c, p in pairs} or {0}
            g = {}
            for k in sorted(keys, reverse=True):
                ps = [self.node(p) for c, p in sorted(pairs) if c == k]
                g[self.node(k)] = {'frozen': frozenset, 'list': list}.get(form, set)(ps)
        self.graphs[i] = [g, keys | {x for p in pairs for x in p}, pairs, form]

    def op_edge(self, i, c, p, add):
        g, nodes, pairs, form = self.graphs[i]
        if form in ('froz nx', 'frozen', 'list') or c not in nodes or p not in nodes:
            return
        if isinstance(g, nx.Graph):
            if form == 'Graph' and (p, c) in pairs:
                return
            if ((c, p) in pairs) == add:
                return
            (g.add_edge if add else g.remove_edge)(self.node(p), self.node(c))
        else:
            if self.node(c) not in g or not add and form == 'missing':
                return
            (g[self.node(c)].add if add else g[self.node(c)].discard)(self.node(p))
        (pairs.add if add else pairs.discard)((c, p))

    def op_node(self, i, n):
        g, nodes, pairs, form = self.graphs[i]
        if n in nodes or form == 'froz nx':
            return
        if isinstance(g, nx.Graph):
            g.add_node(self.node(n))
        else:
            g[self.node(n)] = frozenset() if form == 'frozen' else [] if form == 'list' else set()
        nodes.add(n)

    def op_stranger(self, name):
        """Another file is written by somebody else"""
        with builtins.open(os.path.join(self.dir, name), 'wb') as fh:
            fh.write(b'mine')
        self.files[name] = b'mine'

    def op_sched(self, pairs):
        n = self.plan['n']
        g = {self.node(c): {self.node(p) for q, p in pairs if q == c} for c in range(n)}
        self.sched = gs.Scheduler(graph=g)
        self.sched_pairs = {tuple(p) for p in pairs}
        layers = []
        left = set(range(n))
        while left:
            layers.append({c for c in left if not any(p in left for q, p in pairs if q == c)})
            left -= layers[-1]
        self.layers = layers
        self.at = 0
        self.it = self.sched.run(termination_conds={gs.TimeScale.ENVIRONMENT_STATE_UPDATE: gs.Never()})

    def op_step(self, n):
        if self.sched is None:
            return
        for _ in range(n):
            got = {self.num(x) for x in next(self.it)}
            want = self.layers[self.at % len(self.layers)]
            self.at += 1
            self.stats['sets'] += 1
            self.trace.append(['set', sorted(got)])
            if got != want:
                self.fail(f'the schedule changed: {got}, expected {want}')

    def num(self, x):
        for i in range(self.plan['n']):
            if self.node(i) == x:
                return i
        self.fail(f'an unknown node {x!r}')

    def op_live(self, *what):
        if self.sched is None:
            return
        self.image(self.sched.graph, set(range(self.plan['n'])), self.sched_pairs, True, *what)

    def op_image(self, i, *what):
        g, nodes, pairs, form = self.graphs[i]
        self.image(g, nodes, pairs, form != 'Graph', *what)

    def shot(self, g):
        if isinstance(g, nx.Graph):
            return [(type(g), nx.is_frozen(g), dict(g.graph), list(g.nodes(data=True)), list(g.edges(data=True)))]
        return [(id(k), type(v), list(v)) for k, v in g.items()]

    def image(self, g, nodes, pairs, directed, name, fmt, fault, style):
        self.called = []
        self.program = self.output = self.injected = None
        self.fired = False
        path = None if name is None else os.path.join(self.dir, name)
        if fault and fault[0] == 'nodir':
            path = os.path.join(self.dir, 'missing', 'a')
        before = self.shot(g)
        out = io.StringIO()
        args, kw = [g], {}
        if style == 'positional':
            args += [path, fmt]
        elif style == 'short' and fmt == 'png' and path is None:
            pass
        else:
            kw = {'format': fmt}
            if path is not None:
                kw['filename'] = path
        hidden = None
        if fault and fault[0] == 'nopydot':
            self.fired = True
            self.stats['faults']['nopydot'] = self.stats['faults'].get('nopydot', 0) + 1
            hidden = sys.modules['pydot']
            sys.modules['pydot'] = None
        elif fault and fault[0] == 'nodir':
            self.stats['faults']['nodir'] = self.stats['faults'].get('nodir', 0) + 1
        elif fault and fault[0] == 'stdout':
            # nobody reads what is printed
            out.close()
            self.stats['faults']['stdout'] = self.stats['faults'].get('stdout', 0) + 1
        elif fault:
            self.arm = list(fault)
        err = None
        try:
            with contextlib.redirect_stdout(out):
                r = gs.output_graph_image(*args, **kw)
        except Hang:
            raise
        except BaseException as e:
            err = e
        finally:
            self.arm = None
            if hidden:
                sys.modules['pydot'] = hidden
        if self.shot(g) != before:
            self.fail(f'output_graph_image modified {g}')
        said = '' if out.closed else out.getvalue()
        self.trace.append(['image', sorted(nodes), sorted(pairs), fmt, type(err).__name__, fault and fault[0]])
        target = path if path is not None else os.path.join(self.dir, f'graph-scheduler-figure-{id(g)}.{fmt}')
        rel = os.path.relpath(target, self.dir)
        files = self.listing()
        self.stats['probes'] += 1
        self.expect(fault[0] if fault and (self.fired or fault[0] in ('nodir', 'stdout')) else None, fmt, err, rel, files)
        if err is None:
            self.stats['images'] += 1
            if r is not None:
                self.fail(f'output_graph_image returned {r!r}')
            want = self.output if fmt != 'raw' else files.get(rel)
            if files.get(rel) != want or want is None:
                self.fail(f'the file {rel} is {files.get(rel)!r}, the image was {want!r}')
            self.check_program(files[rel].decode() if fmt == 'raw' else self.program, nodes, pairs, directed)
            if fmt != 'raw' and any('-T' + fmt not in a for a in self.called):
                self.fail(f'format {fmt}: graphviz was called with {self.called}')
        else:
            self.stats['failed images'] += 1
            if 'wrote' in said:
                self.fail(f'success was reported, but {type(err).__name__} raised: {said}')
        # nothing else changed on the disk
        for f in set(files) | set(self.files):
            if f != rel and files.get(f) != self.files.get(f):
                self.fail(f'the file {f} was {self.files.get(f)!r}, is {files.get(f)!r}')
        self.files = files
        if path is None:
            # ids are used again
            for f in list(self.files):
                if f.startswith('graph-scheduler-figure-'):
                    os.remove(os.path.join(self.dir, f))
                    del self.files[f]

    def expect(self, fault, fmt, err, rel, files):
        def bad(what):
            self.fail(f'{fault or "no fault"}, format {fmt}: expected {what}, got {type(err).__name__ if err else "success"}: {err}')
        if fault == 'nopydot':
            if type(err) is not ModuleNotFoundError or 'pydot' not in str(err):
                bad('ModuleNotFoundError')
        elif fault == 'nodot':
            if not isinstance(err, FileNotFoundError) or 'graphviz' not in str(err).lower():
                bad('FileNotFoundError that names graphviz')
        elif fault in ('denied',):
            if not isinstance(err, PermissionError):
                bad('PermissionError')
        elif fault in ('open', 'write', 'torn', 'tmp'):
            if err is not self.injected:
                bad(f'{self.injected!r}')
        elif fault == 'hash':
            if err is None:
                bad('the exception of a node')
        elif fault == 'interrupt':
            if not isinstance(err, KeyboardInterrupt):
                bad('KeyboardInterrupt')
        elif fault == 'killed' or fmt in UNKNOWN and fault != 'stdout':
            if not isinstance(err, AssertionError) or not all(f in str(err) for f in ('png', 'svg', 'pdf')):
                bad('AssertionError that lists formats')
        elif fault == 'nodir':
            if not isinstance(err, FileNotFoundError) or 'graphviz' in str(err).lower():
                bad('FileNotFoundError about the directory')
        elif fault == 'stdout':
            if err is not None and not isinstance(err, (ValueError, AssertionError)):
                bad('ValueError about the closed stream')
        elif err is not None:
            bad('success')

    def check_program(self, text, nodes, pairs, directed):
        """The program describes the graph"""
        typ, got, edges = parse(text)
        if typ is None:
            self.fail(f'not a program: {text!r}')
        want = {self.name(i) for i in nodes}
        wedges = {(self.name(p), self.name(c)) for c, p in pairs}
        if not directed:
            edges = [tuple(sorted(e)) for e in edges]
            wedges = {tuple(sorted(e)) for e in wedges}
        if set(got) | {x for e in edges for x in e} != want or set(edges) != wedges or len(edges) != len(wedges):
            self.fail(f'the image shows nodes {sorted(got)}, edges {sorted(edges)} of nodes {sorted(want)}, edges {sorted(wedges)}')
        if (typ == 'digraph') != directed:
            self.fail(f'the image is a {typ}')

    def listing(self):
        res = {}
        for root, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                with builtins.open(p, 'rb') as fh:
                    res[os.path.relpath(p, self.dir)] = fh.read()
        return res


def execute(plan):
    sim = Sim(plan)
    res = {'violation': None, 'inconclusive': None, 'states': []}
    try:
        sim.run()
    except Violation as e:
        res['violation'] = {'kind': e.kind, 'msg': e.msg, 'op': sim.opi}
    except Hang:
        res['violation'] = {'kind': 'hang', 'msg': 'the library did not return control', 'op': sim.opi}
    except Exception as e:
        res['violation'] = {**unexpected(e), 'op': sim.opi}
    res['trace'] = sim.trace
    res['digest'] = hashlib.sha256(json.dumps(sim.trace).encode()).hexdigest()[:16]
    res['stats'] = sim.stats
    return res
