"""Systematic mutation of the library: which changes that pass the tests do the checks miss?

    mutate.py list
    mutate.py tests OUT [--par 8]           runs the core tests on every mutant, in scratch copies
    mutate.py checks OUT [--plans 600]      runs the checks on those that passed the tests

Only a tool for finding gaps: nothing that MANIFEST.json registers uses it.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('MUT_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['condition', 'scheduler', 'time', 'utilities']
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONHASHSEED': '0',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg'}
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
SYM = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in',
       ast.Is: 'is', ast.IsNot: 'is not'}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.starts = [0]
        for line in src.splitlines(True):
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = src.encode()
        self.out = []
        self.fn = []

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        if self.raw[a:b].decode() != new:
            self.out.append((a, b, new, n.lineno, what, '.'.join(self.fn)))

    def scope(self, n):
        self.fn.append(n.name)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        for d in getattr(n, 'args', None) and [n.args] or []:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.fn.pop()
    visit_FunctionDef = visit_ClassDef = scope

    def visit_Raise(self, n):
        self.add(n, 'pass', 'drop raise')

    def visit_Assert(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                self.add(n, f'({self.text(n.left)} {new} {self.text(n.comparators[0])})', 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + op.join(f'({self.text(v)})' for v in n.values) + ')', 'boolop')
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            o = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.add(n, '(' + o.join(f'({self.text(v)})' for v in rest) + ')', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, f'(bool({self.text(n.operand)}))', 'drop not')
        if isinstance(n.op, ast.USub):
            self.add(n, f'({self.text(n.operand)})', 'drop minus')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), 'bool')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'int+')
            if v > 0:
                self.add(n, str(v - 1), 'int-')
        elif v is None:
            pass

    def visit_BinOp(self, n):
        sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.BitOr: '&', ast.BitAnd: '|'}
        if type(n.op) in sw:
            self.add(n, f'({self.text(n.left)} {sw[type(n.op)]} {self.text(n.right)})', 'binop')
            self.add(n, f'({self.text(n.left)})', 'left operand')
            self.add(n, f'({self.text(n.right)})', 'right operand')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'drop augassign')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            self.add(n, 'pass', 'drop assign')
        elif isinstance(n.targets[0], ast.Name) and not isinstance(n.value, ast.Constant) and self.fn and self.fn[-1][0] not in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ':
            self.add(n.value, 'None', 'none')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if 'logger' in t or 'warnings' in t or '__doc__' in t:
            return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.add(n, 'pass', 'drop yield')
            return
        self.add(n, 'pass', 'drop call')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.add(n, 'return None', 'return none')
        if n.value is None:
            self.add(n, 'pass', 'drop return')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, 'pass', 'drop continue')

    def visit_Break(self, n):
        self.add(n, 'pass', 'drop break')

    def visit_If(self, n):
        self.add(n.test, 'True', 'if true')
        self.add(n.test, 'False', 'if false')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n.test, '(True)', 'ifexp true')
        self.add(n.test, '(False)', 'ifexp false')
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for t in n.ifs:
            self.add(t, 'True', 'comp if true')
            self.add(t, 'False', 'comp if false')
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Call(self, n):
        t = self.text(n)
        if 'logger' in t:
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join') or isinstance(n.func, ast.Name) and n.func.id.endswith(('Error', 'Warning')):
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'warn':
            return
        head = self.text(n.func)
        parts = [self.text(a) for a in n.args]
        kws = [(f'{k.arg}={self.text(k.value)}' if k.arg else f'**{self.text(k.value)}') for k in n.keywords]
        for i in range(len(kws)):
            self.add(n, f"{head}({', '.join(parts + kws[:i] + kws[i + 1:])})", 'drop keyword')
        if len(parts) > 1:
            self.add(n, f"{head}({', '.join(parts[:-1] + kws)})", 'drop argument')
        if isinstance(n.func, ast.Name) and n.func.id in ('list', 'set', 'tuple', 'sorted', 'int', 'abs', 'reversed', 'dict') and len(parts) == 1 and not kws:
            self.add(n, f'({parts[0]})', 'drop conversion')
        if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
            other = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id]
            self.add(n.func, other, 'swap')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy') and (parts or head.count('.')):
            self.add(n, f'({parts[0]})' if parts else f'({self.text(n.func.value)})', 'drop copy')
        self.generic_visit(n)


def mutants():
    out = []
    seen = set()
    for f in FILES:
        path = f'src/graph_scheduler/{f}.py'
        src = open(os.path.join(REPO, path)).read()
        v = Finder(src)
        v.visit(ast.parse(src))
        for a, b, new, line, what, fn in v.out:
            if '__repr__' in fn or '__str__' in fn and False:
                continue
            text = (v.raw[:a] + new.encode() + v.raw[b:]).decode()
            key = (f, text)
            if key in seen:
                continue
            seen.add(key)
            try:
                compile(text, path, 'exec')
            except SyntaxError:
                continue
            out.append({'id': len(out), 'file': path, 'line': line, 'what': what, 'fn': fn,
                        'old': v.raw[a:b].decode()[:200], 'new': new[:200], 'a': a, 'b': b, 'full': new})
    return out


def put(m, wt):
    raw = open(os.path.join(REPO, m['file']), 'rb').read()
    open(os.path.join(wt, m['file']), 'wb').write(raw[:m['a']] + m['full'].encode() + raw[m['b']:])


def restore(m, wt):
    shutil.copyfile(os.path.join(REPO, m['file']), os.path.join(wt, m['file']))


def slots(par):
    q = queue.Queue()
    top = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    for i in range(par):
        wt = os.path.join(top, f'{i}', 'repo')
        os.makedirs(os.path.dirname(wt))
        subprocess.run(['cp', '-a', REPO, wt], check=True)
        vt = os.path.join(top, f'{i}', 'verif')
        os.mkdir(vt)
        for f in ('sim', 'check', 'check.py', 'known_findings.json', 'properties.jsonl'):
            subprocess.run(['cp', '-a', os.path.join(VERIF, f), vt], check=True)
        q.put(os.path.join(top, f'{i}'))
    return top, q


def run_tests(m, q):
    s = q.get()
    wt = os.path.join(s, 'repo')
    try:
        put(m, wt)
        tmp = os.path.join(s, 'tmp')
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '--verbosity=0', '-p', 'no:cacheprovider', '--no-cov', '-n', '0', '--timeout=30',
                                f'--basetemp={tmp}', '--ignore', 'tests/integration', 'tests'], cwd=wt,
                               env={**ENV, 'PYTHONPATH': os.path.join(wt, 'src')}, capture_output=True, text=True, timeout=120)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -9
        return {**m, 'tests': rc}
    finally:
        restore(m, wt)
        q.put(s)


RUN = """
import sys
sys.path.insert(0, '.')
import check
from check import HarnessError, counts, isolated, make, plans
n, props = int(sys.argv[1]), sys.argv[2].split(',')
for i in range(n):
    for p in props:
        try:
            plan = make(p, 'quick', i)
            res = isolated(plans.execute, plan)
        except HarnessError as e:
            print('harness', p, i, str(e)[-200:].replace('\\n', ' '))
            sys.exit(2)
        if counts(p, res):
            print('violation', p, i, res['violation']['kind'], str(res['violation'])[:200].replace('\\n', ' '))
            sys.exit(1)
"""


def run_checks(m, q, n, props, jobs):
    """The first n plans of each of the properties, in turn"""
    s = q.get()
    wt = os.path.join(s, 'repo')
    try:
        put(m, wt)
        try:
            r = subprocess.run([PY, '-B', '-c', RUN, str(n), ','.join(props)], cwd=os.path.join(s, 'verif'), capture_output=True, text=True,
                               timeout=3000, env={**ENV, 'VERIF_REPO': wt, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            rc, tail = r.returncode, (r.stdout + r.stderr[-300:])[-400:]
        except subprocess.TimeoutExpired:
            rc, tail = -9, ''
        return {**m, 'checks': {'all': [rc, tail]}}
    finally:
        restore(m, wt)
        q.put(s)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out', nargs='?')
    ap.add_argument('--par', type=int, default=8)
    ap.add_argument('--plans', type=int, default=600)
    ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('--in', dest='inp')
    ap.add_argument('--props', default=','.join(f'P{i:02}' for i in range(1, 23)))
    a = ap.parse_args()
    ms = mutants()
    if a.cmd == 'list':
        import collections
        print(len(ms), collections.Counter(m['file'] for m in ms), collections.Counter(m['what'] for m in ms))
        sys.exit()
    top, q = slots(a.par)
    try:
        with concurrent.futures.ThreadPoolExecutor(a.par) as ex, open(a.out, 'a') as out:
            if a.cmd == 'tests':
                work = [lambda m=m: run_tests(m, q) for m in ms]
            else:
                todo = [json.loads(x) for x in open(a.inp)]
                work = [lambda m=m: run_checks(m, q, a.plans, a.props.split(','), a.jobs) for m in todo]
            for f in concurrent.futures.as_completed([ex.submit(w) for w in work]):
                out.write(json.dumps(f.result()) + '\n')
                out.flush()
    finally:
        shutil.rmtree(top)
