"""Generation of plans: everything is drawn from one seeded generator."""
import random
from decimal import Decimal

from .model import CSE, ESU, LIFE, PASS, SEQ, ms

EXCS = ['val', 'key', 'type', 'inj', 'base', 'exit', 'mem', 'os', 'index', 'rt', 'zero', 'gen', 'attr']


class Profile(dict):
    def __getattr__(self, k):
        return self[k]


BASE = Profile(
    nsched=[1],
    nnodes=[1, 2, 2, 3, 3, 3, 4, 4, 5],
    density=[.15, .3, .5, .7, 1.0],
    kinds={'sim': 5, 'str': 3, 'int': 2, 'eq': 2, 'tup': 1, 'frz': 1},
    exact=.08,
    abs=0,
    conds={'none': 4, 'time': 2, 'call': 2, 'every': 3, 'just': 1, 'all': 1, 'state': 2, 'comp': 2, 'nwhen': 1, 'const': 1},
    pterm=.5,
    pterm_run=.4,
    terms={'pass': 3, 'cse': 2, 'calls': 3, 'all': 2, 'state': 2, 'esu': 1, 'comp': 1, 'nwhen': .3},
    traps=.4,
    eids=[['d'], ['d'], ['d', 'x'], ['x', 'y'], ['d', 'x', 'z'], ['d', 'f'], ['f', 'q', 'x']],
    deids={'n': 4, 'x': 1, 'i': 1, 'f': .7, 'q': .3},
    nops=[6, 12, 20, 30],
    ops={'go': 10, 'close': .5, 'throw': .5, 'drop': .3, 'abandon': .3, 'endseq': .7, 'world': 2,
         'arm': 1, 'cond': .6, 'rm': .3, 'readd': .2, 'term': .3, 'probe': 1.5, 'obs': .5, 'gc': .1, 'wall': .2,
         'check': .5, 'mutin': .1},
    probe={'time': 1, 'call': 1, 'every': 1, 'just': 1, 'all': 1, 'state': 1, 'comp': 1},
    skip=.1,
    base=.1,
    kw=.3,
    dense=.5,
    steps=[1, 1, 1, 2, 2, 3, 5, 12],
    flat=.15,
)


def profile(**kw):
    p = Profile(BASE)
    for k, v in kw.items():
        if k.startswith('_'):
            p[k[1:]] = {**p[k[1:]], **v}
        else:
            p[k] = v
    return p


class Gen:
    def __init__(self, seed, prof):
        self.R = random.Random(seed)
        self.p = prof
        self.uid = 0
        self.traps = {}

    def w(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.R.choices(ks, [d[k] for k in ks])[0]

    def chance(self, p):
        return self.R.random() < p

    # ------------------------------------------------------------ conditions
    def big(self):
        if self.p.get('bign') and self.chance(self.p.bign):
            return self.R.choice([5, 8, 13, 30, 64, 100, 128, 200, self.R.randint(5, 130), self.R.randint(5, 130), self.R.randint(5, 130)])

    def n(self, lo=0, hi=3):
        big = self.big()
        if big is not None:
            return big
        return self.R.choice([x for x in (0, 1, 1, 1, 2, 2, 3, 4) if lo <= x <= hi])

    def ts(self, lo, hi=LIFE):
        return self.R.randint(lo, hi)

    def time_cond(self, star=False):
        R = self.R
        n = '*' if star else None
        k = R.choice([
            'BeforeConsiderationSetExecution', 'AtConsiderationSetExecution', 'AfterConsiderationSetExecution',
            'AfterNConsiderationSetExecutions', 'BeforePass', 'AtPass', 'AfterPass', 'AfterNPasses',
            'EveryNPasses', 'BeforeEnvironmentStateUpdate', 'AtEnvironmentStateUpdate',
            'AfterEnvironmentStateUpdate', 'AfterNEnvironmentStateUpdates', 'AtEnvironmentSequence',
            'AfterEnvironmentSequence', 'AfterNEnvironmentSequences', 'EsuStart', 'EsuNStart', 'SeqStart',
            'SeqNStart',
        ])
        if k in ('EsuStart', 'SeqStart'):
            return [k]
        if k == 'EsuNStart':
            return [k, n or self.n(0, 2), R.choice([SEQ, SEQ, LIFE])]
        if k == 'SeqNStart' or k.endswith('Sequence') or k.endswith('Sequences'):
            return [k, n if star else self.n(0, 2)]
        if 'StateUpdate' in k:
            return [k, n if star else self.n(0, 3), R.choice([SEQ, SEQ, LIFE])]
        if k == 'EveryNPasses':
            return [k, n if star else self.n(1, 3), R.choice([ESU, ESU, SEQ, LIFE])]
        return [k, n if star else self.n(0, 4), R.choice([ESU, ESU, ESU, SEQ, LIFE])]

    def dep(self, s, owner):
        """A node to depend on: mostly a parent, sometimes anything"""
        R = self.R
        ps = [p for c, p in s['e'] if c == owner]
        others = [n for n in s['n'] if n != owner]
        if ps and (self.chance(.6) or self.p.get('near')):
            return R.choice(ps)
        if self.p.get('near'):
            # no other node of the same consideration set
            return owner if owner is not None else R.choice(s['n'])
        if others and self.chance(.95):
            return R.choice(others)
        return R.choice(s['n'])

    def scale(self):
        return self.R.choice([CSE, PASS, PASS, ESU, ESU, ESU, SEQ, LIFE])

    def cond(self, s, owner, fam, depth=0, star=False, safe=False):
        R = self.R
        if fam == 'time':
            return self.time_cond(star)
        if fam == 'call':
            k = R.choice(['BeforeNCalls', 'AtNCalls', 'AfterCall', 'AfterNCalls', 'AfterNCalls'])
            if R.random() < .2:
                ds = R.sample(s['n'], R.randint(1, len(s['n'])))
                return ['AfterNCallsCombined', ds, '*' if star else self.n(0, 4), self.scale()]
            return [k, self.dep(s, owner), '*' if star else self.n(0, 3), self.scale()]
        if fam == 'every':
            return ['EveryNCalls', self.dep(s, owner), '*' if star else self.n(1, 3)]
        if fam == 'just':
            return ['JustRan', self.dep(s, owner)]
        if fam == 'all':
            ds = [] if R.random() < .3 else R.sample(s['n'], R.randint(1, len(s['n'])))
            return ['AllHaveRun', ds, self.scale()]
        if fam == 'state':
            return self.state_cond(s, owner)
        if fam == 'const':
            return [R.choice(['Always', 'Always', 'Never'])]
        if fam == 'comp':
            fams = self.p.get('compfams', ['time', 'call', 'every', 'just', 'all', 'state', 'const', 'time', 'call', 'state'])
            if self.abs:
                fams = fams + ['abs', 'abs']
            if depth < 2:
                fams = fams + ['comp']
            fams = [f for f in fams if f in self.fams or f in ('const', 'abs', 'comp')] or ['const']
            k = R.choice(['All', 'Any', 'Not', 'All', 'Any'])
            sub = lambda: self.cond(s, owner, R.choice(fams), depth + 1, safe=safe)  # noqa: E731
            if k == 'Not':
                return ['Not', sub()]
            parts = [sub() for _ in range(R.choice([0, 1, 2, 2, 2, 3]) if depth else R.choice([1, 2, 2, 3]))]
            if depth == 0 and self.use_nwhen and self.p.conds.get('nwhen') and owner is not None and R.random() < .35:
                # where it is counted exactly when the whole is satisfied
                nw = self.cond(s, owner, 'nwhen')
                parts.insert(len(parts) if k == 'All' else R.randrange(len(parts) + 1), nw)
            if depth == 0 and self.p.get('own') and owner in s['n'] and len(s['n']) > 1 and self.chance(self.p['own']):
                o = R.choice([n for n in s['n'] if n != owner])
                parts[R.randrange(len(parts))] = ['Own', o, self.cond(s, o, R.choice(['every', 'every', 'call']))]
            return [k] + parts
        if fam == 'nwhen':
            self.uid += 1
            inner = self.cond(s, owner, R.choice([f for f in ('time', 'call', 'every', 'state', 'const', 'comp') if f in self.fams] or ['const']), 1)
            if self.abs and R.random() < .25:
                inner = self.abs_cond()
                if R.random() < .3:
                    inner = ['Not', inner]
            return ['NWhen', inner, self.n(1, 3) if self.p.get('bign') else R.choice([0, 1, 1, 2, 3]), self.uid]
        if fam == 'abs':
            return self.abs_cond()
        raise ValueError(fam)

    def state_cond(self, s, owner):
        R = self.R
        k = R.choice(['WhenFinished', 'WhenFinishedAny', 'WhenFinishedAll', 'While', 'While', 'WhileNot', 'Thr', 'Thr'])
        if k == 'WhenFinished':
            return [k, self.dep(s, owner)]
        if k in ('WhenFinishedAny', 'WhenFinishedAll'):
            ds = R.sample(s['n'], R.randint(1, len(s['n'])))
            if self.kind == 'sim' and R.random() < .3:
                ds = []
            return [k, ds]
        if k == 'Thr':
            cmp = R.choice(['<', '<=', '>', '>=', '==', '!='])
            atol = R.choice([0, 0, .5, 1]) if cmp in ('==', '!=') else 0
            return [k, self.dep(s, owner), R.choice([0, 1, 2, 0, 1, 2, -1, -2, 1.5]), cmp, R.randint(0, 3), atol, R.choice([0, 0, .25, .5, 1]) if cmp in ('==', '!=') else 0]
        return [k, R.choice(['f', 'g', 'h']), R.randint(0, 16)]

    UNITS = [('ms', 6), ('us', 1), ('s', 1), ('minute', .5), ('hour', .3)]
    FACTORS = ['1'] * 6 + ['0.5', '1.5', '0.3']

    def q(self, x):
        """x in base units of this plan"""
        if self.factor != '1':
            d = Decimal(self.factor) if not self.mixed or self.chance(.5) else Decimal(1)
            return [str(x * d), self.unit]
        if self.mixed and self.chance(.4):
            if self.unit == 'ms':
                return self.R.choice([[x * 1000, 'us'], [str(Decimal(x) / 1000), 's'], [float(x), 'ms']])
            if self.unit == 'us':
                return self.R.choice([[x * 1000, 'ns'], [str(Decimal(x) / 1000), 'ms']])
            if self.unit in ('minute', 'hour'):
                return [x, self.R.choice(['minute', 'hour', 'second'])]
            return self.R.choice([[x * 1000, 'ms'], [float(x), 's']])
        return [x, self.unit]

    def abs_cond(self, repeat=None):
        R = self.R
        rep = R.choice([None, 1, 2, 3, 4, 6]) if repeat is None else repeat
        start = R.choice([None, None, 0, 1, 2, 3, 5, 8])
        end = R.choice([None, None, 4, 6, 9, 14])
        if self.p.get('absbig'):
            rep = R.choice([None, 1, 7, 12, 50, 99, 128]) if rep is not None else None
            start = R.choice([None, 0, 1, 40, 100, 255])
            end = R.choice([None, None, 60, 300, 500])
        if self.p.get('abs_grid') and rep is not None and start is not None:
            start = start // rep * rep
        if rep is None and start is None and end is None:
            start = 1
        if start is not None and end is not None and start > end:
            start, end = end, start
        if start is not None and self.chance(.05):
            # one moment
            end = start
        si, ei = self.chance(.75), self.chance(.75)
        if self.kf_safe:
            # known findings KF1, KF2: see known_findings
            rep, start, si = self.kf_fix(rep, start, si)
        q = lambda x: None if x is None else self.q(x)  # noqa: E731
        start, end = q(start), q(end)
        if start is not None and end is not None and ms(start) > ms(end):
            start, end = end, start
        return ['TI', q(rep), start, end, si, ei, R.choice(['str', 'str', 'q', 'num'])]

    def kf_fix(self, rep, start, si):
        return rep, start, si

    # ------------------------------------------------------------ terminations
    def term_cond(self, s, fam, seq=False):
        R = self.R
        up = SEQ if seq else ESU
        if fam == 'pass':
            return [R.choice(['AfterNPasses', 'AfterNPasses', 'AfterPass', 'AtPass']), self.n(1, 4), R.choice([up, up, LIFE])]
        if fam == 'cse':
            return [R.choice(['AfterNConsiderationSetExecutions', 'AfterConsiderationSetExecution', 'AtConsiderationSetExecution']),
                    self.big() or R.randint(1, 6), R.choice([up, up, LIFE])]
        if fam == 'calls':
            if R.random() < .3:
                return ['AfterNCallsCombined', R.sample(s['n'], R.randint(1, len(s['n']))), self.big() or R.randint(1, 5), R.choice([up, LIFE])]
            return [R.choice(['AfterNCalls', 'AfterCall', 'AtNCalls']), R.choice(s['n']), self.big() or R.randint(1, 3), R.choice([CSE, PASS, up, up, SEQ, LIFE])]
        if fam == 'all':
            return ['AllHaveRun', [] if R.random() < .5 else R.sample(s['n'], R.randint(1, len(s['n']))), R.choice([up, up, PASS, LIFE])]
        if fam == 'state':
            return self.state_cond(s, None) if not self.p.get('nostate') else self.term_cond(s, 'pass', seq)
        if fam == 'esu':
            return [R.choice(['AfterNEnvironmentStateUpdates', 'AtEnvironmentStateUpdate']), R.randint(1, 3), R.choice([SEQ, LIFE])]
        if fam == 'comp':
            f = [x for x in ('pass', 'cse', 'calls', 'all', 'state')]
            return [R.choice(['All', 'Any'])] + [self.term_cond(s, R.choice(f), seq) for _ in range(2)]
        if fam == 'nwhen':
            self.uid += 1
            return ['NWhen', self.term_cond(s, R.choice(['pass', 'cse', 'calls']), seq), self.big() or R.randint(1, 2), self.uid]
        if fam == 'never':
            return ['Never']
        if fam == 'always':
            return ['Always']
        if fam == 'abs':
            if R.random() < .8:
                return ['TT', self.q(R.choice([0, 2, 3, 5, 7, 10, 20] if not self.p.get('absbig') else [30, 100, 128, 255, 400])), self.chance(.7)]
            return ['TI', self.q(R.choice([2, 3, 5])), self.q(R.choice([3, 6, 10])) if self.kf_ok_term else None, None, True, True]
        raise ValueError(fam)

    kf_ok_term = False

    def term(self, s):
        t = {}
        fams = dict(self.p.terms)
        if self.abs:
            fams['abs'] = 4
        if not self.use_nwhen:
            fams.pop('nwhen', None)
        if self.chance(.85):
            t[str(ESU)] = self.maybe_trap(self.term_cond(s, self.w(fams)), .1)
        if not t or self.chance(.25):
            f2 = {k: v for k, v in fams.items() if k not in ('nwhen', 'abs')}
            t[str(SEQ)] = self.maybe_trap(self.term_cond(s, self.w({**f2, 'esu': 3}), True), .1)
        return t

    def tkeys(self):
        return self.R.choice(['enum', 'enum', 'upper', 'lower', 'title'])

    def maybe_trap(self, c, p):
        if not self.use_traps or not self.chance(p):
            return c
        tid = len(self.traps)
        how = self.R.choice(['condition', 'condition', 'user function', 'node', 'getter'])
        exc = self.R.choice(EXCS)
        if how == 'node' and exc == 'attr':
            exc = 'val'
        self.traps[str(tid)] = {'exc': exc, 'how': how}
        return ['Trap', tid, c]

    # ------------------------------------------------------------ schedulers
    def node_specs(self, n):
        R = self.R
        kind = self.w(self.p.kinds)
        self.kind = kind
        style = R.choice(['seq', 'rev', 'collide', 'random', 'pair'])
        hs = {
            'seq': list(range(n)), 'rev': [n - i for i in range(n)],
            'collide': [7] * n, 'random': [R.randrange(-2, 64) for _ in range(n)],
            'pair': [i // 2 for i in range(n)],
        }[style]
        if kind == 'int':
            hs = R.sample([-2, -1, 0, 1, 2, 3, 8, 16, 1000, 10**6, 10**12, *(range(40, 80) if n > 8 else ())], n)
        return [{'k': kind, 'h': h} for h in hs]

    def sched(self, nodes, like=None):
        R = self.R
        p = self.p
        ns = list(nodes)
        R.shuffle(ns)
        d = 0 if self.chance(p.flat) else R.choice(p.density)
        order = list(ns)
        R.shuffle(order)
        e = []
        for i, c in enumerate(order):
            for q in order[:i]:
                if R.random() < d:
                    e.append([c, q])
        R.shuffle(e)
        s = {'n': ns, 'e': e, 'mode': 'S', 'conds': []}
        if like is not None and self.chance(.5):
            s['n'], s['e'] = list(like['n']), list(like['e'])
            R.shuffle(s['n'])
            R.shuffle(s['e'])
        if self.chance(p.exact):
            s['mode'] = 'E'
            if len(s['n']) > 7:
                # (one consideration set: the order in it is not determined)
                s['e'] = s['e'][:5]
        s['gform'] = R.choice(['dict', 'dict', 'dict', 'missing', 'missing', 'nx', 'nx', 'frozen', 'multi', 'sub', 'list', 'tuple', 'keys'])
        s['deid'] = self.w(p.deids)
        s['chow'] = R.choice(['dict', 'cset', 'cset2', 'list'])
        if self.abs and self.chance(.3):
            s['unit'] = self.q(R.choice([1, 2, 5]))
        return s

    def fill(self, s):
        p = self.p
        for n in sorted(s['n']):
            c = self.node_cond(s, n)
            if c is not None:
                s['conds'].append([n, c])
        self.R.shuffle(s['conds'])
        if self.chance(p.pterm):
            s['term'] = self.term(s)
            s['tkeys'] = self.tkeys()

    def node_cond(self, s, n):
        fams = {k: v for k, v in self.p.conds.items() if k in self.fams or k in ('none', 'const')}
        if not self.use_nwhen:
            fams.pop('nwhen', None)
        if self.abs:
            fams['abs'] = self.p.abs_weight if 'abs_weight' in self.p else 5
        fam = self.w(fams)
        if fam == 'none':
            if self.use_traps and self.chance(.3):
                return self.maybe_trap(['All'] + [['EveryNCalls', p, 1] for c, p in s['e'] if c == n], 1)
            return None
        c = self.cond(s, n, fam)
        if s['mode'] == 'E' or fam != 'nwhen':
            if fam != 'nwhen':
                c = self.maybe_trap(c, .35)
        return c

    # ------------------------------------------------------------ plan
    def plan(self):
        R = self.R
        p = self.p
        self.abs = self.chance(p.abs)
        self.kf_safe = False
        self.unit = R.choices([u for u, _ in self.UNITS], [w for _, w in self.UNITS])[0]
        self.mixed = self.chance(.3)
        self.factor = R.choice(self.FACTORS)
        self.use_traps = self.chance(p.traps)
        self.use_nwhen = not self.use_traps
        # swarm: a random subset of the families of conditions
        fams = [f for f in p.conds if f not in ('none', 'const')]
        self.fams = set(f for f in fams if R.random() < .6) or set(fams and [R.choice(fams)])
        ns = R.choice(p.nsched)
        self.count = n = R.choice(p.nnodes)
        plan = {'nodes': self.node_specs(n), 'scheds': [], 'ops': []}
        for i in range(ns):
            nodes = list(range(n))
            if i and self.chance(.5):
                nodes = R.sample(nodes, R.randint(1, n))
            s = self.sched(nodes, plan['scheds'][-1] if i and len(nodes) == n else None)
            plan['scheds'].append(s)
            self.fill(s)
        self.scheds = plan['scheds']
        self.eids = [R.choice(p.eids) for _ in range(ns)]
        ops = {k: v for k, v in p.ops.items()}
        # swarm: some operations are absent from a plan
        for k in list(ops):
            if k not in p.get('keep', ('go', 'world')) and R.random() < .35:
                del ops[k]
        if not self.use_traps:
            ops.pop('arm', None)
        self.ops = ops
        out = plan['ops']
        self.nws = []
        self.nkey = 0
        self.keys = []
        if p.get('initstructs'):
            for si, s in enumerate(plan['scheds']):
                if self.chance(p.initstructs):
                    s['structs'] = []
                    s['chow'] = R.choice(['dict', 'list', 'cset', 'cset', 'cset2', 'cset3'])
                    for _ in range(R.choice([1, 2, 2, 3, 5])):
                        owner, spec = self.struct(s)
                        self.nkey += 1
                        self.keys.append((si, self.nkey))
                        s['structs'].append([self.nkey, owner, spec])
        for _ in range(R.choice(p.nops)):
            for op in getattr(self, 'op_' + self.w(ops))():
                out.append(op)
        if self.chance(p.dense):
            plan['dense'] = True
        if self.traps:
            plan['traps'] = self.traps
        for k in ('fullclock', 'lazygraph'):
            if p.get(k) and self.chance(p[k]):
                plan[k] = True
        if p.get('heal') and self.chance(p['heal']):
            out += self.op_progress()
        return plan

    def ctx(self):
        si = self.R.randrange(len(self.scheds))
        return si, self.R.choice(self.eids[si])

    def opts(self, si, tok):
        p = self.p
        o = {}
        if self.chance(p.pterm_run):
            o['term'] = self.term(self.scheds[si])
            o['tkeys'] = self.tkeys()
        if self.chance(p.skip):
            o['skip'] = True
        if self.chance(p.base) and not self.use_nwhen:
            o['base'] = self.R.choice(self.eids[si] + ['y'])
        if self.chance(p.kw):
            o['kw'] = {'extra': self.R.choice([1, 'e', 5])}
        return o

    def op_go(self):
        si, tok = self.ctx()
        k = self.R.choice(self.p.steps)
        return [['go', si, tok, k, self.opts(si, tok)]]

    def op_close(self):
        return [['close', *self.ctx()]]

    def op_throw(self):
        return [['throw', *self.ctx(), self.R.choice(EXCS)]]

    def op_drop(self):
        return [['drop', *self.ctx(), self.R.choice(['live', 'abandoned'])]]

    def op_abandon(self):
        return [['abandon', *self.ctx()]]

    def op_endseq(self):
        return [['endseq', *self.ctx()]]

    def op_world(self):
        R = self.R
        si, tok = self.ctx()
        e = R.choice(['*', '*', self.realtok(si, tok)])
        k = R.choice(['fin', 'flag', 'flag', 'val'])
        if k == 'flag':
            return [['world', 'flag', R.choice(['f', 'g', 'h']), e, self.chance(.6)]]
        n = R.randrange(self.count)
        if k == 'fin':
            return [['world', 'fin', n, e, self.chance(.6)]]
        return [['world', 'val', n, e, R.choice([0, 1, 2, .5, 1.5, 3, -1, -1.5, -.5, -2])]]

    def realtok(self, si, tok):
        return self.scheds[si]['deid'] if tok == 'd' else tok

    def op_arm(self):
        if not self.traps:
            return []
        si, tok = self.ctx()
        t = int(self.R.choice(list(self.traps)))
        res = [['world', 'trap', t, self.R.choice(['*', self.realtok(si, tok)]), True]]
        # let the run that is to fail have executions in flight
        res.append(['go', si, tok, self.R.choice([1, 2, 3]), self.opts(si, tok)])
        return res

    def op_cond(self):
        si = self.R.randrange(len(self.scheds))
        s = self.scheds[si]
        pairs = []
        for n in self.R.sample(s['n'], self.R.choice([1, 1, 1, min(2, len(s['n']))])):
            c = self.node_cond(s, n)
            if c is None:
                c = self.cond(s, n, self.R.choice(['every', 'const']))
            pairs.append([n, c])
        return [['cond', si, pairs, self.R.choice(['add', 'dict', 'list', 'cset', 'cs_add', 'cs_dict', 'cs_item'] + ['warn'] * self.p.get('warn', 0))]]

    def op_rm(self):
        si = self.R.randrange(len(self.scheds))
        n = self.R.choice(self.scheds[si]['n'])
        how = self.R.choice(['owner', 'obj', 'obj', 'cowner', 'cobj', 'stale', 'unowned', 'unknown', 'foreign'])
        pre = []
        if self.chance(.6):
            # removal is for the time between runs
            pre = [['close', si, t] for t in self.eids[si]]
        return pre + [['rm', si, n, how]]

    def op_readd(self):
        si = self.R.randrange(len(self.scheds))
        res = []
        if self.chance(.6):
            n = self.R.choice(self.scheds[si]['n'])
            if self.chance(.6):
                res += [['close', si, t] for t in self.eids[si]]
                res.append(['rm', si, n, self.R.choice(['owner', 'obj', 'cobj'])])
            else:
                res += [['cond', si, [[n, self.cond(self.scheds[si], n, self.R.choice(['every', 'const']))]], 'add']]
        res.append(['readd', si, self.R.choice(self.scheds[si]['n']), self.R.randrange(6), self.chance(.4)])
        return res

    def op_term(self):
        si = self.R.randrange(len(self.scheds))
        if self.chance(.25):
            return [['term', si, None, 'enum']]
        return [['term', si, self.term(self.scheds[si]), self.tkeys()]]

    def op_badterm(self):
        return [['badterm', self.R.randrange(len(self.scheds)), self.R.choice(['value', 'key', 'struct'])]]

    def op_refuse(self):
        from .refuse import KINDS
        si, tok = self.ctx()
        kind = self.R.choice(KINDS)
        spec = None
        if kind == 'noctx':
            s = self.scheds[si]
            spec = self.cond(s, self.R.choice(s['n']), self.R.choice(['time', 'call', 'every', 'just', 'all']))
        res = [['refuse', si, tok, kind, self.R.randrange(10**4), spec]]
        if kind == 'runbase' and not self.use_nwhen and self.chance(.7):
            # a new context, refused and then from a base that exists
            new = f'e{self.R.randrange(40)}'
            base = self.R.choice(self.eids[si])
            o = self.opts(si, new)
            o['base'] = base
            res = [['go', si, base, self.R.choice([1, 3, 6]), self.opts(si, base)],
                   ['refuse', si, new, kind, self.R.randrange(10**4), spec],
                   ['go', si, new, self.R.choice([1, 2, 4]), o]]
            s = self.scheds[si]
            for _ in range(2):
                res.append(['probe', si, new, self.R.choice(s['n']), ['AfterNCalls', self.R.choice(s['n']), '*', self.R.choice([LIFE, SEQ])]])
        return res

    def op_probe(self):
        si, tok = self.ctx()
        s = self.scheds[si]
        owner = self.R.choice(s['n'])
        res = []
        for _ in range(self.R.choice([1, 2, 3])):
            fam = self.w(self.p.probe)
            c = self.cond(s, owner, fam, star=True)
            res.append(['probe', si, tok, owner, c])
        return res

    def op_obs(self):
        si = self.R.randrange(len(self.scheds))
        return [['obs', si, self.R.choice(['graph', 'str', 'clock', 'conds', 'vars', 'bad'])]]

    def op_gc(self):
        return [['gc']]

    def op_wall(self):
        return [['wall', self.R.choice([1, -3600, 10**6, -10**7])]]

    def op_log(self):
        return [['log', self.chance(.5)]]

    def op_check(self):
        return [['check']]

    def op_mutin(self):
        si = self.R.randrange(len(self.scheds))
        return [['mutin', si, self.R.choice(['graph', 'conds', 'term'])]]

    def op_compo(self):
        si, tok = self.ctx()
        s = self.scheds[si]
        owner = self.R.choice(s['n'])
        fams = self.fams
        self.fams = {'time', 'call', 'every', 'just', 'all', 'state', 'const', 'comp'}
        c = self.cond(s, owner, 'comp')
        self.fams = fams

        def some_nwhen(x):
            if x[0] in ('All', 'Any', 'Not'):
                return [x[0]] + [some_nwhen(q) for q in x[1:]]
            if self.chance(.15):
                self.uid += 1
                return ['NWhen', x, self.R.choice([0, 1, 2]), self.uid]
            return x
        c = some_nwhen(c)
        return [['compo', si, tok, owner, c]]

    def op_nweval(self):
        si, tok = self.ctx()
        s = self.scheds[si]
        have = [u for u in self.nws if u[0] == si]
        if not have or self.chance(.25):
            self.uid += 1
            fams = self.fams
            self.fams = {'time', 'call', 'just', 'all', 'state', 'const'}
            c = self.cond(s, s['n'][0], self.R.choice(['time', 'call', 'state', 'state', 'const', 'just']), 1)
            self.fams = fams
            have = [(si, self.uid, c, self.R.choice([0, 1, 1, 2, 3]))]
            self.nws.append(have[0])
        u = self.R.choice(have)
        return [['nweval', si, self.R.choice(self.eids[si]), u[1], u[2], u[3]]
                for _ in range(self.R.choice([1, 1, 2]))]

    def op_progress(self):
        si, tok = self.ctx()
        o = self.opts(si, tok)
        o.pop('term', None)
        R = self.R
        if self.chance(.6):
            s = self.scheds[si]
            o['term'] = {str(ESU): R.choice([
                ['AllHaveRun', [], ESU], ['AllHaveRun', [R.choice(s['n'])], ESU],
                ['AfterNCalls', R.choice(s['n']), R.randint(1, 3), ESU],
                ['AfterNPasses', R.randint(1, 4), ESU]])}
            o['tkeys'] = self.tkeys()
        return [['progress', si, tok, o]]

    ALIASES = ['TRIAL', 'RUN', 'TIME_STEP', 'SWEEP', 'EXISTENCE', 'EPOCH', 'BLOCK', 'TICK_TOCK', 'RUN_ALL', 'BLOCK_OF_RUN', 'TICK']

    def op_alias(self):
        R = self.R
        what = R.choice(['set', 'set', 'set', 'bad', 'rm', 'rm'])
        names = self.p.get('aliases', self.ALIASES)
        if what == 'bad':
            return [['alias', 'bad', R.choice(['Q', 'NO_SCALE', 'TRIAL_B']), R.randrange(5)]]
        return [['alias', what, R.choice(names), R.randrange(5)]]

    # ------------------------------------------------------------ structure
    def struct(self, s):
        R = self.R
        ns = s['n']
        owner = R.choice(ns)
        others = [n for n in ns if n != owner]
        if not others:
            return owner, ['Custom', 'clear', owner, owner]
        if self.chance(.03):
            return -1, [R.choice(['AddEdgeTo', 'RemoveEdgeFrom', 'BeforeNode', 'AfterNode', 'WithNode']), owner]
        k = self.w(self.p.structs)
        sub = R.choice(others)
        if self.chance(.04):
            return owner, ['AddEdgeTo', R.choice([-1, owner])]
        if k in ('AddEdgeTo', 'RemoveEdgeFrom'):
            if k == 'RemoveEdgeFrom':
                ps = [p for c, p in s['e'] if c == owner]
                if ps and self.chance(.7):
                    sub = R.choice(ps)
            elif self.chance(.8):
                # with the order of the base graph, mostly
                from .model import layers_of
                lay = layers_of({n: {p for c, p in s['e'] if c == n} for n in ns})
                ix = {n: i for i, l in enumerate(lay) for n in l}
                if ix[sub] < ix[owner]:
                    owner, sub = sub, owner
            return owner, [k, sub]
        if k == 'Custom':
            what = R.choice(['add', 'clear', 'fail', 'failif', 'clear'])
            return owner, ['Custom', what, owner, sub]
        opts = {}
        if self.chance(self.p.structops):
            O = ['KEEP', 'REPLACE', 'DISCARD', 'INTERSECTION', 'UNION', 'MERGE', 'DIFFERENCE',
                 'INVERSE_DIFFERENCE', 'SYMMETRIC_DIFFERENCE']
            names = ['owner_receivers', 'subject_receivers']
            if k != 'WithNode':
                names += ['owner_senders', 'subject_senders']
            def form():
                o = R.choice(O)
                return R.choice([o, o, o.lower(), '=' + o, '=' + o, '*' + o])
            ss = R.sample(others, R.randint(1, len(others))) if k.endswith('s') else [sub]
            for nm in names:
                if self.chance(.5):
                    opts[nm] = form()
                    if nm[0] == 's' and self.chance(.3):
                        opts[nm] = {str(n): form() for n in ss if not self.chance(.05)}
                        if self.chance(.05):
                            opts[nm][str(R.choice(ns))] = form()
            if self.chance(.6):
                opts['ignore_conflicts'] = True
            for nm in ('reconnect_non_subject_receivers', 'prune_cycles', 'remove_new_self_referential_edges'):
                if self.chance(.2):
                    opts[nm] = False
            if k.endswith('s'):
                return owner, [k, ss, opts]
        if k.endswith('s'):
            return owner, [k, R.sample(others, R.randint(1, len(others))), opts]
        return owner, [k, sub, opts]

    def op_struct(self):
        si = self.R.randrange(len(self.scheds))
        owner, spec = self.struct(self.scheds[si])
        self.nkey += 1
        self.keys.append((si, self.nkey))
        pre = [['close', si, t] for t in self.eids[si]] if self.chance(.7) else []
        return pre + [['struct', si, self.nkey, owner, spec, self.R.choice(['add', 'add', 'edge', 'dict', 'list', 'cset', 'cs_add', 'cs_add', 'item'])]]

    def op_mode(self):
        si = self.R.randrange(len(self.scheds))
        s = self.scheds[si]
        unit = None
        mode = self.R.choice(['S', 'E', 'E'])
        if mode == 'E' and len(s['n']) > 7:
            mode = None
        if self.abs and self.chance(.4):
            unit = self.q(self.R.choice([1, 2, 5]))
        return [['close', si, t] for t in self.eids[si]] + [['mode', si, mode, unit]]

    def op_rmstruct(self):
        if not self.keys:
            return []
        si, key = self.R.choice(self.keys[-4:] if self.chance(.6) else self.keys)
        pre = [['close', si, t] for t in self.eids[si]] if self.chance(.7) else []
        return pre + [['rmstruct', si, key, self.R.choice(['obj', 'obj', 'obj', 'owner'])]]

    def op_getgraph(self):
        return [['getgraph', self.R.randrange(len(self.scheds))]]

    def op_bulk(self):
        R = self.R
        si = R.randrange(len(self.scheds))
        s = self.scheds[si]
        items = []
        for _ in range(R.choice([2, 3, 4, 6])):
            if self.chance(.4):
                n = R.choice(s['n'])
                c = self.node_cond(s, n)
                if c is not None:
                    items.append([n, None, c])
            else:
                owner, spec = self.struct(s)
                self.nkey += 1
                self.keys.append((si, self.nkey))
                items.append([owner, self.nkey, spec])
        pre = [['close', si, t] for t in self.eids[si]] if self.chance(.8) else []
        return pre + [['bulk', si, items, R.choice(['dict', 'list', 'cset', 'cset', 'cset2', 'cset3']), self.chance(.3)]]

    def op_replace(self):
        si = self.R.randrange(len(self.scheds))
        s = self.scheds[si]
        conds = []
        for n in s['n']:
            if self.chance(.4):
                c = self.node_cond(s, n)
                if c is not None:
                    conds.append([n, c])
            elif self.chance(.4):
                conds.append([n, None])
        structs = []
        if self.chance(.6):
            # some of the conditions there are, in some order
            mine = [k for i, k in self.keys if i == si]
            structs = [[k, None, None] for k in self.R.sample(mine, self.R.randint(0, len(mine)))]
            if self.chance(.5):
                structs.sort(key=lambda x: x[0])
        for _ in range(self.R.choice([0, 0, 1, 2])):
            owner, spec = self.struct(s)
            self.nkey += 1
            self.keys.append((si, self.nkey))
            structs.insert(self.R.randint(0, len(structs)), [self.nkey, owner, spec])
        pre = [['close', si, t] for t in self.eids[si]] if self.chance(.7) else []
        return pre + [['replace', si, conds, structs]]
