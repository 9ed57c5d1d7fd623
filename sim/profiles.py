"""What is simulated for each property: campaigns of (share, type of plan,
profile), and the kinds of violations that are not about the property."""
from .gen import profile

STRUCTS = {'BeforeNode': 3, 'AfterNode': 3, 'WithNode': 2, 'BeforeNodes': 1.5, 'AfterNodes': 1.5,
           'AddEdgeTo': 2, 'RemoveEdgeFrom': 2, 'Custom': 1}

INTERRUPT = {'close': 1, 'throw': 1, 'drop': .5, 'abandon': .7}

p01 = profile()
p01x = profile(abs=.5, exact=.4, nnodes=[1, 2, 3, 4], _ops={'mode': .4})
p01d = profile(traps=0, flat=.05, nnodes=[3, 4, 5, 6], density=[.2, .3, .5],
               conds={'none': 2, 'every': 5, 'call': 3, 'just': 2, 'all': 1, 'comp': 2},
               _ops={'world': 0, 'cond': .3, 'rm': .1})

# one consideration set, in which executions let other nodes execute
p01f = profile(traps=0, flat=.8, nnodes=[4, 5, 6, 7], density=[.1], nops=[3, 6], pterm=.8, steps=[2, 3, 5],
               conds={'none': .7, 'every': 6, 'call': 3, 'time': 1.5, 'comp': 1}, compfams=['every', 'call', 'time'],
               terms={'pass': 1}, _ops={'world': 0, 'probe': 0, 'obs': 0})

# larger graphs, longer runs, more contexts
BIG = dict(near=True, bign=.4, traps=0, nnodes=[8, 10, 14, 20, 32], density=[.02, .05, .1, .2, .4], nops=[4, 8, 12],
           steps=[5, 20, 60, 150], flat=.1, probe={'time': 2, 'call': 1, 'all': 1, 'just': 1},
           conds={'none': 8, 'every': 2, 'time': 2, 'call': 1, 'just': .5}, terms={'pass': 4, 'cse': 2, 'calls': 2, 'esu': 1},
           dense=.1, eids=[['d'], ['d', 'x']])
p01b = profile(**BIG)
p02b = profile(**{**BIG, 'nnodes': [1, 2, 3, 5], 'eids': [['d'] + [f'e{i}' for i in range(n)] for n in (6, 15, 40)],
                  'nops': [40, 80, 150], 'steps': [1, 1, 2, 3, 5], 'bign': .1}, base=.4, _ops={**INTERRUPT, 'endseq': 1})
p02c = profile(**{**BIG, 'nnodes': [1, 2], 'eids': [['d'] + [f'e{i}' for i in range(n)] for n in (80, 140)],
                  'nops': [300], 'steps': [1, 2], 'bign': 0}, base=.2, _ops={'endseq': .5})
p04b = profile(**{**BIG, 'nnodes': [1, 2, 3], 'nops': [80, 150], 'steps': [1, 3, 8, 20], 'dense': 0}, skip=.2,
               _ops={**INTERRUPT, 'endseq': 2.5, 'check': .5, 'probe': .5})

p02 = profile(eids=[['d', 'x'], ['d', 'x', 'y'], ['x', 'y', 'z'], ['d', 'i', 'o'], ['d', 'f'], ['f', 'q', 'n']], base=.35, traps=.4,
              nops=[12, 20, 30], steps=[1, 1, 1, 1, 2, 3], abs=.25, nnodes=[1, 2, 3, 3, 4],
              _ops={**INTERRUPT, 'go': 14, 'endseq': 1.2, 'world': 2})
p02t = profile(eids=[['d', 'x'], ['x', 'y'], ['d', 'x', 'y'], ['d', 'q'], ['f', 'n']], base=0, traps=.3, nops=[10, 20],
               steps=[1, 1, 2], abs=.25, _ops={**INTERRUPT, 'cond': 0, 'rm': 0, 'term': 0})

p03 = profile(nsched=[2, 2, 2, 3, 3, 8], eids=[['d'], ['d', 'x']], steps=[1, 1, 1, 2], abs=.25, nops=[12, 20, 30],
              kinds={'sim': 3, 'str': 3, 'int': 2, 'eq': 4, 'tup': 1, 'frz': 1},
              _ops={'mutin': 1, 'go': 12, 'obs': 1, 'cond': 1, 'rm': .5})
p03s = profile(nsched=[2, 3], eids=[['d']], nnodes=[2, 3, 4], structs=STRUCTS, structops=.3, flat=.05,
               initstructs=.3,
               kinds={'sim': 2, 'str': 3, 'eq': 4}, traps=0, keep=('go', 'struct'),
               conds={'none': 8, 'every': 1, 'time': 1},
               _ops={'struct': 4, 'rmstruct': 1.5, 'replace': .5, 'getgraph': 1, 'mutin': 1, 'go': 5})
p03t = profile(nsched=[2], eids=[['d'], ['d', 'x']], steps=[1, 2, 3, 5], abs=.2, nops=[5, 10], nnodes=[2, 3, 4],
               kinds={'sim': 2, 'str': 3, 'int': 1, 'eq': 3}, _ops={'obs': 1, 'gc': 0, 'wall': 0})

p04 = profile(fullclock=.7, traps=.5, skip=.25, base=.2, nops=[12, 20, 30], eids=[['d'], ['d', 'x'], ['x', 'y'], ['d', 'f']],
              dense=.8, abs=.1, _ops={**INTERRUPT, 'endseq': 2, 'obs': 1, 'check': 1, 'probe': 0})

p05 = profile(conds={'none': 3, 'call': 5, 'every': 4, 'just': 3, 'all': 2, 'comp': 1}, skip=.2,
              compfams=['call', 'every', 'just', 'all', 'call'],
              probe={'call': 4, 'every': 3, 'just': 2, 'all': 2},
              terms={'pass': 3, 'cse': 2, 'calls': 4, 'all': 3}, traps=.3,
              _ops={'probe': 5, 'endseq': 1.5, **INTERRUPT, 'world': 0})

p06 = profile(conds={'none': 3, 'time': 6, 'comp': 1}, compfams=['time', 'time', 'const'],
              probe={'time': 1}, terms={'pass': 3, 'cse': 3, 'esu': 3, 'calls': 1}, skip=.2, traps=.2,
              _ops={'probe': 5, 'endseq': 2, **INTERRUPT, 'world': 0})

p07 = profile(pterm=.8, pterm_run=.6, skip=.15, steps=[1, 1, 2, 3, 5, 12, 12], dense=.6, abs=.15,
              conds={'none': 6, 'every': 2, 'call': 1, 'time': 1, 'state': 1, 'const': .5},
              terms={'pass': 3, 'cse': 3, 'calls': 3, 'all': 3, 'state': 2, 'esu': 2, 'comp': 2, 'nwhen': .5,
                     'never': .7, 'always': .5},
              _ops={'term': 2, 'badterm': .5, 'endseq': 1, 'cond': .3, 'rm': .1, 'probe': 0})

p08 = profile(traps=1, exact=.15, abs=.3, nops=[12, 20, 30], eids=[['d'], ['d', 'x'], ['x', 'y'], ['d', 'f']],
              keep=('go', 'world', 'arm'), steps=[1, 1, 2, 2, 3, 5],
              _ops={'arm': 5, 'close': 2, 'throw': 2, 'drop': 1, 'abandon': 1, 'world': 1.5, 'probe': .7})

p09 = profile(own=.3, traps=.2, nops=[12, 20, 30], keep=('go', 'cond', 'rm'), steps=[1, 1, 2, 2, 3, 5],
              eids=[['d'], ['d', 'x']], kinds={'sim': 3, 'str': 3, 'int': 2, 'eq': 2, 'tup': 1, 'frz': 1},
              _ops={'cond': 4, 'rm': 3, 'readd': 2.5, 'term': 0, 'world': 1})
p09s = profile(traps=0, nops=[12, 20, 30], keep=('go', 'cond', 'rm', 'struct'), eids=[['d']], flat=.05,
               structs=STRUCTS, structops=.2, nnodes=[2, 3, 4],
               conds={'none': 5, 'every': 2, 'time': 1, 'const': 1},
               _ops={'cond': 3, 'rm': 2, 'readd': 1.5, 'struct': 2.5, 'rmstruct': 1.5, 'replace': 1.2, 'bulk': 1.5, 'go': 6}, initstructs=.3)

p10 = profile(nnodes=[2, 3, 4, 5, 6], flat=.05, structs=STRUCTS, structops=.3, nops=[6, 12, 20],
              initstructs=.3, _ops={'struct': 6, 'rmstruct': 3, 'replace': 1.2, 'bulk': 1.2, 'getgraph': .7, 'go': 5, 'world': 0, 'mode': .4},
              keep=('go', 'struct'), conds={'none': 8, 'every': 1, 'time': 1}, eids=[['d'], ['d', 'x']],
              lazygraph=.3, traps=0)
p11 = profile(nnodes=[2, 3, 3, 4, 4, 5, 6], flat=.05, structs=STRUCTS, structops=.3, nops=[3, 6, 12],
              _ops={'struct': 7, 'rmstruct': 1, 'go': 5, 'world': 0, 'getgraph': .3},
              keep=('go', 'struct'), conds={'none': 9, 'every': 1}, eids=[['d']], traps=0,
              kinds={'sim': 3, 'str': 3, 'int': 2, 'eq': 3, 'tup': 1, 'frz': 1})

p12 = profile(abs=1, abs_weight=6, exact=.35, traps=.15, eids=[['d'], ['d', 'x']],
              _ops={'endseq': 1, 'probe': .7, 'mode': .6})

p12o = profile(abs=1, abs_weight=12, exact=.35, traps=0, eids=[['d'], ['d', 'x']], nnodes=[1, 2, 3, 4],
               conds={'none': 1}, pterm=.9, terms={'pass': 1}, steps=[3, 5, 12, 12],
               _ops={'endseq': 1, 'probe': 0, 'cond': .2, 'rm': .2, 'world': 0, 'mode': .5})

p13 = profile(conds={'none': 1}, traps=0, nnodes=[1, 2, 3, 4, 5, 6, 7, 8], pterm=.4,
              terms={'pass': 3, 'cse': 2, 'calls': 3, 'all': 3}, kinds={'sim': 4, 'str': 3, 'int': 3, 'eq': 3, 'tup': 2, 'frz': 2},
              density=[.1, .2, .3, .5, .7, 1.0], _ops={'cond': 0, 'rm': 0, 'probe': 0, 'world': 0}, eids=[['d'], ['d', 'x']])
p13s = profile(conds={'none': 8, 'every': 1, 'const': .5}, traps=0, nnodes=[2, 3, 4, 5], structs=STRUCTS, structops=.2,
               flat=.1, _ops={'struct': 2, 'rmstruct': 1.5, 'cond': 1.5, 'rm': 1.5, 'bulk': .8, 'go': 8, 'world': 0, 'probe': 0}, initstructs=.3)
p13v = profile(traps=0, abs=.2, nnodes=[2, 3, 4, 5, 6], conds={'none': 5, 'every': 2, 'time': 1.5, 'call': 1.5, 'state': 1, 'comp': 1},
               _ops={'obs': 0, 'probe': 0, 'mutin': 0})

p14 = profile(traps=.5, nops=[6, 12, 20], keep=('go', 'world', 'progress'), flat=.1,
              conds={'none': 5, 'every': 3, 'state': 4, 'time': 1, 'call': 1.5, 'comp': 1},
              compfams=['every', 'state', 'state', 'time', 'call'],
              _ops={**INTERRUPT, 'progress': 2, 'world': 3, 'arm': 2, 'probe': 0, 'cond': .5}, heal=.8)

p15 = profile(nops=[12, 20, 30], abs=.2, dense=.5, eids=[['d'], ['d', 'x']], traps=.2, keep=('go', 'world', 'obs'),
              steps=[1, 1, 1, 2, 3],
              _ops={'obs': 5, 'log': 1.5, 'gc': .3, 'wall': 1, 'probe': 3, 'compo': 1})
p15t = profile(nops=[8, 14], abs=.2, eids=[['d'], ['d', 'x']], traps=.2, steps=[1, 1, 1, 2, 3],
               _ops={'obs': 4, 'log': 1.5, 'gc': 0, 'wall': 1, 'probe': 2})

p16 = profile(conds={'none': 3, 'comp': 6, 'nwhen': 3, 'time': 1, 'state': 1}, traps=.15, eids=[['d'], ['d', 'x'], ['x', 'y'], ['d', 'f']],
              abs=.1, exact=.1, keep=('go', 'world', 'compo', 'nweval'), own=.1,
              compfams=['time', 'call', 'every', 'just', 'all', 'state', 'const'],
              probe={'comp': 1}, _ops={'probe': 1, 'compo': 3, 'nweval': 3, 'world': 3, **INTERRUPT})

# time intervals as parts of conditions that move between nodes
p16a = profile(conds={'none': 3, 'comp': 8, 'nwhen': 2}, abs=1, abs_weight=2, exact=.15, traps=0, eids=[['d'], ['d', 'x']],
               compfams=['time', 'const', 'every'], keep=('go', 'cond', 'rm', 'readd'), nnodes=[2, 3, 4], flat=.1,
               _ops={'cond': 1.5, 'rm': 1.5, 'readd': 3, 'probe': 0, 'world': 0})

p17 = profile(conds={'none': 3, 'state': 7, 'comp': 1}, compfams=['state'], traps=.15, kw=.5, keep=('go', 'world'),
              kinds={'sim': 4, 'str': 2, 'int': 1, 'eq': 2}, eids=[['d'], ['d', 'x'], ['x', 'y'], ['d', 'f']], steps=[1, 1, 1, 2, 3],
              terms={'pass': 2, 'cse': 2, 'state': 5, 'calls': 1, 'all': 1}, probe={'state': 1}, nops=[12, 20, 30],
              _ops={'world': 10, 'probe': 3})

p18 = profile(nops=[8, 14, 22], keep=('go', 'alias'), traps=.1, abs=.1, kinds={'sim': 3, 'str': 3},
              conds={'none': 4, 'time': 4, 'call': 2, 'all': 1, 'comp': 1},
              probe={'time': 3, 'call': 1}, _ops={'alias': 6, 'term': 1.5, 'probe': 2, 'cond': 1, 'obs': 1})

p19 = profile(abs=.4, exact=.2, traps=.5, nops=[12, 20, 30], eids=[['d'], ['d', 'x'], ['x', 'y'], ['d', 'f']], base=.2,
              _ops={**INTERRUPT, 'check': 3, 'wall': 1, 'endseq': 1, 'term': .7, 'probe': 0})

p22 = profile(warn=6, abs=.2, exact=.1, nops=[12, 20, 30], eids=[['d'], ['d', 'x'], ['x', 'y'], ['d', 'f']], base=.2, traps=.1,
              keep=('go', 'refuse'), structs=STRUCTS, structops=.2, steps=[1, 1, 2, 3],
              _ops={**INTERRUPT, 'refuse': 10, 'struct': 1, 'rmstruct': .5, 'term': .5, 'badterm': .5, 'rm': .5, 'alias': .7, 'cond': 1.2})

# Kinds of violations that a campaign can meet but which are not about the
# property; a simulation that ends with one of them decides nothing.
OTHER = {
    'P01': {'inputs', 'date', 'conditions', 'alias'},
    'P02': {'inputs', 'alias'},
    'P04': {'inputs', 'date', 'conditions', 'graph', 'history'},
    'P05': {'inputs', 'date', 'graph', 'history'},
    'P06': {'inputs', 'date', 'graph', 'history'},
    'P07': {'graph', 'conditions'},
    'P12': {'inputs', 'date', 'graph', 'conditions'},
    'P16': {'inputs', 'date', 'graph', 'history'},
    'P17': {'inputs', 'date', 'graph', 'history'},
    'P19': {'inputs', 'graph', 'conditions'},
}

# long histories, large numbers
LONG = dict(near=True, bign=.5, nnodes=[1, 2, 3], nops=[4, 8, 12], steps=[5, 60, 150, 400], traps=0, dense=.1, flat=.2,
            eids=[['d'], ['d', 'x']])
p05b = profile(**LONG, conds={'none': 2, 'call': 4, 'every': 4, 'comp': 1}, compfams=['call', 'every', 'all'],
               probe={'call': 4, 'every': 3, 'all': 1}, terms={'pass': 1, 'cse': 2, 'calls': 3, 'never': 3}, pterm=.8,
               _ops={'probe': 3, 'world': 0, 'endseq': .5})
p06b = profile(**LONG, conds={'none': 3, 'time': 5, 'comp': 1}, compfams=['time', 'const'],
               probe={'time': 1}, terms={'pass': 2, 'cse': 3, 'esu': 1, 'never': 2}, pterm=.8, skip=.1,
               _ops={'probe': 4, 'world': 0, 'endseq': .7})
p16b = profile(**LONG, conds={'none': 2, 'nwhen': 5, 'comp': 2}, compfams=['time', 'every', 'const', 'call'],
               probe={'comp': 1}, terms={'pass': 2, 'cse': 3, 'calls': 1}, pterm=.8, keep=('go', 'nweval'),
               _ops={'nweval': 2, 'compo': 1, 'probe': 0})
p12b = profile(**{**LONG, 'bign': 0}, abs=1, abs_weight=6, absbig=True, exact=.35, conds={'none': 2}, terms={'pass': 1},
               pterm=.9, _ops={'endseq': 1, 'probe': 0, 'cond': .2, 'rm': .2, 'world': 0, 'mode': .5})
p14b = profile(**{**LONG, 'eids': [['d']], 'nnodes': [2, 3, 4], 'flat': 0, 'bign': .2, 'nops': [6, 10]},
               conds={'none': 3, 'every': 3, 'state': 3, 'time': 2, 'comp': 4}, compfams=['every', 'every', 'state'], keep=('go', 'world', 'progress'),
               pterm=.6, terms={'pass': 1, 'calls': 2, 'all': 2, 'never': .5}, _ops={**INTERRUPT, 'progress': 3, 'world': 3, 'probe': 0, 'cond': .5}, heal=.8)
p19b = profile(**{**LONG, 'steps': [60, 400, 1500]}, conds={'none': 5, 'time': 1, 'const': 1}, abs=.4, exact=.2,
               terms={'pass': 2, 'cse': 3}, pterm=.8, _ops={'check': 2, 'probe': 0, 'endseq': 1, 'world': 0, **INTERRUPT})

# property: [(share, type, profile)], number of plans of the quick check
CAMPAIGNS = {
    'P01': ([(6, 'sched', p01), (2, 'sched', p01x), (3, 'sched', p01d), (2, 'sched', p01f), (.3, 'sched', p01b)], 24000),
    'P02': ([(4, 'sched', p02), (1, 'twin', p02t), (.2, 'sched', p02b), (.06, 'sched', p02c)], 12000),
    'P03': ([(4, 'sched', p03), (2, 'sched', p03s), (1, 'twin', p03t), (.5, 'threads', p03t)], 10000),
    'P04': ([(1, 'sched', p04), (.05, 'sched', p04b), (.4, 'tree', {})], 16000),
    'P05': ([(1, 'sched', p05), (.03, 'sched', p05b)], 18000),
    'P06': ([(1, 'sched', p06), (.03, 'sched', p06b)], 18000),
    'P07': ([(1, 'sched', p07), (.02, 'sched', p05b)], 20000),
    'P08': ([(1, 'sched', p08)], 18000),
    'P09': ([(2, 'sched', p09), (1, 'sched', p09s)], 16000),
    'P10': ([(1, 'sched', p10)], 16000),
    'P11': ([(1, 'sched', p11)], 16000),
    'P12': ([(1, 'sched', p12), (1, 'sched', p12o), (.06, 'sched', p12b)], 11000),
    'P13': ([(2, 'sched', p13), (1, 'sched', p13s), (1, 'variant', p13v), (.15, 'sched', p01b), (.05, 'variant', p01b)], 14000),
    'P14': ([(1, 'sched', p14), (.03, 'sched', p14b)], 18000),
    'P15': ([(3, 'sched', p15), (1, 'bare', p15t), (1, 'repeat', p15t)], 12000),
    'P16': ([(1, 'sched', p16), (.35, 'sched', p16a), (.03, 'sched', p16b)], 20000),
    'P17': ([(1, 'sched', p17)], 18000),
    'P18': ([(1, 'sched', p18)], 12000),
    'P19': ([(1, 'sched', p19), (.04, 'sched', p04b), (.04, 'sched', p02b), (.03, 'sched', p19b)], 16000),
    'P20': ([(1, 'graphq', {})], 16000),
    'P21': ([(1, 'image', {})], 8000),
    'P22': ([(1, 'sched', p22)], 14000),
}
