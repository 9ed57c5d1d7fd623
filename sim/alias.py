"""Aliases of time scales: what the public names must be."""
from .lib import gs, TS
from .world import camel

CLASSES = [gs.TimeScale, gs.Time, gs.SimpleTime]


def _names():
    return {
        'graph_scheduler': set(vars(gs)),
        'graph_scheduler.condition': set(vars(gs.condition)),
        'graph_scheduler.__all__': sorted(gs.__all__),
        'graph_scheduler.condition.__all__': sorted(gs.condition.__all__),
        'TimeScale': {n for n in vars(gs.TimeScale) if not n.startswith('_')},
        'TimeScale members': [(t.name, t.value) for t in gs.TimeScale],
        'Time': {n for n in dir(gs.Time) if not n.startswith('_')},
        'SimpleTime': {n for n in dir(gs.SimpleTime) if not n.startswith('_')},
    }


BASE = _names()
# private names and the documentation are not part of the public names
for _k in ('graph_scheduler', 'graph_scheduler.condition'):
    BASE[_k] = {n for n in BASE[_k] if not n.startswith('_')}
OBJECTS = {n: getattr(gs, n) for n in gs.__all__}


def derived(aliases):
    """{alias name of a class: its name}"""
    res = {}
    for a, t in aliases.items():
        seg = camel(TS[t].name)
        for n in OBJECTS:
            if seg in n:
                res[n.replace(seg, camel(a))] = n
    return res


def check(sim):
    al = sim.env.aliases
    d = derived(al)
    want = {k: (set(v) if isinstance(v, set) else list(v)) for k, v in BASE.items()}
    for n in d:
        want['graph_scheduler'].add(n)
        want['graph_scheduler.condition'].add(n)
        want['graph_scheduler.__all__'].append(n)
        want['graph_scheduler.condition.__all__'].append(n)
    for a in al:
        want['TimeScale'].add(a)
        want['Time'].add(a.lower())
        want['SimpleTime'].add(a.lower())
    got = _names()
    for k in want:
        w, g = want[k], got[k]
        if k in ('graph_scheduler', 'graph_scheduler.condition'):
            g = {n for n in g if not n.startswith('_')}
        if isinstance(w, list):
            if sorted(w) != sorted(g):
                sim.fail('alias', f'{k} is {sorted(set(g) ^ set(w)) or "not in order"} off, aliases {al}')
        else:
        
            if w != g:
                sim.fail('alias', f'{k} has the names {sorted(g - w)} too many and {sorted(w - g)} too few, aliases {al}')
    for n, o in OBJECTS.items():
        if getattr(gs, n) is not o:
            sim.fail('alias', f'{n} is no longer the object it was')
        if n in vars(gs.condition) and n in BASE['graph_scheduler.condition.__all__'] and getattr(gs.condition, n) is not o:
            sim.fail('alias', f'condition.{n} is no longer the object it was')
    for n, o in d.items():
        if getattr(gs, n) is not OBJECTS[o] or getattr(gs.condition, n) is not OBJECTS[o]:
            sim.fail('alias', f'{n} is not {o}')
    for a, t in al.items():
        if getattr(gs.TimeScale, a) is not TS[t]:
            sim.fail('alias', f'TimeScale.{a} is {getattr(gs.TimeScale, a)}')
        x = gs.Time(*range(11, 16))
        attr = {1: 'pass_'}.get(t, TS[t].name.lower())
        setattr(x, a.lower(), 5)
        if getattr(x, attr) != 5 or x[TS[t]] != 5:
            sim.fail('alias', f'setting {a.lower()} of a time does not set {attr}')
        if [x[q] for q in TS] != [5 if i == t else 11 + i for i in range(5)]:
            sim.fail('alias', f'setting {a.lower()} of a time changes more than {attr}: {x!r}')
        setattr(x, attr, 6)
        if getattr(x, a.lower()) != 6:
            sim.fail('alias', f'{a.lower()} of a time is {getattr(x, a.lower())}, {attr} is 6')
        y = gs.Time(**{a.lower(): 3})
        if getattr(y, attr) != 3:
            sim.fail('alias', f'Time({a.lower()}=3) has {attr} {getattr(y, attr)}')
        if t in (0, 2, 3) and getattr(gs.SimpleTime(y), a.lower()) != 3:
            sim.fail('alias', f'{a.lower()} of a simple time is not {attr}')
        if f'{a.lower()}: 3' not in repr(y) and t != 4:
            sim.fail('alias', f'{y!r} does not show {a.lower()}')
    for v in sim.views:
        for eid in v.m.ctx:
            clk = v.s.clocks.get(sim.env.eid(eid))
            if clk is None:
                continue
            for a, t in al.items():
                if getattr(clk.time, a.lower()) != clk.time[TS[t]]:
                    sim.fail('alias', f'{a.lower()} of the time of a clock is {getattr(clk.time, a.lower())}')


def apply(sim, what, name, ts):
    al = sim.env.aliases
    if what == 'set':
        if name in al:
            sim.expect('ValueError', 'set_time_scale_alias', gs.set_time_scale_alias, name, TS[ts])
            sim.fault('refused alias')
        elif ts in al.values():
            return
        else:
            target = TS[ts] if len(name) % 2 else TS[ts].name
            sim.real('set_time_scale_alias', gs.set_time_scale_alias, name, target)
            al[name] = ts
            sim.fault('alias set')
    elif what == 'bad':
        if name in al:
            return
        sim.expect('ValueError', 'set_time_scale_alias', gs.set_time_scale_alias, name, 'NO_SUCH_SCALE')
        sim.fault('refused alias')
    else:
        sim.real('remove_time_scale_alias', gs.remove_time_scale_alias, name)
        if al.pop(name, None) is not None:
            sim.fault('alias removed')
        else:
            sim.fault('removal of an alias that is not set')
    sim.note('alias', what, name, ts)
    check(sim)
