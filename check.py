"""check.py PROPERTY [quick|thorough]     decide a property
check.py replay FILE                    replay a violation
check.py show PROPERTY INDEX            print a plan and its result

Environment: VERIF_SEED, VERIF_TIER, VERIF_JOBS, VERIF_REPO.
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim import plans, shrink  # noqa: E402
from sim.proc import HarnessError, isolated  # noqa: E402
from sim.profiles import CAMPAIGNS, OTHER  # noqa: E402

WALL = {'quick': 420, 'thorough': 3000}
FACTOR = {'quick': 1, 'thorough': 25}
REAL = 'all of graph_scheduler (scheduler, condition, time, utilities) with networkx, pint, numpy and toposort'
STUB = 'wall clock (simulated); nodes and user functions of the caller (simulated objects); thread scheduling (baton passed by the seeded scheduler)'
STUBS = {'P21': 'graphviz process; files opened for writing (fail as the plan says); nodes of the caller', 'P20': 'nodes of the caller'}


def seed_of(prop, tier, i):
    base = os.environ.get('VERIF_SEED', '1')
    # the quick tier is a prefix of the thorough tier
    return int(hashlib.sha256(f'{prop}:{base}:{i}'.encode()).hexdigest()[:15], 16)


def make(prop, tier, i):
    camps, _ = CAMPAIGNS[prop]
    seed = seed_of(prop, tier, i)
    total = sum(c[0] for c in camps)
    x = (seed >> 8) % 10007 / 10007 * total
    for share, typ, prof in camps:
        x -= share
        if x < 0:
            break
    plan = plans.make(typ, prof, seed)
    plan['seed_index'] = i
    # exactly what a replay file holds
    return json.loads(json.dumps(plan))


def counts(prop, res):
    v = res['violation']
    return v is not None and v['kind'] not in OTHER.get(prop, ())


class Totals:
    def __init__(self):
        self.runs = self.inconclusive = self.other = 0
        self.types = collections.Counter()
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.digests = set()
        self.nontrivial = set()
        self.states = set()
        self.errors = []
        self.violations = {}
        self.others = collections.Counter()

    def add(self, prop, i, plan, res):
        self.runs += 1
        self.types[plan['type']] += 1
        if res['inconclusive']:
            self.inconclusive += 1
        for k, v in res['stats'].items():
            if isinstance(v, dict):
                self.faults.update(v)
            else:
                self.stats[k] += v
        self.digests.add(res['digest'])
        if res['stats'].get('sets', 0) + res['stats'].get('probes', 0) >= 2:
            self.nontrivial.add(res['digest'])
        self.states.update(res.get('states', ()))
        if counts(prop, res):
            self.violations[i] = res['violation']
        elif res['violation']:
            self.other += 1
            self.others[res['violation']['kind']] += 1

    def dump(self):
        d = dict(self.__dict__)
        for k in ('digests', 'nontrivial', 'states'):
            d[k] = list(d[k])
        d['violations'] = list(d['violations'].items())
        return d

    def load(self, d):
        for k in ('runs', 'inconclusive', 'other'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('types', 'stats', 'faults', 'others'):
            getattr(self, k).update(d[k])
        for k in ('digests', 'nontrivial', 'states'):
            getattr(self, k).update(d[k])
        self.errors += d['errors']
        self.violations.update({i: v for i, v in d['violations']})


def worker(prop, tier, n, jobs, j, end, best):
    t = Totals()
    for i in range(j, n, jobs):
        if i > best():
            break
        if time.monotonic() > end:
            break
        try:
            plan = make(prop, tier, i)
            res = isolated(plans.execute, plan)
        except HarnessError as e:
            t.errors.append(f'{prop} plan {i}: {e}')
            if len(t.errors) > 3:
                break
            continue
        except Exception:
            t.errors.append(f'{prop} plan {i}: {traceback.format_exc()}')
            break
        t.add(prop, i, plan, res)
        if i in t.violations:
            best(i)
            break
    return t.dump()


def campaign(prop, tier, n, jobs):
    import mmap
    shared = mmap.mmap(-1, 8 * jobs)
    for j in range(jobs):
        shared[8 * j:8 * j + 8] = (1 << 60).to_bytes(8, 'little')

    def best_of(j):
        def best(i=None):
            if i is not None:
                shared[8 * j:8 * j + 8] = i.to_bytes(8, 'little')
            return min(int.from_bytes(shared[8 * q:8 * q + 8], 'little') for q in range(jobs))
        return best
    end = time.monotonic() + WALL[tier]
    procs = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                data = json.dumps(worker(prop, tier, n, jobs, j, end, best_of(j))).encode()
                with os.fdopen(w, 'wb') as fh:
                    fh.write(data)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        procs.append((pid, r))
    total = Totals()
    for pid, r in procs:
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            total.errors.append('a worker died')
            continue
        total.load(json.loads(data))
    return total


def short(plan, limit=6000):
    s = json.dumps(plan)
    return plan if len(s) < limit else {'abridged': s[:limit]}


def known_findings(prop):
    """Checks that recorded findings still are what they were"""
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop]


def decide(prop, tier):
    t0 = time.monotonic()
    camps, n = CAMPAIGNS[prop]
    n = int(os.environ.get('VERIF_PLANS', n * FACTOR[tier]))
    jobs = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print(f'{prop} {tier}: seed {seed}, {n} simulations, {jobs} processes', flush=True)
    for f in known_findings(prop):
        from sim import findings
        res = isolated(findings.reproduce, f)
        if res['reproduced']:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        else:
            print(f"{prop}: the known finding {f['id']} does not occur any more")
    total = campaign(prop, tier, n, jobs)
    wall = time.monotonic() - t0
    status = 0
    replay = None
    if total.violations:
        i = min(total.violations)
        v = total.violations[i]
        plan = make(prop, tier, i)
        print(f'violation in simulation {i}: {v["kind"]}: {v["msg"]}'[:2000], flush=True)
        try:
            small, res = shrink.shrink(plan, v['kind'], lambda p: isolated(plans.execute, p), seconds=60)
        except Exception:
            # the violation stands, even if it cannot be minimised
            traceback.print_exc()
            small, res = plan, isolated(plans.execute, plan)
        v = res['violation'] or v
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', 'replay', f'{prop}-{seed}-{i}.json')
        with open(replay, 'w') as fh:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'index': i, 'violation': v,
                       'digest': res['digest'], 'plan': small, 'trace': res['trace'][-40:]}, fh, indent=1)
        print(f'minimised: {v["kind"]}: {v["msg"]}'[:2000])
        print(f'VIOLATION property={prop} replay={replay}', flush=True)
        status = 1
    elif total.errors:
        for e in total.errors[:3]:
            print(f'harness error: {e}', file=sys.stderr)
        status = 2
    if not total.violations and total.runs < min(n, 50):
        print('harness error: too few simulations', file=sys.stderr)
        status = 2
    samples = []
    try:
        for i in range(2):
            plan = make(prop, tier, i)
            res = isolated(plans.execute, plan)
            samples.append({'index': i, 'seed': seed_of(prop, tier, i), 'plan': short(plan), 'trace': res['trace'][:12], 'digest': res['digest']})
    except Exception:
        pass
    st = total.stats
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total.runs,
            'distinct_nontrivial': len(total.nontrivial),
            'rule': 'one evaluation is one simulated history, generated from sha256(property, VERIF_SEED, index) and executed in a fresh process; it is non-trivial if it delivered or probed at least twice, and distinct by the digest of its trace (sets, ends, exceptions, probe results, world changes)',
            'samples': samples,
            'simulations_by_type': dict(total.types),
            'simulations_per_hour': int(total.runs / wall * 3600) if wall else 0,
            'first_and_last_plan_seed': [seed_of(prop, tier, 0), seed_of(prop, tier, max(0, n - 1))],
            'simulated_steps': st['steps'], 'sets_delivered': st['sets'], 'runs_completed': st['ends'],
            'probes': st['probes'], 'simulated_absolute_time_ms': round(st['simtime'], 3),
            'switches_between_contexts': st['interleavings'],
            'simulations_with_unspecified_order': st['ambiguous'],
            'faults_injected': dict(sorted(total.faults.items())),
            'distinct_traces': len(total.digests),
            'distinct_model_states': len(total.states),
            'other_counts': {k: v for k, v in sorted(st.items()) if k in (
                'progress', 'abs checks', 'structural conditions', 'structural references', 'twins', 'variants', 'bare', 'repeats', 'switches', 'queries', 'totals', 'totals refused', 'images', 'failed images')},
            'inconclusive': total.inconclusive,
            'stopped_by_violations_of_other_properties': dict(total.others),
            'real_components': REAL, 'stubs': STUBS.get(prop, STUB),
        },
        'assumptions': ['the reference model and oracles in /verif/sim state the documented behaviour',
                        'CPython executes the library deterministically given the plan'],
        'wall_s': round(wall, 2),
        'violations': len(total.violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{prop} {tier}: {total.runs} simulations, {len(total.digests)} distinct traces, {st["sets"]} sets, '
          f'{sum(total.faults.values())} faults, {total.inconclusive} inconclusive, {total.other} other, {wall:.1f} s, '
          + {0: 'held', 1: 'VIOLATED', 2: 'harness error'}[status])
    return status


def replay(path):
    d = json.load(open(path))
    res = isolated(plans.execute, d['plan'])
    v = res['violation']
    same = res['digest'] == d['digest'] and v == d['violation']
    if v is None:
        print('no violation')
        return 0
    print(f'{v["kind"]}: {v["msg"]}')
    print('exactly as recorded' if same else 'NOT as recorded')
    print(f'VIOLATION property={d["property"]} replay={path}')
    return 1


def main(argv):
    import gc
    gc.collect()
    gc.freeze()
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'show':
        plan = make(argv[1], 'quick', int(argv[2]))
        print(json.dumps(plan))
        res = isolated(plans.execute, plan)
        for e in res['trace']:
            print(e)
        print(res['violation'], res['inconclusive'], res['stats'])
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if prop == 'all':
        bad = 0
        for p in CAMPAIGNS:
            bad = max(bad, decide(p, tier))
        return bad
    return decide(prop, tier)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
