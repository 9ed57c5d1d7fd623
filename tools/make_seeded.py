"""Writes /verif/seeded from seeds.py and tries each bug in a scratch copy of
/repo: stable tests, demonstration without and with it, checks.

    make_seeded.py [--only ID,ID] [--no-tests] [--checks P01,P02|all|own|none] [--out table.json]
"""
import argparse
import concurrent.futures
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import BUGS  # noqa: E402
import seeds2  # noqa: E402, F401
import seeds3  # noqa: E402, F401
import seeds4  # noqa: E402, F401
import seeds5  # noqa: E402, F401
import seeds6  # noqa: E402, F401

REPO = os.environ.get('SEED_REPO', '/repo')
PY = '/opt/venv/bin/python'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONHASHSEED': '0',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg'}
DEMO_SH = '''#!/bin/sh
# run in the repository; exit 0 if the property holds
export PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
DEMO_PY = '''import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))

import graph_scheduler as gs  # noqa: E402

assert os.path.realpath(gs.__file__).startswith(os.path.realpath(os.getcwd())), gs.__file__

'''


def write(b):
    d = os.path.join(VERIF, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, old, rep in b['edits']:
        text = new.get(f) or open(os.path.join(REPO, f)).read()
        n = text.count(old)
        if n != 1:
            return f'{b["id"]}: {f}: {n} matches for {old!r}'
        new[f] = text.replace(old, rep)
    patch = ''
    for f, text in new.items():
        a = open(os.path.join(REPO, f)).read()
        patch += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(
            a.splitlines(True), text.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    p = os.path.join(d, 'demo.sh')
    open(p, 'w').write(DEMO_SH)
    os.chmod(p, 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(DEMO_PY + b['demo'].lstrip('\n'))
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # the lines removed must be of the original repository
    fixed = 0
    total = 0
    for f in new:
        blame = subprocess.run(['git', '-C', REPO, 'blame', '-s', '475cc19..HEAD', '--', f],
                               capture_output=True, text=True).stdout.splitlines()
        a = open(os.path.join(REPO, f)).read().splitlines(True)
        sm = difflib.SequenceMatcher(None, a, new[f].splitlines(True), autojunk=False)
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag != 'equal':
                for i in range(i1, i2):
                    total += 1
                    fixed += not blame[i].startswith('^')
    return '' if total > fixed else f'{b["id"]}: changes no original line ({total}, {fixed})'


def run_tests(wt, tmp):
    env = {**ENV, 'PYTHONPATH': os.path.join(wt, 'src'), 'MPLCONFIGDIR': tmp}
    opts = ['--verbosity=0', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--no-cov',
            '-n', '2', '-o', 'junit_family=xunit2']
    for i, sel in enumerate((['--ignore', 'tests/integration'], ['tests/integration/psyneulink'])):
        subprocess.run([PY, '-m', 'pytest', *opts, f'--basetemp={tmp}/t{i}', f'--junitxml={tmp}/{i}.xml', *sel],
                       cwd=wt, env=env, capture_output=True)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', f'{tmp}/out.json', f'junit:{tmp}/*.xml'],
                   capture_output=True)
    try:
        passed = set(json.load(open(f'{tmp}/out.json'))['passed'])
    except Exception as e:
        return [f'no results: {e}']
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(stable - passed)


def demo(d, cwd):
    r = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=cwd, capture_output=True, text=True, timeout=300)
    return r.returncode, r.stderr.strip().splitlines()[-1:] or ['']


def try_bug(b, tests, checks, jobs):
    res = {'id': b['id'], 'prop': b['prop']}
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        wt = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', REPO, wt], check=True)
        d = os.path.join(VERIF, 'seeded', b['id'])
        res['demo_clean'] = demo(d, wt)[0]
        r = subprocess.run(['git', '-C', wt, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            return {**res, 'error': r.stderr}
        res['demo_patched'] = demo(d, wt)
        if tests:
            res['broken_tests'] = run_tests(wt, tmp)
        props = [b['prop']] if checks == 'own' else [] if checks == 'none' else \
            [f'P{i:02}' for i in range(1, 23)] if checks == 'all' else checks.split(',')
        res['checks'] = {}
        for p in props:
            vt = os.path.join(tmp, 'verif')
            if not os.path.exists(vt):
                os.mkdir(vt)
                for f in ('sim', 'check', 'check.py', 'known_findings.json', 'properties.jsonl'):
                    subprocess.run(['cp', '-a', os.path.join(VERIF, f), vt], check=True)
            r = subprocess.run(['./check', p, 'quick'], cwd=vt, capture_output=True, text=True,
                               env={**ENV, 'VERIF_REPO': wt, 'VERIF_JOBS': str(jobs), 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            line = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            idx = ''
            if line:
                try:
                    rep = json.load(open(os.path.join(vt, line[0].split('replay=')[1])))
                    idx = [rep.get('index'), rep.get('violation', {}).get('kind') if isinstance(rep.get('violation'), dict) else str(rep.get('violation'))[:80]]
                except Exception as e:
                    idx = repr(e)
            res['checks'][p] = [r.returncode, idx if r.returncode == 1 else r.stdout[-300:] if r.returncode else '']
    finally:
        shutil.rmtree(tmp)
    return res


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--only')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--out')
    a = ap.parse_args()
    bugs = [b for b in BUGS if not a.only or b['id'] in a.only.split(',') or b['id'].split('-')[0] in a.only.split(',')]
    bad = [e for e in map(write, bugs) if e]
    print('\n'.join(bad))
    bugs = [b for b in bugs if not any(e.startswith(b['id'] + ':') for e in bad)]
    out = []
    with concurrent.futures.ThreadPoolExecutor(a.par) as ex:
        for r in ex.map(lambda b: try_bug(b, not a.no_tests, a.checks, a.jobs), bugs):
            out.append(r)
            flag = '' if r.get('demo_clean') == 0 and r.get('demo_patched', [0])[0] and not r.get('broken_tests') else 'INVALID '
            own = r.get('checks', {}).get(r['prop'], [None])[0]
            print(flag + ('MISSED ' if own == 0 else ''), json.dumps(r), flush=True)
    if a.out:
        json.dump(out, open(a.out, 'w'), indent=1)
