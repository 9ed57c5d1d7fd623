"""Writes MANIFEST.json"""
import json

NOTES = {
    'P01': 'Every resumption of every run is compared with a reference model of the documented algorithm that keeps all states the documentation allows.',
    'P02': 'Interleaved execution contexts against one independent model state each, and (twin plans) against the same context simulated alone.',
    'P03': 'Several schedulers interleaved step by step and, in threads, line by line of the library under a seeded baton; against their own models and the same scheduler alone. Arguments are snapshotted and changed afterwards.',
    'P04': 'The whole clock (all totals, current and past) is compared with the model after every step of histories with aborted, failed, skipped and continued runs.',
    'P05': 'Call-count conditions are probed at arbitrary points and govern nodes and terminations in interrupted histories; oracle: counts in the model.',
    'P06': 'Time-based conditions are probed at arbitrary points and govern nodes and terminations; oracle: completed units in the model.',
    'P07': 'Ends of runs under termination conditions given to schedulers, runs, by name, replaced and reset during histories; oracle: the model.',
    'P08': 'Exceptions of many types injected into conditions, user functions, nodes and runs; closes, abandonments, garbage collection; oracle: identity of the exception and the model afterwards.',
    'P09': 'Histories of adding, replacing and removing conditions by all interfaces, between and during runs; oracle: a map of node to last condition.',
    'P10': 'Histories of structural conditions, removals, failures, replacements, lazy and eager reads; oracle: the remaining conditions applied once, in order, to a new scheduler, and topological layers.',
    'P11': 'Effects of each structural condition on random graphs, from first principles, in histories; the schedules that follow are checked too.',
    'P12': 'Histories with absolute conditions in mixed units and both modes; oracles: the model in exact fractions, and independent rules on spacing, due times and ends. Known findings KF1-KF3.',
    'P13': 'Default conditions under many graphs, hashes, kinds and orders; the same history with permuted identities must give the same schedule.',
    'P14': 'Stalls, interruptions and faults, after which a run must end within a bound computed from its conditions; a watchdog on CPU time for resumptions that do not return.',
    'P15': 'Histories with reads, string representations, logging, wall clock jumps and garbage collection between steps; the same history without them, and repeated in one process, must give the same schedule.',
    'P16': 'Composites are evaluated at arbitrary points against their parts, evaluated separately in the library; NWhen against a count per execution_id.',
    'P17': 'State of nodes and user functions, per execution_id, changes between steps; functions check the arguments they receive.',
    'P18': 'Aliases are set and removed between steps, and used to build conditions; public names, attributes and meanings are compared with those implied.',
    'P19': 'Recorded executions, timestamps and dates against what the simulator received, after every step.',
    'P20': 'Queries between in-place changes, on graphs with colliding hashes and nodes that fail during a query; oracle: brute force.',
    'P21': 'Real conversion and pydot; the graphviz process and the disk are simulated and fail as the plan says. The program given to graphviz is parsed and compared with the graph, the files with what should be there.',
    'P22': 'Invalid requests of 15 kinds between any steps of interleaved histories; the public state before and after is compared, and the model continues unchanged.',
}
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'.\'); import check" && chmod +x check',
    'checks': [],
    'not_applicable': [],
    'notes': 'No hooks in /repo are needed: generators, user callables, node objects, the datetime, time and random modules, pydot and open() are seams the library already has. Replay a violation with: ./check replay FILE',
}
for p, n in NOTES.items():
    m['checks'].append({
        'property': p,
        'quick_cmd': f'./check {p} quick',
        'thorough_cmd': f'./check {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over histories, interleavings and faults',
        'level': 'exploration',
        'level_note': n + ' Sampled, not exhaustive; trusts the oracle in /verif/sim and CPython.',
    })
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
