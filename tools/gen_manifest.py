#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = ''.join(open(f'{V}/mc/{f}').read() for f in os.listdir(V + '/mc') if f.endswith('.go'))
have = set(re.findall(r'register(?:Sharded)?\("(C\d+)"', src))
HIST = 'stateless model checking of the real code: exhaustive bounded enumeration of request histories, compared at every step with an explicit reference model'
T = {
 'C02': 'exhaustive bounded enumeration of requests with an invalid part in every position, run on the real code beside a twin database that never sees them',
 'C03': 'exhaustive bounded enumeration of histories on the real code, every snapshot and every suspended result asked again after every later write',
 'C04': 'exhaustive enumeration of query patterns over every state of a bounded model, each compared with the reference model',
 'C13': 'exhaustive enumeration of ways to consume results (every stopping point, nesting, interleaving, concatenation) over populated states',
 'C14': 'exhaustive bounded enumeration of index operation sequences on the real indexes against a set model',
 'C15': 'stateless model checking under a controlled scheduler (statement-level points, preemption bounded), each history checked for linearizability by brute force',
 'C16': 'stateless model checking under a controlled scheduler, deadlock detection in every schedule and the race detector on every schedule of the same bodies',
 'C17': 'exhaustive enumeration of struct types and field values from a bounded grammar, recorded and found on the real code',
 'C18': 'exhaustive enumeration of struct graphs up to a bound (shapes, sharing, cycles), recorded and found on the real code',
 'C19': 'exhaustive enumeration of sequences of struct types from a bounded grammar, declared attributes compared with those the tags describe',
 'C20': 'exhaustive bounded enumeration of histories of struct requests, compared with a reference model of entities',
 'C21': 'exhaustive enumeration of struct requests with an invalid element in every position, beside a twin database that never sees them',
 'C22': 'exhaustive enumeration of map iteration orders (every choice of every map iteration, deviation bounded) on the real code, outcomes compared',
 'C24': 'exhaustive bounded enumeration of interleaved histories of several databases, each beside a model of its own, and stateless exploration of schedules of threads with a database each',
 'C25': 'exhaustive enumeration of calls over pools of every kind of argument, each execution on the real code checked to answer and to leave the database usable',
 'C23': 'exhaustive bounded enumeration of histories, mutating everything handed over or received between steps, beside a twin where nothing is mutated',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append({'property': i, 'reason': 'no check yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'model checking: ' + T.get(i, HIST),
        'level': 'model_checking',
        'level_note': 'Exhaustive within the stated alphabet and bounds (see DESIGN.md and the scenarios in the evidence), on the real code rebuilt from the working tree; '
                      'trusts the reference model, the Go toolchain and the source rewriting of map iteration and synchronisation. Says nothing about values outside the alphabets or deeper histories.',
    })
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'none', 'enable': 'no changes to /repo: instrumentation is generated into a build overlay (go build -overlay) from the working tree at check time', 'source_commits': []},
 'checks': checks,
 'not_applicable': na,
 'notes': 'Counterexamples are written to evidence/<id>.cx.json and replay with ./replay.sh <file>. Findings: known_findings.txt.',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
