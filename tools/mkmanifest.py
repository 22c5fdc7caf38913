#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'TLA+ model checked with TLC, model behaviours replayed in the code and every recorded trace checked against the specification by TLC'
NOTE_GRAPH = ('The model is exhaustive within the constants of its configurations. The code is bound to the specification on '
              'the executions replayed (model walks covering the transitions, plus random and adversarial histories), built '
              'against stand-ins for the ROS headers (shim/).')
NOTE_SEC = ('The model is exhaustive over the kinds of directory entries of each configuration. The code is bound to it on the lookups replayed '
            'in scratch enclaves; unreadable files are looked up as an unprivileged user where the sandbox allows it.')
NOTE_VAL = ('The model is exhaustive over abstract profiles; the code is bound to it on every abstract case with concrete values chosen at '
            'random, plus boundary and random values; stand-ins for the ROS headers (shim/). ')
CHECKS = {
    **{c: (MC, NOTE_GRAPH) for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C26')},
    'C08': (MC + '; single and persistent allocation faults enumerated', NOTE_GRAPH +
            ' Every allocation of every query of the sampled graphs is failed in turn.'),
    'C12': (MC + '; a network model (Discovery.tla) with losses, late joiners and failed announcements, its transitions replayed', NOTE_GRAPH),
    'C28': (MC + '; a world model (SystemOps.tla) of what exists and who was told what, without any cache, judges model and code alike', NOTE_GRAPH),
    'C29': (MC + '; a flow model (Flow.tla) of endpoints created, found, lost and destroyed, its transitions replayed',
            NOTE_VAL + 'What a middleware layer does between the functions (creating endpoints, carrying QoS and user data) is played by the driver.'),
    'C11': (MC + '; publish failures injected', NOTE_GRAPH),
    **{c: (MC, NOTE_SEC) for c in ('C22', 'C23', 'C24', 'C25')},
    **{c: (MC, NOTE_VAL) for c in ('C13', 'C14', 'C15', 'C16', 'C17', 'C18')},
    'C19': (MC, 'The model is exhaustive over small user data; the code is bound to it on generated hashes and data. The key=value reader and '
            'the hash parser belong to other packages and are stand-ins (shim/).'),
    'C20': ('TLA+ model decided for all 64-bit inputs by Apalache, limb arithmetic checked with TLC, recorded calls of the code checked by TLC',
            'The design is decided for every pair of 64-bit values; the code is bound to it on all boundary combinations and random values.'),
    'C21': (MC, 'Order axioms are exhaustive over short ids; the code is bound on ids differing in chosen and random bytes.'),
}
for c, t in (('C09', 'cache'), ('C10', 'context')):
    CHECKS[c] = ('TLA+ model of the locking checked with TLC (with refuted variants); recorded concurrent histories of the code, from '
                 'systematically explored schedules, explained by the TLA+ specification with TLC (linearizability)',
                 'The locking model is exhaustive within its constants. The code is explored per program (pairs and triples of operations, '
                 'random longer ones) under every schedule with few preemptions at memory-access level up to a limit, plus random schedules; '
                 'sequentially consistent memory with data races reported; stand-ins for the ROS headers (shim/).')
CHECKS['C27'] = ('TLA+ model of several objects, their locks and scratch places checked with TLC (with refuted variants); recorded '
                 'concurrent histories of the code over several contexts and the stateless functions, each object and each call '
                 'explained on its own by the TLA+ specifications with TLC',
                 'The model is exhaustive within its constants. The code is explored per program (two or three threads, every operation '
                 'and function next to others) under every schedule with few preemptions and under random schedules; stand-ins for '
                 'the ROS headers (shim/).')
EXTRA = {}
if os.path.exists(os.path.join(HERE, 'tools', 'manifest_extra.py')):
    exec(open(os.path.join(HERE, 'tools', 'manifest_extra.py')).read())
CHECKS.update(EXTRA)
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './check --setup',
     'checks': [{'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                 'evidence_file': 'evidence/%s.json' % i, 'technique': CHECKS[i][0], 'level': 'model_checking',
                 'level_note': CHECKS[i][1]} for i in ids if i in CHECKS],
     'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i not in CHECKS],
     'notes': 'Specifications in spec/, drivers in harness/, stand-ins for ROS packages in shim/; see DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
