#!/usr/bin/env python3
# Writes MANIFEST.json: which properties are claimed and how they are decided.
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCH = 'Generated programs are executed on the real library code under a harness-owned scheduler (seeded, replayable, shrunk). Sequentially consistent interleavings only; nothing beyond the generated cases is established.'
REAL = 'Generated scenarios on the real library with real processes and threads and the kernel scheduler; nothing beyond the generated cases is established.'
CLAIM = {
 'C01': ('model-based generated lock programs under a randomized deterministic scheduler with preemption injection', SCH),
 'C02': ('stateful model-based histories compared call by call with a reference mutex model', SCH),
 'C03': ('model-based generated lock programs under a randomized deterministic scheduler with preemption injection', SCH),
 'C04': ('stateful model-based histories compared call by call with a reference reader/writer lock model', SCH),
 'C05': ('generated identities (names, links, descriptors, ranges) against an identity model', SCH),
 'C06': ('generated deadlock-free programs under a fair randomized scheduler, completion and availability oracle', SCH),
 'C07': ('generated condition programs under a randomized scheduler against a counting model of wake-ups', SCH),
 'C08': ('crash injection at generated instructions of generated lock programs, recovery and exclusion oracle', SCH),
 'C09': ('generated programs with thread ends and descriptor changes, recovery oracle', SCH),
 'C10': ('generated lock programs with concurrent dead-owner checks, exclusion oracle', SCH),
 'C11': ('generated limits and clock phases under a virtual clock, exact bounds as oracle', SCH),
 'C12': ('generated histories over small tables against a capacity model and a refill metamorphic relation', SCH),
 'C13': ('differential runs of generated programs across free-unit modes', SCH),
 'C14': ('generated fork programs against an ownership model', SCH),
 'C15': ('generated start-up schedules with kills at file system steps, consistency oracle', SCH),
 'C16': ('generated configurations and re-initialisation sequences under sanitizers against a configuration model', REAL),
 'C17': ('stateful histories over attach states and descriptor states against a result model', SCH),
 'C18': ('stateful histories of scoped lock objects against a nesting model', SCH),
 'C20': ('differential runs of generated call histories with different message configurations under sanitizers', REAL),
 'C19': ('generated kill scenarios with real processes and the background worker, recovery oracle', REAL),
}
BUILT = open(os.path.join(H, 'tools', 'built.txt')).read().split()
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 flv/build.py sched asan' + (' real' if 'C19' in BUILT else ''),
  checks=[dict(property=i, quick_cmd='./check.sh check ' + i, thorough_cmd='./check.sh thorough ' + i, technique='property-based testing: ' + CLAIM[i][0], level='exploration', level_note=CLAIM[i][1]) for i in ids if i in BUILT],
  not_applicable=[dict(property=i, reason='no check built yet') for i in ids if i not in BUILT],
  notes='check.sh replay FILE repeats a recorded failure; VERIF_TIER=thorough deepens every check.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
