#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = {
    'C01': 'property-based testing: random expression programs against exact integer / tower-residue reference',
    'C02': 'property-based testing: comparisons of random symbolic counts against exact integers and interval logs',
    'C03': 'property-based testing: residues of random expression trees against an independent tower-residue evaluator',
    'C04': 'property-based testing: round trip of printed numbers and rebuild-after-cache-clearing',
    'C05': 'model-based stateful testing of the run-length tape against a flat tape',
    'C06': 'metamorphic testing: perturb everything outside the recorded footprint and replay',
    'C07': 'differential property-based testing: closed-form rule application against one-by-one repetition',
    'C08': 'property-based testing: inferred rules replayed on the observations',
    'C09': 'differential fuzzing of the accelerated simulator against a cell-by-cell simulator',
    'C10': 'differential fuzzing of endless verdicts against long cell-by-cell simulation',
    'C11': 'differential fuzzing of the quick runner against a cell-by-cell simulator',
    'C12': 'differential fuzzing of the fast accelerated runner against cell-by-cell simulation and the big-number simulator',
    'C13': 'differential fuzzing: macro instructions and macro runs against base-machine simulation',
    'C14': 'differential fuzzing of recurrence verdicts against long simulation and an independent recurrence finder',
    'C15': 'differential fuzzing of backward-reasoning verdicts against simulation of halting, blanking and spinning programs',
    'C16': 'differential fuzzing of segment verdicts against simulation of halting programs',
    'C17': 'exhaustive small-scope generation against an independent enumerator, repeated under parallel scheduling',
    'C18': 'round-trip property-based testing of parsers and printers',
    'C19': 'property-based testing of graph facts against independent graph algorithms',
    'C20': 'metamorphic testing: random renamings and mirror images, behaviour compared by simulation',
    'C21': 'differential fuzzing of instruction sequences against step-by-step reveal',
    'C22': 'differential testing: generated C compiled and run against simulation',
    'C23': 'differential fuzzing of the batch runners with random program lists against simulation',
    'C24': 'trace comparison of instrumented structured programs with simulation',
    'C25': 'stateful model-based testing of the recurrence predictor',
    'C26': 'differential fuzzing of block choice against an independent measure',
    'C31': 'property-based testing: repetitions found by an independent move-by-move simulation must be skipped',
    'C30': 'differential fuzzing of the command-line tools against the library and the reference simulator, as processes',
    'C29': 'metamorphic testing: the same tasks in different orders in fresh processes',
    'C28': 'differential fuzzing: Rust macro instructions and endless verdicts through them against base-machine simulation',
    'C27': 'property-based testing: drawings parsed back and compared with the program',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'python3-vt harness/run.py {i} quick',
            'thorough_cmd': f'python3-vt harness/run.py {i} thorough',
            'technique': TECH[i],
            'level': 'exploration',
            'level_note': 'generated-input search against an explicit oracle; exhaustive only where DESIGN.md says so',
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt harness/setup.py',
               'checks': checks, 'not_applicable': na}, fp, indent=1)
    fp.write('\n')
