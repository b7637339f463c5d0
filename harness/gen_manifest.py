#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: python3 harness/gen_manifest.py > MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(HERE), 'properties.jsonl'))]
FUNC = {'C10', 'C11', 'C12', 'C13', 'C14', 'C21', 'C22'}
checks = []
for p in props:
    i = p['id']
    if i in FUNC:
        tech = ('TLA+ specification (Slices/Layout/Compress/Diophantine/BigInt) model checked with TLC against '
                'a transcription of the algorithm; recorded calls of the real functions validated by TLC '
                'against it (FuncTrace)')
    elif i == 'C23':
        tech = ('TLA+ specification of the ill-formed requests (ArrayOps!IllFormed), its exactness model '
                'checked with TLC (MC_Reject); requests made to the real package in the middle of programs, '
                'outcome and every array afterwards validated by TLC (GCSTrace)')
    else:
        tech = ('TLA+ specification of the array heap (ArrayHeap) that a transcription of the code '
                '(Formats) refines, model checked with TLC (MC_Formats); its exhaustively explored '
                'programs and random ones are executed by the real package and validated event by event '
                'by TLC (GCSTrace, and SparseTrace for huge sparse arrays)')
    checks.append(dict(
        property=i,
        quick_cmd='VERIF_TIER=quick python3 harness/run_check.py %s' % i,
        thorough_cmd='VERIF_TIER=thorough python3 harness/run_check.py %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique=tech,
        level='model_checking',
        level_note=('Exhaustive for the specification within the small constants of its TLC '
                    'configurations; for the code, every recorded event of the generated programs '
                    '(thousands per run, chosen by VERIF_SEED) is decided against the specification. '
                    'Inputs outside the recorded programs are not covered. Trusts TLC, the recorder '
                    'in harness/executor.py and the token encoding of values.')))
print(json.dumps(dict(
    version=1,
    setup_cmd='bash harness/setup.sh',
    checks=checks,
    not_applicable=[],
    notes='No hooks in /repo are needed: the public API exposes the abstract state. '
          'Findings (all repaired by fix: commits) are listed in known_findings.txt.'), indent=1))
