#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ specification; TLC trace validation of recorded executions'
BASE = ('Every recorded call is checked by TLC against the TLA+ operation tables; assurance is over the executed '
        'programs (seeded, thousands per run) and the exhaustively checked small models. Trusted: TLC, the harness '
        'recording arguments and results faithfully, the function tables of tools/mktables.py.')
NOTES = {}
exec(open(os.path.join(ROOT, 'tools', 'notes.py')).read())
src = open(os.path.join(ROOT, 'bin', 'plans.py')).read()
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
done = [p for p in props if re.search(r"if pid (==|in) [^\n]*'%s'" % p, src)]
checks = []
for p in done:
    tech, note = NOTES.get(p, (TRACE, BASE))
    checks.append({'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
hook = 'b809d70903dbf10653c43157e9349635cd03c705'
m = {'version': 1, 'setup_cmd': 'bin/setup',
     'hooks': {'guard': '--cfg prima_undine_verif',
               'enable': "RUSTFLAGS='--cfg prima_undine_verif' cargo build (bin/check does it for the harness crate)",
               'source_commits': [hook]},
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in done]}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
