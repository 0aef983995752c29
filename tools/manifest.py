"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('TLC decides for every recorded step of the real library whether it is a transition of the TLA+ '
        'specification (random histories, exhaustive small enumerations and behaviours generated from the bounded '
        'model), and checks the bounded model itself exhaustively. Assurance is bounded by what is generated; trusts '
        'TLC, the projection of storages through the public API, and the known findings\' exclusions in DESIGN.md.')
checks = []
with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    for line in f:
        p = json.loads(line)['id']
        checks.append({'property': p, 'quick_cmd': './check.py ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + p,
                       'technique': 'TLA+ specification: TLC model checking and trace validation of the real code',
                       'level': 'model_checking', 'level_note': NOTE})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
               'notes': 'See DESIGN.md. No hooks are needed: the library is observed through its public API.'},
              f, indent=1)
