#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = {}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))
REQ, RES, TXN, CP = 'src/request.rs', 'src/response.rs', 'src/transaction.rs', 'src/connection_parser.rs'
exec(open(os.path.join(root, 'tools', 'table.py')).read())
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['title']
m = dict(version=1, setup_cmd='bash /verif/run.sh --build', checks=[], not_applicable=NOT_APPLICABLE,
         notes='One harness crate (/verif/harness) drives the real parser; run.sh ID builds it against /repo and runs the monitor of property ID. run.sh --replay FILE runs a recorded violation again. See DESIGN.md.')
for p in P:
    m['checks'].append(dict(property=p['id'], quick_cmd='bash /verif/run.sh ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough bash /verif/run.sh ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
