#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, props
m = {'version': 1,
     'setup_cmd': 'cd tool && cargo build --offline --quiet && cd ../harness && cargo build --release --offline --quiet',
     'checks': [dict(property=k, quick_cmd=f'python3 check.py {k}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {k}', evidence_file=f'evidence/{k}.json',
                     technique=p['technique'], level=p['level'], level_note=p['note'], **({'theorems': p['theorems']} if p.get('theorems') else {})) for k, p in sorted(props.PROPS.items())],
     'not_applicable': [], 'notes': 'see DESIGN.md'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
