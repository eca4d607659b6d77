#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import os, sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kv
from checks import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(kv.VERIF, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='mkdir -p build evidence && tlc 2>&1 | head -1 >/dev/null; true',
         checks=[dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                      technique=CHECKS[i]['technique'], level=CHECKS[i]['level'], level_note=CHECKS[i]['note']) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason='check not built yet') for i in ids if i not in CHECKS],
         notes='No hooks in /repo: the library is header-only, drivers in /verif/harness instantiate it (also over an exact field type). '
               'Known findings: known-findings.txt. All checks: /verif/check ID [quick|thorough].')
if not m['not_applicable']: del m['not_applicable']
json.dump(m, open(os.path.join(kv.VERIF, 'MANIFEST.json'), 'w'), indent=1)
