import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import pyvc_meta as M
checks = []
for p in M.PIDS:
    if p in getattr(M, 'NA', {}):
        continue
    c = dict(property=p, quick_cmd='/opt/venv/bin/python check.py ' + p,
             thorough_cmd='/opt/venv/bin/python check.py %s --thorough' % p,
             technique=M.TECH.get(p) if hasattr(M, 'TECH') else 'contract-based deductive verification',
             level=M.LEVELS[p], level_note=M.NOTES.get(p, '') if hasattr(M, 'NOTES') else 'see DESIGN.md')
    checks.append(c)
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks,
               not_applicable=[dict(property=p, reason=r) for p, r in sorted(getattr(M, 'NA', {}).items())],
               notes='See DESIGN.md.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
