"""regenerates MANIFEST.json from the property modules present"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
TECH = json.load(open(R + '/tools/technique.json'))
NA = json.load(open(R + '/tools/not_applicable.json'))
checks = []
na = []
for i in ids:
    if os.path.exists('%s/props/%s.py' % (R, i.lower())):
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t[0], level='other', level_note=t[1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks, not_applicable=na,
         notes='All checks are static: clang emits LLVM IR of a witness translation unit that includes /repo/include/colorsystem.hpp; nothing of the library is executed. '
               'A check alarms only on a definite refutation; what the analysis cannot decide is counted as undecided in the evidence and never reported as a violation. '
               'No hooks were added to /repo. Repairs of genuine defects are the "fix:" commits listed in known_findings.json.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
