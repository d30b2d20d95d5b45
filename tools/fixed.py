"""Append `fixed:` entries to known_findings.json:  fixed.py P05 <commit> <what failed>"""
import json, sys, os
p = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
k = json.load(open(p)); pid, c, what = sys.argv[1:4]
k.append({'property': pid, 'status': 'fixed', 'fixed': 'fixed: property=%s %s %s' % (pid, c, what)})
json.dump(k, open(p, 'w'), indent=1); open(p, 'a').write('\n')
