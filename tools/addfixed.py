"""addfixed.py PROP COMMIT TEXT - appends a 'fixed' entry to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d.append({'property': prop, 'status': 'fixed', 'commit': commit,
          'what': 'fixed: property=%s %s %s' % (prop, commit, what)})
with open(p, 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
