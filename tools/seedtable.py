"""prints the table of DESIGN.md, section 6, from the meta.json-files of the planted bugs"""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
print('| bug | caught by | needs |\n|---|---|---|')
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    print('| `%s` | %s | %s |' % (f.split('/')[1], d['property'], ' '.join(d['needs'].split())))
