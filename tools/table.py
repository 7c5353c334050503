"""Rewrite the table of planted bugs in DESIGN.md"""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = ['| bug | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    r.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/')))
p = root + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)', lambda m: m.group(1) + '\n'.join(r) + '\n' + m.group(2), t, flags=re.S)
open(p, 'w').write(t)
