"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(v + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], d['needs'], d.get('caught_by', '')))
rows.append('<!-- /seeded -->')
p = v + '/DESIGN.md'
t = open(p).read()
new = '\n'.join(rows)
t = t.replace('@SEEDED@', new) if '@SEEDED@' in t else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: new, t, flags=re.S)
open(p, 'w').write(t)
