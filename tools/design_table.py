"""Refreshes the table of planted bugs in DESIGN.md"""
import glob, json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], ' '.join(d['what_it_breaks'].split()).replace('|', '/')))
t = open(os.path.join(HERE, 'DESIGN.md')).read()
table = '<!-- table -->\n| change | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end -->'
t = re.sub(r'TABLE\n|<!-- table -->.*<!-- end -->\n', lambda m: table + '\n', t, flags=re.S)
t = re.sub(r'holds (PLANTED|\d+) changes', 'holds %d changes' % len(rows), t)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
