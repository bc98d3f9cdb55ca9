"""writes the table of the planted bugs into DESIGN.md"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | breaks |', '|---|---|---|']
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
p = here + '/DESIGN.md'
t = open(p).read()
t = t.replace('SEEDTABLE', '<!-- seeds -->\n<!-- end -->')
t = re.sub(r'<!-- seeds -->.*?<!-- end -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->', t, flags=re.S)
open(p, 'w').write(t)
