"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[1], m['property'], m['needs'].replace('|', '/')))
s = open('DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*?<!-- end -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
