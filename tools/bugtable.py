"""Fill the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s: %s | %s |' % (os.path.basename(os.path.dirname(m)), d['what_it_breaks'].replace('|', '/'), d['property']))
s = open('DESIGN.md').read()
s = re.sub(r'(\|-----\|-----------\|\n)(?:\|.*\n|@@BUGS@@\n)*', lambda k: k.group(1) + '\n'.join(rows) + '\n', s)
open('DESIGN.md', 'w').write(s)
