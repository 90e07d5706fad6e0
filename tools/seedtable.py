"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda t: ' '.join(str(t).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], c(m['what_it_breaks']), c(m['needs'])))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'SEEDTABLE|\| change \| property.*?\n(?=\n)', lambda _: '\n'.join(rows) + ('' if 'SEEDTABLE' in s else '\n'), s, count=1, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
