"""Fill in the generated parts of DESIGN.md (table of planted bugs)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = R + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->', '<!-- end seeds -->'
if '@SEEDS@' in s:
    s = s.replace('@SEEDS@', a + '\n' + b)
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
