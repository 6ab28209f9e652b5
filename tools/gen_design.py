# Rewrites the table of planted bugs in DESIGN.md.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs']))
t = '| caught by | planted | needs |\n| --- | --- | --- |\n' + ''.join(f'| {p} | `{d}` | {n} |\n' for p, d, n in sorted(rows))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- end -->)', lambda x: x[1] + t + x[2], s, flags=re.S)
open(p, 'w').write(s)
