"""seeded_table.py LOG...: puts the output of try_seeded.sh as a table into DESIGN.md."""
import json
import os
import re
import sys
OUT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) \((C\d\d)\) (C\d\d) exit (\d+) \d+s \d+ (?:violation class (\S+))? ?runs: (\d*)', l)
        if m:
            res[m.group(1)] = m.groups()[1:]
rows = ['| change | needs | check | outcome | runs |', '|---|---|---|---|---|']
for d in sorted(os.listdir(OUT + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (OUT, d)))
    p, c, rc, cls, n = res.get(d, (meta['property'], '', '', '', ''))
    out = {'1': 'caught: %s' % cls, '0': 'missed', '': 'not run'}.get(rc, 'exit ' + rc)
    rows.append('| %s | %s | %s | %s | %s |' % (d, meta['needs'].replace('|', '/'), c, out, n if rc == '1' else ''))
s = open(OUT + '/DESIGN.md').read()
i = s.index('<!-- table -->')
open(OUT + '/DESIGN.md', 'w').write(s[:i] + '<!-- table -->\n\n' + '\n'.join(rows) + '\n')
