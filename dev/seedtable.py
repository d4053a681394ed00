"""Development aid: writes the table of planted bugs into DESIGN.md. seedtable.py LOG (output of seedcheck.py)"""
import sys, json, os, re
D = '/verif/seeded/'
got = {}
for l in open(sys.argv[1]):
    w = l.split()
    if len(w) >= 3 and os.path.isdir(D + w[0]): got[w[0]] = (w[2], w[3] if len(w) > 3 else '')
rows = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(D), key=lambda s: (json.load(open(D + s + '/meta.json'))['property'], s)):
    m = json.load(open(D + s + '/meta.json'))
    v = got.get(s, ('?', ''))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'), v[1].replace(',', ', ') if v[0] == 'caught' else 'NOT CAUGHT (%s)' % v[0]))
p = '/verif/DESIGN.md'; t = open(p).read()
a, b = '<!-- SEEDS -->', '<!-- /SEEDS -->'
t = t.replace('SEEDTABLE', a + '\n' + b) if a not in t else t
i, j = t.index(a), t.index(b)
open(p, 'w').write(t[:i] + a + '\n' + '\n'.join(rows) + '\n' + t[j:])
