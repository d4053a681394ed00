"""Write properties.jsonl and MANIFEST.json from the catalogue."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def line(x):
    a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}
    if x.get('state'): a['state'] = [{'name': n, 'meaning': m} for n, m in x['state']]
    return {'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']},
            'why_tests_cant': x['why'], 'anchors': a}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in catalog.P + catalog.NA: f.write(json.dumps(line(x), ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/dump.py', 'checks': [
      {'property': x['id'], 'quick_cmd': './check %s' % x['id'], 'thorough_cmd': './check %s --thorough' % x['id'], 'technique': x['technique'], 'level': 'other', 'level_note': x['note']} for x in catalog.P],
     'not_applicable': [{'property': x['id'], 'reason': x['reason']} for x in catalog.NA]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
bad = [x['id'] for x in catalog.P + catalog.NA if len(x['title']) > 80]
assert not bad, bad

# per-property section of DESIGN.md
def row(x):
    need = catalog.closure(x['id'])
    return '\n'.join(['### %s %s' % (x['id'], x['title']), '', x['statement'], '',
        '- **Decided by**: %s.' % x['technique'],
        '- **Rules**: %s' % x['rules'],
        '- **Bounds, trust**: %s' % (x['note'] + (' Assumes: ' + '; '.join(x['assume']) + '.' if x['assume'] else '')),
        '- **Why the tests cannot settle it**: %s' % x['why']] +
        (['- **Decided along with it**: %s' % ', '.join(need)] if need else []) +
        ['- **Cost**: %s; floor %d obligations.' % (x['cost'], x['floor']), ''])
D = os.path.join(V, 'DESIGN.md'); d = open(D).read()
b, e = '<!-- PROPERTIES -->\n', '<!-- /PROPERTIES -->\n'
if b in d:
    h, t = d.split(b)[0], d.split(e)[1]
    na = '\n'.join('- **%s %s** %s' % (x['id'], x['title'], x['reason']) for x in catalog.NA)
    open(D, 'w').write(h + b + '\n'.join(row(x) for x in catalog.P) + '\n## Not applicable\n\n' + na + '\n\n' + e + t)
