#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from props.py, known_findings.json and seeded/."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
        assert len(p['title']) <= 80, p['id']
checks, na = [], []
for p in P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='./check.sh ' + p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']))
m = dict(version=1, setup_cmd='./check.sh --build', checks=checks, not_applicable=na,
         notes='All checks run one static analyzer (sa/) over the type-checked SSA form of /repo. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

def lst(x): return ', '.join('`%s`' % f for f in x)
d = open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip() + '\n\n## Properties\n'
K = json.load(open(os.path.join(V, 'known_findings.json')))
KF = K if isinstance(K, list) else K.get('findings', K)
seeds = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
for p in P:
    d += '\n### %s: %s\n\n' % (p['id'], p['title'])
    d += p['statement'] + '\n\n'
    d += '- **Quantifies over** %s (%s). %s\n' % (', '.join(p['over']) if isinstance(p['over'], list) else p['over'], p['text'], p['why'])
    d += '- **Anchored in** %s: %s.\n' % (lst(p['files']), '; '.join('%s (%s)' % (n, w) for n, w in p['mech']))
    if p['na']:
        d += '- **Not decided**: %s\n' % p['na']
        continue
    d += '- **Method**: %s\n- **Oracle, bounds, assumptions**: %s\n' % (p['technique'], p['note'])
    ss = seeds.get(p['id'], [])
    if ss: d += '- **Planted bugs**, each reported by this check: %s\n' % ', '.join('`%s`' % s for s, _ in ss)
d += '\n' + open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip() + '\n'
d += '\n## Findings\n\nAs in `known_findings.json`; "fixed" entries are defects repaired in /repo with the given commit.\n\n'
for e in KF:
    d += '- %s\n' % (e if isinstance(e, str) else e.get('text') or e.get('entry') or json.dumps(e))
d += '\n## Planted bugs\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        c = lambda x: ' '.join(x.replace('|', '/').split())
        d += '| %s | %s | %s | %s | %s |\n' % (s, pid, c(m['needs']), c(m['what_it_breaks']), m.get('caught_by', pid))
with open(os.path.join(V, 'DESIGN.md'), 'w') as f: f.write(d)
