#!/usr/bin/env python3
"""DESIGN.md: the generated tables (per-property bounds, seeded bugs, not applicable) between the markers are rewritten in place"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from bounds import BOUNDS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
t = []
for p in props:
    i = p['id']
    if i not in BOUNDS: continue
    src = open('%s/harness/src/%s.rs' % (V, i.lower())).read()
    h = re.findall(r'^\s*fn ((?:h|t)_\w+)\(\)', src, re.M)
    t.append('**%s — %s.**  \nHarness `harness/src/%s.rs` (%d quick, %d more thorough). Bounds: %s. Outside: %s.\n' % (i, p['title'], i.lower(), sum(x[0] == 'h' for x in h), sum(x[0] == 't' for x in h), BOUNDS[i]['bounds'], BOUNDS[i]['outside']))
na = ['- **%s**: %s' % (n['property'], n['reason']) for n in man['not_applicable']]
s = []
d = V + '/seeded'
for n in sorted(os.listdir(d)):
    m = json.load(open('%s/%s/meta.json' % (d, n))); s.append('| `%s` | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m.get('caught', 'yes')))
txt = open(V + '/DESIGN.md').read()
def sub(name, body):
    global txt
    txt = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + body + '\n' + m.group(2), txt, flags=re.S)
sub('properties', '\n'.join(t)); sub('na', '\n'.join(na)); sub('seeded', '| change | property | what it breaks | caught |\n|---|---|---|---|\n' + '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(txt)
