import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from bounds import BOUNDS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
NA = {'J01': 'overlays are evaluated by the jsonnet interpreter (jrsonnet: garbage-collected thunks, interned strings, dynamic evaluation); what is decided there is an arbitrary program, and encoding the interpreter symbolically is outside what the engine reaches'}
for p in props:
    i = p['id']
    if i in BOUNDS and os.path.exists('%s/harness/src/%s.rs' % (V, i.lower())):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
          'technique': 'symbolic execution of the compiled LLVM IR of /repo with z3 (path-wise bounded model checking), counterexamples replayed natively',
          'level': 'model_checking',
          'level_note': 'Bounded: ' + BOUNDS[i]['bounds'] + '. Outside the claim: ' + BOUNDS[i].get('outside', '-') + '. Trusts rustc/LLVM, z3 and the engine (every run replays solver-produced inputs natively and compares); hash tables run with a constant SipHash.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': 'see DESIGN.md'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
f = set()
import re
mods = sorted(x[:-3] for x in os.listdir(V + '/harness/src') if re.fullmatch(r'[a-z]\d\d\.rs', x))
s = open(V + '/harness/src/lib.rs').read(); s = re.sub(r'mods! \{.*\}', 'mods! { ' + ', '.join('"%s" %s' % (m, m) for m in mods) + ' }', s); open(V + '/harness/src/lib.rs', 'w').write(s)
c = open(V + '/harness/Cargo.toml').read(); c = re.sub(r'\[features\]\n(?:\w+ = .*\n)*', '[features]\n' + ''.join('%s = []\n' % m for m in mods), c); open(V + '/harness/Cargo.toml', 'w').write(c)
print(len(checks), 'checks', len(na), 'not applicable')
