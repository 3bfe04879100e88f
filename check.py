#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of /repo's current code.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken (reproduced natively); anything else: no answer."""
import sys, os, re, json, time, subprocess, hashlib, fcntl, glob, shutil, signal
V = os.path.dirname(os.path.abspath(__file__)); REPO = '/repo'
sys.path.insert(0, V)
from bounds import BOUNDS
T0 = time.time()
def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)
def die(msg, code=2): print('CHECK-ERROR:', msg); sys.exit(code)
def fnv(s):
    h = 0x811c9dc5
    for b in s.encode(): h = ((h ^ b) * 0x01000193) & 0xffffffff
    return h & 0x7fffffff
def repo_hash():
    h = hashlib.sha256()
    for root in ('src',):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p): h.update(open(p, 'rb').read())
    return h.hexdigest()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in list(ENV):
    if k.startswith('CARGO_TARGET') or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'): del ENV[k]
def fresh(target_dir):
    """forget cargo's notion of freshness for the crate under test if its content differs from what was built last (mtimes are not trusted)"""
    hv = repo_hash(); stamp = os.path.join(target_dir, '.repo-hash'); os.makedirs(target_dir, exist_ok=True)
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != hv:
        for p in glob.glob(target_dir + '/**/.fingerprint/vatsim-parser-*', recursive=True) + glob.glob(target_dir + '/**/.fingerprint/vpharness-*', recursive=True): shutil.rmtree(p, ignore_errors=True)
        open(stamp, 'w').write(hv)
def run(cmd, what, timeout=800, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    if r.returncode != 0: print(r.stdout[-6000:]); die('%s failed' % what, 3)
    return r.stdout
def build_engine():
    run(['cargo', 'build', '--release', '--offline', '--manifest-path', V + '/engine/Cargo.toml'], 'building the engine', env=dict(ENV, CARGO_TARGET_DIR=V + '/target/engine'))
    return V + '/target/engine/release/vpsym'
def build_ir(feature):
    fresh(V + '/target/ir')
    r = subprocess.run(['bash', V + '/tools/build_ir.sh', feature], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
    if r.returncode != 0: print(r.stderr[-6000:]); die('compiling /repo and the harnesses to LLVM IR failed', 3)
    return r.stdout.strip().splitlines()[-1]
def link_native(lib, fns, dst):
    run(['gcc', '-O1', '-w', '-o', dst, '-DHARNESSES=' + ' '.join('H(%s)' % f for f in fns), V + '/tools/native.c', lib, '-lm', '-lpthread', '-ldl'], 'linking the native harness')
def build_native(feature, profile):
    td = V + '/target/native'; fresh(td)
    cmd = ['nice', '-n', '10', 'cargo', 'build', '--offline', '--bin', 'replay', '--features', feature, '--manifest-path', V + '/harness/Cargo.toml']
    if profile != 'dev': cmd += ['--profile', profile]
    run(cmd, 'native build of the harness (%s)' % profile, env=dict(ENV, CARGO_TARGET_DIR=td))
    src = td + '/' + ('debug' if profile == 'dev' else profile) + '/replay'
    dst = td + '/replay-%s-%s' % (feature, profile); shutil.copy2(src, dst + '.tmp'); os.replace(dst + '.tmp', dst)
    return dst
def replay(binary, harness, hexin, timeout=30):
    scratch = '%s/work/scratch.%d' % (V, os.getpid()); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    try:
        r = subprocess.run([binary, harness, hexin, scratch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode('utf8', 'replace'); code = r.returncode
    except subprocess.TimeoutExpired as e: out = (e.stdout or b'').decode('utf8', 'replace'); code = 'timeout'
    shutil.rmtree(scratch, ignore_errors=True)
    return code, out
def outcome(code, out):
    if code == 0 and 'HARNESS-OK' in out: return 'ok'
    if code == 10: return 'assert: ' + re.search(r'ASSERT-FAILED: (.*)', out).group(1)
    if code == 20: return 'assume'
    if code == 'timeout': return 'hang'
    m = re.search(r'panicked at (.*)\n(.*)', out)
    if m: return 'panic: %s: %s' % (m.group(1).rstrip(':'), m.group(2))
    return 'crash (%s)' % code
class Native:
    """replays: the compiled form of the very code the engine reads; for violations also fresh builds in the development profile and in an optimised one without overflow checks"""
    def __init__(s, feature): s.f = feature; s.b = {}; s.lib = None; s.lock = None
    def get(s, p):
        if p == 'lib': return s.lib
        if p not in s.b:
            log('native build', p); fcntl.flock(s.lock, fcntl.LOCK_EX)
            try: s.b[p] = build_native(s.f, p)
            finally: fcntl.flock(s.lock, fcntl.LOCK_UN)
        return s.b[p]
def harness_fns(prop):
    src = open('%s/harness/src/%s.rs' % (V, prop.lower())).read()
    return re.findall(r'^\s*fn ((?:h|t)_\w+)\(\)', src, re.M), src
def setup():
    from concurrent.futures import ThreadPoolExecutor
    def natives(): build_native('k01', 'dev'); build_native('k01', 'native')
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(build_engine), ex.submit(build_ir, 'k01'), ex.submit(natives)]: f.result()
    print('setup done in %.0fs' % (time.time() - T0))
def main():
    if sys.argv[1] == '--setup': return setup()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    os.makedirs(V + '/work', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    lock = open(V + '/work/build.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    feature = prop.lower(); nat = Native(feature)
    # the three builds are independent (separate target directories)
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(3)
    fe = ex.submit(build_engine); fi = ex.submit(build_ir, feature)
    eng, ll = fe.result(), fi.result()
    w = '%s/work/%s.%d' % (V, prop, os.getpid()); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    ll2 = w + '/ir.ll'; os.link(ll, ll2); nat.lib = w + '/native'; link_native(ll[:-3] + '.a', harness_fns(prop)[0], nat.lib); fcntl.flock(lock, fcntl.LOCK_UN); nat.lock = lock
    try: sys.exit(decide(prop, tier, seed, only, eng, ll2, nat, w))
    finally: shutil.rmtree(w, ignore_errors=True)
def decide(prop, tier, seed, only, eng, ll, nat, w):
    fns, src = harness_fns(prop)
    hs = [f for f in fns if f.startswith('h_') or tier == 'thorough']
    if only: hs = [f for f in fns if f in only]
    B = BOUNDS.get(prop, {}); maxt = (B.get('thorough_s', 3000) if tier == 'thorough' else B.get('quick_s', 400))
    log('built; running', ','.join(hs)); out = w + '/parts'; os.makedirs(out)
    cmd = [eng, ll, '--out', out, '--harness', ','.join(hs), '--max-time', str(maxt), '--workers', str(os.cpu_count() or 8), '--stop-after-violation', '40'] + B.get('args', [])
    with open(w + '/engine.log', 'w') as lf: pr = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT)
    try: rc = pr.wait(maxt + 30)
    except subprocess.TimeoutExpired: pr.kill(); pr.wait(); rc = -9; log('engine stopped: a solver query did not return') # the workers end with it
    time.sleep(0.05); eo = open(w + '/engine.log').read()
    if eo.strip(): log('engine output:', eo[-3000:])
    parts = []
    for p in sorted(glob.glob(out + '/*.json')):
        try: parts.append(json.load(open(p)))
        except ValueError: rc = rc or -9 # a worker was stopped while writing
    tot = {}; inc = {}; covers = {}; aids = {}; viol = []; samples = []; fns_enc = set(); per = {}
    for p in parts:
        h = p['harness']; q = per.setdefault(h, {'paths': 0, 'instrs': 0, 'wall': 0.0})
        for k, v in p.items():
            if isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
        q['paths'] += p.get('paths', 0); q['instrs'] += p.get('instrs', 0); q['wall'] = max(q['wall'], p.get('wall', 0))
        for k, v in p.get('incomplete', {}).items(): inc.setdefault(h + ': ' + k, 0); inc[h + ': ' + k] += v
        for k, v in p.get('covers', {}).items(): covers.setdefault((h, int(k)), [0, v[1]])[0] += v[0]
        for k, v in p.get('assert_ids', {}).items(): aids[int(k)] = aids.get(int(k), 0) + v
        for v in p.get('violations', []): viol.append(dict(v, harness=h))
        for s in p.get('samples', [])[:2]: samples.append('%s: %s' % (h, s))
        fns_enc.update(p.get('functions', []))
    missing = [h for h in hs if h not in per]
    if rc != 0: inc['engine exit code %d' % rc] = 1
    for h in missing: inc['%s: no result' % h] = 1
    log('explored: %d paths, %d instructions, %d solver calls (%.1fs), %d violations, incomplete %s' % (tot.get('paths', 0), tot.get('instrs', 0), tot.get('z3_calls', 0), tot.get('z3_time', 0), len(viol), inc))
    # ---- violations: known findings, native replay
    known = []
    kf = V + '/known_findings.jsonl'
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('{'): known.append(json.loads(l))
    viol.sort(key=lambda v: (v['harness'], v['msg'], v['loc'])); reported = []; unrepro = []; seen_known = {}; validated = 0
    tried = {}
    for v in viol:
        key = (v['harness'], v['kind'], v['msg'], v['loc'])
        if tried.get(key, 0) >= 2 or len(reported) >= 12: continue
        tried[key] = tried.get(key, 0) + 1
        res = {}
        for prof in ('dev', 'native'):
            res[prof] = outcome(*replay(nat.get(prof), v['harness'], v['input']))
            if res[prof] not in ('ok', 'assume'): break
        bad = [(p, o) for p, o in res.items() if o not in ('ok', 'assume')]
        v['native'] = res
        if not bad: unrepro.append(v); continue
        validated += 1
        k = next((k for k in known if k['property'] == prop and k['harness'] == v['harness'] and re.search(k['outcome'], bad[0][1])), None)
        if k: seen_known[k['what']] = k; continue
        v['outcome'] = bad[0][1]; v['profile'] = bad[0][0]; reported.append(v)
    # ---- vacuity: every cover point reached, every assertion evaluated
    vac = []
    if not only:
        for lab in sorted(set(re.findall(r'cover!\("([^"]*)"\)', src))):
            if lab.startswith('t:') and tier != 'thorough': continue
            if not any(k[1] == fnv(lab) for k in covers): vac.append('cover point not reached: ' + lab)
        for cond, lab in set(re.findall(r'check!\((.*?), "([^"]*)"\)\s*[;}]', src)):
            if cond == 'false' or lab.startswith('t:') and tier != 'thorough': continue
            if fnv(lab) not in aids: vac.append('assertion never evaluated: ' + lab)
    # ---- translation validation: solver-produced inputs run natively must end as the symbolic run says
    disagree = []
    if not reported:
        seen = {}
        for (h, c), (n, hx) in sorted(covers.items()): seen.setdefault(h, {}).setdefault(hx, set()).add(c)
        for h, d in seen.items():
            for hx, cs in list(d.items())[:6]:
                code, o = replay(nat.get('lib'), h, hx)
                got = set(int(x) for x in re.findall(r'^COVER (\d+)', o, re.M))
                if outcome(code, o) != 'ok' or not cs <= got: 
                    if not any(v['harness'] == h for v in viol): disagree.append('%s on %s: native run gives %s, covers %s, symbolic run has %s' % (h, hx, outcome(code, o), sorted(got), sorted(cs)))
                else: validated += 1
    wall = time.time() - T0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 1), 'violations': len(reported),
          'coverage': {'states': tot.get('paths', 0) + tot.get('forks', 0), 'transitions': tot.get('instrs', 0), 'traces_validated_against_impl': validated,
                       'samples': samples[:20] or ['none'],
                       'explanation': 'states: symbolic states (completed paths plus branching points) of the LLVM IR of the harness, /repo and the standard library; transitions: IR instructions executed symbolically; each path covers every input satisfying its path condition; traces validated: solver-produced inputs replayed against the natively compiled code with the same outcome',
                       'harnesses': per, 'paths': tot.get('paths', 0), 'solver_queries': tot.get('z3_calls', 0), 'solver_sat': tot.get('z3_sat', 0), 'solver_unsat': tot.get('z3_unsat', 0), 'solver_time_s': round(tot.get('z3_time', 0), 2),
                       'branches_decided_by_byte_domains': tot.get('dom_decided', 0), 'assertion_evaluations': tot.get('asserts', 0), 'assertions_discharged_by_solver': tot.get('assert_z3', 0), 'assertions_folded': tot.get('assert_folded', 0),
                       'functions_encoded': sorted(fns_enc), 'functions_encoded_total': tot.get('functions_total', 0), 'bounds': B.get('bounds', ''), 'outside_bounds': B.get('outside', ''),
                       'incomplete': inc, 'vacuity_failures': vac, 'engine_vs_native_disagreements': disagree, 'known_findings_seen': sorted(seen_known), 'exhaustive': not inc and not vac},
          'assumptions': B.get('assume', []) + COMMON_ASSUME}
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    for k in known:
        if k['property'] == prop and k['what'] in seen_known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if reported:
        os.makedirs(V + '/work/replay', exist_ok=True)
        for i, v in enumerate(reported):
            p = 'work/replay/%s-%d.json' % (prop, i)
            json.dump({k: v[k] for k in ('harness', 'input', 'kind', 'msg', 'loc', 'outcome', 'profile', 'native', 'notes', 'trace')}, open(V + '/' + p, 'w'), indent=1)
            print('  %s: %s %s [%s] native %s: %s' % (v['harness'], v['kind'], v['msg'], v['loc'], v['profile'], v['outcome']))
            print('    input %r' % bytes.fromhex(v['input']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    bad = False
    for v in unrepro: print('NOT REPRODUCED natively: %s %s %s [%s] input %s: %s\n   %s' % (v['harness'], v['kind'], v['msg'], v['loc'], v['input'], v['native'], ' <- '.join(v['trace'][:12]))); bad = True
    for d in disagree: print('ENGINE/NATIVE DISAGREEMENT:', d); bad = True
    for x in vac: print('VACUOUS:', x); bad = True
    for k, n in inc.items(): print('INCOMPLETE: %s (%d)' % (k, n)); bad = True
    if bad: return 2
    print('OK property=%s %d paths, %d assertions, %d solver queries, %.0fs' % (prop, tot.get('paths', 0), tot.get('asserts', 0), tot.get('z3_calls', 0), wall))
    return 0
COMMON_ASSUME = ['allocation never fails; single thread; log output (tracing) has no subscriber', 'hash-table lookups run with a constant SipHash (equality decides), so iteration order is the insertion-independent order of that table unless a harness states otherwise', 'rustc, LLVM and z3 are trusted; the IR is the one rustc emits for /repo with opt-level 1, LTO and overflow checks']
if __name__ == '__main__': main()
