"""usage: plant.py SEEDS.py [ID…]: makes and validates /verif/seeded/<id> from a list of edits.
Each seed: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust source of main.rs)."""
import sys, os, subprocess, json, shutil, importlib.util
spec = importlib.util.spec_from_file_location('seeds', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = set(sys.argv[2:])
W = '/tmp/plantwork/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs('/tmp/plantwork', exist_ok=True)
if os.path.exists(W): shutil.rmtree(W)
sh('cp -a /repo ' + W)
sh('git -C %s checkout -- .' % W)
base = json.load(open('/opt/vp/BASELINE.json'))
env = dict(os.environ)
def tests():
    r = sh('. /opt/vp/env.sh; cd %s && cargo test --workspace --no-fail-fast --offline 2>&1' % W)
    ok = 'test result: ok. 32 passed' in r.stdout
    return ok, r.stdout
for s in m.SEEDS:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    sh('git -C %s checkout -- .' % W)
    open(d + '/demo.rs', 'w').write(s['demo']); shutil.copy('/verif/tools/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    r0 = sh('bash %s/demo.sh' % d, cwd=W)
    bad = None
    for f, old, new in s['edits']:
        p = W + '/src/' + f; t = open(p).read()
        if t.count(old) != 1: bad = 'edit matches %d times: %s' % (t.count(old), old[:60]); break
        open(p, 'w').write(t.replace(old, new))
    if bad: print(s['id'], 'BAD', bad); shutil.rmtree(d); continue
    ok, out = tests()
    r1 = sh('bash %s/demo.sh' % d, cwd=W)
    diff = sh('git -C %s diff' % W).stdout
    good = ok and r0.returncode == 0 and r1.returncode not in (0, 3)
    print(s['id'], 'GOOD' if good else 'BAD', 'tests', ok, 'demo', r0.returncode, r1.returncode, (r0.stdout + r1.stdout).strip()[-300:] if not good else r1.stdout.strip()[-100:])
    if not ok: print(out[-1500:])
    if not good: shutil.rmtree(d); continue
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree('/tmp/plantwork')
