"""Check of one property: rebuild the MIR of /repo, verify every unit that carries obligations of the property, report."""
import sys, os, time, json, re, subprocess, multiprocessing as mp, traceback, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/engine'); sys.path.insert(0, VERIF + '/contracts')
sys.setrecursionlimit(20000)
from unit import props_of

ASSUME = [
    'f32 arithmetic is modelled as exact real arithmetic extended with NaN and the two infinities (no rounding, no overflow of finite values to infinity, no underflow)',
    'the MIR emitted by rustc (nightly, -Zmir-opt-level=0) for the working tree of /repo means the same as the binary the user builds',
    'panics by exhaustion of memory or stack and by overflow of generation counters of generational-arena are out of scope',
    'sources handed to the public API hold finite values apart from masses and coefficients, which range over all of f32',
]

def build(log):
    out = VERIF + '/build/mir.json'
    t = time.time()
    r = subprocess.run(['bash', VERIF + '/mirdump/run.sh', out, os.environ.get('VERIF_REPO', '/repo')], capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-6000:])
        print('ERROR: /repo does not build, nothing can be said')
        sys.exit(2)
    return out, time.time() - t

PROG = None
def work(a):
    name, tier, tr, prop = a
    import unit as U
    try:
        r = U.run_unit(PROG, U.UNITS[name], tier, only_trace=tr, prop=prop)
    except BaseException as e:
        r = U.Result(name); r.errors.append(('engine', '%s %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2000:])))
    return (name, dict(obs=r.obs, errors=r.errors, paths=r.paths, infeasible=r.infeasible, contracts=sorted(r.contracts), models=sorted(r.models), functions=sorted(r.functions), notes=sorted(r.notes), covers=sorted(r.covers), secs=r.secs))

def load_units():
    import glob
    import unit as U
    for p in sorted(glob.glob(VERIF + '/contracts/c_*.py')):
        __import__(os.path.basename(p)[:-3])
    return U

def explore(U, names, tier, budget, prop=None):
    """run the units on 8 processes; a unit that dies or exceeds the budget is reported as an error"""
    res = {}
    order = sorted(names, key=lambda n: -U.UNITS[n].opts.get('cost', 1))
    ctx = mp.get_context('fork')
    t0 = time.time()
    running = {}; todo = list(order)
    def start(n):
        rd, wr = ctx.Pipe(False)
        def child():
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            try: wr.send(work((n, tier, None, prop)))
            except Exception as e: wr.send((n, dict(obs=[], errors=[('engine', repr(e))], paths=0, infeasible=0, contracts=[], models=[], functions=[], notes=[], covers=[], secs=0)))
            wr.close(); os._exit(0)
        p = ctx.Process(target=child); p.start(); wr.close()
        running[n] = (p, rd)
    from multiprocessing.connection import wait
    while todo or running:
        while todo and len(running) < 8: start(todo.pop(0))
        left = budget - (time.time() - t0)
        ready = wait([rd for _, rd in running.values()], timeout=max(0.05, min(5, left)))
        for n in list(running):
            p, rd = running[n]
            if rd in ready:
                try: _, d = rd.recv()
                except Exception as e: d = dict(obs=[], errors=[('engine', 'the process of the unit died (%r)' % e)], paths=0, infeasible=0, contracts=[], models=[], functions=[], notes=[], covers=[], secs=0)
                res[n] = d; p.join(); del running[n]
        if left <= 0:
            for n, (p, rd) in running.items():
                p.kill()
                res[n] = dict(obs=[], errors=[('engine', 'out of time')], paths=0, infeasible=0, contracts=[], models=[], functions=[], notes=[], covers=[], secs=time.time() - t0)
            for n in todo: res[n] = dict(obs=[], errors=[('engine', 'out of time')], paths=0, infeasible=0, contracts=[], models=[], functions=[], notes=[], covers=[], secs=0)
            break
    return res

def main():
    global PROG
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mir, bt = build(None)
    U = load_units()
    PROG = U.Prog(mir)
    names = [n for n, u in U.UNITS.items() if (prop in u.props or prop.lower() in u.props) and (tier == 'thorough' or not u.opts.get('thorough'))]
    res = explore(U, names, tier, 600 if tier == 'quick' else 3000, prop)
    obs = []; bad = []; funs = set(); cons = set(); mods = set(); notes = set(); byback = {}; solver = 0.0; unit_rows = []; paths = 0
    for n in names:
        d = res[n]; k = 0; kb = 0
        for o in d['obs']:
            if prop not in props_of(o[0], U.UNITS[n].props): continue
            k += 1
            obs.append((n, o))
            byback[o[2]] = byback.get(o[2], 0) + 1; solver += o[3]
            if not o[1]: bad.append((n, o[0], o[2], o[4], o[5])); kb += 1
        for e in d['errors']: bad.append((n, 'verification of the unit', e[0], e[1], None)); kb += 1
        if k == 0 and prop in U.UNITS[n].props and not d['errors']: bad.append((n, 'verification of the unit', 'engine', 'no obligation of %s generated' % prop, None))
        funs |= set(d['functions']); cons |= set(d['contracts']); mods |= set(d['models']); notes |= set(d['notes']); paths += d['paths']
        unit_rows.append({'unit': n, 'obligations': k, 'failed': kb, 'paths': d['paths'], 'secs': round(d['secs'], 2)})
        print('%-52s obligations %5d failed %3d paths %5d %6.1fs' % (n, k, kb, d['paths'], d['secs']))
    ndis = len([1 for n, o in obs if o[1]])
    rc = 0; viol = 0
    if bad or not obs:
        rc = 1; viol = 1
        os.makedirs(VERIF + '/build/replay', exist_ok=True)
        rp = VERIF + '/build/replay/%s.txt' % prop
        with open(rp, 'w') as f:
            f.write('property %s: obligations not discharged on the current tree of /repo\n\n' % prop)
            seen = set()
            for n, o, be, det, model in bad:
                if (n, o, det) in seen: continue
                seen.add((n, o, det))
                f.write('unit %s\n  obligation: %s\n  verifier: %s\n  %s\n' % (n, o, be, det))
                if model: f.write('  counterexample of the verifier: %s\n' % model)
                f.write('\n')
        for n, o, be, det, model in bad[:12]:
            print('NOT DISCHARGED %s :: %s [%s] %s' % (n, o, be, (det or '')[:300].replace('\n', ' ')))
        found = None
        try: found = replay(prop, seed, bad, tier)
        except Exception as e: print('replay failed: %r' % e)
        if found:
            with open(rp, 'a') as f: f.write('\nfailing input replayed against the real code:\n%s\n' % found)
            print(found[:3000])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    uc = getattr(U, 'CONTRACT_NOTES', {})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': len(obs), 'discharged': ndis,
              'checker_cmd': 'python3-vt engine/runner.py %s   (MIR of /repo by mirdump/run.sh; z3 %s and ring normalisation)' % (prop, __import__('z3').get_version_string()),
              'trusted_base': sorted(set(['rustc MIR', 'engine/*.py (MIR semantics, weakest-precondition style path exploration)', 'z3']) ) + ['model of external function: ' + m for m in sorted(mods)],
              'by_backend': byback, 'solver_s': round(solver, 2), 'paths': paths, 'units': unit_rows,
              'functions_verified': sorted(funs),
              'callee_contracts_applied': sorted(cons),
              'bounded_functions': sorted(n for n in notes if n.startswith('bounded')),
              'mir_build_s': round(bt, 2)},
          'assumptions': ASSUME + sorted(n for n in notes if not n.startswith('bounded')),
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d of %d obligations discharged, %d units, %.1f s' % (prop, ndis, len(obs), len(names), time.time() - t0))
    sys.stdout.flush()
    os._exit(rc)

def replay(prop, seed, bad, tier):
    sh = VERIF + '/harness/run.sh'
    if not os.path.exists(sh): return None
    env = dict(os.environ); env['VERIF_SEED'] = str(seed)
    r = subprocess.run(['bash', sh, prop], capture_output=True, text=True, timeout=240, env=env)
    if r.returncode == 1 and 'FAILING INPUT' in r.stdout: return r.stdout[r.stdout.index('FAILING INPUT'):]
    return None

if __name__ == '__main__': main()
