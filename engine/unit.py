"""Verification units: exploration of all paths, obligations, evidence."""
import time, traceback, sys, os, re
import z3
import terms as tm
from terms import T, atom, const, ZERO, ONE
from vals import *
from ctx import *
from execu import *
import models
from models import *
import iters
import loops
from prog import Prog, norm_name, TAGS

PATHDEBUG = os.environ.get('PATHDEBUG')
UNITS = {}     # name -> Unit class instance description

class UnitDef:
    def __init__(s, name, fn, props, **opts):
        s.name = name; s.fn = fn; s.props = props; s.opts = opts
def unit(name, *props, **opts):
    def d(fn):
        UNITS[name] = UnitDef(name, fn, props, **opts)
        return fn
    return d

class Run:
    """state shared by all paths of a unit"""
    def __init__(s, prog, udef, tier='quick'):
        s.prog = prog; s.udef = udef
        o = udef.opts
        s.max_steps = o.get('max_steps', 60000)
        s.max_unroll = o.get('max_unroll', 4)
        s.max_paths = o.get('max_paths', 6000)
        s.deadline = time.time() + o.get('secs', 240)
        s.sqrt_tab = {}
        s.subcache = {}; s.failed = {}; s.hints = {}; s.sum_tab = {}
        s.contracts = o.get('contracts', {})
        s.allow_panic = o.get('allow_panic', False)
        s.hooks = o.get('hooks', {})
        s.loop_specs = o.get('loops', [])
        s.tier = tier
    def find_contract(s, x, name, mname, shead):
        if not s.contracts: return None
        for k, h in s.contracts.items():
            if name == k or name.endswith('::' + k) or mname.endswith('::' + k) or mname == k: 
                if h.ok(x): return h
        return None
    def instantiate(s, x, kind, h):
        k = ('inst', kind, x.rep(h).get_id())
        if k in x.memo: return
        x.memo[k] = h
        x.handles.setdefault(kind, []).append(x.rep(h))
        f = x.inst_hook
        if f: f(x, kind, x.rep(h))
    def fresh_handle(s, x, kind, h):
        pass
    def index_access(s, x, r, v, k):
        f = x.index_hook
        if f: f(x, r, v, k)

class Contract:
    """callee contract: applied at call sites instead of the body"""
    def __init__(s, name, fn, cond=None): s.name = name; s.fn = fn; s.cond = cond
    def ok(s, x): return s.cond is None or s.cond(x)
    def apply(s, x, c): return s.fn(x, c)

def pure(name, fn=None):
    """contract of a function without side effects: a function of its arguments (equal arguments, equal results).
    fn(x, args, mk) may relate the result to earlier ones; mk() makes an arbitrary result."""
    short = name.split('::')[-1]
    def ap(x, c):
        k = ('pure', short, tuple(loops.skey(x, a) for a in c.args))
        def mk(): return x.fresh(x.prog.tpl(c.dty), short)
        r = x.memo.get(k)
        if r is None:
            r = fn(x, c.args, mk) if fn else mk()
            x.memo[k] = r
        x.memo.setdefault('calls', []).append((short, c.args, r))
        return r
    return Contract(short + ' is a function of its arguments', ap)
class Machine2(loops.LoopMixin, loops.SumMixin, Machine):
    inst_hook = None
    index_hook = None
    # -------------------------------------------------------- helpers for specifications
    def fn(x, suffix):
        f = x.prog.find(suffix)
        if f is None: raise Missing('function %s not found' % suffix)
        return f
    def tid(x, name):
        t = x.prog.struct_tid(name)
        if t is None: raise Missing('type %s not found' % name)
        return t
    def call(x, suffix, *args):
        f = x.fn(suffix) if isinstance(suffix, str) else suffix
        if f['argc'] != len(args): raise Missing('%s takes %d arguments' % (f['name'], f['argc']))
        x.inlined.add(f['name'].replace('fluffy_tribble::', ''))
        return x.call_fn(f, list(args))
    def method(x, ty, trait, name, *args):
        f = x.prog.method(ty, trait, name)
        if f is None: raise Missing('%s::%s for %s not found' % (trait, name, ty))
        return x.call(f, *args)
    def sym(x, name, base=None):
        """fresh value of a crate struct"""
        t = x.tid(name)
        return x.fresh(x.prog.tpl(t), base or name)
    def ref(x, v, mut=True): return x.temp(v, mut)
    def idx(x, v, name):
        if v.tid is None: raise Unsupported('untyped aggregate')
        return x.prog.field_index(v.tid, name)
    def field(x, v, *names):
        v = x.deref_box(v)
        for n in names:
            v = x.deref_box(v)
            v = v.f[x.idx(v, n)]
        return v
    def with_(x, v, **kw):
        for n, val in kw.items():
            i = x.idx(v, n)
            v = VAgg(v.f[:i] + (val,) + v.f[i + 1:], v.tid, v.g)
        return v
    def struct(x, name, **kw):
        t = x.tid(name)
        fs = x.prog.types[t]['variants'][0]['fields']
        if set(n for n, _ in fs) != set(kw): raise Missing('fields of %s are %s' % (name, [n for n, _ in fs]))
        return VAgg([kw[n] for n, _ in fs], t)
    def vec(x, base): return VMat(3, 1, [Fl('f', x.fresh_T(base + c)) for c in 'xyz'])
    def real(x, base): return Fl('f', x.fresh_T(base))
    def unitq(x, base='q'): return models.fresh_quat(x, base)
    def ts(x, v):
        """list of real terms of a matrix / vector / quaternion / float (must be finite)"""
        v = x.deref(v)
        if isinstance(v, Fl): 
            v = x.conc(v)
            if v.k != 'f': raise NotFinite()
            return [v.t]
        out = []
        for p in v.m:
            p = x.conc(p)
            if p.k != 'f': raise NotFinite()
            out.append(p.t)
        return out
    def t(x, v): return x.ts(v)[0]
    def eq_all(x, name, a, b):
        """value equality as obligations"""
        a = x.deref(a) if not isinstance(a, list) else a; b = x.deref(b) if not isinstance(b, list) else b
        if isinstance(a, list):
            for p, q in zip(a, b): x.prove_eq(name, p, q)
            return
        x.eq_val(name, a, b)
    def eq_val(x, name, a, b):
        if isinstance(a, VBox): a = a.v
        if isinstance(b, VBox): b = b.v
        if isinstance(a, Fl):
            if a.k == 's' and b.k == 's' and a.t[0].eq(b.t[0]) and a.t[1] is b.t[1]: return x.trivial(name)
            a = x.conc(a); b = x.conc(b)
            if a.k != b.k: return x.prove(name, False, 'float classes differ: %s vs %s' % (a.k, b.k))
            if a.k == 'f': return x.prove_eq(name, a.t, b.t)
            return x.trivial(name)
        if isinstance(a, (VMat, VQuat)):
            if isinstance(a, VQuat):
                # equal as rotations: equal up to a common sign
                d = all(x.same(p, q) for p, q in zip(a.m, b.m))
                if d: return x.trivial(name)
                if all(x.same(p, x.fneg(q)) for p, q in zip(a.m, b.m)): return x.trivial(name)
            for p, q in zip(a.m, b.m): x.eq_val(name, p, q)
            return
        if isinstance(a, VInt):
            if isinstance(a.t, int) and isinstance(b.t, int): return x.prove(name, a.t == b.t)
            return x.prove(name, zi(a.t) == zi(b.t))
        if isinstance(a, VBool): return x.prove(name, zb(a.t) == zb(b.t))
        if isinstance(a, VH): return x.prove(name, a.t == b.t)
        if isinstance(a, VSet): return x.prove(name, a.a == b.a)
        if isinstance(a, VAgg):
            for p, q in zip(a.f, b.f): x.eq_val(name, p, q)
            return
        if isinstance(a, VEnum):
            if isinstance(a.tag, int) and isinstance(b.tag, int):
                if a.tag != b.tag: return x.prove(name, False, 'different variants')
                for p, q in zip(a.vs[a.tag], b.vs[b.tag]): x.eq_val(name, p, q)
                return x.trivial(name)
            tags = set(a.vs) | set(b.vs)
            x.prove(name, zi(a.tag) == zi(b.tag))
            for t in tags:
                if (not isinstance(a.tag, int) or a.tag == t) and (not isinstance(b.tag, int) or b.tag == t) and t in a.vs and t in b.vs and a.vs[t]:
                    tpl = None
                    if x.branch(zi(a.tag) == t):
                        for p, q in zip(a.vs[t], b.vs[t]): x.eq_val(name, p, q)
                        return
            return
        if isinstance(a, VDyn):
            x.prove(name, zi(a.tag) == zi(b.tag))
            tag = a.tag if isinstance(a.tag, int) else b.tag if isinstance(b.tag, int) else None
            if tag is None:
                tag = len(TAGS) - 1
                for n in range(len(TAGS) - 1):
                    if x.branch(a.tag == n): tag = n; break
            return x.eq_val(name, a.im[tag], b.im[tag])
        if isinstance(a, VVec):
            if isinstance(a.n, int) and isinstance(b.n, int) and a.conc is not None and b.conc is not None:
                x.prove(name, a.n == b.n)
                for p, q in zip(a.conc, b.conc): x.eq_val(name, p, q)
                return
            x.prove(name, zi(a.n) == zi(b.n))
            if a.el is not None and b.el is not None and all(p.eq(q) for p, q in zip(a.el.arrs, b.el.arrs)): return x.trivial(name)
            i = x.fresh_int('ix')
            x.assume(z3.And(i >= 0, i < zi(a.n)))
            return x.eq_val(name, x.get1(a, ('e', i)), x.get1(b, ('e', i)))
        if isinstance(a, VOpq):
            return x.trivial(name)
        raise Unsupported('equality of %s' % type(a).__name__)
    def same(x, a, b):
        a = x.conc(a); b = x.conc(b)
        if a.k != b.k: return False
        if a.k != 'f': return True
        try: return tm.is_zero(tm.sub(a.t, b.t))
        except tm.Blowup: return False
    def trivial(x, name):
        x.obs.append(Ob(name, True, 'structural', 0.0)); return True
    def ring_eq(x, a, b):
        try: return tm.is_zero(tm.sub(tm.lift(a), tm.lift(b)))
        except (tm.Blowup, ZeroDivisionError): return False
    def fact(x, c): x.assume(c)
    def lt(x, a, b): return x.to_b(x.zcmp('<', tm.lift(a), tm.lift(b)))
    def le(x, a, b): return x.to_b(x.zcmp('<=', tm.lift(a), tm.lift(b)))
    def eqr(x, a, b): return x.to_b(x.zcmp('==', tm.lift(a), tm.lift(b)))
    def ne0(x, a): return x.to_b(x.zcmp('!=', tm.lift(a), ZERO))
    def cover(x, label): x.covers.add(label)
    def tag(x, v):
        """concrete tag of an enum (forking)"""
        v = x.deref(v)
        if isinstance(v.tag, int): return v.tag
        ks = sorted(v.vs)
        for k in ks[:-1]:
            if x.branch(v.tag == k): return k
        return ks[-1]
    def payload(x, v, k, i=0):
        v = x.deref(v); return v.vs[k][i]

    def abbr(x, t, base='ab'):
        """an atom standing for the term (equal to it by an assumed definition); the same one for equal normal forms"""
        t = tm.lift(t)
        if t.op in ('c', 'a'): return t
        k = ('abbr', tm.p_key(tm.poly(t)))
        a = x.memo.get(k)
        if a is None:
            a = x.fresh_T(base); x.memo[k] = a
            x.memo[('abdef', a.a)] = t
        return a
    def unabbr(x, t):
        return tm.subst(t, {a[1]: d for a, d in list(x.memo.items()) if isinstance(a, tuple) and a[0] == 'abdef'})
class Missing(Exception): pass
class NotFinite(Exception): pass

# ------------------------------------------------------------------ vector helpers on real terms
def vadd(a, b): return [p + q for p, q in zip(a, b)]
def vsub(a, b): return [p - q for p, q in zip(a, b)]
def vscale(a, s): return [p * s for p in a]
def vneg(a): return [tm.neg(p) for p in a]
def vdot(a, b):
    s = ZERO
    for p, q in zip(a, b): s = s + p * q
    return s
def vcross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def mvec(m, v):
    """column-major 3x3 times vector"""
    return [m[i] * v[0] + m[3 + i] * v[1] + m[6 + i] * v[2] for i in range(3)]
def mmul(a, b):
    return [sum_t([a[k * 3 + i] * b[j * 3 + k] for k in range(3)]) for j in range(3) for i in range(3)]
def mtrans(a): return [a[i * 3 + j] for j in range(3) for i in range(3)]
def sum_t(l):
    s = ZERO
    for p in l: s = s + p
    return s

class Result:
    def __init__(s, name):
        s.name = name; s.obs = []; s.paths = 0; s.ends = 0; s.covers = set(); s.errors = []
        s.contracts = set(); s.models = set(); s.functions = set(); s.notes = set(); s.secs = 0.0; s.infeasible = 0

PFX = re.compile(r'^\[((?:P\d\d[,/ ]*)+)\]')
def props_of(name, unit_props):
    m = PFX.match(name)
    return re.findall(r'P\d\d', m.group(1)) if m else unit_props
def one_path(prog, udef, run, tr):
    """execute the path named by the decisions tr: (what it yielded, the alternatives left open by it, restart?)"""
    r = Result(udef.name)
    x = Machine2(prog, tr, run)
    x.covers = set()
    try:
        udef.fn(x)
        r.ends += 1
    except PathEnd: r.ends += 1
    except loops.Restart:
        if loops.DEBUG: print('restart at %s' % x.where, flush=True)
        return r, [], True
    except Infeasible: r.infeasible += 1
    except Panic as e:
        if run.allow_panic: pass
        else: fail(x, 'no panic', '%s at %s' % (e.kind, e.where))
    except NotFinite:
        fail(x, 'result is finite', 'a non-finite float where a finite value is required')
    except Missing as e: r.errors.append(('missing', str(e)))
    except Unsupported as e: fail(x, 'within reach of the verifier', 'unsupported: %s' % e)
    except (Budget, tm.Blowup, RecursionError, ZeroDivisionError) as e: fail(x, 'within budget', '%s %s at %s' % (type(e).__name__, e, x.where))
    except z3.Z3Exception as e: fail(x, 'engine', 'z3: %s at %s' % (e, x.where))
    except Exception as e:
        fail(x, 'engine', '%s: %s at %s\n%s' % (type(e).__name__, e, x.where, traceback.format_exc()[-1500:]))
    r.paths += 1
    for o in x.obs:
        r.obs.append((o.name, o.ok, o.backend, round(o.secs, 4), o.detail if not o.ok else None, o.model if not o.ok else None, list(x.trace) if not o.ok else None))
    r.covers |= x.covers
    r.contracts |= x.used_contracts; r.models |= x.used_models; r.functions |= x.inlined; r.notes |= x.notes
    return r, list(x.pending), False
def merge(r, d):
    r.obs += d.obs; r.errors += d.errors; r.paths += d.paths; r.ends += d.ends; r.infeasible += d.infeasible
    for f in ('covers', 'contracts', 'models', 'functions', 'notes'): getattr(r, f).update(getattr(d, f))

class Pool:
    """forked copies of this process, each executing one path at a time"""
    def __init__(s, k, prog, udef, run):
        import multiprocessing as mp
        ctx = mp.get_context('fork'); s.ps = []; s.idle = []; s.busy = {}
        for _ in range(k):
            a, b = ctx.Pipe()
            def child(b=b):
                try: __import__('ctypes').CDLL(None).prctl(1, 9)   # goes when its parent goes
                except Exception: pass
                while True:
                    try: tr = b.recv()
                    except EOFError: break
                    if tr is None: break
                    try: d, pend, rs = one_path(prog, udef, run, tr)
                    except BaseException as e:
                        d = Result(udef.name); d.errors.append(('engine', 'path worker: %r' % e)); pend = []; rs = False
                    b.send((d, pend, rs))
                os._exit(0)
            p = ctx.Process(target=child, daemon=True); p.start(); b.close()
            s.ps.append((p, a)); s.idle.append(a)
    def give(s, tr):
        a = s.idle.pop(); s.busy[a] = tr; a.send(tr)
    def take(s, timeout):
        from multiprocessing.connection import wait
        out = []
        for a in wait(list(s.busy), timeout=timeout):
            tr = s.busy.pop(a)
            try: out.append((tr,) + a.recv()); s.idle.append(a)
            except EOFError:
                d = Result('?'); d.errors.append(('engine', 'a path worker died')); out.append((tr, d, [], False))
        return out
    def stop(s):
        for p, a in s.ps:
            p.kill(); p.join(); a.close()

def run_unit(prog, udef, tier='quick', verbose=False, only_trace=None, prop=None):
    r = Result(udef.name)
    t0 = time.time()
    run = Run(prog, udef, tier)
    run.prop = prop
    work = [()] if only_trace is None else [only_trace]
    done = 0
    need = set(udef.opts.get('covers', ())); restarts = 0
    shards = int(udef.opts.get('shards', 1)); pool = None; again = None; dirty = None; t1 = t0
    try:
        while work or (pool and pool.busy):
            if done > run.max_paths:
                r.errors.append(('engine', 'more than %d paths' % run.max_paths)); break
            if time.time() > run.deadline:
                r.errors.append(('engine', 'time budget of the unit exhausted after %d paths' % done)); break
            if pool is None and dirty is None and shards > 1 and done >= 12 and len(work) >= 4: pool = Pool(shards, prog, udef, run)
            if pool is None:
                tr = work.pop(); done += 1
                if PATHDEBUG: print('path %d %.1fs %s' % (done, time.time() - t0, len(tr)), flush=True)
                got = [(tr,) + one_path(prog, udef, run, tr)]
            else:
                while work and pool.idle: pool.give(work.pop()); done += 1
                got = pool.take(1.0)
                if any(g[3] for g in got):
                    # a worker found a loop invariant to weaken: this process repeats the path to learn the same
                    tr = [g[0] for g in got if g[3]][0]
                    pool.stop(); pool = None
                    got = [(tr,) + one_path(prog, udef, run, tr)]
                    if not got[0][3]:
                        r.errors.append(('engine', 'a loop invariant weakened by a path worker is not found by the main process')); break
            if any(g[3] for g in got):
                # a serial pass goes on for as long again, to learn about more loop facts to give up at once
                if pool is None and work:
                    if dirty is None: dirty = time.time() + min(40, time.time() - t1)
                    if time.time() < dirty: continue
                restarts += 1; dirty = None; t1 = time.time()
                if restarts > 60: r.errors.append(('engine', 'no stable loop invariants')); break
                if loops.DEBUG: print('restart %d after %d paths %.1fs' % (restarts, done, time.time() - t0), flush=True)
                r = Result(udef.name); work = [()]; done = 0; run.subcache = {}; run.sum_tab = {}; run.failed = {}
                continue
            if dirty is not None:
                for tr, d, pend, _ in got: work.extend(pend)
                if work and time.time() < dirty: continue
                restarts += 1; dirty = None; t1 = time.time()
                r = Result(udef.name); work = [()]; done = 0; run.subcache = {}; run.sum_tab = {}; run.failed = {}
                continue
            for tr, d, pend, _ in got:
                merge(r, d); work.extend(pend)
            bad = sum(1 for o in r.obs if not o[1] and (prop is None or prop in props_of(o[0], udef.props)))
            if bad > (3 if prop else 40):
                r.errors.append(('engine', 'stopped after %d failed obligations' % bad)); break
    finally:
        if pool: pool.stop()
    missing = need - r.covers
    for m in sorted(missing):
        r.obs.append(('reachable: ' + m, False, 'cover', 0.0, 'no path of the code under the stated precondition reaches this point', None, None))
    for m in sorted(need & r.covers):
        r.obs.append(('reachable: ' + m, True, 'cover', 0.0, None, None, None))
    if not r.obs and not r.errors: r.errors.append(('engine', 'no obligation generated'))
    r.secs = time.time() - t0
    return r
def fail(x, name, detail):
    # a failure on an infeasible path is not a failure
    ok, be, m = x.valid(False)
    x.obs.append(Ob(name, ok, be, 0.0, detail, m))

def show(r, full=False):
    bad = [o for o in r.obs if not o[1]]
    print('%-44s paths %d (infeasible %d) obligations %d failed %d errors %d  %.1fs' % (r.name, r.paths, r.infeasible, len(r.obs), len(bad), len(r.errors), r.secs))
    seen = set()
    for o in bad[:200]:
        k = (o[0], (o[4] or '')[:120])
        if k in seen and not full: continue
        seen.add(k)
        print('   FAIL %s [%s] %s' % (o[0], o[2], (o[4] or '')[:700]))
        if o[5] and full: print('        model:', o[5][:1500])
        if full: print('        trace:', o[6])
    for e in r.errors: print('   ERROR', e)

def _lemma(x, name, hyps, concl, args):
    """instantiate  forall v: hyps(v) -> concl(v)  at the terms args: the implication is proved over fresh reals,
    the hypotheses at the arguments, and the conclusion is then available as a fact."""
    n = len(args)
    vs = [z3.Real('lem!%d' % i) for i in range(n)]
    H, C = hyps(*vs), concl(*vs)
    H = [zfrac(h) for h in H]
    key = ('lemma', name, str(H), str(C))
    if key not in LEMMAS:
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 60000); s.add(list(H)); s.add(z3.Not(C))
        r = s.check()
        LEMMAS[key] = (r == z3.unsat, time.time() - t0, 'z3-lemma' if r != z3.unknown else 'z3-unknown')
    ok, secs, be = LEMMAS[key]
    x.obs.append(Ob(name + ' (lemma)', ok, be, secs, None if ok else 'lemma not proved: %s => %s' % (H, C)))
    for i, h in enumerate(hyps(*[Rz(a) for a in args])):
        x.prove('%s (premise %d of lemma)' % (name, i), h.z())
    c = concl(*[Rz(a) for a in args])
    x.assume(c.z())
    return ok
LEMMAS = {}
def zfrac(e): return e
class Bz:
    """boolean combination over Rz, convertible to z3"""
    def __init__(s, f): s.f = f
    def z(s): return s.f()
class Rz:
    """a real term usable with the same operators as z3 reals"""
    def __init__(s, t): s.t = tm.lift(t)
    def _o(s, o): return o.t if isinstance(o, Rz) else tm.lift(o)
    def __add__(s, o): return Rz(s.t + s._o(o))
    __radd__ = __add__
    def __sub__(s, o): return Rz(s.t - s._o(o))
    def __rsub__(s, o): return Rz(s._o(o) - s.t)
    def __mul__(s, o): return Rz(s.t * s._o(o))
    __rmul__ = __mul__
    def __neg__(s): return Rz(tm.neg(s.t))
    def _c(s, o, op):
        d = tm.sub(s.t, s._o(o))
        if d.op == 'c':
            v = d.a; r = {'<': v < 0, '<=': v <= 0, '==': v == 0, '>': v > 0, '>=': v >= 0}[op]
            return Bz(lambda: z3.BoolVal(r))
        try:
            if tm.is_zero(d): 
                return Bz(lambda: z3.BoolVal(op in ('<=', '==', '>=')))
        except tm.Blowup: pass
        z = tm.to_z3(d)
        e = {'<': lambda: z < 0, '<=': lambda: z <= 0, '==': lambda: z == 0, '>': lambda: z > 0, '>=': lambda: z >= 0}[op]()
        return Bz(lambda: e)
    def __lt__(s, o): return s._c(o, '<')
    def __le__(s, o): return s._c(o, '<=')
    def __gt__(s, o): return s._c(o, '>')
    def __ge__(s, o): return s._c(o, '>=')
    def __eq__(s, o): return s._c(o, '==')
    __hash__ = None
def lOr(*a): return Bz(lambda: z3.Or([p.z() for p in a])) if isinstance(a[0], Bz) else z3.Or(*a)
def lAnd(*a): return Bz(lambda: z3.And([p.z() for p in a])) if isinstance(a[0], Bz) else z3.And(*a)
def lImp(a, b): return Bz(lambda: z3.Implies(a.z(), b.z())) if isinstance(a, Bz) else z3.Implies(a, b)
Machine2.lemma = _lemma
