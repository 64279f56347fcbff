"""One symbolic path: decisions, facts, store, obligations."""
import time, z3
from fractions import Fraction
import terms as tm
from terms import T, atom, const, ZERO, ONE
from vals import *

import itertools
_SQ = itertools.count()
BRANCHDEBUG = __import__('os').environ.get('BRANCHDEBUG')
class PathEnd(Exception): pass
class Infeasible(Exception): pass
class Captured(Exception):
    def __init__(s, v): s.v = v
class Panic(Exception):
    def __init__(s, kind, where): Exception.__init__(s, kind); s.kind = kind; s.where = where
class Budget(Exception): pass

LIGHT_RL = 400000      # z3 rlimit of a branch feasibility query
HEAVY_RL = 12000000    # z3 rlimit of an obligation

class Ob:
    __slots__ = ('name', 'ok', 'backend', 'secs', 'detail', 'model')
    def __init__(s, name, ok, backend, secs, detail=None, model=None):
        s.name = name; s.ok = ok; s.backend = backend; s.secs = secs; s.detail = detail; s.model = model

class Ctx:
    def __init__(s, prog, trace, unit):
        s.prog = prog; s.unit = unit
        s.trace = list(trace); s.pos = 0
        s.pending = []           # alternative traces discovered
        s.solver = z3.Solver(); s.solver.set('rlimit', LIGHT_RL); s.solver.set('timeout', 4000)
        s.pc = []; s.pcset = set()
        s.store = {}
        s.nfresh = 0
        s.nframe = 0
        s.obs = []
        s.steps = 0
        s.clsmap = {}
        s.eqrep = {}
        s.memo = {}
        s.notes = set()
        s.where = ''
        s.sums = []
        s.foralls = []
        s.fl_foralls = []
        s.handles = {}           # kind -> list of handle terms seen
        s.used_contracts = set(); s.used_models = set(); s.inlined = set()
        s.callstack = []
        s.sub = 0
        s.rb = Rebuild(s)
        s.set_inv = {}; s.enums = {}; s.setkind = {}; s.anys = {}; s.probes = {}; s.ident = ()
        s.covers = set()
    # ---------------------------------------------------------------- fresh
    def _n(s, base):
        s.nfresh += 1
        return '%s!%d' % (base, s.nfresh)
    def fresh_real(s, base='r'): return z3.Real(s._n(base))
    def fresh_int(s, base='i'): return z3.Int(s._n(base))
    def fresh_bool(s, base='b'): return z3.Bool(s._n(base))
    def fresh_arr(s, sort, base='A'): return z3.Const(s._n(base), arr_sort(sort))
    def fresh_T(s, base='r'): return atom(s.fresh_real(base))
    def fresh(s, tpl, base):
        """fresh symbolic value of a template"""
        n = [0]
        def gen():
            for srt in leaf_sorts(tpl):
                n[0] += 1
                yield z3.Const(s._n('%s.%d' % (base, n[0])), srt)
        v = s.rb(tpl, gen())
        s.bound(tpl, v)
        return v
    def bound(s, tpl, v):
        """range facts for integers and tags"""
        k = tpl[0]
        if k == 'I':
            if not isinstance(v.t, int):
                lo, hi = int_range(tpl[1], tpl[2])
                s.assume(z3.And(v.t >= lo, v.t <= hi))
        elif k == 'X':
            if v.k == 's': s.assume(z3.And(v.t[0] >= 0, v.t[0] <= 3))
        elif k == 'agg':
            for x, y in zip(tpl[1], v.f): s.bound(x, y)
        elif k == 'enum':
            if not isinstance(v.tag, int):
                s.assume(z3.Or([v.tag == n for n in tpl[1]]))
            for n in tpl[1]:
                if n in v.vs:
                    for x, y in zip(tpl[1][n], v.vs[n]): s.bound(x, y)
        elif k == 'dyn':
            if not isinstance(v.tag, int): s.assume(z3.And(v.tag >= 0, v.tag < len(tpl[1])))
            for n in tpl[1]:
                if n in v.im: s.bound(tpl[1][n], v.im[n])
        elif k in ('box', 'cell'): s.bound(tpl[1], v.v)
    def vec_len(s, n):
        s.assume(z3.And(n >= 0, n <= 2**63 - 1))
    def unit_quat(s, q):
        """register i^2+j^2+k^2+w^2=1 on fresh atom components"""
        if all(x.op == 'a' for x in q):
            if tm.ATOMS[q[3].a].sq is None:
                tm.set_square(q[3], ONE - q[0] * q[0] - q[1] * q[1] - q[2] * q[2])
    def nonfinite_store(s, v):
        s.prove('stored value is finite', False, detail='a non-finite float reaches a stored field (%s) in %s' % (v.k, s.where))
    # ---------------------------------------------------------------- facts
    def assume(s, c):
        if c is True: return
        if c is False: raise Infeasible()
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        i = c.get_id()
        if i in s.pcset: return
        s.pcset.add(i)
        s.pc.append(c)
        if s.solver is not None: s.solver.add(c)
    def solver_open(s):
        if s.solver is None:
            s.solver = z3.Solver(); s.solver.set('rlimit', LIGHT_RL); s.solver.set('timeout', 4000)
            s.solver.add(s.pc)
    def feasible(s, c):
        if s.solver is None: s.solver_open()
        s.solver.push()
        s.solver.add(c)
        r = s.solver.check()
        s.solver.pop()
        return r != z3.unsat
    def entails_light(s, c):
        if isinstance(c, bool): return c
        if c.get_id() in s.pcset: return True
        return not s.feasible(z3.Not(c))
    def tick(s):
        s.steps += 1
        if s.steps > s.unit.max_steps: raise Budget('step budget')
        if s.unit.deadline and time.time() > s.unit.deadline: raise Budget('time budget')
    def branch(s, c):
        """fork on a condition"""
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if c.get_id() in s.pcset: return True
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in s.pcset: return False
        if s.pos < len(s.trace):
            d = s.trace[s.pos]; s.pos += 1
            if BRANCHDEBUG == '2': print('   %d replay %s %s' % (s.pos - 1, d, ' '.join(str(c).split())[:160]))
        else:
            t0 = time.time()
            t = s.feasible(c)
            f = s.feasible(nc) if t else True
            if BRANCHDEBUG: print('   %s %d %s%s %.1fs %s' % (s.where_now() if hasattr(s, 'where_now') else '', s.pos, 'T' if t else '', 'F' if f else '', time.time() - t0, ' '.join(str(c).split())[:160]), flush=True)
            if t and f:
                s.pending.append(s.trace[:s.pos] + [False])
                d = True
            elif t: d = True
            else: d = False
            s.trace.append(d); s.pos += 1
        s.assume(c if d else nc)
        return d
    def choose(s, n, label=''):
        """unconstrained n-way choice (all alternatives are explored)"""
        for i in range(n - 1):
            if s.pos < len(s.trace):
                d = s.trace[s.pos]; s.pos += 1
            else:
                s.pending.append(s.trace[:s.pos] + [False]); d = True
                s.trace.append(d); s.pos += 1
            if d: return i
        return n - 1
    def is_eq(s, a, b):
        """decide (forking if needed) whether two integer terms are equal"""
        a = s.rep(a); b = s.rep(b)
        if isinstance(a, int) and isinstance(b, int): return a == b
        k = ('iseq', a if isinstance(a, int) else a.get_id(), isinstance(a, int), b if isinstance(b, int) else b.get_id(), isinstance(b, int))
        m = s.memo.get(k)
        if m is not None: return m[0]
        if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return True
        r = s.branch(zi(a) == zi(b))
        s.memo[k] = (r, a, b)
        if r and not isinstance(a, int) and not isinstance(b, int):
            s.eqrep[a.get_id()] = b; s.memo[('keep', a.get_id())] = a
        return r
    def rep(s, a):
        if isinstance(a, int): return a
        while a.get_id() in s.eqrep: a = s.eqrep[a.get_id()]
        return a
    # ---------------------------------------------------------------- floats
    def conc(s, v):
        """make the class of a float concrete (forking)"""
        if v.k != 's': return v
        c, t = v.t
        key = c.get_id()
        k = s.clsmap.get(key)
        if k is None:
            if s.branch(c == FIN): k = 'f'
            elif s.branch(c == NAN_): k = 'n'
            elif s.branch(c == PINF): k = '+'
            else: k = '-'
            s.clsmap[key] = k; s.memo[('cls', key)] = c
        return Fl('f', t) if k == 'f' else Fl(k)
    def lt0(s, t):
        """fork on t < 0"""
        return s.branch(s.zcmp('<', t, ZERO))
    def zcmp(s, op, a, b):
        d = tm.sub(a, b)
        if d.op == 'c':
            x = d.a
            return {'<': x < 0, '<=': x <= 0, '==': x == 0, '>': x > 0, '>=': x >= 0, '!=': x != 0}[op]
        if op in ('==', '!='):
            try:
                if tm.is_zero(d): return op == '=='
            except tm.Blowup: pass
        z = norm_sign_z(d)
        return {'<': lambda: z < 0, '<=': lambda: z <= 0, '==': lambda: z == 0, '>': lambda: z > 0, '>=': lambda: z >= 0, '!=': lambda: z != 0}[op]()
    def sign(s, t):
        """fork: -1, 0, 1"""
        if t.op == 'c': return (t.a > 0) - (t.a < 0)
        if s.branch(s.zcmp('==', t, ZERO)): return 0
        return 1 if s.branch(s.zcmp('>', t, ZERO)) else -1
    def fadd(s, a, b):
        a = s.conc(a); b = s.conc(b)
        if a.k == 'f' and b.k == 'f': return Fl('f', tm.add(a.t, b.t))
        if 'n' in (a.k, b.k): return NAN
        if a.k == 'f': return b
        if b.k == 'f': return a
        return a if a.k == b.k else NAN
    def fneg(s, a):
        a = s.conc(a)
        if a.k == 'f': return Fl('f', tm.neg(a.t))
        return {'n': NAN, '+': MINF, '-': INF}[a.k]
    def fsub(s, a, b): return s.fadd(a, s.fneg(b))
    def fmul(s, a, b):
        a = s.conc(a); b = s.conc(b)
        if a.k == 'f' and b.k == 'f': return Fl('f', tm.mul(a.t, b.t))
        if 'n' in (a.k, b.k): return NAN
        sa = s.sign(a.t) if a.k == 'f' else (1 if a.k == '+' else -1)
        sb = s.sign(b.t) if b.k == 'f' else (1 if b.k == '+' else -1)
        if sa * sb == 0: return NAN
        return INF if sa * sb > 0 else MINF
    def fdiv(s, a, b):
        a = s.conc(a); b = s.conc(b)
        if 'n' in (a.k, b.k): return NAN
        if b.k in '+-':
            if a.k in '+-': return NAN
            return Fl('f', ZERO)
        if a.k in '+-':
            sb = s.sign(b.t)
            if sb == 0: sb = s.zero_sign(b.t)
            pos = (a.k == '+') == (sb > 0)
            return INF if pos else MINF
        # finite / finite
        if b.t.op == 'c':
            if b.t.a != 0: return Fl('f', tm.div(a.t, b.t))
            z = True
        else: z = s.branch(s.zcmp('==', b.t, ZERO))
        if not z:
            return s.mkdiv(a.t, b.t)
        if b.t.op != 'c' and a.t.op != 'c':
            # x / (+-0): NaN for x = 0, otherwise an infinity of either sign (decided only when looked at)
            c = s.fresh_int('divcls')
            s.assume(z3.Or(c == NAN_, c == PINF, c == MINF))
            s.assume(s.to_b(s.zcmp('==', a.t, ZERO)) == (c == NAN_))
            return Fl('s', (c, ZERO))
        sa = s.sign(a.t)
        if sa == 0: return NAN
        zs = s.zero_sign(b.t)
        return INF if sa * zs > 0 else MINF
    def zero_sign(s, t):
        """sign of a zero denominator: only the literal constant is known to be +0"""
        if t.op == 'c': return 1
        return 1 if s.choose(2) == 0 else -1
    def mkdiv(s, a, b):
        r = tm.recip(b)
        s.recip_facts(r, b)
        return Fl('f', tm.mul(a, r))
    def recip_facts(s, r, b):
        try:
            zr = tm.to_z3(r); zb_ = tm.to_z3(b)
        except ZeroDivisionError:
            raise Infeasible()
        k = ('recip', zr.get_id(), zb_.get_id())
        if k in s.memo: return
        s.memo[k] = (zr, zb_)
        s.assume(z3.And((zb_ > 0) == (zr > 0), (zb_ < 0) == (zr < 0)))
    def fsqrt(s, a):
        a = s.conc(a)
        if a.k == 'n' or a.k == '-': return NAN
        if a.k == '+': return INF
        t = a.t
        if t.op == 'c' and t.a >= 0:
            import math
            n, d = t.a.numerator, t.a.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d: return fin(Fraction(rn, rd))
        if not sum_of_squares(t) and s.lt0(t): return NAN
        return Fl('f', s.sqrt_t(t))
    def sqrt_t(s, t):
        """the non-negative root of a term known to be >= 0"""
        try: key = tm.p_key(tm.poly(t))
        except tm.Blowup: key = t.id
        r = s.unit.sqrt_tab.get(key)
        if r is None:
            r = atom(z3.Real('sqrt!%d' % next(_SQ)))
            s.unit.sqrt_tab[key] = r
            tm.set_square(r, t)
        k = ('sqrtf', r.id)
        if k not in s.memo:
            s.memo[k] = 1
            zt = tm.to_z3(t); zr = tm.to_z3(r)
            s.assume(zr >= 0); s.assume(zt >= 0)
            s.assume((zr == 0) == (zt == 0))
        return r
    def fcmp(s, op, a, b):
        """-> python bool or z3 Bool"""
        a = s.conc(a); b = s.conc(b)
        if a.k == 'f' and b.k == 'f':
            return s.zcmp({'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Eq': '==', 'Ne': '!='}[op], a.t, b.t)
        if 'n' in (a.k, b.k): return op == 'Ne'
        v = {'f': 0, '+': 1, '-': -1}
        x, y = v[a.k], v[b.k]
        return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op]
    # ---------------------------------------------------------------- obligations
    def prove(s, name, goal, detail=None, assume=True, heavy=HEAVY_RL):
        t0 = time.time()
        full = name
        if s.unit.failed.get(name, 0) >= 2: heavy = min(heavy, 2 * LIGHT_RL)      # it has failed already
        ok, be, model = s.valid(goal, heavy)
        if not ok: s.unit.failed[name] = s.unit.failed.get(name, 0) + 1
        s.obs.append(Ob(full, ok, be, time.time() - t0, detail or (None if ok else short(goal)), model))
        if assume and not isinstance(goal, bool): 
            try: s.assume(goal)
            except Infeasible: pass
        return ok
    def prove_eq(s, name, a, b, detail=None):
        """exact equality of reals: ring normal form first, then z3"""
        t0 = time.time()
        a = tm.lift(a); b = tm.lift(b)
        ok = False
        try: ok = tm.is_zero(tm.sub(a, b))
        except (tm.Blowup, ZeroDivisionError): pass
        if ok:
            s.obs.append(Ob(name, True, 'ring', time.time() - t0))
            return True
        return s.prove(name, s.zcmp('==', a, b), detail or '%r == %r' % (a, b) if len(repr(a)) + len(repr(b)) < 1500 else 'equality')
    def valid(s, goal, heavy=HEAVY_RL):
        if isinstance(goal, bool):
            if goal: return True, 'trivial', None
            # must be unreachable
            r, be, m = s.check_unsat([], heavy)
            return r, be, m
        g = z3.simplify(goal)
        if z3.is_true(g): return True, 'simplify', None
        if g.get_id() in s.pcset: return True, 'assumed', None
        return s.check_unsat([z3.Not(goal)], heavy)
    def valid_quick(s, goal):
        """validity of a candidate fact: linear arithmetic, then the closely related facts"""
        if isinstance(goal, bool): return goal
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        if g.get_id() in s.pcset: return True
        if s.solver is None: s.solver_open()
        sv = s.solver
        sv.push(); sv.set('rlimit', LIGHT_RL)
        sv.add(z3.Not(goal)); r = sv.check(); sv.pop()
        if r == z3.unsat: return True
        ex = [z3.Not(goal)]
        fs = list(s.relevant(ex, 1)) + ex
        sv2 = z3.Solver(); sv2.set('rlimit', LIGHT_RL); sv2.set('timeout', 2000)
        sv2.add(fs); sv2.add(tm.definitions(fs))
        return sv2.check() == z3.unsat
    def check_unsat(s, extra, heavy):
        # 1 light: linear arithmetic over monomials
        if s.solver is None: s.solver_open()
        sv = s.solver
        sv.push(); sv.set('rlimit', 2 * LIGHT_RL)
        for e in extra: sv.add(e)
        r = sv.check()
        sv.pop(); sv.set('rlimit', LIGHT_RL)
        if r == z3.unsat: return True, 'z3-linear', None
        # 2 heavy on the relevant facts
        model = None
        for facts in ([s.relevant(extra, 1)] if extra else []) + [s.pc]:
            fs = list(facts) + list(extra)
            defs = tm.definitions(fs)
            sv2 = z3.Solver(); sv2.set('rlimit', heavy); sv2.set('timeout', 20000)
            sv2.add(fs); sv2.add(defs)
            r = sv2.check()
            if r == z3.unsat: return True, 'z3', None
            if facts is s.pc and r == z3.sat:
                try: model = model_str(sv2.model())
                except z3.Z3Exception: model = None
                return False, 'z3', model
        return False, 'z3-unknown' if r == z3.unknown else 'z3', model
    def relevant(s, extra, hops):
        """facts sharing atoms with the goal"""
        defs = tm.definitions(extra)
        cs, _ = tm.z3_consts(list(extra) + defs)
        keep = set(cs)
        out = []
        fc = [(f, tm.reach(f)) for f in s.pc]
        for f, c in fc:
            if c & keep and len(c - keep) <= 6: out.append(f)
        return out
    def note(s, what): s.notes.add(what)

def short(g):
    t = str(g)
    return t if len(t) < 1500 else t[:1500] + '...'
def model_str(m):
    out = []
    for d in m.decls():
        if len(out) > 80: break
        out.append('%s = %s' % (d.name(), m[d]))
    return '; '.join(out)[:4000]

def int_range(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

def norm_sign_z(d):
    return tm.to_z3(d)
def sum_of_squares(t):
    """syntactic check that the polynomial is a sum of squares of monomials with positive coefficients"""
    try: p = tm.poly(t)
    except tm.Blowup: return False
    # the normal form may have eliminated unit relations; only the direct shape is recognised
    if all(v > 0 and all(e % 2 == 0 for _, e in m) for m, v in p.items()): return True
    return _sos_dag(t)
def _sos_dag(t):
    if t.op == 'c': return t.a >= 0
    if t.op == '+': return _sos_dag(t.a[0]) and _sos_dag(t.a[1])
    if t.op == '*':
        if t.a[0] is t.a[1]: return True
        return _sos_dag(t.a[0]) and _sos_dag(t.a[1])
    return False
