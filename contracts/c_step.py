"""PhysicsSystem::step"""
from unit import *
from c_world import World, massok
from c_wake import WAKE, Arr, S2
from c_api import P, Post, start, probe, settings_same, frame_collider, frame_generators, issued_grow
from c_impulse import INV, DEN, IMPULSE, APPLY, side, point_velocity, quad, response, den_term, mass_ok
import loops, cuts
from cuts import Cfg, calls_in

# ------------------------------------------------------------------ contracts of the callees
def collide_result(x, c):
    """any contact collide() may report: time within the step, a position, a unit normal or none at all (not a number)"""
    r, a = x.ref_target(c.args[0]); r2, b = x.ref_target(c.args[3])
    x.memo['collides'] = list(x.memo.get('collides', [])) + [None]
    tid = c.dty
    k = x.choose(3)
    if k == 2: 
        x.memo['collides'][-1] = (c.args, None); return VEnum(0, {0: ()}, tid)
    t = x.real('ct')
    x.fact(x.le(0, t.t)); x.fact(x.le(t.t, 1))
    p = x.vec('cp')
    if k == 0:
        n = x.vec('cn'); a, b, d = x.ts(n)
        tm.set_square(d, ONE - a * a - b * b)
        for q in (a, b, d): x.fact(x.le(-1, q)); x.fact(x.le(q, 1))
    else: n = VMat(3, 1, [NAN] * 3)
    v = x.struct('Collision', times=x.call('Range::single', t), position=p, normal=n)
    x.memo['collides'][-1] = (c.args, v)
    x.collided = [x.rep([e[1] for e in q.path if e[0] == 'a'][-1]) for q in (r, r2)]
    return VEnum(1, {1: (v,)}, tid)
def only(x, c):
    a, b = x.deref(c.args[0]), x.deref(c.args[1])
    m = '+'.join('infinite' if x.conc(x.field(e, 'total_mass')).k == '+' else 'finite' for e in (a, b))
    if getattr(x, 'masses', m) != m: raise PathEnd()       # the other combinations have units of their own
    if not all(mass_ok(x, e) for e in (a, b)): raise PathEnd()      # nothing is claimed for an entity of zero mass
    return IMPULSE.fn(x, c)
ONLY = Contract('calc_collision_impulse', only)
COLLIDE = Contract('collide', collide_result)
def make_force(x, c):
    r, v = x.ref_target(c.args[0])
    g = [e[1] for e in r.path if e[0] == 'a'][-1]
    h = x.rep(x.deref(c.args[3]).t)
    f = [z3.Function('force%d' % i, z3.IntSort(), z3.IntSort(), z3.RealSort()) for i in range(6)]
    v = [atom(q(g, h)) for q in f]
    return x.struct('Force', force=VMat(3, 1, [Fl('f', q) for q in v[:3]]), position=VMat(3, 1, [Fl('f', q) for q in v[3:]]))
FORCE = Contract('make_force', make_force)
def coef(n):
    F = z3.Function('coef_' + n, z3.IntSort(), z3.RealSort())
    def ap(x, c):
        r, v = x.ref_target(c.args[0])
        h = x.rep([e[1] for e in r.path if e[0] == 'a'][-1])
        t = atom(F(h))
        x.fact(x.le(0, t))
        if n != 'friction_threshold': x.fact(x.le(t, 1))
        if getattr(x, 'frictionless', False) and n in ('static_friction_coefficient', 'dynamic_friction_coefficient'): return fin(0)
        return Fl('f', t)
    ap.F = F
    return ap
COEF = {n: coef(n) for n in ('restitution_coefficient', 'friction_threshold', 'static_friction_coefficient', 'dynamic_friction_coefficient')}
COEFC = {'get_' + n: Contract('get_' + n + ' is the coefficient stored in the collider, between 0 and 1', f) for n, f in COEF.items()}
PURES = {n: pure(n) for n in ('get_total_energy', 'after_affected')}
CON = {'collide': COLLIDE, 'make_force': FORCE, 'wake_up': WAKE, 'get_inverse_moment_of_inertia': INV, 'calc_collision_impulse_denominator': DEN,
       'calc_collision_impulse': ONLY, 'apply_impulse': APPLY}
CON.update(PURES)

# ------------------------------------------------------------------ loops of step by what they do
def role(x, f, bb, body):
    key = ('role', f['key'], bb)
    r = x.prog._loops.get(key)
    if r is None:
        c = calls_in(x, f, body)
        r = 'iteration' if 'collide' in c and ('apply_impulse' in c or 'wake_up' in c) else 'search' if 'collide' in c else 'integrate' if 'make_force' in c else 'sleep' if 'get_total_energy' in c else 'advance' if 'affect_with' in c else 'other'
        x.prog._loops[key] = r
    return r
def named_probe(x, kind, name):
    h = z3.Int(name)
    x.unit.instantiate(x, kind, h)
    x.probes.setdefault(kind, []).append(h)
    return h
class Search(Cfg): mode = 'last'

class State:
    """the parts of the system a step changes, and the per-entity movements (the one list of EntityStepInfo)"""
    def __init__(s, x, w, fid):
        s.sys = x.deref(w.sys)
        s.E = w.arena(s.sys, 'entities'); s.A = Arr(x, s.E)
        s.rec = x.field(s.sys, 'collision_records')
        s.info = None
        for k, v in x.store.items():
            if k[0] == fid and type(v) is VVec and is_info(x, v):
                if s.info is not None: raise Unsupported('two lists of movements')
                s.info, s.iroot = v, k
        if s.info is None: raise Unsupported('no list of movements')
        i = x.prog.field_index(s.info.tpl[2], 'neighbors'); s.jn = sum(len(leaf_sorts(t)) for t in s.info.tpl[1][:i])
        i = x.prog.field_index(s.info.tpl[2], 'handle'); s.jh = sum(len(leaf_sorts(t)) for t in s.info.tpl[1][:i])
        arrs = s.info.el.arrs
        s.inbrs, s.ihandle = arrs[s.jn], arrs[s.jh]
from unit import lAnd
def is_info(x, v):
    return v.tpl[0] == 'agg' and 'EntityStepInfo' in x.prog.types[v.tpl[2]].get('name', '')

def leaf_range(x, tpl, path):
    """indices of the arrays of a (nested) field of an aggregate"""
    o = 0
    for n in path:
        i = x.prog.field_index(tpl[2], n)
        o += sum(len(leaf_sorts(t)) for t in tpl[1][:i])
        tpl = tpl[1][i]
    return range(o, o + len(leaf_sorts(tpl)))
MOVING = [('orientation', 'position'), ('orientation', 'rotation'), ('velocity',), ('angular_velocity',), ('asleep',), ('neighbors',)]
class Kept:
    """what the frame of the iterations promises about the values it lets change: floats stay finite, rotations stay rotations"""
    def get(s, k, d=None): return k[1] not in ('ext', 'nonunit')
class Iteration(Cfg):
    mode = 'inv'; ab = None
    def frame(c, x, L):
        w = c.w; s = State(x, w, L.fid)
        r, pe = w.sys.root, tuple(w.sys.path)
        fi = lambda n: ('f', x.idx(s.sys, n))
        cell = pe + (fi('entities'), ('cell',))
        out = {(r, cell, ('arr', j)) for f in MOVING for j in leaf_range(x, s.E.el.tpl, f)}
        rec = pe + (fi('collision_records'),)
        out |= {(r, rec, 'n')} | {(r, rec, ('arr', j)) for j in range(len(s.rec.el.arrs) if s.rec.el else len(leaf_sorts(s.rec.tpl)))}
        out.add((r, pe + (fi('debug'),), 'log'))
        out |= {(s.iroot, (), ('arr', j)) for j in range(len(s.info.el.arrs)) if j != s.jh}
        return out
    def framed(c, x, L):
        """the frame other units rely on"""
        A = c.frame(x, L)
        last = [k for k in getattr(L, 'exit_diff', []) if k[2] != 'drop']
        bad = [k for k in list(L.M) + last if k not in A and k[0][0] != L.fid]
        x.prove('[P02,P04,P16,P19] the collision iterations change nothing but poses, velocities, sleep and resting' + (' (%s)' % (bad[:2],) if bad else ''), not bad)
        lost = [k for k in L.st if k[1] in ('ext', 'nonunit') and k[0] in A]
        x.prove('[P16] poses and velocities stay finite, rotations stay rotations', not lost)
    def entry(c, x, L):
        c.w = x.world
        x.note('collision iteration')
        c.check(x, L, 'before the first iteration')
    def check(c, x, L, when):
        s = State(x, c.w, L.fid)
        a, b = [x.rep(p) for p in c.ab] if c.ab else (x.fresh_int('na'), x.fresh_int('nb'))
        def run(y):
            for h in (a, b): y.unit.instantiate(y, 'entity', h)
            y.assume(y.to_b(y.sel(c.w.E0.present, a)))
            y.assume(y.to_b(y.sel(y.sel(s.A.nbrs, a), b)))
            y.prove('[P16] %s: resting is symmetric, between existing entities' % when, z3.And(y.to_b(y.sel(s.E.present, b)), y.to_b(y.sel(y.sel(s.A.nbrs, b), a))))
            return ('val', None)
        for _, q in x.sub_paths('sym ' + when, run, 60): x.obs += q.obs
        k = x.fresh_int('ni')
        def met(y):
            y.unit.instantiate(y, 'entity', b)
            y.assume(z3.And(k >= 0, k < zi(s.info.n)))
            y.assume(y.to_b(y.sel(y.sel(s.inbrs, k), b)))
            y.prove('[P03,P16] %s: everything met during the step exists' % when, y.to_b(y.sel(s.E.present, b)))
            return ('val', None)
        for _, q in x.sub_paths('met ' + when, met, 60): x.obs += q.obs
    def assume(c, x, L, e, cnt):
        w = c.w; s = c.pre = State(x, w, L.fid)
        x.setkind[s.A.nbrs.get_id()] = 'entity'; x.setkind[s.inbrs.get_id()] = 'entity'
        x.set_inv.setdefault(s.A.nbrs.get_id(), []).append(('present entity', lambda z, h, e: z.sel(w.E0.present, e)))
        x.set_inv.setdefault(s.inbrs.get_id(), []).append(('present entity', lambda z, h, e: z.sel(w.E0.present, e)))
        def sym(y, kind, h):
            if kind != 'entity': return
            for o in list(y.handles['entity']):
                for a, b in ((h, o), (o, h)):
                    y.assume(z3.Implies(z3.And(z3.Select(w.E0.present, a), S2(s.A.nbrs, a, b)), z3.And(z3.Select(w.E0.present, b), S2(s.A.nbrs, b, a))))
        for h in list(x.handles.get('entity', [])): sym(x, 'entity', h)
        x.memo['hooks'] = list(x.memo.get('hooks', [])) + [sym]
    def begin(c, x, L, e): pass
    def back(c, x, L, e): c.check(x, L, 'after an iteration'); x.cover('back')
    def broke(c, x, L, e): c.check(x, L, 'after the last iteration'); x.cover('broke'); raise PathEnd()
    def done(c, x, L): x.cover('exhausted'); raise PathEnd()

# ------------------------------------------------------------------ the response to a collision (P08, P09, P10)
def cls(x, e):
    return 'infinite' if x.conc(x.field(e, 'total_mass')).k == '+' else 'finite'
class Response(Iteration):
    def entry(c, x, L): c.w = x.world
    def check(c, x, L, when): pass
    def broke(c, x, L, e): raise PathEnd()
    def done(c, x, L): raise PathEnd()
    def back(c, x, L, e):
        w = c.w; pre = c.pre
        q = State(x, w, L.fid)
        if x.memo.get('zero mass'): raise PathEnd()
        if not x.prove('[P08,P09,P10,P14] every handled collision is recorded', zi(q.rec.n) == zi(pre.rec.n) + 1): return
        r = x.get1(q.rec, ('e', pre.rec.n))
        h1, h2 = x.rep(x.field(r, 'first_entity').t), x.rep(x.field(r, 'second_entity').t)
        x.prove('[P14,P08] the two entities of a record are different ones', h1 != h2)
        a0, b0 = x.rebuild_at(pre.E.el, h1), x.rebuild_at(pre.E.el, h2)
        a1, b1 = x.rebuild_at(q.E.el, h1), x.rebuild_at(q.E.el, h2)
        n, p = x.ts(x.field(r, 'normal')), x.ts(x.field(r, 'position'))
        A, B = at_rest_side(x, a0, a1, p), at_rest_side(x, b0, b1, p)
        U = lambda l: [expand(x, t) for t in l]
        V = lambda e, f: x.ts(x.field(e, f))
        # what was applied: opposite impulses at the recorded point, in pairs
        ap = x.memo.get('applied', [])
        k1 = [ZERO] * 3; k2 = [ZERO] * 3
        va, vb = V(a1, 'velocity'), V(b1, 'velocity'); wa, wb_ = V(a1, 'angular_velocity'), V(b1, 'angular_velocity')
        imp = impulses(x, ap, A, B)
        x.prove('[P08,P09,P10] impulses act in opposite pairs at one point', imp is not None)
        if imp is None: return
        k = [ZERO] * 3
        for j in imp: k = vadd(k, j)
        nm = '+'.join(cls(x, e) for e in (a0, b0))
        for sgn, S, e0, e1 in ((ONE, A, a0, a1), (tm.neg(ONE), B, b0, b1)):
            kk = vscale(k, sgn)
            dv, dw = vsub(U(V(e1, 'velocity')), V(e0, 'velocity')), vsub(U(V(e1, 'angular_velocity')), V(e0, 'angular_velocity'))
            if S['w'] is None:
                x.eq_all('[P08] an entity of infinite mass keeps its velocity', dv, [ZERO] * 3)
                x.eq_all('[P08] an entity of infinite mass keeps its spin', dw, [ZERO] * 3)
            else:
                m = x.conc(x.field(e0, 'total_mass')).t
                x.eq_all('[P08,P09] mass * velocity change = the total impulse, opposite on the two', vscale(dv, m), U(kk))
                x.eq_all('[P08,P09] spin change = inverse inertia (arm x the total impulse)', dw, U(mvec(S['J'], vcross(S['r'], kk))))
        # nobody else
        o = x.fresh_int('bystander'); x.unit.instantiate(x, 'entity', o)
        x.assume(z3.And(o != h1, o != h2))
        x.assume(x.to_b(x.sel(pre.E.present, o)))
        o0, o1 = x.rebuild_at(pre.E.el, o), x.rebuild_at(q.E.el, o)
        for f in ('velocity', 'angular_velocity'): x.eq_val('[P08] entities not taking part keep their velocities', x.field(o1, f), x.field(o0, f))
        # restitution
        rec_e = x.t(x.field(r, 'restitution_coefficient'))
        ca, cb = x.collided
        x.prove_eq('[P09] the record reports the product of the restitution coefficients of the two colliders', rec_e, atom(COEF['restitution_coefficient'].F(ca)) * atom(COEF['restitution_coefficient'].F(cb)))
        mg = x.t(x.field(r, 'impulse_magnitude'))
        first = imp[0] if imp else [ZERO] * 3
        x.prove_eq('[P09] the record reports the size of the impulse', expand(x, mg * mg), expand(x, vdot(first, first)))
        x.prove('[P09] the size of the impulse is not negative', x.le(0, mg))
        if nm != 'infinite+infinite':
            C = Contact(x, A, B, n, rec_e, imp)
            frictionless = getattr(x, 'frictionless', False)
            after = None
            if frictionless:
                x.prove('[P09] without friction there is one impulse', all(tm.is_zero(t) for j in imp[1:] for t in j))
                after = vdot(vsub(point_velocity(dict(A, v=va, o=wa)), point_velocity(dict(B, v=vb, o=wb_))), n)
            s = law(x, C, first, after)
            if s is not None: energy(x, C, s, imp[1:], after_first(x, ap, A, B))
        x.cover(nm)

def at_rest_side(x, e0, e1, p):
    """velocities of before, pose of the moment of the collision"""
    S = side(x, x.with_(e0, orientation=x.field(e1, 'orientation')), p)
    return S
def same_vec(a, b): return all(tm.is_zero(s - t) for s, t in zip(a, b))
def after_first(x, ap, A, B):
    """relative velocity of the contact points when the second pair of impulses is applied"""
    if len(ap) < 4: return None
    S, T = ap[2][0], ap[3][0]
    if not same_vec(S['r'], A['r']): S, T = T, S
    return vsub(point_velocity(dict(A, v=S['v'], o=S['o'])), point_velocity(dict(B, v=T['v'], o=T['o'])))
def impulses(x, ap, A, B):
    out = []
    if len(ap) % 2: return None
    for (S, j), (T, i) in zip(ap[::2], ap[1::2]):
        if not same_vec(vadd([expand(x, t) for t in j], [expand(x, t) for t in i]), [ZERO] * 3): return None
        if same_vec(S['r'], A['r']) and same_vec(T['r'], B['r']): out.append(j)
        elif same_vec(S['r'], B['r']) and same_vec(T['r'], A['r']): out.append(i)
        else: return None
    return out


STOP = ('D', 's', 'un')
def expand(x, t, keep=STOP):
    """replace the abbreviations (of velocities and impulses) by what they stand for"""
    t = tm.lift(t)
    defs = {a[1]: d for a, d in list(x.memo.items()) if isinstance(a, tuple) and a[0] == 'abdef' and base_of(a[1]) not in keep}
    for _ in range(12):
        if not (set(tm.atoms_of(t)) & set(defs)): return t
        t = tm.subst(t, defs)
    raise Unsupported('deep abbreviations')
def base_of(a): return str(tm.ATOMS[a].z).split('!')[0]
def exact_quotient(fs, ss):
    """g with f = g s for every component, found by polynomial division and checked by the caller"""
    for f, s in zip(fs, ss):
        try: p, q = dict(tm.poly(tm.lift(f))), tm.poly(tm.lift(s))
        except tm.Blowup: return None
        if not q: continue
        if not p: return ZERO
        lead = max(q); r = {}
        for _ in range(400):
            if not p: return tm.term_of_poly(r)
            # a monomial of p divisible by the leading one of q such that the division makes progress
            m = next((m for m in sorted(p, reverse=True) if all(dict(m).get(a, 0) >= e for a, e in lead)), None)
            if m is None: break
            d = dict(m)
            for a, e in lead:
                d[a] -= e
                if not d[a]: del d[a]
            k = tuple(sorted(d.items())); c = p[m] / q[lead]
            r = tm.p_add(r, {k: c})
            p = tm.p_add(p, tm.p_mul({k: c}, q), -1)
    return None
def with_velocity(x, S, ap, which):
    S = dict(S); S['v'], S['o'] = which
    return S

class Contact:
    """the recorded contact between the entities with the sides A, B (pose of the moment, velocities of before)"""
    def __init__(c, x, A, B, n, e, imp):
        c.x, c.A, c.B, c.n, c.e, c.imp = x, A, B, n, e, imp
        c.D0 = den_term(A, B, n)
        c.un0 = vdot(vsub(point_velocity(A), point_velocity(B)), n)
        c.W = ZERO
        for S in (A, B):
            if S['w'] is not None: c.W = c.W + S['w']
    def ring(c, name, a, b):
        return c.x.prove_eq(name, c.full(a), c.full(b))
    def full(c, t): return expand(c.x, t, ())

def law(x, C, first, after):
    """relative normal velocity afterwards"""
    g = exact_quotient([expand(x, t) for t in first], C.n)
    d = x.memo.get('impulse')
    if d and d['D'] is not None and g is not None and tm.is_zero(expand(x, g) - d['s']):
        # s, D and un stand for the terms of the code; what they are was settled by the contract of calc_collision_impulse
        x.prove_eq('[P09,P10] the denominator is that of the recorded contact', expand(x, d['D'], ()), C.D0)
        x.prove_eq('[P09,P10] the closing speed is that of the recorded contact', expand(x, d['un'], ()), C.un0)
        x.prove_eq('[P09,P10] the restitution coefficient used is the recorded one', d['e'], C.e)
        s = d['s']
    else:
        s = g
        x.prove('[P09,P10] the first impulse acts along the contact normal', g is not None)
        if g is None: return None
    x.prove_eq('[P09,P10] impulse * denominator = -(1 + e) (u . n)', expand(x, s, ()) * C.D0, tm.neg(ONE + C.e) * C.un0)
    if after is not None:
        x.prove_eq('[P09] relative normal velocity afterwards = before + impulse * denominator = -e * before', expand(x, after), C.un0 + s * C.D0)
    return s

def energy(x, C, s, fric, after):
    """energy gained: j . u + j . K j / 2 for every impulse (impulse/energy)"""
    half = const(Fraction(1, 2))
    A, B, n = C.A, C.B, C.n
    first = vscale(n, s)
    u = vsub(point_velocity(A), point_velocity(B))
    K = lambda j: vadd(response(A, j), response(B, j))
    x.prove_eq('[P10] energy gained by the impulse along the normal = s un + s^2 D / 2', vdot(first, u) + half * vdot(first, K(first)), s * C.un0 + half * s * s * C.D0)
    D, un, e = x.fresh_T('D'), x.fresh_T('un'), C.e
    st = tm.neg(ONE + e) * un * tm.recip(D)
    x.prove_eq('[P10] ... = -(1 - e^2) un^2 / (2 D): none with e = 1', st * un + half * st * st * D, tm.neg(half) * (ONE - e) * (ONE + e) * un * un * tm.recip(D))
    e1, r, q = [z3.Real(z) for z in ('lemma_e', 'lemma_r', 'lemma_q')]
    x.prove('[P10] ... which is never positive', z3.Implies(z3.And(e1 >= 0, e1 <= 1, r > 0, q >= 0), -(1 - e1) * (1 + e1) * q * r / 2 <= 0))
    x.prove('[P10] restitution is between 0 and 1', z3.And(x.le(0, e), x.le(e, 1)))
    for f in fric:
        if all(tm.is_zero(t) for t in f): x.cover('no friction'); continue
        u1 = after
        sl = vsub(u1, vscale(n, vdot(u1, n)))
        f = [expand(x, t, ('D', 'v', 'w', 's', 'un')) for t in f]
        g = exact_quotient(f, sl)
        x.prove('[P10] friction acts along the sliding', g is not None)
        if g is None: return
        g = tm.neg(g)
        for p, q in zip(f, sl): x.prove_eq('[P10] friction = -g * sliding', p, tm.neg(g) * q)
        dens = [d for d in x.memo.get('dens', []) if d[0] is not None]
        Ds, S, T, d = dens[-1]
        mag = x.sqrt_t(vdot(sl, sl))
        for p, q in zip(d, sl): x.prove_eq('[P10] the friction denominator is taken along the sliding', p * mag, q)
        x.prove('[P10] the friction denominator is that of the two entities', same_vec(S['r'], A['r']) and same_vec(T['r'], B['r']) and same_vec(S['J'], A['J']) and same_vec(T['J'], B['J']))
        # sliding . u = |sliding|^2, sliding . K sliding = |sliding|^2 Ds
        x.prove_eq('[P10] sliding . u = sliding . sliding', vdot(sl, u1), vdot(sl, sl))
        t = [x.fresh_T('sl') for _ in range(3)]
        x.prove_eq('[P10] t . K t = |t|^2 * denominator along t', vdot(t, K(t)), vdot(t, t) * (C.W) + quad(A, t) + quad(B, t))
        x.prove('[P10] friction takes away at most the sliding: 0 <= g * denominator <= 1', z3.And(x.le(0, g * Ds), x.le(g * Ds, 1)))
        G, M, E = [z3.Real(z) for z in ('lemma_g', 'lemma_m', 'lemma_d')]
        x.prove('[P10] so it gains no energy: -g m + g^2 m d / 2 <= 0', z3.Implies(z3.And(G >= 0, M >= 0, E > 0, G * E <= 1), G * M * (G * E / 2 - 1) <= 0))
        x.cover('friction')
from fractions import Fraction
def cuts_of(I):
    def f(x, f, bb, body):
        r = role(x, f, bb, body)
        if r == 'search': return Search()
        if r == 'iteration': return I()
    return f

def quick_wake(x, c):
    """the conditions of wake_up are obligations of step/iteration"""
    n = len(x.obs); r = wake_apply(x, c)
    del x.obs[n:]
    return r
from c_wake import wake as wake_apply
CON_R = dict(CON); CON_R.update(COEFC)
def mk(kind, frictionless):
    @unit('step/response/%s%s' % (kind, '/frictionless' if frictionless else ''), 'P08', 'P09', 'P10', covers=[kind] if kind == 'infinite+infinite' else [kind, 'no friction'] if frictionless else [kind, 'no friction', 'friction'], contracts=CON_R, secs=600, abs_atom=True, norm_zero=True, cuts=[cuts_of(Response)])
    def u(x):
        x.frictionless = frictionless; x.masses = kind
        w = start(x, 0, 0)
        dt = x.real('dt')
        x.call('PhysicsSystem::step', w.sys, dt)
for k in ('finite+finite', 'finite+infinite', 'infinite+finite', 'infinite+infinite'):
    for f in (True, False): mk(k, f)

# ------------------------------------------------------------------ one iteration: records, resting, waking, no panic (P03, P14, P16, P20)
def any_impulse(x, c): return x.vec('imp')
def any_den(x, c):
    d = x.real('den'); x.fact(x.lt(0, d.t))
    return d
def any_apply(x, c):
    r, e = x.ref_target(c.args[0])
    x.store_to(r.root, r.path, x.with_(e, velocity=x.vec('v'), angular_velocity=x.vec('w')))
    return VAgg([])
ANY = 'any finite impulse (the laws of impulses are the subject of step/response)'
CON_I = dict(CON_R); CON_I.update({'calc_collision_impulse': Contract(ANY, any_impulse), 'calc_collision_impulse_denominator': Contract(ANY, any_den), 'apply_impulse': Contract(ANY, any_apply)})
class Records(Iteration):
    """records are made in time order: one number (the share of the step done) only grows, and every new record is stamped with it"""
    def __init__(c, dt): c.dt = dt
    def entry(c, x, L):
        Iteration.entry(c, x, L)
        s = State(x, c.w, L.fid)
        x.prove('[P14,P20] no record is left from before', zi(s.rec.n) == 0)
        mx = x.field(c.w.s0, 'iteration_max')
        x.prove('[P14,P20] at most the configured number of iterations', z3.And(zi(L.total(x)) <= z3.If(zi(mx.t) >= 0, zi(mx.t), 0)))
        k = c.share(x, L)
        if k is not None:
            u = x.t(x.load(*k))
            x.prove('[P14] the share of the step done is between 0 and 1 to begin with', z3.And(x.le(0, u), x.le(u, 1)))
    def hint(c, x, L): return x.unit.hints.setdefault(('share',) + L.tag, [])
    def share(c, x, L):
        h = c.hint(x, L)
        return L.denorm((h[0][0], h[0][1]))if h else None
    def assume(c, x, L, e, cnt):
        Iteration.assume(c, x, L, e, cnt)
        k = c.share(x, L)
        if k is not None:
            c.u = x.t(x.load(*k))
            x.fact(x.le(0, c.u)); x.fact(x.le(c.u, 1))
        if cnt is not None: x.fact(zi(c.pre.rec.n) <= zi(cnt))
        x.fact(zi(c.pre.rec.n) >= 0)
        c.cnt = cnt
    def tally(c, x, L, q):
        pre = c.pre
        x.prove('[P14] at most one record per iteration, earlier records stay', z3.And(zi(q.rec.n) >= zi(pre.rec.n), zi(q.rec.n) <= zi(pre.rec.n) + 1))
        i = x.fresh_int('ri')
        x.assume(z3.And(i >= 0, i < zi(pre.rec.n)))
        x.prove('[P14] earlier records stay', z3.And([z3.Select(a, i) == z3.Select(b, i) for a, b in zip(pre.rec.el.arrs, q.rec.el.arrs)]))
        x.prove('[P01] a step adds and removes no entity', z3.And(q.E.present == pre.E.present, q.E.issued == pre.E.issued))
        x.prove('[P14] the list of movements stays', zi(q.info.n) == zi(pre.info.n))
    def back(c, x, L, e):
        q = State(x, c.w, L.fid); pre = c.pre
        c.framed(x, L)
        c.tally(x, L, q)
        if x.branch(zi(q.rec.n) == zi(pre.rec.n) + 1):
            r = x.get1(q.rec, ('e', pre.rec.n))
            t = x.t(x.field(r, 'time'))
            h1, h2 = x.field(r, 'first_entity').t, x.field(r, 'second_entity').t
            x.prove('[P14] a record names two different entities', h1 != h2)
            x.prove('[P14] a record names existing entities', z3.And(x.to_b(x.sel(q.E.present, h1)), x.to_b(x.sel(q.E.present, h2))))
            ks = [k for k in sorted(L.M, key=str) if k[0][0] == L.fid and k[2] == 'leaf' and not k[1] and k[0] in x.store and isinstance(x.store[k[0]], Fl) and x.store[k[0]].k == 'f' and
                  tm.is_zero(x.store[k[0]].t * c.dt - t)]
            k = c.share(x, L)
            if k is None and ks:
                k0 = L.norm(ks[0]); c.hint(x, L).append((k0[0], k0[1])); raise loops.Restart()
            x.prove('[P14] a record is stamped with the share of the step done', k is not None)
            if k is None: return
            v = x.t(x.load(*k))
            x.prove_eq('[P14] the time of a record is that share of the step', t, v * c.dt)
            if x.memo.get('collides') and x.memo['collides'][-1][1] is not None:
                p = x.t(x.field(x.memo['collides'][-1][1], 'times', 'min'))
                x.lemma('[P14] stepping to a share of what is left', lambda u, p: [u >= 0, u <= 1, p >= 0, p <= 1], lambda u, p: lAnd(u + (1 - u) * p >= u, u + (1 - u) * p <= 1), [c.u, p])
            hit = [q[1] for q in x.memo.get('collides', []) if q[1] is not None]
            x.prove('[P14] what is handled is what the search ended with', bool(hit))
            if hit: x.prove_eq('[P14] the step advances exactly to the contact the search ended with', v, c.u + (ONE - c.u) * x.t(x.field(hit[-1], 'times', 'min')))
            x.prove('[P14] the share of the step done never shrinks and stays within the step', z3.And(x.le(c.u, v), x.le(v, 1)))
            x.lemma('[P14] a share of the step', lambda v, d: [v >= 0, v <= 1], lambda v, d: lImp(d > 0, lAnd(v * d >= 0, v * d <= d)), [v, c.dt])
            x.prove('[P14] recorded times lie within the step', z3.Implies(x.lt(0, c.dt), z3.And(x.le(0, t), x.le(t, c.dt))))
            x.cover('recorded')
        else:
            k = c.share(x, L)
            if k is not None:
                v = x.t(x.load(*k))
                x.prove('[P14] the share of the step done never shrinks and stays within the step', z3.And(x.le(c.u, v), x.le(v, 1)))
        c.check(x, L, 'after an iteration'); x.cover('iteration')
    def broke(c, x, L, e):
        q = State(x, c.w, L.fid)
        c.framed(x, L)
        c.tally(x, L, q)
        c.check(x, L, 'after the last iteration')
        x.prove('[P14,P20] the iterations end early only without a collision', zi(q.rec.n) == zi(c.pre.rec.n))
        x.cover('concluded'); raise PathEnd()
    def done(c, x, L):
        q = State(x, c.w, L.fid)
        mx = zi(x.field(c.w.s0, 'iteration_max').t)
        x.prove('[P14,P20] at most as many records as iterations allowed', zi(q.rec.n) <= z3.If(mx >= 0, mx, 0))
        x.memo['exhausted'] = zi(x.field(q.sys, 'debug').n)
class Slept(Iteration):
    def entry(c, x, L): c.w = x.world
    def assume(c, x, L, e, cnt):
        Iteration.assume(c, x, L, e, cnt)
        if e is not None:
            c.p = x.probe_p = z3.Int('probe_p')
            x.unit.instantiate(x, 'entity', c.p)
    def slept(c, x, q):
        """nothing falls asleep during the iterations, and what sleeps through one stays where it was"""
        p = x.rep(c.p); pre = c.pre
        x.prove('[P15,P16] nothing falls asleep during the collision iterations', z3.Implies(z3.And(P(pre.E, p), x.to_b(x.sel(q.A.asleep, p))), x.to_b(x.sel(pre.A.asleep, p))))
        if x.branch(z3.And(P(pre.E, p), x.to_b(x.sel(q.A.asleep, p)))):
            x.eq_val('[P15,P16] what sleeps through a collision iteration does not move', x.field(x.rebuild_at(q.E.el, p), 'orientation'), x.field(x.rebuild_at(pre.E.el, p), 'orientation'))
            x.cover('asleep')
    def back(c, x, L, e): c.slept(x, State(x, c.w, L.fid)); x.cover('iteration')
    def broke(c, x, L, e): c.slept(x, State(x, c.w, L.fid)); x.cover('concluded'); raise PathEnd()
    def done(c, x, L): raise PathEnd()
class Advance(Cfg):
    """moving the entities along: whoever sleeps stays where it was before the loop"""
    mode = 'inv'
    def ori(c, x, E): return [E.el.arrs[j] for f in (('orientation', 'position'), ('orientation', 'rotation')) for j in leaf_range(x, E.el.tpl, f)]
    def entry(c, x, L):
        c.E = State(x, x.world, L.fid).E
    def stays(c, x, E):
        A = Arr(x, E); p = x.rep(x.probe_p)
        return z3.Implies(x.to_b(x.sel(A.asleep, p)), z3.And([x.sel(i, p) == x.sel(j, p) for i, j in zip(c.ori(x, E), c.ori(x, c.E))] + [z3.BoolVal(True)]))
    def assume(c, x, L, e, cnt):
        E = State(x, x.world, L.fid).E
        x.fact(c.stays(x, E))
        c.pre = E
    def back(c, x, L, e):
        E = State(x, x.world, L.fid).E
        x.prove('[P15,P16] what sleeps is not moved along', c.stays(x, E))
    def broke(c, x, L, e): raise Unsupported('the loop moving the entities along is left early')
class Says(Cfg):
    """the loop after the iterations: by now an exhausted step has said so"""
    def entry(c, x, L): says(x)
def says(x):
    if 'exhausted' not in x.memo: return
    x.prove('[P20] a step that exhausts its iterations says so in the debug output', zi(x.field(x.deref(x.world.sys), 'debug').n) > x.memo['exhausted'])
    x.cover('exhausted'); raise PathEnd()
def cuts_rec(x, f, bb, body):
    if role(x, f, bb, body) == 'sleep': return Says()
    return cuts_of(lambda: Records(x.dt))(x, f, bb, body)
from models import *
@unit('step/iteration', 'P03', 'P14', 'P02', 'P04', 'P16', 'P19', 'P20', shards=3, covers=['recorded', 'iteration', 'concluded', 'exhausted'], contracts=CON_I, secs=600, abs_atom=True, norm_zero=True,
      cuts=[cuts_rec])
def u(x):
    w = start(x, 0, 0)
    dt = x.real('dt'); x.dt = dt.t
    x.call('PhysicsSystem::step', w.sys, dt)
    says(x)
@unit('step/asleep', 'P15', 'P16', shards=4, covers=['iteration', 'concluded', 'asleep'], contracts=CON_I, secs=600, abs_atom=True, norm_zero=True, cuts=[lambda x, f, bb, body: Advance() if role(x, f, bb, body) == 'advance' else cuts_of(Slept)(x, f, bb, body)])
def u(x):
    w = start(x, 0, 0)
    x.call('PhysicsSystem::step', w.sys, x.real('dt'))

# ------------------------------------------------------------------ the earliest approaching contact is the one handled (P14)
EPS = const(Fraction(1, 10 ** 6))
class Visit(Search):
    """the loops of the search.  An arbitrary pair of entities and of their colliders (the probe) has an approaching contact; whatever
    the search keeps smallest is, at the end, no larger than the time of that contact: no iteration lets it grow, and the one of the probe
    leaves it no larger."""
    active = False; on = False
    def el(c, x):
        p = x.memo['probe']; i, j, a, b = p['i'], p['j'], p['a'], p['b']
        v = p['variants'][p['v'][0]]
        return ([(i, j - i - 1), (i, j), (j, i)][v[0]] + ((a, b), (b, a))[v[1]])[c.d] if c.d < 4 else None
    def other(c, x):
        p = x.memo['probe']
        if p['v'][0] + 1 < len(p['variants']): p['v'][0] += 1; raise loops.Restart()
    def entry(c, x, L):
        up = [q.cfg for q in x.memo.get('cutstack', []) if isinstance(q.cfg, Visit)]
        c.d = len(up); c.on = all(u.active for u in up); c.active = False
        c.hint = x.unit.hints.setdefault(('smallest',) + L.tag, [])
        if not c.on or 'probe' not in x.memo: c.on = False; return
        e = c.el(x)
        ok = e is not None and (L.dom.kind == 'set') == (c.d >= 2) and x.valid(x.to_b(L.dom.member(x, e)))[0]
        if not ok: c.other(x)
        x.prove('[P14] the search looks at every pair of entities and of their colliders', x.to_b(L.dom.member(x, e)) if e is not None and (L.dom.kind == 'set') == (c.d >= 2) else False)
    def cands(c, x, L):
        """numbers that no iteration of the loop lets grow"""
        ks = [k for k in sorted(L.M, key=str) if k[2] == 'leaf' and not L.st.get((k, 'le')) and L.path_ok(k) and isinstance(x.load(k[0], k[1]), Fl)]
        return ks
    def mine(c, x, L):
        return [k for k in c.cands(x, L) if L.norm(k) in c.hint[0]] if c.hint else []
    def bound(c, x, k):
        v = x.load(k[0], k[1])
        return x.le(v.t, x.memo['probe']['t']) if isinstance(v, Fl) and v.k == 'f' else z3.BoolVal(False)
    def begin(c, x, L, e):
        c.active = bool(c.on and x.branch(zi(e) == zi(c.el(x))))
    def back(c, x, L, e):
        if not c.active: return
        if not c.hint:
            ks = c.cands(x, L)
            if ks: c.hint.append(set(L.norm(k) for k in ks)); raise loops.Restart()
        ks = c.mine(x, L)
        good = [k for k in ks if x.valid(c.bound(x, k))[0]]
        if good and len(good) < len(ks): c.hint[0] = set(L.norm(k) for k in good); raise loops.Restart()
        x.prove('[P14] an approaching contact is taken into account: what the search keeps is no later', c.bound(x, good[0]) if good else False)
        x.cover('taken into account')
    def broke(c, x, L, e):
        if c.on: x.prove('[P14] the search is not cut short', False)
    def settled(c, x, L):
        if not c.on: return
        for k in c.mine(x, L): x.assume(c.bound(x, k))
        if c.d: return
        p = x.memo['probe']
        k = [q for q in x.memo.get('collides', []) if q[1] is not None]
        x.prove('[P14] the search ends with a contact when there is an approaching one', bool(k))
        if k:
            x.prove('[P14] the contact the search ends with is no later than any approaching contact', x.le(x.t(x.field(k[-1][1], 'times', 'min')), p['t']))
            x.cover('found')
        raise PathEnd()
    done = settled
class Earliest(Iteration):
    def entry(c, x, L): c.w = x.world
    def assume(c, x, L, e, cnt):
        Iteration.assume(c, x, L, e, cnt)
        if e is None: return
        s = c.pre
        i, j, a, b = [z3.Int('probe_' + q) for q in 'ijab']
        x.assume(z3.And(0 <= i, i < j, j < zi(s.info.n)))
        h = [z3.Select(s.ihandle, q) for q in (i, j)]
        for q in h: x.unit.instantiate(x, 'entity', q)
        h = [x.rep(q) for q in h]
        x.assume(h[0] != h[1])
        ents = [x.rebuild_at(s.E.el, q) for q in h]; infos = [x.rebuild_at(s.info.el, q) for q in (i, j)]
        for q, k in zip(ents, (a, b)):
            x.unit.instantiate(x, 'collider', k)
            x.assume(x.to_b(x.sel(x.field(q, 'colliders').a, k)))
        # they are not already resting against each other with one of them asleep
        x.assume(z3.And(z3.Not(S2(s.A.nbrs, h[0], h[1])), z3.Not(S2(s.A.nbrs, h[1], h[0]))))
        t = x.real('probe_t').t
        x.fact(x.le(0, t)); x.fact(x.lt(t, 1))
        x.memo['probe'] = dict(i=i, j=j, a=a, b=b, h=h, ents=ents, infos=infos, t=t, variants=[(u, v) for v in (0, 1) for u in (0, 1, 2)], v=x.unit.hints.setdefault('probe variant', [0]))
    def back(c, x, L, e): raise PathEnd()
    def broke(c, x, L, e): raise PathEnd()
    def done(c, x, L): raise PathEnd()
def seek(x, c):
    vs = [q.cfg for q in x.memo.get('cutstack', []) if isinstance(q.cfg, Visit)]
    if not vs or not all(v.active for v in vs): return collide_result(x, c)
    p = x.memo['probe']
    col = [x.rep([e[1] for e in x.ref_target(c.args[k])[0].path if e[0] == 'a'][-1]) for k in (0, 3)]
    for o in ((0, 1), (1, 0)):
        if x.valid(z3.And(zi(col[o[0]]) == p['a'], zi(col[o[1]]) == p['b']))[0]: break
    else:
        vs[0].other(x)
        x.prove('[P14] the contact looked for is that of the pair', False); raise PathEnd()
    x.prove('[P14] the contact looked for is that of the pair', z3.And(zi(col[o[0]]) == p['a'], zi(col[o[1]]) == p['b']))
    t = Fl('f', p['t']); pos = x.vec('cp'); n = x.vec('cn')
    d = []
    # o[m] is the place (0 first, 1 second) of entity m among the arguments
    for m in (0, 1):
        E, I = p['ents'][m], p['infos'][m]
        k = 3 * o[m]
        x.eq_val('[P14] contacts are looked for from where the entities are', x.deref(c.args[k + 1]), x.field(E, 'orientation'))
        lin, ang = x.field(I, 'linear_movement'), x.field(I, 'angular_movement')
        end = loops.skey(x, x.deref(c.args[k + 2]))
        how = [q for q in x.memo.get('calls', []) if q[0] == 'after_affected' and loops.skey(x, q[2]) == end]
        if x.prove('[P14] contacts are looked for along the movement left', bool(how)):
            for u, v in zip(how[-1][1], (x.field(E, 'orientation'), lin, ang)): x.eq_val('[P14] contacts are looked for along the movement left', x.deref(u), v)
        V = lambda f: x.ts(x.field(E, f))
        arm = vsub(vsub(x.ts(pos), vscale(x.ts(lin), p['t'])), x.ts(x.field(E, 'orientation', 'position')))
        d.append(vadd(V('velocity'), vcross(V('angular_velocity'), arm)))
    if o == (1, 0): d.reverse()
    # approaching at the moment of the contact
    x.assume(x.le(EPS, vdot(vsub(d[0], d[1]), x.ts(n))))
    v = x.struct('Collision', times=x.call('Range::single', t), position=pos, normal=n)
    x.memo['collides'] = list(x.memo.get('collides', [])) + [(c.args, v)]
    x.collided = col
    x.cover('probed')
    return VEnum(1, {1: (v,)}, c.dty)
CON_E = dict(CON_I); CON_E['collide'] = Contract('collide reports any contact, an approaching one for the probe', seek)
@unit('step/earliest', 'P14', covers=['probed', 'taken into account', 'found'], contracts=CON_E, secs=600, abs_atom=True, norm_zero=True,
      cuts=[lambda x, f, bb, body: Visit() if role(x, f, bb, body) == 'search' else cuts_of(Earliest)(x, f, bb, body)])
def u(x):
    w = start(x, 0, 0)
    x.call('PhysicsSystem::step', w.sys, x.real('dt'))

# ------------------------------------------------------------------ falling asleep (P16)
class Skip(Iteration):
    """the iterations as an arbitrary change of what their frame allows, under the facts proved in step/iteration"""
    mode = 'skip'
    def given_up(c, x, L): return Kept()
    def done(c, x, L):
        w = c.w = x.world
        pre = State(x, w, L.fid)
        Iteration.assume(c, x, L, None, None)
        x.mid = c.pre
        for p in w.pe:
            p = x.rep(p)
            x.assume(z3.Implies(z3.And(P(w.E0, p), x.to_b(x.sel(x.mid.A.asleep, p))), x.to_b(x.sel(w.A0.asleep, p))))
        x.cover('iterated')
    def frame(c, x, L):
        c.w = x.world
        return Iteration.frame(c, x, L)
def energy_of(x, c):
    r, e = x.ref_target(c.args[0])
    k = ('energy',) + tuple(loops.skey(x, x.field(e, f)) for f in ('total_mass', 'velocity', 'angular_velocity')) + (loops.skey(x, x.field(e, 'orientation', 'rotation')), loops.skey(x, x.field(e, 'prepped_moment_of_inertia')))
    if k not in x.memo: x.memo[k] = x.real('energy')
    return x.memo[k]
CON_S = dict(CON_I); CON_S['get_total_energy'] = Contract('get_total_energy is a function of mass, inertia, rotation and velocities (entity/energy)', energy_of)
@unit('step/sleep', 'P02', 'P04', 'P16', 'P19', contracts=CON_S, covers=['iterated', 'sleeping', 'low energy', 'high energy'], secs=600, abs_atom=True, norm_zero=True, cuts=[cuts_of(Skip)])
def u(x):
    w = start(x, 1, 0)
    w.A0 = Arr(x, w.E0)
    dt = x.real('dt')
    x.call('PhysicsSystem::step', w.sys, dt)
    p = x.rep(w.pe[0])
    if not x.branch(P(w.E0, p)): return
    q = Post(x, w)
    e0 = x.rebuild_at(w.E0.el, p); e1 = x.rebuild_at(q.E.el, p)
    if not hasattr(x, 'mid'): return x.cover('tiny step')
    m = x.rebuild_at(x.mid.E.el, p)

    fl = lambda e, *f: x.field(e, *f)
    b = lambda e, f: x.to_b(fl(e, f).t)
    thr, need = x.t(fl(w.s0, 'energy_sleep_threshold')), x.t(fl(w.s0, 'sleep_time_threshold'))
    t0, t1 = x.t(fl(e0, 'falling_asleep_time')), x.t(fl(e1, 'falling_asleep_time'))
    if x.branch(b(m, 'asleep')):
        x.prove('[P16] what slept through the step still sleeps', b(e1, 'asleep'))
        for f in ('velocity', 'angular_velocity'): x.eq_all('[P16] what sleeps through a step has no velocity after it', x.ts(fl(e1, f)), [ZERO] * 3)
        x.eq_val('[P16] what sleeps through a step does not move', fl(e1, 'orientation'), fl(m, 'orientation'))
        x.prove('[P16] sleeping is not falling asleep', z3.And(b(e1, 'falling_asleep') == b(e0, 'falling_asleep')))
        x.prove_eq('[P16] sleeping is not falling asleep (time)', t1, t0)
        x.cover('sleeping')
    else:
        for f in ('orientation', 'velocity', 'angular_velocity'): x.eq_val('[P16] falling asleep changes no pose or velocity', fl(e1, f), fl(m, f))
        en = x.t(energy_of(x, type('C', (), {'args': [x.ref(e1)]})))
        if x.branch(x.le(en, thr)):
            x.prove('[P16] low energy counts as falling asleep', b(e1, 'falling_asleep'))
            x.prove_eq('[P16] time at low energy adds up while it lasts', t1, t0 + dt.t if x.branch(b(e0, 'falling_asleep')) else t0)
            x.prove('[P16] asleep once it lasted for the configured time', b(e1, 'asleep') == x.le(need, t1))
            x.cover('low energy')
        else:
            x.prove('[P16] nothing falls asleep with energy above the threshold', z3.Not(b(e1, 'asleep')))
            x.prove('[P16] energy above the threshold starts the time over', z3.Not(b(e1, 'falling_asleep')))
            x.prove_eq('[P16] energy above the threshold starts the time over (time)', t1, ZERO)
            x.cover('high energy')
    x.eq_val('[P02,P04,P19] a step leaves masses and links alone', fl(e1, 'colliders'), fl(e0, 'colliders'))
    for f in ('own_mass', 'total_mass', 'prepped_moment_of_inertia'): x.eq_val('[P02,P04,P19] a step leaves masses and links alone', fl(e1, f), fl(e0, f))
    x.eq_val('[P04,P19] a step leaves the local origin alone', fl(e1, 'orientation', 'internal_origin_offset'), fl(e0, 'orientation', 'internal_origin_offset'))

class Resting(Iteration):
    """resting stays symmetric while entities are put to sleep one by one"""
    def entry(c, x, L):
        c.w = x.world
        c.check(x, L, 'before putting to sleep')
    def assume(c, x, L, e, cnt):
        if e is not None: c.ab = [named_probe(x, 'entity', n) for n in ('probe_a', 'probe_b')]
        Iteration.assume(c, x, L, e, cnt)
    def back(c, x, L, e):
        q = State(x, c.w, L.fid)
        c.check(x, L, 'after putting one to sleep')
        x.prove('[P01] a step adds and removes no entity', z3.And(q.E.present == c.pre.E.present, q.E.issued == c.pre.E.issued))
        x.cover('put to sleep')
    def broke(c, x, L, e): raise Unsupported('the sleep loop is left early')
    def done(c, x, L): x.cover('resting')
@unit('step/rest', 'P01', 'P02', 'P03', 'P16', 'P19', 'P20', contracts=CON_S, covers=['iterated', 'put to sleep', 'resting'], secs=600, abs_atom=True, norm_zero=True,
      cuts=[lambda x, f, bb, body: Resting() if role(x, f, bb, body) == 'sleep' else cuts_of(Skip)(x, f, bb, body)])
def u(x):
    w = start(x, 0, 1)
    w.A0 = Arr(x, w.E0)
    dt = x.real('dt')
    x.call('PhysicsSystem::step', w.sys, dt)
    q = Post(x, w)
    x.prove('[P01] a step adds and removes no entity', z3.And(q.E.present == w.E0.present, q.E.issued == w.E0.issued))
    x.prove('[P01] a step adds and removes no collider', z3.And(q.C.present == w.C0.present, q.C.issued == w.C0.issued))
    frame_collider(x, w, q, '[P01,P02,P19] step', w.pc[0]); frame_generators(x, w, q, '[P01] step')
    for n in ('iteration_max', 'energy_sleep_threshold', 'sleep_time_threshold'): x.eq_val('[P01] step leaves the settings alone', x.field(q.s1, n), x.field(w.s0, n))

# ------------------------------------------------------------------ free motion (P15, P21)
FORCEF = [z3.Function('force%d' % i, z3.IntSort(), z3.IntSort(), z3.RealSort()) for i in range(6)]
def force_told(x, c):
    d = x.conc(c.args[1] if not isinstance(c.args[1], VRef) else x.deref(c.args[1]))
    x.prove_eq('[P15] generators are told the length of the step', x.t(d), x.dt)
    return make_force(x, c)
def pose_of(x, c):
    """what the generators and the integration read of an entity"""
    return None
def integrated(x, w, h, e0, dt):
    """velocity and spin of an entity after the forces of all generators have acted for dt"""
    v, o = x.ts(x.field(e0, 'velocity')), x.ts(x.field(e0, 'angular_velocity'))
    m = x.conc(x.field(e0, 'total_mass'))
    if m.k != 'f' or not x.branch(x.lt(const(EPSF), m.t)): return v, o, 'still'
    pos = x.ts(x.field(e0, 'orientation', 'position'))
    def term(y, g):
        f = [atom(F(g, h)) for F in FORCEF]
        return f[:3] + vcross(vsub(f[3:], pos), f[:3])
    s = x.sum_over(w.G0.present, 'generator', term, w.G0.el.arrs, 6)
    J = x.ts(INV.fn(x, type('C', (), {'args': [x.ref(e0)]})))
    a = vscale(s[:3], tm.recip(m.t) * dt)
    return vadd(v, a), vadd(o, vscale(mvec(J, s[3:]), dt)), 'pushed'
from c_colliders import EPS as EPSF
class Integrated(Cfg):
    def entry(c, x, L):
        w = x.world; s = State(x, w, L.fid)
        p = x.rep(w.pe[0])
        if not x.branch(P(w.E0, p)): raise PathEnd()
        e0, e1 = x.rebuild_at(w.E0.el, p), x.rebuild_at(s.E.el, p)
        v, o, what = integrated(x, w, p, e0, x.dt)
        x.eq_all('[P15,P21] velocity += sum of the forces / mass * dt', x.ts(x.field(e1, 'velocity')), v)
        x.eq_all('[P15,P21] spin += inverse inertia * sum of the torques * dt', x.ts(x.field(e1, 'angular_velocity')), o)
        for f in ('orientation', 'own_mass', 'total_mass', 'prepped_moment_of_inertia', 'colliders', 'asleep', 'neighbors', 'falling_asleep', 'falling_asleep_time'):
            x.eq_val('[P15] integration leaves %s alone' % f, x.field(e1, f), x.field(e0, f))
        # the list of movements: every entity exactly once
        en = [t for t in x.enums.values() if t[0].eq(w.E0.present)]
        x.prove('[P14,P15] the movements list the entities in some order', bool(en))
        if not en: raise PathEnd()
        Pr, o_, pos, n, kind = en[0]
        x.enum_fact(Pr, o_, pos, n, p)
        k = z3.Select(pos, p)
        x.prove('[P14,P15] one movement per entity', zi(s.info.n) == zi(n))
        x.prove('[P14,P15] every entity has a movement', z3.Select(s.ihandle, k) == p)
        j = x.fresh_int('j'); x.assume(z3.And(j >= 0, j < zi(s.info.n)))
        x.prove('[P14,P15] no entity has two: the movements are in the order of the entities', z3.Select(s.ihandle, j) == z3.Select(o_, j))
        i = x.get1(s.info, ('e', k))
        x.eq_all('[P15] movement = new velocity * dt', x.ts(x.field(i, 'linear_movement')), vscale(v, x.dt))
        x.eq_all('[P15] turn = new spin * dt', x.ts(x.field(i, 'angular_movement')), vscale(o, x.dt))
        b = x.fresh_int('nb')
        x.prove('[P16] nothing has been met before the first collision', z3.Not(x.to_b(x.sel(x.field(i, 'neighbors').a, b))))
        x.cover(what)
        raise PathEnd()
@unit('step/integrate', 'P14', 'P15', 'P16', 'P21', contracts=dict(CON_I, make_force=Contract('make_force', force_told)), covers=['still', 'pushed'], secs=300, cuts=[lambda x, f, bb, body: Integrated() if role(x, f, bb, body) == 'iteration' else None])
def u(x):
    w = start(x, 1, 0)
    dt = x.real('dt'); x.dt = dt.t
    x.call('PhysicsSystem::step', w.sys, dt)

class First(Cfg):
    """a step without collisions"""
    mode = 'first'
    def back(c, x, L, e): x.prove('[P15] a step without collisions takes one iteration', False)
def no_contact(x, c): return VEnum(0, {0: ()}, c.dty)
CON_F = dict(CON_S, make_force=Contract('make_force', force_told), collide=Contract('collide() reports no contact in this step (the case the property speaks about)', no_contact))
@unit('step/free', 'P15', 'P21', contracts=CON_F, covers=['still', 'pushed', 'sleeping', 'tiny'], secs=600, abs_atom=True, norm_zero=True,
      cuts=[lambda x, f, bb, body: First() if role(x, f, bb, body) == 'iteration' else None])
def u(x):
    w = start(x, 1, 0)
    dt = x.real('dt'); x.dt = dt.t
    lim = zi(x.field(w.s0, 'iteration_max').t)
    x.fact(lim >= 1)
    x.call('PhysicsSystem::step', w.sys, dt)
    p = x.rep(w.pe[0])
    q = Post(x, w)
    if x.branch(z3.And(x.lt(dt.t, EPSF), x.lt(tm.neg(const(EPSF)), dt.t))):
        a, b = x.deref(w.sys), w.s0
        for n in ('entities', 'colliders', 'unary_force_generators'):
            A, B = w.arena(a, n), w.arena(b, n)
            x.prove('[P15] a step shorter than the epsilon changes nothing at all', z3.And(A.present == B.present, A.issued == B.issued, *[i == j for i, j in zip(A.el.arrs, B.el.arrs)]))
        for n in ('iteration_max', 'energy_sleep_threshold', 'sleep_time_threshold', 'collision_records', 'debug'): x.eq_val('[P15] a step shorter than the epsilon changes nothing at all', x.field(a, n), x.field(b, n))
        return x.cover('tiny')
    if not x.branch(P(w.E0, p)): return
    e0, e1 = x.rebuild_at(w.E0.el, p), x.rebuild_at(q.E.el, p)
    v, o, what = integrated(x, w, p, e0, x.dt)
    X = lambda *f: x.ts(x.field(e1, *f))
    if x.branch(x.to_b(x.field(e0, 'asleep').t)):
        x.eq_val('[P15] a sleeping entity does not move', x.field(e1, 'orientation'), x.field(e0, 'orientation'))
        return x.cover('sleeping')
    x.eq_all('[P15] velocity += sum of the forces / mass * dt', X('velocity'), v)
    x.eq_all('[P15] spin += inverse inertia * sum of the torques * dt', X('angular_velocity'), o)
    x.eq_all('[P15] position += new velocity * dt', X('orientation', 'position'), vadd(x.ts(x.field(e0, 'orientation', 'position')), vscale(v, x.dt)))
    V3 = lambda l: VMat(3, 1, [Fl('f', c) for c in l])
    rot = x.ref(x.field(e0, 'orientation'))
    x.call('Orientation::affect_with', rot, x.ref(V3(vscale(v, x.dt))), x.ref(V3(vscale(o, x.dt))))
    rot = x.deref(rot)
    x.eq_val('[P15] the rotation advances by new spin * dt (orientation/affect_with)', x.field(e1, 'orientation', 'rotation'), x.field(rot, 'rotation'))
    x.eq_val('[P15] the frame keeps its offset', x.field(e1, 'orientation', 'internal_origin_offset'), x.field(e0, 'orientation', 'internal_origin_offset'))
    x.cover(what)

@unit('gravity/make_force', 'P21', 'P03', covers=['done'])
def u(x):
    w = start(x, 1, 0)
    h = w.pe[0]
    x.fact(P(w.E0, h))
    g = x.sym('GravityGenerator', 'gravity')
    r = x.ref(g)
    e = x.rebuild_at(w.E0.el, x.rep(h))
    m = x.conc(x.field(e, 'total_mass'))
    if m.k != 'f': return
    f = x.call_fn(x.prog.method('GravityGenerator', 'UnaryForceGenerator', 'make_force'), [r, x.real('dt'), w.sys, VH(h)])
    a = x.ts(x.field(g, 'acceleration'))
    x.eq_all('[P21] gravity = acceleration * total mass', x.ts(x.field(f, 'force')), vscale(a, m.t))
    x.eq_all('[P21] gravity acts at the centre of mass', x.ts(x.field(f, 'position')), x.ts(x.field(e, 'orientation', 'position')))
    x.eq_val('[P21] making the force leaves the generator alone', x.deref(r), g)
    q = Post(x, w)
    x.prove('[P21] making the force changes nothing in the system', z3.And(q.E.present == w.E0.present, *[i == j for i, j in zip(q.E.el.arrs, w.E0.el.arrs)]))
    n = x.call('GravityGenerator::new', x.field(g, 'acceleration'))
    x.eq_val('[P21] the acceleration is the one given', x.field(n, 'acceleration'), x.field(g, 'acceleration'))
    x.cover('done')

GRAV = [z3.Function('gravity%d' % i, z3.IntSort(), z3.RealSort()) for i in range(3)]
def gravity_force(x, c):
    r, v = x.ref_target(c.args[0])
    g = [e[1] for e in r.path if e[0] == 'a'][-1]
    h = x.rep(x.deref(c.args[3]).t)
    n, s = x.ref_target(c.args[2])
    e = x.rebuild_at(x.world.arena(x.deref(x.world.sys), 'entities').el, h)
    m = x.conc(x.field(e, 'total_mass'))
    if m.k != 'f': raise PathEnd()
    return x.struct('Force', force=VMat(3, 1, [Fl('f', atom(q(g)) * m.t) for q in GRAV]), position=x.field(e, 'orientation', 'position'))
class Falling(Cfg):
    def entry(c, x, L):
        w = x.world; s = State(x, w, L.fid)
        p = x.rep(w.pe[0])
        if not x.branch(P(w.E0, p)): raise PathEnd()
        e0, e1 = x.rebuild_at(w.E0.el, p), x.rebuild_at(s.E.el, p)
        m = x.conc(x.field(e0, 'total_mass'))
        x.eq_all('[P21] gravity alone spins nothing', x.ts(x.field(e1, 'angular_velocity')), x.ts(x.field(e0, 'angular_velocity')))
        if m.k == 'f' and x.branch(x.lt(const(EPSF), m.t)):
            a = x.sum_over(w.G0.present, 'generator', lambda y, g: [atom(F(g)) for F in GRAV], w.G0.el.arrs, 3)
            x.eq_all('[P21] gravity alone adds acceleration * dt, whatever the mass', x.ts(x.field(e1, 'velocity')), vadd(x.ts(x.field(e0, 'velocity')), vscale(a, x.dt)))
            x.cover('falling')
        raise PathEnd()
@unit('step/gravity', 'P21', contracts=dict(CON_I, make_force=Contract('make_force of gravity generators (gravity/make_force)', gravity_force)), covers=['falling'], secs=300, cuts=[lambda x, f, bb, body: Falling() if role(x, f, bb, body) == 'iteration' else None])
def u(x):
    w = start(x, 1, 0)
    dt = x.real('dt'); x.dt = dt.t
    x.call('PhysicsSystem::step', w.sys, dt)
