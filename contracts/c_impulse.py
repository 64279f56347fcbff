"""Collision impulses: contracts of the helpers and the laws they imply (P08, P09, P10)."""
from unit import *
from c_entity import entity, pub
import loops

# ------------------------------------------------------------------ contracts of callees
def inverse(x, c):
    """world inverse inertia: a function of the world inertia alone, symmetric, zero for an infinite mass (units entity/inverse_inertia...)"""
    return inverse_of(x, x.deref(c.args[0]))
def inverse_of(x, e):
    m = x.conc(x.field(e, 'total_mass'))
    if m.k == '+': return VMat(3, 3, [fin(0)] * 9)
    k = ('inv', loops.skey(x, x.field(x.field(e, 'orientation'), 'rotation')), loops.skey(x, x.field(e, 'prepped_moment_of_inertia')))
    r = x.memo.get(k)
    if r is None:
        a, b, c_, d, ee, f = [x.fresh_T('J') for _ in range(6)]
        r = VMat(3, 3, [Fl('f', q) for q in (a, b, c_, b, d, ee, c_, ee, f)])
        x.memo[k] = r
    return r
INV = Contract('get_inverse_moment_of_inertia', inverse)

def recip_mass(x, e):
    m = x.conc(x.field(e, 'total_mass'))
    return None if m.k == '+' else tm.recip(m.t)
def side(x, e, p):
    """1/m (None: infinite), inverse inertia, arm, velocity, spin of an entity at the point p"""
    c = x.ts(x.field(x.field(e, 'orientation'), 'position'))
    J = x.ts(inverse_of(x, e))
    return dict(w=recip_mass(x, e), J=J, r=vsub(p, c), v=x.ts(x.field(e, 'velocity')), o=x.ts(x.field(e, 'angular_velocity')))
def point_velocity(s): return vadd(s['v'], vcross(s['o'], s['r']))
def quad(s, d):
    a = vcross(s['r'], d)
    return vdot(mvec(s['J'], a), a)
def response(s, j):
    """change of the velocity of the contact point by the impulse j"""
    t = vcross(mvec(s['J'], vcross(s['r'], j)), s['r'])
    return vadd(vscale(j, s['w']), t) if s['w'] is not None else t
def den_term(a, b, d):
    t = ZERO
    for s in (a, b):
        if s['w'] is not None: t = t + s['w']
        t = t + quad(s, d)
    return t
def mass_ok(x, e):
    m = x.conc(x.field(e, 'total_mass'))
    return m.k == '+' or m.k == 'f' and x.branch(x.lt(0, m.t))
def finite3(x, v):
    try: return x.ts(v)
    except NotFinite: return None
def den_apply(x, c):
    a, b = x.deref(c.args[0]), x.deref(c.args[1])
    p, d = finite3(x, c.args[2]), finite3(x, c.args[3])
    if p is None: raise Unsupported('contact point that is not a number')
    if d is None: return NAN
    if not (mass_ok(x, a) and mass_ok(x, b)): x.memo['zero mass'] = True; return Fl('s', (x.fresh_int('dcl'), x.fresh_T('d')))
    A, B = side(x, a, p), side(x, b, p)
    if A['w'] is None and B['w'] is None: return fin(0)
    D = x.fresh_T('D')
    x.memo[('abdef', D.a)] = den_term(A, B, d)
    x.fact(x.lt(0, D))
    x.memo['dens'] = list(x.memo.get('dens', [])) + [(D, A, B, d)]
    return Fl('f', D)
DEN = Contract('calc_collision_impulse_denominator', den_apply)

def impulse_apply(x, c):
    """the impulse along the normal n: s n with s D = -(1 + e) (u . n), nothing when neither entity can be moved"""
    a, b = x.deref(c.args[0]), x.deref(c.args[1])
    col = x.deref(c.args[3])
    p, n = finite3(x, x.field(col, 'position')), finite3(x, x.field(col, 'normal'))
    if p is None or n is None: raise Unsupported('contact that is not a number')
    if not (mass_ok(x, a) and mass_ok(x, b)): x.memo['zero mass'] = True; return VMat(3, 1, [Fl('s', (x.fresh_int('jcl'), x.fresh_T('j'))) for _ in range(3)])
    e = x.t(c.args[2])
    A, B = side(x, a, p), side(x, b, p)
    if A['w'] is None and B['w'] is None:
        x.memo['impulse'] = dict(A=A, B=B, p=p, n=n, s=ZERO, D=None, e=e, un=None)
        return VMat(3, 1, [fin(0)] * 3)
    D = x.t(den_apply(x, C4(c.args[0], c.args[1], x.ref(x.field(col, 'position')), x.ref(x.field(col, 'normal')))))
    un = x.fresh_T('un'); x.memo[('abdef', un.a)] = vdot(vsub(point_velocity(A), point_velocity(B)), n)
    s = x.fresh_T('s')
    x.memo[('abdef', s.a)] = tm.neg(ONE + e) * un * tm.recip(D)
    x.fact(x.eqr(s * D, tm.neg(ONE + e) * un))
    x.memo['impulse'] = dict(A=A, B=B, p=p, n=n, s=s, D=D, e=e, un=un)
    return VMat(3, 1, [Fl('f', s * q) for q in n])
IMPULSE = Contract('calc_collision_impulse', impulse_apply)
class C4:
    def __init__(s, *a): s.args = a

def apply_apply(x, c):
    """the velocities change by impulse / mass and by the inverse inertia applied to arm x impulse"""
    r, e = x.ref_target(c.args[0])
    p, j = finite3(x, c.args[1]), finite3(x, c.args[2])
    m = x.conc(x.field(e, 'total_mass'))
    if p is None or j is None or not (m.k == '+' or m.k == 'f' and x.branch(x.lt(0, m.t))):
        x.memo['zero mass'] = True
        x.store_to(r.root, r.path, x.with_(e, velocity=x.vec('v'), angular_velocity=x.vec('w'))); return VAgg([])
    S = side(x, e, p)
    j = [x.abbr(q, 'j') for q in j]
    dv = vscale(j, S['w']) if S['w'] is not None else [ZERO] * 3
    dw = mvec(S['J'], vcross(S['r'], j))
    V = lambda l, b: VMat(3, 1, [Fl('f', x.abbr(q, b)) for q in l])
    x.memo['applied'] = list(x.memo.get('applied', [])) + [(S, j)]
    x.store_to(r.root, r.path, x.with_(e, velocity=V(vadd(S['v'], dv), 'v'), angular_velocity=V(vadd(S['o'], dw), 'w')))
    return VAgg([])
APPLY = Contract('apply_impulse', apply_apply)

# ------------------------------------------------------------------ the helpers meet their contracts
def pair(x):
    a, b = entity(x, 'a'), entity(x, 'b')
    for e in (a, b):
        m = x.conc(x.field(e, 'total_mass'))
        x.fact(z3.BoolVal(m.k == '+') if m.k != 'f' else x.lt(0, m.t))
    return a, b
def name_of(a, b): return '+'.join('infinite' if s['w'] is None else 'finite' for s in (a, b))

@unit('impulse/denominator', 'P08', 'P09', 'P10', covers=['finite+finite', 'finite+infinite', 'infinite+finite', 'infinite+infinite'], contracts={'get_inverse_moment_of_inertia': INV})
def u(x):
    a, b = pair(x)
    p, d = x.vec('p'), x.vec('d')
    A, B = side(x, a, x.ts(p)), side(x, b, x.ts(p))
    res = x.call('PhysicsSystem::calc_collision_impulse_denominator', x.ref(a), x.ref(b), x.ref(p), x.ref(d))
    x.prove_eq('[P08,P09,P10] impulse denominator = 1/m1 + 1/m2 + (r1 x d).J1(r1 x d) + (r2 x d).J2(r2 x d)', x.t(res), den_term(A, B, x.ts(d)))
    # the same along a direction that is not a number
    nan = VMat(3, 1, [NAN] * 3)
    r2 = x.conc(x.call('PhysicsSystem::calc_collision_impulse_denominator', x.ref(a), x.ref(b), x.ref(p), x.ref(nan)))
    x.prove('[P08,P09,P10] the denominator along no direction is not a number', r2.k == 'n')
    x.cover(name_of(A, B))

@unit('impulse/positive', 'P09', 'P10', covers=['done'])
def u(x):
    """the denominator is positive as soon as one mass is finite: the inverse of a positive semidefinite inertia is one as well"""
    w1, w2, q1, q2 = [x.real(n).t for n in ('w1', 'w2', 'q1', 'q2')]
    x.lemma('[P09,P10] the denominator is positive', lambda a, b, c, d: [a >= 0, b >= 0, a + b > 0, c >= 0, d >= 0], lambda a, b, c, d: a + b + c + d > 0, []) if False else None
    x.fact(x.le(0, w1)); x.fact(x.le(0, w2)); x.fact(x.lt(0, w1 + w2)); x.fact(x.le(0, q1)); x.fact(x.le(0, q2))
    x.prove('[P09,P10] the denominator is positive', x.lt(0, w1 + w2 + q1 + q2))
    I = sym3(x, 'I'); b = [x.fresh_T('b') for _ in range(3)]
    J = adj_inverse(x, I)
    a = mvec(I, b)
    x.prove_eq('[P09,P10] with a = I b: a . J a = b . I b', vdot(mvec(J, a), a), vdot(mvec(I, b), b))
    for i in range(3):
        x.prove_eq('[P09,P10] every a is I b for some b', mvec(I, mvec(J, b))[i], b[i])
    x.cover('done')
def sym3(x, base):
    a, b, c, d, e, f = [x.fresh_T(base) for _ in range(6)]
    return [a, b, c, b, d, e, c, e, f]
def adj_inverse(x, I):
    """the inverse of an invertible symmetric matrix, spelled out"""
    m = lambda i, j: I[j * 3 + i]
    cof = lambda i, j: m((i + 1) % 3, (j + 1) % 3) * m((i + 2) % 3, (j + 2) % 3) - m((i + 1) % 3, (j + 2) % 3) * m((i + 2) % 3, (j + 1) % 3)
    d = m(0, 0) * cof(0, 0) + m(0, 1) * cof(0, 1) + m(0, 2) * cof(0, 2)
    x.fact(x.ne0(d))
    r = tm.recip(d)
    return [cof(j, i) * r for j in range(3) for i in range(3)]

@unit('impulse/inverse', 'P08', 'P09', 'P10', covers=['invertible', 'none', 'infinite'], secs=300)
def u(x):
    """what INV says about get_inverse_moment_of_inertia: symmetric, zero for an infinite mass, a function of rotation and tensor alone"""
    e = entity(x)
    P = sym3(x, 'P')
    m = x.conc(x.field(e, 'total_mass'))
    x.fact(z3.BoolVal(m.k in 'f+'))
    if m.k == '+': P = [ZERO] * 9       # mass/recalculate: the tensor of an infinite mass is zero
    M = VMat(3, 3, [Fl('f', q) for q in P])
    e = x.with_(e, prepped_moment_of_inertia=M)
    J = x.ts(x.call('InternalEntity::get_inverse_moment_of_inertia', x.ref(e)))
    if m.k == '+':
        x.eq_all('[P08,P09,P10] no inverse inertia for an infinite mass', J, [ZERO] * 9); x.cover('infinite'); return
    for i, j in ((1, 3), (2, 6), (5, 7)): x.prove_eq('[P08,P09,P10] the inverse inertia is symmetric', J[i], J[j])
    o = x.sym('InternalEntity', 'o')
    om = x.conc(x.field(o, 'total_mass'))
    oo = x.with_(x.field(o, 'orientation'), rotation=x.field(x.field(e, 'orientation'), 'rotation'))
    o = x.with_(o, orientation=oo, prepped_moment_of_inertia=M)
    J2 = x.ts(x.call('InternalEntity::get_inverse_moment_of_inertia', x.ref(o)))
    x.eq_all('[P08,P09,P10] the inverse inertia depends on rotation and tensor alone', J, J2)
    x.cover('none' if all(x.same(Fl('f', q), fin(0)) for q in J) else 'invertible')

@unit('impulse/collision', 'P08', 'P09', 'P10', covers=['finite+finite', 'finite+infinite', 'infinite+finite', 'infinite+infinite'],
      contracts={'get_inverse_moment_of_inertia': INV, 'calc_collision_impulse_denominator': DEN})
def u(x):
    a, b = pair(x)
    p, n, e = x.vec('p'), x.vec('n'), x.real('e')
    A, B = side(x, a, x.ts(p)), side(x, b, x.ts(p))
    col = x.struct('Collision', times=x.call('Range::single', x.real('t')), position=p, normal=n)
    j = x.ts(x.call('PhysicsSystem::calc_collision_impulse', x.ref(a), x.ref(b), e, x.ref(col)))
    un = vdot(vsub(point_velocity(A), point_velocity(B)), x.ts(n))
    if A['w'] is None and B['w'] is None: x.eq_all('[P08,P09,P10] two immovable entities: no impulse', j, [ZERO] * 3)
    else:
        D = den_term(A, B, x.ts(n))
        for i in range(3):
            x.prove_eq('[P08,P09,P10] impulse * denominator = -(1 + e) (u . n) n', x.unabbr(j[i]) * D, tm.neg(ONE + e.t) * un * x.ts(n)[i])
    x.cover(name_of(A, B))

# ------------------------------------------------------------------ what impulses of that form do
@unit('impulse/momentum', 'P08', covers=['done'])
def u(x):
    """opposite impulses at one point leave the total angular momentum about any point alone, when I J = 1 on both sides"""
    k = [x.fresh_T('k') for _ in range(3)]; p = [x.fresh_T('p') for _ in range(3)]; o = [x.fresh_T('o') for _ in range(3)]
    tot = [ZERO] * 3; lin = [ZERO] * 3
    for sgn, b in ((ONE, 'A'), (tm.neg(ONE), 'B')):
        I = sym3(x, 'I' + b); J = adj_inverse(x, I)
        m = x.fresh_T('m' + b); x.fact(x.lt(0, m))
        c = [x.fresh_T('c') for _ in range(3)]
        j = vscale(k, sgn)
        dv = vscale(j, tm.recip(m)); dw = mvec(J, vcross(vsub(p, c), j))
        d = vadd(vcross(vsub(c, o), vscale(dv, m)), mvec(I, dw))
        x.eq_all('[P08] spin gained = arm x impulse', mvec(I, dw), vcross(vsub(p, c), j))
        tot = vadd(tot, vadd(vcross(vsub(c, o), vscale(dv, m)), vcross(vsub(p, c), j))); lin = vadd(lin, vscale(dv, m))
    x.eq_all('[P08] total linear momentum', lin, [ZERO] * 3)
    x.eq_all('[P08] total angular momentum about any point', tot, [ZERO] * 3)
    x.cover('done')

@unit('impulse/energy', 'P10', covers=['finite+finite', 'finite+infinite'])
def u(x):
    """kinetic energy gained by one entity through the impulse j: j . u + j . K j / 2, with u, K of the contact point"""
    inf = x.choose(2) == 1
    j = [x.fresh_T('j') for _ in range(3)]; p = [x.fresh_T('p') for _ in range(3)]; c = [x.fresh_T('c') for _ in range(3)]
    I = sym3(x, 'I'); J = adj_inverse(x, I)
    m = x.fresh_T('m'); x.fact(x.lt(0, m))
    v = [x.fresh_T('v') for _ in range(3)]; L = [x.fresh_T('L') for _ in range(3)]
    w = mvec(J, L)                           # every spin is J L: I is invertible (impulse/positive)
    S = dict(w=tm.recip(m), J=J, r=vsub(p, c), v=v, o=w)
    a = vcross(S['r'], j)
    x.prove_eq('[P10] energy of the spin: I(J a) . (J a) = a . J a', vdot(mvec(I, mvec(J, a)), mvec(J, a)), vdot(a, mvec(J, a)))
    Js = sym3(x, 'Js')                       # from here on only symmetry and I J = 1 matter
    S['J'] = Js; S['o'] = mvec(Js, L)
    v1 = vadd(v, vscale(j, S['w']))
    e0 = m * vdot(v, v) + vdot(L, mvec(Js, L)); e1 = m * vdot(v1, v1) + vdot(vadd(L, a), mvec(Js, vadd(L, a)))
    half = const(Fraction(1, 2))
    x.prove_eq('[P10] energy gained = j . u + j . K j / 2', (e1 - e0) * half, vdot(j, point_velocity(S)) + half * vdot(j, response(S, j)))
    x.cover('finite+infinite' if inf else 'finite+finite')
from fractions import Fraction
