"""recalculate_mass: total mass, centre of mass and inertia over the linked colliders (P04, P05, P06)."""
from unit import *
from c_colliders import nonneg, EPS
from c_world import World, massok
from c_orientation import R

def coll(x, A, h, meth):
    """what a getter of the collider h of the arena value A reports (one value whatever its kind)"""
    v = x.rebuild_at(A.el, h)
    r = x.temp(v)
    from prog import TAGS
    if isinstance(v.tag, int):
        fn = x.prog.method('Internal%sCollider' % TAGS[v.tag], 'InternalCollider', meth)
        return x.call_fn(fn, [VRef(r.root, r.path + (('impl', v.tag),), None, False)])
    m = x.dyn_merged(r, v, meth)
    if m is None: raise Unsupported('%s of a collider of unknown kind: %s' % (meth, getattr(x, 'why', '')))
    return m
def cls(v): return v.t[0] if v.k == 's' else z3.IntVal(KCLS[v.k])
def finite_of(x, v):
    """value of a float known to be finite"""
    if v.k == 's':
        if not x.entails_light(v.t[0] == FIN): raise NotFinite()
        return v.t[1]
    if v.k != 'f': raise NotFinite()
    return v.t
def cmass(x, A, h): return coll(x, A, h, 'get_mass')
def ccom(x, A, h): return x.ts(coll(x, A, h, 'get_local_center_of_mass'))
def ctensor(x, A, h): return x.ts(coll(x, A, h, 'get_moment_of_inertia_tensor'))

def total_spec(x, own, S, A):
    """-> (total mass as Fl, sum of the linked masses as a term or None when one is infinite)"""
    own = x.conc(own)
    w = x.exists_in(S, 'collider', lambda y, h: cls(cmass(y, A, h)) == PINF)
    if w is not None: return INF, None
    M = x.sum_over(S, 'collider', lambda y, h: [finite_of(y, cmass(y, A, h))], A.el.arrs)[0]
    if own.k == '+': return INF, M
    return Fl('f', own.t + M), M
def parallel(m, T, d):
    """parallel axis theorem: tensor about a point at -d from the centre of mass"""
    dd = vdot(d, d)
    return [T[j * 3 + i] + m * ((dd if i == j else ZERO) - d[i] * d[j]) for j in range(3) for i in range(3)]
def origin_spec(x, o):
    """world position of the local origin of an orientation value"""
    return vadd(x.ts(x.field(o, 'position')), mvec(R(x, x.field(o, 'rotation')), x.ts(x.field(o, 'internal_origin_offset'))))
def position_spec(x, o, S, A, M):
    """world position of the centre of mass; o: an orientation value with the frame of the entity"""
    org = origin_spec(x, o)
    if M is None or not x.branch(x.lt(0, M)): return org
    mc = x.sum_over(S, 'collider', lambda y, h: vscale(ccom(y, A, h), finite_of(y, cmass(y, A, h))), A.el.arrs, 3)
    return vadd(org, mvec(R(x, x.field(o, 'rotation')), vscale(mc, tm.recip(M))))
def tensor_spec(x, off, S, A, total):
    """local tensor about the centre of mass (off: local offset of the frame from it)"""
    if total.k != 'f': return [ZERO] * 9
    def term(y, h):
        return parallel(finite_of(y, cmass(y, A, h)), ctensor(y, A, h), vadd(off, ccom(y, A, h)))
    return x.sum_over(S, 'collider', term, A.el.arrs, 9)

def check_entity(x, label, n, o, S, A, placed=True):
    """mass bookkeeping of an entity value n; o: orientation with the expected frame; S: linked colliders; A: collider arena"""
    tot, M = total_spec(x, x.field(n, 'own_mass'), S, A)
    x.eq_val('[P04] %s: total mass = own mass + sum over the linked colliders' % label, x.field(n, 'total_mass'), tot)
    no = x.field(n, 'orientation')
    x.eq_val('[P05] %s: rotation of the local frame' % label, x.field(no, 'rotation'), x.field(o, 'rotation'))
    x.eq_all('[P05] %s: local origin stays in place in the world' % label, origin_spec(x, no), origin_spec(x, o))
    if placed: x.eq_all('[P05] %s: position = centre of mass' % label, x.ts(x.field(no, 'position')), position_spec(x, o, S, A, M))
    off = x.ts(x.field(no, 'internal_origin_offset'))
    x.eq_all('[P06] %s: tensor = sum of the parallel-axis terms' % label, x.ts(x.field(n, 'prepped_moment_of_inertia')), tensor_spec(x, off, S, A, tot))
    return tot, M

@unit('mass/recalculate', 'P04', 'P05', 'P06', covers=['finite', 'infinite', 'massless', 'own infinite'])
def u(x):
    w = World(x, links=False)
    h = x.fresh_int('eh')
    x.unit.instantiate(x, 'entity', h)
    x.fact(z3.Select(w.E0.present, h))
    e = x.rebuild_at(w.E0.el, h)
    r = x.ref(e); A = x.ref(w.C0, False)
    x.call('InternalEntity::recalculate_mass', r, A)
    n = x.deref(r)
    tot, M = check_entity(x, 'recalculate_mass', n, x.field(e, 'orientation'), x.field(e, 'colliders').a, w.C0)
    for f in ('own_mass', 'velocity', 'angular_velocity', 'colliders', 'asleep', 'neighbors', 'falling_asleep', 'falling_asleep_time'):
        x.eq_val('[P05] recalculate_mass leaves %s alone' % f, x.field(n, f), x.field(e, f))
    x.cover('infinite' if M is None else 'own infinite' if tot.k == '+' else 'finite' if x.branch(x.lt(0, M)) else 'massless')

@unit('mass/recalculate/idempotent', 'P01', 'P04', 'P05', 'P06', 'P18', covers=['finite', 'infinite', 'massless', 'own infinite'])
def u(x):
    """recalculating an entity whose cached values are right changes nothing at all"""
    w = World(x, links=False)
    h = x.fresh_int('eh')
    x.unit.instantiate(x, 'entity', h)
    x.fact(z3.Select(w.E0.present, h))
    e = x.rebuild_at(w.E0.el, h)
    S, A = x.field(e, 'colliders').a, w.C0
    tot, M = total_spec(x, x.field(e, 'own_mass'), S, A)
    if M is None or not x.branch(x.lt(0, M)): off = [ZERO] * 3
    else:
        mc = x.sum_over(S, 'collider', lambda y, h: vscale(ccom(y, A, h), finite_of(y, cmass(y, A, h))), A.el.arrs, 3)
        off = [tm.neg(c) for c in vscale(mc, tm.recip(M))]
    o = x.with_(x.field(e, 'orientation'), internal_origin_offset=VMat(3, 1, [Fl('f', c) for c in off]))
    e = x.with_(e, orientation=o, total_mass=tot, prepped_moment_of_inertia=VMat(3, 3, [Fl('f', c) for c in tensor_spec(x, off, S, A, tot)]))
    r = x.ref(e)
    x.call('InternalEntity::recalculate_mass', r, x.ref(A, False))
    x.eq_val('recalculating a consistent entity leaves every field as it was', x.deref(r), e)
    x.cover('infinite' if M is None else 'own infinite' if tot.k == '+' else 'finite' if x.branch(x.lt(0, M)) else 'massless')
