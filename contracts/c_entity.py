"""Contracts on src/entity.rs: construction, copies, updates, kinetic quantities, impulses (P08-P10, P16, P18, P19)."""
from unit import *
from c_colliders import nonneg, EPS
from c_orientation import R

VALS = ['position', 'rotation', 'velocity', 'angular_velocity', 'own_mass']
def entity(x, base='e', **kw):
    """an arbitrary stored entity; finite=True: finite positive total mass"""
    e = x.sym('InternalEntity', base)
    return e
def pub(x, e): return x.call('InternalEntity::make_pub', x.ref(e))
def rot_q(x, v): return from_scaled_axis(x, v)
def pose_as_given(x, label, got, src, offset):
    """got: public copy after storing src; offset: the centre-of-mass offset it must keep"""
    x.eq_val('[P19] %s: position' % label, x.field(got, 'position'), x.field(src, 'position'))
    x.eq_val('[P19] %s: rotation (as a rotation)' % label, rot_q(x, x.field(got, 'rotation')), rot_q(x, x.field(src, 'rotation')))
    x.eq_val('[P19] %s: velocity' % label, x.field(got, 'velocity'), x.field(src, 'velocity'))
    x.eq_val('[P19] %s: angular velocity' % label, x.field(got, 'angular_velocity'), x.field(src, 'angular_velocity'))
    x.eq_val('[P19] %s: own mass' % label, x.field(got, 'own_mass'), x.field(src, 'own_mass'))
    o = x.deref(x.call('Entity::get_last_orientation', x.ref(got)))
    x.eq_val('[P19] %s: last orientation: position' % label, x.field(o, 'position'), x.field(src, 'position'))
    x.eq_val('[P19] %s: last orientation: rotation' % label, x.field(o, 'rotation'), rot_q(x, x.field(src, 'rotation')))
    x.eq_val('[P19] %s: the centre-of-mass offset' % label, x.field(o, 'internal_origin_offset'), offset)

@unit('entity/new_from', 'P18', 'P19', 'P04', 'P16', covers=['stored', 'refused'])
def u(x):
    s = x.sym('Entity', 'src')
    off = x.field(x.deref(x.call('Entity::get_last_orientation', x.ref(s))), 'internal_origin_offset')
    res = x.call('InternalEntity::new_from', s)
    ok = nonneg(x, x.field(s, 'own_mass'))
    t = x.tag(res)
    x.prove('[P18] new_from accepts exactly the non-negative masses', ok if t == 0 else z3.Not(ok))
    if t == 1: x.cover('refused'); return
    e = x.payload(res, 0); g = pub(x, e)
    pose_as_given(x, 'new_from', g, s, off)
    x.prove('[P19] a new entity has no colliders', x.call('Entity::get_colliders', x.ref(g)).a == NOSET)
    x.eq_val('[P04] the total mass of a new entity is its own mass', x.call('InternalEntity::get_total_mass', x.ref(e)), x.field(s, 'own_mass'))
    x.eq_val('[P16] a new entity is awake', x.call('Entity::was_asleep', x.ref(g)), VBool(False))
    x.prove('[P16] a new entity rests against nothing', x.field(e, 'neighbors').a == NOSET)
    x.eq_val('[P16] a new entity is not falling asleep', x.field(e, 'falling_asleep'), VBool(False))
    x.cover('stored')

@unit('entity/make_pub', 'P19', 'P04', 'P06', covers=['done'])
def u(x):
    e = entity(x); r = x.ref(e)
    g = x.call('InternalEntity::make_pub', r)
    x.eq_val('[P19] reading an entity changes nothing', x.deref(r), e)
    o = x.field(e, 'orientation')
    x.eq_val('[P19] make_pub: position', x.field(g, 'position'), x.field(o, 'position'))
    x.eq_val('[P19] make_pub: rotation (as a rotation)', rot_q(x, x.field(g, 'rotation')), x.field(o, 'rotation'))
    x.eq_val('[P19] make_pub: last orientation', x.deref(x.call('Entity::get_last_orientation', x.ref(g))), o)
    for n in ('velocity', 'angular_velocity', 'own_mass', 'colliders', 'asleep'):
        x.eq_val('[P19] make_pub: %s' % n, x.field(g, n), x.field(e, n))
    x.eq_val('[P19] get_colliders', x.call('Entity::get_colliders', x.ref(g)), x.field(e, 'colliders'))
    x.eq_val('[P19] was_asleep', x.call('Entity::was_asleep', x.ref(g)), x.field(e, 'asleep'))
    x.eq_val('[P04] get_last_total_mass', x.call('Entity::get_last_total_mass', x.ref(g)), x.call('InternalEntity::get_total_mass', r))
    a = x.ts(x.call('Entity::get_last_moment_of_inertia', x.ref(g))); b = x.ts(x.call('InternalEntity::get_moment_of_inertia', r))
    x.eq_all('[P06] the public copy reports the same moment of inertia', a, b)
    x.cover('done')

@unit('entity/get_moment_of_inertia', 'P06', covers=['done'])
def u(x):
    e = entity(x)
    I = x.ts(x.call('InternalEntity::get_moment_of_inertia', x.ref(e)))
    rot = R(x, x.field(x.field(e, 'orientation'), 'rotation'))
    P = x.ts(x.field(e, 'prepped_moment_of_inertia'))
    x.eq_all('[P06] world inertia = R * tensor * R^T', I, mmul(mmul(rot, P), mtrans(rot)))
    x.cover('done')

@unit('entity/update_from', 'P16', 'P18', 'P19', 'P01', 'P02', covers=['stored', 'refused'])
def u(x):
    old = entity(x); r = x.ref(old)
    s = x.sym('Entity', 'src')
    res = x.call('InternalEntity::update_from', r, s)
    ok = nonneg(x, x.field(s, 'own_mass'))
    t = x.tag(res)
    x.prove('[P18] update_from accepts exactly the non-negative masses', ok if t == 0 else z3.Not(ok))
    new = x.deref(r)
    if t == 1:
        x.eq_val('[P18] a refused update leaves every field as it was', new, old)
        x.cover('refused'); return
    off = x.field(x.field(old, 'orientation'), 'internal_origin_offset')
    for n in ('colliders', 'neighbors', 'asleep', 'falling_asleep', 'falling_asleep_time'):
        x.eq_val('%s update_from keeps %s' % ('[P19]' if n == 'colliders' else '[P16]', n), x.field(new, n), x.field(old, n))
    o = x.field(new, 'orientation')
    x.eq_val('[P19] update_from: position', x.field(o, 'position'), x.field(s, 'position'))
    x.eq_val('[P19] update_from: rotation (as a rotation)', x.field(o, 'rotation'), rot_q(x, x.field(s, 'rotation')))
    x.eq_val('[P19] update_from: keeps the centre-of-mass offset', x.field(o, 'internal_origin_offset'), off)
    for n in ('velocity', 'angular_velocity', 'own_mass'): x.eq_val('[P19] update_from: %s' % n, x.field(new, n), x.field(s, n))
    x.cover('stored')

def changed_unit(x):
    """the boolean returned by update_from: 'something changed'"""
    old = entity(x); r = x.ref(old)
    s = x.sym('Entity', 'src')
    return old, r, s

@unit('entity/update_from/unchanged', 'P16', covers=['done'])
def u(x):
    """an update with exactly what is read back reports no change"""
    old = entity(x); r = x.ref(old)
    m = x.conc(x.field(old, 'own_mass'))
    x.fact(nonneg(x, m))
    s = x.call('InternalEntity::make_pub', r)
    res = x.call('InternalEntity::update_from', r, s)
    x.prove('[P16] the update is accepted', x.tag(res) == 0)
    b = x.payload(res, 0)
    x.prove('[P16] an update that changes nothing reports no change', zb(b.t) == False)
    x.cover('done')

def far(x, a, b):
    d = vsub(a, b); return x.lt(EPS, x.sqrt_t(vdot(d, d)))
@unit('entity/update_from/changed', 'P16', covers=['position', 'velocity', 'angular velocity', 'mass', 'rotation'])
def u(x):
    old = entity(x); r = x.ref(old); s = x.sym('Entity', 'src')
    which = ['position', 'velocity', 'angular velocity', 'mass', 'rotation'][x.choose(5)]
    om, nm = x.conc(x.field(old, 'own_mass')), x.conc(x.field(s, 'own_mass'))
    x.fact(nonneg(x, om)); x.fact(nonneg(x, nm))
    o = x.field(old, 'orientation')
    if which == 'position': x.fact(far(x, x.ts(x.field(o, 'position')), x.ts(x.field(s, 'position'))))
    elif which == 'velocity': x.fact(far(x, x.ts(x.field(old, 'velocity')), x.ts(x.field(s, 'velocity'))))
    elif which == 'angular velocity': x.fact(far(x, x.ts(x.field(old, 'angular_velocity')), x.ts(x.field(s, 'angular_velocity'))))
    elif which == 'mass': x.fact(z3.BoolVal(om.k != nm.k) if om.k != nm.k or om.k != 'f' else x.ne0(om.t - nm.t))
    else:
        q, p = x.ts(x.field(o, 'rotation')), x.ts(rot_q(x, x.field(s, 'rotation')))
        x.fact(far(x, q, p)); x.fact(far(x, q, [tm.neg(c) for c in p]))
    res = x.call('InternalEntity::update_from', r, s)
    x.prove('[P16] the update is accepted', x.tag(res) == 0)
    b = x.payload(res, 0)
    x.prove('[P16] a different %s counts as a change' % which, zb(b.t))
    x.cover(which)

@unit('entity/velocity_at', 'P09', 'P14', covers=['done'])
def u(x):
    e = entity(x); p = x.vec('p')
    v = x.call('InternalEntity::get_velocity_at_world_position', x.ref(e), x.ref(p))
    c = x.ts(x.field(x.field(e, 'orientation'), 'position'))
    x.eq_all('[P09] velocity at a point = v + w x (p - c)', x.ts(v), vadd(x.ts(x.field(e, 'velocity')), vcross(x.ts(x.field(e, 'angular_velocity')), vsub(x.ts(p), c))))
    x.cover('done')

def sym_inertia(x, e, base='K'):
    """inverse inertia as data: contract of get_inverse_moment_of_inertia (proved in entity/inverse_inertia)"""
    k = [x.fresh_T(base) for _ in range(6)]
    a, b, c, d, ee, f_ = k
    return [a, b, c, b, d, ee, c, ee, f_]

@unit('entity/inverse_inertia', 'P08', 'P09', 'P10', 'P15', covers=['invertible', 'none'], secs=600)
def u(x):
    """I * get_inverse() = identity when the world inertia is invertible, zero otherwise; symmetric when the tensor is"""
    e = entity(x)
    P = x.field(e, 'prepped_moment_of_inertia')
    I = x.call('InternalEntity::get_moment_of_inertia', x.ref(e))
    J = x.ts(x.call('InternalEntity::get_inverse_moment_of_inertia', x.ref(e)))
    d = det3(x, I)
    if x.branch(x.zcmp('==', d, ZERO)):
        x.eq_all('[P15] no inverse: zero', J, [ZERO] * 9); x.cover('none'); return
    prod = mmul(x.ts(I), J)
    x.eq_all('[P15] inertia * inverse = identity', prod, [ONE if i == j else ZERO for j in range(3) for i in range(3)])
    x.cover('invertible')

@unit('entity/apply_impulse', 'P08', 'P09', covers=['finite', 'infinite'], contracts={})
def u(x):
    e = entity(x); r = x.ref(e)
    p, j = x.vec('p'), x.vec('j')
    m = x.conc(x.field(e, 'total_mass'))
    x.fact(z3.BoolVal(m.k == '+') if m.k != 'f' else x.lt(0, m.t))
    if m.k == '+':
        # an infinite mass has no moment of inertia (recalculate_mass leaves the tensor zero)
        x.fact(z3.And([x.eqr(c, ZERO) for c in x.ts(x.field(e, 'prepped_moment_of_inertia'))]))
        e = x.with_(e, prepped_moment_of_inertia=VMat(3, 3, [fin(0)] * 9)); r = x.ref(e)
    J = x.ts(x.call('InternalEntity::get_inverse_moment_of_inertia', x.ref(e)))
    x.call('InternalEntity::apply_impulse', r, x.ref(p), x.ref(j))
    n = x.deref(r)
    c = x.ts(x.field(x.field(e, 'orientation'), 'position'))
    jt = x.ts(j)
    dv = vscale(jt, tm.recip(m.t)) if m.k == 'f' else [ZERO] * 3
    x.eq_all('[P08] velocity change = impulse / mass', x.ts(x.field(n, 'velocity')), vadd(x.ts(x.field(e, 'velocity')), dv))
    x.eq_all('[P08] angular velocity change = inverse inertia * (arm x impulse)', x.ts(x.field(n, 'angular_velocity')),
             vadd(x.ts(x.field(e, 'angular_velocity')), mvec(J, vcross(vsub(x.ts(p), c), jt))))
    x.eq_val('[P08] an impulse changes only the velocities', x.with_(n, velocity=x.field(e, 'velocity'), angular_velocity=x.field(e, 'angular_velocity')), e)
    x.cover('finite' if m.k == 'f' else 'infinite')

@unit('entity/energy', 'P10', 'P16', covers=['finite', 'infinite'])
def u(x):
    e = entity(x)
    m = x.conc(x.field(e, 'total_mass'))
    x.fact(nonneg(x, m))
    v, w = x.ts(x.field(e, 'velocity')), x.ts(x.field(e, 'angular_velocity'))
    en = x.call('InternalEntity::get_total_energy', x.ref(e))
    if m.k == 'f':
        I = x.ts(x.call('InternalEntity::get_moment_of_inertia', x.ref(e)))
        x.prove_eq('[P10] energy = m v.v / 2 + w.Iw / 2', x.t(en), (m.t * vdot(v, v) + vdot(mvec(I, w), w)) * Fraction_half)
        g = pub(x, e)
        x.prove_eq('[P10] the public copy reports the same energy', x.t(x.call('Entity::get_total_energy', x.ref(g))), x.t(en))
        x.cover('finite'); return
    en = x.conc(en)
    rest = z3.And(x.eqr(vdot(v, v), ZERO), x.eqr(vdot(w, w), ZERO))
    if en.k == 'f': x.prove_eq('[P16] an infinite mass (nearly) at rest has no energy', en.t, ZERO)
    else: x.prove('[P16] an infinite mass at rest has no energy', z3.Not(rest))
    x.cover('infinite')
from fractions import Fraction
Fraction_half = const(Fraction(1, 2))
