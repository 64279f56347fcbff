"""Contracts on src/orientation.rs (P07, part of P06)."""
from unit import *

def orient(x, base='o'):
    return x.sym('Orientation', base)
def R(x, q): return x.ts(qmat(x, q))

@unit('orientation/world_local_maps', 'P07', covers=['done'])
def u(x):
    o = orient(x); r = x.ref(o)
    q, pos, off = x.field(o, 'rotation'), x.ts(x.field(o, 'position')), x.ts(x.field(o, 'internal_origin_offset'))
    p = x.vec('p'); rp = x.ref(p)
    # world position of a local point: R (p + offset) + position
    w = x.call('Orientation::position_into_world', r, rp)
    x.eq_all('position_into_world(p) = R(p + offset) + position', x.ts(w), vadd(mvec(R(x, q), vadd(x.ts(p), off)), pos))
    back = x.call('Orientation::position_into_local', r, x.ref(w))
    x.eq_all('position_into_local(position_into_world(p)) = p', x.ts(back), x.ts(p))
    l = x.call('Orientation::position_into_local', r, rp)
    fw = x.call('Orientation::position_into_world', r, x.ref(l))
    x.eq_all('position_into_world(position_into_local(p)) = p', x.ts(fw), x.ts(p))
    d = x.call('Orientation::direction_into_world', r, rp)
    x.eq_all('direction_into_world(d) = R d', x.ts(d), mvec(R(x, q), x.ts(p)))
    x.eq_all('direction_into_local(direction_into_world(d)) = d', x.ts(x.call('Orientation::direction_into_local', r, x.ref(d))), x.ts(p))
    dl = x.call('Orientation::direction_into_local', r, rp)
    x.eq_all('direction_into_world(direction_into_local(d)) = d', x.ts(x.call('Orientation::direction_into_world', r, x.ref(dl))), x.ts(p))
    x.eq_all('local_origin_in_world() = R offset + position', x.ts(x.call('Orientation::local_origin_in_world', r)), vadd(mvec(R(x, q), off), pos))
    x.cover('done')

@unit('orientation/isometry', 'P07', covers=['done'])
def u(x):
    o = orient(x); r = x.ref(o)
    p, s = x.vec('p'), x.vec('s')
    for n, fn in (('position_into_world', 0), ('position_into_local', 0), ('direction_into_world', 1), ('direction_into_local', 1)):
        a = x.ts(x.call('Orientation::' + n, r, x.ref(p))); b = x.ts(x.call('Orientation::' + n, r, x.ref(s)))
        if fn == 0:
            d = vsub(a, b); e = vsub(x.ts(p), x.ts(s))
            x.prove_eq('%s preserves distances' % n, vdot(d, d), vdot(e, e))
        else:
            x.prove_eq('%s preserves angles and lengths' % n, vdot(a, b), vdot(x.ts(p), x.ts(s)))
    x.cover('done')

@unit('orientation/affect_with', 'P07', 'P15', covers=['done'])
def u(x):
    o = orient(x); r = x.ref(o)
    lin, ang = x.vec('lin'), x.vec('ang')
    cp = x.call('Orientation::after_affected', r, x.ref(lin), x.ref(ang))
    x.eq_val('after_affected leaves self alone', x.deref(r), o)
    x.call('Orientation::affect_with', r, x.ref(lin), x.ref(ang))
    n = x.deref(r)
    want = qmul(x, from_scaled_axis(x, ang), x.field(o, 'rotation'))
    x.eq_val('affect_with: position += linear', x.field(n, 'position'), zipm(x, x.fadd, x.field(o, 'position'), lin))
    x.eq_val('affect_with: rotation = exp(angular) * rotation', x.field(n, 'rotation'), want)
    x.eq_val('affect_with: offset unchanged', x.field(n, 'internal_origin_offset'), x.field(o, 'internal_origin_offset'))
    x.eq_val('after_affected = affect_with on a copy', cp, n)
    x.cover('done')

@unit('orientation/new', 'P07', 'P19', covers=['done'])
def u(x):
    p, a, off = x.vec('p'), x.vec('a'), x.vec('off')
    o = x.call('Orientation::new', x.ref(p), x.ref(a), x.ref(off))
    x.eq_val('new: position', x.field(o, 'position'), p)
    x.eq_val('new: rotation = exp(vector)', x.field(o, 'rotation'), from_scaled_axis(x, a))
    x.eq_val('new: offset', x.field(o, 'internal_origin_offset'), off)
    x.cover('done')

@unit('orientation/rotation_vec', 'P07', 'P19', covers=['done'])
def u(x):
    o = orient(x)
    v = x.call('Orientation::rotation_vec', x.ref(o))
    x.eq_val('exp(rotation_vec()) = rotation (up to sign)', from_scaled_axis(x, v), x.field(o, 'rotation'))
    x.cover('done')

@unit('orientation/lerp', 'P07', covers=['done'])
def u(x):
    s, e = orient(x, 's'), orient(x, 'e'); t = x.real('t')
    m = x.call('Orientation::lerp', t, x.ref(s), x.ref(e))
    ps, pe = x.ts(x.field(s, 'position')), x.ts(x.field(e, 'position'))
    x.eq_all('lerp: position is linear in time', x.ts(x.field(m, 'position')), vadd(ps, vscale(vsub(pe, ps), t.t)))
    x.eq_val('lerp: offset of the start', x.field(m, 'internal_origin_offset'), x.field(s, 'internal_origin_offset'))
    a = x.call('Orientation::lerp', fin(0), x.ref(s), x.ref(e))
    x.eq_val('lerp(0) = start: position', x.field(a, 'position'), x.field(s, 'position'))
    x.eq_val('lerp(0) = start: rotation', x.field(a, 'rotation'), x.field(s, 'rotation'))
    x.eq_val('lerp(0) = start: offset', x.field(a, 'internal_origin_offset'), x.field(s, 'internal_origin_offset'))
    b = x.call('Orientation::lerp', fin(1), x.ref(s), x.ref(e))
    x.eq_val('lerp(1) = end: position', x.field(b, 'position'), x.field(e, 'position'))
    x.eq_val('lerp(1) = end: rotation', x.field(b, 'rotation'), x.field(e, 'rotation'))
    x.cover('done')
