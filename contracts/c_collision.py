"""Contracts on src/collision.rs: sphere kernels (P11, P12), dispatcher (P13)."""
from unit import *
from c_colliders import EPS
from c_range import QZ, bounds
EPSz = EPS
SPHERES = 'collision::collide_sphere_with_sphere'
PLANE = 'collision::collide_sphere_with_plane'

def coll(x, v):
    """(t, position, normal) of a Collision value; the time is Range::min of its times"""
    b = bounds(x, x.field(v, 'times'))
    return b, x.ts(x.field(v, 'position')), x.ts(x.field(v, 'normal'))
def pos(x, v, lo=0): x.fact(x.lt(lo, v.t)); return v

def two_spheres(x):
    r1, r2 = pos(x, x.real('r1')), x.real('r2')
    x.fact(x.le(0, r2.t))
    return [r1, x.vec('c1'), x.vec('m1'), r2, x.vec('c2'), x.vec('m2')]
def run_spheres(x, s):
    return x.call(SPHERES, s[0], x.ref(s[1]), x.ref(s[2]), s[3], x.ref(s[4]), x.ref(s[5]))
def gap2(x, s, t):
    """squared distance of the centres at time t minus the squared sum of the radii"""
    r1, c1, m1, r2, c2, m2 = [x.ts(v) if isinstance(v, VMat) else v.t for v in s]
    d = vsub(vadd(c2, vscale(m2, t)), vadd(c1, vscale(m1, t)))
    return vdot(d, d) - (r1 + r2) * (r1 + r2), d

@unit('collision/sphere_sphere', 'P11', 'P12', covers=['hit', 'miss', 'overlapping', 'slow'], contracts={'Range::quadratic_zeros': QZ})
def u(x):
    s = two_spheres(x)
    x.bigquad = None
    apart = x.choose(2) == 0
    A, B, C = quad_of(x, s)
    x.fact(x.lt(0, C) if apart else x.le(C, 0))
    res = run_spheres(x, s)
    tau = x.real('tau').t
    x.fact(x.le(0, tau)); x.fact(x.le(tau, 1))
    gtau = gap_at(x, s, tau, (A, B, C))
    big = x.branch(x.le(EPS, A))
    if not big: x.cover('slow')
    if x.tag(res) == 0:
        x.cover('miss')
        if apart:
            if big and x.bigquad is not None:
                _, _, _, lo, hi = x.bigquad
                x.lemma('[P12] with zeros outside of the step the gap stays positive',
                    lambda a, b, c, l, h, t: [a > 0, c > 0, l <= h, a * l * l + b * l + c == 0, a * h * h + b * h + c == 0, a * (l + h) == -b, t >= 0, t <= 1, lOr(l > 1, h < 0)],
                    lambda a, b, c, l, h, t: a * t * t + b * t + c > 0, [A, B, C, lo, hi, tau])
            elif big:
                x.lemma('[P12] without zeros the gap stays positive', lambda a, b, c, t: [a > 0, b * b - 4 * a * c < 0], lambda a, b, c, t: a * t * t + b * t + c > 0, [A, B, C, tau])
            elif x.branch(z3.And(x.lt(tm.neg(EPS), B), x.lt(B, EPS))):
                x.lemma('[P12] hardly any movement and not touching: the gap stays positive', lambda a, b, c, t: [a >= 0, c >= EPSz, b > -EPSz, t >= 0, t <= 1], lambda a, b, c, t: a * t * t + b * t + c > 0, [A, B, C, tau])
            else:
                z = x.real('z').t
                x.fact(x.eqr(B * z, tm.neg(C)))
                x.lemma('[P12] slow: the gap stays positive when the linear zero is outside of the step',
                    lambda a, b, c, l, t: [a >= 0, c > 0, b * l == -c, lOr(l < 0, l > 1), t >= 0, t <= 1], lambda a, b, c, l, t: a * t * t + b * t + c > 0, [A, B, C, z, tau])
            x.prove('[P12] two spheres that start apart and are not reported never touch during the step', x.lt(0, gtau))
        else:
            x.prove('[P12] overlapping spheres are missed only when hardly moving relative to each other', not big)
        return
    v = x.payload(res, 1)
    b = bounds(x, x.field(v, 'times'))
    x.prove('[P11] a reported contact has a time', b is not None)
    t = x.t(b[0])
    x.prove('[P11] the contact time is not before the step', x.le(0, t))
    x.prove('[P11] the contact time is not after the step', x.le(t, 1))
    d = gap2(x, s, t)[1]
    gt = gap_at(x, s, t, (A, B, C))
    if apart:
        if big:
            x.prove('[P11] at the contact time the centres are exactly the sum of the radii apart', x.eqr(gt, 0))
            _, _, _, lo, hi = x.bigquad
            x.lemma('[P12] the first zero is the first contact',
                lambda a, b, c, l, h, t: [a > 0, c > 0, l <= h, a * l * l + b * l + c == 0, a * h * h + b * h + c == 0, a * (l + h) == -b, h >= 0, t >= 0],
                lambda a, b, c, l, h, t: lAnd(l > 0, lOr(a * t * t + b * t + c > 0, l <= t)), [A, B, C, lo, hi, tau])
            x.prove('[P12] no contact before the reported time', z3.Or(x.lt(0, gtau), x.le(t, tau)))
        else:
            x.lemma('slow: squares of times within the step', lambda a, t: [a >= 0, a < EPSz, t >= 0, t <= 1], lambda a, t: lAnd(a * t * t >= 0, a * t * t <= EPSz), [A, t])
            x.lemma('slow: constant part', lambda b, t: [t >= 0, t <= 1, b < EPSz, b > -EPSz], lambda b, t: lAnd(b * t <= EPSz, b * t >= -EPSz), [B, t]) if x.entails_light(z3.And(x.lt(tm.neg(EPS), B), x.lt(B, EPS))) else None
            x.prove('[P11] slow spheres: at the contact time the squared gap is at most 3 epsilon', x.le(gt, 3 * EPS))
            x.lemma('[P12] slow: the linear zero is not after the first contact', lambda a, b, c, l, t: [a >= 0, c > 0, t >= 0, lOr(b * l == -c, l <= t), l >= 0],
                lambda a, b, c, l, t: lOr(a * t * t + b * t + c > 0, l <= t), [A, B, C, t, tau])
            x.prove('[P12] slow spheres: no contact before the reported time', z3.Or(x.lt(0, gtau), x.le(t, tau)))
    else:
        x.cover('overlapping')
        if big:
            x.lemma('[P11] overlapping: the first zero is not after the start',
                lambda a, b, c, l, h: [a > 0, c <= 0, l <= h, a * l * l + b * l + c == 0, a * h * h + b * h + c == 0, a * (l + h) == -b], lambda a, b, c, l, h: l <= 0, [A, B, C] + list(x.bigquad[3:]))
            x.prove('[P12] overlapping spheres are reported at once', x.eqr(t, 0))
    p = contact_point(x, s, t, d, v)
    if p is None: return
    contact_normal(x, s, t, d, p, v)
    x.cover('hit')
def contact_point(x, s, t, d, v, tag='[P11] '):
    """obligations on the reported point; None when the centres coincide"""
    # the point divides the line between the centres as the radii do: with the centres R apart it lies on both surfaces
    r1, c1, m1, r2, c2, m2 = [x.ts(w) if isinstance(w, VMat) else w.t for w in s]
    C1 = vadd(c1, vscale(m1, t))
    R = r1 + r2
    p = x.ts(x.field(v, 'position'))
    for a, c, e in zip(p, C1, d): x.prove_eq(tag + 'the contact point divides the line between the moved centres in the ratio of the radii', (a - c) * R, e * r1)
    dd = vdot(d, d); pd = vsub(p, C1)
    x.lemma('the contact point is off the centre unless the centres coincide', lambda q, R, r, e: [q * R * R == r * r * e, r > 0, R > 0], lambda q, R, r, e: lAnd(lOr(q > 0, q < 0, e == 0), lOr(e > 0, e < 0, q == 0)), [vdot(pd, pd), R, r1, dd])
    if x.branch(x.eqr(dd, 0)): return None       # concentric: there is no direction
    return p
def contact_normal(x, s, t, d, p, v, tag='[P11] '):
    """obligations on the reported normal of the sphere s[0]; returns n . d"""
    n = x.ts(x.field(v, 'normal'))
    r1, c1, m1, r2, c2, m2 = [x.ts(w) if isinstance(w, VMat) else w.t for w in s]
    R = r1 + r2; dd = vdot(d, d); pd = vsub(p, vadd(c1, vscale(m1, t)))
    x.prove_eq(tag + 'the normal has unit length', vdot(n, n), ONE)
    for c in vcross(n, d): x.prove_eq(tag + 'the normal is parallel to the line between the moved centres', c, ZERO)
    sd = vdot(n, d); e = x.sqrt_t(dd)
    if not x.ring_eq(sd, e):
        q = x.sqrt_t(vdot(pd, pd))
        x.prove_eq(tag + 'the normal points from the first centre to the contact point', vdot(n, pd), q)
        x.lemma('from the contact point to the second centre', lambda k, R, r, g, q: [k * R == g * r, k == q, q >= 0, R > 0, r > 0], lambda k, R, r, g, q: g >= 0, [vdot(n, pd), R, r1, sd, q])
    x.prove(tag + 'the normal points towards the second sphere', x.le(0, sd))
    return n, sd
def quad_of(x, s):
    r1, c1, m1, r2, c2, m2 = [x.ts(v) if isinstance(v, VMat) else v.t for v in s]
    dv, dc = vsub(m1, m2), vsub(c1, c2)
    abc = [vdot(dv, dv), 2 * vdot(dv, dc), vdot(dc, dc) - (r1 + r2) * (r1 + r2)]
    x.assume(z3.And(x.le(0, x.abbr(abc[0]))))
    return [x.abbr(v) for v in abc]
def gap_at(x, s, t, ABC):
    """the squared gap at time t as a quadratic in t (proved by ring normalisation)"""
    A, B, C = ABC
    g = A * t * t + B * t + C
    x.prove_eq('the squared gap is quadratic in time', gap2(x, s, t)[0], x.unabbr(g))
    return g

@unit('collision/sphere_sphere/symmetric', 'P13', covers=['hit', 'miss'], contracts={'Range::quadratic_zeros': QZ})
def u(x):
    s = two_spheres(x); z = s[3:] + s[:3]
    x.fact(x.lt(0, s[3].t))
    r1, r2 = run_spheres(x, s), run_spheres(x, z)
    t1, t2 = x.tag(r1), x.tag(r2)
    x.prove('[P13] a contact is found in both orders or in neither', t1 == t2)
    if t1 == 0: x.cover('miss'); return
    a, b = x.payload(r1, 1), x.payload(r2, 1)
    b1, b2 = bounds(x, x.field(a, 'times')), bounds(x, x.field(b, 'times'))
    x.prove('a reported contact has a time', b1 is not None and b2 is not None)
    x.eq_val('[P13] same time in both orders', b1[0], b2[0])
    x.eq_val('[P13] same contact point in both orders', x.field(a, 'position'), x.field(b, 'position'))
    t = x.t(b1[0])
    d = gap2(x, s, t)[1]; dz = gap2(x, z, t)[1]
    p, p2 = contact_point(x, s, t, d, a, ''), contact_point(x, z, t, dz, b, '')
    if p is None or p2 is None: return
    n1, s1 = contact_normal(x, s, t, d, p, a, ''); n2, s2 = contact_normal(x, z, t, dz, p2, b, '')
    # both normals are unit vectors along the same line with the same sense
    for n, g, w, s_ in ((n1, d, 'first', s1), (n2, dz, 'second', s2)):
        for i in range(3):
            x.lemma('a vector parallel to a unit vector is a multiple of it', lambda a, b, c, u, v, w: [a * a + b * b + c * c == 1, b * w - c * v == 0, c * u - a * w == 0, a * v - b * u == 0],
                lambda a, b, c, u, v, w: u - a * (a * u + b * v + c * w) == 0, [n[i], n[(i + 1) % 3], n[(i + 2) % 3], g[i], g[(i + 1) % 3], g[(i + 2) % 3]])
    dd = vdot(d, d)
    for i in range(3):
        x.lemma('opposite unit vectors', lambda a, b, s, t, u, v, e: [u == s * a, v == t * b, u + v == 0, s >= 0, t >= 0, s * s == e, t * t == e, lOr(e > 0, e < 0)], lambda a, b, s, t, u, v, e: a + b == 0,
            [n1[i], n2[i], s1, s2, d[i], dz[i], dd])
        x.prove_eq('[P13] opposite normal in the other order', n1[i], tm.neg(n2[i]))
    x.cover('hit')

# ------------------------------------------------------------------ sphere against plane
def unit_vec(x, base):
    v = x.vec(base)
    a = [c.t for c in v.m]
    tm.set_square(a[2], ONE - a[0] * a[0] - a[1] * a[1])
    return v
@unit('collision/sphere_plane', 'P11', 'P12', covers=['hit', 'miss', 'embedded', 'slow'])
def u(x):
    r = pos(x, x.real('r')); c, m, p, n, w = x.vec('c'), x.vec('m'), x.vec('p'), unit_vec(x, 'n'), x.vec('w')
    C, M, P, N, W = [x.ts(v) for v in (c, m, p, n, w)]
    d0 = x.abbr(vdot(vsub(C, P), N) - r.t); mu = x.abbr(vdot(vsub(M, W), N))
    x.fact(x.eqr(d0, x.unabbr(d0))); x.fact(x.eqr(mu, x.unabbr(mu)))
    def dist(t):
        """distance of the nearest point of the moved sphere to the moved plane; linear in time (by ring normalisation)"""
        g = d0 + mu * t
        x.prove_eq('the distance is linear in time', vdot(vsub(vadd(C, vscale(M, t)), vadd(P, vscale(W, t))), N) - r.t, x.unabbr(g))
        return g
    res = x.call(PLANE, r, x.ref(c), x.ref(m), x.ref(p), x.ref(n), x.ref(w))
    tau = x.real('tau').t
    x.fact(x.le(0, tau)); x.fact(x.le(tau, 1))
    dtau = dist(tau)
    slow = x.branch(z3.And(x.lt(tm.neg(EPS), mu), x.lt(mu, EPS)))
    if slow: x.cover('slow')
    if x.tag(res) == 0:
        x.cover('miss')
        x.prove('[P12] a sphere that starts embedded in the plane is reported', x.lt(0, d0))
        if slow:
            x.lemma('[P12] slow: hardly any movement', lambda k, t: [t >= 0, t <= 1, k > -EPSz, k < EPSz], lambda k, t: lAnd(k * t > -EPSz, k * t < EPSz), [mu, tau])
            x.prove('[P12] a slow sphere that is not reported stays in front of the plane, up to epsilon', x.lt(tm.neg(EPS), dtau))
        else:
            x.prove('[P12] a sphere that starts in front of the plane and is not reported never touches it during the step', x.lt(0, dtau))
        return
    v = x.payload(res, 1)
    b = bounds(x, x.field(v, 'times'))
    x.prove('[P11] a reported contact has a time', b is not None)
    t = x.t(b[0]); pp, nn = x.ts(x.field(v, 'position')), x.ts(x.field(v, 'normal'))
    x.prove('[P11] the contact time is not before the step', x.le(0, t))
    x.prove('[P11] the contact time is not after the step', x.le(t, 1))
    dt = dist(t)
    near = vsub(vadd(C, vscale(M, t)), vscale(N, r.t))
    for a, e in zip(pp, near): x.prove_eq('[P11] the contact point is the point of the moved sphere nearest the plane', a, e)
    for a, e in zip(nn, N): x.prove_eq('[P11] the contact normal points from the sphere into the plane', a, tm.neg(e))
    if x.branch(x.le(d0, 0)):
        x.cover('embedded')
        x.prove('[P12] a sphere that starts embedded is reported at once', x.eqr(t, 0))
        return
    x.cover('hit')
    x.prove('[P11] spheres hardly moving relative to the plane are reported only when embedded', not slow)
    x.prove('[P11] at the contact time the sphere touches the plane', x.eqr(dt, 0))
    x.prove('[P12] the sphere does not touch the plane before the reported time', z3.Or(x.lt(0, dtau), x.le(t, tau)))

# ------------------------------------------------------------------ dispatcher: order independence and placement (P13)
from prog import TAGS
KERNELS = {k: 'collision::collide_' + k for k in ('sphere_with_sphere', 'sphere_with_plane', 'sphere_with_mesh', 'mesh_with_plane', 'mesh_with_mesh', 'sphere_with_aligned_box')}
def hit_value(x, c, like):
    """an Option<Collision> built like another one"""
    return c
def mirrored(ties):
    """contract of a kernel whose two objects have the same kind: swapping them keeps time and point and turns the normal around
    (established by the 'symmetric' units); ties: of several contacts at that time another one may be reported"""
    def fn(x, args, mk):
        h = len(args) // 2
        k = ('mirror', h, tuple(loops.skey(x, a) for a in args))
        sw = ('mirror', h, tuple(loops.skey(x, a) for a in args[h:] + args[:h]))
        if sw in x.memo:
            o = x.memo[sw]
            if x.tag(o) == 0: r = VEnum(0, {0: ()}, o.tid)
            else:
                v = x.payload(o, 1)
                n = x.field(v, 'normal'); p = x.field(v, 'position')
                if ties and x.choose(2) == 1:
                    x.tie = True
                    w = x.payload(VEnum(1, mk().vs, o.tid), 1)
                    n, p = x.field(w, 'normal'), x.field(w, 'position')
                r = VEnum(1, {1: (x.with_(v, normal=VMat(3, 1, [x.fneg(e) for e in n.m]), position=p),)}, o.tid)
        else: r = mk()
        x.memo[k] = r
        return r
    return fn
import loops
# ---- contacts reported by the box kernel have a time within the step (needed to interpolate the pose at that time)
def timed(x, o):
    """z3 fact: an Option<Collision> that is Some has finite times, the first one within the step"""
    o = x.deref(o)
    if isinstance(o.tag, int) and o.tag == 0: return z3.BoolVal(True)
    r = x.field(o.vs[1][0], 'times')
    lo, hi = x.field(r, 'min'), x.field(r, 'max')
    def fn(v): return z3.BoolVal(v.k == 'f') if v.k != 's' else v.t[0] == FIN
    tz = lambda v: tm.to_z3(v.t[1] if v.k == 's' else v.t if v.k == 'f' else ZERO)
    f = z3.And(fn(lo), fn(hi), tz(lo) >= 0, tz(lo) <= 1)
    return f if isinstance(o.tag, int) else z3.Implies(o.tag == 1, f)
def acc_ok(x, a):
    a = x.deref(a); e = x.field(a, 'earliest'); t = x.field(a, 'earliest_time')
    cls = t.t[0] if t.k == 's' else z3.IntVal(KCLS[t.k])
    none = zi(e.tag) == 0
    out = [timed(x, e), z3.Implies(none, cls == PINF)]
    if not (isinstance(e.tag, int) and e.tag == 0):
        lo = x.field(x.field(e.vs[1][0], 'times'), 'min')
        tz = lambda v: tm.to_z3(v.t[1] if v.k == 's' else v.t if v.k == 'f' else ZERO)
        out.append(z3.Implies(zi(e.tag) == 1, z3.And(cls == FIN, tz(t) == tz(lo))))
    return z3.And(out)
def consider_contract(x, c):
    r = c.args[0]
    x.prove('accumulators hold only contacts with a time within the step', acc_ok(x, r))
    x.prove('only contacts with a time within the step are considered', timed(x, c.args[1]))
    n = x.sym('EarliestCollisionAccumulator', 'acc'); x.assume(acc_ok(x, n))
    x.store_to(r.root, r.path, n)
    return VAgg(())
def timed_result(x, c):
    o = x.fresh(x.prog.tpl(c.dty), 'hit'); x.assume(timed(x, o))
    return o
def any_result(x, c): return x.fresh(x.prog.tpl(c.dty), 'any')
def timed_line(diff):
    def f(x, c):
        v = [x.ts(a) for a in c.args[3:5]]
        d = vsub(v[1], v[0]) if diff else v[1]
        x.prove('the line has a direction', z3.Or([x.ne0(e) for e in d]))
        return timed_result(x, c)
    return Contract('sphere against line: reports only contacts with a time within the step', f)
def intersect_contract(x, c):
    """within a finite second range the result is empty or has finite bounds within it (see range/intersect)"""
    b = x.deref(c.args[1]); lo, hi = x.field(b, 'min'), x.field(b, 'max')
    o = any_result(x, c)
    if lo.k == 'f' and hi.k == 'f':
        a, z = x.field(o, 'min'), x.field(o, 'max')
        t = lambda v: tm.to_z3(v.t[1])
        x.assume(z3.Or(z3.And(a.t[0] == NAN_, z.t[0] == NAN_),
            z3.And(a.t[0] == FIN, z.t[0] == FIN, t(a) >= tm.to_z3(lo.t), t(a) <= t(z), t(z) <= tm.to_z3(hi.t))))
    return o
TIMED = Contract('reports only contacts with a time within the step', timed_result)

@unit('collision/accumulator', 'P13', covers=['done'])
def u(x):
    n = x.call('EarliestCollisionAccumulator::new')
    x.prove('a new accumulator holds no contact', acc_ok(x, n))
    a = x.sym('EarliestCollisionAccumulator', 'a'); x.fact(acc_ok(x, a)); r = x.ref(a)
    f = x.fn('EarliestCollisionAccumulator::consider')
    p = x.fresh(x.prog.tpl(f['locals'][2]), 'p'); x.fact(timed(x, p))
    x.call(f, r, p)
    x.prove('considering a contact with a time within the step keeps the accumulator consistent', acc_ok(x, r))
    x.cover('done')
@unit('collision/line_times', 'P13', covers=['hit'], contracts={'Range::quadratic_zeros': QZ})
def u(x):
    r = pos(x, x.real('r'))
    vs = [x.vec(n) for n in ('c', 'm', 's', 'd', 'w')]
    dd = x.ts(vs[3]); x.fact(z3.Or([x.ne0(e) for e in dd]))
    x.lemma('a direction has a length', lambda a, b, c: [lOr(a > 0, a < 0, b > 0, b < 0, c > 0, c < 0)], lambda a, b, c: a * a + b * b + c * c > 0, dd)
    res = x.call('collision::collide_sphere_with_line', r, *[x.ref(v) for v in vs])
    x.prove('contacts with a line have a time within the step', timed(x, res))
    if x.tag(res) == 1: x.cover('hit')
@unit('collision/line_segment_times', 'P13', covers=['hit'], contracts={'collision::collide_sphere_with_line': timed_line(False)})
def u(x):
    r = pos(x, x.real('r'))
    vs = [x.vec(n) for n in ('c', 'm', 's', 'e', 'w')]
    x.fact(z3.Or([x.ne0(e) for e in vsub(x.ts(vs[3]), x.ts(vs[2]))]))
    res = x.call('collision::collide_sphere_with_mid_line_segment', r, *[x.ref(v) for v in vs])
    x.prove('contacts with a line segment have a time within the step', timed(x, res))
    if x.tag(res) == 1: x.cover('hit')
@unit('collision/box_times', 'P13', covers=['done'], max_unroll=20, contracts={'EarliestCollisionAccumulator::consider': Contract('EarliestCollisionAccumulator::consider', consider_contract),
      'collision::collide_sphere_with_mid_line_segment': timed_line(True), 'collision::collide_sphere_with_sphere': TIMED,
      'Range::linear_overlap': Contract('Range::linear_overlap (any range)', any_result), 'Range::contain': Contract('Range::contain (any range)', any_result), 'Range::intersect': Contract('Range::intersect', intersect_contract)})
def u(x):
    r = pos(x, x.real('r')); c, m, lo, hi = [x.vec(n) for n in ('c', 'm', 'lo', 'hi')]
    for a, b in zip(lo.m, hi.m): x.fact(x.lt(EPS, b.t - a.t))
    res = x.call('collision::collide_sphere_with_aligned_box', r, x.ref(c), x.ref(m), x.ref(lo), x.ref(hi))
    x.prove('contacts with a box have a time within the step', timed(x, res))
    x.cover('done')
def timed_mk(x, args, mk):
    o = mk(); x.assume(timed(x, o)); return o
PURE = {}
for _k, _n in KERNELS.items():
    PURE[_n] = pure(_n, mirrored(_k == 'mesh_with_mesh') if _k in ('sphere_with_sphere', 'mesh_with_mesh') else timed_mk if 'box' in _k else None)
PURE['InternalMeshCollider::vertices_in_world'] = pure('vertices_in_world')
def dyn(x, k, base):
    return VDyn(k, {k: x.sym("Internal%sCollider" % TAGS[k], base)})
def impl(b): return b.im[b.tag]
SUPPORTED = {(1, 1), (1, 2), (1, 3), (1, 4), (2, 3), (3, 3)}

def world(x, o, p): return x.call('Orientation::position_into_world', x.ref(o), x.ref(p))
def local(x, o, p): return x.call('Orientation::position_into_local', x.ref(o), x.ref(p))
def expect(x, i, j, a, b, pa, pb):
    """the arguments the kernel of this pair must be given: every collider placed by the poses of its own entity"""
    (s1, e1), (s2, e2) = pa, pb
    f = lambda v, n: x.field(v, n)
    def mv(p, q): return VMat(3, 1, [x.fsub(c, d) for c, d in zip(q.m, p.m)])
    if i == 1:
        r, c1 = f(a, 'radius'), world(x, s1, f(a, 'center')); m1 = mv(c1, world(x, e1, f(a, 'center')))
    if (i, j) == (1, 1):
        c2 = world(x, s2, f(b, 'center'))
        return [r, c1, m1, f(b, 'radius'), c2, mv(c2, world(x, e2, f(b, 'center')))]
    if (i, j) == (1, 2):
        p2 = world(x, s2, f(b, 'position'))
        return [r, c1, m1, p2, f(b, 'normal'), mv(p2, world(x, e2, f(b, 'position')))]
    if (i, j) == (1, 3):
        p2 = world(x, s2, f(b, 'position'))
        k = ('pure', 'vertices_in_world', (loops.skey(x, x.ref(b)), loops.skey(x, x.ref(s2))))
        return [r, c1, m1, x.memo.get(k), f(b, 'edges'), f(b, 'faces'), mv(p2, world(x, e2, f(b, 'position')))]
    if (i, j) == (1, 4):
        l0, l1 = local(x, s2, c1), local(x, e2, world(x, e1, f(a, 'center')))
        def corner(n): return VMat(3, 1, [x.fadd(c, d) for c, d in zip(f(b, 'position').m, f(b, n).m)])
        return [r, l0, mv(l0, l1), corner('min_corner'), corner('max_corner')]
    if (i, j) == (2, 3):
        return [f(b, 'vertices'), f(b, 'position'), s2, e2, world(x, s1, f(a, 'position')), world(x, e1, f(a, 'position')), f(a, 'normal')]
    if (i, j) == (3, 3): return [a, s1, e1, b, s2, e2]
def mk_pair(i, j):
    sup = (i, j) in SUPPORTED
    @unit('collision/collide/%s-%s' % (TAGS[i], TAGS[j]), 'P13', *(['P11', 'P12'] if (i, j) in ((1, 1), (1, 2)) else []),
          covers=['hit', 'miss'] if sup else ['never'], contracts=PURE)
    def u(x):
        A, B = dyn(x, i, 'A'), dyn(x, j, 'B')
        s1, e1, s2, e2 = [x.sym('Orientation', n) for n in ('s1', 'e1', 's2', 'e2')]
        before = [x.ref(v) for v in (A, s1, e1, B, s2, e2)]
        r1 = x.call('collision::collide', *before)
        n1 = len(x.memo.get('calls', []))
        r2 = x.call('collision::collide', *(before[3:] + before[:3]))
        t1, t2 = x.tag(r1), x.tag(r2)
        if not sup:
            x.prove('[P13] this pair of kinds never collides', t1 == 0); x.prove('[P13] nor in the other order', t2 == 0)
            x.cover('never'); return
        calls = [c for c in x.memo.get('calls', []) if c[0].startswith('collide_')]
        x.prove('one kernel decides each of the two calls', len(calls) == 2)
        for n, (nm, args, _) in enumerate(calls):
            order = (impl(A), impl(B), (s1, e1), (s2, e2)) if i != j or n == 0 else (impl(B), impl(A), (s2, e2), (s1, e1))
            if i == 2 and j == 3: want = expect(x, i, j, *order)
            else: want = expect(x, i, j, *order)
            if len(want) != len(args): raise Missing('%s takes %d arguments, %d expected' % (nm, len(args), len(want)))
            for k, (g, w) in enumerate(zip(args, want)):
                g = x.deref(g)
                if isinstance(g, VRef): g = x.deref(g)
                if w is None: x.prove('argument %d of %s is the mesh placed by the starting pose of its own entity' % (k, nm), False); continue
                x.eq_val('argument %d of %s places the collider by the poses of its own entity' % (k, nm), g, w)
        x.prove('[P13] a contact is found in both orders or in neither', t1 == t2)
        if t1 == 0: x.cover('miss'); return
        a, b = x.payload(r1, 1), x.payload(r2, 1)
        b1, b2 = bounds(x, x.field(a, 'times')), bounds(x, x.field(b, 'times'))
        x.prove('[P13] both contacts have a time or neither', (b1 is None) == (b2 is None))
        if b1 is None: return
        x.eq_val('[P13] same time in both orders', b1[0], b2[0])
        if getattr(x, 'tie', False): x.cover('tie'); return
        x.eq_val('[P13] same contact point in both orders', x.field(a, 'position'), x.field(b, 'position'))
        x.eq_val('[P13] opposite normal in the other order', x.field(a, 'normal'), VMat(3, 1, [x.fneg(c) for c in x.field(b, 'normal').m]))
        for v, w in zip(before, (A, s1, e1, B, s2, e2)): pass
        x.cover('hit')
for _i in range(5):
    for _j in range(_i, 5): mk_pair(_i, _j)

# ------------------------------------------------------------------ mesh against mesh: order independence up to simultaneous contacts
POINTS = 'collision::collide_mesh_points_with_mesh_faces'
def points_args(x, p):
    """symbolic arguments (points of one mesh, the other mesh, its points)"""
    f = x.fn(POINTS)
    def of(i):
        t = f['locals'][i]
        while x.prog.types[t]['k'] == 'ref': t = x.prog.types[t]['to']
        return x.fresh(x.prog.tpl(t), p + str(i))
    return of(2), of(3), of(4)
def consider(x, acc, c, factor):
    """acc.consider(c with its normal multiplied), on the real code"""
    if x.tag(c) == 0: return
    v = x.payload(c, 1)
    n = x.field(v, 'normal')
    v = x.with_(v, normal=VMat(3, 1, [x.fmul(e, factor) for e in n.m]))
    x.call('EarliestCollisionAccumulator::consider', acc, VEnum(1, {1: (v,)}, c.tid))
@unit('collision/mesh_points_with_faces', 'P13', covers=['hit', 'miss'], opaque=True)
def u(x):
    p1, m2, p2 = points_args(x, 'a')
    o0 = x.ref(x.call('EarliestCollisionAccumulator::new'))
    one = Fl('f', ONE)
    x.call(POINTS, o0, x.ref(p1, False), x.ref(m2, False), x.ref(p2, False), one)
    acc = x.sym('EarliestCollisionAccumulator', 'acc'); f = x.real('f')
    o1, o2 = x.ref(acc), x.ref(acc)
    x.call(POINTS, o1, x.ref(p1, False), x.ref(m2, False), x.ref(p2, False), f)
    c = x.call('EarliestCollisionAccumulator::get', x.deref(o0))
    # c is what the points and faces alone decide; unless its time is NaN
    if x.tag(c) == 1 and bounds(x, x.field(x.payload(c, 1), 'times')) is None: return
    consider(x, o2, c, f)
    a, b = x.deref(o1), x.deref(o2)
    x.eq_val('the contact of the points with the faces is offered, its normal multiplied', a, b)
    x.cover('hit' if x.tag(c) == 1 else 'miss')
def points_contract(x, c):
    out, p1, m2, p2, f = c.args
    k = ('pure', 'points', tuple(loops.skey(x, a) for a in (p1, m2, p2)))
    r = x.memo.get(k)
    if r is None:
        g = x.fn('collision::collide_mesh_with_mesh')
        r = x.fresh(x.prog.tpl(g['locals'][0]), 'pts'); x.memo[k] = r
        x.memo.setdefault('points', []).append(r)
    consider(x, out, r, f)
    return VAgg(())
@unit('collision/mesh_mesh/symmetric', 'P13', covers=['hit', 'miss'], contracts={POINTS: Contract(POINTS.split('::')[-1], points_contract),
      'collision::precompute_mesh_point_pairs': pure('precompute_mesh_point_pairs')})
def u(x):
    a, b = x.sym('InternalMeshCollider', 'A'), x.sym('InternalMeshCollider', 'B')
    s1, e1, s2, e2 = [x.sym('Orientation', n) for n in ('s1', 'e1', 's2', 'e2')]
    A, B, S1, E1, S2, E2 = [x.ref(v) for v in (a, b, s1, e1, s2, e2)]
    r1 = x.call('collision::collide_mesh_with_mesh', A, S1, E1, B, S2, E2)
    r2 = x.call('collision::collide_mesh_with_mesh', B, S2, E2, A, S1, E1)
    x.prove('the points of each mesh are checked against the faces of the other', len(x.memo.get('points', [])) == 2)
    t1, t2 = x.tag(r1), x.tag(r2)
    x.prove('[P13] a contact is found in both orders or in neither', t1 == t2)
    if t1 == 0 or t2 == 0: x.cover('miss'); return
    v, w = x.payload(r1, 1), x.payload(r2, 1)
    b1, b2 = bounds(x, x.field(v, 'times')), bounds(x, x.field(w, 'times'))
    if b1 is None or b2 is None: x.prove('[P13] both contacts have a time', False); return
    x.eq_val('[P13] same time in both orders', b1[0], b2[0])
    p, q = x.memo['points'][:2]
    if x.tag(p) == 1 and x.tag(q) == 1:
        c, d = [bounds(x, x.field(x.payload(z, 1), 'times')) for z in (p, q)]
        if c is not None and d is not None and c[0].k == d[0].k and (c[0].k != 'f' or x.branch(x.eqr(c[0].t, d[0].t))): return     # simultaneous: either may be reported
    x.eq_val('[P13] same contact point in both orders', x.field(v, 'position'), x.field(w, 'position'))
    x.eq_val('[P13] opposite normal in the other order', x.field(v, 'normal'), VMat(3, 1, [x.fneg(e) for e in x.field(w, 'normal').m]))
    x.cover('hit')
