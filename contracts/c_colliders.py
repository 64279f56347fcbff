"""Contracts on the collider modules: acceptance, normalisation, round trip, mass / centre / tensor getters (P18, P19, P04-P06)."""
from unit import *
from fractions import Fraction
EPS = Fraction('0.000001'); MINR = Fraction('0.05')
KINDS = ['Null', 'Sphere', 'Plane', 'Mesh', 'AlignedBox']
COEFS = ['restitution_coefficient', 'friction_threshold', 'static_friction_coefficient', 'dynamic_friction_coefficient']

def pub_fields(x, kind):
    t = x.tid(kind + 'Collider')
    return [n for n, _ in x.prog.types[t]['variants'][0]['fields']]
def massless(kind): return kind == 'Mesh'
def nonneg(x, m):
    """0 <= m for an extended float (False for NaN)"""
    m = x.conc(m)
    if m.k == 'f': return x.le(0, m.t)
    return z3.BoolVal(m.k == '+')
def valid_spec(x, kind, s):
    """the documented acceptance condition, as a z3 Bool"""
    if kind == 'Null': return nonneg(x, x.field(s, 'mass'))
    if kind == 'Sphere':
        r = x.conc(x.field(s, 'radius'))
        rok = z3.BoolVal(False) if r.k == 'n' else x.lt(MINR, r.t)
        return z3.And(rok, nonneg(x, x.field(s, 'mass')))
    if kind == 'Plane':
        n = x.ts(x.field(s, 'normal'))
        return z3.And(x.lt(EPS, x.sqrt_t(vdot(n, n))), nonneg(x, x.field(s, 'mass')))
    if kind == 'AlignedBox':
        d = vsub(x.ts(x.field(s, 'max_corner')), x.ts(x.field(s, 'min_corner')))
        return z3.And([z3.Or(x.lt(EPS, c), x.lt(EPS, tm.neg(c))) for c in d] + [nonneg(x, x.field(s, 'mass'))])
    if kind == 'Mesh':
        return z3.And(zi(x.field(s, 'vertices').n) >= 3, zi(x.field(s, 'faces').n) >= 1, zi(x.field(s, 'edges').n) >= 1)
def iff(x, name, b, c):
    """obligation: the code's boolean equals the specified condition"""
    b = b.t
    x.prove(name, (zb(b) == c))
def same_fields(x, label, got, want, fields):
    for n in fields: x.eq_val('%s: %s' % (label, n), x.field(got, n), x.field(want, n))
def stored_like(x, kind, label, got, src):
    """got (public copy of what is stored) is src, normalised"""
    for n in pub_fields(x, kind):
        if n == 'entity': continue
        if kind == 'Plane' and n == 'normal':
            g, s = x.ts(x.field(got, n)), x.ts(x.field(src, n))
            x.prove_eq('[P18] %s: the stored normal has unit length' % label, vdot(g, g), ONE)
            ln = x.sqrt_t(vdot(s, s))
            for a, b in zip(g, s): x.prove_eq('[P18] %s: the stored normal has the direction given' % label, a * ln, b)
            continue
        if kind == 'AlignedBox' and n in ('min_corner', 'max_corner'):
            g, a, b = x.ts(x.field(got, n)), x.ts(x.field(src, 'min_corner')), x.ts(x.field(src, 'max_corner'))
            for i in range(3):
                lo = n == 'min_corner'
                gz, az, bz = tm.to_z3(g[i]), tm.to_z3(a[i]), tm.to_z3(b[i])
                x.prove('[P18] %s: %s is the component-wise %s' % (label, n, 'minimum' if lo else 'maximum'),
                        gz == z3.If((az < bz) if lo else (az > bz), az, bz))
            continue
        x.eq_val('[P19] %s: %s' % (label, n), x.field(got, n), x.field(src, n))
def src_value(x, kind):
    s = x.sym(kind + 'Collider', 'src')
    if kind == 'Sphere' and x.choose(2) == 1: s = x.with_(s, radius=NAN)
    return s
def link_of(x, kind, v):
    """the entity a stored collider reports, through the trait"""
    return x.method('Internal%sCollider' % kind, 'InternalCollider', 'get_entity', x.ref(v))
def mkpub(x, kind, v): return x.call('Internal%sCollider::make_pub' % kind, x.ref(v))

def mk(kind):
    @unit('collider/%s/is_valid' % kind, 'P18', covers=['valid', 'invalid'])
    def u(x):
        s = src_value(x, kind)
        ok = x.call('%sCollider::is_valid' % kind, x.ref(s))
        spec = valid_spec(x, kind, s)
        iff(x, '[P18] is_valid holds exactly for the documented values', ok, spec)
        x.cover('valid' if x.branch(spec) else 'invalid')

    @unit('collider/%s/new_from' % kind, 'P18', 'P19', covers=['stored', 'refused'])
    def u(x):
        s = src_value(x, kind); r = x.ref(s)
        res = x.call('Internal%sCollider::new_from' % kind, r)
        spec = valid_spec(x, kind, s)
        t = x.tag(res)
        x.prove('[P18] new_from accepts exactly the valid sources', spec if t == 0 else z3.Not(spec))
        if t == 1: x.cover('refused'); return
        d = x.deref_box(x.payload(res, 0))
        x.prove('[P19] the stored collider has the kind given', isinstance(d.tag, int) and TAGS[d.tag] == kind)
        v = d.im[TAGS.index(kind)]
        e = link_of(x, kind, v)
        x.prove('[P19] a new collider is not linked to anything', zi(e.tag) == 0)
        stored_like(x, kind, 'new_from', mkpub(x, kind, v), s)
        x.eq_val('[P19] new_from leaves its source alone', x.deref(r), s)
        x.cover('stored')

    @unit('collider/%s/update_from' % kind, 'P18', 'P19', covers=['stored', 'refused'])
    def u(x):
        s = src_value(x, kind)
        old = x.sym('Internal%sCollider' % kind, 'old'); r = x.ref(old)
        before = mkpub(x, kind, old)
        res = x.call('Internal%sCollider::update_from' % kind, r, x.ref(s))
        spec = valid_spec(x, kind, s)
        t = x.tag(res)
        x.prove('[P18] update_from accepts exactly the valid sources', spec if t == 0 else z3.Not(spec))
        new = x.deref(r)
        x.eq_val('[P19] update_from keeps the link', link_of(x, kind, new), link_of(x, kind, old))
        if t == 1:
            x.eq_val('[P18] a refused update leaves every field as it was', new, old)
            x.cover('refused'); return
        after = mkpub(x, kind, new)
        stored_like(x, kind, 'update_from', after, s)
        x.cover('stored')

    @unit('collider/%s/read' % kind, 'P19', 'P02', covers=['done'])
    def u(x):
        v = x.sym('Internal%sCollider' % kind, 'c'); r = x.ref(v)
        p = x.call('Internal%sCollider::make_pub' % kind, r)
        x.eq_val('[P19] reading a collider changes nothing', x.deref(r), v)
        m = lambda n, *a: x.method('Internal%sCollider' % kind, 'InternalCollider', n, x.ref(v), *a)
        x.eq_val('[P19] the public copy reports the stored link', x.method(kind + 'Collider', 'Collider', 'get_entity', x.ref(p)), m('get_entity'))
        ty = {'Null': 0, 'Sphere': 1, 'Plane': 2, 'Mesh': 3, 'AlignedBox': 4}[kind]
        want = ['NULL', 'SPHERE', 'PLANE', 'MESH', 'ALIGNED_BOX'][ty]
        names = [q['name'] for q in x.prog.types[x.tid('ColliderType')]['variants']]
        for g in (m('get_type'), x.method(kind + 'Collider', 'Collider', 'get_type', x.ref(p))):
            x.prove('[P19] the type reported is the kind of the collider', isinstance(g.tag, int) and names[g.tag] == want)
        # linking: set_entity replaces the link and nothing else
        e = x.fresh(x.prog.tpl(x.prog.types[x.prog.method('Internal%sCollider' % kind, 'InternalCollider', 'set_entity')['locals'][2]] and
                               x.prog.method('Internal%sCollider' % kind, 'InternalCollider', 'set_entity')['locals'][2]), 'lnk')
        r2 = x.ref(v)
        was = x.method('Internal%sCollider' % kind, 'InternalCollider', 'set_entity', r2, e)
        x.eq_val('[P02] set_entity returns the previous link', was, m('get_entity'))
        n = x.deref(r2)
        x.eq_val('[P02] set_entity stores the link given', link_of(x, kind, n), e)
        q = mkpub(x, kind, n)
        same_fields(x, '[P02] set_entity changes nothing else', q, p, [k for k in pub_fields(x, kind) if k != 'entity'])
        x.cover('done')

    @unit('collider/%s/mass_properties' % kind, 'P06', 'P05', 'P04', covers=['done'])
    def u(x):
        v = x.sym('Internal%sCollider' % kind, 'c')
        p = mkpub(x, kind, v)
        m = lambda n: x.method('Internal%sCollider' % kind, 'InternalCollider', n, x.ref(v))
        mass = m('get_mass')
        if kind == 'Mesh': x.eq_val('[P04] a mesh has no mass', mass, fin(0))
        else: x.eq_val('[P04] get_mass is the mass given', mass, x.field(p, 'mass'))
        com = x.ts(m('get_local_center_of_mass'))
        if kind == 'Sphere': want = x.ts(x.field(p, 'center'))
        elif kind == 'AlignedBox':
            a, b = x.ts(x.field(p, 'min_corner')), x.ts(x.field(p, 'max_corner'))
            want = vadd(x.ts(x.field(p, 'position')), vscale(vadd(a, b), const(Fraction(1, 2))))
        else: want = x.ts(x.field(p, 'position'))
        x.eq_all('[P05] centre of mass', com, want)
        pc = x.ts(x.method(kind + 'Collider', 'Collider', 'get_center_of_mass', x.ref(p)))
        x.eq_all('[P05] the public copy reports the same centre of mass', pc, want)
        if massless(kind) or kind == 'Plane': ten = [ZERO] * 9
        elif kind == 'Null': ten = x.ts(x.field(p, 'moment_of_inertia'))
        else:
            mm = x.conc(mass)
            if mm.k != 'f': x.cover('done'); return          # an infinite mass has no tensor (never used)
            if kind == 'Sphere':
                r = x.t(x.field(p, 'radius'))
                d = [mm.t * r * r * Fraction(2, 5)] * 3
            else:
                sz = vsub(x.ts(x.field(p, 'max_corner')), x.ts(x.field(p, 'min_corner')))
                q = [c * c for c in sz]
                d = [mm.t * Fraction(1, 12) * (q[1] + q[2]), mm.t * Fraction(1, 12) * (q[0] + q[2]), mm.t * Fraction(1, 12) * (q[0] + q[1])]
            ten = [d[i] if i == j else ZERO for j in range(3) for i in range(3)]
        x.eq_all('[P06] moment of inertia about the centre of mass', x.ts(m('get_moment_of_inertia_tensor')), ten)
        x.cover('done')

    @unit('collider/%s/coefficients' % kind, 'P19', 'P09', covers=['done'])
    def u(x):
        v = x.sym('Internal%sCollider' % kind, 'c')
        p = mkpub(x, kind, v)
        for n, dflt in zip(COEFS, (0, 1, 0, 0)):
            g = x.method('Internal%sCollider' % kind, 'InternalCollider', 'get_' + n, x.ref(v))
            x.eq_val('get_%s' % n, g, fin(dflt) if kind == 'Null' else x.field(p, n))
        x.cover('done')

for k in KINDS: mk(k)
