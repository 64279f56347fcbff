"""The public operations of PhysicsSystem other than step: handles, links, mass bookkeeping (P01-P06, P16, P18, P19)."""
from unit import *
from prog import TAGS
import loops
from c_colliders import nonneg, valid_spec, stored_like, mkpub, KINDS
from c_world import World, massok
from c_wake import WAKE, Arr, closed_fact, S2
from c_mass import check_entity, origin_spec, coll

MASSF = ['own_mass', 'total_mass', 'prepped_moment_of_inertia', 'colliders']
P = lambda A, h: z3.Select(A.present, h)

# ------------------------------------------------------------------ contract of recalculate_mass (proved in mass/recalculate, mass/recalculate/idempotent)
def recalc(x, c):
    r = c.args[0]
    e = x.deref(r); A = x.deref(c.args[1])
    S = x.field(e, 'colliders').a
    x.prove('precondition of recalculate_mass: valid own mass', massok(x, x.field(e, 'own_mass')))
    def pre(y):
        d = y.fresh_int('rc')
        y.unit.instantiate(y, 'collider', d)
        y.assume(y.to_b(y.sel(S, d)))
        y.prove('precondition of recalculate_mass: every linked collider exists', y.to_b(y.sel(A.present, d)))
        v = y.rebuild_at(A.el, d)
        for n, im in sorted(v.im.items()):
            if isinstance(v.tag, int) and v.tag != n: continue
            fs = [q for q, _ in y.prog.types[im.tid]['variants'][0]['fields']]
            g = z3.BoolVal(True) if isinstance(v.tag, int) else v.tag == n
            if 'mass' in fs: y.prove('precondition of recalculate_mass: valid collider masses', z3.Implies(g, massok(y, y.field(im, 'mass'))))
        if not isinstance(v.tag, int): y.prove('precondition of recalculate_mass: known collider kinds', z3.And(v.tag >= 0, v.tag < len(v.im)))
        return ('val', None)
    for _, s in x.sub_paths('recalcpre', pre, 40): x.obs += s.obs
    o = x.field(e, 'orientation')
    same = next((h for h in x.handles.get('entity', []) if x.world and consistent(x, e, x.rebuild_at(x.world.E0.el, h))), None)
    if same is not None and any(x.entails_light(x.to_b(x.sel(S, d))) for d in x.handles.get('collider', [])) and x.entails_light(P(x.world.E0, same)) and same_masses(x, S, A, x.world.C0):
        n = e                                  # already right: nothing changes (mass/recalculate/idempotent)
    else:
        d = [x.fresh_T('com') for _ in range(3)]
        from c_orientation import R
        pos = vsub(x.ts(x.field(o, 'position')), mvec(R(x, x.field(o, 'rotation')), d))
        off = vadd(x.ts(x.field(o, 'internal_origin_offset')), d)
        V3 = lambda l: VMat(3, 1, [Fl('f', c) for c in l])
        n = x.with_(e, orientation=x.with_(o, position=V3(pos), internal_origin_offset=V3(off)),
                    total_mass=x.field(x.sym('InternalEntity', 'rec'), 'total_mass'),
                    prepped_moment_of_inertia=VMat(3, 3, [Fl('f', x.fresh_T('rt')) for _ in range(9)]))
        x.fact(massok(x, x.field(n, 'total_mass')))
    x.memo.setdefault('recalc', []).append((e, A, n))
    x.store_to(r.root, r.path, n)
    return VAgg([])
RECALC = Contract('recalculate_mass', recalc)

def consistent(x, e, b):
    """e has the cached values of b and the same links"""
    if mass_leaves(x, e) is None or mass_leaves(x, b) is None: return False
    eqs = [p == q for p, q in zip(mass_leaves(x, e), mass_leaves(x, b)) if not p.eq(q)]
    return not eqs or x.entails_light(z3.And(eqs))
def mass_leaves(x, e):
    tpl = x.prog.tpl(e.tid)
    out = []
    for n in MASSF: out += flatten(x, tpl[1][x.idx(e, n)], x.field(e, n))
    o = x.field(e, 'orientation')
    i = x.idx(e, 'orientation'); j = x.idx(o, 'internal_origin_offset')
    out += flatten(x, tpl[1][i][1][j], x.field(o, 'internal_origin_offset'))
    return None if any(l is None for l in out) else out
def same_masses(x, S, A, B, name=None):
    """every collider of the set has the same kind, mass, centre and tensor in the arenas A and B (as obligations when named)"""
    if A is B: return True
    if all(p.eq(q) for p, q in zip(A.el.arrs, B.el.arrs)): return True if name is None else x.trivial(name)
    def run(y):
        d = y.fresh_int('sm')
        y.unit.instantiate(y, 'collider', d)
        y.assume(y.to_b(y.sel(S, d)))
        a, b = y.rebuild_at(A.el, d), y.rebuild_at(B.el, d)
        n0 = len(y.obs)
        nm = name or 'same masses'
        if not (isinstance(a.tag, int) and isinstance(b.tag, int)): y.prove(nm, zi(a.tag) == zi(b.tag))
        elif a.tag != b.tag: y.prove(nm, False)
        for n in sorted(set(a.im) & set(b.im)):
            if isinstance(a.tag, int) and a.tag != n or isinstance(b.tag, int) and b.tag != n: continue
            for f, _ in y.prog.types[a.im[n].tid]['variants'][0]['fields']:
                if f != 'entity' and loops.skey(y, y.field(a.im[n], f)) != loops.skey(y, y.field(b.im[n], f)):
                    y.eq_val(nm, y.field(a.im[n], f), y.field(b.im[n], f))
        return ('val', [o for o in y.obs[n0:]])
    ps = x.sub_paths(('samemass', name), run, 60)
    if name is None: return all(o.ok for r, _ in ps for o in r[1])
    for r, _ in ps: x.obs += r[1]
    return True

# ------------------------------------------------------------------ state after an operation
class Post:
    def __init__(s, x, w):
        s.x = x; s.w = w
        n = x.deref(w.sys); s.s1 = n
        s.E, s.C, s.G = w.arena(n, 'entities'), w.arena(n, 'colliders'), w.arena(n, 'unary_force_generators')
        s.cols, s.nbrs = w.leaf_array(s.E, 'colliders'), w.leaf_array(s.E, 'neighbors')
    def ent(s, h): return s.x.rebuild_at(s.E.el, h)
    def col(s, h): return s.x.rebuild_at(s.C.el, h)

def start(x, nent=1, ncol=1):
    """an arbitrary valid system and arbitrary handles to look at afterwards"""
    w = World(x)
    w.pe = [probe(x, 'entity', 'p%d' % i) for i in range(nent)]
    w.pc = [probe(x, 'collider', 'c%d' % i) for i in range(ncol)]
    return w
def probe(x, kind, base):
    h = x.fresh_int(base)
    x.unit.instantiate(x, kind, h)
    x.probes.setdefault(kind, []).append(h)
    return h
def handle(x, kind, base):
    return VH(probe(x, kind, base))
def instances(x, w):
    pass

def invariants(x, w, q, label, fresh=None):
    """what every state between calls satisfies, for arbitrary handles"""
    p, b, c = w.pe[0], w.pe[-1], w.pc[0]
    pp, pb, pc = x.to_b(x.sel(q.E.present, p)), x.to_b(x.sel(q.E.present, b)), x.to_b(x.sel(q.C.present, c))
    m = x.to_b(x.sel(x.sel(q.cols, p), c))
    s, h = w.linked(x, q.col(c))
    lk = z3.And(pc, s, h == p)
    x.prove('[P02] %s: an entity lists a collider exactly when the collider reports it' % label, z3.Implies(pp, m == lk))
    x.prove('[P02] %s: a link of a collider points at an existing entity' % label, z3.Implies(lk, pp))
    x.prove('[P02] %s: listed colliders exist' % label, z3.Implies(z3.And(pp, m), pc))
    n1 = x.to_b(x.sel(x.sel(q.nbrs, p), b)); n2 = x.to_b(x.sel(x.sel(q.nbrs, b), p))
    x.prove('[P16] %s: resting is symmetric, between existing entities' % label, z3.Implies(z3.And(pp, n1), z3.And(pb, n2)))
    if x.branch(pp):
        v = q.ent(p)
        x.prove('[P03] %s: stored masses are valid' % label, z3.And(massok(x, x.field(v, 'own_mass')), massok(x, x.field(v, 'total_mass'))))
        x.prove('[P01] %s: existing handles were issued' % label, x.to_b(x.sel(q.E.issued, p)))
        masses(x, w, q, label, p, v, fresh is not None and x.is_eq(p, fresh))
    if x.branch(pc):
        x.prove('[P01] %s: existing handles were issued' % label, x.to_b(x.sel(q.C.issued, c)))
        d = q.col(c)
        if not isinstance(d.tag, int): x.prove('[P03] %s: known kinds' % label, z3.And(d.tag >= 0, d.tag < len(d.im)))
        for n, im in sorted(d.im.items()):
            if isinstance(d.tag, int) and d.tag != n: continue
            fs = [q for q, _ in x.prog.types[im.tid]['variants'][0]['fields']]
            g = z3.BoolVal(True) if isinstance(d.tag, int) else d.tag == n
            if 'mass' in fs: x.prove('[P03] %s: stored masses are valid' % label, z3.Implies(g, massok(x, x.field(im, 'mass'))))
def masses(x, w, q, label, p, v, fresh=False):
    """the cached mass, centre and tensor of p belong to the colliders it now has"""
    S = x.field(v, 'colliders').a
    L = '[P04][P05][P06] %s: cached mass, centre of mass and tensor belong to the colliders now linked' % label
    base = [(w.C0, x.rebuild_at(w.E0.el, p))] if x.entails_light(P(w.E0, p)) else []
    for A, b in [(A, n) for _, A, n in reversed(x.memo.get('recalc', []))] + base:
        if consistent(x, v, b):
            x.trivial(L)
            same_masses(x, S, A, q.C, L)
            return
    check_entity(x, label, v, x.field(v, 'orientation'), S, q.C, not fresh)
def entity_same(x, label, a, b, but=()):
    for n, _ in x.prog.types[a.tid]['variants'][0]['fields']:
        if n not in but: x.eq_val('%s: %s' % (label, n), x.field(a, n), x.field(b, n))
def frame_entity(x, w, q, label, p, but=()):
    """p is what it was"""
    x.prove('%s: the other entities exist as before' % label, x.to_b(x.sel(q.E.present, p)) == P(w.E0, p))
    if x.branch(P(w.E0, p)): entity_same(x, '%s: the other entities keep their values' % label, q.ent(p), x.rebuild_at(w.E0.el, p), but)
def frame_collider(x, w, q, label, c):
    x.prove('%s: the other colliders exist as before' % label, x.to_b(x.sel(q.C.present, c)) == P(w.C0, c))
    if x.branch(P(w.C0, c)): dyn_same(x, '%s: the other colliders keep their values' % label, q.col(c), x.rebuild_at(w.C0.el, c))
def dyn_same(x, label, a, b, but=()):
    if not (isinstance(a.tag, int) and isinstance(b.tag, int) and a.tag == b.tag): x.prove(label, zi(a.tag) == zi(b.tag))
    for n in sorted(set(a.im) & set(b.im)):
        if isinstance(a.tag, int) and a.tag != n or isinstance(b.tag, int) and b.tag != n: continue
        for f, _ in x.prog.types[a.im[n].tid]['variants'][0]['fields']:
            if f in but: continue
            p, q = x.field(a.im[n], f), x.field(b.im[n], f)
            if loops.skey(x, p) != loops.skey(x, q): x.eq_val(label, p, q)
    x.trivial(label)
def frame_generators(x, w, q, label):
    x.prove('%s: generators untouched' % label, z3.And(q.G.present == w.G0.present, q.G.issued == w.G0.issued, *[a == b for a, b in zip(q.G.el.arrs, w.G0.el.arrs)]))
def settings_same(x, w, q, label):
    for n in ('iteration_max', 'energy_sleep_threshold', 'sleep_time_threshold', 'collision_records'):
        x.eq_val('%s: %s' % (label, n), x.field(q.s1, n), x.field(w.s0, n))
def issued_grow(x, w, q, label, but=()):
    for k, A, B in (('entity', w.E0, q.E), ('collider', w.C0, q.C), ('generator', w.G0, q.G)):
        if k not in but: x.prove('[P01] %s: no handle is issued or forgotten (%s)' % (label, k), A.issued == B.issued)

@unit('api/add_entity', 'P01', 'P02', 'P03', 'p16', 'P04', 'P05', 'P06', 'P18', 'P19', covers=['added', 'refused'])
def u(x):
    w = start(x, 2)
    src = x.sym('Entity', 'src')
    res = x.call('PhysicsSystem::add_entity', w.sys, src)
    q = Post(x, w)
    ok = nonneg(x, x.field(src, 'own_mass'))
    t = x.tag(res)
    x.prove('[P18] add_entity accepts exactly the non-negative masses', ok if t == 0 else z3.Not(ok))
    issued_grow(x, w, q, 'add_entity', ('entity',))
    settings_same(x, w, q, '[P01] add_entity'); frame_generators(x, w, q, '[P01] add_entity')
    frame_collider(x, w, q, '[P01] add_entity', w.pc[0])
    p = w.pe[0]
    if t == 1:
        x.prove('[P18] a refused entity leaves the handles alone', q.E.issued == w.E0.issued)
        frame_entity(x, w, q, '[P01][P18] add_entity refused', p)
        x.cover('refused'); return
    h = x.payload(res, 0).t
    x.prove('[P01] add_entity returns a handle never issued before', z3.Not(x.to_b(x.sel(w.E0.issued, h))))
    x.prove('[P01] the new handle is issued and exists', z3.And(x.to_b(x.sel(q.E.issued, h)), x.to_b(x.sel(q.E.present, h))))
    if x.is_eq(p, h):
        new = x.payload(x.call('InternalEntity::new_from', src), 0)
        for f, _ in x.prog.types[new.tid]['variants'][0]['fields']: x.eq_val('[P01][P19] the new handle refers to what was given: %s' % f, x.field(q.ent(p), f), x.field(new, f))
    else:
        x.prove('[P01] add_entity issues one handle', x.to_b(x.sel(q.E.issued, p)) == x.to_b(x.sel(w.E0.issued, p)))
        frame_entity(x, w, q, '[P01] add_entity', p)
    invariants(x, w, q, 'add_entity', h)
    x.cover('added')

def wrapper(x, kind, src):
    """ColliderWrapper::kind(src)"""
    t = x.tid('ColliderWrapper')
    names = [v['name'] for v in x.prog.types[t]['variants']]
    k = names.index(kind)
    return VEnum(k, {k: (src,)}, t)
def unwrap(x, v):
    """(kind, public collider) of a wrapper value"""
    names = [q['name'] for q in x.prog.types[x.tid('ColliderWrapper')]['variants']]
    return names[x.tag(v)], x.payload(v, x.tag(v))

def add_collider(kind):
    @unit('api/add_collider/' + kind, 'P01', 'P02', 'P03', 'p16', 'P04', 'P05', 'P06', 'P18', 'P19', covers=['added', 'refused'])
    def u(x):
        w = start(x, 2)
        src = x.sym(kind + 'Collider', 'src')
        res = x.call('PhysicsSystem::add_collider', w.sys, wrapper(x, kind, src))
        q = Post(x, w)
        ok = valid_spec(x, kind, src)
        t = x.tag(res)
        x.prove('[P18] add_collider accepts exactly the valid sources', ok if t == 0 else z3.Not(ok))
        L = '[P01] add_collider'
        issued_grow(x, w, q, 'add_collider', ('collider',))
        settings_same(x, w, q, L); frame_generators(x, w, q, L)
        frame_entity(x, w, q, L, w.pe[0])
        c = w.pc[0]
        if t == 1:
            x.prove('[P18] a refused collider leaves the handles alone', q.C.issued == w.C0.issued)
            frame_collider(x, w, q, '[P01][P18] add_collider refused', c)
            x.cover('refused'); return
        h = x.payload(res, 0).t
        x.prove('[P01] add_collider returns a handle never issued before', z3.Not(x.to_b(x.sel(w.C0.issued, h))))
        x.prove('[P01] the new handle is issued and exists', z3.And(x.to_b(x.sel(q.C.issued, h)), x.to_b(x.sel(q.C.present, h))))
        if x.is_eq(c, h):
            d = q.col(c)
            x.prove('[P01][P19] the new handle refers to a collider of the kind given', zi(d.tag) == TAGS.index(kind))
            v = d.im[TAGS.index(kind)]
            stored_like(x, kind, 'add_collider', mkpub(x, kind, v), src)
            x.prove('[P02][P19] a new collider is not linked', z3.Not(w.linked(x, d)[0]))
        else:
            x.prove('[P01] add_collider issues one handle', x.to_b(x.sel(q.C.issued, c)) == x.to_b(x.sel(w.C0.issued, c)))
            frame_collider(x, w, q, L, c)
        invariants(x, w, q, 'add_collider')
        x.cover('added')
for k in KINDS: add_collider(k)

def read_only(x, w, q, label):
    settings_same(x, w, q, '[P01][P19] ' + label); frame_generators(x, w, q, '[P01][P19] ' + label)
    issued_grow(x, w, q, label)
    frame_entity(x, w, q, '[P01][P19] ' + label, w.pe[0]); frame_collider(x, w, q, '[P01][P19] ' + label, w.pc[0])

@unit('api/get_entity', 'P01', 'P03', 'p16', 'P19', covers=['found', 'missing'])
def u(x):
    w = start(x)
    h = handle(x, 'entity', 'h')
    res = x.call('PhysicsSystem::get_entity', w.sys, h)
    q = Post(x, w)
    t = x.tag(res)
    x.prove('[P01] get_entity answers exactly for existing handles', P(w.E0, h.t) if t == 1 else z3.Not(P(w.E0, h.t)))
    read_only(x, w, q, 'get_entity')
    if t == 0: x.cover('missing'); return
    e = x.rebuild_at(w.E0.el, h.t)
    want = x.call('InternalEntity::make_pub', x.ref(e))
    got = x.payload(res, 1)
    for f, _ in x.prog.types[want.tid]['variants'][0]['fields']: x.eq_val('[P01][P19] get_entity returns a copy of the entity: %s' % f, x.field(got, f), x.field(want, f))
    x.cover('found')

@unit('api/get_collider', 'P01', 'P03', 'p16', 'P19', covers=['missing'] + KINDS)
def u(x):
    w = start(x)
    h = handle(x, 'collider', 'h')
    res = x.call('PhysicsSystem::get_collider', w.sys, h)
    q = Post(x, w)
    t = x.tag(res)
    x.prove('[P01] get_collider answers exactly for existing handles', P(w.C0, h.t) if t == 1 else z3.Not(P(w.C0, h.t)))
    read_only(x, w, q, 'get_collider')
    if t == 0: x.cover('missing'); return
    kind, got = unwrap(x, x.payload(res, 1))
    d = x.rebuild_at(w.C0.el, h.t)
    k = TAGS.index(kind)
    x.prove('[P01][P19] get_collider reports the kind stored', zi(d.tag) == k)
    want = mkpub(x, kind, d.im[k])
    for f, _ in x.prog.types[want.tid]['variants'][0]['fields']: x.eq_val('[P01][P19] get_collider returns a copy of the collider: %s' % f, x.field(got, f), x.field(want, f))
    x.cover(kind)

@unit('api/remove_collider', 'P01', 'P02', 'P03', 'p16', 'P04', 'P05', 'P06', covers=['linked', 'free', 'missing'], contracts={'recalculate_mass': RECALC})
def u(x):
    w = start(x, 2)
    h = handle(x, 'collider', 'h')
    x.call('PhysicsSystem::remove_collider', w.sys, h)
    q = Post(x, w)
    L = '[P01] remove_collider'
    issued_grow(x, w, q, 'remove_collider')
    settings_same(x, w, q, L); frame_generators(x, w, q, L)
    c, p = w.pc[0], w.pe[0]
    x.prove('[P01] the collider is gone', z3.Not(x.to_b(x.sel(q.C.present, h.t))))
    had = x.branch(P(w.C0, h.t))
    s, o = w.linked(x, x.rebuild_at(w.C0.el, h.t))
    if not x.is_eq(c, h.t): frame_collider(x, w, q, L, c)
    if had and x.branch(z3.And(s, o == p)): unlinked(x, w, q, 'remove_collider', p, h.t); x.cover('linked')
    else:
        frame_entity(x, w, q, L, p)
        x.cover('free' if had else 'missing')
    invariants(x, w, q, 'remove_collider')
def unlinked(x, w, q, label, p, c):
    """p lost the collider c (or gained it): pose, velocities and everything but the mass values stay"""
    relinked(x, w, q, label, p, z3.Store(x.field(x.rebuild_at(w.E0.el, p), 'colliders').a, c, z3.BoolVal(False)))
def relinked(x, w, q, label, p, S):
    a, b = q.ent(p), x.rebuild_at(w.E0.el, p)
    x.prove('[P01] %s: the entity still exists' % label, z3.And(x.to_b(x.sel(q.E.present, p)), P(w.E0, p)))
    x.prove('[P02] %s: exactly the named link changes' % label, x.field(a, 'colliders').a == S)
    oa, ob = x.field(a, 'orientation'), x.field(b, 'orientation')
    x.eq_val('[P05] %s: rotation of the local frame' % label, x.field(oa, 'rotation'), x.field(ob, 'rotation'))
    x.eq_all('[P05] %s: the local origin stays in place in the world' % label, origin_spec(x, oa), origin_spec(x, ob))
    for n in ('velocity', 'angular_velocity'): x.eq_val('[P05] %s: %s' % (label, n), x.field(a, n), x.field(b, n))
    entity_same(x, '[P01] %s' % label, a, b, ('colliders', 'orientation', 'velocity', 'angular_velocity', 'total_mass', 'prepped_moment_of_inertia'))

def set_at(v): return v
@unit('api/link_collider', 'P01', 'P02', 'P03', 'p16', 'P04', 'P05', 'P06', covers=['linked', 'unlinked', 'refused'], contracts={'recalculate_mass': RECALC})
def u(x):
    w = start(x, 2)
    hc = handle(x, 'collider', 'hc')
    to = x.choose(2)
    f = x.fn('PhysicsSystem::link_collider')
    ot = f['locals'][3]
    if to: he = handle(x, 'entity', 'he'); arg = VEnum(1, {1: (he,)}, ot)
    else: he = None; arg = VEnum(0, {0: ()}, ot)
    s, o = w.linked(x, x.rebuild_at(w.C0.el, hc.t))
    # the entity it was linked to is looked at too
    prior = x.fresh_int('prior'); x.assume(prior == o); x.unit.instantiate(x, 'entity', prior); x.probes['entity'].append(prior)
    res = x.call('PhysicsSystem::link_collider', w.sys, hc, arg)
    q = Post(x, w)
    L = '[P01] link_collider'
    issued_grow(x, w, q, 'link_collider')
    settings_same(x, w, q, L); frame_generators(x, w, q, L)
    c, p = w.pc[0], w.pe[0]
    ok = z3.And(P(w.C0, hc.t), P(w.E0, he.t) if to else True)
    t = x.tag(res)
    x.prove('[P01] link_collider succeeds exactly for existing handles', ok if t == 0 else z3.Not(ok))
    if t == 1:
        frame_entity(x, w, q, '[P01] a refused link changes nothing', p); frame_collider(x, w, q, '[P01] a refused link changes nothing', c)
        x.cover('refused'); return
    x.prove('[P01] link_collider: colliders exist as before', x.to_b(x.sel(q.C.present, c)) == P(w.C0, c))
    if not x.is_eq(c, hc.t): frame_collider(x, w, q, L, c)
    else:
        s1, o1 = w.linked(x, q.col(c))
        x.prove('[P02] link_collider: the collider reports the entity given', z3.And(s1, o1 == he.t) if to else z3.Not(s1))
        dyn_same(x, '[P01] link_collider: nothing but the link of the collider changes', q.col(c), x.rebuild_at(w.C0.el, c), ('entity',))
    old = x.branch(z3.And(s, o == p))
    new = to and x.is_eq(p, he.t)
    if x.branch(P(w.E0, p)) and (old or new):
        S = z3.Store(x.field(x.rebuild_at(w.E0.el, p), 'colliders').a, x.rep(hc.t), z3.BoolVal(bool(new)))
        relinked(x, w, q, 'link_collider', p, S)
    else: frame_entity(x, w, q, L, p)
    invariants(x, w, q, 'link_collider')
    x.cover('linked' if to else 'unlinked')

def update_collider(kind):
    @unit('api/update_collider/' + kind, 'P01', 'P02', 'P03', 'p16', 'P04', 'P05', 'P06', 'P18', 'P19', covers=['updated', 'refused', 'missing', 'other kind'], contracts={'recalculate_mass': RECALC})
    def u(x):
        w = start(x, 2)
        h = handle(x, 'collider', 'h')
        src = x.sym(kind + 'Collider', 'src')
        d0 = x.rebuild_at(w.C0.el, h.t)
        s, o = w.linked(x, d0)
        prior = x.fresh_int('prior'); x.assume(prior == o); x.unit.instantiate(x, 'entity', prior); x.probes['entity'].append(prior)
        res = x.call('PhysicsSystem::update_collider', w.sys, h, wrapper(x, kind, src))
        q = Post(x, w)
        L = '[P01] update_collider'
        k = TAGS.index(kind)
        issued_grow(x, w, q, 'update_collider')
        settings_same(x, w, q, L); frame_generators(x, w, q, L)
        c, p = w.pc[0], w.pe[0]
        t = x.tag(res)
        ok = z3.And(P(w.C0, h.t), d0.tag == k, valid_spec(x, kind, src))
        x.prove('[P01][P18] update_collider succeeds exactly for existing colliders of the same kind and valid values', ok if t == 0 else z3.Not(ok))
        if t == 1:
            frame_entity(x, w, q, '[P01][P18] a refused collider update changes nothing', p); frame_collider(x, w, q, '[P01][P18] a refused collider update changes nothing', c)
            x.cover('missing' if not x.branch(P(w.C0, h.t)) else 'other kind' if not x.branch(d0.tag == k) else 'refused')
            return
        x.prove('[P01] update_collider: colliders exist as before', x.to_b(x.sel(q.C.present, c)) == P(w.C0, c))
        if not x.is_eq(c, h.t): frame_collider(x, w, q, L, c)
        else:
            d = q.col(c)
            x.prove('[P19] update_collider keeps the kind', zi(d.tag) == k)
            v, v0 = d.im[k], d0.im[k]
            stored_like(x, kind, 'update_collider', mkpub(x, kind, v), src)
            x.eq_val('[P02][P19] update_collider keeps the link', x.field(v, 'entity'), x.field(v0, 'entity'))
        if x.branch(z3.And(s, o == p)): relinked(x, w, q, 'update_collider', p, x.field(x.rebuild_at(w.E0.el, p), 'colliders').a)
        else: frame_entity(x, w, q, L, p)
        invariants(x, w, q, 'update_collider')
        x.cover('updated')
for k in KINDS: update_collider(k)

@unit('api/remove_entity', 'P01', 'P02', 'P03', 'p16', 'P04', 'P05', 'P06', covers=['removed', 'missing'], contracts={'recalculate_mass': RECALC})
def u(x):
    w = start(x, 2)
    h = handle(x, 'entity', 'h')
    res = x.call('PhysicsSystem::remove_entity', w.sys, h)
    q = Post(x, w)
    L = '[P01] remove_entity'
    issued_grow(x, w, q, 'remove_entity')
    settings_same(x, w, q, L); frame_generators(x, w, q, L)
    had = P(w.E0, h.t)
    x.prove('[P01] remove_entity answers whether the entity existed', x.to_b(res.t) == had)
    x.prove('[P01] the entity is gone', z3.Not(x.to_b(x.sel(q.E.present, h.t))))
    c, p = w.pc[0], w.pe[0]
    s, o = w.linked(x, x.rebuild_at(w.C0.el, c))
    if x.branch(had) and x.branch(z3.And(P(w.C0, c), s, o == h.t)):
        x.prove('[P02] remove_entity removes its colliders', z3.Not(x.to_b(x.sel(q.C.present, c))))
    else: frame_collider(x, w, q, L, c)
    if not x.is_eq(p, h.t):
        frame_entity(x, w, q, L, p, ('neighbors',))
        if x.branch(P(w.E0, p)):
            x.prove('[P16] remove_entity: others only stop resting on it', z3.Select(q.nbrs, p) == z3.Store(z3.Select(w.nbrs, p), h.t, z3.BoolVal(False)) if x.branch(had) else z3.Select(q.nbrs, p) == z3.Select(w.nbrs, p))
    invariants(x, w, q, 'remove_entity')
    x.cover('removed' if x.branch(had) else 'missing')

# ------------------------------------------------------------------ contract of update_from (proved in entity/update_from, .../changed, .../unchanged)
def upd(x, c):
    from c_entity import rot_q
    r, e = x.ref_target(c.args[0]); s = x.deref(c.args[1])
    if not x.branch(nonneg(x, x.field(s, 'own_mass'))): 
        return VEnum(1, {1: (VAgg([]),)}, c.dty)
    o = x.field(e, 'orientation')
    n = x.with_(e, orientation=x.with_(o, position=x.field(s, 'position'), rotation=rot_q(x, x.field(s, 'rotation'))), velocity=x.field(s, 'velocity'), angular_velocity=x.field(s, 'angular_velocity'), own_mass=x.field(s, 'own_mass'))
    x.store_to(r.root, r.path, n)
    b = x.fresh_bool('changed')
    x.memo['changed'] = b; x.memo['updated'] = n
    return VEnum(0, {0: (VBool(b),)}, c.dty)
UPDATE = Contract('InternalEntity::update_from', upd)

@unit('api/update_entity', 'P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P16', 'P18', 'P19', covers=['woken', 'quiet', 'refused', 'missing'], contracts={'recalculate_mass': RECALC, 'InternalEntity::update_from': UPDATE, 'wake_up': WAKE})
def u(x):
    w = start(x, 2)
    h = handle(x, 'entity', 'h')
    src = x.sym('Entity', 'src')
    # any set that contains the entity and is closed under resting on something of finite mass
    X = z3.Const(x._n('X'), arr_sort(BoolS)); x.closed_sets = [X]
    x.assume(z3.Select(X, h.t))
    A0 = Arr(x, w.E0)
    def closed(y, kind, g):
        if kind != 'entity': return
        for o in list(y.handles['entity']):
            for a, b in ((g, o), (o, g)): y.assume(z3.Or(b == h.t, closed_fact(y, A0, X, a, b)))
    x.memo['hooks'] = [closed]
    for g in list(x.handles['entity']): closed(x, 'entity', g)
    res = x.call('PhysicsSystem::update_entity', w.sys, h, src)
    q = Post(x, w)
    A1 = Arr(x, q.E)
    L = '[P01] update_entity'
    issued_grow(x, w, q, 'update_entity')
    settings_same(x, w, q, L); frame_generators(x, w, q, L)
    frame_collider(x, w, q, L, w.pc[0])
    p = w.pe[0]
    t = x.tag(res)
    ok = z3.And(P(w.E0, h.t), nonneg(x, x.field(src, 'own_mass')))
    x.prove('[P01][P18] update_entity succeeds exactly for existing entities and valid masses', ok if t == 0 else z3.Not(ok))
    if t == 1:
        frame_entity(x, w, q, '[P01][P18] a refused entity update changes nothing', p)
        x.cover('refused' if x.branch(P(w.E0, h.t)) else 'missing'); return
    ch = x.branch(x.memo['changed'])
    woken = x.memo.get('woken', [])
    if x.is_eq(p, h.t):
        a, b, n = q.ent(p), x.rebuild_at(w.E0.el, p), x.memo['updated']
        x.prove('[P01] update_entity: the entity still exists', x.to_b(x.sel(q.E.present, p)))
        x.eq_val('[P19] update_entity keeps the colliders', x.field(a, 'colliders'), x.field(b, 'colliders'))
        oa, on = x.field(a, 'orientation'), x.field(n, 'orientation')
        x.eq_val('[P19] update_entity: rotation', x.field(oa, 'rotation'), x.field(on, 'rotation'))
        x.eq_all('[P19] update_entity: pose up to the centre-of-mass shift', origin_spec(x, oa), origin_spec(x, on))
        for f in ('velocity', 'angular_velocity', 'own_mass'): x.eq_val('[P19] update_entity: %s' % f, x.field(a, f), x.field(src, f))
        for f in ('falling_asleep', 'falling_asleep_time'): x.eq_val('[P16] update_entity: %s' % f, x.field(a, f), x.field(b, f))
        if ch: x.prove('[P16] a changing update wakes the entity', z3.Not(x.to_b(x.field(a, 'asleep').t)))
    else:
        frame_entity(x, w, q, L, p, ('asleep', 'neighbors'))
    if not ch:
        x.prove('[P16] an update that changes nothing wakes nobody', z3.Implies(P(w.E0, p), z3.And(x.to_b(x.sel(A1.asleep, p)) == x.to_b(x.sel(A0.asleep, p)), x.to_b(x.sel(A1.nbrs, p)) == x.to_b(x.sel(A0.nbrs, p)) if False else x.to_b(x.sel(x.sel(A1.nbrs, p), w.pe[1])) == x.to_b(x.sel(x.sel(A0.nbrs, p), w.pe[1])))))
        x.cover('quiet')
    else:
        # woken: the named entity, and with anything of finite mass all that rests on it
        pb = w.pe[1]
        s0, s1 = x.to_b(x.sel(A0.asleep, p)), x.to_b(x.sel(A1.asleep, p))
        n1 = x.to_b(x.sel(x.sel(A1.nbrs, p), pb))
        n0 = x.to_b(x.sel(x.sel(A0.nbrs, p), pb))
        pp = P(w.E0, p)
        x.prove('[P16] an update wakes at most what the entity transitively rests against', z3.Implies(z3.And(pp, s0, z3.Not(s1)), z3.Select(X, p)))
        x.prove('[P16] an update separates at most what the entity transitively rests against', z3.Implies(z3.And(pp, P(w.E0, pb), n0, z3.Not(n1)), z3.Or(z3.Select(X, p), z3.Select(X, pb))))
        x.prove('[P16] waking puts nobody to sleep and creates no contact', z3.Implies(pp, z3.And(z3.Implies(s1, s0), z3.Implies(n1, n0))))
        x.prove('[P16] a changing update wakes the entity and all it transitively rests against', bool(woken))
        if woken:
            st, W, _, _ = woken[-1]
            x.prove('[P16] the entity named is among the woken', z3.Select(W, h.t))
            x.prove('[P16] what rests on the woken is woken', z3.Implies(z3.And(pp, z3.Select(W, p), n0, z3.Or(pb == h.t, z3.Not(A0.inf(pb)))), z3.Select(W, pb)))
            x.prove('[P16] the woken are awake and out of contact', z3.Implies(z3.And(pp, z3.Select(W, p)), z3.And(z3.Not(s1), z3.Not(n1))))
        x.cover('woken')
    invariants(x, w, q, 'update_entity')

@unit('api/add_unary_force_generator', 'P01', 'P03', 'P16', covers=['added'])
def u(x):
    w = start(x, 2); g = probe(x, 'generator', 'g')
    v = x.fresh(w.G0.el.tpl, 'gen')
    res = x.call('PhysicsSystem::add_unary_force_generator', w.sys, v)
    q = Post(x, w)
    L = '[P01] add_unary_force_generator'
    x.prove('[P01] adding a generator succeeds', x.tag(res) == 0)
    h = x.payload(res, 0).t
    issued_grow(x, w, q, 'add_unary_force_generator', ('generator',))
    settings_same(x, w, q, L); frame_entity(x, w, q, L, w.pe[0]); frame_collider(x, w, q, L, w.pc[0])
    x.prove('[P01] add_unary_force_generator returns a handle never issued before', z3.Not(x.to_b(x.sel(w.G0.issued, h))))
    x.prove('[P01] the new handle is issued and exists', z3.And(x.to_b(x.sel(q.G.issued, h)), x.to_b(x.sel(q.G.present, h))))
    if x.is_eq(g, h): x.prove('[P01] the new handle refers to the generator given', leaves_same(x, q.G.el.tpl, x.rebuild_at(q.G.el, h), v))
    else: frame_generator(x, w, q, L, g)
    invariants(x, w, q, 'add_unary_force_generator')
    x.cover('added')
def leaves_same(x, tpl, a, b):
    return z3.And([p == r for p, r in zip(flatten(x, tpl, a), flatten(x, tpl, b)) if p is not None and r is not None])
def frame_generator(x, w, q, L, g):
    x.prove(L + ': the other generators exist as before', z3.And(x.to_b(x.sel(q.G.present, g)) == P(w.G0, g), x.to_b(x.sel(q.G.issued, g)) == x.to_b(x.sel(w.G0.issued, g))))
    if x.branch(P(w.G0, g)): x.prove(L + ': the other generators keep their values', leaves_same(x, q.G.el.tpl, x.rebuild_at(q.G.el, g), x.rebuild_at(w.G0.el, g)))

@unit('api/remove_unary_force_generator', 'P01', 'P03', 'P16', covers=['removed', 'missing'])
def u(x):
    w = start(x, 2); g = probe(x, 'generator', 'g')
    h = handle(x, 'generator', 'h')
    res = x.call('PhysicsSystem::remove_unary_force_generator', w.sys, h)
    q = Post(x, w)
    L = '[P01] remove_unary_force_generator'
    t = x.tag(res); had = P(w.G0, h.t)
    x.prove('[P01] remove_unary_force_generator answers exactly for existing handles', had if t == 1 else z3.Not(had))
    issued_grow(x, w, q, 'remove_unary_force_generator')
    settings_same(x, w, q, L); frame_entity(x, w, q, L, w.pe[0]); frame_collider(x, w, q, L, w.pc[0])
    x.prove('[P01] the generator is gone', z3.Not(x.to_b(x.sel(q.G.present, h.t))))
    if not x.is_eq(g, h.t): frame_generator(x, w, q, L, g)
    if t == 1: x.prove('[P01] the generator removed is the one returned', leaves_same(x, q.G.el.tpl, x.payload(res, 1), x.rebuild_at(w.G0.el, h.t)))
    invariants(x, w, q, 'remove_unary_force_generator')
    x.cover('removed' if t == 1 else 'missing')

@unit('api/new', 'P01', 'P02', 'P03', 'P04', 'P16', covers=['done'])
def u(x):
    """a new system satisfies every invariant: nothing exists"""
    s = x.call('PhysicsSystem::new')
    for n in ('entities', 'colliders', 'unary_force_generators'):
        A = x.field(s, n).v
        h = x.fresh_int('h')
        x.prove('[P01][P02][P04][P16] a new system is empty (%s)' % n, z3.And(z3.Not(x.to_b(x.sel(A.present, h))), z3.Not(x.to_b(x.sel(A.issued, h)))))
    x.prove('[P03] a new system has no record', x.seq_len(x.deref(x.field(s, 'collision_records'))) == 0)
    x.cover('done')
