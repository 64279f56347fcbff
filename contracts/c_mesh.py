"""Building meshes: add_face with the loops it runs through (P17).

Every loop over the mesh is taken at one arbitrary iteration under the invariant of the mesh; what an iteration
may do to the vertices and to the edges is stated as a transition, whatever function the loop stands in."""
from unit import *
from cuts import Cfg
import loops
from loops import consts_of
from c_colliders import EPS

def at(x, v, k): return x.get1(v, ('e', k))
def ends(x, v, k): return [zi(q.t) for q in at(x, v, k).f]
class Mesh:
    def __init__(s, x):
        m = s.m = x.deref(x.memo['mesh'])
        s.V, s.E, s.F = [loops.conc_to_el(x, x.field(m, n)) for n in ('vertices', 'edges', 'faces')]
def inside(x, s, k):
    """edge k, if there is one: two vertices, the lower one first"""
    a, b = ends(x, s.E, k)
    return z3.Implies(z3.And(k >= 0, k < zi(s.E.n)), z3.And(a >= 0, a <= b, b < zi(s.V.n)))
def index_lists(x):
    """vectors of indices being built in local variables"""
    out = {}
    for r, v in x.store.items():
        if isinstance(v, VVec) and v.tpl is not None and v.tpl[0] == 'I' and r != x.memo['points'].root: out[r] = loops.conc_to_el(x, v)
    return out
def near(x, p, q):
    d = vsub(x.ts(p), x.ts(q)); return x.lt(x.sqrt_t(vdot(d, d)), EPS) 
def same(x, p, q): return z3.And([x.eqr(a, b) for a, b in zip(x.ts(p), x.ts(q))])
class Build(Cfg):
    mode = 'inv'
    def entry(c, x, L):
        x.prove('[P17] every stored edge refers to existing vertices, lower one first: before a loop', inside(x, Mesh(x), x.memo['pe']))
    def assume(c, x, L, e, cnt):
        s = Mesh(x)
        x.assume(inside(x, s, x.memo['pe']))
        if e is not None:
            c.u = x.fresh_int('u')
            x.assume(z3.And(c.u >= 0, inside(x, s, c.u)))
            x.probes = dict(x.probes, index=list(x.probes.get('index', [])) + [c.u])
        c.known(x, s, [e, e + 1, z3.IntVal(0)] if e is not None else [])
        c.pre = s; c.lists = index_lists(x)
    def known(c, x, s, ks):
        for ind, n, nv in x.memo.get('ind', []):
            x.assume(zi(s.V.n) >= nv)
            for k in ks:
                i = zi(at(x, ind, k).t)
                x.assume(z3.Implies(z3.And(k >= 0, k < zi(n)), z3.And(i >= 0, i < zi(nv))))
    def role(c, x, L):
        root = x.memo['mesh'].root
        m = x.deref(x.memo['mesh'])
        ps = [k[1] for k in L.M if k[0] == root]
        has = lambda n: any(('f', x.idx(m, n)) in p for p in ps)
        return ('V' if has('vertices') else '') + ('E' if has('edges') else '') + ('F' if has('faces') else '')
    def back(c, x, L, e):
        x.cover('iteration')
        pre = c.pre; s = Mesh(x); u = c.u; r = c.role(x, L)
        x.prove('[P17] every stored edge refers to existing vertices, lower one first: after an iteration', inside(x, s, x.memo['pe']))
        if 'V' in r:
            p = at(x, x.deref(x.memo['points']), e)
            ov = z3.And(u < zi(pre.V.n))
            if not s.V.n is pre.V.n: x.prove('[P17] a point adds at most one vertex', z3.Or(zi(s.V.n) == zi(pre.V.n), zi(s.V.n) == zi(pre.V.n) + 1))
            grown = x.branch(zi(s.V.n) > zi(pre.V.n))
            # where the point went
            new = index_lists(x); got = None
            for k, v in new.items():
                if k in c.lists and x.valid(zi(v.n) == zi(c.lists[k].n) + 1)[0]: got = (k, v)
            if not x.prove('[P17] the index of every point is noted', got is not None): return
            i = zi(at(x, got[1], z3.simplify(zi(got[1].n) - 1)).t)
            x.memo.setdefault('indroot', []).append(got[0])
            x.prove('[P17] the index noted for a point refers to a vertex', z3.And(i >= 0, i < zi(s.V.n)))
            if x.branch(u < zi(pre.V.n)): x.prove('[P17] vertices stored earlier are not changed', same(x, at(x, s.V, u), at(x, pre.V, u)))
            if grown:
                x.cover('new vertex')
                x.prove('[P17] a new vertex is the point given', z3.And(same(x, at(x, s.V, pre.V.n), p), i == zi(pre.V.n)))
                if x.branch(u < zi(pre.V.n)): x.prove('[P17] a new vertex is not within epsilon of an existing one', z3.Not(near(x, at(x, pre.V, u), p)))
            else:
                x.cover('old vertex')
                x.prove('[P17] a point that adds no vertex is within epsilon of the one noted for it', near(x, at(x, pre.V, i), p))
        if 'E' in r:
            inds = x.memo.get('ind', [])
            if not x.prove('[P17] sides are taken from the indices of the points', len(inds) == 1): return
            ind, n, nv = inds[0]
            a = zi(at(x, ind, e).t); b = zi(at(x, ind, z3.If(e + 1 < zi(n), e + 1, 0)).t)
            x.prove('[P17] a side adds at most one edge', z3.Or(zi(s.E.n) == zi(pre.E.n), zi(s.E.n) == zi(pre.E.n) + 1))
            side = lambda q: z3.Or(z3.And(q[0] == a, q[1] == b), z3.And(q[0] == b, q[1] == a))
            if x.branch(u < zi(pre.E.n)): x.prove('[P17] edges stored earlier are not changed', z3.And([p == q for p, q in zip(ends(x, s.E, u), ends(x, pre.E, u))]))
            if x.branch(zi(s.E.n) > zi(pre.E.n)):
                x.cover('new edge')
                x.prove('[P17] a new edge is the side of the polygon', side(ends(x, s.E, pre.E.n)))
                if x.branch(u < zi(pre.E.n)): x.prove('[P17] a new edge was not present in either direction', z3.Not(side(ends(x, pre.E, u))))
            else:
                x.cover('old edge')
                els = {str(k): k for q in x.pc for k in consts_of(q) if z3.is_int(k) and k.decl().arity() == 0 and str(k).startswith('el')}
                x.prove('[P17] a side that adds no edge is an edge already', z3.Or([z3.And(k >= 0, k < zi(pre.E.n), side(ends(x, pre.E, k))) for k in els.values()] + [z3.BoolVal(False)]))
        if 'F' in r: x.prove('[P17] faces are not added by loops', False)
    def broke(c, x, L, e):
        if c.role(x, L): x.prove('[P17] the loops that build a mesh run to their end', False)
    def done(c, x, L):
        r = c.role(x, L); s = Mesh(x)
        if not r: return
        if not x.prove('[P17] the loop runs over indices', L.dom.kind == 'index'): return
        x.memo['built'] = x.memo.get('built', '') + r
        if 'V' in r:
            n = x.deref(x.memo['points']).n
            x.prove('[P17] all points are looked at', z3.And(zi(L.dom.lo) == 0, zi(L.dom.hi) == zi(n)))
            roots = [k[0] for k in L.M if k[2] == 'n' and not k[1] and k[0] in index_lists(x)]
            for k in dict.fromkeys(roots):
                v = index_lists(x)[k]
                x.memo['ind'] = x.memo.get('ind', []) + [(v, v.n, zi(s.V.n))]
        if 'E' in r:
            for ind, n, nv in x.memo.get('ind', []): x.prove('[P17] all sides are looked at', z3.And(zi(L.dom.lo) == 0, zi(L.dom.hi) == zi(n)))

def any_vec(x, c):
    x.note('normalize, cross and dot, used by the validation of a polygon only, may give anything')
    return x.vec('any')
def any_real(x, c): return x.real('any')
ANY = dict(normalize=Contract('any vector', any_vec), cross=Contract('any vector', any_vec), dot=Contract('any number', any_real))
def cuts_mesh(x, f, bb, body): return None if x.memo.get('cutstack') else Build()
@unit('mesh/add_face', 'P17', covers=['iteration', 'new vertex', 'old vertex', 'new edge', 'old edge', 'done'], cuts=[cuts_mesh], allow_panic=True, contracts=ANY, secs=300, abs_atom=True)
def u(x):
    m = x.sym('MeshCollider', 'mesh'); r = x.memo['mesh'] = x.ref(m)
    t = x.prog.tpl(x.tid('MeshCollider'))
    P = x.fresh(t[1][x.prog.field_index(t[2], 'vertices')], 'points')
    x.memo['points'] = x.ref(P, False)
    s0 = Mesh(x)
    pe, kv, ke, kf, kk = [x.memo.setdefault(n, x.fresh_int(n)) for n in ('pe', 'kv', 'ke', 'kf', 'kk')]
    x.assume(z3.And(pe >= 0, inside(x, s0, pe)))
    x.assume(z3.And(kv >= 0, ke >= 0, kf >= 0, kk >= 0))
    x.assume(z3.And(kv < zi(s0.V.n))); x.assume(ke < zi(s0.E.n)); x.assume(kf < zi(s0.F.n))
    x.probes.setdefault('index', []).extend([kv, ke])
    x.call('MeshCollider::add_face', r, x.memo['points'])
    x.cover('done')
    s = Mesh(x)
    x.prove('every point and every side is looked at', sorted(x.memo.get('built', '')) == ['E', 'V'])
    x.prove('a face added increases the number of faces by one', zi(s.F.n) == zi(s0.F.n) + 1)
    x.prove('vertices stored earlier are never changed', z3.And(zi(s.V.n) >= zi(s0.V.n), same(x, at(x, s.V, kv), at(x, s0.V, kv))))
    x.prove('edges stored earlier are never changed', z3.And(zi(s.E.n) >= zi(s0.E.n), *[a == b for a, b in zip(ends(x, s.E, ke), ends(x, s0.E, ke))]))
    f0, f1 = at(x, s0.F, kf), at(x, s.F, kf)
    x.prove('faces stored earlier are never changed', z3.And(zi(f0.n) == zi(f1.n), zi(at(x, f0, kk).t) == zi(at(x, f1, kk).t)))
    x.prove('every stored edge refers to existing vertices', inside(x, s, pe))
    nf = at(x, s.F, s0.F.n)
    x.prove('the face has a corner for every point', zi(nf.n) == zi(P.n))
    for ind, n, nv in x.memo.get('ind', [])[:1]:
        Build().known(x, s, [kk])
        if x.branch(kk < zi(n)): 
            x.prove('the corners of the face are the indices noted for the points', zi(at(x, nf, kk).t) == zi(at(x, ind, kk).t))
            x.prove('the corners of the face refer to existing vertices', z3.And(zi(at(x, nf, kk).t) >= 0, zi(at(x, nf, kk).t) < zi(s.V.n)))
    for n in ('entity', 'position', 'restitution_coefficient', 'friction_threshold', 'static_friction_coefficient', 'dynamic_friction_coefficient'):
        x.eq_val('adding a face changes nothing but geometry: ' + n, x.field(s.m, n), x.field(s0.m, n))

@unit('mesh/new', 'P17', covers=['done'])
def u(x):
    m = x.call('MeshCollider::new')
    for n in ('vertices', 'edges', 'faces'): x.prove('a new mesh has no %s' % n, zi(x.field(m, n).n) == 0)
    m = x.sym('MeshCollider', 'mesh'); r = x.ref(m)
    for f, n in (('face_count', 'faces'), ('edge_count', 'edges'), ('vertex_count', 'vertices')):
        x.prove('%s counts the %s' % (f, n), zi(x.call('MeshCollider::' + f, r).t) == zi(x.field(m, n).n))
        x.prove('%s changes nothing' % f, x.deref(r) is m)
    x.cover('done')
