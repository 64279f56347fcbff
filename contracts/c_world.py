"""The stores of a PhysicsSystem as arbitrary valid histories leave them: representation invariants as facts instantiated at every handle met."""
from unit import *
from c_colliders import nonneg, EPS, MINR

def massok(x, v):
    """stored masses: never NaN, never negative"""
    if v.k == 's': return z3.Or(v.t[0] == PINF, z3.And(v.t[0] == FIN, x.le(0, v.t[1])))
    return nonneg(x, v)
class World:
    def __init__(w, x, base='sys', links=True):
        w.x = x; w.links = links
        w.s0 = x.sym('PhysicsSystem', base)
        # all cells are free between API calls
        w.sys = x.ref(w.s0)
        w.E0 = w.arena(w.s0, 'entities'); w.C0 = w.arena(w.s0, 'colliders'); w.G0 = w.arena(w.s0, 'unary_force_generators')
        w.seen = {'entity': [], 'collider': [], 'generator': []}
        x.inst_hook = w.hook
        x.world = w
        w.register_sets(w.E0)
    def arena(w, s, n): return w.x.field(s, n).v
    def register_sets(w, E):
        x = w.x
        for n in ('colliders', 'neighbors'):
            a = w.leaf_array(E, n)
            x.setkind[a.get_id()] = 'collider' if n == 'colliders' else 'entity'
        w.cols = w.leaf_array(w.E0, 'colliders'); w.nbrs = w.leaf_array(w.E0, 'neighbors')
        x.set_inv.setdefault(w.nbrs.get_id(), []).append(('present entity', lambda z, h, e: z.sel(w.E0.present, e)))
    def leaf_array(w, E, name):
        """the array of a set-valued field of the entities"""
        tpl = E.el.tpl
        i = w.x.prog.field_index(tpl[2], name)
        k = sum(len(leaf_sorts(t)) for t in tpl[1][:i])
        return E.el.arrs[k]
    # ---- invariants
    def hook(w, x, kind, h):
        if kind not in w.seen: return
        A = {'entity': w.E0, 'collider': w.C0, 'generator': w.G0}[kind]
        w.seen[kind] = x.handles[kind]
        P = lambda A, h: z3.Select(A.present, h)
        x.assume(z3.Implies(P(A, h), z3.Select(A.issued, h)))
        if kind == 'entity':
            e = x.rebuild_at(w.E0.el, h)
            x.assume(z3.Implies(P(A, h), z3.And(massok(x, x.field(e, 'own_mass')), massok(x, x.field(e, 'total_mass')))))
            for c in x.handles.get('collider', []): w.link_fact(x, h, c)
            for b in x.handles['entity']: w.nbr_fact(x, h, b)
        elif kind == 'collider':
            for e in x.handles.get('entity', []): w.link_fact(x, e, h)
            c = x.rebuild_at(w.C0.el, h)
            w.valid_collider(x, P(A, h), c)
        for f in list(x.memo.get('hooks', [])): f(x, kind, h)
    def valid_collider(w, x, p, c):
        if not isinstance(c.tag, int): x.assume(z3.Implies(p, z3.And(c.tag >= 0, c.tag < len(c.im))))
        for n, im in c.im.items():
            g = z3.And(p, c.tag == n) if not isinstance(c.tag, int) else p
            k = TAGS[n]
            fs = [n for n, _ in x.prog.types[im.tid]['variants'][0]['fields']]
            if 'mass' in fs: x.assume(z3.Implies(g, massok(x, x.field(im, 'mass'))))
    def linked(w, x, c):
        """(is Some, handle) reported by a collider value"""
        ent = None
        some_, hh = z3.BoolVal(False), z3.IntVal(-1)
        for n, im in sorted(c.im.items()):
            o = x.field(im, 'entity')
            t = zi(o.tag) == 1
            v = o.vs[1][0].t if 1 in o.vs else z3.IntVal(-1)
            if isinstance(c.tag, int):
                if c.tag == n: return t, v
                continue
            some_ = z3.If(c.tag == n, t, some_); hh = z3.If(c.tag == n, v, hh)
        return some_, hh
    def link_fact(w, x, e, c):
        k = ('linkfact', e.get_id(), c.get_id())
        if k in x.memo: return
        x.memo[k] = (e, c)
        s, h = w.linked(x, x.rebuild_at(w.C0.el, c))
        pe, pc = z3.Select(w.E0.present, e), z3.Select(w.C0.present, c)
        m = z3.Select(z3.Select(w.cols, e), c)
        if not w.links: return x.assume(z3.Implies(z3.And(pe, m), pc))
        x.assume(z3.Implies(pe, m == z3.And(pc, s, h == e)))
        x.assume(z3.Implies(z3.And(pc, s, h == e), pe))
    def nbr_fact(w, x, a, b):
        for p, q in ((a, b), (b, a)):
            k = ('nbrfact', p.get_id(), q.get_id())
            if k in x.memo: continue
            x.memo[k] = (p, q)
            m = z3.Select(z3.Select(w.nbrs, p), q); m2 = z3.Select(z3.Select(w.nbrs, q), p)
            x.assume(z3.Implies(z3.And(z3.Select(w.E0.present, p), m), z3.And(z3.Select(w.E0.present, q), m2)))
