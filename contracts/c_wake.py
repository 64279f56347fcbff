"""InternalEntity::wake_up: the worklist loop under a stated invariant, and the contract the callers use (P01, P03, P16, P20)."""
from unit import *
from vals import VBag
from loops import store_indices, state_diff
import loops
from c_world import massok

S2 = lambda A, a, b: z3.Select(z3.Select(A, a), b)
class Arr:
    """the parts of the entity arena waking is about"""
    def __init__(s, x, E):
        s.E = E
        el = E.el.tpl
        def leaf(n):
            i = x.prog.field_index(el[2], n)
            return sum(len(leaf_sorts(t)) for t in el[1][:i])
        s.jn, s.ja, s.jm = leaf('neighbors'), leaf('asleep'), leaf('total_mass')
        s.nbrs, s.asleep, s.mcls = E.el.arrs[s.jn], E.el.arrs[s.ja], E.el.arrs[s.jm]
    def inf(s, a): return z3.Select(s.mcls, a) == PINF
    def others(s): return [(j, a) for j, a in enumerate(s.E.el.arrs) if j not in (s.jn, s.ja)]

def closed_fact(x, A0, X, a, b):
    """X is closed under resting on something of finite mass"""
    return z3.Implies(z3.And(z3.Select(X, a), S2(A0.nbrs, a, b), z3.Not(A0.inf(b))), z3.Select(X, b))

# ------------------------------------------------------------------ what waking does: W is the set of the woken
def outcome(A0, A1, W, start, a, b):
    w = lambda h: z3.Select(W, h)
    n0, n1 = S2(A0.nbrs, a, b), S2(A1.nbrs, a, b)
    return [
        ('the named entity wakes up', w(start)),
        ('only existing entities wake up', z3.Implies(w(a), z3.Select(A0.E.present, a))),
        ('everything of finite mass resting on a woken entity wakes up', z3.Implies(z3.And(w(a), n0, z3.Not(A0.inf(b))), w(b))),
        ('nothing of infinite mass but the named entity wakes up', z3.Implies(z3.And(w(a), a != start), z3.Not(A0.inf(a)))),
        ('a woken entity is awake and the others are what they were', z3.Select(A1.asleep, a) == z3.And(z3.Select(A0.asleep, a), z3.Not(w(a)))),
        ('a woken entity rests on nothing, nothing rests on it, everything else stays', z3.Implies(z3.Select(A0.E.present, a), n1 == z3.And(n0, z3.Not(w(a)), z3.Not(w(b))))),
    ]

class Cut:
    def __init__(c, x, f, fid):
        c.x = x; c.fid = fid
        c.A0 = x.wake0; c.X = x.wakeX; c.start = x.wake_start
        c.eref = x.wake_ref
        bags = [k for k, v in x.store.items() if k[0] == fid and type(v) is VBag]
        sets = [k for k, v in x.store.items() if k[0] == fid and type(v) is VSet]
        if len(bags) != 1 or len(sets) != 1: raise Unsupported('the worklist of wake_up is not one queue and one set (%d, %d)' % (len(bags), len(sets)))
        c.q, c.c = bags[0], sets[0]
    def state(c, x):
        E = x.load(c.eref.root, c.eref.path)
        return Arr(x, E), x.store[c.c].a, x.store[c.q].a
    def facts(c, A, C, Q, a, b):
        A0 = c.A0
        inC = lambda h: z3.Select(C, h)
        inW = lambda h: z3.Or(z3.Select(C, h), z3.Select(Q, h))
        n0, n1 = S2(A0.nbrs, a, b), S2(A.nbrs, a, b)
        return [
            ('the named entity is queued or done', z3.Implies(a == c.start, inW(a))),
            ('the named entity is the first', z3.Or(inC(c.start), z3.And(z3.Not(inC(a)), z3.Implies(z3.Select(Q, a), a == c.start)))),
            ('queued or done entities exist', z3.Implies(inW(a), z3.Select(A0.E.present, a))),
            ('queued or done entities other than the named one have finite mass', z3.Implies(z3.And(inW(a), a != c.start), z3.Not(A0.inf(a)))),
            ('done entities are awake, the others as they were', z3.Select(A.asleep, a) == z3.And(z3.Select(A0.asleep, a), z3.Not(inC(a)))),
            ('what rests on a done entity is queued or done', z3.Implies(z3.And(inC(a), n0, z3.Not(A0.inf(b))), inW(b))),
            ('done entities rest on nothing; infinite ones only on what is not done', z3.Implies(z3.Select(A0.E.present, a), n1 == z3.And(n0, z3.Not(inC(a)), z3.Not(z3.And(A0.inf(a), inC(b)))))),
            ('only what must wake up is queued or done', z3.Implies(inW(a), z3.Select(c.X, a))),
        ]
    def entry(c, x):
        A, C, Q = c.state(x)
        a, b = x.wake_probes
        for n, g in c.facts(A, C, Q, a, b): x.prove('[P16] wake_up, on entry: ' + n, g)
        c.rest(x, A, 'on entry')
    def rest(c, x, A, when):
        x.prove('[P01] wake_up, %s: the existing entities stay' % when, z3.And(A.E.present == c.A0.E.present, A.E.issued == c.A0.E.issued))
        x.prove('[P01] wake_up, %s: only sleep and resting change' % when, z3.And([p == q for (_, p), (_, q) in zip(A.others(), c.A0.others()) if not p.eq(q)] or [z3.BoolVal(True)]))
    def havoc(c, x):
        A = Arr(x, x.load(c.eref.root, c.eref.path))
        arrs = list(A.E.el.arrs)
        arrs[A.jn] = z3.Const(x._n('hn'), arrs[A.jn].sort()); arrs[A.ja] = z3.Const(x._n('ha'), arrs[A.ja].sort())
        x.setkind[arrs[A.jn].get_id()] = 'entity'
        E = VArena(A.E.present, A.E.issued, Lifted(A.E.el.tpl, arrs), A.E.kind)
        # every element of the sets exists (from the invariant)
        x.store_to(c.eref.root, c.eref.path, E)
        x.store[c.c] = VSet(z3.Const(x._n('done'), arr_sort(BoolS))); x.store[c.q] = VBag(z3.Const(x._n('queue'), arr_sort(BoolS)))
        d = x.load(x.wake_debug.root, x.wake_debug.path)
        n = x.fresh_int('log'); x.assume(n >= 0)
        x.store_to(x.wake_debug.root, x.wake_debug.path, VVec(n, None, Lifted(d.tpl, [x.fresh_arr(q, 'lg') for q in leaf_sorts(d.tpl)]), d.tpl))
        c.h = c.state(x)
        def inst(y, kind, h):
            if kind != 'entity': return
            for o in list(y.handles['entity']):
                for a, b in ((h, o), (o, h)):
                    for n, g in c.facts(*c.h, a, b): y.assume(g)
        x.wake_hooks.append(inst)
        for h in list(x.handles.get('entity', [])): inst(x, 'entity', h)
    def preserved(c, x, pre):
        A, C, Q = c.state(x)
        A1, C1, Q1 = c.h
        a, b = x.wake_probes
        for n, g in c.facts(A, C, Q, a, b): x.prove('[P16] wake_up, every iteration: ' + n, g)
        c.rest(x, A, 'every iteration')
        # variant: a first visit marks a new existing entity, a repeated one queues nothing
        new = [h for h in store_indices(C)]
        x.prove('[P20] wake_up: an iteration takes one entity off the queue', z3.BoolVal(len(new) <= 1))
        if new:
            t = new[0]
            again = x.branch(z3.Select(C1, t))
            if again:
                for a in x.wake_probes[:1]: x.prove('[P20] wake_up: visiting an entity again queues nothing', z3.Implies(z3.Select(Q, a), z3.Select(Q1, a)))
            else: x.prove('[P20] wake_up: a first visit marks an existing entity that was not marked', z3.And(z3.Select(A1.E.present, t), z3.Not(z3.Select(C1, t)), z3.Select(C, t)))
        else:
            x.prove('[P20] wake_up: every iteration marks the entity it visits', False)
        x.cover('iteration')
    def left(c, x): x.wake_W = x.store[c.c].a
    def may_change(c, x, key):
        root, path, kind = key
        if root in (c.c, c.q): return True
        if root == c.eref.root: return True
        if root == x.wake_debug.root: return True
        return False

@unit('entity/wake_up', 'P01', 'P03', 'P16', 'P20', covers=['iteration', 'done'], cut=Cut)
def u(x):
    E = x.fresh(x.prog.tpl(x.tid('PhysicsSystem')), 'sys')
    E = x.field(E, 'entities').v
    start = x.fresh_int('start')
    x.probes['entity'] = []
    A0 = x.wake0 = Arr(x, E)
    x.setkind[A0.nbrs.get_id()] = 'entity'
    X = x.wakeX = z3.Const(x._n('X'), arr_sort(BoolS))
    x.wake_start = start; x.wake_hooks = []
    def hook(y, kind, h):
        if kind != 'entity': return
        y.assume(z3.Implies(z3.Select(E.present, h), z3.And(z3.Select(E.issued, h), massok(y, y.field(y.rebuild_at(E.el, h), 'total_mass')))))
        for o in list(y.handles['entity']):
            for a, b in ((h, o), (o, h)):
                m = S2(A0.nbrs, a, b)
                y.assume(z3.Implies(z3.And(z3.Select(E.present, a), m), z3.And(z3.Select(E.present, b), S2(A0.nbrs, b, a))))
                y.assume(closed_fact(y, A0, X, a, b))
        for f in list(x.wake_hooks): f(y, kind, h)
    x.inst_hook = hook
    x.unit.instantiate(x, 'entity', start)
    x.assume(z3.Select(E.present, start)); x.assume(z3.Select(X, start))
    ps = [x.fresh_int('a'), x.fresh_int('b')]
    for p in ps:
        x.unit.instantiate(x, 'entity', p); x.probes['entity'].append(p)
    x.wake_probes = ps
    x.wake_ref = x.ref(E)
    x.wake_debug = x.ref(x.field(x.sym('PhysicsSystem', 'dbg'), 'debug'))
    x.call('InternalEntity::wake_up', VH(start), x.wake_ref, x.wake_debug)
    A = Arr(x, x.load(x.wake_ref.root, x.wake_ref.path))
    # the set of the woken: what the invariant calls done when the queue is empty
    W = x.wake_W
    a, b = ps
    for n, g in outcome(A0, A, W, start, a, b): x.prove('[P16] wake_up: ' + n, g)
    x.prove('[P16] wake_up: only what must wake up does', z3.Implies(z3.Select(W, a), z3.Select(X, a)))
    x.cover('done')

# ------------------------------------------------------------------ contract of wake_up for its callers
def wake(x, c):
    from c_api import P
    start = x.deref(c.args[0]).t if isinstance(c.args[0], VRef) else c.args[0].t
    start = x.rep(start)
    r = c.args[1]
    r, E = x.ref_target(r)
    A0 = Arr(x, E)
    x.unit.instantiate(x, 'entity', start)
    x.prove('precondition of wake_up: the entity exists', x.to_b(x.sel(E.present, start)))
    def pre(y):
        a, b = y.fresh_int('wa'), y.fresh_int('wb')
        for h in (a, b): y.unit.instantiate(y, 'entity', h)
        y.assume(y.to_b(y.sel(E.present, a)))
        y.prove('precondition of wake_up: valid total masses', massok(y, y.field(y.rebuild_at(E.el, a), 'total_mass')))
        y.assume(y.to_b(y.sel(y.sel(A0.nbrs, a), b)))
        y.prove('precondition of wake_up: resting is symmetric, between existing entities', z3.And(y.to_b(y.sel(E.present, b)), y.to_b(y.sel(y.sel(A0.nbrs, b), a))))
        return ('val', None)
    for _, s in x.sub_paths('wakepre', pre, 60): x.obs += s.obs
    W = z3.Const(x._n('woken'), arr_sort(BoolS))
    arrs = list(E.el.arrs)
    arrs[A0.jn] = z3.Const(x._n('wn'), arrs[A0.jn].sort()); arrs[A0.ja] = z3.Const(x._n('wa'), arrs[A0.ja].sort())
    x.setkind[arrs[A0.jn].get_id()] = 'entity'
    E1 = VArena(E.present, E.issued, Lifted(E.el.tpl, arrs), E.kind)
    A1 = Arr(x, E1)
    x.store_to(r.root, r.path, E1)
    d, v = x.ref_target(c.args[2])
    n = x.fresh_int('log'); x.assume(n >= 0)
    x.store_to(d.root, d.path, VVec(n, None, Lifted(v.tpl, [x.fresh_arr(q, 'lg') for q in leaf_sorts(v.tpl)]), v.tpl))
    Xs = []
    for X in getattr(x, 'closed_sets', []):
        def clo(y):
            a, b = y.fresh_int('xa'), y.fresh_int('xb')
            for h in (a, b): y.unit.instantiate(y, 'entity', h)
            y.assume(y.to_b(y.sel(y.sel(A0.nbrs, a), b)))
            m = y.field(y.rebuild_at(E.el, b), 'total_mass')
            y.assume(m.t[0] != PINF if m.k == 's' else z3.BoolVal(m.k != '+'))
            y.assume(z3.Select(X, a))
            return ('val', y.valid(z3.Select(X, b))[0] )
        if x.entails_light(z3.Select(X, start)) and all(res[1] for res, _ in x.sub_paths(('wakeX', X.get_id()), clo, 60)): Xs.append(X)
    def inst(y, kind, h):
        if kind != 'entity': return
        for X in Xs: y.assume(z3.Implies(z3.Select(W, h), z3.Select(X, h)))
        for o in list(y.handles['entity']):
            for a, b in ((h, o), (o, h)):
                for n, g in outcome(A0, A1, W, start, a, b): y.assume(g)
    for h in list(x.handles.get('entity', [])): inst(x, 'entity', h)
    x.memo['hooks'] = list(x.memo.get('hooks', [])) + [inst]
    x.memo['woken'] = list(x.memo.get('woken', [])) + [(start, W, A0, A1)]
    return VAgg([])
WAKE = Contract('wake_up', wake)
