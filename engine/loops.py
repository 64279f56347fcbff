"""Loops: iterator discovery, unrolling of concrete iterations, summaries (see do_loop)."""
import time, re, z3
import terms as tm
from terms import atom, const, ZERO, ONE
from vals import *
from ctx import *
from prog import norm_name
import os
DEBUG = os.environ.get('LOOPDEBUG')
class Restart(Exception): pass
class Given(dict):
    """facts given up.  A fact about an element met on the way (el!7) is named differently on every path: once it is given up for two, it is for all"""
    def __init__(s, keys=()):
        s.seen = {}
        for k in keys: s[k] = True
    def blur(s, k):
        return None if not any(type(p) is str and 'el!' in p for p in k[1:]) else (k[0],) + tuple(re.sub(r'el!\d+', 'el!', p) if type(p) is str else p for p in k[1:])
    def __setitem__(s, k, v):
        dict.__setitem__(s, k, v)
        b = s.blur(k)
        if b is not None: s.seen[b] = s.seen.get(b, 0) + 1
    def get(s, k, d=None):
        if dict.get(s, k): return True
        b = s.blur(k)
        return True if b is not None and s.seen.get(b, 0) > 1 else d
COMPARE = ('Lt', 'Gt', 'Le', 'Ge', 'Ne')
class LoopMixin:
    def loop_iter(x, f, fid, bb):
        """the iterator driven by the loop header: (local, 'next'|'pop') or None"""
        key = ('lit', f['key'], bb)
        c = x.prog._loops.get(key, 0)
        if c == 0:
            c = x._loop_iter(f, bb); x.prog._loops[key] = c
        return c
    def _loop_iter(x, f, bb):
        b = bb; refs = {}; copies = {}; cmps = {}
        for _ in range(6):
            bl = f['blocks'][b]
            for st in bl['st']:
                if st['s'] == 'assign' and not st['pl']['p']:
                    rv = st['rv']; l = st['pl']['l']
                    if rv['r'] == 'ref':
                        pl = rv['pl']
                        if not pl['p']: refs[l] = pl['l']
                        elif pl['p'] == [['d']] and pl['l'] in refs: refs[l] = refs[pl['l']]
                    elif rv['r'] == 'use' and rv['a'].get('pl') and not rv['a']['pl']['p'] and rv['a']['pl']['l'] in refs:
                        refs[l] = refs[rv['a']['pl']['l']]
                    elif rv['r'] == 'use' and rv['a'].get('pl') and not rv['a']['pl']['p']:
                        copies[l] = copies.get(rv['a']['pl']['l'], rv['a']['pl']['l'])
                    elif rv['r'] == 'bin' and rv['op'] in COMPARE:
                        cmps[l] = (b, rv['op'], [copies.get(q['pl']['l'], q['pl']['l']) if q.get('pl') and not q['pl']['p'] else None for q in (rv['a'], rv['b'])])
            t = bl['term']
            if t['t'] == 'switch': return x._counter(f, bb, t, cmps)
            if t['t'] == 'goto': b = t['to']; continue
            if t['t'] == 'call' and t['f']['k'] == 'const' and 'fn' in t['f']['v']:
                fn = t['f']['v']['fn']; inst = fn.get('inst')
                m, h = norm_name(inst['name'] if inst else fn['def'])
                a = t['args'][0] if t['args'] else None
                if a and a.get('pl') and not a['pl']['p'] and a['pl']['l'] in refs:
                    if m.endswith('Iterator::next'): return (refs[a['pl']['l']], 'next', t['dest'], b)
                    if m.endswith('pop_front') or m.endswith('::pop'): return (refs[a['pl']['l']], 'pop', t['dest'], b)
                if t['to'] is None: return None
                b = t['to']; continue
            return None
        return None
    def _counter(x, f, bb, t, cmps):
        """a loop that counts: its condition compares a local that the body only ever increments by one"""
        if not t['a'].get('pl') or t['a']['pl']['p'] or t['a']['pl']['l'] not in cmps: return None
        l = t['a']['pl']['l']; b, op, ops = cmps[l]
        body = x.prog.loops(f)[bb]
        for w in (0, 1):
            c = ops[w]
            if c is None: continue
            n = 0
            for q in body:
                for st in f['blocks'][q]['st']:
                    if st['s'] == 'assign' and st['pl']['l'] == c: n += 1
                if f['blocks'][q]['term'].get('dest', {}).get('l') == c: n = 99
            if n == 0: continue
            o = op if w == 0 else {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Ne': 'Ne'}[op]
            if o in ('Lt', 'Ge', 'Ne'): return (c, 'count', (b, l, 1 - w, 0), b)
            if o in ('Le', 'Gt'): return (c, 'count', (b, l, 1 - w, 1), b)
        return None
    def counter_bound(x, f, fid, bb, it):
        """the value the counter is compared with"""
        b, l, w, off = it[2]
        def run(y):
            y.capture = (fid, b, l)
            try: y.run(f, fid, bb, (bb, x.prog.loops(f)[bb]))
            except Captured as e: return ('val', e.v[w])
            finally: y.capture = None
            raise Unsupported('condition of the loop in %s' % f['name'].split('::')[-1])
        ps = x.sub_paths(('bound', bb), run, 4)
        if len(ps) != 1 or not isinstance(ps[0][0][1], VInt): raise Unsupported('loop of unknown form in %s' % f['name'].split('::')[-1])
        v = ps[0][0][1]
        return v.t + off if isinstance(v.t, int) else z3.simplify(zi(v.t) + off)
    def loop_concrete(x, f, fid, bb):
        it = x.loop_iter(f, fid, bb)
        if it is None: return True
        if it[1] == 'count':
            v = x.store.get((fid, it[0]))
            if not isinstance(v, VInt) or not isinstance(v.t, int): return False
            n = x.counter_bound(f, fid, bb, it)
            return isinstance(n, int) and n - v.t <= x.unit.max_unroll
        v = x.store.get((fid, it[0]))
        return x.iter_concrete(v)
    def iter_concrete(x, v):
        if isinstance(v, VAgg):
            return len(v.f) >= 2 and all(isinstance(q.t, int) for q in v.f[:2]) and v.f[1].t - v.f[0].t <= x.unit.max_unroll
        if isinstance(v, VIter):
            if v.d.get('force') is not None or v.d.get('done'): return True
            k = v.kind
            if k == 'slice': return isinstance(v.d['n'], int) and v.d['n'] <= x.unit.max_unroll
            if k == 'vec': return isinstance(v.d['v'].n, int) and v.d['v'].n <= x.unit.max_unroll
            if k == 'zip': return x.iter_concrete(v.d['it']) and x.iter_concrete(v.d['jt'])
            if 'it' in v.d: return x.iter_concrete(v.d['it'])
            if k == 'set': return v.d['a'].eq(z3.K(IntS, z3.BoolVal(False)))
            if k == 'arena': return v.d['present'].eq(z3.K(IntS, z3.BoolVal(False)))
        if isinstance(v, VVec): return isinstance(v.n, int)
        return False
    def do_loop(x, f, fid, bb, body):
        for c in x.unit.udef.opts.get('cuts', ()):
            m = c(x, f, bb, body)
            if m is not None: 
                import cuts
                return cuts.run(x, f, fid, bb, body, m)
        o = x.unit.udef.opts.get('opaque')
        if o and (o is True or any(f['name'].split('::')[-1] == n for n in o)): return opaque_loop(x, f, fid, bb, body)
        return loop_rule(x, f, fid, bb, body)

    # -------------------------------------------------------- forks of the machine (sub-explorations)
    def fork(x, trace, tag):
        s = type(x).__new__(type(x))
        s.__dict__.update(x.__dict__)
        s.trace = list(trace); s.pos = 0; s.pending = []
        s.solver = z3.Solver(); s.solver.set('rlimit', LIGHT_RL); s.solver.set('timeout', 4000)
        s.solver.add(x.pc)
        s.pc = list(x.pc); s.pcset = set(x.pcset); s.store = dict(x.store); s.store0 = dict(x.store); s.obs = []
        s.clsmap = dict(x.clsmap); s.eqrep = dict(x.eqrep)
        s.memo = {k: (list(v) if type(v) is list else dict(v) if type(v) is dict else v) for k, v in x.memo.items()}
        s.handles = {k: list(v) for k, v in x.handles.items()}
        s.covers = set(x.covers); s.callstack = list(x.callstack); s.where = x.where
        s.set_inv = dict(x.set_inv); s.enums = dict(x.enums); s.setkind = dict(x.setkind); s.anys = {k: list(v) for k, v in x.anys.items()}
        s.probes = {k: list(v) for k, v in x.probes.items()}
        s.ident = x.ident + (tag, tuple(x.trace[:x.pos]), x.steps)
        s.rb = Rebuild(s)
        return s
    def adopt(x, s):
        """continue as the sub-machine s"""
        for c in s.pc[len(x.pc):]: x.solver.add(c)
        x.pc = list(s.pc); x.pcset = set(s.pcset); x.store = dict(s.store)
        x.clsmap = dict(s.clsmap); x.eqrep = dict(s.eqrep); x.memo = {k: (list(v) if type(v) is list else dict(v) if type(v) is dict else v) for k, v in s.memo.items()}
        x.handles = {k: list(v) for k, v in s.handles.items()}; x.covers |= s.covers
        x.set_inv = dict(s.set_inv); x.enums = dict(s.enums); x.setkind = dict(s.setkind); x.anys = {k: list(v) for k, v in s.anys.items()}
        x.nfresh = s.nfresh; x.nframe = s.nframe; x.steps = max(x.steps, s.steps)
    def sub_paths(x, tag, run, limit=400):
        """all paths of run(machine) from the current state -> [(outcome, machine)]"""
        key = ('sub', x.ident, tag, tuple(x.trace[:x.pos]), x.steps, x.nfresh)
        r = x.unit.subcache.get(key)
        if r is None:
            work = [[]]; out = []
            while work:
                tr = work.pop()
                s = x.fork(tr, tag)
                try: res = run(s)
                except Infeasible: res = None
                except PathEnd: res = ('end', None)
                if res is not None: out.append((res, s))
                work.extend(s.pending)
                if len(out) + len(work) > limit: raise Unsupported('more than %d paths through a loop body' % limit)
                if time.time() > x.unit.deadline: raise Budget('time budget')
                s.solver = None
            r = out
            x.unit.subcache[key] = r
        if r:
            x.nfresh = max([x.nfresh] + [s.nfresh for _, s in r]); x.nframe = max([x.nframe] + [s.nframe for _, s in r])
        return r
    def merged(x, tag, alts):
        """run alternatives [(cond, fn)] (exhaustive, exclusive) and merge their results by if-then-else; None when not possible"""
        outs = []
        for n, (cond, fn) in enumerate(alts):
            def run(s):
                s.assume(cond)
                return ('val', fn(s))
            try: ps = x.sub_paths((tag, n), run, 3)
            except (Unsupported, Panic) as ex: x.why = repr(ex); return None
            if not ps: continue
            if len(ps) != 1: x.why = '%d paths' % len(ps); return None
            (res, s) = ps[0]
            if res[0] != 'val': x.why = res[0]; return None
            if any(s.store.get(r) is not v for r, v in s.store0.items()): x.why = 'store'; return None
            outs.append((cond, res[1]))
        if not outs: raise Infeasible()
        try: return merge_vals(x, outs)
        except Unsupported as ex: x.why = repr(ex); return None

def merge_vals(x, outs):
    c0, v0 = outs[-1]
    rest = outs[:-1]
    vs = [v for _, v in outs]
    if all(v is v0 for v in vs): return v0
    if all(isinstance(v, Fl) for v in vs):
        def ite(ts, mk):
            e = ts[-1]
            for (c, _), t in zip(reversed(rest), reversed(ts[:-1])): e = t if t.eq(e) else z3.If(c, t, e)
            return e
        if all(v.k == 'f' for v in vs):
            zs = [tm.to_z3(v.t) for v in vs]
            if all(z.eq(zs[0]) for z in zs): return v0
            return Fl('f', atom(ite(zs, None)))
        cl = ite([v.t[0] if v.k == 's' else z3.IntVal(KCLS[v.k]) for v in vs], None)
        vl = ite([tm.to_z3(v.t[1]) if v.k == 's' else tm.to_z3(v.t) if v.k == 'f' else z3.RealVal(0) for v in vs], None)
        return Fl('s', (cl, atom(vl)))
    if all(isinstance(v, VMat) for v in vs): return VMat(v0.r, v0.c, [merge_vals(x, [(c, v.m[i]) for c, v in outs]) for i in range(len(v0.m))])
    if all(isinstance(v, VEnum) for v in vs):
        tag = zi(v0.tag)
        for c, v in reversed(rest): tag = zi(v.tag) if zi(v.tag).eq(tag) else z3.If(c, zi(v.tag), tag)
        tags = sorted(set(k for v in vs for k in v.vs))
        d = {}
        for k in tags:
            have = [(c, v.vs[k]) for c, v in outs if k in v.vs]
            d[k] = tuple(merge_vals(x, [(c, p[i]) for c, p in have]) for i in range(len(have[0][1])))
        if z3.is_int_value(tag): return VEnum(tag.as_long(), {tag.as_long(): d[tag.as_long()]}, v0.tid)
        return VEnum(tag, d, v0.tid)
    for cls in (VInt, VH, VBool):
        if all(isinstance(v, cls) for v in vs):
            e = zb(v0.t) if cls is VBool else zi(v0.t)
            for c, v in reversed(rest):
                t = zb(v.t) if cls is VBool else zi(v.t)
                e = t if t.eq(e) else z3.If(c, t, e)
            if cls is VInt: return VInt(e.as_long() if z3.is_int_value(e) else e, v0.bits, v0.signed)
            return cls(e)
    raise Unsupported('merge')

# ------------------------------------------------------------------ iteration domains
class Dom:
    """what a loop ranges over.  kind 'index': integers lo <= i < hi; 'set': handles h with a[h]"""
    def __init__(s, kind, mk, lo=0, hi=None, a=None, ekind=None, vec=None):
        s.kind = kind; s.mk = mk; s.lo = lo; s.hi = hi; s.a = a; s.ekind = ekind; s.vec = vec
    def member(s, x, e):
        if s.kind == 'set': return x.sel(s.a, e)
        return z3.And(zi(s.lo) <= e, e < zi(s.hi))
def any_filter(v):
    while isinstance(v, VIter):
        if v.kind in ('filter', 'filter_map'): return True
        v = v.d.get('it')
    return False
def domain(x, v, f=None, fid=None, bb=None, it=None):
    if isinstance(v, VInt) and it is not None and it[1] == 'count':
        return Dom('index', lambda y, i: VInt(i, v.bits, v.signed), v.t, x.counter_bound(f, fid, bb, it))
    if isinstance(v, VAgg):
        lo, hi = v.f[0], v.f[1]
        return Dom('index', lambda y, i: VInt(i, lo.bits, lo.signed), lo.t, hi.t)
    if isinstance(v, VIter):
        import models, iters
        if v.kind in iters.ADAPTERS: return domain(x, v.d['it'])
        if v.kind == 'enumerate':
            d = domain(x, v.d['it']); mk = d.mk
            if d.kind != 'index': raise Unsupported('enumerate over a set')
            off = v.d['pos']; src = v.d['it']
            if any_filter(src): raise Unsupported('enumerate over a filter')
            d.mk = lambda y, i: VAgg([VInt(i), iters.made(y, src, mk(y, i))])
            return d
        if v.kind == 'zip':
            d = domain(x, v.d['it']); d2 = domain(x, v.d['jt']); mk = d.mk; mk2 = d2.mk
            if d.kind != 'index' or d2.kind != 'index' or any_filter(v.d['it']) or any_filter(v.d['jt']): raise Unsupported('zip of unordered collections')
            lo, l2, h1, h2 = d.lo, d2.lo, d.hi, d2.hi
            sh = 0 if isinstance(lo, int) and isinstance(l2, int) and lo == l2 else zi(l2) - zi(lo)
            if isinstance(sh, int): hi = min(h1, h2) if isinstance(h1, int) and isinstance(h2, int) else h1 if not isinstance(h1, int) and not isinstance(h2, int) and h1.eq(h2) else z3.If(zi(h1) <= zi(h2), zi(h1), zi(h2))
            else: hi = z3.If(zi(h1) <= zi(h2) - sh, zi(h1), zi(h2) - sh)
            return Dom('index', lambda y, i: VAgg([iters.made(y, v.d['it'], mk(y, i)), iters.made(y, v.d['jt'], mk2(y, i if isinstance(sh, int) else i + sh))]), lo, hi)
        if v.kind == 'slice': return Dom('index', lambda y, i: models.elem_at(y, v, i), v.d['pos'], v.d['n'], vec=x.load(v.d['ref'].root, v.d['ref'].path))
        if v.kind == 'vec': return Dom('index', lambda y, i: models.elem_at(y, v, i), v.d['pos'], v.d['v'].n, vec=v.d['v'])
        if v.kind == 'set': return Dom('set', lambda y, e: models.elem_at(y, v, e), a=v.d['a'], ekind=set_kind(x, v.d['a']))
        if v.kind == 'arena': return Dom('set', lambda y, e: models.elem_at(y, v, e), a=v.d['present'], ekind=v.d['akind'])
    raise Unsupported('loop over %r' % (v,))
def set_base(a):
    """innermost array below Store / Lambda-free updates"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
    return a
def set_kind(x, a):
    a = set_base(a)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT: return x.setkind.get(set_base(a.arg(0)).get_id())
    return x.setkind.get(a.get_id())
def store_indices(a):
    out = []
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        out.append(a.arg(1)); a = a.arg(0)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT: pass
    return out
def arenas(x):
    """all arenas in memory"""
    def walk(v, d=0):
        if isinstance(v, VArena): yield v
        elif isinstance(v, VCell): yield from walk(v.v, d + 1)
        elif isinstance(v, VAgg) and d < 4:
            for c in v.f: yield from walk(c, d + 1)
    for v in list(x.store.values()): yield from walk(v)
def specials(x, dom, arrs=()):
    """elements of the domain that are looked at one by one: probes of the specification and elements with updated values"""
    out = []
    def add(t):
        t = x.rep(t)
        if not any((t is o) or (not isinstance(t, int) and not isinstance(o, int) and t.eq(o)) for o in out): out.append(t)
    if dom.kind == 'set':
        for t in store_indices(dom.a): add(t)
        for a in arrs:
            for t in store_indices(a): add(t)
        if dom.ekind:
            for t in x.probes.get(dom.ekind, []): add(t)
            for ar in arenas(x):
                if ar.kind == dom.ekind:
                    for a in (ar.present,) + tuple(ar.el.arrs):
                        for t in store_indices(a): add(t)
    else:
        for t in index_probes(x, dom): add(t)
    return out
def index_probes(x, dom):
    hi = zi(dom.hi)
    for (P, o, pos, n, kind) in list(x.enums.values()):
        sh = z3.simplify(n - hi)
        if mentions(sh, n): continue
        for h in x.probes.get(kind, []):
            x.enum_fact(P, o, pos, n, h)
            yield z3.simplify(z3.Select(pos, x.rep(h)) - sh)
    for k in x.probes.get('index', []): yield k
def mentions(t, sub):
    i = sub.get_id(); st = [t]
    while st:
        u = st.pop()
        if u.get_id() == i: return True
        st.extend(u.children())
    return False

# ------------------------------------------------------------------ locations changed by a loop body
def diff(x, a, b, path, out):
    """leaves of a that differ in b: list of paths"""
    if a is b: return
    if type(a) is not type(b): out.append((path, 'whole')); return
    if isinstance(a, VAgg):
        if len(a.f) != len(b.f): out.append((path, 'whole')); return
        for i, (p, q) in enumerate(zip(a.f, b.f)): diff(x, p, q, path + (('f', i),), out)
    elif isinstance(a, VCell):
        if a.flag != b.flag and not getattr(x, 'loose', False): raise Unsupported('a loop iteration leaves a RefCell borrowed')
        diff(x, a.v, b.v, path + (('cell',),), out)
    elif isinstance(a, VBox): diff(x, a.v, b.v, path + (('box',),), out)
    elif isinstance(a, VArena):
        if not a.present.eq(b.present): out.append((path, 'present'))
        if not a.issued.eq(b.issued): out.append((path, 'issued'))
        for j, (p, q) in enumerate(zip(a.el.arrs, b.el.arrs)):
            if not p.eq(q): out.append((path, ('arr', j)))
    elif isinstance(a, VVec):
        if a.conc is not None and b.conc is not None and a.n == b.n:
            sub = []
            for i, (p, q) in enumerate(zip(a.conc, b.conc)): diff(x, p, q, path, sub)
            if not sub: return
        if a.tpl is not None and a.tpl[0] == 'opq': 
            out.append((path, 'log')); return
        if not (isinstance(a.n, int) and isinstance(b.n, int) and a.n == b.n) and not zi(a.n).eq(zi(b.n)): out.append((path, 'n'))
        if a.el is not None and b.el is not None:
            for j, (p, q) in enumerate(zip(a.el.arrs, b.el.arrs)):
                if not p.eq(q): out.append((path, ('arr', j)))
        else:
            tpl = a.tpl or b.tpl
            for j in range(len(leaf_sorts(tpl))): out.append((path, ('arr', j)))
    elif isinstance(a, (VRef, VIter, VGuard, VOpq)):
        if isinstance(a, VRef) and a.root == b.root and a.path == b.path and a.meta == b.meta: return
        if isinstance(a, VOpq): return
        out.append((path, 'drop'))
    elif isinstance(a, VEnum):
        if isinstance(a.tag, int) and a.tag == b.tag and isinstance(b.tag, int):
            s2 = []
            for p, q in zip(a.vs[a.tag], b.vs[b.tag]): diff(x, p, q, path, s2)
            if s2: out.append((path, 'leaf'))
        elif set(a.vs) == set(b.vs) and zi(a.tag).eq(zi(b.tag)):
            s2 = []
            for k in a.vs:
                for p, q in zip(a.vs[k], b.vs[k]): diff(x, p, q, path, s2)
            if s2: out.append((path, 'leaf'))
        else: out.append((path, 'leaf'))
    else:
        try: same = skey(x, a) == skey(x, b)
        except Unsupported: same = False
        if not same: out.append((path, 'leaf'))
def state_diff(x, pre, post, skip):
    out = []
    for r, v in pre.items():
        if r in skip: continue
        w = post.get(r)
        if w is v: continue
        if w is None: out.append((r, (), 'drop')); continue
        o = []
        diff(x, v, w, (), o)
        out += [(r, p, k) for p, k in o]
    return out

def get_at(x, root, path, kind):
    v = x.load(root, path)
    return v
def havoc_float(x, st, key, base, old=None):
    if st.get((key, 'ext')) or old is not None and old.k != 'f' and not (old.k == 's' and x.entails_light(old.t[0] == FIN)):
        c = x.fresh_int('cls'); x.assume(z3.And(c >= 0, c <= 3))
        return Fl('s', (c, x.fresh_T(base)))
    return Fl('f', x.fresh_T(base))
class Loc:
    __slots__ = ('root', 'path', 'kind')
    def __init__(s, r, p, k): s.root = r; s.path = p; s.kind = k
    def key(s): return (s.root, s.path, s.kind)
def havoc_leaf(x, v, st, key, ty):
    """arbitrary value of the same shape; st: properties given up"""
    if isinstance(v, Fl): return havoc_float(x, st, key, 'hv', v)
    if isinstance(v, VMat): return VMat(v.r, v.c, [havoc_float(x, st, key, 'hv', o) for o in v.m])
    if isinstance(v, VQuat):
        import models
        if v.unit and not st.get((key, 'nonunit')): return models.fresh_quat(x, 'hq')
        return VQuat([Fl('f', x.fresh_T('hq')) for _ in range(4)], False)
    if isinstance(v, VInt):
        t = x.fresh_int('hi'); lo, hi = int_range(v.bits, v.signed); x.assume(z3.And(t >= lo, t <= hi)); return VInt(t, v.bits, v.signed)
    if isinstance(v, VBool): return VBool(x.fresh_bool('hb'))
    if isinstance(v, VH): return VH(x.fresh_int('hh'))
    if isinstance(v, VSet):
        n = z3.Const(x._n('hs'), arr_sort(BoolS))
        for m in set_probes(x):
            if not st.get((key, 'mb', str(m))): n = z3.Store(n, m, x.sel(v.a, m))
        return type(v)(n)
    if isinstance(v, VEnum):
        tid = v.tid if v.tid is not None else ty
        if tid is None: raise Unsupported('loop changes an enum of unknown type')
        return x.fresh(x.prog.tpl(tid), 'he')
    raise Unsupported('loop changes a %s' % type(v).__name__)

def set_probes(x):
    out = []
    for k in sorted(x.probes):
        for m in x.probes[k]:
            m = x.rep(m)
            if not any(m.eq(o) for o in out): out.append(m)
    return out
def conc_to_el(x, v):
    """array representation of a vector"""
    if v.el is not None: return v
    return VVec(v.n, None, Lifted(v.tpl, vec_to_lifted(x, v, v.tpl)), v.tpl)

def loop_rule(x, f, fid, bb, body):
    it = x.loop_iter(f, fid, bb)
    if it is None: raise Unsupported('loop of unknown form in %s' % f['name'].split('::')[-1])
    if it[1] == 'pop' and x.unit.udef.opts.get('cut'): return cut_loop(x, f, fid, bb, body, x.unit.udef.opts['cut'])
    if it[1] == 'pop': raise Unsupported('worklist loop in %s' % f['name'].split('::')[-1])
    root = (fid, it[0])
    v0 = x.store[root]
    while isinstance(v0, VRef):
        root = v0.root
        if v0.path: raise Unsupported('iterator inside a structure')
        v0 = x.store[root]
    dom = domain(x, v0, f, fid, bb, it)
    L = LoopRun(x, f, fid, bb, body, root, v0, dom)
    return L.run()

def cut_loop(x, f, fid, bb, body, mk):
    """a loop with a stated invariant: it holds on entry, an arbitrary iteration preserves it, and the code after the loop may rely on nothing else"""
    c = mk(x, f, fid)
    c.entry(x)
    c.havoc(x)
    pre = dict(x.store)
    r = x.run(f, fid, bb, (bb, body))
    if r[0] == 'back':
        c.preserved(x, pre)
        for key in state_diff(x, pre, x.store, set()):
            if key[2] == 'drop' and not key[1]: continue
            if not c.may_change(x, key): raise Unsupported('the loop in %s changes more than its invariant speaks about: %s' % (f['name'], key))
        raise PathEnd()
    c.left(x)
    if r[0] == 'ret': return None
    return r[1]

class LoopRun:
    def __init__(s, x, f, fid, bb, body, iroot, it, dom):
        s.x = x; s.f = f; s.fid = fid; s.bb = bb; s.body = body; s.iroot = iroot; s.it = it; s.dom = dom
        s.name = f['name'].split('::')[-1]
        s.tag = (f['key'], bb)
        s.spec = None
        for h in x.unit.loop_specs:
            r = h(x, s)
            if r is not None: s.spec = r; break
    def ty(s, loc):
        if loc[0][0] == s.fid and not loc[1]: return s.f['locals'][loc[0][1]]
        return None
    # ---- forcing an iteration
    def force(s, y, val):
        if isinstance(s.it, VInt): y.store[s.iroot] = val
        elif isinstance(s.it, VAgg): y.store[s.iroot] = VAgg(s.it.f, s.it.tid, ('force', ('elem', val)))
        else: y.store[s.iroot] = s.it.with_(force=('elem', val))
    def force_end(s, y):
        if isinstance(s.it, VInt):
            lo, hi = s.dom.lo, s.dom.hi
            y.store[s.iroot] = VInt(max(lo, hi) if isinstance(lo, int) and isinstance(hi, int) else z3.simplify(z3.If(zi(hi) > zi(lo), zi(hi), zi(lo))), s.it.bits, s.it.signed)
        elif isinstance(s.it, VAgg): y.store[s.iroot] = VAgg(s.it.f, s.it.tid, ('force', 'end'))
        else: y.store[s.iroot] = s.it.with_(force='end')
    def reset(s, y): y.store[s.iroot] = s.it
    def iterate(s, y, e):
        """run the body for element e"""
        s.force(y, s.dom.mk(y, e))
        import iters
        try: r = y.run(s.f, s.fid, s.bb, (s.bb, s.body))
        except iters.Skip: r = ('back', s.bb)
        if isinstance(s.it, VInt) and r[0] == 'back':
            v = y.store[s.iroot]
            if not (isinstance(v, VInt) and y.valid(zi(v.t) == zi(e) + 1)[0]): raise Unsupported('the counter of the loop in %s does not grow by one' % s.name)
            if not y.valid(zi(y.counter_bound(s.f, s.fid, s.bb, y.loop_iter(s.f, s.fid, s.bb))) == zi(s.dom.hi))[0]: raise Unsupported('the bound of the loop in %s changes' % s.name)
        return r
    def finish(s, y):
        s.force_end(y)
        r = y.run(s.f, s.fid, s.bb, (s.bb, s.body))
        if r[0] != 'exit': raise Unsupported('loop does not end with its iterator in %s' % s.name)
        return r[1]
    def count_at(s, y, e):
        """number of iterations completed before element e"""
        if s.dom.kind == 'index': return z3.simplify(e - zi(s.dom.lo))
        for (P, o, pos, n, kind) in y.enums.values():
            if P.eq(s.dom.a): 
                y.enum_fact(P, o, pos, n, e)
                return z3.Select(pos, e)
        c = y.fresh_int('it'); y.assume(c >= 0); return c
    def total(s, y):
        if s.dom.kind == 'index': return z3.simplify(z3.If(zi(s.dom.hi) > zi(s.dom.lo), zi(s.dom.hi) - zi(s.dom.lo), 0)) if not (isinstance(s.dom.lo, int) and s.dom.lo == 0) else zi(s.dom.hi)
        return y.enum_of(s.dom.a, s.dom.ekind)[3]
    # ---- havoc
    def havoc(s, y, M, st, cnt):
        """forget what the loop may change.  Returns {loc: (old, new)}.  cnt: iterations completed since loop entry (or None)"""
        done = {}
        for key in sorted(M, key=str):
            root, path, kind = key
            if root not in y.store: continue
            if kind == 'drop': 
                if not path: y.store.pop(root, None)
                continue
            try: v = y.load(root, path)
            except Unsupported: continue
            if kind == 'whole': raise Unsupported('loop changes the shape of a value in %s' % s.name)
            if kind == 'leaf':
                try: n = havoc_leaf(y, v, st, key, s.ty(key))
                except Unsupported:
                    if path: raise
                    y.store.pop(root, None); continue          # whoever reads it afterwards is stopped
                done[key] = (v, n)
                y.store_to(root, path, n)
                s.relate(y, key, v, n, st)
            elif kind == 'log':
                n = VVec(y.fresh_int('log'), None, Lifted(v.tpl, [y.fresh_arr(q, 'lg') for q in leaf_sorts(v.tpl)]), v.tpl)
                y.assume(n.n >= 0)
                y.store_to(root, path, n)
            elif kind == 'n':
                v = conc_to_el(y, v); 
                n0 = s.entry[key] if key in s.entry else v.n
                if not st.get((key, 'count')) and cnt is not None: nn = z3.simplify(zi(n0) + cnt)
                else:
                    nn = y.fresh_int('len'); y.vec_len(nn)
                    if not st.get((key, 'ge')): y.assume(nn >= zi(v.n))
                done[key] = (v.n, nn)
                y.store_to(root, path, VVec(nn, None, v.el, v.tpl))
            elif kind in ('present', 'issued') or kind[0] == 'arr':
                if isinstance(v, VVec): v = conc_to_el(y, v)
                old = v.present if kind == 'present' else v.issued if kind == 'issued' else v.el.arrs[kind[1]]
                new = z3.Const(y._n('ha'), old.sort())
                s.inherit(y, key, old, new, st)
                for k in s.frame_idx(y, key, v):
                    if st.get((key, 'fr', str(k))): 
                        # a set-valued leaf may at least keep the membership of the probes
                        if new.sort().range() == arr_sort(BoolS):
                            cur = z3.Const(y._n('hm'), arr_sort(BoolS)); keep = False
                            for m in y.probes.get(y.setkind.get(set_base(old).get_id()) or 'entity', []):
                                m = y.rep(m)
                                if not st.get((key, 'mb', str(k), str(m))):
                                    cur = z3.Store(cur, m, y.sel(y.sel(old, k), m)); keep = True
                            if keep: new = z3.Store(new, k, cur)
                        continue
                    new = z3.Store(new, k, y.sel(old, k))
                done[key] = (old, new)
                if kind == 'present': w = VArena(new, v.issued, v.el, v.kind)
                elif kind == 'issued': w = VArena(v.present, new, v.el, v.kind)
                else:
                    arrs = list(v.el.arrs); arrs[kind[1]] = new
                    w = VArena(v.present, v.issued, Lifted(v.el.tpl, arrs), v.kind) if isinstance(v, VArena) else VVec(v.n, None, Lifted(v.el.tpl, arrs), v.tpl)
                y.store_to(root, path, w)
        return done
    def inherit(s, y, key, old, new, st):
        b = set_base(old)
        k = y.setkind.get(b.get_id())
        if k: y.setkind[new.get_id()] = k; y.memo[('keepz2', new.get_id())] = new
        for n, fn in s.set_cands(y, key, old):
            if not st.get((key, 'si', n)): y.set_inv.setdefault(new.get_id(), []) ; y.set_inv[new.get_id()] = list(y.set_inv[new.get_id()]) + [(n, fn)]
    def set_cands(s, y, key, old):
        """candidate facts about all elements of the sets held in an array of sets"""
        if old.sort().range() != arr_sort(BoolS): return []
        b = set_base(old)
        out = list(y.set_inv.get(b.get_id(), []))
        names = [n for n, _ in out]
        for ar in arenas(y):
            n = 'present ' + ar.kind
            if n not in names and ar.kind == 'entity':
                P = ar.present
                out.append((n, lambda z, h, e, P=P: z.sel(P, e)))
        return out
    def frame_idx(s, y, key, v):
        if isinstance(v, VArena): return [y.rep(h) for h in y.probes.get(v.kind, [])]
        out = []
        for a in v.el.arrs:
            en = y.enums.get(a.get_id())
            if en:
                P, o, pos, n, kind = en
                for h in y.probes.get(kind, []):
                    k = z3.Select(pos, y.rep(h))
                    if not any(k.eq(q) for q in out): out.append(k)
        if not out: out = [k for k in s.sp if not isinstance(k, int)] if s.dom.kind == 'index' else []
        if s.dom.kind == 'set' and not out and s.dom.ekind:
            out = [z3.Select(pos, k) for k in s.sp for (P, o, pos, n, kind) in y.enums.values() if P.eq(s.dom.a)]
        return out
    def relate(s, y, key, v, n, st):
        if isinstance(v, Fl) and isinstance(n, Fl) and v.k == 'f' and n.k == 'f':
            if not st.get((key, 'le')): y.assume(y.le(n.t, v.t))
            if not st.get((key, 'ge')): y.assume(y.le(v.t, n.t))
        elif isinstance(v, VInt):
            if not st.get((key, 'le')): y.assume(zi(n.t) <= zi(v.t))
            if not st.get((key, 'ge')): y.assume(zi(n.t) >= zi(v.t))
        elif isinstance(v, VBool):
            if not st.get((key, 'le')): y.assume(z3.Implies(zb(n.t), zb(v.t)))
            if not st.get((key, 'ge')): y.assume(z3.Implies(zb(v.t), zb(n.t)))
    # ---- checking the candidates on one body path
    def check(s, y, done, M, st, cnt):
        """post state of an iteration against the candidates; returns whether something had to be given up"""
        ch = False
        def drop(k):
            nonlocal ch
            if not st.get(k):
                st[k] = True; ch = True
                if DEBUG: print("give up", s.name, s.bb, str(k)[:200])
        def ok(c):
            return y.valid_quick(c)
        for key, (old, new) in done.items():
            root, path, kind = key
            try: w = y.load(root, path)
            except Unsupported: continue
            if kind == 'leaf':
                if w is new: continue
                if isinstance(new, Fl):
                    a, b = new, w
                    if new.k == 'f' and b.k != 'f':
                        if b.k == 's' and ok(b.t[0] == FIN): b = Fl('f', b.t[1])
                        else: drop((key, 'ext')); continue
                    if new.k == 'f' and b.k == 'f':
                        if not st.get((key, 'le')) and not ok(y.le(b.t, a.t)): drop((key, 'le'))
                        if not st.get((key, 'ge')) and not ok(y.le(a.t, b.t)): drop((key, 'ge'))
                elif isinstance(new, (VMat, VQuat)):
                    if type(w) is not type(new): raise Unsupported('loop changes a shape')
                    for p, q in zip(new.m, w.m):
                        if p.k == 'f' and q.k != 'f' and not (q.k == 's' and ok(q.t[0] == FIN)): drop((key, 'ext'))
                    if isinstance(new, VQuat) and new.unit and not w.unit: drop((key, 'nonunit'))
                elif isinstance(new, VSet):
                    for m in set_probes(y):
                        k = (key, 'mb', str(m))
                        if not st.get(k) and not ok(s.esel(y, w.a, m) == s.esel(y, new.a, m)): drop(k)
                elif isinstance(new, VInt):
                    if not st.get((key, 'le')) and not ok(zi(w.t) <= zi(new.t)): drop((key, 'le'))
                    if not st.get((key, 'ge')) and not ok(zi(w.t) >= zi(new.t)): drop((key, 'ge'))
                elif isinstance(new, VBool):
                    if not st.get((key, 'le')) and not ok(z3.Implies(zb(w.t), zb(new.t))): drop((key, 'le'))
                    if not st.get((key, 'ge')) and not ok(z3.Implies(zb(new.t), zb(w.t))): drop((key, 'ge'))
            elif kind == 'n':
                if not st.get((key, 'count')) and not ok(zi(w.n) == zi(new) + 1): drop((key, 'count'))
                if not st.get((key, 'ge')) and not ok(zi(w.n) >= zi(new)): drop((key, 'ge'))
            elif kind in ('present', 'issued') or kind[0] == 'arr':
                if isinstance(w, VVec): w = conc_to_el(y, w)
                post = w.present if kind == 'present' else w.issued if kind == 'issued' else w.el.arrs[kind[1]]
                if post.eq(new): continue
                for k in s.frame_idx(y, key, w):
                    if st.get((key, 'fr', str(k))): 
                        if new.sort().range() == arr_sort(BoolS):
                            for m in y.probes.get(y.setkind.get(set_base(old).get_id()) or 'entity', []):
                                kk = (key, 'mb', str(k), str(y.rep(m)))
                                if not st.get(kk) and not ok(s.esel(y, s.esel(y, post, k), y.rep(m)) == s.esel(y, s.esel(y, new, k), y.rep(m))): drop(kk)
                        continue
                    a, b = s.esel(y, post, k), s.esel(y, new, k)
                    if not a.eq(b) and not ok(a == b): drop((key, 'fr', str(k)))
                for n, fn in s.set_cands(y, key, old):
                    if st.get((key, 'si', n)): continue
                    if not s.set_inv_holds(y, post, n, fn): drop((key, 'si', n))
        return ch
    def esel(s, y, a, i):
        """selection without forking"""
        r = z3.Select(a, zi(i))
        return z3.simplify(r) if not (z3.is_quantifier(a)) else z3.simplify(z3.substitute_vars(a.body(), zi(i)))
    def set_inv_holds(s, y, post, n, fn):
        """every element of every set in the array satisfies the fact (new stores are looked at one by one)"""
        def run(z):
            h, e = z.fresh_int('qh'), z.fresh_int('qe')
            m = z.sel(z.sel(post, h), e)
            z.assume(z.to_b(m))
            c = fn(z, h, e)
            return ('val', z.valid_quick(z.to_b(c)))
        try: ps = y.sub_paths(('si', n, str(s.tag)), run, 60) if y.solver is not None else y.sub_paths(('si', n, str(s.tag)), run, 60)
        except Unsupported: return False
        return all(r[1] for r, _ in ps)
    # ---- one generic iteration
    def explore(s, M, st):
        x = s.x
        outs = []
        def run(y):
            e = y.fresh_int('el')
            y.memo['loop_el'] = e
            y.assume(y.to_b(s.dom.member(y, e)))
            for k in s.sp: y.assume(e != zi(k))
            y.probe_facts(s.dom, e)
            cnt = s.count_at(y, e)
            done = s.havoc(y, M, st, cnt)
            s.reset(y)
            if s.spec: s.spec.assume(y, s)
            pre = dict(y.store)
            # from here on only facts about this iteration are of interest
            npc = len(y.pc)
            r = s.iterate(y, e)
            return (r, e, done, pre, npc)
        return x.sub_paths((s.tag, len(M), tuple(sorted(map(str, st)))), run)
    def solve(s):
        """fixpoint of the changed locations and of the candidate facts"""
        x = s.x
        hints = x.unit.hints.setdefault(s.tag, (set(), {}))
        def norm(key): return ((('L', key[0][1]) if key[0][0] == s.fid else key[0]),) + tuple(key[1:])
        def denorm(key): return (((s.fid, key[0][1]) if key[0][0] == 'L' else key[0]),) + tuple(key[1:])
        M = set(denorm(k) for k in hints[0] if denorm(k)[0] in x.store)
        M = set(k for k in M if s.path_ok(k))
        st = Given((denorm(k[0]),) + tuple(k[1:]) for k in hints[1])
        s.entry = {}
        for _ in range(40):
            for key in M:
                if key[2] == 'n' and key not in s.entry: s.entry[key] = conc_to_el(x, x.load(key[0], key[1])).n
            t0 = time.time(); ps = s.explore(M, st)
            if DEBUG: print('  ' * len(x.ident) + 'loop %s bb%d line %s: %d paths %s, %d locations, %d given up, %.1fs' % (s.name, s.bb, s.f['blocks'][s.bb]['line'], len(ps), sorted(set(p[0][0][0] for p in ps)), len(M), len(st), time.time() - t0), flush=True)
            ch = s.entry_sets(M, st)
            for (r, e, done, pre, npc), y in ps:
                if r[0] != 'back': continue
                y.solver_open()
                d = state_diff(y, pre, y.store, {s.iroot})
                for key in d:
                    if key[0] in x.store and key not in M:
                        if key[2] != 'drop' or not key[1]: M.add(key); ch = True
                if not ch and s.check(y, done, M, st, None): ch = True
            if not ch: break
        else: raise Unsupported('no stable invariant for the loop in %s' % s.name)
        x.unit.hints[s.tag] = (set(norm(k) for k in M), set(((norm(k[0]),) + tuple(k[1:])) for k in st))
        s.M = M; s.st = st; s.ps = ps
    def entry_sets(s, M, st):
        """the candidate facts about elements of sets must hold on entry as well"""
        x = s.x; ch = False
        for key in M:
            if key[2] in ('leaf', 'log', 'n', 'drop', 'whole', 'present', 'issued'): continue
            try: v = x.load(key[0], key[1])
            except Unsupported: continue
            if isinstance(v, VVec):
                if isinstance(v.n, int) and v.n == 0: continue
                v = conc_to_el(x, v)
            old = v.el.arrs[key[2][1]]
            have = [n for n, _ in x.set_inv.get(set_base(old).get_id(), [])] if set_base(old).eq(old) else []
            for n, fn in s.set_cands(x, key, old):
                if st.get((key, 'si', n)) or n in have: continue
                if not s.set_inv_holds(x, old, n, fn): st[(key, 'si', n)] = True; ch = True
        return ch
    def path_ok(s, key):
        try: s.x.load(key[0], key[1]); return True
        except (Unsupported, KeyError, IndexError, TypeError): return False
    # ---- pure folds
    def fold_info(s):
        """location -> increment, when every iteration only adds terms that depend on its element alone"""
        x = s.x
        backs = [p for p in s.ps if p[0][0][0] == 'back']
        inc = []
        for (r, e, done, pre, npc), y in backs:
            hv = set()
            for old, new in done.values():
                for t in atoms_of(new): hv.add(t)
            d = {}
            for key, (old, new) in done.items():
                if key[2] != 'leaf': return None
                try: w = y.load(key[0], key[1])
                except Unsupported: return None
                if isinstance(new, Fl): a, b = [new], [w]
                elif isinstance(new, VMat) and isinstance(w, VMat): a, b = new.m, w.m
                else: return None
                g = []
                for p, q in zip(a, b):
                    if q.k == 's' and y.entails_light(q.t[0] == FIN): q = Fl('f', q.t[1])
                    if p.k != 'f' or q.k != 'f': return None
                    try: dd = tm.poly(tm.sub(q.t, p.t))
                    except tm.Blowup: return None
                    for m in dd:
                        for a_, ex in m:
                            z = expand(tm.ATOMS[a_].z)
                            if z.get_id() in hv or any(q.get_id() in hv for q in consts_of(z)) or foreign(z, e): return None
                    g.append(dd)
                d[key] = g
            inc.append((e, d, y.pc[npc:], y))
        for key in s.M:
            if key[2] == 'drop' or key[2] == 'log': continue
            if key[2] != 'leaf': return None
        return inc
    def run(s):
        x = s.x
        s.sp = []
        cand = specials(x, s.dom)
        members = []
        for k in cand:
            if x.branch(x.to_b(s.dom.member(x, zi(k) if s.dom.kind == 'index' else k))):
                if not any(x.is_eq(k, o) for o in members): members.append(k)
        s.sp = cand
        for k in members: x.probe_facts(s.dom, zi(k))
        s.solve()
        exits = [(p, y) for p, y in s.ps if p[0][0] in ('exit', 'ret')]
        for p, y in s.ps: x.obs += y.obs
        if any(p[0][0] == 'end' for p, y in s.ps): x.note('a loop body path ended early')
        fold = s.fold_info()
        x.note('loop in %s: %s' % (s.name, 'sum over its elements' if fold is not None else 'invariants inferred for %d changed locations' % len([k for k in s.M if k[2] != 'drop'])))
        n = 1 + len(exits)
        ch = x.choose(n)
        if ch > 0:
            # some iteration leaves the loop: an arbitrary element, from an arbitrary state of the changed locations
            (r, e, done, pre, npc), y = exits[ch - 1]
            x.adopt(y)
            x.witness(s.dom, e)
            if r[0] == 'ret': return None
            return r[1]
        if fold is not None: return s.exit_fold(fold, members)
        return s.exit_staged(members)
    def exit_fold(s, fold, members):
        x = s.x
        saved = dict(x.store)
        for k in members:
            s.reset(x)
            r = s.iterate(x, zi(k) if s.dom.kind == 'index' else k)
            if r[0] != 'back': raise Infeasible()     # covered by the alternative of leaving the loop
        # generic elements
        if len(fold) == 1 or True:
            x.all_elems(s, fold)
            keys = sorted(set(k for e, d, pc, y in fold for k in d), key=str)
            for key in keys:
                cur = x.load(key[0], key[1])
                tot = None
                for e, d, pc, y in fold:
                    conds = pc_of(pc, e) if len(fold) > 1 else []
                    g = [x.sum_poly(s.dom, s.sp, e, p, conds, y) for p in d[key]]
                    tot = g if tot is None else [a + b for a, b in zip(tot, g)]
                if isinstance(cur, Fl): new = x.fadd(cur, Fl('f', tot[0]))
                else: new = VMat(cur.r, cur.c, [x.fadd(p, Fl('f', q)) for p, q in zip(cur.m, tot)])
                x.store_to(key[0], key[1], new)
        for key in s.M:
            if key[2] == 'drop' and not key[1] and key not in (): x.store.pop(key[0], None)
            elif key[2] == 'log': s.havoc(x, {key}, s.st, None)
        s.reset(x)
        return s.finish(x)
    def exit_staged(s, members):
        x = s.x
        rest = list(members)
        order = []
        while rest:
            if s.dom.kind == 'index':
                # smallest first
                m = None
                for k in rest:
                    if all(k is o or x.branch(zi(k) < zi(o)) for o in rest): m = k; break
                if m is None: raise Infeasible()
            else: m = rest[x.choose(len(rest))]
            rest.remove(m); order.append(m)
        prev = None
        for k in order:
            e = zi(k) if s.dom.kind == 'index' else k
            cnt = s.count_at(x, e)
            if prev is not None and s.dom.kind == 'set': x.assume(zi(prev) < cnt)
            prev = cnt
            s.havoc(x, s.M, s.st, cnt)
            s.reset(x)
            if s.spec: s.spec.assume(x, s)
            r = s.iterate(x, e)
            if r[0] == 'exit': return r[1]
            if r[0] == 'ret': return None
            s.reset(x)
        tot = s.total(x)
        d = s.havoc(x, s.M, s.st, tot)
        s.push_maps(x, d, tot)
        s.reset(x)
        if s.spec: s.spec.assume(x, s)
        s.all_elems_staged(x)
        return s.finish(x)
    def all_elems_staged(s, x): pass
    def push_maps(s, x, d, tot):
        """arrays of a vector that receives exactly one element per iteration: known for all indices when the element is a function of the index"""
        backs = [p for p in s.ps if p[0][0][0] == 'back']
        for key, (old, new) in list(d.items()):
            root, path, kind = key
            if kind[0] != 'arr' or kind in ('present', 'issued'): continue
            v = x.load(root, path)
            if not isinstance(v, VVec): continue
            nk = (root, path, 'n')
            if nk not in s.M or s.st.get((nk, 'count')): continue
            if not (isinstance(s.entry[nk], int) and s.entry[nk] == 0) : continue
            val = None; good = bool(backs)
            for (r, e, done, pre, npc), y in backs:
                w = y.load(root, path); post = w.el.arrs[kind[1]]
                havocd = done[key][1]
                pn = zi(done[nk][1])
                if not (z3.is_app(post) and post.decl().kind() == z3.Z3_OP_STORE and set_base(post).eq(set_base(havocd)) and post.arg(0).eq(havocd) and z3.simplify(post.arg(1) - pn).eq(z3.IntVal(0))): good = False; break
                t = post.arg(2)
                cs = consts_of(t)
                own = set(c.get_id() for c in cs)
                if any(nm_index(c) > s.nf0(y, e) for c in cs if not c.eq(e)): good = False; break
                if val is not None and not val[0].eq(t): good = False; break
                val = (t, e)
            if not good or val is None: continue
            t, e = val
            if s.dom.kind == 'index':
                i = z3.Int('pm!i')
                tt = z3.substitute(t, (e, i + zi(s.dom.lo)))
                arr = None
                if z3.is_app(tt) and tt.decl().kind() == z3.Z3_OP_SELECT and z3.simplify(tt.arg(1)).eq(i) and not mentions(tt.arg(0), i): arr = tt.arg(0)
                if arr is None: arr = z3.Lambda([i], z3.simplify(tt)) if mentions(tt, i) else z3.K(IntS, tt)
            else:
                P, o, pos, n, kd = x.enum_of(s.dom.a, s.dom.ekind)
                if t.eq(e): arr = o
                else:
                    i = z3.Int('pm!i'); arr = z3.Lambda([i], z3.substitute(t, (e, z3.Select(o, i)))) if mentions(t, e) else z3.K(IntS, t)
            arrs = list(v.el.arrs); arrs[kind[1]] = arr
            x.store_to(root, path, VVec(v.n, None, Lifted(v.el.tpl, arrs), v.tpl))
    def nf0(s, y, e): return nm_index(e)

def nm_index(c):
    """creation number of a constant"""
    n = str(c)
    i = n.rfind('!')
    try: return int(n[i + 1:]) if i >= 0 and not n.startswith('sqrt!') else 0
    except ValueError: return 0
def consts_of(t):
    out = []; seen = set(); st = [t]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_quantifier(u): st.append(u.body()); continue
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(u)
        st.extend(u.children())
    return out
def atoms_of(v):
    if isinstance(v, Fl):
        if v.k == 'f' and v.t.op == 'a': yield tm.ATOMS[v.t.a].z.get_id()
        if v.k == 's':
            yield v.t[0].get_id()
            if v.t[1].op == 'a': yield tm.ATOMS[v.t[1].a].z.get_id()
    elif isinstance(v, VMat) or isinstance(v, VQuat):
        for c in v.m: yield from atoms_of(c)
    elif isinstance(v, (VInt, VBool, VH)):
        if z3.is_expr(v.t): yield v.t.get_id()
    elif z3.is_expr(v): yield v.get_id()
def pc_of(pc, e):
    """the conditions of a body path that speak about the element only"""
    out = []
    for c in pc:
        c = expand(c)
        cs = consts_of(c)
        if any(q.eq(e) for q in cs) and all(q.eq(e) or nm_index(q) < nm_index(e) for q in cs): out.append(c)
    return out
BV = z3.Int('elem!bv')
_exp = {}
def expand(z):
    """the same term without constants that stand for products or reciprocals"""
    r = _exp.get(z.get_id())
    if r is not None: return r[1]
    cur = z
    for _ in range(30):
        sub = []
        for c in consts_of(cur):
            d = hidden(c)
            if d is not None: sub.append((c, d))
        if not sub: break
        cur = z3.substitute(cur, *sub)
    else: raise Unsupported('deep definition')
    _exp[z.get_id()] = (z, cur)
    return cur
def hidden(c):
    i = c.get_id()
    if i in tm.MONO_DEF:
        prod = None
        for a, ex in tm.MONO_DEF[i][1]:
            for _ in range(ex): prod = tm.ATOMS[a].z if prod is None else prod * tm.ATOMS[a].z
        return prod
    k = tm._atom_by_z.get(i)
    if k is not None and tm.ATOMS[k].inv_of is not None: return 1 / tm.p_direct(tm.ATOMS[k].inv_of)
    return None
def foreign(z, e):
    """constants of z that came into being after e (results of the body that are not functions of the element)"""
    n = nm_index(e)
    return [q for q in consts_of(z) if not q.eq(e) and (nm_index(q) > n or (str(q).startswith('sqrt!') and sqrt_dep(q, e)))]
def sqrt_dep(q, e):
    k = tm._atom_by_z.get(q.get_id())
    if k is None or tm.ATOMS[k].sq is None: return True
    return any(mentions(expand(tm.ATOMS[a].z), e) for m in tm.ATOMS[k].sq for a, _ in m)

def zb_not(b): return z3.Not(b)
class SumMixin:
    """sums and existence over iteration domains as canonical atoms"""
    def enum_of(x, P, kind):
        for en in x.enums.values():
            if en[0].eq(P): return en
        k = x._n('ord')
        o = z3.Const(k, arr_sort(IntS)); pos = z3.Const(k + '.pos', arr_sort(IntS)); n = z3.Int(k + '.n')
        import models
        x.assume(z3.And(n >= 0, n < 2**48))
        en = (P, o, pos, n, kind)
        x.enums[o.get_id()] = en
        return en
    def enum_fact(x, P, o, pos, n, h):
        h = x.rep(h)
        p = z3.Select(pos, h)
        x.assume(z3.Implies(x.nosel(P, h), z3.And(p >= 0, p < n, z3.Select(o, p) == h)))
    def nosel(x, a, i):
        return z3.simplify(z3.Select(a, zi(i)))
    def witness(x, dom, e):
        x.probe_facts(dom, e)
    def probe_facts(x, dom, e):
        """universal facts about the domain, instantiated"""
        k = x.dom_key(dom)
        x.anys.setdefault(('wit', k), []).append(e)
        for fn in list(x.anys.get(('all', k), [])): x.assume(fn(x, e))
    def dom_key(x, dom):
        if dom.kind == 'set': return ('set', dom.a.get_id())
        return ('index', z3.simplify(zi(dom.lo)).get_id(), z3.simplify(zi(dom.hi)).get_id())
    def add_forall(x, dom, fn):
        k = x.dom_key(dom)
        x.anys.setdefault(('all', k), []).append(fn)
        for e in x.anys.get(('wit', k), []): x.assume(fn(x, e))
    def all_elems(x, L, fold):
        """every (generic) element took one of the non-leaving paths"""
        alts = [(e, pc_of(pc, e)) for e, d, pc, y in fold]
        sp = [zi(k) for k in L.sp]
        if not alts: fn = lambda y, t: z3.Or([t == k for k in sp] + [z3.Not(y.to_b(L.dom.member(y, t)))])
        else:
            def fn(y, t):
                c = z3.Or([z3.And([z3.substitute(q, (e, t)) for q in cs] + [z3.BoolVal(True)]) for e, cs in alts])
                return z3.Or([t == k for k in sp] + [c])
        x.memo[('keepdom', len(x.memo))] = L.dom.a
        x.add_forall(L.dom, fn)
    def sum_over(x, a, kind, fn, arrs=(), n=1):
        """specification: [sum over h in the set a of fn(h)_i for each component i]; arrs: arrays fn reads (updated elements are taken out)"""
        dom = Dom('set', None, a=a, ekind=kind)
        sp = specials(x, dom, arrs)
        tot = None
        for k in sp:
            if x.branch(x.to_b(x.sel(a, k))):
                x.probe_facts(dom, k)
                v = fn(x, k)
                tot = v if tot is None else [p + q for p, q in zip(tot, v)]
        def run(y):
            e = y.fresh_int('el')
            y.assume(y.to_b(dom.member(y, e)))
            for k in sp: y.assume(e != k)
            y.probe_facts(dom, e)
            if kind: y.unit.instantiate(y, kind, e)
            n0 = len(y.pc)
            v = [tm.poly(t) for t in fn(y, e)]
            return ('val', (e, v, n0))
        ps = x.sub_paths(('sumspec', a.get_id(), len(sp)), run, 40)
        out = None
        for (r, y) in ps:
            if r[0] != 'val': raise Unsupported('specification sum')
            e, v, n0 = r[1]
            for p in v:
                for m in p:
                    for at, _ in m:
                        if foreign(expand(tm.ATOMS[at].z), e): raise Unsupported('specification sum over a non-function: %s' % tm.ATOMS[at].z)
            g = [x.sum_poly(dom, sp, e, p, pc_of(y.pc[n0:], e) if len(ps) > 1 else (), y) for p in v]
            out = g if out is None else [p + q for p, q in zip(out, g)]
        if out is None: return tot if tot is not None else [ZERO] * n
        return out if tot is None else [p + q for p, q in zip(out, tot)]
    def exists_in(x, a, kind, fn, label='ex'):
        """specification: is there an element of the set with fn (a z3 condition)?  Forks; None or the witness"""
        dom = Dom('set', None, a=a, ekind=kind)
        if x.choose(2) == 0:
            w = x.fresh_int(label)
            x.assume(x.to_b(x.sel(a, w)))
            if kind: x.unit.instantiate(x, kind, w)
            x.assume(x.to_b(fn(x, w)))
            x.probe_facts(dom, w)
            return w
        for k in specials(x, dom): x.probe_facts(dom, k) if x.branch(x.to_b(x.sel(a, k))) else None
        x.add_forall(dom, lambda y, t: y.to_b(zb_not(y.to_b(fn(y, t)))))
        return None
    def sum_poly(x, dom, sp, e, p, conds=(), y=None):
        """sum over the domain without the special elements of a polynomial in the element e"""
        tot = ZERO
        base, sp2 = x.norm_dom(dom, sp)
        for m, c in sorted(p.items(), key=str):
            inv = ONE; z = None
            for a, ex in m:
                zt = expand(tm.ATOMS[a].z)
                if mentions(zt, e):
                    for _ in range(ex): z = zt if z is None else z * zt
                else:
                    for _ in range(ex): inv = inv * tm._mk('a', a)
            if z is None: z = z3.RealVal(1)
            pos = y is not None and not conds and len(consts_of(z)) < 12 and y.entails_light(z >= 0)
            z = z3.substitute(z, (e, BV))
            if conds:
                cc = z3.And([z3.substitute(expand(q), (e, BV)) for q in conds])
                z = z3.If(cc, z, z3.RealVal(0))
            sa = x.sum_atom(base, sp2, z)
            if pos: x.assume(tm.to_z3(sa) >= 0)
            tot = tot + const(c) * inv * sa
        return tot
    def norm_dom(x, dom, sp):
        """(canonical key of the domain, special members)"""
        if dom.kind == 'set':
            a = dom.a
            # drop the stores at special elements: they are taken out of the sum anyway
            while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and any(x.rep(k).eq(x.rep(a.arg(1))) for k in sp): a = a.arg(0)
            mem = []
            for k in sp:
                kk = x.rep(k)
                if any(kk.eq(m) for m in mem): continue
                if x.branch(x.to_b(x.sel(a, kk))): mem.append(kk)
            return ('set', a), mem
        mem = []
        for k in sp:
            if x.branch(z3.And(zi(dom.lo) <= zi(k), zi(k) < zi(dom.hi))): mem.append(zi(k))
        return ('index', z3.simplify(zi(dom.lo)), z3.simplify(zi(dom.hi))), mem
    def sum_atom(x, base, mem, z):
        """SUM over base minus mem of z[BV]; an index range over an enumeration becomes a sum over the enumerated set"""
        if base[0] == 'index':
            for (P, o, pos, n, kind) in x.enums.values():
                if z3.is_int_value(base[1]) and base[1].as_long() == 0 and base[2].eq(n):
                    zz = z3.substitute(z, (z3.Select(o, BV), BV + 0))
                    w = z3.Int('elem!bw')
                    z2 = subst_term(z, z3.Select(o, BV), w)
                    if not mentions(z2, BV):
                        z = subst_term(z2, w, BV); base = ('set', P)
                        mem = [x.rep(z3.Select(o, k)) for k in mem]
                    break
        if base[0] == 'set':
            a = base[1]
            for k in mem: a = z3.Store(a, k, z3.BoolVal(False))
            # canonical order of the exclusions
            ks = sorted(set(store_ids(a)))
            key = ('sum', set_base(a).get_id(), tuple(ks), z3.simplify(z).get_id())
        else: key = ('sum', 'ix', base[1].get_id(), base[2].get_id(), tuple(sorted(k.get_id() for k in mem)), z3.simplify(z).get_id())
        tab = x.unit.sum_tab
        if key not in tab:
            tab[key] = (atom(z3.Real('sum!%d' % len(tab))), z3.simplify(z), base, list(mem))
        return tab[key][0]
def store_ids(a):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        yield (a.arg(1).get_id(), z3.is_true(a.arg(2))); a = a.arg(0)
def subst_term(t, old, new): return z3.substitute(t, (old, new))

# ------------------------------------------------------------------ structural keys: equal keys => equal values
def skey(x, v, d=0):
    def zk(t):
        if isinstance(t, (int, bool)) or t is None: return t
        t = x.rep(t) if z3.is_int(t) else t
        if isinstance(t, int): return t
        t = z3.simplify(t); x.memo.setdefault('keepz', {})[t.get_id()] = t
        return ('z', t.get_id())
    if d > 40: raise Unsupported('structural key too deep')
    if isinstance(v, Fl):
        if v.k == 's': return ('s', zk(v.t[0]), skey(x, Fl('f', v.t[1])))
        if v.k != 'f': return v.k
        try: return ('p', tm.p_key(tm.poly(v.t)))
        except tm.Blowup: return ('t', v.t.id)
    if isinstance(v, tm.T): return skey(x, Fl('f', v))
    if isinstance(v, (VInt, VBool, VH)): return (type(v).__name__, zk(v.t))
    if isinstance(v, (VMat, VQuat)): return ('m',) + tuple(skey(x, c, d + 1) for c in v.m)
    if isinstance(v, VAgg): return ('g',) + tuple(skey(x, c, d + 1) for c in v.f)
    if isinstance(v, VEnum):
        if isinstance(v.tag, int): return ('e', v.tag) + tuple(skey(x, c, d + 1) for c in v.vs[v.tag])
        return ('E', zk(v.tag)) + tuple((k, tuple(skey(x, c, d + 1) for c in v.vs[k])) for k in sorted(v.vs))
    if isinstance(v, VDyn): return ('d', zk(v.tag)) + tuple((k, skey(x, v.im[k], d + 1)) for k in sorted(v.im) if not isinstance(v.tag, int) or k == v.tag)
    if isinstance(v, (VBox, VCell)): return skey(x, v.v, d + 1)
    if isinstance(v, VRef):
        try: t = x.load(v.root, v.path)
        except Unsupported: return ('&?', str(v.root), str(v.path))
        return ('&', skey(x, t, d + 1), skey(x, v.meta, d + 1))
    if isinstance(v, VGuard): return ('gd', skey(x, x.load(v.root, v.path), d + 1))
    if isinstance(v, VVec):
        if v.conc is not None: return ('v',) + tuple(skey(x, c, d + 1) for c in v.conc)
        return ('V', zk(v.n)) + tuple(zk(a) for a in v.el.arrs)
    if isinstance(v, VSet): return ('set', zk(v.a))
    if isinstance(v, VArena): return ('arena', zk(v.present), zk(v.issued)) + tuple(zk(a) for a in v.el.arrs)
    if isinstance(v, VIter): return ('it', v.kind) + tuple((k, skey(x, v.d[k], d + 1)) for k in sorted(v.d))
    if isinstance(v, Lifted): return ('L',) + tuple(zk(a) for a in v.arrs)
    if isinstance(v, VOpq): return ('o', v.name, zk(v.t)) if v.t is not None else ('o', v.name)
    if v is None or isinstance(v, (int, str, bool)): return v
    if isinstance(v, (tuple, list)): return tuple(skey(x, c, d + 1) for c in v)
    if z3.is_expr(v): return zk(v)
    return ('id', type(v).__name__, getattr(v, 'callee', None) and str(v.callee.get('def')))

def places(node):
    """all place dictionaries in a statement / terminator"""
    if isinstance(node, dict):
        if 'l' in node and 'p' in node: yield node
        else:
            for v in node.values(): yield from places(v)
    elif isinstance(node, list):
        for v in node: yield from places(v)
from prog import succs
def opaque_loop(x, f, fid, bb, body):
    """a loop as an uninterpreted function of everything it reads: safe Rust without interior mutability is deterministic,
    so equal inputs give equal outputs.  Nothing else is claimed about the loop (in particular not that it does not panic)."""
    mentioned = set(); assigned = set(); mutref = set()
    for b in sorted(body):
        bl = f['blocks'][b]
        for st in bl['st']:
            for pl in places(st): mentioned.add(pl['l'])
            if st['s'] in ('assign', 'setdiscr'): assigned.add(st['pl']['l'])
            if st['s'] == 'assign' and st['rv']['r'] in ('ref', 'addr') and st['rv'].get('mut') and not any(e[0] == 'd' for e in st['rv']['pl']['p']): mutref.add(st['rv']['pl']['l'])
        t = bl['term']
        for pl in places(t): mentioned.add(pl['l'])
        if 'dest' in t: assigned.add(t['dest']['l'])
    ins = sorted(l for l in mentioned if (fid, l) in x.store)
    key = ('opaque', f['key'], bb, tuple((l, skey(x, x.store[(fid, l)])) for l in ins))
    # locations the loop may change: assigned locals, borrowed locals, and whatever mutable references it mentions point at
    roots = set((fid, l) for l in assigned | mutref)
    for l in ins:
        for r in mut_targets(x, x.store[(fid, l)]): roots.add(r)
    n = [0]
    res = x.memo.get(key)
    if res is None:
        res = {'n': len(x.memo), 'v': {}}; x.memo[key] = res
    order = sorted((r for r in roots if r in x.store or r[0] == fid), key=lambda r: (r[0] != fid, str(r)))
    for i, r in enumerate(order):
        old = x.store.get(r)
        ty = f['locals'][r[1]] if r[0] == fid else None
        if i not in res['v']:
            res['v'][i] = havoc_value(x, old, ty, 'lp%d' % res['n'])
        nv = res['v'][i]
        if nv is None: x.store.pop(r, None)
        else: x.store[r] = nv
    exits = []
    for b in sorted(body):
        for s in succs(f['blocks'][b]['term']):
            if s not in body and f['blocks'][s]['term']['t'] != 'unreachable' and s not in exits: exits.append(s)
    if len(exits) == 1: return exits[0]
    if 'exit' not in res: res['exit'] = exits[x.choose(len(exits))]
    x.note('loop in %s taken as an uninterpreted function of its inputs' % f['name'].split('::')[-1])
    return res['exit']
def mut_targets(x, v, d=0):
    if d > 6: return
    if isinstance(v, VRef):
        if v.mut:
            yield v.root
            try: t = x.load(v.root, v.path)
            except Unsupported: return
            yield from mut_targets(x, t, d + 1)
    elif isinstance(v, VAgg):
        for c in v.f: yield from mut_targets(x, c, d + 1)
    elif isinstance(v, VEnum):
        for k in v.vs:
            for c in v.vs[k]: yield from mut_targets(x, c, d + 1)
    elif isinstance(v, VIter):
        for c in v.d.values(): yield from mut_targets(x, c, d + 1)
def havoc_value(x, old, ty, base):
    if isinstance(old, (VRef, VIter, VGuard)): return None
    if ty is not None:
        try: return x.fresh(x.prog.tpl(ty), base)
        except Unsupported: return None
    if isinstance(old, VAgg) and old.tid is not None: return x.fresh(x.prog.tpl(old.tid), base)
    if isinstance(old, VEnum) and old.tid is not None: return x.fresh(x.prog.tpl(old.tid), base)
    raise Unsupported('loop changes a location of unknown type: %s %r' % (base, old))
