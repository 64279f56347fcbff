"""Symbolic values, type-driven templates (flatten / rebuild), paths into values."""
import z3
import terms as tm
from terms import T, ZERO, ONE, const, atom

class Unsupported(Exception):
    pass

IntS = z3.IntSort(); BoolS = z3.BoolSort(); RealS = z3.RealSort()

# ------------------------------------------------------------------ values
class Fl:
    """float: k in 'f' (finite real t), 'n' nan, '+' +inf, '-' -inf, 's' (symbolic class: t=(cls Int, val T))"""
    __slots__ = ('k', 't')
    def __init__(s, k, t=None): s.k = k; s.t = t
    def __repr__(s): return {'f': lambda: repr(s.t), 's': lambda: 'S%r' % (s.t,)}.get(s.k, lambda: s.k)()
FIN, NAN_, PINF, NINF = 0, 1, 2, 3
KCLS = {'f': 0, 'n': 1, '+': 2, '-': 3}
def fin(t): return Fl('f', tm.lift(t))
NAN = Fl('n'); INF = Fl('+'); MINF = Fl('-')

class VInt:
    __slots__ = ('t', 'bits', 'signed')
    def __init__(s, t, bits=64, signed=False): s.t = t; s.bits = bits; s.signed = signed
    def __repr__(s): return 'i:%s' % (s.t,)
class VBool:
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __repr__(s): return 'b:%s' % (s.t,)
class VH:
    """generational_arena::Index"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __repr__(s): return 'h:%s' % (s.t,)
class VAgg:
    """struct / tuple / closure / fixed array; g: ghost annotations carried along"""
    __slots__ = ('f', 'tid', 'g')
    def __init__(s, f, tid=None, g=None): s.f = tuple(f); s.tid = tid; s.g = g
    def __repr__(s): return 'A%r' % (s.f,)
class VEnum:
    __slots__ = ('tag', 'vs', 'tid')
    def __init__(s, tag, vs, tid=None): s.tag = tag; s.vs = vs; s.tid = tid
    def __repr__(s): return 'E<%s>%r' % (s.tag, s.vs)
class VMat:
    """column-major components"""
    __slots__ = ('r', 'c', 'm')
    def __init__(s, r, c, m): s.r = r; s.c = c; s.m = tuple(m)
    def __repr__(s): return 'M%dx%d%r' % (s.r, s.c, s.m)
    def at(s, i, j): return s.m[j * s.r + i]
class VQuat:
    """components i j k w; unit: known to have norm one"""
    __slots__ = ('m', 'unit')
    def __init__(s, m, unit=True): s.m = tuple(m); s.unit = unit
    def __repr__(s): return 'Q%r' % (s.m,)
class VRef:
    __slots__ = ('root', 'path', 'meta', 'mut')
    def __init__(s, root, path=(), meta=None, mut=False): s.root = root; s.path = tuple(path); s.meta = meta; s.mut = mut
    def __repr__(s): return '&%s%s' % (s.root, list(s.path))
class VBox:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'Box(%r)' % (s.v,)
class VDyn:
    """Box<dyn InternalCollider> content: tag + payload per implementing type"""
    __slots__ = ('tag', 'im')
    def __init__(s, tag, im): s.tag = tag; s.im = im
    def __repr__(s): return 'Dyn<%s>%r' % (s.tag, list(s.im))
class VOpq:
    __slots__ = ('t', 'name')
    def __init__(s, name='opaque', t=None): s.name = name; s.t = t
    def __repr__(s): return '?%s' % s.name
class VCell:
    __slots__ = ('v', 'flag')
    def __init__(s, v, flag=0): s.v = v; s.flag = flag
    def __repr__(s): return 'Cell[%s](%r)' % (s.flag, s.v)
class VGuard:
    """Ref / RefMut on the cell at (root, path)"""
    __slots__ = ('root', 'path', 'mut', 'live')
    def __init__(s, root, path, mut): s.root = root; s.path = path; s.mut = mut
    def __repr__(s): return 'Guard%s' % (s.path,)
class VSet:
    __slots__ = ('a',)
    def __init__(s, a): s.a = a
    def __repr__(s): return 'Set(%s)' % str(s.a)[:60]
class VBag(VSet):
    """the elements of a worklist, without their order and multiplicity"""
    __slots__ = ()
class Lifted:
    """arrays Int -> leaf, one per leaf of the template"""
    __slots__ = ('tpl', 'arrs')
    def __init__(s, tpl, arrs): s.tpl = tpl; s.arrs = tuple(arrs)
class VVec:
    """n: python int or z3 Int.  Either conc (tuple of values) or el (Lifted)."""
    __slots__ = ('n', 'conc', 'el', 'tpl')
    def __init__(s, n, conc=None, el=None, tpl=None): s.n = n; s.conc = conc; s.el = el; s.tpl = tpl
    def __repr__(s): return 'Vec[%s]%s' % (s.n, s.conc if s.conc is not None else '')
class VArena:
    __slots__ = ('present', 'issued', 'el', 'kind')
    def __init__(s, present, issued, el, kind): s.present = present; s.issued = issued; s.el = el; s.kind = kind
    def __repr__(s): return 'Arena<%s>' % s.kind
class VIter:
    __slots__ = ('kind', 'd')
    def __init__(s, kind, **d): s.kind = kind; s.d = d
    def __repr__(s): return 'Iter<%s>%r' % (s.kind, s.d)
    def with_(s, **kw):
        d = dict(s.d); d.update(kw)
        return VIter(s.kind, **d)
UNIT = VAgg(())

# ------------------------------------------------------------------ templates
# node kinds: ('F',) finite float ; ('X',) extended float ; ('I',bits,signed) ; ('B',) ; ('H',)
#  ('agg', [tpl], tid) ; ('enum', {variant: [tpl]}, tid) ; ('mat', r, c) ; ('quat', unit) ; ('vec', tpl) ; ('set',)
#  ('dyn', {tag: tpl}) ; ('box', tpl) ; ('opq', name) ; ('arena', tpl, kind) ; ('cell', tpl)

def arr_sort(s): return z3.ArraySort(IntS, s)

def leaf_sorts(t):
    k = t[0]
    if k == 'F': return [RealS]
    if k == 'X': return [IntS, RealS]
    if k in ('I', 'H'): return [IntS]
    if k == 'B': return [BoolS]
    if k == 'agg': return [s for x in t[1] for s in leaf_sorts(x)]
    if k == 'enum': return [IntS] + [s for v in sorted(t[1]) for x in t[1][v] for s in leaf_sorts(x)]
    if k == 'dyn': return [IntS] + [s for v in sorted(t[1]) for s in leaf_sorts(t[1][v])]
    if k == 'mat': return [RealS] * (t[1] * t[2])
    if k == 'quat': return [RealS] * 4
    if k == 'vec': return [IntS] + [arr_sort(s) for s in leaf_sorts(t[1])]
    if k == 'set': return [arr_sort(BoolS)]
    if k in ('box', 'cell'): return leaf_sorts(t[1])
    if k == 'opq': return [IntS]
    if k == 'arena': return [arr_sort(BoolS), arr_sort(BoolS)] + [arr_sort(s) for s in leaf_sorts(t[1])]
    raise Unsupported('leaf_sorts %s' % (t,))

class Rebuild:
    """rebuild a value of template t from an iterator of leaf z3 terms"""
    def __init__(s, ctx): s.ctx = ctx
    def __call__(s, t, it):
        k = t[0]
        if k == 'F': return Fl('f', atom(next(it)))
        if k == 'X':
            c = next(it); v = next(it)
            if z3.is_int_value(c):
                n = c.as_long()
                return [Fl('f', atom(v)), NAN, INF, MINF][n]
            return Fl('s', (c, atom(v)))
        if k == 'I':
            v = next(it)
            return VInt(v.as_long() if z3.is_int_value(v) else v, t[1], t[2])
        if k == 'H': return VH(next(it))
        if k == 'B':
            v = next(it)
            return VBool(True if z3.is_true(v) else False if z3.is_false(v) else v)
        if k == 'agg': return VAgg([s(x, it) for x in t[1]], t[2])
        if k == 'enum':
            tag = next(it)
            vs = {v: tuple(s(x, it) for x in t[1][v]) for v in sorted(t[1])}
            if z3.is_int_value(tag):
                n = tag.as_long()
                return VEnum(n, {n: vs[n]}, t[2])
            return VEnum(tag, vs, t[2])
        if k == 'dyn':
            tag = next(it)
            return VDyn(tag.as_long() if z3.is_int_value(tag) else tag, {v: s(t[1][v], it) for v in sorted(t[1])})
        if k == 'mat': return VMat(t[1], t[2], [Fl('f', atom(next(it))) for _ in range(t[1] * t[2])])
        if k == 'quat':
            q = [atom(next(it)) for _ in range(4)]
            if t[1] and s.ctx is not None: s.ctx.unit_quat(q)
            return VQuat([Fl('f', x) for x in q], t[1])
        if k == 'vec':
            n = next(it)
            arrs = [next(it) for _ in leaf_sorts(t[1])]
            if s.ctx is not None and not z3.is_int_value(n): s.ctx.vec_len(n)
            return VVec(n.as_long() if z3.is_int_value(n) else n, None, Lifted(t[1], arrs), t[1])
        if k == 'set': return VSet(next(it))
        if k == 'box': return VBox(s(t[1], it))
        if k == 'cell': return VCell(s(t[1], it))
        if k == 'opq': return VOpq(t[1], next(it))
        if k == 'arena':
            p = next(it); i = next(it)
            return VArena(p, i, Lifted(t[1], [next(it) for _ in leaf_sorts(t[1])]), t[2])
        raise Unsupported('rebuild %s' % (t,))

def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def vec_to_lifted(ctx, v, tpl):
    """array representation of a concrete-length vector"""
    if v.el is not None: return v.el.arrs
    sorts = leaf_sorts(tpl)
    arrs = [ctx.fresh_arr(s) for s in sorts]
    for i, x in enumerate(v.conc):
        for j, l in enumerate(flatten(ctx, tpl, x)):
            if l is not None: arrs[j] = z3.Store(arrs[j], z3.IntVal(i), l)
    return arrs

def flatten(ctx, t, v):
    """leaf z3 terms (None = don't care)"""
    k = t[0]
    if k == 'F':
        v = ctx.conc(v)
        if v.k != 'f':
            ctx.nonfinite_store(v)
            return [tm.to_z3(atom(ctx.fresh_real('junk')))]
        return [tm.to_z3(v.t)]
    if k == 'X':
        if v.k == 's': return [v.t[0], tm.to_z3(v.t[1])]
        return [z3.IntVal(KCLS[v.k]), tm.to_z3(v.t) if v.k == 'f' else None]
    if k == 'I': return [zi(v.t)]
    if k == 'H': return [v.t]
    if k == 'B': return [zb(v.t)]
    if k == 'agg':
        return [l for x, y in zip(t[1], v.f) for l in flatten(ctx, x, y)]
    if k == 'enum':
        out = [zi(v.tag)]
        for var in sorted(t[1]):
            if var in v.vs:
                for x, y in zip(t[1][var], v.vs[var]): out += flatten(ctx, x, y)
            else: out += [None] * sum(len(leaf_sorts(x)) for x in t[1][var])
        return out
    if k == 'dyn':
        out = [zi(v.tag)]
        for var in sorted(t[1]):
            if var in v.im: out += flatten(ctx, t[1][var], v.im[var])
            else: out += [None] * len(leaf_sorts(t[1][var]))
        return out
    if k == 'mat': return [x for y in v.m for x in flatten(ctx, ('F',), y)]
    if k == 'quat': return [x for y in v.m for x in flatten(ctx, ('F',), y)]
    if k == 'vec': return [zi(v.n)] + list(vec_to_lifted(ctx, v, t[1]))
    if k == 'set': return [v.a]
    if k in ('box', 'cell'): return flatten(ctx, t[1], v.v)
    if k == 'opq': return [v.t if v.t is not None else ctx.fresh_int('opq')]
    if k == 'arena': return [v.present, v.issued] + list(v.el.arrs)
    raise Unsupported('flatten %s' % (t,))
