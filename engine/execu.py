"""MIR interpreter over symbolic values."""
import re, struct, z3
from fractions import Fraction
import terms as tm
from terms import T, atom, const, ZERO, ONE
from vals import *
from ctx import *
from prog import norm_name, strip_generics, TAGS

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

_SEL = {}
_RB = {}
def mkselect(a, i):
    k = (a.get_id(), i.get_id())
    r = _SEL.get(k)
    if r is None:
        if len(_SEL) > 200000: _SEL.clear()
        r = _SEL[k] = (z3.Select(a, i), a, i)
    return r[0]
_PLAIN = {}
def plain(a):
    i = a.get_id()
    r = _PLAIN.get(i)
    if r is None:
        if len(_PLAIN) > 100000: _PLAIN.clear()
        r = _PLAIN[i] = (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED, a)
    return r[0]
class LenRec:
    """collects the facts a rebuilt value comes with"""
    def __init__(s, lens): s.lens = lens
    def unit_quat(s, q): Ctx.unit_quat(s, q)
    def vec_len(s, n): s.lens.append(n)
class Call:
    __slots__ = ('args', 'atys', 'dty', 'name', 'mname', 'shead', 'fty', 'x')
    pass

class Machine(Ctx):
    capture = None
    # ------------------------------------------------------------ memory
    def new_root(x, v, base='h'):
        x.nframe += 1
        r = (base, x.nframe)
        x.store[r] = v
        return r
    def temp(x, v, mut=False):
        return VRef(x.new_root(v), (), None, mut)
    def load(x, root, path):
        try: v = x.store[root]
        except KeyError: raise Unsupported('read of uninitialised %s in %s' % (root, x.where))
        for n, e in enumerate(path):
            v = x.get1(v, e)
        return v
    def get1(x, v, e):
        k = e[0]
        if k == 'f':
            if isinstance(v, VAgg): return v.f[e[1]]
            if isinstance(v, VMat): return v.m[e[1]]
            if isinstance(v, VQuat): return v.m[e[1]]
            if isinstance(v, VGuard) or isinstance(v, VOpq): return VOpq('field')
            raise Unsupported('field %s of %r' % (e[1], type(v).__name__))
        if k == 'v':
            if isinstance(v, VEnum):
                if e[1] not in v.vs: raise Unsupported('variant %s of %r' % (e[1], v))
                return VAgg(v.vs[e[1]])
            raise Unsupported('variant of %r' % v)
        if k == 'a':
            return x.rebuild_at(v.el, e[1])
        if k == 'e':
            if isinstance(v, VVec):
                if v.conc is not None:
                    i = x.rep(e[1]) if not isinstance(e[1], int) else e[1]
                    if not isinstance(i, int):
                        i = x.pick_index(i, len(v.conc))
                    return v.conc[i]
                return x.rebuild_at(v.el, zi(e[1]))
            if isinstance(v, VAgg):
                i = e[1]
                if not isinstance(i, int): i = x.pick_index(i, len(v.f))
                return v.f[i]
            if isinstance(v, VMat):
                i = e[1]
                if not isinstance(i, int): i = x.pick_index(i, len(v.m))
                return v.m[i]
            raise Unsupported('element of %r' % v)
        if k == 'box': return v.v
        if k == 'cell': return v.v
        if k == 'impl': return v.im[e[1]]
        raise Unsupported('projection %s' % (e,))
    def set1(x, v, e, new):
        k = e[0]
        if k == 'f':
            if isinstance(v, VAgg): return VAgg(v.f[:e[1]] + (new,) + v.f[e[1] + 1:], v.tid, v.g)
            if isinstance(v, VMat): return VMat(v.r, v.c, v.m[:e[1]] + (new,) + v.m[e[1] + 1:])
            if isinstance(v, VQuat): return VQuat(v.m[:e[1]] + (new,) + v.m[e[1] + 1:], False)
            raise Unsupported('set field of %r' % v)
        if k == 'v':
            d = dict(v.vs); d[e[1]] = new.f
            return VEnum(v.tag, d, v.tid)
        if k == 'a':
            return VArena(v.present, v.issued, x.write_at(v.el, e[1], new), v.kind)
        if k == 'e':
            i = e[1]
            if isinstance(v, VVec):
                if v.conc is not None:
                    if not isinstance(i, int): i = x.pick_index(i, len(v.conc))
                    return VVec(v.n, v.conc[:i] + (new,) + v.conc[i + 1:], None, v.tpl)
                return VVec(v.n, None, x.write_at(v.el, zi(i), new), v.tpl)
            if not isinstance(i, int): i = x.pick_index(i, len(v.f) if isinstance(v, VAgg) else len(v.m))
            return x.set1(v, ('f', i), new)
        if k == 'box': return VBox(new)
        if k == 'cell': return VCell(new, v.flag)
        if k == 'impl':
            d = dict(v.im); d[e[1]] = new
            return VDyn(v.tag, d)
        raise Unsupported('set projection %s' % (e,))
    def store_to(x, root, path, val):
        if not path:
            x.store[root] = val; return
        vs = [x.store[root]]
        for e in path[:-1]: vs.append(x.get1(vs[-1], e))
        new = val
        for v, e in zip(reversed(vs), reversed(path)): new = x.set1(v, e, new)
        x.store[root] = new
    def pick_index(x, i, n):
        for k in range(n):
            if x.is_eq(i, k): return k
        raise Infeasible()
    # arrays
    def sel(x, arr, idx):
        while True:
            d = arr.decl().kind() if z3.is_app(arr) else None
            if d == z3.Z3_OP_STORE:
                a, i, v = arr.arg(0), arr.arg(1), arr.arg(2)
                if x.is_eq(i, idx): return v
                arr = a; continue
            if d == z3.Z3_OP_CONST_ARRAY: return arr.arg(0)
            if z3.is_quantifier(arr) and arr.is_lambda():
                return z3.simplify(z3.substitute_vars(arr.body(), zi(idx)))
            if d == z3.Z3_OP_ITE: return x.sel(arr.arg(1), idx) if x.branch(arr.arg(0)) else x.sel(arr.arg(2), idx)
            if d == z3.Z3_OP_SELECT:
                # select into an array of arrays: simplify the inner selection first
                inner = x.sel(arr.arg(0), arr.arg(1))
                if not inner.eq(arr): arr = inner; continue
            r = mkselect(arr, zi(x.rep(idx)))
            if arr.get_id() in x.enums: return x.enum_elem(arr, zi(x.rep(idx)), r)
            if x.set_inv and d == z3.Z3_OP_SELECT: x.set_elem(arr, zi(x.rep(idx)), r)
            return r
    def enum_elem(x, arr, idx, r):
        """element of an enumeration of a set"""
        P, o, pos, n, kind = x.enums[arr.get_id()]
        if z3.is_app(idx) and idx.decl().kind() == z3.Z3_OP_SELECT and idx.arg(0).eq(pos):
            h = x.rep(idx.arg(1))
            if x.entails_light(x.nosel(P, h)): return h
        k = ('enumel', r.get_id())
        if k not in x.memo:
            x.memo[k] = r
            x.assume(z3.Implies(z3.And(0 <= idx, idx < n), z3.And(x.nosel(P, r), z3.Select(pos, r) == idx)))
        return r
    def set_elem(x, arr, e, r):
        """membership in a set held in an array of sets: facts known about all elements of those sets"""
        B, h = arr.arg(0), arr.arg(1)
        fs = x.set_inv.get(B.get_id())
        if not fs: return
        k = ('setel', r.get_id())
        if k in x.memo: return
        x.memo[k] = r
        for n, fn in fs: x.assume(z3.Implies(r, x.to_b(fn(x, h, e))))
    def rebuild_at(x, el, idx):
        i = zi(x.rep(idx))
        k = ('rebuilt', tuple(a.get_id() for a in el.arrs), i.get_id(), id(el.tpl))
        m = x.memo.get(k)
        if m is not None: return m[0]
        if any(not plain(a) or a.get_id() in x.enums for a in el.arrs):
            leaves = [x.sel(a, idx) for a in el.arrs]
            i = zi(x.rep(idx))          # selecting may have decided equalities
            v = x.rb(el.tpl, iter(leaves))
        else:
            c = _RB.get(k)
            if c is None:
                lens = []
                y = LenRec(lens)
                v = Rebuild(y)(el.tpl, iter([mkselect(a, i) for a in el.arrs]))
                if len(_RB) > 20000: _RB.clear()
                c = _RB[k] = (v, lens, el, i)
            v = c[0]
            for n in c[1]: x.vec_len(n)
        x.memo[k] = (v, el, i)
        return v
    def write_at(x, el, idx, val):
        leaves = flatten(x, el.tpl, val)
        out = []
        for a, l in zip(el.arrs, leaves):
            if l is None: out.append(a); continue
            cur = x.sel(a, idx)
            if cur.eq(l): out.append(a); continue
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and x.is_eq(a.arg(1), idx): a = a.arg(0)
            out.append(z3.Store(a, zi(x.rep(idx)), l))
        return Lifted(el.tpl, out)
    # ------------------------------------------------------------ refs helper
    def deref(x, v):
        """follow references to a value"""
        while isinstance(v, VRef): v = x.load(v.root, v.path)
        return v
    def deref_box(x, v):
        while True:
            if isinstance(v, VRef): v = x.load(v.root, v.path)
            elif isinstance(v, VBox): v = v.v
            else: return v
    def ref_target(x, r):
        """innermost reference (through refs to refs)"""
        while True:
            v = x.load(r.root, r.path)
            if isinstance(v, VRef): r = v
            else: return r, v
    # ------------------------------------------------------------ places
    def place(x, fid, pl):
        root = (fid, pl['l']); path = ()
        meta = None
        boxptr = False
        for e in pl['p']:
            k = e[0]
            if k == 'd':
                v = x.load(root, path)
                if boxptr: boxptr = False; continue
                if isinstance(v, VRef): root, path, meta = v.root, v.path, v.meta
                elif isinstance(v, VBox): path = path + (('box',),)
                elif isinstance(v, VDyn): pass
                elif isinstance(v, VOpq): root = x.new_root(VOpq(v.name + '*')); path = ()
                else: raise Unsupported('deref of %r in %s' % (type(v).__name__, x.where))
            elif k == 'f':
                if boxptr: continue
                v = x.load(root, path)
                if isinstance(v, (VBox, VDyn)) : boxptr = True; continue
                if isinstance(v, VRef): root, path = v.root, v.path; boxptr = True; continue
                path = path + (('f', e[1]),)
            elif k == 'v': path = path + (('v', e[1]),)
            elif k == 'i':
                i = x.store[(fid, e[1])].t
                path = path + (('e', x.off(meta, i)),); meta = None
            elif k == 'c':
                path = path + (('e', x.off(meta, e[1])),); meta = None
                if e[3]: raise Unsupported('constant index from end')
            elif k == 'o': pass
            else: raise Unsupported('place projection %s' % (e,))
        return root, path, meta, boxptr
    def off(x, meta, i):
        if meta and meta[0] == 'slice' and not (isinstance(meta[1], int) and meta[1] == 0):
            return meta[1] + i
        return i
    def read_place(x, fid, pl):
        root, path, meta, bp = x.place(fid, pl)
        if bp: return VRef(root, path, None, True)      # the pointer inside a box
        return x.load(root, path)
    # ------------------------------------------------------------ operands / rvalues
    def operand(x, fid, o):
        k = o['k']
        if k == 'copy':
            root, path, meta, bp = x.place(fid, o['pl'])
            if bp: return VRef(root, path, None, True)
            v = x.load(root, path)
            return VRef(root, path, None, True) if isinstance(v, (VBox, VDyn)) else v      # copying a box is how a reborrow through it starts
        if k == 'move': return x.read_place(fid, o['pl'])
        if k == 'const': return x.constant(o['v'], o['ty'])
        if k == 'rtcheck': return VBool(False)
        raise Unsupported('operand %s' % k)
    def passed(x, fid, o):
        # a box copied whole into an aggregate or an argument is a move (optimised MIR of the standard library)
        if o['k'] == 'copy' and not o['pl']['p'] and isinstance(x.store.get((fid, o['pl']['l'])), (VBox, VDyn)):
            return x.store[(fid, o['pl']['l'])]
        return x.operand(fid, o)
    def constant(x, v, ty):
        t = x.prog.types[ty] if ty is not None else {}
        if 'int' in v:
            return VInt(int(v['int']), t.get('bits', 64), t.get('signed', False))
        if 'float' in v: return x.fconst(v)
        if 'bool' in v: return VBool(bool(v['bool']))
        if 'fn' in v: return VOpq('fn', None) if False else FnV(v['fn'])
        if 'zst' in v:
            if t['k'] == 'fndef': return FnV(t['callee'])
            if t['k'] == 'closure': return VAgg((), ty)
            return VAgg((), ty)
        if 'str' in v: return VOpq('str')
        if 'ref' in v:
            inner = v['ref']
            to = t.get('to')
            try: return x.temp(x.constant(inner, to) if isinstance(inner, dict) else VOpq('constref'))
            except (Unsupported, TypeError, KeyError): return VOpq('constref')
        if 'array' in v:
            el = t.get('elem')
            return VAgg([x.constant(a, el) for a in v['array']], ty)
        if 'agg' in v:
            return x.agg_const(v, ty)
        return VOpq('const')
    def agg_const(x, v, ty):
        t = x.prog.types[ty]
        if t['k'] == 'tuple': return VAgg([x.constant(a, e) for a, e in zip(v['fields'], t['elems'])], ty)
        if t['k'] == 'adt':
            var = v['agg'] if isinstance(v['agg'], int) else 0
            fts = t['variants'][var]['fields']
            fs = [x.constant(a, e[1]) for a, e in zip(v['fields'], fts)]
            if t['adt'] == 'enum': return VEnum(var, {var: tuple(fs)}, ty)
            return VAgg(fs, ty)
        return VOpq('const')
    def fconst(x, v):
        b = int(v['float'])
        if v.get('bits') == 64:
            f = struct.unpack('<d', struct.pack('<Q', b))[0]; r = repr(f)
        else:
            import numpy as np
            f = struct.unpack('<f', struct.pack('<I', b))[0]; r = str(np.float32(f))
        if f != f: return NAN
        if f in (float('inf'), float('-inf')): return INF if f > 0 else MINF
        return fin(Fraction(r))
    def rvalue(x, fid, r, f):
        k = r['r']
        if k == 'use': return x.operand(fid, r['a'])
        if k in ('ref', 'addr'):
            root, path, meta, bp = x.place(fid, r['pl'])
            if bp: return VRef(root, path, None, True)
            last = r['pl']['p'][-1] if r['pl']['p'] else None
            return VRef(root, path, meta if last and last[0] == 'd' else None, r.get('mut', False))
        if k == 'agg': return x.aggregate(fid, r)
        if k == 'bin': return x.binop(r['op'], x.operand(fid, r['a']), x.operand(fid, r['b']))
        if k == 'cbin': return x.cbinop(r['op'], x.operand(fid, r['a']), x.operand(fid, r['b']))
        if k == 'un': return x.unop(r['op'], x.operand(fid, r['a']))
        if k == 'discr': return x.discr(x.read_place(fid, r['pl']), r['of'])
        if k == 'cast': return x.cast(fid, r)
        if k == 'len':
            root, path, meta, bp = x.place(fid, r['pl'])
            v = x.load(root, path)
            if meta and meta[0] == 'slice': return VInt(meta[2])
            return VInt(x.seq_len(v))
        if k == 'repeat':
            n = int(r.get('n', r.get('len', 0)))
            v = x.operand(fid, r['a'])
            return VAgg([v] * n)
        raise Unsupported('rvalue %s' % k)
    def seq_len(x, v):
        if isinstance(v, VVec): return v.n
        if isinstance(v, VAgg): return len(v.f)
        raise Unsupported('length of %r' % v)
    def aggregate(x, fid, r):
        ops = [x.passed(fid, o) for o in r['ops']]
        a = r['agg']
        if a in ('tuple', 'array', 'closure'): return VAgg(ops, r.get('ty'))
        if a == 'adt':
            t = x.prog.types[r['ty']]
            if t['adt'] == 'enum': return VEnum(r['variant'], {r['variant']: tuple(ops)}, r['ty'])
            return VAgg(ops, r['ty'])
        if a == 'rawptr':
            p = ops[0]
            return p
        raise Unsupported('aggregate %s' % a)
    def discr(x, v, of):
        t = x.prog.types[of] if of is not None else None
        if isinstance(v, VEnum):
            if t and t['k'] == 'adt':
                ds = [int(q['discr']) for q in t['variants']]
                if ds != list(range(len(ds))):
                    if isinstance(v.tag, int): return VInt(ds[v.tag])
                    e = zi(ds[-1])
                    for n in range(len(ds) - 1): e = z3.If(v.tag == n, zi(ds[n]), e)
                    return VInt(e)
            return VInt(v.tag)
        if isinstance(v, VOpq): raise Unsupported('discriminant of opaque %s in %s' % (v.name, x.where))
        return VInt(0)
    def cast(x, fid, r):
        v = x.operand(fid, r['a'])
        kind = r['kind']; ty = x.prog.types[r['ty']]; frm = x.prog.types[r['from']]
        if 'Unsize' in kind and r['ty'] == r['from']: return v
        if isinstance(v, VInt):
            if ty['k'] == 'int':
                lo, hi = int_range(ty['bits'], ty['signed'])
                if isinstance(v.t, int):
                    m = v.t & ((1 << ty['bits']) - 1)
                    if ty['signed'] and m > hi: m -= 1 << ty['bits']
                    return VInt(m, ty['bits'], ty['signed'])
                slo, shi = int_range(v.bits, v.signed)
                if lo <= slo and shi <= hi: return VInt(v.t, ty['bits'], ty['signed'])
                if x.branch(z3.And(v.t >= lo, v.t <= hi)): return VInt(v.t, ty['bits'], ty['signed'])
                m = v.t % (1 << ty['bits'])
                if ty['signed']: m = z3.If(m > hi, m - (1 << ty['bits']), m)
                return VInt(m, ty['bits'], ty['signed'])
            if ty['k'] == 'float':
                return fin(v.t) if isinstance(v.t, int) else Fl('f', atom(z3.ToReal(v.t)))
        if isinstance(v, Fl):
            if ty['k'] == 'float': return v
            if ty['k'] == 'int': raise Unsupported('float to int cast')
        if isinstance(v, VBool) and ty['k'] == 'int':
            return VInt(int(v.t), ty['bits'], ty['signed']) if isinstance(v.t, bool) else VInt(z3.If(v.t, 1, 0), ty['bits'], ty['signed'])
        if isinstance(v, VRef):
            # unsizing to a slice / dyn, pointer casts
            to = ty.get('to')
            tt = x.prog.types[to] if to is not None else {}
            if tt.get('k') == 'slice':
                tgt = x.load(v.root, v.path)
                return VRef(v.root, v.path, ('slice', 0, x.seq_len(tgt)), v.mut)
            return v
        if isinstance(v, VBox):
            # Box<T> -> Box<dyn InternalCollider>
            if ty['k'] == 'adt' and 'dyn' in ty['disp']:
                inner = v.v
                if 'InternalCollider' in ty['disp']:
                    fa = x.prog.types[frm['args'][0]]
                    m = re.match(r'.*Internal(\w+)Collider$', fa['name'])
                    tag = TAGS.index(m.group(1))
                    return VDyn(tag, {tag: inner})
                return v if isinstance(inner, VOpq) else VBox(VOpq(ty['disp'], x.fresh_int('box')))
            return v
        if isinstance(v, VEnum):
            if ty['k'] == 'int': return x.discr(v, r['from'])
            # transmute between layouts (e.g. MaybeUninit) : identity
            return v
        return v
    # ------------------------------------------------------------ arithmetic
    def binop(x, op, a, b):
        if isinstance(a, Fl) and isinstance(b, Fl):
            if op == 'Add': return x.fadd(a, b)
            if op == 'Sub': return x.fsub(a, b)
            if op == 'Mul': return x.fmul(a, b)
            if op == 'Div': return x.fdiv(a, b)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'): return VBool(x.fcmp(op, a, b))
            raise Unsupported('float op ' + op)
        if isinstance(a, VBool) and isinstance(b, VBool):
            c = isinstance(a.t, bool) and isinstance(b.t, bool)
            p, q = a.t, b.t
            if op == 'BitAnd': return VBool((p and q) if c else z3.And(zb(p), zb(q)))
            if op == 'BitOr': return VBool((p or q) if c else z3.Or(zb(p), zb(q)))
            if op in ('BitXor', 'Ne'): return VBool((p != q) if c else z3.Xor(zb(p), zb(q)))
            if op == 'Eq': return VBool((p == q) if c else zb(p) == zb(q))
            if op == 'Lt': return VBool(z3.And(z3.Not(zb(p)), zb(q)))
            raise Unsupported('bool op ' + op)
        if isinstance(a, VInt) and isinstance(b, VInt):
            p, q = x.rep(a.t), x.rep(b.t)
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                f = {'Lt': lambda: p < q, 'Le': lambda: p <= q, 'Gt': lambda: p > q, 'Ge': lambda: p >= q, 'Eq': lambda: p == q, 'Ne': lambda: p != q}[op]
                return VBool(f())
            if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'Mul', 'MulUnchecked'):
                r = {'A': lambda: p + q, 'S': lambda: p - q, 'M': lambda: p * q}[op[0]]()
                lo, hi = int_range(a.bits, a.signed)
                if isinstance(r, int): return VInt((r - lo) % (1 << a.bits) + lo, a.bits, a.signed)
                if x.entails_light(z3.And(r >= lo, r <= hi)): return VInt(z3.simplify(r), a.bits, a.signed)
                if x.branch(z3.And(r >= lo, r <= hi)): return VInt(z3.simplify(r), a.bits, a.signed)
                return VInt((r - lo) % (1 << a.bits) + lo, a.bits, a.signed)
            if op in ('Div', 'Rem'):
                if isinstance(p, int) and isinstance(q, int) and not a.signed: return VInt(p // q if op == 'Div' else p % q, a.bits, a.signed)
                if a.signed: raise Unsupported('signed division')
                return VInt(zi(p) / zi(q) if op == 'Div' else zi(p) % zi(q), a.bits, a.signed)
            if isinstance(p, int) and isinstance(q, int):
                m = {'BitAnd': p & q, 'BitOr': p | q, 'BitXor': p ^ q}.get(op)
                if m is not None: return VInt(m, a.bits, a.signed)
            raise Unsupported('int op ' + op)
        if isinstance(a, VH) and isinstance(b, VH) and op in ('Eq', 'Ne'):
            e = x.is_eq(a.t, b.t)
            return VBool(e if op == 'Eq' else not e)
        if isinstance(a, VRef) and isinstance(b, VInt) and b.t == 0 and op in ('Eq', 'Ne'): return VBool(op == 'Ne')   # a reference is never null
        if isinstance(a, VRef) and isinstance(b, VInt) and op == 'BitAnd': return VInt(0)   # alignment check of a reference
        if isinstance(a, VRef) and isinstance(b, VRef) and op in ('Eq', 'Ne'):
            raise Unsupported('pointer comparison')
        if isinstance(a, VEnum) and isinstance(b, VEnum):
            return x.binop(op, VInt(a.tag), VInt(b.tag))
        raise Unsupported('binop %s on %s %s in %s' % (op, type(a).__name__, type(b).__name__, x.where))
    def cbinop(x, op, a, b):
        p, q = x.rep(a.t), x.rep(b.t)
        r = {'A': lambda: p + q, 'S': lambda: p - q, 'M': lambda: p * q}[op[0]]()
        lo, hi = int_range(a.bits, a.signed)
        if isinstance(r, int):
            ov = not (lo <= r <= hi)
            return VAgg([VInt((r - lo) % (1 << a.bits) + lo, a.bits, a.signed), VBool(ov)])
        r = z3.simplify(r)
        return VAgg([VInt(r, a.bits, a.signed), VBool(z3.Or(r < lo, r > hi))])
    def unop(x, op, a):
        if op == 'Not':
            if isinstance(a, VBool): return VBool(not a.t) if isinstance(a.t, bool) else VBool(z3.Not(a.t))
            raise Unsupported('bit not')
        if op == 'Neg':
            if isinstance(a, Fl): return x.fneg(a)
            if isinstance(a, VInt): return VInt(-a.t, a.bits, a.signed)
        if op == 'PtrMetadata':
            if isinstance(a, VRef):
                if a.meta and a.meta[0] == 'slice': return VInt(a.meta[2])
                return VInt(x.seq_len(x.load(a.root, a.path)))
        raise Unsupported('unop %s on %r' % (op, a))
    # ------------------------------------------------------------ functions
    def call_fn(x, f, args, extra=None):
        x.tick()
        if len(x.callstack) > 60: raise Unsupported('recursion depth in ' + f['name'])
        x.nframe += 1
        fid = x.nframe
        for i, a in enumerate(args): x.store[(fid, i + 1)] = a
        for i, a in (extra or {}).items(): x.store[(fid, i)] = a
        x.callstack.append(f['name'])
        try:
            r = x.run(f, fid, 0, None)
        finally:
            x.callstack.pop()
        ret = x.store.get((fid, 0), UNIT)
        if x.sub == 0 and False:
            pass
        return ret
    def run(x, f, fid, bb, loop):
        """execute from block bb.  loop=(header, body): stop on reaching the header again or leaving the body"""
        loops = x.prog.loops(f)
        blocks = f['blocks']
        first = True
        unroll = {}
        while True:
            x.tick()
            if not first and loop is not None:
                if bb == loop[0]: return ('back', bb)
                if bb not in loop[1]: return ('exit', bb)
            if bb in loops and not (first and loop is not None and bb == loop[0]):
                if bb in unroll:
                    unroll[bb] += 1
                    if unroll[bb] > x.unit.max_unroll: raise Unsupported('loop unrolled more than %d times in %s' % (x.unit.max_unroll, f['name']))
                    if not x.loop_concrete(f, fid, bb):
                        nb = x.do_loop(f, fid, bb, loops[bb])
                        del unroll[bb]
                        if nb is None: return ('ret', None)
                        bb = nb; first = False
                        continue
                elif x.loop_concrete(f, fid, bb):
                    unroll[bb] = 1
                else:
                    nb = x.do_loop(f, fid, bb, loops[bb])
                    if nb is None: return ('ret', None)
                    bb = nb; first = False
                    continue
            first = False
            for h in list(unroll):
                if bb not in loops[h]: del unroll[h]
            b = blocks[bb]
            x.where = '%s:%s' % (f['name'].split('::')[-1], b['line'])
            for st in b['st']:
                k = st['s']
                if k == 'assign':
                    pl = st['pl']
                    if x.capture is not None and x.capture == (fid, bb, pl['l']) and st['rv']['r'] == 'bin':
                        raise Captured([x.operand(fid, st['rv'][q]) for q in ('a', 'b')])
                    v = x.rvalue(fid, st['rv'], f)
                    if not pl['p']: x.store[(fid, pl['l'])] = v
                    else:
                        root, path, meta, bp = x.place(fid, pl)
                        x.store_to(root, path, v)
                elif k in ('live', 'dead'): pass
                elif k == 'assume':
                    v = x.operand(fid, st['a'])
                    x.assume(v.t)
                elif k == 'setdiscr':
                    root, path, meta, bp = x.place(fid, st['pl'])
                    v = x.load(root, path)
                    x.store_to(root, path, VEnum(st['v'], v.vs, v.tid))
                else: raise Unsupported('statement %s' % k)
            t = b['term']; k = t['t']
            if k == 'goto': bb = t['to']
            elif k == 'switch':
                v = x.operand(fid, t['a'])
                bb = x.switch(v, t)
            elif k == 'call':
                r = x.do_call(f, fid, t)
                root, path, meta, bp = x.place(fid, t['dest'])
                if t['to'] is None: raise Panic('diverging call', x.where)
                x.store_to(root, path, r)
                bb = t['to']
            elif k == 'drop':
                x.do_drop(fid, t)
                bb = t['to']
            elif k == 'assert':
                v = x.operand(fid, t['a'])
                c = v.t
                if not t['expected']: c = (not c) if isinstance(c, bool) else z3.Not(c)
                if not x.branch(c): raise Panic('assertion: %s' % (t.get('msg'),), x.where)
                bb = t['to']
            elif k == 'return': return ('ret', None)
            elif k == 'unreachable': raise Infeasible()
            else: raise Unsupported('terminator %s in %s' % (k, x.where))
    def switch(x, v, t):
        if isinstance(v, VBool):
            c = v.t
            tgt = {}
            for val, b in t['br']: tgt[int(val)] = b
            if isinstance(c, bool): return tgt.get(int(c), t['other'])
            # order the branches so that the first explored is the 'true' one
            if x.branch(c): return tgt.get(1, t['other'])
            return tgt.get(0, t['other'])
        c = x.rep(v.t)
        if isinstance(c, int):
            for val, b in t['br']:
                if int(val) == c: return b
            return t['other']
        for val, b in t['br']:
            if x.branch(c == int(val)): return b
        return t['other']
    def do_drop(x, fid, t):
        root, path, meta, bp = x.place(fid, t['pl'])
        try: v = x.load(root, path)
        except Unsupported: return
        x.drop_val(v)
    def drop_val(x, v):
        if isinstance(v, VGuard):
            c = x.load(v.root, v.path)
            n = c.flag + 1 if v.mut else c.flag - 1
            x.store_to(v.root, v.path, VCell(c.v, n))
        elif isinstance(v, VAgg):
            for y in v.f: x.drop_val(y)
        elif isinstance(v, VEnum):
            if isinstance(v.tag, int):
                for y in v.vs.get(v.tag, ()): x.drop_val(y)
    # ------------------------------------------------------------ calls
    def do_call(x, f, fid, t):
        fo = t['f']
        args = [x.operand(fid, a) for a in t['args']]
        if fo['k'] == 'const' and 'fn' in fo['v']:
            return x.invoke(fo['v']['fn'], args, t['atys'], t['dty'])
        fv = x.operand(fid, fo)
        if isinstance(fv, FnV): return x.invoke(fv.callee, args, t['atys'], t['dty'])
        raise Unsupported('indirect call in %s' % x.where)
    def invoke(x, callee, args, atys, dty):
        inst = callee.get('inst')
        name = inst['name'] if inst else callee['def']
        c = Call(); c.args = args; c.atys = atys; c.dty = dty; c.name = name; c.x = x; c.fty = callee
        if inst and inst.get('kind') == 'intrinsic' or inst and inst.get('intrinsic'):
            c.mname = 'intrinsic::' + str(inst.get('intrinsic') or name); c.shead = ''
        else: c.mname, c.shead = norm_name(name)
        if inst and inst['kind'] == 'virtual' or (inst and 'idx' in inst):
            return x.virtual(c, callee)
        h = x.unit.find_contract(x, name, c.mname, c.shead)
        if h is not None:
            x.used_contracts.add(h.name)
            return h.apply(x, c)
        key = inst.get('key') if inst else None
        fn = x.prog.fns.get(key) if key else None
        if fn is None or fn['crate'] != 'fluffy_tribble':
            m = MODELS.get(c.mname + ' for ' + c.shead) or MODELS.get(c.mname)
            if m is None and ('slice::[' in c.mname or 'slice::<impl [' in c.name): m = x.slice_model(c)
            if m is None: m = MODELS.get('*::' + '::'.join(c.mname.split('::')[-2:]))
            if m is not None:
                r = m(x, c)
                if r is not NotImplemented:
                    x.used_models.add(c.mname)
                    return r
        if fn is None:
            raise Unsupported('no model or body for %s (%s) called in %s' % (c.mname, c.shead, x.where))
        if fn['crate'] == 'fluffy_tribble': x.inlined.add(fn['name'].replace('fluffy_tribble::', ''))
        return x.call_body(fn, args, atys)
    def slice_model(x, c):
        from models import slice_method
        return slice_method(c.mname.split('::')[-1])
    def to_b(x, b): return z3.BoolVal(b) if isinstance(b, bool) else b
    def call_body(x, fn, args, atys=None):
        if len(args) == 2 and fn['argc'] != len(args) or ('{closure#' in fn['name'] and len(args) == 2 and isinstance(args[1], VAgg)):
            # rust-call: (closure, (args,))
            if isinstance(args[1], VAgg) and fn['argc'] == 1 + len(args[1].f):
                args = [args[0]] + list(args[1].f)
        if '{closure#' in fn['name'] and args and not isinstance(args[0], VRef):
            if x.prog.types[fn['locals'][1]]['k'] == 'ref': args = [x.temp(args[0], True)] + list(args[1:])
        return x.call_fn(fn, args)
    def virtual(x, c, callee):
        name = callee['def']
        meth = name.split('::')[-1]
        recv = c.args[0]
        if 'InternalCollider' in c.name or 'InternalCollider' in name:
            h = x.unit.find_contract(x, 'dyn InternalCollider::' + meth, 'InternalCollider::' + meth, 'dyn')
            r, v = x.ref_target(recv)
            if h is not None:
                x.used_contracts.add(h.name)
                return h.apply(x, c)
            if meth in ('as_any', 'as_any_mut', 'into_any'): return MODELS['dyn::as_any'](x, c)
            if not c.args[1:] and not r.mut and getter_ok(x, meth, r, v):
                m = x.dyn_merged(r, v, meth)
                if m is not None: return m
            tag = x.dyn_tag(r, v)
            fn = x.prog.method('Internal%sCollider' % TAGS[tag], 'InternalCollider', meth)
            if fn is None: raise Unsupported('no implementation of %s for %s' % (meth, TAGS[tag]))
            x.inlined.add(fn['name'].replace('fluffy_tribble::', ''))
            return x.call_fn(fn, [VRef(r.root, r.path + (('impl', tag),), None, r.mut)] + c.args[1:])
        h = x.unit.find_contract(x, c.name, 'dyn::' + meth, 'dyn')
        if h is not None: return h.apply(x, c)
        m = MODELS.get('dyn::' + meth)
        if m is not None: return m(x, c)
        raise Unsupported('virtual call %s' % name)
    def dyn_merged(x, r, v, meth):
        """result of a getter of a collider of unknown kind, as one value"""
        if isinstance(v, VBox): v = v.v
        if not isinstance(v, VDyn) or isinstance(v.tag, int): return None
        alts = []
        for n in range(len(TAGS)):
            fn = x.prog.method('Internal%sCollider' % TAGS[n], 'InternalCollider', meth)
            if fn is None: return None
            x.inlined.add(fn['name'].replace('fluffy_tribble::', ''))
            alts.append((v.tag == n, lambda s, fn=fn, n=n: s.call_fn(fn, [VRef(r.root, r.path + (('impl', n),), None, False)])))
        return x.merged(('dyn', meth), alts)
    def dyn_tag(x, r, v):
        """concrete tag of the dyn value at r"""
        if isinstance(v, VBox): v = v.v
        if not isinstance(v, VDyn): raise Unsupported('dyn call on %r' % v)
        if isinstance(v.tag, int): return v.tag
        for n in range(len(TAGS) - 1):
            if x.branch(v.tag == n): return n
        return len(TAGS) - 1

def getter_ok(x, meth, r, v):
    fn = x.prog.method('InternalNullCollider', 'InternalCollider', meth)
    return fn is not None and fn['argc'] == 1 and x.prog.types[fn['locals'][1]].get('k') == 'ref' and not x.prog.types[fn['locals'][1]].get('mut')

class FnV:
    __slots__ = ('callee',)
    def __init__(s, c): s.callee = c
    def __repr__(s): return 'fn'
