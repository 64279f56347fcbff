"""Real-valued terms (hash-consed DAG), polynomial normal form, conversion to z3.

A term is built from rational constants, atoms (any z3 Real expression), +, *, and reciprocals.
Normal form: polynomial over atoms; a reciprocal 1/d of a non-constant d is an atom of its own
(`inv`), related to d by inv*d = 1.  Atoms can carry a rewrite rule  a^2 -> poly  (square roots,
components of unit vectors / unit quaternions).
"""
from fractions import Fraction
import z3

MAXTERMS = 60000

class Blowup(Exception):
    pass

_tab = {}
class T:
    __slots__ = ('op', 'a', 'id', '_poly', '_z')
    def __repr__(self):
        return show(self)
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(lift(o), s)
    def __neg__(s): return neg(s)
    def __truediv__(s, o): return div(s, o)
    def __rtruediv__(s, o): return div(lift(o), s)

def _mk(op, a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.a = a; t.id = len(_tab); t._poly = None; t._z = None
        _tab[k] = t
    return t

def const(c):
    return _mk('c', Fraction(c))
ZERO = const(0); ONE = const(1)

class AtomInfo:
    __slots__ = ('z', 'sq', 'inv_of', 'name', 'idx')
    def __init__(s, z, name, idx):
        s.z = z; s.sq = None; s.inv_of = None; s.name = name; s.idx = idx
ATOMS = []            # idx -> AtomInfo
_t_by_z = {}
_atom_by_z = {}       # z3 ast id -> idx   (ast kept alive in ATOMS)

def atom(z, name=None):
    """term for a z3 Real expression (numerals and linear arithmetic are unfolded)"""
    if z3.is_rational_value(z):
        return const(Fraction(z.numerator_as_long(), z.denominator_as_long()))
    i = z.get_id()
    k = _t_by_z.get(i)
    if k is not None: return k
    k = _atom_by_z.get(i)
    if k is None:
        k = len(ATOMS)
        ATOMS.append(AtomInfo(z, name or str(z), k))
        _atom_by_z[i] = k
    return _mk('a', k)

def lift(x):
    if isinstance(x, T): return x
    if isinstance(x, (int, Fraction)): return const(x)
    return atom(x)

def add(x, y):
    x = lift(x); y = lift(y)
    if x.op == 'c':
        if y.op == 'c': return const(x.a + y.a)
        if x.a == 0: return y
    elif y.op == 'c' and y.a == 0: return x
    return _mk('+', (x, y))
def mul(x, y):
    x = lift(x); y = lift(y)
    if x.op == 'c':
        if y.op == 'c': return const(x.a * y.a)
        if x.a == 0: return ZERO
        if x.a == 1: return y
    elif y.op == 'c':
        if y.a == 0: return ZERO
        if y.a == 1: return x
        return _mk('*', (y, x))
    return _mk('*', (x, y))
def neg(x):
    x = lift(x)
    if x.op == '*' and x.a[0].op == 'c':
        return mul(const(-x.a[0].a), x.a[1])
    return mul(const(-1), x)
def sub(x, y):
    x = lift(x); y = lift(y)
    if x is y: return ZERO
    return add(x, neg(y))
def recip(x):
    x = lift(x)
    if x.op == 'c':
        return const(1 / x.a)
    return _mk('i', (x,))
def div(x, y):
    return mul(x, recip(y))

# ---------------------------------------------------------------- polynomials
# poly: dict  monomial -> Fraction ; monomial: tuple of (atom idx, exp) sorted

def p_const(c): return {(): c} if c else {}
def m_mul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
def p_add(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + c * v
        if w: r[m] = w
        else: r.pop(m, None)
    return r
def p_scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}
def p_mul(p, q):
    if len(p) * len(q) > 40 * MAXTERMS: raise Blowup()
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = m_mul(m, n)
            x = r.get(k, 0) + v * w
            if x: r[k] = x
            else: del r[k]
    if len(r) > MAXTERMS: raise Blowup()
    return p_reduce(r)
def p_reduce(p):
    """apply the rules a^2 -> poly until none applies"""
    while True:
        hit = None
        for m in p:
            for a, e in m:
                if e >= 2 and ATOMS[a].sq is not None:
                    hit = (m, a, e); break
            if hit: break
        if not hit: return p
        # rewrite all monomials with a reducible square, one rule application each
        r = {}
        for m, v in p.items():
            for a, e in m:
                if e >= 2 and ATOMS[a].sq is not None:
                    rest = tuple((b, f) if b != a else (b, f - 2) for b, f in m if b != a or f > 2)
                    for n, w in ATOMS[a].sq.items():
                        k = m_mul(rest, n); x = r.get(k, 0) + v * w
                        if x: r[k] = x
                        else: r.pop(k, None)
                    break
            else:
                x = r.get(m, 0) + v
                if x: r[m] = x
                else: r.pop(m, None)
        p = r
        if len(p) > MAXTERMS: raise Blowup()

_inv_by_poly = {}
def p_key(p):
    return tuple(sorted(p.items()))
def p_norm_sign(p):
    """scale so that the leading coefficient is one: returns (c, p/c)"""
    m = min(p)
    c = p[m]
    return c, ({k: v / c for k, v in p.items()} if c != 1 else p)
def single(p):
    """the atom index when p is exactly one atom with coefficient 1, else None"""
    if p is not None and len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None
def inv_atom(p):
    """atom standing for 1/p ; p normalised to leading coefficient 1. returns (coef, monomial)"""
    if len(p) == 1:
        (m, c), = p.items()
        # 1/(c*m): product of reciprocals of atoms (or the base when the atom is itself a reciprocal)
        out = []
        for a, e in m:
            b = single(ATOMS[a].inv_of)
            out.append((b, e) if b is not None else (_inv_of_normal({((a, 1),): Fraction(1)}), e))
        return 1 / c, tuple(sorted(out))
    c, q = p_norm_sign(p)
    return 1 / c, ((_inv_of_normal(q), 1),)
def _inv_of_normal(q):
    k = p_key(q)
    i = _inv_by_poly.get(k)
    if i is None:
        n = len(_inv_by_poly)
        z = z3.Real('inv!%d' % n)
        at = atom(z, 'inv!%d' % n)
        i = at.a
        ATOMS[i].inv_of = q
        _inv_by_poly[k] = i
    return i

def poly(t):
    if t._poly is not None: return t._poly
    # iterative on deep dags
    stack = [t]
    while stack:
        u = stack[-1]
        if u._poly is not None: stack.pop(); continue
        if u.op == 'c': u._poly = p_const(u.a); stack.pop(); continue
        if u.op == 'a': u._poly = {((u.a, 1),): Fraction(1)}; stack.pop(); continue
        todo = [v for v in u.a if v._poly is None]
        if todo: stack.extend(todo); continue
        if u.op == '+': u._poly = p_add(u.a[0]._poly, u.a[1]._poly)
        elif u.op == '*': u._poly = simp_inv(p_mul(u.a[0]._poly, u.a[1]._poly))
        elif u.op == 'i':
            p = u.a[0]._poly
            if not p: raise ZeroDivisionError()
            if len(p) == 1 and () in p: u._poly = p_const(1 / p[()])
            else:
                c, m = inv_atom(p)
                u._poly = {m: c}
        stack.pop()
    return t._poly

def simp_inv(p):
    """x * inv(x) -> 1 for atoms x"""
    def pairs(m):
        d = dict(m)
        for a, _ in m:
            b = single(ATOMS[a].inv_of)
            if b is not None and b in d: return a, b
        return None
    if not any(pairs(m) for m in p): return p
    out = {}
    for m, v in p.items():
        n = m
        while True:
            ab = pairs(n)
            if not ab: break
            d = dict(n); k = min(d[ab[0]], d[ab[1]])
            for x in ab:
                d[x] -= k
                if not d[x]: del d[x]
            n = tuple(sorted(d.items()))
        w = out.get(n, 0) + v
        if w: out[n] = w
        else: out.pop(n, None)
    return out

def p_clear(p, limit=200):
    """multiply by denominators until no reciprocal atom is left; returns (poly, list of cleared denominators)"""
    dens = []
    for _ in range(limit):
        best = None
        for m in p:
            for a, e in m:
                if ATOMS[a].inv_of is not None:
                    # clear the most recently created reciprocal first (its base may mention older ones)
                    if best is None or a > best: best = a
        if best is None: return p, dens
        d = ATOMS[best].inv_of
        k = max(dict(m).get(best, 0) for m in p)
        pw = [p_const(Fraction(1))]
        for _i in range(k): pw.append(p_mul(pw[-1], d))
        # group by exponent
        groups = {}
        for m, v in p.items():
            dd = dict(m); e = dd.pop(best, 0)
            g = groups.setdefault(e, {})
            g[tuple(sorted(dd.items()))] = v
        r = {}
        for e, g in groups.items():
            r = p_add(r, p_mul(g, pw[k - e]))
        p = simp_inv(r)
        dens.append(best)
    raise Blowup()

def term_of_poly(p):
    t = ZERO
    for m, v in sorted(p.items()):
        x = const(v)
        for a, e in m:
            for _ in range(e): x = mul(x, _mk('a', a))
        t = add(t, x)
    return t

def is_zero(t):
    """exact: the term is identically zero modulo the atom rules (denominators assumed non-zero)"""
    t = lift(t)
    if t.op == 'c': return t.a == 0
    p = poly(t)
    if not p: return True
    if any(ATOMS[a].inv_of is not None for m in p for a, _ in m):
        q, _ = p_clear(p)
        return not q
    return False

def set_square(atom_term, repl_term):
    """register  atom^2 -> repl  (global: must hold wherever the atom is used)"""
    ATOMS[atom_term.a].sq = poly(repl_term)

def atoms_of(t, seen=None):
    out = set()
    stack = [lift(t)]; done = set()
    while stack:
        u = stack.pop()
        if u.id in done: continue
        done.add(u.id)
        if u.op == 'a': out.add(u.a)
        elif u.op != 'c': stack.extend(u.a)
    return out

def subst(t, mp):
    """replace atoms (idx -> T)"""
    cache = {}
    def go(u):
        r = cache.get(u.id)
        if r is not None: return r
        if u.op == 'c': r = u
        elif u.op == 'a': r = mp.get(u.a, u)
        elif u.op == '+': r = add(go(u.a[0]), go(u.a[1]))
        elif u.op == '*': r = mul(go(u.a[0]), go(u.a[1]))
        else: r = recip(go(u.a[0]))
        cache[u.id] = r
        return r
    return go(lift(t))

def show(t, depth=0):
    if t.op == 'c': return str(t.a)
    if t.op == 'a': return ATOMS[t.a].name
    if depth > 6: return '..'
    if t.op == '+': return '(%s + %s)' % (show(t.a[0], depth + 1), show(t.a[1], depth + 1))
    if t.op == '*': return '%s*%s' % (show(t.a[0], depth + 1), show(t.a[1], depth + 1))
    return '1/(%s)' % show(t.a[0], depth + 1)
def show_poly(p, n=12):
    s = []
    for m, v in list(p.items())[:n]:
        s.append('%s%s' % (v, ''.join('*%s%s' % (ATOMS[a].name, '' if e == 1 else '^%d' % e) for a, e in m)))
    return ' + '.join(s) + (' ...(%d)' % len(p) if len(p) > n else '') if s else '0'

# ---------------------------------------------------------------- z3 conversion
MONO = {}   # monomial (len>1 or exp>1) -> z3 const
MONO_DEF = {}  # z3 const id -> (const, monomial)
def mono_z(m):
    if len(m) == 1 and m[0][1] == 1: return ATOMS[m[0][0]].z
    z = MONO.get(m)
    if z is None:
        z = z3.Real('m!%d' % len(MONO))
        MONO[m] = z
        MONO_DEF[z.get_id()] = (z, m)
    return z
def frac(c):
    return z3.RealVal(str(Fraction(c)))
def to_z3(t):
    """linear combination over monomial constants (their definitions are added on demand by the prover)"""
    if t._z is not None: return t._z
    try:
        p = poly(t)
        if len(p) > 3000: raise Blowup()
        parts = []
        for m, v in p.items():
            if not m: parts.append(frac(v))
            elif v == 1: parts.append(mono_z(m))
            else: parts.append(frac(v) * mono_z(m))
        z = z3.RealVal(0) if not parts else (parts[0] if len(parts) == 1 else z3.Sum(parts))
    except Blowup:
        z = _dag_z3(t)
    t._z = z
    _t_by_z[z.get_id()] = t
    return z
def _dag_z3(t):
    cache = {}
    def go(u):
        if u.id in cache: return cache[u.id]
        if u.op == 'c': r = frac(u.a)
        elif u.op == 'a': r = ATOMS[u.a].z
        elif u.op == '+': r = go(u.a[0]) + go(u.a[1])
        elif u.op == '*': r = go(u.a[0]) * go(u.a[1])
        else: r = 1 / go(u.a[0])
        cache[u.id] = r
        return r
    return go(t)

_ZC = {}
def zc1(e):
    """constants and subterm ids of one expression (cached)"""
    r = _ZC.get(e.get_id())
    if r is None:
        seen = set(); stack = [e]; out = {}
        while stack:
            q = stack.pop()
            i = q.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(q): stack.append(q.body()); continue
            if z3.is_app(q):
                if q.num_args() == 0:
                    if q.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[i] = q
                else: stack.extend(q.children())
        if len(_ZC) > 20000: _ZC.clear()
        r = _ZC[e.get_id()] = (out, frozenset(seen), e)
    return r
def z3_consts(exprs):
    """all uninterpreted constants / atoms occurring in z3 expressions (by ast id)"""
    out = {}; seen = set()
    for e in exprs:
        o, s, _ = zc1(e)
        out.update(o); seen |= s
    return out, seen
_RC = {}
def reach(f):
    """ids of the constants a fact speaks about, through the definitions (cached)"""
    r = _RC.get(f.get_id())
    if r is None:
        if len(_RC) > 20000: _RC.clear()
        r = _RC[f.get_id()] = (set(z3_consts([f] + definitions([f], 2))[0]), f)
    return r[0]

def definitions(exprs, depth=4):
    """definitional facts for monomial constants and reciprocal atoms occurring (transitively)"""
    facts = []; done = set(); work = list(exprs)
    invs = {ATOMS[i].z.get_id(): i for i in _inv_by_poly.values()}
    sqs = None
    for _ in range(depth):
        cs, seen = z3_consts(work)
        new = []
        for i, e in cs.items():
            if i in done: continue
            done.add(i)
            if i in MONO_DEF:
                z, m = MONO_DEF[i]
                prod = None
                for a, ex in m:
                    for _k in range(ex):
                        prod = ATOMS[a].z if prod is None else prod * ATOMS[a].z
                f = (z == prod); facts.append(f); new.append(f)
            elif i in invs:
                a = ATOMS[invs[i]]
                # direct (non-linearised) form of the base
                f = (a.z * p_direct(a.inv_of) == 1); facts.append(f); new.append(f)
        for i in seen:
            k = _atom_by_z.get(i)
            if k is not None and ('sq', k) not in done and ATOMS[k].sq is not None:
                done.add(('sq', k))
                f = (ATOMS[k].z * ATOMS[k].z == p_direct(ATOMS[k].sq)); facts.append(f); new.append(f)
        if not new: break
        work = new
    return facts
def p_direct(p):
    parts = []
    for m, v in p.items():
        x = frac(v)
        for a, e in m:
            for _ in range(e): x = x * ATOMS[a].z
        parts.append(x)
    return z3.Sum(parts) if parts else z3.RealVal(0)
