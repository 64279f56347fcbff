"""Contracts on src/range.rs (part of P11, P12)."""
from unit import *
from c_colliders import EPS

def rng(x, kind):
    """a Range value built by its public constructors, and its (lo, hi) as extended floats"""
    if kind == 'empty': return x.call('Range::empty'), None
    if kind == 'all': return x.call('Range::everything'), (MINF, INF)
    if kind == 'single':
        a = x.real('a'); return x.call('Range::single', a), (a, a)
    a = x.real('lo'); b = x.real('hi'); x.fact(x.le(a.t, b.t))
    if kind == 'below': return x.call('Range::range', MINF, b), (MINF, b)
    if kind == 'above': return x.call('Range::range', a, INF), (a, INF)
    return x.call('Range::range', a, b), (a, b)
KINDS = ['empty', 'all', 'single', 'both', 'below', 'above']
def bounds(x, r):
    """observable value of a range: None when empty, else (min, max)"""
    p = x.ref(r)
    e = x.call('Range::is_empty', p)
    if x.branch(zb(e.t)): return None
    return x.conc(x.call('Range::min', p)), x.conc(x.call('Range::max', p))
def fle(x, a, b): return x.to_b(x.fcmp('Le', a, b))
def inr(x, v, b):
    """v (finite) lies in the range with bounds b"""
    if b is None: return z3.BoolVal(False)
    return z3.And(fle(x, b[0], v), fle(x, v, b[1]))

@unit('range/constructors', 'P11', 'P12', covers=['done'])
def u(x):
    for k in KINDS:
        r, want = rng(x, k); got = bounds(x, r)
        x.prove('%s: is_empty' % k, (got is None) == (want is None))
        if want:
            x.eq_val('%s: min' % k, got[0], want[0]); x.eq_val('%s: max' % k, got[1], want[1])
    a, b = x.real('a'), x.real('b')
    got = bounds(x, x.call('Range::range', a, b))
    x.prove('range of finite bounds is not empty', got is not None)
    if got:
        v = x.real('v')
        x.prove('range(a, b) holds exactly the values between its bounds', inr(x, v, got) == z3.Or(z3.And(fle(x, a, v), fle(x, v, b)), z3.And(fle(x, b, v), fle(x, v, a))))
    x.cover('done')

@unit('range/intersect', 'P11', 'P12', covers=['empty', 'not empty'])
def u(x):
    a, ab = rng(x, KINDS[x.choose(6)]); b, bb = rng(x, KINDS[x.choose(6)])
    got = bounds(x, x.call('Range::intersect', x.ref(a), x.ref(b)))
    v = x.real('v')
    x.prove('intersect holds exactly the common values', inr(x, v, got) == z3.And(inr(x, v, ab), inr(x, v, bb)))
    if got is None: x.cover('empty')
    else:
        x.cover('not empty')
        x.prove('the bounds are in order', fle(x, got[0], got[1]))
        x.prove('the bounds lie within both ranges', z3.And(fle(x, ab[0], got[0]), fle(x, bb[0], got[0]), fle(x, got[1], ab[1]), fle(x, got[1], bb[1])))

@unit('range/contain', 'P11', 'P12', covers=['done'])
def u(x):
    a, ab = rng(x, KINDS[x.choose(6)]); b, bb = rng(x, KINDS[x.choose(6)])
    got = bounds(x, x.call('Range::contain', x.ref(a), x.ref(b)))
    if ab is None or bb is None:
        w = bb if ab is None else ab
        x.prove('contain with an empty range is the other', (got is None) == (w is None))
        if got and w: x.eq_val('min', got[0], w[0]); x.eq_val('max', got[1], w[1])
    else:
        x.prove('contain of two ranges is not empty', got is not None)
        lo = ab[0] if x.branch(fle(x, ab[0], bb[0])) else bb[0]
        hi = ab[1] if x.branch(fle(x, bb[1], ab[1])) else bb[1]
        x.eq_val('contain: smallest min', got[0], lo); x.eq_val('contain: largest max', got[1], hi)
    x.cover('done')

def quad_facts(x, a, b, c, got, prove):
    """postcondition of quadratic_zeros(a, b, c) for a >= 0, on the observable bounds"""
    big = x.branch(x.le(EPS, a))
    if big:
        det = b * b - 4 * a * c
        if got is None: prove('no zeros only for a negative discriminant', x.lt(det, 0)); return 'none'
        lo, hi = x.t(got[0]), x.t(got[1])
        prove('zeros in order', x.le(lo, hi))
        prove('the lower bound is a zero', x.eqr(a * lo * lo + b * lo + c, 0))
        prove('the upper bound is a zero', x.eqr(a * hi * hi + b * hi + c, 0))
        prove('the zeros add up to -b/a', x.eqr(a * (lo + hi), tm.neg(b)))
        return 'two'
    if x.branch(z3.And(x.lt(tm.neg(EPS), b), x.lt(b, EPS))):
        if got is None: prove('constant: no zeros only for c >= epsilon', x.le(EPS, c)); return 'never'
        prove('constant: everything only for c < epsilon', x.lt(c, EPS))
        prove('constant: everything', got[0].k == '-' and got[1].k == '+')
        return 'always'
    prove('linear: one zero', got is not None)
    lo, hi = x.t(got[0]), x.t(got[1])
    prove('linear: a single value', x.eqr(lo, hi))
    prove('linear: it is the zero', x.eqr(b * lo, tm.neg(c)))
    return 'one'

@unit('range/quadratic_zeros', 'P11', 'P12', covers=['two', 'none', 'one', 'always', 'never'])
def u(x):
    a, b, c = x.real('a'), x.real('b'), x.real('c')
    x.fact(x.le(0, a.t))
    got = bounds(x, x.call('Range::quadratic_zeros', a, b, c))
    x.cover(quad_facts(x, a.t, b.t, c.t, got, lambda n, g: x.prove(n, g)))

def qz_contract(x, c):
    a, b, cc = [x.t(v) for v in c.args]
    if not (sum_of_squares(a) or x.prove('quadratic_zeros is called with a >= 0', x.le(0, a))): return NotImplemented
    a, b, cc = [x.abbr(v) for v in (a, b, cc)]
    x.assume(x.le(0, a))
    key = ('qz', a.id, b.id, cc.id)
    if key in x.memo: return x.memo[key]
    x.memo[key] = r = qz_result(x, a, b, cc)
    return r
def qz_result(x, a, b, cc):
    def as_facts(got): return quad_facts(x, a, b, cc, got, lambda n, g: x.assume(x.to_b(g)))
    if x.branch(x.le(EPS, a)):
        det = b * b - 4 * a * cc
        if x.branch(x.lt(det, 0)): got = None
        else:
            got = (x.real('zlo'), x.real('zhi'))
            x.bigquad = (a, b, cc, got[0].t, got[1].t)
    elif x.branch(z3.And(x.lt(tm.neg(EPS), b), x.lt(b, EPS))):
        got = (MINF, INF) if x.branch(x.lt(cc, EPS)) else None
    else: 
        l = x.real('zlin'); got = (l, l)
    as_facts(got)
    if got is None: return x.call('Range::empty')
    if got[0].k == '-': return x.call('Range::everything')
    if got[0] is got[1]: return x.call('Range::single', got[0])
    return x.call('Range::range', got[0], got[1])
QZ = Contract('Range::quadratic_zeros', qz_contract)

@unit('range/linear_overlap', 'P11', 'P12', covers=['moving', 'still'])
def u(x):
    ka = ['single', 'both', 'below', 'above'][x.choose(4)]
    kb = ['single', 'both', 'below', 'above'][x.choose(4)] if ka in ('single', 'both') else ['single', 'both'][x.choose(2)]
    a, ab = rng(x, ka); b, bb = rng(x, kb)
    mv = x.real('mv'); t = x.real('t')
    got = bounds(x, x.call('Range::linear_overlap', x.ref(a), x.ref(b), mv))
    still = z3.And(x.lt(tm.neg(EPS), mv.t), x.lt(mv.t, EPS))
    if x.branch(still):
        x.cover('still')
        over = z3.And(fle(x, ab[0], bb[1]), fle(x, bb[0], ab[1]))
        x.prove('without movement: at all times or never', inr(x, t, got) == over)
        return
    x.cover('moving')
    def sh(v): return x.fadd(v, Fl('f', mv.t * t.t))
    over = z3.And(fle(x, ab[0], sh(bb[1])), fle(x, sh(bb[0]), ab[1]))
    x.prove('holds exactly the times when the moved ranges overlap', inr(x, t, got) == over)
