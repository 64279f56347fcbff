"""Models (assumed contracts) of the functions outside the crate: std, generational_arena, nalgebra."""
import z3
import terms as tm
from terms import T, atom, const, ZERO, ONE
from vals import *
from ctx import *
from execu import *
from prog import norm_name, TAGS

def some(v, tid=None): return VEnum(1, {1: (v,)}, tid)
def none(tid=None): return VEnum(0, {0: ()}, tid)
def f(t): return Fl('f', tm.lift(t))

# ------------------------------------------------------------------ f32
def _f1(x, c): return x.deref(c.args[0])
@model('core::f32::f32::abs', 'std::f32::f32::abs', 'intrinsic::fabs', 'intrinsic::fabsf32')
def m_abs(x, c):
    v = x.conc(_f1(x, c))
    if v.k == 'f':
        if sum_of_squares(v.t): return v
        if x.unit.udef.opts.get('abs_atom') and v.t.op != 'c':
            # |a| as the non-negative root of its square: no fork
            r = x.sqrt_t(v.t * v.t)
            a, b = tm.to_z3(v.t), tm.to_z3(r)
            x.assume(z3.Or(b == a, b == -a)); x.assume(b >= a); x.assume(b >= -a)
            return Fl('f', r)
        return Fl('f', tm.neg(v.t)) if x.lt0(v.t) else v
    return NAN if v.k == 'n' else INF
@model('core::f32::f32::is_finite')
def m_isfin(x, c):
    v = _f1(x, c)
    if v.k == 's': return VBool(v.t[0] == FIN)
    return VBool(v.k == 'f')
@model('core::f32::f32::is_infinite')
def m_isinf(x, c):
    v = _f1(x, c)
    if v.k == 's': return VBool(z3.Or(v.t[0] == PINF, v.t[0] == NINF))
    return VBool(v.k in '+-')
@model('core::f32::f32::is_nan')
def m_isnan(x, c):
    v = _f1(x, c)
    if v.k == 's': return VBool(v.t[0] == NAN_)
    return VBool(v.k == 'n')
@model('core::f32::f32::is_sign_negative')
def m_isneg(x, c):
    v = x.conc(_f1(x, c))
    if v.k == '-': return VBool(True)
    if v.k == '+': return VBool(False)
    if v.k == 'n': return VBool(x.choose(2) == 0)
    s = x.sign(v.t)
    return VBool((s if s else x.zero_sign(v.t)) < 0)
@model('core::f32::f32::is_sign_positive')
def m_ispos(x, c): return VBool(not m_isneg(x, c).t)
@model('core::f32::f32::signum', 'std::f32::f32::signum')
def m_signum(x, c):
    v = x.conc(_f1(x, c))
    if v.k == 'n': return NAN
    if v.k in '+-': return fin(1 if v.k == '+' else -1)
    s = x.sign(v.t)
    if s == 0: s = x.zero_sign(v.t)
    return fin(s)
@model('std::f32::f32::sqrt', 'core::f32::f32::sqrt', 'intrinsic::sqrtf32')
def m_sqrt(x, c): return x.fsqrt(_f1(x, c))
def _minmax(x, a, b, lt):
    a = x.conc(a); b = x.conc(b)
    if a.k == 'n': return b
    if b.k == 'n': return a
    r = x.fcmp('Lt', a, b)
    r = x.branch(r) if not isinstance(r, bool) else r
    return (a if r else b) if lt else (b if r else a)
@model('core::f32::f32::min', 'intrinsic::minnumf32', 'std::f32::f32::min')
def m_min(x, c): return _minmax(x, x.deref(c.args[0]), x.deref(c.args[1]), True)
@model('core::f32::f32::max', 'intrinsic::maxnumf32', 'std::f32::f32::max')
def m_max(x, c): return _minmax(x, x.deref(c.args[0]), x.deref(c.args[1]), False)
@model('core::f32::f32::clamp')
def m_clamp(x, c):
    v, lo, hi = [x.conc(x.deref(a)) for a in c.args]
    if v.k == 'n': return v
    r = x.fcmp('Lt', v, lo)
    if x.branch(r): return lo
    if x.branch(x.fcmp('Gt', v, hi)): return hi
    return v
@model('std::f32::f32::powi', 'core::f32::f32::powi')
def m_powi(x, c):
    v, n = x.deref(c.args[0]), c.args[1].t
    if not isinstance(n, int) or not 0 <= n <= 6: raise Unsupported('powi')
    r = fin(1)
    for _ in range(n): r = x.fmul(r, v)
    return r
@model('std::f32::f32::mul_add', 'core::f32::f32::mul_add')
def m_muladd(x, c): return x.fadd(x.fmul(c.args[0], c.args[1]), c.args[2])
@model('core::f32::f32::recip')
def m_recip(x, c): return x.fdiv(fin(1), c.args[0])
@model('core::f32::f32::copysign', 'std::f32::f32::copysign', 'intrinsic::copysignf32')
def m_copysign(x, c):
    a, b = x.conc(c.args[0]), x.conc(c.args[1])
    if b.k == 'n': raise Unsupported('copysign nan')
    s = (1 if b.k == '+' else -1) if b.k in '+-' else x.sign(b.t)
    if s == 0: s = x.zero_sign(b.t)
    c2 = Call(); c2.args = [a]; c2.x = x
    m = m_abs(x, c2)
    return m if s > 0 else x.fneg(m)

# ------------------------------------------------------------------ nalgebra
def mat(x, v):
    v = x.deref(v)
    if isinstance(v, VMat): return v
    if isinstance(v, VAgg) and len(v.f) == 1: return mat(x, v.f[0])
    raise Unsupported('matrix expected, got %r' % type(v).__name__)
def zipm(x, op, a, b):
    return VMat(a.r, a.c, [op(p, q) for p, q in zip(a.m, b.m)])
def scalem(x, a, s): return VMat(a.r, a.c, [x.fmul(p, s) for p in a.m])
def matmul(x, a, b):
    out = []
    for j in range(b.c):
        for i in range(a.r):
            s = x.fmul(a.at(i, 0), b.at(0, j))
            for k in range(1, a.c): s = x.fadd(s, x.fmul(a.at(i, k), b.at(k, j)))
            out.append(s)
    return VMat(a.r, b.c, out)
def dot(x, a, b):
    s = x.fmul(a.m[0], b.m[0])
    for p, q in zip(a.m[1:], b.m[1:]): s = x.fadd(s, x.fmul(p, q))
    return s
def cross(x, a, b):
    def d(i, j): return x.fsub(x.fmul(a.m[i], b.m[j]), x.fmul(a.m[j], b.m[i]))
    return VMat(3, 1, [d(1, 2), d(2, 0), d(0, 1)])
def norm(x, a):
    r = x.fsqrt(dot(x, a, a))
    if x.unit.udef.opts.get('norm_zero') and r.k == 'f' and r.t.op != 'c' and all(x.conc(p).k == 'f' for p in a.m):
        x.assume(z3.Implies(tm.to_z3(r.t) == 0, z3.And([tm.to_z3(x.conc(p).t) == 0 for p in a.m])))
    return r
def transpose(a): return VMat(a.c, a.r, [a.at(i, j) for i in range(a.r) for j in range(a.c)])
def qmul(x, p, q):
    a1, b1, c1, d1 = p.m[3], p.m[0], p.m[1], p.m[2]
    a2, b2, c2, d2 = q.m[3], q.m[0], q.m[1], q.m[2]
    def comb(ts):
        s = None
        for sg, u, v in ts:
            w = x.fmul(u, v)
            s = (w if sg > 0 else x.fneg(w)) if s is None else (x.fadd(s, w) if sg > 0 else x.fsub(s, w))
        return s
    i = comb([(1, a1, b2), (1, b1, a2), (1, c1, d2), (-1, d1, c2)])
    j = comb([(1, a1, c2), (-1, b1, d2), (1, c1, a2), (1, d1, b2)])
    k = comb([(1, a1, d2), (1, b1, c2), (-1, c1, b2), (1, d1, a2)])
    w = comb([(1, a1, a2), (-1, b1, b2), (-1, c1, c2), (-1, d1, d2)])
    return VQuat([i, j, k, w], p.unit and q.unit)
def qinv(x, q): return VQuat([x.fneg(v) for v in q.m[:3]] + [q.m[3]], True)
def qmat(x, q):
    i, j, k, w = [x.conc(v).t for v in q.m]
    rows = [[w * w + i * i - j * j - k * k, (i * j - w * k) * 2, (w * j + i * k) * 2],
            [(w * k + i * j) * 2, w * w - i * i + j * j - k * k, (j * k - w * i) * 2],
            [(i * k - w * j) * 2, (w * i + j * k) * 2, w * w - i * i - j * j + k * k]]
    return VMat(3, 3, [f(rows[r][c]) for c in range(3) for r in range(3)])
def qrot(x, q, v): return matmul(x, qmat(x, q), v)
QID = VQuat([fin(0), fin(0), fin(0), fin(1)])

@model('std::ops::Add::add')
def m_add(x, c):
    a, b = x.deref(c.args[0]), x.deref(c.args[1])
    if isinstance(a, VMat): return zipm(x, x.fadd, a, mat(x, b))
    if isinstance(a, Fl): return x.fadd(a, b)
    return x.binop('Add', a, b) if isinstance(a, VInt) else NotImplemented
@model('std::ops::Sub::sub')
def m_sub(x, c):
    a, b = x.deref(c.args[0]), x.deref(c.args[1])
    if isinstance(a, VMat): return zipm(x, x.fsub, a, mat(x, b))
    if isinstance(a, Fl): return x.fsub(a, b)
    return NotImplemented
@model('std::ops::Neg::neg')
def m_neg(x, c):
    a = x.deref(c.args[0])
    if isinstance(a, VMat): return VMat(a.r, a.c, [x.fneg(p) for p in a.m])
    if isinstance(a, Fl): return x.fneg(a)
    return NotImplemented
@model('std::ops::Mul::mul')
def m_mul(x, c):
    a, b = x.deref(c.args[0]), x.deref(c.args[1])
    return mulv(x, a, b)
def mulv(x, a, b):
    if isinstance(a, Fl) and isinstance(b, Fl): return x.fmul(a, b)
    if isinstance(a, Fl): return scalem(x, mat(x, b), a)
    if isinstance(b, Fl): return scalem(x, mat(x, a), b)
    if isinstance(a, VQuat) and isinstance(b, VQuat): return qmul(x, a, b)
    if isinstance(a, VQuat): return qrot(x, a, mat(x, b))
    if isinstance(a, VAgg) and len(a.f) == 2: return iso_mul(x, a, b)
    return matmul(x, mat(x, a), mat(x, b))
@model('std::ops::Div::div')
def m_div(x, c):
    a, b = x.deref(c.args[0]), x.deref(c.args[1])
    if isinstance(a, Fl): return x.fdiv(a, b)
    if isinstance(a, VMat): return divm(x, a, b)
    return NotImplemented
def divm(x, a, s): return VMat(a.r, a.c, [x.fdiv(p, s) for p in a.m])
def _assign(op):
    def g(x, c):
        r, a = x.ref_target(c.args[0]); b = x.deref(c.args[1])
        x.store_to(r.root, r.path, op(x, a, b))
        return UNIT
    return g
MODELS['std::ops::AddAssign::add_assign'] = _assign(lambda x, a, b: zipm(x, x.fadd, a, mat(x, b)) if isinstance(a, VMat) else x.binop('Add', a, b))
MODELS['std::ops::SubAssign::sub_assign'] = _assign(lambda x, a, b: zipm(x, x.fsub, a, mat(x, b)) if isinstance(a, VMat) else x.binop('Sub', a, b))
MODELS['std::ops::MulAssign::mul_assign'] = _assign(lambda x, a, b: mulv(x, a, b))
MODELS['std::ops::DivAssign::div_assign'] = _assign(lambda x, a, b: divm(x, a, b) if isinstance(a, VMat) else x.fdiv(a, b))
@model('nalgebra::Matrix::cross')
def m_cross(x, c): return cross(x, mat(x, c.args[0]), mat(x, c.args[1]))
@model('nalgebra::Matrix::scale')
def m_scale(x, c): return scalem(x, mat(x, c.args[0]), x.deref(c.args[1]))
@model('nalgebra::Matrix::unscale')
def m_unscale(x, c): return divm(x, mat(x, c.args[0]), x.deref(c.args[1]))
@model('nalgebra::Matrix::transpose', 'nalgebra::Rotation::transpose', 'nalgebra::Rotation::inverse')
def m_transpose(x, c): return transpose(mat(x, c.args[0]))
@model('nalgebra::base::blas::nalgebra::Matrix::dot')
def m_dot(x, c): return dot(x, mat(x, c.args[0]), mat(x, c.args[1]))
@model('nalgebra::base::norm::nalgebra::Matrix::magnitude', 'nalgebra::base::norm::nalgebra::Matrix::norm')
def m_norm(x, c): return norm(x, mat(x, c.args[0]))
@model('nalgebra::base::norm::nalgebra::Matrix::magnitude_squared', 'nalgebra::base::norm::nalgebra::Matrix::norm_squared')
def m_norm2(x, c):
    a = mat(x, c.args[0]); return dot(x, a, a)
@model('nalgebra::base::norm::nalgebra::Matrix::normalize')
def m_normalize(x, c):
    a = mat(x, c.args[0])
    return normalize(x, a)
def normalize(x, a):
    return divm(x, a, norm(x, a))
def dims_of(x, c):
    r, cc = x.prog.dims(x.prog.types[c.dty]['disp'])
    return r, cc
@model('nalgebra::base::construction::nalgebra::Matrix::zeros')
def m_zeros(x, c):
    r, cc = dims_of(x, c); return VMat(r, cc, [fin(0)] * (r * cc))
@model('nalgebra::base::construction::nalgebra::Matrix::identity')
def m_ident(x, c):
    r, cc = dims_of(x, c); return VMat(r, cc, [fin(1 if i == j else 0) for j in range(cc) for i in range(r)])
@model('nalgebra::base::construction::nalgebra::Matrix::repeat', 'nalgebra::base::construction::nalgebra::Matrix::from_element')
def m_repeat(x, c):
    r, cc = dims_of(x, c); return VMat(r, cc, [c.args[0]] * (r * cc))
@model('nalgebra::base::construction::nalgebra::Matrix::new')
def m_new(x, c):
    r, cc = dims_of(x, c)
    a = c.args
    return VMat(r, cc, [a[i * cc + j] for j in range(cc) for i in range(r)])   # arguments are row-major
def _axis(n):
    def g(x, c):
        r, cc = dims_of(x, c); return VMat(r, cc, [fin(1 if i == n else 0) for i in range(r)])
    return g
for _n, _a in enumerate('xyz'): MODELS['nalgebra::base::construction::nalgebra::Matrix::' + _a] = _axis(_n)
@model('nalgebra::base::construction::nalgebra::Matrix::from_diagonal')
def m_diag(x, c):
    v = mat(x, c.args[0]); n = len(v.m)
    return VMat(n, n, [v.m[i] if i == j else fin(0) for j in range(n) for i in range(n)])
@model('nalgebra::base::construction::nalgebra::Matrix::from_diagonal_element')
def m_diage(x, c):
    r, cc = dims_of(x, c); v = c.args[0]
    return VMat(r, cc, [v if i == j else fin(0) for j in range(cc) for i in range(r)])
@model('nalgebra::Matrix::component_mul')
def m_cmul(x, c): return zipm(x, x.fmul, mat(x, c.args[0]), mat(x, c.args[1]))
@model('nalgebra::Matrix::abs')
def m_matabs(x, c):
    a = mat(x, c.args[0]); out = []
    for p in a.m:
        c2 = Call(); c2.args = [p]; c2.x = x
        out.append(m_abs(x, c2))
    return VMat(a.r, a.c, out)
@model('std::cmp::PartialEq::eq for nalgebra::Matrix')
def m_mateq(x, c):
    a, b = mat(x, c.args[0]), mat(x, c.args[1])
    for p, q in zip(a.m, b.m):
        r = x.fcmp('Eq', p, q)
        if not (r if isinstance(r, bool) else x.branch(r)): return VBool(False)
    return VBool(True)
@model('std::cmp::PartialEq::ne for nalgebra::Matrix')
def m_matne(x, c): return VBool(not m_mateq(x, c).t)
@model('std::ops::Deref::deref for nalgebra::Matrix', 'std::ops::DerefMut::deref_mut for nalgebra::Matrix',
       'std::ops::Deref::deref for nalgebra::Quaternion', 'std::ops::Deref::deref for nalgebra::Unit',
       'std::ops::DerefMut::deref_mut for nalgebra::Quaternion')
def m_coord(x, c):
    r, v = x.ref_target(c.args[0])
    return VRef(r.root, r.path, None, r.mut)
@model('nalgebra::Unit::quaternion', 'nalgebra::Unit::as_ref', 'nalgebra::Unit::into_inner', 'nalgebra::Unit::unwrap')
def m_unq(x, c):
    return c.args[0]
def fresh_quat(x, base):
    q = [x.fresh_T(base) for _ in range(4)]
    x.unit_quat(q)
    return VQuat([Fl('f', t) for t in q], True)
def qkey(ts):
    try: return tuple(tm.p_key(tm.poly(t)) for t in ts)
    except tm.Blowup: return tuple(t.id for t in ts)
@model('nalgebra::geometry::quaternion_construction::nalgebra::Unit::from_scaled_axis', 'nalgebra::geometry::quaternion_construction::nalgebra::Unit::new')
def m_fsa(x, c):
    return from_scaled_axis(x, mat(x, c.args[0]))
def from_scaled_axis(x, v):
    """unit quaternion of a rotation vector (uninterpreted; zero gives the identity; inverse of scaled_axis up to sign)"""
    ts = [x.conc(p) for p in v.m]
    if any(p.k != 'f' for p in ts):
        x.note('from_scaled_axis of a non-finite vector')
        raise Unsupported('rotation from a non-finite vector in %s' % x.where)
    ts = [p.t for p in ts]
    k = qkey(ts)
    if all(not p for p in k): return QID
    key = ('fsa', k)
    if key in x.memo: return x.memo[key]
    # is it literally scaled_axis(q)?
    src = x.memo.get(('sa_rev', k))
    if src is not None:
        q = src if not x.lt0(x.conc(src.m[3]).t) else VQuat([x.fneg(p) for p in src.m], True)
        x.memo[key] = q
        return q
    if x.branch(z3.And([x.to_b(x.zcmp('==', t, ZERO)) for t in ts])):
        x.memo[key] = QID
        return QID
    q = fresh_quat(x, 'fsa')
    # the quaternion is a function of the vector: congruent arguments give equal results
    for (k2, v2) in list(x.memo.items()):
        if isinstance(k2, tuple) and k2[0] == 'fsa_val':
            ts2, q2 = v2
            eq = z3.And([x.to_b(x.zcmp('==', a, b)) for a, b in zip(ts, ts2)])
            x.assume(z3.Implies(eq, z3.And([tm.to_z3(a.t) == tm.to_z3(b.t) for a, b in zip(q.m, q2.m)])))
    x.memo[('fsa_val', k)] = (ts, q)
    x.memo[key] = q
    return q
@model('nalgebra::geometry::quaternion::nalgebra::Unit::scaled_axis')
def m_sa(x, c):
    q = x.deref(c.args[0])
    return scaled_axis(x, q)
def scaled_axis(x, q):
    ts = [x.conc(p).t for p in q.m]
    k = qkey(ts)
    if all(not p for p in k[:3]): return VMat(3, 1, [fin(0)] * 3)
    key = ('sa', k)
    if key in x.memo: return x.memo[key]
    v = VMat(3, 1, [Fl('f', x.fresh_T('sa')) for _ in range(3)])
    x.memo[key] = v
    x.memo[('sa_rev', qkey([p.t for p in v.m]))] = q
    # zero vector exactly for the identity rotation
    zv = z3.And([x.to_b(x.zcmp('==', p.t, ZERO)) for p in v.m])
    zq = z3.And([x.to_b(x.zcmp('==', t, ZERO)) for t in ts[:3]])
    x.assume(zv == zq)
    return v
@model('nalgebra::geometry::quaternion::nalgebra::Unit::inverse', 'nalgebra::geometry::quaternion::nalgebra::Unit::conjugate')
def m_qinv(x, c): return qinv(x, x.deref(c.args[0]))
@model('nalgebra::geometry::quaternion::nalgebra::Unit::to_rotation_matrix')
def m_qmat(x, c): return qmat(x, x.deref(c.args[0]))
@model('nalgebra::geometry::quaternion_construction::nalgebra::Unit::identity')
def m_qid(x, c): return QID
@model('nalgebra::geometry::quaternion::nalgebra::Unit::transform_vector')
def m_qtv(x, c): return qrot(x, x.deref(c.args[0]), mat(x, c.args[1]))
@model('nalgebra::geometry::quaternion::nalgebra::Unit::inverse_transform_vector')
def m_qitv(x, c): return qrot(x, qinv(x, x.deref(c.args[0])), mat(x, c.args[1]))
@model('nalgebra::Matrix::column')
def m_col(x, c):
    a = mat(x, c.args[0]); j = c.args[1].t
    return VMat(a.r, 1, a.m[j * a.r:(j + 1) * a.r])
@model('std::convert::From::from for nalgebra::Point', 'std::convert::From::from for nalgebra::Translation')
def m_wrap(x, c):
    return VAgg([mat(x, c.args[0])], c.dty)
@model('nalgebra::Point::new', 'nalgebra::geometry::point_construction::nalgebra::Point::new')
def m_pnew(x, c): return VAgg([VMat(len(c.args), 1, c.args)], c.dty)
@model('nalgebra::geometry::point_construction::nalgebra::Point::origin')
def m_porigin(x, c): return VAgg([VMat(3, 1, [fin(0)] * 3)], c.dty)
def iso_idx(x, tid=None):
    for i, t in enumerate(x.prog.types):
        if t['k'] == 'adt' and t['name'].endswith('::Isometry'):
            return x.prog.field_index(i, 'rotation'), x.prog.field_index(i, 'translation'), i
    raise Unsupported('Isometry type')
def mk_iso(x, q, v):
    ri, ti, tid = iso_idx(x)
    fs = [VAgg(())] * len(x.prog.types[tid]['variants'][0]['fields'])
    fs[ri] = q; fs[ti] = VAgg([v])
    return VAgg(fs, tid)
def iso_parts(x, a):
    ri, ti, _ = iso_idx(x)
    return a.f[ri], mat(x, a.f[ti])
@model('nalgebra::Isometry::from_parts')
def m_isofp(x, c): return mk_iso(x, x.deref(c.args[1]), mat(x, c.args[0]))
@model('nalgebra::geometry::isometry_construction::nalgebra::Isometry::identity')
def m_isoid(x, c): return mk_iso(x, QID, VMat(3, 1, [fin(0)] * 3))
@model('nalgebra::Isometry::append_rotation_mut')
def m_isoar(x, c):
    r, a = x.ref_target(c.args[0]); q, v = iso_parts(x, a); p = x.deref(c.args[1])
    x.store_to(r.root, r.path, mk_iso(x, qmul(x, p, q), qrot(x, p, v)))
    return UNIT
@model('nalgebra::Isometry::append_translation_mut')
def m_isoat(x, c):
    r, a = x.ref_target(c.args[0]); q, v = iso_parts(x, a)
    x.store_to(r.root, r.path, mk_iso(x, q, zipm(x, x.fadd, v, mat(x, c.args[1]))))
    return UNIT
def iso_inv(x, a):
    q, v = iso_parts(x, a); qi = qinv(x, q)
    w = qrot(x, qi, v)
    return mk_iso(x, qi, VMat(3, 1, [x.fneg(p) for p in w.m]))
@model('nalgebra::Isometry::inverse_mut')
def m_isoim(x, c):
    r, a = x.ref_target(c.args[0])
    x.store_to(r.root, r.path, iso_inv(x, a))
    return UNIT
@model('nalgebra::Isometry::inverse')
def m_isoi(x, c): return iso_inv(x, x.deref(c.args[0]))
def iso_mul(x, a, b):
    q, v = iso_parts(x, a)
    if isinstance(b, VAgg) and len(b.f) == 2:
        p, w = iso_parts(x, b)
        return mk_iso(x, qmul(x, q, p), zipm(x, x.fadd, v, qrot(x, q, w)))
    if isinstance(b, VAgg): return VAgg([zipm(x, x.fadd, qrot(x, q, mat(x, b)), v)], b.tid)
    return qrot(x, q, mat(x, b))
@model('nalgebra::Isometry::transform_point')
def m_isotp(x, c):
    q, v = iso_parts(x, x.deref(c.args[0]))
    return VAgg([zipm(x, x.fadd, qrot(x, q, mat(x, c.args[1])), v)], c.dty)
@model('nalgebra::Isometry::inverse_transform_point')
def m_isoitp(x, c):
    q, v = iso_parts(x, x.deref(c.args[0]))
    return VAgg([qrot(x, qinv(x, q), zipm(x, x.fsub, mat(x, c.args[1]), v))], c.dty)
@model('nalgebra::Isometry::transform_vector')
def m_isotv(x, c):
    q, v = iso_parts(x, x.deref(c.args[0]))
    return qrot(x, q, mat(x, c.args[1]))
@model('nalgebra::Isometry::inverse_transform_vector')
def m_isoitv(x, c):
    q, v = iso_parts(x, x.deref(c.args[0]))
    return qrot(x, qinv(x, q), mat(x, c.args[1]))
def det3(x, m):
    t = [x.conc(p).t for p in m.m]
    a = lambda i, j: t[j * 3 + i]
    return (a(0, 0) * (a(1, 1) * a(2, 2) - a(2, 1) * a(1, 2)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(2, 0) * a(1, 2))
            + a(0, 2) * (a(1, 0) * a(2, 1) - a(2, 0) * a(1, 1)))
def adj3(x, m):
    t = [x.conc(p).t for p in m.m]
    a = lambda i, j: t[j * 3 + i]
    def cof(i, j):
        r = [k for k in range(3) if k != i]; c = [k for k in range(3) if k != j]
        d = a(r[0], c[0]) * a(r[1], c[1]) - a(r[0], c[1]) * a(r[1], c[0])
        return d if (i + j) % 2 == 0 else tm.neg(d)
    return VMat(3, 3, [f(cof(j, i)) for j in range(3) for i in range(3)])
@model('nalgebra::linalg::inverse::nalgebra::Matrix::try_inverse')
def m_tryinv(x, c):
    m = mat(x, c.args[0])
    if all(p.k == 'f' and tm.is_zero(p.t) for p in map(x.conc, m.m)): return none(c.dty)
    d = det3(x, m)
    if x.branch(x.zcmp('==', d, ZERO)): return none(c.dty)
    a = adj3(x, m); r = x.mkdiv(ONE, d).t
    return some(VMat(3, 3, [Fl('f', p.t * r) for p in a.m]), c.dty)

# ------------------------------------------------------------------ fmt / panics / misc std
@model('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::new',
       'std::fmt::format', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::new_v1', 'core::fmt::rt::Argument::none', 'std::string::String::new',
       'std::convert::From::from for std::string::String', 'std::string::ToString::to_string', 'std::borrow::ToOwned::to_owned')
def m_fmt(x, c): return VOpq('fmt', x.fresh_int('str'))
@model('std::io::_print', 'std::io::_eprint')
def m_print(x, c): return UNIT
@model('std::hint::must_use', 'std::hint::black_box', 'core::hint::must_use')
def m_id(x, c): return c.args[0]
@model('intrinsic::cold_path', 'intrinsic::assume')
def m_nop(x, c):
    if c.args and isinstance(c.args[0], VBool): x.assume(zb(c.args[0].t))
    return UNIT
def _iless(x, a, b): return a.t < b.t if isinstance(a.t, int) and isinstance(b.t, int) else x.branch(zi(a.t) < zi(b.t))
def _ints(c): return all(isinstance(q, VInt) for q in c.args)
@model('intrinsic::integer_min')
def m_imin(x, c): return NotImplemented if not _ints(c) else c.args[1] if _iless(x, c.args[1], c.args[0]) else c.args[0]
@model('intrinsic::integer_max')
def m_imax(x, c): return NotImplemented if not _ints(c) else c.args[0] if _iless(x, c.args[1], c.args[0]) else c.args[1]
@model('intrinsic::saturating_sub')
def m_satsub(x, c):
    if not _ints(c) or c.args[0].signed: return NotImplemented
    return VInt(0, c.args[0].bits, False) if _iless(x, c.args[0], c.args[1]) else x.binop('Sub', c.args[0], c.args[1])
@model('intrinsic::likely', 'intrinsic::unlikely')
def m_likely(x, c): return c.args[0]
@model('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt', 'std::rt::begin_panic',
       'core::panicking::panic_bounds_check', 'core::option::unwrap_failed', 'std::option::unwrap_failed', 'core::result::unwrap_failed', 'std::result::unwrap_failed',
       'core::option::expect_failed', 'std::option::expect_failed', 'core::panicking::unreachable_display', 'core::panicking::assert_failed', 'std::rt::panic_fmt',
       'core::cell::panic_already_borrowed', 'core::cell::panic_already_mutably_borrowed')
def m_panic(x, c): raise Panic(c.mname, x.where)
@model('std::clone::Clone::clone', 'std::clone::Clone::clone_from')
def m_clone(x, c): return x.deref(c.args[0])
@model('std::mem::replace')
def m_replace(x, c):
    r, a = x.ref_target(c.args[0]); x.store_to(r.root, r.path, c.args[1]); return a
@model('std::mem::take')
def m_take(x, c):
    r, a = x.ref_target(c.args[0])
    if isinstance(a, VSet): n = VSet(z3.K(IntS, z3.BoolVal(False)))
    elif isinstance(a, VVec): n = VVec(0, (), None, a.tpl)
    elif isinstance(a, VEnum): n = VEnum(0, {0: ()}, a.tid)
    elif isinstance(a, Fl): n = fin(0)
    else: raise Unsupported('mem::take')
    x.store_to(r.root, r.path, n); return a
@model('std::mem::swap')
def m_swap(x, c):
    r, a = x.ref_target(c.args[0]); s, b = x.ref_target(c.args[1])
    x.store_to(r.root, r.path, b); x.store_to(s.root, s.path, a); return UNIT
@model('std::mem::drop', 'core::mem::drop')
def m_drop(x, c): x.drop_val(c.args[0]); return UNIT
@model('std::cmp::PartialEq::eq for generational_arena::Index')
def m_heq(x, c): return VBool(x.is_eq(x.deref(c.args[0]).t, x.deref(c.args[1]).t))
@model('std::cmp::PartialEq::ne for generational_arena::Index')
def m_hne(x, c): return VBool(not x.is_eq(x.deref(c.args[0]).t, x.deref(c.args[1]).t))
@model('std::borrow::BorrowMut::borrow_mut', 'std::borrow::Borrow::borrow', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut')
def m_bm(x, c):
    if c.shead.startswith('&') or isinstance(c.args[0], VRef):
        r, v = x.ref_target(c.args[0])
        return VRef(r.root, r.path, None, True)
    return NotImplemented
@model('std::convert::Into::into', 'std::convert::From::from')
def m_into(x, c):
    v = c.args[0]
    if isinstance(v, VInt):
        t = x.prog.types[c.dty]
        if t['k'] == 'int': return VInt(v.t, t['bits'], t['signed'])
        if t['k'] == 'float': return fin(v.t) if isinstance(v.t, int) else Fl('f', atom(z3.ToReal(v.t)))
    if c.atys[0] == c.dty: return v
    return NotImplemented

# ------------------------------------------------------------------ RefCell / Box
@model('std::cell::RefCell::new')
def m_rcnew(x, c): return VCell(c.args[0], 0)
@model('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut')
def m_rcb(x, c):
    mut = c.mname.endswith('_mut')
    r, v = x.ref_target(c.args[0])
    if not isinstance(v, VCell): raise Unsupported('RefCell expected, got %r' % v)
    if (v.flag != 0) if mut else (v.flag < 0): raise Panic('RefCell already borrowed', x.where)
    x.store_to(r.root, r.path, VCell(v.v, -1 if mut else v.flag + 1))
    return VGuard(r.root, r.path, mut)
@model('std::cell::RefCell::get_mut')
def m_rcgm(x, c):
    r, v = x.ref_target(c.args[0]); return VRef(r.root, r.path + (('cell',),), None, True)
@model('std::cell::RefCell::into_inner')
def m_rcii(x, c): return x.deref(c.args[0]).v
@model('std::ops::Deref::deref for std::cell::Ref', 'std::ops::Deref::deref for std::cell::RefMut', 'std::ops::DerefMut::deref_mut for std::cell::RefMut')
def m_gd(x, c):
    g = x.deref(c.args[0])
    return VRef(g.root, g.path + (('cell',),), None, g.mut)
@model('std::boxed::Box::new')
def m_boxnew(x, c): return VBox(c.args[0])
@model('std::boxed::Box::new_uninit')
def m_boxun(x, c): return VBox(VOpq('uninit'))
@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(x, c):
    b = c.args[0]
    v = b.v if isinstance(b, VBox) else b
    while isinstance(v, VAgg) and v.tid is not None and x.prog.types[v.tid]["k"] != "array" and len(v.f) == 1:
        if isinstance(v, VAgg) and len(v.f) == 1: v = v.f[0]
        else: break
    if not isinstance(v, VAgg): raise Unsupported('vec! of %r' % v)
    return VVec(len(v.f), tuple(v.f), None, x.prog.tpl(c.dty)[1])
@model('std::boxed::Box::into_inner')
def m_boxii(x, c): return c.args[0].v

# ------------------------------------------------------------------ dyn Any
@model('downcast_rs::Downcast::as_any', 'downcast_rs::Downcast::as_any_mut', 'InternalCollider::as_any', 'dyn::as_any', 'dyn::as_any_mut')
def m_asany(x, c):
    r, v = x.ref_target(c.args[0]); return VRef(r.root, r.path, None, r.mut)
def _targ_tag(x, c):
    for t in c.fty.get('targs', []):
        ty = x.prog.types[t]
        if ty['k'] == 'adt':
            import re
            m = re.match(r'.*Internal(\w+)Collider$', ty['name'])
            if m and m.group(1) in TAGS: return TAGS.index(m.group(1))
    raise Unsupported('downcast to %s' % c.fty.get('targs'))
def _downcast(x, c):
    tag = _targ_tag(x, c)
    r, v = x.ref_target(c.args[0])
    if isinstance(v, VBox): v = v.v
    if not isinstance(v, VDyn): raise Unsupported('downcast of %r' % v)
    if x.branch(v.tag == tag if not isinstance(v.tag, int) else v.tag == tag):
        return some(VRef(r.root, r.path + (('impl', tag),), None, r.mut), c.dty)
    return none(c.dty)
for _n in ("dyn std::any::Any + 'static::downcast_ref", "dyn std::any::Any + 'static::downcast_mut"): MODELS[_n] = _downcast
@model("dyn std::any::Any + 'static::is")
def m_is(x, c):
    tag = _targ_tag(x, c); r, v = x.ref_target(c.args[0])
    return VBool(v.tag == tag)

# ------------------------------------------------------------------ arena
def arena_at(x, a):
    r, v = x.ref_target(a)
    if not isinstance(v, VArena): raise Unsupported('arena expected, got %r' % type(v).__name__)
    return r, v
def present(x, v, h):
    x.unit.instantiate(x, v.kind, h)
    return x.sel(v.present, h)
@model('generational_arena::Arena::get', 'generational_arena::Arena::get_mut')
def m_aget(x, c):
    r, v = arena_at(x, c.args[0]); h = c.args[1].t
    if x.branch(present(x, v, h)):
        return some(VRef(r.root, r.path + (('a', x.rep(h)),), None, c.mname.endswith('mut')), c.dty)
    return none(c.dty)
@model('generational_arena::Arena::get2_mut')
def m_aget2(x, c):
    r, v = arena_at(x, c.args[0]); h1, h2 = c.args[1].t, c.args[2].t
    if x.is_eq(h1, h2): raise Panic('get2_mut of the same slot', x.where)
    o = []
    for h in (h1, h2):
        o.append(some(VRef(r.root, r.path + (('a', x.rep(h)),), None, True)) if x.branch(present(x, v, h)) else none())
    return VAgg(o, c.dty)
@model('generational_arena::Arena::contains')
def m_acont(x, c):
    r, v = arena_at(x, c.args[0]); return VBool(present(x, v, c.args[1].t))
@model('generational_arena::Arena::insert')
def m_ains(x, c):
    r, v = arena_at(x, c.args[0])
    h = x.fresh_int('new_' + v.kind)
    x.assume(z3.Not(x.sel(v.issued, h)))
    x.unit.instantiate(x, v.kind, h)
    x.unit.fresh_handle(x, v.kind, h)
    el = x.write_at(v.el, h, c.args[1])
    x.store_to(r.root, r.path, VArena(z3.Store(v.present, h, z3.BoolVal(True)), z3.Store(v.issued, h, z3.BoolVal(True)), el, v.kind))
    return VH(h)
@model('generational_arena::Arena::remove')
def m_arem(x, c):
    r, v = arena_at(x, c.args[0]); h = x.rep(c.args[1].t)
    if not x.branch(present(x, v, h)): return none(c.dty)
    val = x.rebuild_at(v.el, h)
    x.store_to(r.root, r.path, VArena(z3.Store(v.present, h, z3.BoolVal(False)), v.issued, v.el, v.kind))
    return some(val, c.dty)
@model('generational_arena::Arena::new', 'generational_arena::Arena::with_capacity')
def m_anew(x, c):
    t = x.prog.tpl(c.dty)
    no = z3.K(IntS, z3.BoolVal(False))
    return VArena(no, no, Lifted(t[1], [x.fresh_arr(s, 'ar') for s in leaf_sorts(t[1])]), t[2])
def card(x, arr, base):
    """number of elements of a set (uninterpreted, non-negative)"""
    k = ('card', arr.get_id())
    if k not in x.memo:
        n = x.fresh_int('card'); x.assume(z3.And(n >= 0, n < 2**48))
        e = z3.K(IntS, z3.BoolVal(False))
        if arr.eq(e): n = z3.IntVal(0)
        x.memo[k] = n; x.memo[('keepcard', arr.get_id())] = arr
    return x.memo[k]
@model('generational_arena::Arena::len')
def m_alen(x, c):
    r, v = arena_at(x, c.args[0]); return VInt(card(x, v.present, 'len'))
@model('generational_arena::Arena::iter', 'generational_arena::Arena::iter_mut')
def m_aiter(x, c):
    r, v = arena_at(x, c.args[0]); return VIter('arena', ref=r, present=v.present, akind=v.kind, pos=0)
@model('std::iter::IntoIterator::into_iter for &generational_arena::Arena')
def m_aiter2(x, c): return m_aiter(x, c)

# ------------------------------------------------------------------ HashSet
NOSET = z3.K(IntS, z3.BoolVal(False))
def set_at(x, a):
    r, v = x.ref_target(a) if isinstance(a, VRef) else (None, a)
    if not isinstance(v, VSet): raise Unsupported('set expected, got %r' % type(v).__name__)
    return r, v
@model('std::collections::HashSet::new', 'std::collections::HashSet::with_capacity', 'std::default::Default::default for std::collections::HashSet')
def m_snew(x, c): return VSet(NOSET)
def hkey(x, v):
    v = x.deref(v)
    if not isinstance(v, VH): raise Unsupported('set of %r' % v)
    return x.rep(v.t)
def set_store(x, a, h, b):
    cur = x.sel(a, h)
    if b and z3.is_true(cur) or (not b and z3.is_false(cur)): return a
    return z3.Store(a, h, z3.BoolVal(b))
@model('std::collections::HashSet::contains')
def m_scont(x, c):
    r, v = set_at(x, c.args[0]); return VBool(x.sel(v.a, hkey(x, c.args[1])))
@model('std::collections::HashSet::insert')
def m_sins(x, c):
    r, v = set_at(x, c.args[0]); h = hkey(x, c.args[1])
    was = x.sel(v.a, h)
    x.store_to(r.root, r.path, VSet(set_store(x, v.a, h, True)))
    return VBool(z3.simplify(z3.Not(was)))
@model('std::collections::HashSet::remove')
def m_srem(x, c):
    r, v = set_at(x, c.args[0]); h = hkey(x, c.args[1])
    was = x.sel(v.a, h)
    x.store_to(r.root, r.path, VSet(set_store(x, v.a, h, False)))
    return VBool(was)
@model('std::collections::HashSet::clear')
def m_sclear(x, c):
    r, v = set_at(x, c.args[0]); x.store_to(r.root, r.path, VSet(NOSET)); return UNIT
@model('std::collections::HashSet::len')
def m_slen(x, c):
    r, v = set_at(x, c.args[0]); return VInt(card(x, v.a, 'len'))
@model('std::collections::HashSet::is_empty')
def m_sempty(x, c):
    r, v = set_at(x, c.args[0])
    if v.a.eq(NOSET): return VBool(True)
    e = v.a == NOSET
    if x.branch(e): return VBool(True)
    w = x.fresh_int('el'); x.assume(x.sel(v.a, w)); return VBool(False)
@model('std::collections::HashSet::iter', 'std::iter::IntoIterator::into_iter for &std::collections::HashSet')
def m_siter(x, c):
    r, v = set_at(x, c.args[0]); return VIter('set', a=v.a, byref=True)
@model('std::iter::IntoIterator::into_iter for std::collections::HashSet', 'std::collections::HashSet::drain')
def m_sinto(x, c):
    r, v = set_at(x, c.args[0])
    if c.mname.endswith('drain'): x.store_to(r.root, r.path, VSet(NOSET))
    return VIter('set', a=v.a, byref=False)
@model('std::iter::Extend::extend')
def m_sext(x, c):
    r, v = x.ref_target(c.args[0]); it = x.deref(c.args[1])
    if isinstance(v, VSet):
        b = it.a if isinstance(it, VSet) else it.d['a'] if isinstance(it, VIter) and it.kind in ('set', 'map_id') else None
        if b is None: return NotImplemented
        x.store_to(r.root, r.path, VSet(set_union(v.a, b))); return UNIT
    return NotImplemented
def set_union(a, b):
    k = z3.Int('h!u')
    return z3.Lambda([k], z3.Or(z3.Select(a, k), z3.Select(b, k)))
@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_cloned(x, c):
    it = c.args[0]
    if isinstance(it, VIter) and it.kind == 'set': return it.with_(byref=False)
    if isinstance(it, VIter) and it.kind == 'slice': return it.with_(byval=True)
    return NotImplemented

# ------------------------------------------------------------------ Vec / VecDeque / slices
def vec_tpl(x, ty):
    t = x.prog.tpl(ty)
    while t[0] in ('box',): t = t[1]
    return t[1]
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new', 'std::collections::VecDeque::with_capacity')
def m_vnew(x, c):
    t = vec_tpl(x, c.dty)
    if t[0] == 'H' and x.unit.udef.opts.get('cut'): return VBag(NOSET)
    return VVec(0, (), None, t)
def bag_pop(x, r, v):
    """any element; whether it occurs more than once is left open"""
    if v.a.eq(NOSET): return None
    if x.choose(2) == 0:
        for k in set_probes_all(x): x.assume(z3.Not(x.to_b(x.sel(v.a, k))))
        x.assume(v.a == NOSET)
        return None
    h = x.fresh_int('popped')
    x.assume(x.to_b(x.sel(v.a, h)))
    h = x.rep(h)
    x.unit.instantiate(x, 'entity', h)
    if not any(h.eq(x.rep(o)) for o in x.probes.setdefault('entity', [])): x.probes['entity'].append(h)
    x.store_to(r.root, r.path, VBag(v.a) if x.choose(2) else VBag(z3.Store(v.a, h, z3.BoolVal(False))))
    return h
def set_probes_all(x): return [x.rep(h) for k in x.handles for h in x.handles[k]]
@model('std::collections::VecDeque::pop_front')
def m_vpopf(x, c):
    r, v = x.ref_target(c.args[0])
    if not isinstance(v, VBag): return NotImplemented
    h = bag_pop(x, r, v)
    return none(c.dty) if h is None else some(VH(h), c.dty)
def vec_at(x, a):
    r, v = x.ref_target(a)
    if not isinstance(v, VVec): raise Unsupported('vec expected, got %r' % type(v).__name__)
    return r, v
MAXCONC = 16
@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def m_vpush(x, c):
    r, v = x.ref_target(c.args[0])
    if isinstance(v, VBag):
        x.store_to(r.root, r.path, VBag(set_store(x, v.a, hkey(x, c.args[1]), True))); return UNIT
    r, v = vec_at(x, c.args[0]); val = c.args[1]
    if v.conc is not None: new = VVec(v.n + 1, v.conc + (val,), None, v.tpl)
    else:
        el = x.write_at(v.el, zi(v.n), val)
        new = VVec(z3.simplify(zi(v.n) + 1), None, el, v.tpl)
    x.store_to(r.root, r.path, new)
    return UNIT
@model('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def m_vpop(x, c):
    r, v = x.ref_target(c.args[0])
    if isinstance(v, VBag):
        h = bag_pop(x, r, v)
        return none(c.dty) if h is None else some(VH(h), c.dty)
    r, v = vec_at(x, c.args[0])
    if v.conc is not None:
        if not v.conc: return none(c.dty)
        x.store_to(r.root, r.path, VVec(v.n - 1, v.conc[:-1], None, v.tpl)); return some(v.conc[-1], c.dty)
    if x.branch(zi(v.n) > 0):
        n = z3.simplify(zi(v.n) - 1)
        val = x.rebuild_at(v.el, n)
        x.store_to(r.root, r.path, VVec(n, None, v.el, v.tpl)); return some(val, c.dty)
    return none(c.dty)
@model('std::vec::Vec::clear', 'std::collections::VecDeque::clear')
def m_vclear(x, c):
    r, v = vec_at(x, c.args[0]); x.store_to(r.root, r.path, VVec(0, (), None, v.tpl)); return UNIT
def _seq(x, a):
    """(ref, value, offset, length)"""
    r = a
    meta = r.meta
    while True:
        v = x.load(r.root, r.path)
        if isinstance(v, VRef):
            r = v; meta = r.meta or meta
        else: break
    if meta and meta[0] == 'slice': return r, v, meta[1], meta[2]
    return r, v, 0, x.seq_len(v)
def is_slice_meta(m): return m and m[0] == 'slice'
@model('std::vec::Vec::len', '*::VecDeque::len')
def m_vlen(x, c):
    r, v, o, n = _seq(x, c.args[0]); return VInt(n)
@model('std::vec::Vec::is_empty', '*::VecDeque::is_empty')
def m_vemp(x, c):
    r, v, o, n = _seq(x, c.args[0]); return VBool(n == 0)
@model('std::ops::Deref::deref for std::vec::Vec', 'std::ops::DerefMut::deref_mut for std::vec::Vec', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice')
def m_vderef(x, c):
    r, v, o, n = _seq(x, c.args[0]); return VRef(r.root, r.path, ('slice', o, n), r.mut)
@model('std::ops::Index::index for std::vec::Vec', 'std::ops::IndexMut::index_mut for std::vec::Vec')
def m_vidx(x, c):
    r, v, o, n = _seq(x, c.args[0])
    i = c.args[1]
    if not isinstance(i, VInt): raise Unsupported('index by %r' % i)
    ok = (i.t < n) if isinstance(i.t, int) and isinstance(n, int) else zi(i.t) < zi(n)
    if not (ok if isinstance(ok, bool) else x.branch(ok)): raise Panic('index out of bounds', x.where)
    k = i.t if isinstance(o, int) and o == 0 else (o + i.t if isinstance(o, int) and isinstance(i.t, int) else zi(o) + zi(i.t))
    x.unit.index_access(x, r, v, k)
    return VRef(r.root, r.path + (('e', k),), None, True)
@model('std::vec::Vec::get', 'core::slice::get', 'std::collections::VecDeque::get')
def m_vget(x, c):
    r, v, o, n = _seq(x, c.args[0]); i = c.args[1]
    ok = (i.t < n) if isinstance(i.t, int) and isinstance(n, int) else zi(i.t) < zi(n)
    if not (ok if isinstance(ok, bool) else x.branch(ok)): return none(c.dty)
    return some(VRef(r.root, r.path + (('e', i.t if o == 0 else zi(o) + zi(i.t)),), None, True), c.dty)
def slice_iter(x, a, mut):
    r, v, o, n = _seq(x, a)
    return VIter('slice', ref=VRef(r.root, r.path, None, mut), off=o, n=n, pos=0)
@model('std::iter::IntoIterator::into_iter for &std::vec::Vec', 'std::vec::Vec::iter', 'std::vec::Vec::iter_mut')
def m_viter(x, c): return slice_iter(x, c.args[0], c.args[0].mut)
@model('std::iter::IntoIterator::into_iter for std::vec::Vec')
def m_vinto(x, c):
    v = c.args[0]
    return VIter('vec', v=v, pos=0)
@model('std::iter::IntoIterator::into_iter')
def m_into_id(x, c):
    v = c.args[0]
    if isinstance(v, VIter): return v
    if isinstance(v, VAgg) and c.shead.startswith('std::ops::Range') or isinstance(v, VAgg) and 'Range' in c.shead:
        return v
    if isinstance(v, VRef):
        t = x.deref(v)
        if isinstance(t, VIter): return v
        if isinstance(t, (VVec, VAgg)) : return slice_iter(x, v, v.mut)
        if isinstance(t, VSet): return VIter('set', a=t.a, byref=True)
    return NotImplemented
@model('*::EntityStepInfo]::split_at_mut')
def m_split(x, c): return split_at(x, c)
def split_at(x, c):
    r, v, o, n = _seq(x, c.args[0]); k = c.args[1].t
    ok = (k <= n) if isinstance(k, int) and isinstance(n, int) else zi(k) <= zi(n)
    if not (ok if isinstance(ok, bool) else x.branch(ok)): raise Panic('split_at_mut out of range', x.where)
    def plus(a, b): return a + b if isinstance(a, int) and isinstance(b, int) else z3.simplify(zi(a) + zi(b))
    def minus(a, b): return a - b if isinstance(a, int) and isinstance(b, int) else z3.simplify(zi(a) - zi(b))
    return VAgg([VRef(r.root, r.path, ('slice', o, k), True), VRef(r.root, r.path, ('slice', plus(o, k), minus(n, k)), True)], c.dty)
def slice_method(name):
    return {'split_at_mut': split_at, 'split_at': split_at,
            'len': lambda x, c: VInt(_seq(x, c.args[0])[3]),
            'contains': lambda x, c: MODELS['core::slice::contains'](x, c),
            'is_empty': lambda x, c: VBool(_seq(x, c.args[0])[3] == 0),
            'iter': lambda x, c: slice_iter(x, c.args[0], False), 'iter_mut': lambda x, c: slice_iter(x, c.args[0], True),
            }.get(name)
@model('std::iter::Iterator::enumerate')
def m_enum(x, c):
    return VIter('enumerate', it=c.args[0], pos=0)

# ---- iterators.  A symbolic iteration is driven by the loop handler through the 'force' entry.
def iter_next(x, it):
    """-> (value or None, new iterator); raises Unsupported when it cannot step concretely"""
    if isinstance(it, VAgg): return range_next(x, it)
    fo = it.d.get('force')
    if fo is not None:
        it2 = VIter(it.kind, **{k: v for k, v in it.d.items() if k != 'force'})
        if fo == 'end': return None, it2.with_(done=True)
        import iters
        return iters.made(x, it2, fo[1]), it2
    if it.d.get('done'): return None, it
    k = it.kind
    if k == 'slice':
        p, n = it.d['pos'], it.d['n']
        if isinstance(n, int) and isinstance(p, int):
            if p >= n: return None, it.with_(done=True)
            return elem_at(x, it, p), it.with_(pos=p + 1)
    elif k == 'vec':
        v = it.d['v']
        if isinstance(v.n, int):
            p = it.d['pos']
            if p >= v.n: return None, it.with_(done=True)
            return elem_at(x, it, p), it.with_(pos=p + 1)
    elif k == 'enumerate':
        val, i2 = iter_next(x, it.d['it'])
        if val is None: return None, it.with_(it=i2, done=True)
        return VAgg([VInt(it.d['pos']), val]), it.with_(it=i2, pos=it.d['pos'] + 1)
    elif k in ('map', 'filter', 'filter_map', 'deref'):
        import iters
        while True:
            val, i2 = iter_next(x, it.d['it'])
            it = it.with_(it=i2)
            if val is None: return None, it.with_(done=True)
            try: return iters.through(x, it, val), it
            except iters.Skip: pass
    elif k == 'zip':
        a, i2 = iter_next(x, it.d['it'])
        if a is None: return None, it.with_(done=True)
        b, j2 = iter_next(x, it.d['jt'])
        if b is None: return None, it.with_(done=True)
        return VAgg([a, b]), it.with_(it=i2, jt=j2)
    elif k == 'set':
        if it.d['a'].eq(NOSET): return None, it.with_(done=True)
    elif k == 'arena':
        if it.d['present'].eq(NOSET): return None, it.with_(done=True)
    raise Unsupported('iterator step outside a loop: %s in %s' % (k, x.where))
def range_next(x, it):
    lo, hi = it.f[0], it.f[1]
    if isinstance(lo.t, int) and isinstance(hi.t, int):
        if lo.t >= hi.t: return None, it
        return lo, VAgg((VInt(lo.t + 1, lo.bits, lo.signed), hi) + it.f[2:], it.tid)
    raise Unsupported('iterator step outside a loop: range in %s' % x.where)
def elem_at(x, it, p):
    """the element of iterator `it` at (symbolic) position p"""
    k = it.kind
    if k == 'slice':
        r = it.d['ref']; o = it.d['off']
        i = p if isinstance(o, int) and o == 0 else (o + p if isinstance(o, int) and isinstance(p, int) else z3.simplify(zi(o) + zi(p)))
        ref = VRef(r.root, r.path + (('e', i),), None, r.mut)
        return x.load(ref.root, ref.path) if it.d.get('byval') else ref
    if k == 'vec': 
        v = it.d['v']
        return x.get1(v, ('e', p))
    if k == 'enumerate': return VAgg([VInt(p), elem_at(x, it.d['it'], p)])
    if k == 'set':
        h = VH(p)
        return x.temp(h) if it.d['byref'] else h
    if k == 'arena':
        r = it.d['ref']
        return VAgg([VH(p), VRef(r.root, r.path + (('a', p),), None, True)])
    raise Unsupported('element of ' + k)
@model('std::iter::Iterator::next')
def m_next(x, c):
    r, it = x.ref_target(c.args[0])
    if isinstance(it, VAgg) and 'Range' in c.shead:
        lo, hi = it.f[0], it.f[1]
        fo = it.g
        if isinstance(fo, tuple) and fo[0] == 'force':
            x.store_to(r.root, r.path, VAgg(it.f, it.tid, None))
            return none(c.dty) if fo[1] == 'end' else some(fo[1][1], c.dty)
        if isinstance(lo.t, int) and isinstance(hi.t, int):
            if lo.t >= hi.t: return none(c.dty)
            x.store_to(r.root, r.path, VAgg((VInt(lo.t + 1, lo.bits, lo.signed), hi) + it.f[2:], it.tid))
            return some(lo, c.dty)
        if x.branch(zi(lo.t) < zi(hi.t)):
            x.store_to(r.root, r.path, VAgg((VInt(z3.simplify(zi(lo.t) + 1), lo.bits, lo.signed), hi) + it.f[2:], it.tid))
            return some(lo, c.dty)
        return none(c.dty)
    if isinstance(it, VIter):
        v, it2 = iter_next(x, it)
        x.store_to(r.root, r.path, it2)
        return none(c.dty) if v is None else some(v, c.dty)
    return NotImplemented
