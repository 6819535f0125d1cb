"""Models of the external libraries the code under verification uses.  Everything here is a trusted contract."""
import builtins
import math as pymath
import numbers
import types
import z3
from . import core, vec, arr
from .core import (XR, SB, SInt, Unsupported, PathEnd, ZERO, ONE, band, bor, bnot, bimp, b_of, constdom, fresh_xr,
                   is_b, isnum, lift, mkb, numval, rc, xite, xmax, xmin, xfmax, xfmin, FLOATCLS)
from .vec import VE, BE, ME, Mat, Fac, C, ew, bew, vadd, vmul, vscale, vconst, settle_vec, list_vec, me_identity, \
    me_zero, me_diag, me_outer, me_cols
from .arr import (ndarray, SVec, SBVec, SIdx, SMat, SBMat, SSparse, SRows, is_scalar, asvec, dom_of, argmin_list,
                  np_bin, expand_dims, vfin)

# contracts that are assumed about library functions; what a task actually used is reported with its result
TRUSTED = {
    'eig': 'numpy.linalg.eig/eigvals: finite eigenvalues, unit eigenvectors, exact',
    'eigh': 'numpy/scipy eigh: exact decomposition V diag(e) V^T of a symmetric matrix, V orthogonal, e ascending',
    'orth': 'scipy.linalg.orth: orthonormal columns spanning the range, at most as many as given; rows that were zero are zero up to rounding',
    'lstsq': 'scipy.linalg.lstsq: some finite vector (called Newton direction whatever it is; nothing else is assumed)',
    'cond': 'numpy.linalg.cond: some number or inf',
    'newton': 'scipy.optimize.newton: an exact root of the function it is given, or RuntimeError',
    'brentq': 'scipy.optimize.brentq: an exact root inside the bracket; ValueError without a change of sign',
    'trust-constr': 'scipy.optimize.minimize: some finite vector',
    'clock': 'time.time: does not run backwards',
    'h5py': 'h5py: groups and datasets are written as requested',
    'uuid': 'uuid.uuid1: a string different from all others',
    'sqrt': 'square roots, norms and divisions are exact (real arithmetic)',
}
USED = set()


def use(name):
    USED.add(name)


class Module(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'no model of {self.__name__}.{a}')


# -------------------------------------------------------------------- numpy
def v1(x):
    x = asvec(x) if isinstance(x, (list, tuple)) else x
    if isinstance(x, SBVec):
        return x.tofloat()
    return x


def shape_dims(shape):
    if type(shape) in (int, SInt):
        return (shape,)
    return tuple(shape)


def filled(shape, x):
    d = shape_dims(shape)
    if len(d) == 0:
        return x
    if len(d) == 1:
        return SVec(vconst(dom_of(d[0]), x))
    if len(d) == 2:
        r, c = dom_of(d[0]), dom_of(d[1])
        if isnum(lift(x).val) and numval(lift(x).val) == 0:
            return SMat(me_zero(r, c))
        if isinstance(c.n, int):
            return SMat(me_cols([vconst(r, x) for _ in range(c.n)]) if c.n else me_zero(r, c))
        if isinstance(r.n, int):
            return SMat(me_cols([vconst(c, x) for _ in range(r.n)]).T() if r.n else me_zero(r, c))
        return SMat(me_outer(vconst(r, x), vconst(c, 1)))
    raise Unsupported('array of this shape')


def np_zeros(shape, dtype=None, **k):
    r = filled(shape, 0)
    if dtype is int and isinstance(r, SVec):
        r.isint = True
    if dtype is bool:
        return SBVec(vec.bconst(r.dom, False))
    return r


def np_ones(shape, dtype=None, **k):
    r = filled(shape, 1)
    if dtype is int and isinstance(r, SVec):
        r.isint = True
    if dtype is bool:
        return SBVec(vec.bconst(r.dom, True))
    return r


def np_full(shape, x, **k):
    return filled(shape, x)


def like(x, val):
    if isinstance(x, SVec):
        if x.mask is not None:
            return SVec(vconst(x.dom, val), x.mask, x.isint)
        return SVec(vconst(x.dom, val), isint=x.isint)
    if isinstance(x, SBVec):
        return SBVec(vec.bconst(x.dom, bool(val)))
    if isinstance(x, SMat):
        return filled(x.shape, val)
    if is_scalar(x):
        return lift(val)
    if isinstance(x, (list, tuple)):
        return like(asvec(x), val)
    raise Unsupported('zeros_like')


def np_empty(shape, **k):
    d = shape_dims(shape)
    if len(d) == 1:
        dom = dom_of(d[0])
        if dom.n == 0:
            return SVec(VE(dom, {}))
        return SVec(vec.base_vec('empty', dom, finite=False))
    r, c = dom_of(d[0]), dom_of(d[1])
    if r.n == 0 or c.n == 0:
        return SMat(me_zero(r, c))
    return SMat(Mat('empty', r, c, finite=C().fresh('empty.fin', 'B')).me())


def np_eye(n, *a, **k):
    if a or k:
        raise Unsupported('eye')
    return SMat(me_identity(dom_of(n)))


def np_diag(x):
    if isinstance(x, SVec):
        return SMat(me_diag(x.v))
    if isinstance(x, SMat):
        return x.diagonal()
    raise Unsupported('diag')


def np_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SVec):
        r = x.copy()
        if dtype is float:
            r.isint = False
        return r
    if isinstance(x, (SMat, SBVec)):
        return x.copy()
    if isinstance(x, (list, tuple)):
        r = asvec(x)
        if isinstance(r, SVec):
            r = r.copy()
            if dtype is float:
                r.isint = False
        return r
    if is_scalar(x):
        return Arr0(x)
    raise Unsupported(f'np.array of {type(x).__name__}')


class Arr0(ndarray):
    """zero-dimensional array"""
    ndim = 0
    shape = ()

    def __init__(self, x):
        self.x = x

    def copy(self):
        return self

    def item(self):
        return self.x

    def _as_xr(self):
        return lift(self.x)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, (SVec,)):
        if dtype is float and x.isint:
            return np_array(x, dtype)
        return x
    if isinstance(x, (SMat, SBVec, Arr0)):
        return x
    if isinstance(x, SSparse):
        raise Unsupported('asarray of a sparse matrix gives an object array')
    return np_array(x, dtype)


def unary(name, f, keepfin=True):
    def g(x, *a, **k):
        x = v1(x)
        if is_scalar(x):
            return f(lift(x))
        if isinstance(x, SVec):
            v = settle_vec(x.v)
            r = ew(name, f, [v], finite=v.finite and keepfin)
            if not keepfin:
                r = settle_vec(r)
            return SVec(r, x.mask)
        if isinstance(x, Arr0):
            return f(lift(x.x))
        if isinstance(x, SMat) and name == 'real':
            return x
        raise Unsupported(name)
    return g


def x_sign(a):
    v = core.rite(core.rlt(ZERO, a.val), ONE, core.rite(core.rlt(a.val, ZERO), rc(-1), ZERO))
    v = core.rite(a.pinf, ONE, core.rite(a.ninf, rc(-1), v))
    return XR(v, a.nan)


np_abs0 = unary('abs', lambda a: abs(a))


def np_abs(x):
    if type(x) is SInt:
        return abs(x)
    return np_abs0(x)


np_sign = unary('sign', x_sign)
np_sqrt0 = unary('sqrt', lambda a: a.sqrt(), keepfin=False)


def np_sqrt(x):
    return np_sqrt0(x)


def np_real(x):
    return x


def np_isfinite(x):
    x = v1(x)
    if is_scalar(x):
        return mkb(lift(x).fin)
    if isinstance(x, SVec):
        if x.v.finite:
            return SBVec(vec.bconst(x.dom, True), x.mask)
        return SBVec(bew('isfin', lambda a: a.fin, [x.v]), x.mask)
    if isinstance(x, SMat):
        return SBMat(x, 'isfinite')
    raise Unsupported('isfinite')


def np_isnan(x):
    x = v1(x)
    if is_scalar(x):
        return mkb(lift(x).nan)
    if isinstance(x, SVec):
        return SBVec(bew('isnan', lambda a: a.nan, [x.v]), x.mask)
    raise Unsupported('isnan')


def np_isinf(x):
    x = v1(x)
    if is_scalar(x):
        return mkb(lift(x).inf)
    if isinstance(x, SVec):
        return SBVec(bew('isinf', lambda a: a.inf, [x.v]), x.mask)
    raise Unsupported('isinf')


def np_any(x, axis=None):
    x = asvec(x) if isinstance(x, (list, tuple)) else x
    return x.any(axis) if axis is not None else x.any()


def np_all(x, axis=None):
    x = asvec(x) if isinstance(x, (list, tuple)) else x
    return x.all(axis) if axis is not None else x.all()


def np_logical_not(x):
    if isinstance(x, (SBVec, SBMat)):
        return ~x
    if type(x) in (bool, SB):
        return mkb(bnot(b_of(x)))
    raise Unsupported('logical_not')


def np_logical_and(a, b):
    return a & b


def np_logical_or(a, b):
    return a | b


def np_where(c, *ab):
    if isinstance(c, SBMat) and not ab:
        return (OpaqueIdx(), OpaqueIdx())
    if not ab:
        if c.mask is not None:
            raise Unsupported('where of a masked vector')
        return (SIdx(c.v),)
    a, b = ab
    if type(c) in (bool, SB):
        return xite(b_of(c), a, b)
    av = a.v if isinstance(a, SVec) else vconst(c.dom, a)
    bv = b.v if isinstance(b, SVec) else vconst(c.dom, b)
    r = vec.where(c.v, av, bv)
    return SVec(settle_vec(r), c.mask)


class OpaqueIdx(ndarray):
    opaque = True

    def __format__(self, s):
        return '<idx>'
    __repr__ = __str__ = lambda s: '<idx>'


def np_vstack(xs):
    return SRows([v1(x) for x in xs])


def np_column_stack(xs):
    return SRows([v1(x) for x in xs]).T


def np_min(x, axis=None):
    if isinstance(x, SRows) or isinstance(x, (list, tuple)) and any(isinstance(e, SVec) for e in x):
        return (x if isinstance(x, SRows) else SRows(list(x))).min(axis)
    if isinstance(x, (list, tuple)):
        return fold(x, xmin)
    return x.min()


def np_max(x, axis=None):
    if isinstance(x, SRows) or isinstance(x, (list, tuple)) and any(isinstance(e, SVec) for e in x):
        return (x if isinstance(x, SRows) else SRows(list(x))).max(axis)
    if isinstance(x, (list, tuple)):
        return fold(x, xmax)
    return x.max()


def fold(x, f):
    xs = [lift(e) for e in x]
    if not xs:
        raise ValueError('zero-size array to reduction operation which has no identity')
    r = xs[0]
    for e in xs[1:]:
        r = f(r, e)
    return r


def np_nanmin(x):
    if isinstance(x, (list, tuple)):
        return fold(x, xfmin)
    raise Unsupported('nanmin')


def np_nanmax(x):
    if isinstance(x, (list, tuple)):
        return fold(x, xfmax)
    raise Unsupported('nanmax')


def np_argmin(x, *a):
    if isinstance(x, (list, tuple)):
        return argmin_list(x)
    return x.argmin()


def np_argmax(x, *a):
    if isinstance(x, (list, tuple)):
        return argmin_list(x, True)
    return x.argmax()


def np_dot(a, b):
    a, b = v1(a), v1(b)
    if is_scalar(a):
        return a * b
    return a.dot(b)


def np_outer(a, b):
    return SMat(me_outer(vfin(a.v), vfin(b.v)))


def np_array_equal(a, b):
    a, b = v1(a), v1(b)
    if isinstance(a, SVec) and isinstance(b, SVec):
        if not vec.same_d(a.dom, b.dom):
            if not core.CTX.branch(a.dom.nz == b.dom.nz):
                return False
            raise Unsupported('dimensions equal by accident')
        return b2py(vec.all_equal(a.v, b.v))
    raise Unsupported('array_equal')


def b2py(x):
    return x


def np_isscalar(x):
    return is_scalar(x) or isinstance(x, str)


def np_power(a, b):
    if isinstance(a, SVec) or is_scalar(a):
        return a ** b
    raise Unsupported('power')


def np_spacing(x):
    if type(x) in (int, float):
        import numpy
        return lift(float(numpy.spacing(x)))
    # spacing of a symbolic number: an arbitrary small positive number (idealised)
    r = fresh_xr('spacing')
    C().add(r.val > 0)
    C().ghost.setdefault('spacings', []).append(r)
    return r


class FInfo:
    def __init__(self, t=None):
        self.tiny = self.smallest_normal = lift(2.2250738585072014e-308)
        self.eps = lift(2.220446049250313e-16)
        self.max = lift(1.7976931348623157e308)


def np_isclose(a, b, **k):
    raise Unsupported('isclose')


def np_count_nonzero(x):
    if isinstance(x, SBVec):
        return x.sum()
    return (x != 0).sum()


def np_sum(x, axis=None):
    return v1(x).sum()


def np_norm(x, ord=None, **k):
    if is_scalar(x) or isinstance(x, Arr0):
        return abs(lift(x))
    if isinstance(x, SVec):
        if ord is None or ord == 2:
            return vec.norm2(x.v if x.mask is None else vec.where(x.mask, x.v, vconst(x.dom, 0)))
        if x.mask is not None:
            raise Unsupported('norm of a masked vector')
        if type(ord) is float and pymath.isinf(ord) and ord > 0:
            return vec.red_min(arr.v_abs(x.v), None, True)
    raise Unsupported('norm')


def np_eig(a):
    """eigendecomposition (contract used: real for symmetric matrices; eigenvectors are nonzero)"""
    use('eig')
    me = a.me
    c = C()
    k = ('eig', arr.mekey(me))
    if k not in c.memo:
        c.keep.append(me)
        e = vec.base_vec('ev', me.rdom, finite=True)
        V = Mat('eigv', me.rdom, me.rdom)
        V.unitcols = True
        c.memo[k] = (e, V)
        c.ghost.setdefault('eig', []).append((me, e))
    e, V = c.memo[k]
    return SVec(e), EigVecs(V.me())


class EigVecs(SMat):
    """columns are eigenvectors: unit vectors"""
    def __getitem__(self, k):
        v = super().__getitem__(k)
        if isinstance(v, SVec):
            C().add(vec.normsq(v.v).val == 1)
            C().ghost.setdefault('eigvec_cols', []).append((v.v, k[1] if isinstance(k, tuple) else None))
            r = SVec(v.v)
            return r
        return v

    def copy(self, *a, **k):
        return EigVecs(self.me)


def np_eigvals(a):
    return np_eig(a)[0]


def sp_eigh(a, *r, **kw):
    """contract: for a symmetric matrix A = V diag(e) V^T with V orthogonal, e ascending"""
    use('eigh')
    if r or kw:
        raise Unsupported('eigh arguments')
    me = a.me
    c = C()
    if arr.mekey(me) != arr.mekey(me.T()):
        raise Unsupported('eigh of a matrix that is not symmetric')
    k = ('eigh', arr.mekey(me))
    if k not in c.memo:
        c.keep.append(me)
        e = vec.base_vec('ew', me.rdom, finite=True)
        V = Mat('V', me.rdom, me.rdom, orth=True)
        c.memo[k] = (e, V)
        c.ghost.setdefault('eigh', []).append((me, e, V))
    e, V = c.memo[k]
    return SVec(e), SMat(V.me())


def sp_orth(a, *r, **k):
    """contract: orthonormal basis of the range of a; at most as many columns; zero rows stay zero up to
    rounding (they are zero once the code sets them to zero)"""
    use('orth')
    me = a.me
    c = C()
    nk = c.fresh('ko', 'I')
    c.add(nk >= 0)
    c.add(nk <= me.cdom.nz)
    d = core.Dom(nk, 'ko')
    W = Mat('orth', me.rdom, d, orth=True)
    W.square = False
    W.soft = arr.rowzero(me)
    c.ghost.setdefault('orth', []).append((me, W))
    return SMat(W.me())


def sp_lstsq(a, b, *r, **k):
    """contract: returns a finite vector"""
    use('lstsq')
    x = vec.base_vec('lstsq', a.me.cdom, finite=True)
    C().ghost.setdefault('lstsq', []).append((a.me, b.v, x))
    return (SVec(x), None, None, None)


def np_cond(a):
    use('cond')
    r = fresh_xr('cond', False, kinds=('pinf',))
    return r


def copysign(x, y):
    x, y = lift(x), lift(y)
    if not x.static or not y.static:
        x, y = x.settle(), y.settle()
    a = abs(x)
    # the sign of zero is undetermined
    if isnum(y.val):
        s = numval(y.val)
        if s != 0:
            return a if s > 0 else -a
        return a if C().choose('signzero') else -a
    if core.CTX.branch(y.val > 0):
        return a
    if core.CTX.branch(y.val < 0):
        return -a
    return a if C().choose('signzero') else -a


def math_sqrt(x):
    x = lift(x)
    if bool(mkb(x._neg())):
        raise ValueError('math domain error')
    return x.sqrt()


def py_like_float(x):
    return x


# -------------------------------------------------------------- root finders
class RootFinder:
    """newton returns a root or raises RuntimeError; brentq returns a root in the bracket (idealised: exact roots).
    With ghost['any root']: newton returns any finite number, brentq any number in the bracket or raises RuntimeError"""

    def __init__(self, name):
        self.name = name

    def __call__(self, f, x0, *rest, **kw):
        use(self.name)
        c = C()
        args = kw.get('args', ())
        if not isinstance(args, tuple):
            args = (args,)
        r = fresh_xr('root')
        loose = c.ghost.get('any root')
        if self.name == ('brentq' if loose else 'newton'):
            if c.choose('newton fails'):
                raise RuntimeError('Failed to converge')
        if self.name != 'newton':
            xb = rest[0] if rest else kw['b']
            fa, fb = lift(f(x0, *args)), lift(f(xb, *args))
            bad = bor(band(fa._pos(), fb._pos()), band(fa._neg(), fb._neg()))
            if bool(mkb(bad)):
                raise ValueError('f(a) and f(b) must have different signs')
            lo, hi = lift(x0), lift(xb)
            c.add(bimp(lo.fin, lo.val <= r.val))
            c.add(bimp(hi.fin, r.val <= hi.val))
        if loose:
            return r
        fr = lift(f(r, *args))
        c.assume(core.tob(fr._cmp_eq(lift(0))))
        c.ghost.setdefault('roots', []).append(r)
        return r


class OptResult:
    pass


def sp_minimize(fun, x0=None, **kw):
    """trust-constr: returns some finite vector"""
    use('trust-constr')
    x0 = kw.get('x0', x0)
    r = OptResult()
    r.x = SVec(vec.base_vec('refined', x0.dom, finite=True))
    C().ghost.setdefault('refined', []).append((r.x.v, kw))
    r.success = mkb(C().fresh('succ', 'B'))
    return r


class Opaque:
    """an object whose behaviour does not matter"""
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Opaque()

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return Opaque()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __format__(self, s):
        return '<opaque>'
    __str__ = __repr__ = lambda s: '<opaque>'

    def __or__(self, o):
        return self
    __ror__ = __or__


class LoggerCls:
    pass


class SymLogger(LoggerCls):
    def _log(self, *a, **k):
        return None
    debug = info = warning = error = critical = setLevel = addHandler = log = exception = _log


class Clock:
    def time(self):
        use('clock')
        c = C()
        t = fresh_xr('clock')
        last = c.ghost.get('clock')
        if last is not None:
            c.add(last.val <= t.val)
        c.ghost['clock'] = t
        c.ghost.setdefault('clocks', []).append(t)
        c.events.append(('time', t))
        return t
    monotonic = perf_counter = time


class H5Group:
    def __init__(self, name):
        self.name = name

    def create_dataset(self, key, data=None, **k):
        C().events.append(('h5data', self.name, key, data))

    def __setitem__(self, key, val):
        C().events.append(('h5data', self.name, key, val))


class H5File:
    def __init__(self, name, mode='r'):
        use('h5py')
        C().events.append(('h5open', name, mode))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        C().events.append(('h5close',))
        return False

    def create_group(self, name):
        C().events.append(('h5group', name))
        return H5Group(name)

    require_group = create_group

    def close(self):
        C().events.append(('h5close',))


class Uuid:
    def uuid1(self):
        use('uuid')
        return UniqueId()
    uuid4 = uuid1


class UniqueId:
    """a string different from all others"""
    def __str__(self):
        c = C()
        k = c.n.get('_uuid', 0)
        c.n['_uuid'] = k + 1
        return f'uuid!{k}'


def csc_matrix(x, *a, **k):
    if isinstance(x, SSparse):
        return x.copy()
    if isinstance(x, SMat):
        return SSparse(x.me)
    raise Unsupported('csc_matrix')


class csc_type(type(SSparse)):
    pass


def with_out(f):
    """numpy functions that may write their result into an existing array"""
    def g(*a, out=None, **k):
        r = f(*a, **k)
        if isinstance(out, tuple) and len(out) == 1:
            out = out[0]
        if out is None:
            return r
        if not isinstance(out, (SVec, SMat)) or type(r) is not type(out):
            raise Unsupported('output of a numpy function')
        return out._inplace(r)
    return g


def np_copyto(dst, src, where=True):
    if isinstance(dst, SMat) and isinstance(src, SMat) and where is True:
        dst[slice(None)] = src
        return
    if not isinstance(dst, SVec):
        raise Unsupported('copyto')
    if where is True:
        dst[slice(None)] = src
    elif isinstance(where, SBVec):
        dst[where] = src[where] if isinstance(src, SVec) else src
    else:
        raise Unsupported('copyto')


def np_hypot(a, b):
    if is_scalar(a) and is_scalar(b):
        a, b = lift(a), lift(b)
        return np_sqrt(a * a + b * b)
    raise Unsupported('hypot')


def mk_modules():
    linalg = Module('numpy.linalg', norm=np_norm, eig=np_eig, eigvals=np_eigvals, cond=np_cond, eigh=sp_eigh,
                    LinAlgError=type('LinAlgError', (ValueError,), {}))
    np = Module(
        'numpy', ndarray=ndarray, inf=float('inf'), nan=float('nan'), pi=pymath.pi, newaxis=None, zeros=np_zeros,
        ones=np_ones, full=np_full, empty=np_empty, zeros_like=lambda x, **k: like(x, 0),
        ones_like=lambda x, **k: like(x, 1), eye=np_eye, identity=np_eye, diag=np_diag, array=np_array,
        asarray=np_asarray, abs=with_out(np_abs), absolute=with_out(np_abs), fabs=np_abs, sign=np_sign, sqrt=with_out(np_sqrt), real=np_real,
        square=lambda x: x * x, copyto=np_copyto, putmask=lambda a, m, v: np_copyto(a, v, m), hypot=np_hypot,
        less=lambda a, b: a < b, less_equal=lambda a, b: a <= b, greater=lambda a, b: a > b,
        greater_equal=lambda a, b: a >= b, equal=lambda a, b: a == b, not_equal=lambda a, b: a != b,
        true_divide=with_out(lambda a, b: a / b), negative=with_out(lambda a: -a), inner=np_dot, vdot=np_dot, full_like=lambda x, c: like(x, c),
        transpose=lambda x: x.T, ravel=lambda x: x if isinstance(x, SVec) else x.ravel(),
        isfinite=np_isfinite, isnan=np_isnan, isinf=np_isinf, any=np_any, all=np_all, logical_not=np_logical_not,
        logical_and=np_logical_and, logical_or=np_logical_or, where=np_where, vstack=np_vstack,
        flatnonzero=lambda x: np_where(x if isinstance(x, SBVec) else x != 0)[0],
        nonzero=lambda x: np_where(x if isinstance(x, SBVec) else x != 0),
        column_stack=np_column_stack, min=np_min, max=np_max, amin=np_min, amax=np_max, nanmin=np_nanmin,
        nanmax=np_nanmax, argmin=np_argmin, argmax=np_argmax, dot=with_out(np_dot), outer=with_out(np_outer),
        array_equal=np_array_equal, isscalar=np_isscalar, power=np_power, spacing=np_spacing, finfo=FInfo,
        clip=with_out(lambda x, lo, hi: arr.np_clip(x, lo, hi)), expand_dims=expand_dims, sum=np_sum,
        minimum=with_out(lambda a, b: np_bin(a, b, xmin)), maximum=with_out(lambda a, b: np_bin(a, b, xmax)),
        fmin=lambda a, b: np_bin(a, b, xfmin), fmax=lambda a, b: np_bin(a, b, xfmax),
        count_nonzero=np_count_nonzero, isclose=np_isclose, copy=lambda x: x.copy(),
        add=with_out(lambda a, b: a + b), subtract=with_out(lambda a, b: a - b), multiply=with_out(lambda a, b: a * b),
        divide=with_out(lambda a, b: a / b), matmul=with_out(lambda a, b: a @ b), copysign=copysign, ndim=lambda x: x.ndim,
        shape=lambda x: x.shape, atleast_1d=lambda x: x if not is_scalar(x) else list_arr([x]),
        float64=float, bool_=bool, linalg=linalg, errstate=Opaque, seterr=lambda **k: None)
    sparse = Module('scipy.sparse', csc_matrix=csc_matrix, csr_matrix=csc_matrix,
                    diags=lambda x, *a, **k: SSparse(me_diag(x.v)))
    slinalg = Module('scipy.linalg', eigh=sp_eigh, orth=sp_orth, lstsq=sp_lstsq, norm=np_norm)
    sopt = Module('scipy.optimize', newton=RootFinder('newton'), brentq=RootFinder('brentq'),
                  LinearConstraint=Rec('LinearConstraint'), NonlinearConstraint=Rec('NonlinearConstraint'),
                  minimize=sp_minimize)
    scipy = Module('scipy', linalg=slinalg, sparse=sparse, optimize=sopt)
    import math
    m = Module('math', copysign=copysign, sqrt=math_sqrt, inf=float('inf'), nan=float('nan'), pi=math.pi,
               isfinite=lambda x: mkb(lift(x).fin), isnan=lambda x: mkb(lift(x).nan),
               isinf=lambda x: mkb(lift(x).inf), fabs=lambda x: abs(lift(x)))
    logging = Module('logging', Logger=LoggerCls, getLogger=lambda *a: SymLogger(), INFO=20, DEBUG=10, WARNING=30,
                     ERROR=40, CRITICAL=50, StreamHandler=Opaque, Formatter=Opaque)
    clock = Clock()
    time = Module('time', time=clock.time, monotonic=clock.time, perf_counter=clock.time)
    uu = Uuid()
    uuid = Module('uuid', uuid1=uu.uuid1, uuid4=uu.uuid1)
    h5 = Module('h5py', File=H5File)
    warnings = Module('warnings', warn=lambda *a, **k: None)
    return {'numpy': np, 'numpy.linalg': linalg, 'scipy': scipy, 'scipy.sparse': sparse, 'scipy.linalg': slinalg,
            'scipy.optimize': sopt, 'math': m, 'logging': logging, 'time': time, 'uuid': uuid, 'h5py': h5,
            'warnings': warnings}


def list_arr(x):
    return SVec(list_vec(x))


class Rec:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        r = OptResult()
        r.name, r.a, r.k = self.name, a, k
        return r


PASS_MODULES = {'collections', 'collections.abc', 'enum', 'numbers', 'pathlib', 'typing', 'abc', 'functools',
                'itertools', 'dataclasses', '__future__', 'contextlib', 'copy', 'operator', 'types'}


# ----------------------------------------------------------------- builtins
class SymRange:
    def __init__(self, lo, hi, st=1):
        self.lo, self.hi, self.st = lo, hi, st


def s_len(x):
    if hasattr(x, '_len') and isinstance(x, (ndarray, SymSet, SymList)):
        return x._len()
    return builtins.len(x)


def s_range(*a):
    if all(type(x) is int for x in a):
        return builtins.range(*a)
    a = [x.__index__() if type(x) is SInt and z3.is_int_value(z3.simplify(x.i)) else x for x in a]
    if all(type(x) is int for x in a):
        return builtins.range(*a)
    for x in a:
        if type(x) not in (int, SInt):
            raise core.NumpyTypeError(f'{type(x).__name__} object cannot be interpreted as an integer')
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported('range with a step')
    return SymRange(lo, hi)


def c_float(x=0.0):
    """float(x)"""
    if isinstance(x, str) or type(x) in (int, bool, float):
        return float(x)
    if isinstance(x, SVec) and x.dom is constdom(1):
        return x.v.elem(0)
    return lift(x)


def c_int(x=0, *a):
    if a or type(x) in (int, bool, float, str):
        return int(x, *a)
    if type(x) is SB:
        return SInt(z3.If(x.b, z3.IntVal(1), z3.IntVal(0)))
    if type(x) is SInt:
        return x
    raise Unsupported('int()')


def c_bool(x=False):
    if type(x) in (SB, XR, SInt):
        return mkb(b_of(x))
    return bool(x)


class SymSet:
    """a set built by add(); only its size is observable"""
    def __init__(self, it=()):
        self.items = []
        self.n = None
        self.update(it)

    def add(self, x):
        self.items.append(x)

    def _len(self):
        v = C().fresh('setsize', 'I')
        C().add(v >= 0)
        if not self.items:
            return 0
        C().add(v >= 1)
        return SInt(v)

    def copy(self):
        r = SymSet(self.items)
        return r

    def update(self, o):
        if isinstance(o, SIdx):
            if bool(vec.red_any(o.b)):
                self.items.append(o)
            return
        self.items.extend(o.items if isinstance(o, SymSet) else o)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    union = __or__

    def __iter__(self):
        raise Unsupported('iteration over a set')


class SymList:
    pass


def s_isinstance(o, t):
    return builtins.isinstance(o, t)


def s_sum(x, start=0):
    if isinstance(x, (SVec, SBVec)):
        return x.sum()
    return builtins.sum(x, start)


def s_any(x):
    if isinstance(x, (SVec, SBVec)):
        return x.any()
    return builtins.any(x)


def s_all(x):
    if isinstance(x, (SVec, SBVec)):
        return x.all()
    return builtins.all(x)


def mk_builtins(importer):
    d = dict(builtins.__dict__)
    d.update(len=s_len, range=s_range, set=SymSet, sum=s_sum, any=s_any, all=s_all, print=lambda *a, **k: None,
             __import__=importer)
    return d
