"""Models of numpy arrays as the code under verification sees them: mutable objects over symbolic expressions."""
import z3
from . import core, vec
from .core import (XR, SB, SInt, Unsupported, ZERO, ONE, FLOATCLS, band, bor, bnot, bimp, b_of, constdom, fresh_xr,
                   is_b, isnum, lift, mkb, numval, rc, xite, xmax, xmin, xfmax, xfmin)
from .vec import (VE, BE, ME, Mat, Fac, C, ew, bew, vadd, vmul, vdiv, vscale, vconst, where, settle_vec, list_vec,
                  me_identity, me_zero, me_diag, me_outer, me_cols, same_d)


class ndarray:
    """stands for numpy.ndarray in isinstance tests and annotations"""
    __array_ufunc__ = None


SCALARS = (XR, SInt, SB, int, float, bool)


def is_scalar(x):
    t = type(x)
    return t in SCALARS or isinstance(x, float) and not isinstance(x, ndarray)


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return (o is float and self.kind == 'f') or (o is int and self.kind == 'i') or \
            (o is bool and self.kind == 'b') or (isinstance(o, DType) and o.kind == self.kind)

    def __hash__(self):
        return hash(self.kind)


def dom_of(n, like=None):
    """index domain for a dimension given by the code"""
    if type(n) is int:
        return constdom(n)
    if type(n) is SInt:
        if n.dom is not None:
            return n.dom
        v = z3.simplify(n.i)
        if z3.is_int_value(v):
            return constdom(v.as_long())
        k = ('domof', v.get_id())
        c = C()
        if k not in c.memo:
            c.keep.append(v)
            c.memo[k] = core.Dom(v, 'k')
        return c.memo[k]
    raise core.NumpyTypeError(f'expected an integer dimension, got {type(n).__name__}')


class UFuncTypeError(core.NumpyTypeError):
    pass


# ------------------------------------------------------------------ vectors
class SVec(ndarray):
    ndim = 1

    def __init__(self, v, mask=None, isint=False):
        self.v, self.mask, self.isint, self.frozen = v, mask, isint, False

    # -- shape
    @property
    def dom(self):
        return self.v.dom

    @property
    def shape(self):
        return (self._len(),)

    @property
    def size(self):
        return self._len()

    def _len(self):
        if self.mask is not None:
            return vec.red_count(self.mask)
        return self.v.dom.dim()

    @property
    def dtype(self):
        return DType('i' if self.isint else 'f')

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def copy(self, *a, **k):
        return SVec(self.v, self.mask, self.isint)

    def flatten(self):
        return self.copy()

    ravel = flatten

    def astype(self, t, **k):
        if t is float or (isinstance(t, DType) and t.kind == 'f'):
            return SVec(self.v, self.mask)
        raise Unsupported('astype')

    def item(self):
        if self.dom is constdom(1):
            return self.v.elem(0)
        raise Unsupported('item of a vector')

    def __len__(self):
        n = self._len()
        if type(n) is int:
            return n
        return n.__index__()

    def __iter__(self):
        if isinstance(self.dom.n, int) and self.mask is None:
            return iter([self.v.elem(j) for j in range(self.dom.n)])
        raise Unsupported('iteration over a vector of symbolic length')

    def __bool__(self):
        if self.dom is constdom(1):
            return bool(self.v.elem(0))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        raise Unsupported('float() of a vector')

    def __format__(self, s):
        return '<vec>'
    __repr__ = __str__ = lambda s: '<vec>'

    # -- elements
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, tuple) and len(k) == 2:
            for ax in (0, 1):
                if k[ax] is None and isinstance(k[1 - ax], slice) and k[1 - ax] == slice(None):
                    return expand_dims(self, ax)
        if isinstance(k, SBVec):
            return SVec(self.v, self._sub(k), self.isint)
        if isinstance(k, SIdx):
            return SVec(self.v, self._sub(SBVec(k.b)), self.isint)
        if isinstance(k, slice) and k == slice(None):
            r = SVec(self.v, self.mask, self.isint)
            r.frozen = True
            return r
        if type(k) is SInt and self.mask is None:
            return self.v.elem(k.i)
        if type(k) is int and self.mask is None:
            if isinstance(self.dom.n, int):
                if not -self.dom.n <= k < self.dom.n:
                    raise IndexError('index out of bounds')
                return self.v.elem(k % self.dom.n)
            if k >= 0:
                if core.CTX.branch(self.dom.nz > k):
                    t = z3.IntVal(k)
                    kk = ('lit', id(self.dom), k)
                    if kk not in C().memo:
                        C().memo[kk] = t
                        C().addterm(self.dom, t)
                    return self.v.elem(t)
                raise IndexError('index out of bounds')
        raise Unsupported('vector indexing')

    def _sub(self, b):
        if b.mask is not None and self.mask is None:
            raise Unsupported('indexing with a compressed mask')
        if self.mask is not None:
            if b.mask is None or b.mask.key != self.mask.key:
                raise Unsupported('nested mask')
            return vec.be_and(self.mask, b.v)
        if not same_d(b.v.dom, self.dom):
            raise IndexError('boolean index did not match indexed array')
        return b.v

    def _wr(self):
        if self.frozen:
            raise Unsupported('write through a view')

    def __setitem__(self, k, val):
        self._wr()
        if isinstance(val, SVec) and self.isint and not val.isint:
            raise Unsupported('assignment into an integer array')
        if self.isint and type(val) in (XR, float):
            raise Unsupported('assignment into an integer array')
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            self.v = self._coerce(val, None)
            return
        if isinstance(k, (SBVec, SIdx)) and self.mask is None:
            m = self._sub(k if isinstance(k, SBVec) else SBVec(k.b))
            x = self._coerce(val, m)
            self.v = settle_vec(where(m, x, self.v))
            return
        if type(k) in (int, SInt) and self.mask is None:
            t = k if type(k) is int else k.i
            x = lift(val)
            if type(k) is int and isinstance(self.dom.n, int):
                self.v = list_vec([x if j == k % self.dom.n else self.v.elem(j) for j in range(self.dom.n)])
                return
            ti = vec.idx_of(t)
            m = BE(self.dom, lambda t2: vec.idx_of(t2) == ti, ('isidx', vec.ikey(ti)))
            self.v = settle_vec(where(m, vconst(self.dom, x), self.v))
            return
        raise Unsupported('vector assignment')

    def _coerce(self, val, m):
        if isinstance(val, SBVec):
            val = val.tofloat()
        if isinstance(val, SVec):
            if val.mask is not None and (m is None or val.mask.key != m.key):
                raise Unsupported('assignment between different masks')
            if val.mask is None and m is not None and val.dom is not constdom(1):
                raise Unsupported('assignment of a full vector to a masked one')
            if val.dom is not self.dom and val.dom is constdom(1):
                return vconst(self.dom, val.v.elem(0))
            if not same_d(val.dom, self.dom):
                raise ValueError('could not broadcast input array')
            return val.v
        if is_scalar(val):
            return vconst(self.dom, val)
        raise Unsupported('assignment of this value')

    # -- arithmetic
    def _pair(self, o):
        if isinstance(o, SBVec):
            o = o.tofloat()
        if isinstance(o, (list, tuple)):
            o = asvec(o)
        if isinstance(o, SVec):
            a, b = self, o
            if a.dom is not b.dom:
                if isinstance(b.dom.n, int) and b.dom.n == 1 and b.mask is None:
                    return a.v, vconst(a.dom, b.v.elem(0)), a.mask, False
                if isinstance(a.dom.n, int) and a.dom.n == 1 and a.mask is None:
                    return vconst(b.dom, a.v.elem(0)), b.v, b.mask, False
                if not same_d(a.dom, b.dom):
                    if core.CTX.branch(a.dom.nz == b.dom.nz):
                        raise Unsupported('vectors over different index domains of equal size')
                    raise ValueError('operands could not be broadcast together')
            ma, mb = a.mask, b.mask
            if (ma is None) != (mb is None) or (ma is not None and ma.key != mb.key):
                raise Unsupported('operands over different masks')
            return a.v, b.v, ma, a.isint and b.isint
        if is_scalar(o):
            return self.v, vconst(self.dom, o), self.mask, self.isint and type(o) in (int, SInt)
        return None

    def _bin(self, o, f, swap=False, isint=None):
        if is_scalar(o) and f is vmul:
            r = vscale(o, self.v)
            return SVec(r, self.mask, self.isint and type(o) in (int, SInt))
        p = self._pair(o)
        if p is None:
            return NotImplemented
        a, b, m, ii = p
        if swap:
            a, b = b, a
        return SVec(f(a, b), m, ii if isint is None else isint)

    def __add__(self, o):
        return self._bin(o, vadd)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: vadd(a, b, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: vadd(a, b, -1), True)

    def __mul__(self, o):
        if isinstance(o, (SSparse, SMat)):
            return NotImplemented
        return self._bin(o, vmul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_scalar(o):
            d = lift(o).settle()
            if d.static and not (isnum(d.val) and numval(d.val) == 0):
                if not isnum(d.val) and core.CTX.branch(d.val == 0):
                    return SVec(vdiv(self.v, vconst(self.dom, XR(ZERO))), self.mask)
                q = lift(1) / XR(d.val)
                return SVec(vscale(XR(q.val), self.v), self.mask)
        return self._bin(o, vdiv, isint=False)

    def __rtruediv__(self, o):
        return self._bin(o, vdiv, True, isint=False)

    def __neg__(self):
        return SVec(vscale(-1, self.v), self.mask, self.isint)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return SVec(v_abs(self.v), self.mask, self.isint)

    def __pow__(self, k):
        if type(k) is float and k == int(k):
            k = int(k)
        if type(k) is int and 0 <= k <= 4:
            r = vconst(self.dom, 1)
            for _ in range(k):
                r = vmul(r, self.v)
            return SVec(r, self.mask, self.isint)
        if type(k) is int and k < 0:
            return 1.0 / (self ** (-k))
        if k == 0.5:
            return SVec(v_sqrt(self.v), self.mask)
        raise Unsupported('vector power')

    def _inplace(self, r):
        if r is NotImplemented:
            raise Unsupported('in-place operation')
        self._wr()
        if self.isint and not r.isint:
            raise UFuncTypeError('Cannot cast ufunc output from float64 to int64 with casting rule same_kind')
        if (self.mask is None) != (r.mask is None) or not same_d(self.dom, r.dom):
            raise ValueError('non-broadcastable output operand')
        self.v = r.v
        return self

    def __iadd__(self, o):
        return self._inplace(self.__add__(o))

    def __isub__(self, o):
        return self._inplace(self.__sub__(o))

    def __imul__(self, o):
        return self._inplace(self.__mul__(o))

    def __itruediv__(self, o):
        return self._inplace(self.__truediv__(o))

    # -- comparisons
    def _cmp(self, o, op, f):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        a, b, m, _ = p
        return SBVec(bew(op, f, [a, b]), m)

    def __lt__(self, o):
        return self._cmp(o, 'lt', lambda a, b: a._cmp_lt(b))

    def __le__(self, o):
        return self._cmp(o, 'le', lambda a, b: a._cmp_le(b))

    def __gt__(self, o):
        return self._cmp(o, 'gt', lambda a, b: b._cmp_lt(a))

    def __ge__(self, o):
        return self._cmp(o, 'ge', lambda a, b: b._cmp_le(a))

    def __eq__(self, o):
        return self._cmp(o, 'eq', lambda a, b: a._cmp_eq(b))

    def __ne__(self, o):
        return self._cmp(o, 'ne', lambda a, b: bnot(a._cmp_eq(b)))

    __hash__ = object.__hash__

    # -- products and reductions
    def dot(self, o):
        if isinstance(o, SVec):
            p = self._pair(o)
            return vec.vsum(vmul(p[0], p[1]), p[2])
        if isinstance(o, SMat):
            return SVec(o.me.T().apply(vfin(self.v)))
        if is_scalar(o):
            return self * o
        raise Unsupported('dot')

    def __matmul__(self, o):
        return self.dot(o)

    def sum(self, axis=None):
        return vec.vsum(self.v, self.mask)

    def mean(self):
        return self.sum() / self._len()

    def min(self, axis=None):
        return vec.red_min(self.v, self.mask)

    def max(self, axis=None):
        return vec.red_min(self.v, self.mask, True)

    def argmin(self, axis=None):
        return self._arg(False)

    def argmax(self, axis=None):
        return self._arg(True)

    def _arg(self, mx):
        if self.mask is not None:
            raise Unsupported('argmin of a masked vector')
        if isinstance(self.dom.n, int):
            return argmin_list([self.v.elem(j) for j in range(self.dom.n)], mx)
        return vec.red_arg(self.v, mx)

    def any(self, axis=None):
        return (self != 0).any()

    def all(self, axis=None):
        return (self != 0).all()

    def clip(self, lo, hi):
        return np_clip(self, lo, hi)

    def fill(self, x):
        self[slice(None)] = x

    def conj(self):
        return self

    def tolist(self):
        return list(self)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], tuple):
            s = s[0]
        if len(s) == 2 and type(s[1]) is int and s[1] == 1:
            return expand_dims(self, 1)
        raise Unsupported('reshape')


def vfin(v):
    return settle_vec(v)


def v_abs(v):
    v = settle_vec(v)
    return ew('abs', lambda a: abs(a), [v], finite=v.finite)


def v_sqrt(v):
    v = settle_vec(v)
    r = ew('sqrt', lambda a: a.sqrt(), [v])
    return settle_vec(r)


def argmin_list(xs, mx=False):
    xs = [lift(x) for x in xs]
    best = 0
    for j in range(1, len(xs)):
        a, b = xs[j], xs[best]
        if bool(mkb(b.nan)):
            break
        if bool(mkb(bor(a.nan, (b._cmp_lt(a) if mx else a._cmp_lt(b))))):
            best = j
    return best


class SBVec(ndarray):
    """boolean vector"""
    ndim = 1
    dtype = DType('b')

    def __init__(self, v, mask=None):
        self.v, self.mask = v, mask

    @property
    def dom(self):
        return self.v.dom

    @property
    def shape(self):
        return (self._len(),)

    def _len(self):
        return vec.red_count(self.mask) if self.mask is not None else self.v.dom.dim()

    size = property(_len)

    def tofloat(self):
        return SVec(ew('b2f', lambda b: XR(core.rite(b, ONE, ZERO)), [self.v], finite=True), self.mask, True)

    def astype(self, t):
        r = self.tofloat()
        r.isint = t is int
        return r

    def _o(self, o):
        if isinstance(o, SBVec):
            if (o.mask is None) != (self.mask is None):
                raise Unsupported('operands over different masks')
            return o.v
        if type(o) in (bool, SB):
            return vec.bconst(self.dom, b_of(o))
        raise Unsupported('boolean operand')

    def __and__(self, o):
        return SBVec(vec.be_and(self.v, self._o(o)), self.mask)
    __rand__ = __and__

    def __or__(self, o):
        return SBVec(vec.be_or(self.v, self._o(o)), self.mask)
    __ror__ = __or__

    def __invert__(self):
        return SBVec(vec.be_not(self.v), self.mask)

    def __add__(self, o):
        return self.tofloat() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.tofloat() - o

    def __rsub__(self, o):
        return o - self.tofloat()

    def __mul__(self, o):
        return self.tofloat() * o
    __rmul__ = __mul__

    def __eq__(self, o):
        if type(o) is bool:
            return self if o else ~self
        return self.tofloat() == o

    def __ne__(self, o):
        return ~(self == o)
    __hash__ = object.__hash__

    def copy(self):
        return SBVec(self.v, self.mask)

    def any(self, axis=None):
        return vec.red_any(self.v, self.mask)

    def all(self, axis=None):
        return vec.red_all(self.v, self.mask)

    def sum(self, axis=None):
        return vec.red_count(self.v, self.mask)

    def __getitem__(self, k):
        if type(k) is SInt:
            return mkb(self.v.elem(k.i))
        if type(k) is int and isinstance(self.dom.n, int):
            return mkb(self.v.elem(k))
        raise Unsupported('indexing of a boolean vector')

    def __setitem__(self, k, val):
        if isinstance(k, SBVec) and type(val) in (bool, SB) and k.mask is None and self.mask is None:
            b, old, kb = b_of(val), self.v, k.v
            kk = b if is_b(b) else b.get_id()
            self.v = BE(self.dom, lambda t: core.bite(kb.elem(t), b, old.elem(t)), ('bset', kb.key, kk, old.key))
            return
        raise Unsupported('assignment to a boolean vector')

    def nonzero(self):
        return (SIdx(self.v),)

    def __bool__(self):
        if self.dom is constdom(1):
            return bool(mkb(self.v.elem(0)))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __format__(self, s):
        return '<bvec>'
    __repr__ = __str__ = lambda s: '<bvec>'


class SIdx(ndarray):
    """the sorted array of the indices i with b(i)"""
    ndim = 1
    dtype = DType('i')

    def __init__(self, b):
        self.b = b

    def _len(self):
        return vec.red_count(self.b)

    size = property(_len)

    @property
    def shape(self):
        return (self._len(),)

    def copy(self):
        return self

    def _generic(self):
        """an arbitrary element"""
        t = C().index(self.b.dom, 'e')
        C().add(self.b.elem(t))
        return SInt(t)

    def __getitem__(self, k):
        raise Unsupported('indexing of an index array')

    def __format__(self, s):
        return '<idx>'
    __repr__ = __str__ = lambda s: '<idx>'


# ----------------------------------------------------------------- matrices
class SMat(ndarray):
    ndim = 2
    dtype = DType('f')

    def __init__(self, me):
        self.me, self.frozen = me, False

    @property
    def shape(self):
        return (self.me.rdom.dim(), self.me.cdom.dim())

    @property
    def size(self):
        return self.me.rdom.dim() * self.me.cdom.dim()

    @property
    def T(self):
        r = SMat(self.me.T())
        r.frozen = True
        return r

    def transpose(self):
        return self.T

    @property
    def real(self):
        return self

    def copy(self, *a, **k):
        return SMat(self.me)

    def astype(self, t, **k):
        return self.copy()

    def _len(self):
        return self.me.rdom.dim()

    def dot(self, o):
        if isinstance(o, SVec):
            if o.mask is not None:
                raise Unsupported('matrix times masked vector')
            if not same_d(o.dom, self.me.cdom):
                if isinstance(o.dom.n, int) and 0 < o.dom.n <= 2 and core.CTX.entails(o.dom.nz == self.me.cdom.nz):
                    r = VE(self.me.rdom, {})
                    for j in range(o.dom.n):
                        r = vadd(r, vec.vscale(o.v.elem(j), col_of(self.me, j)))
                    return SVec(r)
                if core.CTX.branch(o.dom.nz == self.me.cdom.nz):
                    raise Unsupported('dimensions equal by accident')
                raise ValueError('shapes not aligned')
            return SVec(self.me.apply(vfin(o.v)))
        if isinstance(o, SMat):
            return SMat(self.me.mul(o.me))
        if isinstance(o, SSparse):
            return SMat(self.me.mul(o.me))
        if is_scalar(o):
            return self * o
        raise Unsupported('matrix product')

    __matmul__ = dot

    def _mat(self, o):
        if isinstance(o, SMat):
            return o.me
        if isinstance(o, SSparse):
            return o.me
        return None

    def __add__(self, o):
        m = self._mat(o)
        if m is None:
            if is_scalar(o) and isnum(lift(o).val) and lift(o).static and numval(lift(o).val) == 0:
                return self.copy()
            raise Unsupported('matrix plus this')
        if not (same_d(m.rdom, self.me.rdom) and same_d(m.cdom, self.me.cdom)):
            raise ValueError('operands could not be broadcast together')
        return SMat(self.me.add(m))
    __radd__ = __add__

    def __sub__(self, o):
        m = self._mat(o)
        if m is None:
            raise Unsupported('matrix minus this')
        if not (same_d(m.rdom, self.me.rdom) and same_d(m.cdom, self.me.cdom)):
            raise ValueError('operands could not be broadcast together')
        return SMat(self.me.add(m, rc(-1)))

    def __mul__(self, o):
        if isinstance(o, SSparse):
            return SMat(self.me.mul(o.me))
        if is_scalar(o):
            return SMat(self.me.scale(o))
        if isinstance(o, SVec) and same_d(o.dom, self.me.cdom):
            return SMat(self.me.mul(me_diag(o.v)))
        raise Unsupported('elementwise matrix product')

    def __rmul__(self, o):
        if is_scalar(o):
            return SMat(self.me.scale(o))
        if isinstance(o, SVec) and same_d(o.dom, self.me.cdom):
            return SMat(self.me.mul(me_diag(o.v)))
        raise Unsupported('elementwise matrix product')

    def __truediv__(self, o):
        if is_scalar(o):
            d = lift(o).settle()
            if d.static and core.CTX.branch(d.val != 0):
                return SMat(self.me.scale(XR((lift(1) / XR(d.val)).val)))
            if not d.static and bool(mkb(d.inf)):
                return SMat(me_zero(self.me.rdom, self.me.cdom))
            return SMat(Mat('nf', self.me.rdom, self.me.cdom, finite=z3.BoolVal(False)).me())
        raise Unsupported('elementwise matrix division')

    def __neg__(self):
        return SMat(self.me.scale(-1))

    def _inplace(self, r):
        if self.frozen:
            raise Unsupported('write through a view')
        self.me = r.me
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def diagonal(self):
        me = self.me
        out = VE(me.rdom, {})
        for cf, fs in me.terms:
            if len(fs) == 0:
                out = vadd(out, vconst(me.rdom, XR(cf)))
            elif len(fs) == 1 and fs[0].kind == 'diag':
                out = vadd(out, vscale(XR(cf), fs[0].d))
            else:
                raise Unsupported('diagonal')
        return SVec(out)

    def __ne__(self, o):
        if is_scalar(o):
            return SBMat(self, 'ne0') if o == 0 else _unsup('matrix comparison')
        raise Unsupported('matrix comparison')

    def __eq__(self, o):
        raise Unsupported('matrix comparison')
    __hash__ = object.__hash__

    def any(self, axis=None):
        return SBMat(self, 'ne0').any(axis)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            if r == slice(None) if isinstance(r, slice) else False:
                if type(c) is int or type(c) is SInt:
                    v = SVec(col_of(self.me, c))
                    v.frozen = True
                    return v
                if isinstance(c, SColMask):
                    return c.select(self)
                if isinstance(c, slice) and c == slice(None):
                    return self
            if type(r) is int and type(c) is int:
                return col_of(self.me, c).elem(r if isinstance(self.me.rdom.n, int) else z3.IntVal(r))
            if getattr(r, 'opaque', False):
                return r
        raise Unsupported('matrix indexing')

    def __setitem__(self, k, val):
        if self.frozen:
            raise Unsupported('write through a view')
        if k is Ellipsis or isinstance(k, slice) and k == slice(None) or isinstance(k, tuple) and len(k) == 2 and \
                all(isinstance(x, slice) and x == slice(None) for x in k):
            if not isinstance(val, SMat) or not same_d(val.me.rdom, self.me.rdom) or not same_d(val.me.cdom, self.me.cdom):
                raise Unsupported('matrix assignment')
            self.me = val.me
            return
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None):
            r = k[0]
            if isinstance(r, SIdx):
                b = r.b
            elif isinstance(r, SBVec):
                b = r.v
            else:
                raise Unsupported('matrix assignment')
            if not (is_scalar(val) and isnum(lift(val).val) and numval(lift(val).val) == 0):
                raise Unsupported('matrix row assignment')
            m = self.me
            f = m.terms[0][1][0] if len(m.terms) == 1 and len(m.terms[0][1]) == 1 else None
            soft = getattr(f.mat, 'soft', None) if f is not None and f.kind == 'atom' and not f.tr else None
            if soft is not None and isnum(m.terms[0][0]) and numval(m.terms[0][0]) == 1:
                t = C().index(m.rdom, 'r')
                if C().entails(core.bimp(b.elem(t), soft.elem(t)), 2000):
                    # these rows are zero up to rounding
                    W = Mat('orth0', m.rdom, m.cdom, orth=True)
                    W.square = False
                    W.zero_rows = b
                    install_zero_rows(W)
                    self.me = W.me()
                    return
            rz = rowzero(self.me)
            t = C().index(self.me.rdom, 'r')
            if C().entails(core.bimp(b.elem(t), rz.elem(t)), 2000):
                return
            keep = ew('ite', lambda c, x, y: xite(c, x, y),
                      [b, vconst(self.me.rdom, 0), vconst(self.me.rdom, 1)], finite=True)
            new = me_diag(keep).mul(self.me)
            C().memo[('zr', mekey(new))] = vec.be_or(b, rz)
            self.me = new
            return
        raise Unsupported('matrix assignment')

    def __format__(self, s):
        return '<mat>'
    __repr__ = __str__ = lambda s: '<mat>'


def _unsup(m):
    raise Unsupported(m)


def mekey(me):
    ts = [(core.canon(cf).get_id(), tuple(f.key for f in fs)) for cf, fs in me.terms]
    return (id(me.rdom), id(me.cdom), tuple(sorted(ts, key=repr)))


def rowzero(me):
    """predicate: row i is zero.  Known zero rows are implied; rows outside are undetermined."""
    c = C()
    k = ('rowzero', mekey(me))
    if k not in c.memo:
        c.keep.append(me)
        fn, _ = boolfn('rz')
        b = BE(me.rdom, fn, k)
        c.memo[k] = b
        zr = c.memo.get(('zr', mekey(me)))
        if zr is not None:
            c.forall(me.rdom, lambda t: bimp(zr.elem(t), b.elem(t)))
        if len(me.terms) == 1 and len(me.terms[0][1]) == 1:
            f = me.terms[0][1][0]
            if f.kind == 'atom' and not f.tr and f.mat.zero_rows is not None:
                z = f.mat.zero_rows
                c.forall(me.rdom, lambda t: bimp(z.elem(t), b.elem(t)))
    return c.memo[k]


def boolfn(name):
    seen = []

    def fn(t):
        tz = vec.idx_of(t)
        e = C().fresh(name, 'B')
        for t2, e2 in seen:
            C().add(z3.Implies(tz == vec.idx_of(t2), e == e2))
        seen.append((t, e))
        return e
    return fn, seen


def unit(dom, j):
    """unit vector (j: int or z3 Int)"""
    if isinstance(dom.n, int) and type(j) is int:
        return list_vec([1 if i == j else 0 for i in range(dom.n)])
    jz = vec.idx_of(j)
    a = vec.mk_atom(dom, lambda t: XR(core.rite(z3.simplify(vec.idx_of(t) == jz), ONE, ZERO)), True,
                    ('unit', id(dom), vec.ikey(jz)))
    a.unit = jz
    return VE(dom, {(a.id,): ONE})


def col_of(me, j):
    if len(me.terms) == 1 and len(me.terms[0][1]) >= 1:
        cf, fs = me.terms[0]
        if fs[-1].kind == 'cols':
            cols = fs[-1].cols
            if type(j) is int:
                if not -len(cols) <= j < len(cols):
                    raise IndexError('index out of bounds')
                v = cols[j]
                for f in reversed(fs[:-1]):
                    v = f.apply(v)
                return vscale(XR(cf), v)
    jj = j.i if type(j) is SInt else (j if isinstance(me.cdom.n, int) else z3.IntVal(j))
    if not isinstance(me.cdom.n, int) and type(j) is int:
        kk = ('lit', id(me.cdom), j)
        if kk not in C().memo:
            if not core.CTX.branch(me.cdom.nz > j):
                raise IndexError('index out of bounds')
            C().memo[kk] = jj
            C().addterm(me.cdom, jj)
    return me.apply(unit(me.cdom, jj))


class SBMat(ndarray):
    """boolean matrix, only through its reductions"""
    ndim = 2

    def __init__(self, m, kind):
        self.m, self.kind = m, kind

    def any(self, axis=None):
        if self.kind == 'ne0' and axis == 1:
            return SBVec(vec.be_not(rowzero(self.m.me)))
        if self.kind == 'ne0' and axis == 0:
            return SColMask(self.m)
        raise Unsupported('reduction of a boolean matrix')

    def all(self, axis=None):
        if self.kind == 'isfinite' and axis is None:
            return mkb(self.m.me.finite())
        raise Unsupported('reduction of a boolean matrix')

    def __invert__(self):
        return SBMat(self.m, 'not ' + self.kind)


class SColMask(ndarray):
    """the nonzero columns of a matrix"""
    def __init__(self, m):
        self.m = m

    def select(self, m):
        me = m.me
        if mekey(me) != mekey(self.m.me):
            raise Unsupported('column selection')
        # the selected columns form a matrix with as many or fewer columns and the same zero rows
        c = C()
        k = ('colsel', mekey(me))
        if k not in c.memo:
            nk = c.fresh('kc', 'I')
            c.add(nk >= 0)
            c.add(nk <= me.cdom.nz)
            d = core.Dom(nk, 'kc')
            W = Mat('csel', me.rdom, d)
            W.zero_rows = rowzero(me)
            install_zero_rows(W)
            W.from_me = me
            c.memo[k] = W
        return SMat(c.memo[k].me())


def install_zero_rows(W):
    def on_mv(fac, a, m):
        if not fac.tr:
            z = W.zero_rows
            C().forall(W.rdom, lambda t: bimp(z.elem(t), a.elem(t).val == 0))
    W.on_mv = on_mv


class SSparse:
    """scipy.sparse matrix (diagonal in this code)"""
    ndim = 2

    def __init__(self, me):
        self.me = me

    @property
    def shape(self):
        return (self.me.rdom.dim(), self.me.cdom.dim())

    @property
    def T(self):
        return SSparse(self.me.T())

    def copy(self):
        return SSparse(self.me)

    def dot(self, o):
        if isinstance(o, SVec):
            if o.mask is not None:
                raise Unsupported('matrix times masked vector')
            return SVec(self.me.apply(vfin(o.v)))
        if isinstance(o, SMat):
            return SMat(self.me.mul(o.me))
        if isinstance(o, SSparse):
            return SSparse(self.me.mul(o.me))
        if is_scalar(o):
            return SSparse(self.me.scale(o))
        raise Unsupported('sparse product')

    __matmul__ = dot
    __mul__ = dot

    def __rmul__(self, o):
        if isinstance(o, SVec):
            return SVec(self.me.T().apply(vfin(o.v)))
        if isinstance(o, SMat):
            return SMat(o.me.mul(self.me))
        if is_scalar(o):
            return SSparse(self.me.scale(o))
        raise Unsupported('sparse product')

    def __add__(self, o):
        if isinstance(o, SMat):
            return SMat(self.me.add(o.me))
        if isinstance(o, SSparse):
            return SSparse(self.me.add(o.me))
        raise Unsupported('sparse sum')
    __radd__ = __add__

    def diagonal(self):
        return SMat(self.me).diagonal()

    def toarray(self):
        return SMat(self.me)

    todense = toarray

    def __format__(self, s):
        return '<sparse>'
    __repr__ = __str__ = lambda s: '<sparse>'


class SRows:
    """np.vstack([...]) of vectors, before a reduction or a transposition"""
    ndim = 2

    def __init__(self, rows):
        self.rows = rows

    @property
    def T(self):
        if any(r.mask is not None for r in self.rows):
            raise Unsupported('matrix of masked vectors')
        return SMat(me_cols([vfin(r.v) for r in self.rows]))

    def _red(self, f, axis):
        if axis != 0:
            raise Unsupported('reduction')
        r = self.rows[0]
        for q in self.rows[1:]:
            p = r._pair(q)
            r = SVec(ew(f.__name__, f, [p[0], p[1]]), p[2])
        return r

    def max(self, axis=None):
        return self._red(xmax, axis)

    def min(self, axis=None):
        return self._red(xmin, axis)


def asvec(x):
    if isinstance(x, SVec):
        return x
    if isinstance(x, (list, tuple)):
        if all(is_scalar(e) for e in x):
            if not x:
                return SVec(VE(constdom(0), {}))
            return SVec(list_vec(x), isint=all(type(e) in (int, SInt) for e in x))
        if all(isinstance(e, SVec) for e in x):
            return SRows(list(x))
    if is_scalar(x):
        return x
    raise Unsupported(f'array of {type(x).__name__}')


def expand_dims(v, axis):
    if isinstance(v, SVec) and v.mask is None:
        v.frozen = True
        if axis in (1, -1):
            return SMat(me_cols([vfin(v.v)]))
        if axis == 0:
            return SMat(me_cols([vfin(v.v)]).T())
    raise Unsupported('expand_dims')


def np_clip(x, lo, hi):
    if is_scalar(x):
        return xmin(xmax(lift(x), lift(lo)), lift(hi))
    r = np_bin(x, lo, xmax)
    return np_bin(r, hi, xmin)


def np_bin(a, b, f):
    """elementwise binary function of vectors and scalars"""
    if isinstance(a, (list, tuple)):
        a = asvec(a)
    if isinstance(b, (list, tuple)):
        b = asvec(b)
    if is_scalar(a) and is_scalar(b):
        return f(lift(a), lift(b))
    if not isinstance(a, SVec):
        a, b = (b.tofloat() if isinstance(b, SBVec) else b), a
        g = lambda x, y: f(y, x)
        p = a._pair(b)
        return SVec(settle_vec(ew(f.__name__ + '_r', g, [p[0], p[1]])), p[2])
    p = a._pair(b)
    if p is None:
        raise Unsupported('elementwise operation')
    fin = p[0].finite and p[1].finite and f in (xmax, xmin, xfmax, xfmin)
    r = ew(f.__name__, f, [p[0], p[1]], finite=fin)
    return SVec(r if fin else settle_vec(r), p[2], p[3])
