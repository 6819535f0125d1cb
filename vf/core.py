"""Symbolic values and path exploration.

Scalars are extended reals: a z3 Real plus the flags nan/+inf/-inf (finite arithmetic is exact: no rounding,
no overflow, no signed zero).  One run of the code under verification follows one path; branches on symbolic
conditions are explored by re-execution with a decision prefix.
"""
import fractions
import math
import re
import os
import time
import traceback
import z3


class PathEnd(BaseException):
    """the current path is finished (infeasible, or cut at a loop back edge)"""


class Unsupported(BaseException):
    """the verifier has no model for what the code does: the function is undecided"""


class EngineError(BaseException):
    pass


CTX = None


def ctx():
    return CTX


# ----------------------------------------------------------------- booleans
def is_b(x):
    return isinstance(x, bool)


def bnot(a):
    return (not a) if is_b(a) else z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if is_b(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if is_b(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bimp(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if is_b(a):
        return b if a else bnot(b)
    if is_b(b):
        return a if b else bnot(a)
    return a == b


def bite(c, a, b):
    if is_b(c):
        return a if c else b
    if is_b(a) and is_b(b):
        if a == b:
            return a
        return c if a else z3.Not(c)
    return z3.If(c, tob(a), tob(b))


def tob(a):
    return z3.BoolVal(a) if is_b(a) else a


# ------------------------------------------------------------------- reals
_consts = {}


def rc(x):
    """python number -> z3 Real constant (exact)"""
    if isinstance(x, bool):
        x = int(x)
    f = fractions.Fraction(x)
    if f not in _consts:
        _consts[f] = z3.RealVal(f)
    return _consts[f]


ZERO = rc(0)
ONE = rc(1)


def isnum(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def numval(e):
    return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long()) \
        if z3.is_rational_value(e) else fractions.Fraction(e.as_long())


def radd(a, b):
    if isnum(a) and isnum(b):
        return rc(numval(a) + numval(b))
    if isnum(a) and numval(a) == 0:
        return b
    if isnum(b) and numval(b) == 0:
        return a
    return a + b


def rneg(a):
    if isnum(a):
        return rc(-numval(a))
    return -a


def rmul(a, b):
    if isnum(a) and isnum(b):
        return rc(numval(a) * numval(b))
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if numval(x) == 0:
                return ZERO
            if numval(x) == 1:
                return y
    return a * b


def rle(a, b):
    if isnum(a) and isnum(b):
        return numval(a) <= numval(b)
    if a.eq(b):
        return True
    return a <= b


def rlt(a, b):
    if isnum(a) and isnum(b):
        return numval(a) < numval(b)
    if a.eq(b):
        return False
    return a < b


def req(a, b):
    if isnum(a) and isnum(b):
        return numval(a) == numval(b)
    if a.eq(b):
        return True
    return a == b


def rite(c, a, b):
    if is_b(c):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def canon(e):
    """canonical form of a real expression (keeps the object alive in the context)"""
    if isnum(e):
        return rc(numval(e))
    c = CTX.canon_memo.get(e.get_id())
    if c is None:
        s = z3.simplify(e, som=True, mul_to_power=False)
        if isnum(s):
            s = rc(numval(s))
        CTX.keep.append(e)
        CTX.keep.append(s)
        CTX.canon_memo[e.get_id()] = s
        CTX.canon_memo[s.get_id()] = s
        c = s
    return c


def rdiv(a, b):
    """a / b for b != 0; the quotient is a fresh constant q with b != 0 -> q*b == a"""
    if isnum(b):
        if numval(b) == 0:
            return ZERO
        return rmul(a, rc(1 / numval(b)))
    a, b = canon(a), canon(b)
    if isnum(a) and numval(a) == 0:
        return ZERO
    if a.eq(b):
        return rite(req(b, ZERO), ZERO, ONE)
    key = ('div', a.get_id(), b.get_id())
    q = CTX.memo.get(key)
    if q is None:
        q = CTX.fresh('q')
        CTX.memo[key] = q
        CTX.keep += [a, b]
        CTX.add(z3.Implies(b != 0, q * b == a))
        CTX.quots.append((q, a, b))
    return q


def rsqrt(a):
    if isnum(a):
        f = numval(a)
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return rc(fractions.Fraction(p, q))
    a = canon(a)
    key = ('sqrt', a.get_id())
    y = CTX.memo.get(key)
    if y is None:
        y = CTX.fresh('sqrt')
        CTX.memo[key] = y
        CTX.keep.append(a)
        CTX.add(y >= 0)
        CTX.add(z3.Implies(a >= 0, y * y == a))
        CTX.add(z3.Implies(a > 0, y > 0))
        CTX.sqrts.append((y, a))
    return y


def load():
    """the time limits of the solver are wall time: more of it on a busy machine"""
    return min(4, max(1, os.getloadavg()[0] / (os.cpu_count() or 1)))


# ---------------------------------------------------------------- context
class Dom:
    """index domain {0..n-1}; n a python int or a z3 Int"""

    def __init__(self, n, name):
        self.n = n
        self.name = name

    @property
    def nz(self):
        return z3.IntVal(self.n) if isinstance(self.n, int) else self.n

    def dim(self):
        return self.n if isinstance(self.n, int) else SInt(self.n, self)

    def __repr__(self):
        return f'Dom({self.name})'


_constdom = {}


def constdom(n):
    if n not in _constdom:
        _constdom[n] = Dom(n, f'c{n}')
    return _constdom[n]


class Ob:
    def __init__(self, name, asserts, goal, path, meta):
        self.name, self.asserts, self.goal, self.path, self.meta = name, asserts, goal, path, meta


class Ctx:
    def __init__(self, prefix, opts):
        self.prefix = prefix
        self.trace = []          # (decision, alternatives_feasible)
        self.opts = opts
        self.asserts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('feas_ms', 400))
        self.facts = {}
        self.terms = {}
        self.doms = {}
        self.n = {}
        self.memo = {}
        self.canon_memo = {}
        self.keep = []
        self.elems = {}
        self.quots = []
        self.sqrts = []
        self.obs = []
        self.inputs = {}
        self.atoms = {}
        self.events = []
        self.ghost = {}
        self.nbranch = 0
        self.cover = []

    # names -----------------------------------------------------------
    def fresh(self, base, sort='R'):
        k = self.n.get(base, 0)
        self.n[base] = k + 1
        nm = f'{base}!{k}'
        return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[sort](nm)

    def add(self, f):
        if is_b(f):
            if f:
                return
            f = z3.BoolVal(False)
        self.asserts.append(f)
        self.solver.add(f)

    def assume(self, f):
        """add an assumption; end the path if it is now infeasible"""
        self.add(f)
        if self.solver.check() == z3.unsat:
            raise PathEnd()

    # quantified facts --------------------------------------------------
    def forall(self, dom, fn):
        self.facts.setdefault(id(dom), []).append(fn)
        self.doms[id(dom)] = dom
        for t in list(self.terms.get(id(dom), [])):
            self.add(fn(t))

    def index(self, dom, base='i'):
        t = self.fresh(base, 'I')
        self.addterm(dom, t)
        return t

    def addterm(self, dom, t):
        self.doms[id(dom)] = dom
        self.add(z3.And(t >= 0, t < dom.nz))
        self.terms.setdefault(id(dom), []).append(t)
        for fn in list(self.facts.get(id(dom), [])):
            self.add(fn(t))

    # branching ---------------------------------------------------------
    def feasible(self, f):
        if is_b(f):
            return f
        r = self.solver.check(f)
        return r != z3.unsat

    def entails(self, f, ms=None):
        if is_b(f):
            return f
        if ms:
            self.solver.set('timeout', ms)
        r = self.solver.check(z3.Not(f))
        if ms:
            self.solver.set('timeout', self.opts.get('feas_ms', 400))
            if r == z3.unknown:
                # other back ends
                from .task import solve
                return solve(list(self.solver.assertions()), tob(f), load() * ms / 500)[0] == 'proved'
        return r == z3.unsat

    def branch(self, f):
        if is_b(f):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = ('br', f.get_id())
        self.keep.append(f)
        if key in self.memo:
            return self.memo[key]
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append((d, False))
        else:
            self.nbranch += 1
            if len(self.trace) > self.opts.get('max_depth', 200):
                raise Unsupported('too many branches on a path')
            t = self.feasible(f)
            if not t:
                d = False
                if self.opts.get('eager', True) and not self.feasible(z3.Not(f)):
                    raise PathEnd()
                self.trace.append((d, False))
            else:
                fl = self.feasible(z3.Not(f))
                d = True
                self.trace.append((d, fl))
        self.memo[key] = d
        nf = z3.simplify(z3.Not(f))
        self.keep.append(nf)
        self.memo[('br', nf.get_id())] = not d
        self.add(f if d else z3.Not(f))
        return d

    def choose(self, base='c'):
        """non-deterministic choice (demonic): both outcomes are explored"""
        f = self.fresh(base, 'B')
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append((d, False))
        else:
            self.nbranch += 1
            if pos > self.opts.get('max_depth', 200):
                raise Unsupported('too many branches on a path')
            d = True
            self.trace.append((d, True))
        self.keep.append(f)
        self.memo[('br', f.get_id())] = d
        self.add(f if d else z3.Not(f))
        return d

    # obligations ---------------------------------------------------------
    def check(self, name, goal, meta=None):
        if is_b(goal) and goal:
            self.obs.append(Ob(name, None, True, None, meta))
            return
        self.obs.append(Ob(name, list(self.asserts), tob(goal), list(self.trace), meta))

    def check_any(self, name, goals, meta=None):
        """at least one of the goals is valid (witness proofs: each goal is one candidate witness)"""
        gs = [g for g in goals if not (is_b(g) and not g)]
        if any(is_b(g) for g in gs):
            self.obs.append(Ob(name, None, True, None, meta))
        elif not gs:
            self.check(name, False, meta)
        else:
            self.obs.append(Ob(name, list(self.asserts), gs, list(self.trace), meta))

    def lemma(self, name, fact, meta=None, keep=True):
        """proof step: a fact that is valid on its own, proved without the context"""
        self.obs.append(Ob(name, [], tob(fact), list(self.trace), meta))
        if keep:
            self.add(fact)

    def have(self, name, fact, meta=None):
        """proof step: an obligation whose fact may be used afterwards"""
        self.check(name, fact, meta)
        self.add(fact)


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- scalars
class SB:
    """symbolic bool"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return CTX.branch(self.b)

    def __and__(self, o):
        return mkb(band(self.b, b_of(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(bor(self.b, b_of(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkb(bnot(self.b))

    def __xor__(self, o):
        return mkb(bnot(biff(self.b, b_of(o))))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SB)):
            return mkb(biff(self.b, b_of(o)))
        return lift(self) == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return id(self)

    def __int__(self):
        return 1 if bool(self) else 0

    def __mul__(self, o):
        return lift(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return SInt(z3.If(tob(self.b), z3.IntVal(1), z3.IntVal(0))) + o
    __radd__ = __add__

    def __format__(self, spec):
        return '<bool>'
    __repr__ = __str__ = lambda s: '<bool>'

    def all(self, axis=None):
        return self

    def any(self, axis=None):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    ndim = 0
    shape = ()

    @property
    def __class__(self):
        return bool


def b_of(o):
    t = type(o)
    if t is SB:
        return o.b
    if t is bool:
        return o
    if t is XR:
        return bnot(o._cmp_eq(lift(0)))
    if t is SInt:
        return o.i != 0
    if t is int:
        return o != 0
    if hasattr(o, '_as_bool'):
        return o._as_bool()
    raise Unsupported(f'bool of {type(o)}')


def mkb(b):
    return b if is_b(b) else SB(b)


class SInt:
    """symbolic int; .dom is the index domain whose size it is, if any"""
    __slots__ = ('i', 'dom')

    def __init__(self, i, dom=None):
        self.i = i
        self.dom = dom

    @property
    def __class__(self):
        return int

    def _bin(self, o, f, g):
        t = type(o)
        if t is bool or t is SB:
            o = z3.If(tob(b_of(o)), z3.IntVal(1), z3.IntVal(0))
            return g(self.i, o)
        if t is int:
            return g(self.i, z3.IntVal(o))
        if t is SInt:
            return g(self.i, o.i)
        if t in (float, XR, fractions.Fraction):
            return f(lift(self), lift(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: SInt(z3.simplify(a + b)))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: SInt(z3.simplify(a - b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: SInt(z3.simplify(b - a)))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: SInt(z3.simplify(a * b)))
    __rmul__ = __mul__

    def __neg__(self):
        return SInt(-self.i)

    def __abs__(self):
        return SInt(z3.If(self.i >= 0, self.i, -self.i))

    def __truediv__(self, o):
        return lift(self) / o

    def __rtruediv__(self, o):
        return lift(o) / lift(self)

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SInt(self.i % o)
        if type(o) is SInt:
            raise Unsupported('symbolic modulus')
        return NotImplemented

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SInt(self.i / z3.IntVal(o))
        raise Unsupported('symbolic floordiv')

    def __pow__(self, o):
        return lift(self) ** o

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b, lambda a, b: mkb(z3.simplify(a < b)))

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b, lambda a, b: mkb(z3.simplify(a <= b)))

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b, lambda a, b: mkb(z3.simplify(a > b)))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b, lambda a, b: mkb(z3.simplify(a >= b)))

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is SInt and o.i.eq(self.i):
            return True
        r = self._bin(o, lambda a, b: a == b, lambda a, b: mkb(z3.simplify(a == b)))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and type(r) is bool else ~r

    def __hash__(self):
        return hash(self.i)

    def __bool__(self):
        return CTX.branch(self.i != 0)

    def __index__(self):
        v = z3.simplify(self.i)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('symbolic int used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported('float() of a symbolic int')

    def __format__(self, spec):
        return '<int>'
    __repr__ = __str__ = lambda s: '<int>'

    def item(self):
        return self

    def copy(self):
        return self


class XR:
    """symbolic extended real (stands for float / numpy.float64)"""
    __slots__ = ('val', 'nan', 'pinf', 'ninf', 'py')
    __array_ufunc__ = None

    def __init__(self, val, nan=False, pinf=False, ninf=False):
        self.val, self.nan, self.pinf, self.ninf = val, nan, pinf, ninf

    @property
    def __class__(self):
        return FLOATCLS

    # -- kinds
    @property
    def inf(self):
        return bor(self.pinf, self.ninf)

    @property
    def fin(self):
        return bnot(bor(self.nan, self.pinf, self.ninf))

    @property
    def static(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def settle(self):
        """same value with known kind (forks on the kind where it is open)"""
        if self.static:
            return self
        if is_b(self.fin) and self.fin:
            return XR(self.val)
        if not is_b(self.fin):
            if CTX.branch(self.fin):
                return XR(self.val)
        if CTX.branch(self.nan):
            return XR(ZERO, nan=True)
        if CTX.branch(self.pinf):
            return XR(ZERO, pinf=True)
        return XR(ZERO, ninf=True)

    def key(self):
        def k(b):
            if is_b(b):
                return b
            CTX.keep.append(b)
            return b.get_id()
        return (canon(self.val).get_id(), k(self.nan), k(self.pinf), k(self.ninf))

    def is_integer(self):
        return mkb(band(self.fin, z3.IsInt(self.val)))

    # -- arithmetic
    def __add__(self, o):
        b = lift_or_ni(o)
        if b is NotImplemented:
            return b
        a = self
        v = radd(a.val, b.val)
        if a.static and b.static:
            return XR(v)
        nan = bor(a.nan, b.nan, band(a.pinf, b.ninf), band(a.ninf, b.pinf))
        return XR(v, nan, band(bnot(nan), bor(a.pinf, b.pinf)), band(bnot(nan), bor(a.ninf, b.ninf)))
    __radd__ = __add__

    def __neg__(self):
        return XR(rneg(self.val), self.nan, self.ninf, self.pinf)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = lift_or_ni(o)
        if b is NotImplemented:
            return b
        return self + (-b)

    def __rsub__(self, o):
        b = lift_or_ni(o)
        if b is NotImplemented:
            return b
        return b + (-self)

    def _zero(self):
        return band(self.fin, req(self.val, ZERO))

    def _pos(self):
        return bor(self.pinf, band(self.fin, rlt(ZERO, self.val)))

    def _neg(self):
        return bor(self.ninf, band(self.fin, rlt(self.val, ZERO)))

    def __mul__(self, o):
        b = lift_or_ni(o)
        if b is NotImplemented:
            return b
        a = self
        v = rmul(a.val, b.val)
        if a.static and b.static:
            return XR(v)
        nan = bor(a.nan, b.nan, band(a.inf, b._zero()), band(b.inf, a._zero()))
        inf = band(bnot(nan), bor(a.inf, b.inf))
        pos = bor(band(a._pos(), b._pos()), band(a._neg(), b._neg()))
        return XR(v, nan, band(inf, pos), band(inf, bnot(pos)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = lift_or_ni(o)
        if b is NotImplemented:
            return b
        a = self
        if a.static and b.static and isnum(b.val) and numval(b.val) != 0:
            return XR(rdiv(a.val, b.val))
        nan = bor(a.nan, b.nan, band(a.inf, b.inf), band(a._zero(), b._zero()))
        inf = band(bnot(nan), bor(a.inf, band(a.fin, b._zero())))
        pos = bor(band(a._pos(), bor(b._pos(), b._zero())), band(a._neg(), b._neg()))
        v = rite(b.inf, ZERO, rdiv(a.val, b.val))
        return XR(v, nan, band(inf, pos), band(inf, bnot(pos)))

    def __rtruediv__(self, o):
        b = lift_or_ni(o)
        if b is NotImplemented:
            return b
        return b / self

    def __pow__(self, o):
        if type(o) is XR and o.static and isnum(o.val):
            o = numval(o.val)
        if type(o) in (float, fractions.Fraction) and o == int(o):
            o = int(o)
        if type(o) is int:
            if o < 0:
                return lift(1) / (self ** (-o))
            r = lift(1)
            for _ in range(o):
                r = r * self
            return r
        if type(o) in (float, fractions.Fraction) and o == 0.5:
            return self.sqrt()
        raise Unsupported('power')

    def __rpow__(self, o):
        raise Unsupported('power with symbolic exponent')

    def sqrt(self):
        a = self
        neg = a._neg()
        nan = bor(a.nan, neg)
        return XR(rsqrt(a.val), nan, a.pinf, False)

    def __abs__(self):
        if any(self.val.eq(y) for y, a in CTX.sqrts):      # square roots are not negative
            return XR(self.val, self.nan, bor(self.pinf, self.ninf), False)
        c = rlt(self.val, ZERO)
        return XR(rite(c, rneg(self.val), self.val), self.nan, bor(self.pinf, self.ninf), False)

    # -- comparisons
    def _cmp_le(a, b):
        if a.static and b.static:
            return rle(a.val, b.val)
        return band(bnot(a.nan), bnot(b.nan),
                    bor(a.ninf, b.pinf, band(a.fin, b.fin, rle(a.val, b.val))))

    def _cmp_lt(a, b):
        if a.static and b.static:
            return rlt(a.val, b.val)
        return band(bnot(a.nan), bnot(b.nan),
                    bor(band(a.ninf, bnot(b.ninf)), band(b.pinf, bnot(a.pinf)),
                        band(a.fin, b.fin, rlt(a.val, b.val))))

    def _cmp_eq(a, b):
        if a.static and b.static:
            return req(a.val, b.val)
        return band(bnot(a.nan), bnot(b.nan),
                    bor(band(a.pinf, b.pinf), band(a.ninf, b.ninf),
                        band(a.fin, b.fin, req(a.val, b.val))))

    def same(a, b):
        """identical value, nan included"""
        return bor(band(a.nan, b.nan), a._cmp_eq(b))

    def _c(self, o, f):
        b = lift_or_ni(o)
        if b is NotImplemented:
            return b
        return mkb(f(self, b))

    def __le__(self, o):
        return self._c(o, lambda a, b: a._cmp_le(b))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a._cmp_lt(b))

    def __ge__(self, o):
        return self._c(o, lambda a, b: b._cmp_le(a))

    def __gt__(self, o):
        return self._c(o, lambda a, b: b._cmp_lt(a))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a._cmp_eq(b))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: bnot(a._cmp_eq(b)))
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return CTX.branch(bnot(self._zero()))

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        raise Unsupported('int() of a symbolic number')

    def __format__(self, spec):
        return '<num>'
    __repr__ = __str__ = lambda s: '<num>'

    # numpy scalar interface
    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def dot(self, o):
        return self * o

    def conj(self):
        return self

    def astype(self, t):
        return self

    def all(self):
        return mkb(bnot(self._zero()))

    any = all

    def sum(self):
        return self

    def max(self):
        return self

    min = max


class _NPFloat(float):
    """class reported by symbolic floats (a subclass of float, like numpy.float64)"""


FLOATCLS = _NPFloat


def lift(x):
    t = type(x)
    if t is XR:
        return x
    if t is SInt:
        return XR(z3.ToReal(x.i))
    if t is SB:
        return XR(rite(x.b, ONE, ZERO))
    if t in (int, bool, fractions.Fraction):
        return XR(rc(x))
    if t is float or isinstance(x, float):
        if math.isnan(x):
            return XR(ZERO, nan=True)
        if math.isinf(x):
            return XR(ZERO, pinf=x > 0, ninf=x < 0)
        return XR(rc(x))
    if hasattr(x, '_as_xr'):
        return x._as_xr()
    raise Unsupported(f'number expected, got {t.__name__}')


def lift_or_ni(x):
    if type(x) in (XR, SInt, SB, int, bool, float, fractions.Fraction):
        return lift(x)
    if hasattr(x, '_as_xr'):
        return x._as_xr()
    return NotImplemented


def xite(c, a, b):
    a, b = lift(a), lift(b)
    return XR(rite(c, a.val, b.val), bite(c, a.nan, b.nan), bite(c, a.pinf, b.pinf), bite(c, a.ninf, b.ninf))


def xmax(a, b):
    """numpy.maximum (nan propagates)"""
    a, b = lift(a), lift(b)
    if a.static and b.static:
        return XR(rite(rle(b.val, a.val), a.val, b.val))
    r = xite(b._cmp_le(a), a, b)
    return XR(r.val, bor(a.nan, b.nan), band(r.pinf, bnot(bor(a.nan, b.nan))), band(r.ninf, bnot(bor(a.nan, b.nan))))


def xmin(a, b):
    return -xmax(-lift(a), -lift(b))


def xfmax(a, b):
    """numpy.fmax (nan ignored)"""
    a, b = lift(a), lift(b)
    return xite(a.nan, b, xite(b.nan, a, xmax(a, b)))


def xfmin(a, b):
    return -xfmax(-lift(a), -lift(b))


def fresh_xr(base, finite=True, kinds=('nan', 'pinf', 'ninf')):
    v = CTX.fresh(base)
    if finite:
        return XR(v)
    ks = {}
    for k in ('nan', 'pinf', 'ninf'):
        ks[k] = CTX.fresh(base + '.' + k, 'B') if k in kinds else False
    l = [x for x in ks.values() if not is_b(x)]
    for i in range(len(l)):
        for j in range(i):
            CTX.add(z3.Not(z3.And(l[i], l[j])))
    return XR(v, **ks)


# ------------------------------------------------------------- exploration
def where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    f = [x for x in tb if '/fides/' in x.filename] or tb
    return ' > '.join(f'{x.filename.rsplit("/", 1)[-1]}:{x.lineno}' for x in f[-3:])


class NumpyTypeError(TypeError):
    """a TypeError that the real library raises as well"""


ENGINE = re.compile(r"'?\b(XR|SB|SInt|SVec|SBVec|SIdx|SMat|SBMat|SSparse|SRows|Sym\w+|Poison|OptResult|Opaque\w*|Rec|RootFinder"
                    r"|Clock|Uuid|H5\w+|Module|DType|FInfo|LoggerCls|VE|ME|ArithRef|BoolRef|_vf_\w+)\b")


def gap(e):
    """the exception tells that the engine does not know an operation (not that the code is wrong)"""
    if isinstance(e, z3.Z3Exception):
        return True
    if isinstance(e, NumpyTypeError) or not isinstance(e, (TypeError, AttributeError, KeyError, NameError, AssertionError,
                                                           NotImplementedError)):
        return False
    m = re.match(r"(\w+)(?:\.[\w.<>]+)?\(\) (got|takes|missing)", str(e))
    if m:           # called with arguments the model does not know
        from . import arr, shim
        if hasattr(shim, m.group(1)) or hasattr(arr, m.group(1)):
            return True
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb and '/vf/' in tb[-1].filename and '/fides/' not in tb[-1].filename or ENGINE.search(str(e)))


def explore(fn, opts=None):
    """runs fn once per path; returns the list of finished contexts (with .outcome)"""
    opts = opts or {}
    out = []
    stack = [[]]
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix, opts)
        set_ctx(c)
        c.outcome = None
        try:
            fn()
            c.outcome = 'end'
        except PathEnd:
            c.outcome = 'cut'
        except Unsupported as e:
            c.outcome = 'unsupported'
            c.note = f'{e} ({where(e)})'
        except RecursionError as e:
            c.outcome = 'unsupported'
            c.note = 'recursion'
        except Exception as e:
            c.outcome = 'unsupported' if gap(e) else 'raised'
            c.note = f'{type(e).__name__}: {e} ({where(e)})'
            if c.outcome == 'raised':
                c.check('no-exception: ' + c.note, False)
        out.append(c)
        dec = [d for d, _ in c.trace]
        for i in range(len(prefix), len(c.trace)):
            d, alt = c.trace[i]
            if alt:
                stack.append(dec[:i] + [not d])
        if len(out) > opts.get('max_paths', 4000):
            raise Unsupported('too many paths')
        if time.time() - t0 > opts.get('max_s', 300):
            raise Unsupported('path exploration out of time')
    set_ctx(None)
    return out
