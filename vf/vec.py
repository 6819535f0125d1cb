"""Symbolic vectors and matrices of symbolic dimension (models of numpy arrays).

A float vector expression (VE) is either a polynomial  sum coef * (elementwise product of atoms)  over finite
atoms, or a single atom.  An atom knows its element at an index term.  Sums over the index domain are symbols
SUM(monomial), kept canonical under commutativity and under moving a matrix to its adjoint.
"""
import z3
from . import core
from .core import (XR, SB, SInt, Dom, Unsupported, ZERO, ONE, band, bor, bnot, bimp, biff, bite, canon, constdom,
                   fresh_xr, is_b, isnum, lift, mkb, numval, radd, rc, rmul, rneg, tob, xite, xmax, xmin, req, rite)


def C():
    return core.CTX


def idx_of(t):
    return z3.IntVal(t) if type(t) is int else t


def ikey(t):
    if type(t) is int:
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    C().keep.append(t)
    return t.get_id()


# ------------------------------------------------------------------ atoms
class Atom:
    def __init__(self, dom, fn, finite, key, mv=None, name=None):
        self.dom, self.fn, self.finite, self.key, self.mv, self.name = dom, fn, finite, key, mv, name
        c = C()
        self.id = c.n.get('_atom', 0)
        c.n['_atom'] = self.id + 1
        c.atoms[self.id] = self
        self.cache = {}
        self.used = []

    def elem(self, t):
        k = ikey(t)
        e = self.cache.get(k)
        if e is None:
            e = self.fn(t)
            if type(e) is not XR:
                e = lift(e)
            if self.finite and not e.static:
                e = XR(e.val)
            self.cache[k] = e
        return e


def mk_atom(dom, fn, finite, key, **kw):
    c = C()
    a = c.memo.get(('atom', key))
    if a is None:
        a = Atom(dom, fn, finite, key, **kw)
        c.memo[('atom', key)] = a
        a.keyrefs = key
    return a


def base_fn(name, finite, kinds):
    """elements of an uninterpreted vector: one constant per index term, congruent in the index"""
    seen = []

    def fn(t):
        tz = idx_of(t)
        e = fresh_xr(f'{name}[]', finite, kinds)
        for t2, e2 in seen:
            if z3.is_int_value(tz) and z3.is_int_value(idx_of(t2)):
                continue
            C().add(z3.Implies(tz == idx_of(t2), tob(band(e.val == e2.val, biff(e.nan, e2.nan),
                                                          biff(e.pinf, e2.pinf), biff(e.ninf, e2.ninf)))))
        seen.append((t, e))
        return e
    return fn, seen


def base_vec(name, dom, finite=True, kinds=('nan', 'pinf', 'ninf')):
    c = C()
    k = c.n.get('_base', 0)
    c.n['_base'] = k + 1
    fn, seen = base_fn(name, finite, kinds)
    a = Atom(dom, fn, finite, ('base', k), name=name)
    a.seen = seen
    return VE(dom, {(a.id,): ONE})


# -------------------------------------------------------- vector expressions
class VE:
    __slots__ = ('dom', 'poly', '_key')

    def __init__(self, dom, poly):
        self.dom = dom
        self.poly = poly
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (id(self.dom), tuple(sorted((m, canon(cf).get_id()) for m, cf in self.poly.items())))
        return self._key

    def atom1(self):
        """the atom, if this is exactly one atom"""
        if len(self.poly) == 1:
            (m, cf), = self.poly.items()
            if len(m) == 1 and isnum(cf) and numval(cf) == 1:
                return C().atoms[m[0]]
        return None

    @property
    def finite(self):
        a = self.atom1()
        return a.finite if a is not None else True

    def elem(self, t):
        if type(t) is SInt:
            t = t.i
        a = self.atom1()
        if a is not None:
            return a.elem(t)
        at = C().atoms
        s = ZERO
        for m, cf in self.poly.items():
            v = cf
            for i in m:
                v = rmul(v, at[i].elem(t).val)
            s = radd(s, v)
        return XR(s)

    def is_zero(self):
        return not self.poly

    def const(self):
        """the constant c if this is a constant finite vector"""
        if not self.poly:
            return ZERO
        if list(self.poly) == [()]:
            return self.poly[()]
        return None


def settle_vec(v):
    """the same vector with the finite flag on, if finiteness of every element is entailed"""
    if v.finite:
        return v
    a = v.atom1()
    c = C()
    k = ('finok', a.id)
    if k not in c.memo:
        t = c.index(v.dom, 'f')
        ok = c.entails(a.elem(t).fin, 1500)
        c.memo[k] = ok
    if c.memo[k]:
        fa = mk_atom(v.dom, a.elem, True, ('fin', a.id), name=a.name)
        return VE(v.dom, {(fa.id,): ONE})
    return v


def vconst(dom, x):
    x = lift(x)
    if not x.static:
        x = x.settle()
        if not x.static:
            a = mk_atom(dom, lambda t: x, False, ('const', id(dom), x.key()))
            return VE(dom, {(a.id,): ONE})
    if isnum(x.val) and numval(x.val) == 0:
        return VE(dom, {})
    return VE(dom, {(): x.val})


def addpoly(a, b, sb=ONE):
    out = dict(a)
    for m, cf in b.items():
        v = radd(out[m], rmul(sb, cf)) if m in out else rmul(sb, cf)
        v = canon(v)
        if isnum(v) and numval(v) == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


def same_dom(a, b):
    if a.dom is not b.dom:
        if isinstance(a.dom.n, int) and isinstance(b.dom.n, int):
            if a.dom.n != b.dom.n:
                raise ValueError(f'operands could not be broadcast together with shapes ({a.dom.n},) ({b.dom.n},)')
            return
        raise Unsupported('vectors of different dimensions')


def vadd(a, b, sb=1):
    same_dom(a, b)
    if not a.finite:
        a = settle_vec(a)
    if not b.finite:
        b = settle_vec(b)
    if a.finite and b.finite:
        return VE(a.dom, addpoly(a.poly, b.poly, rc(sb)))
    return ew('add' if sb == 1 else 'sub', lambda x, y: x + y if sb == 1 else x - y, [a, b])


def vmul(a, b):
    same_dom(a, b)
    if not a.finite:
        a = settle_vec(a)
    if not b.finite:
        b = settle_vec(b)
    if a.finite and b.finite:
        out = {}
        for m1, c1 in a.poly.items():
            for m2, c2 in b.poly.items():
                out = addpoly(out, {tuple(sorted(m1 + m2)): rmul(c1, c2)})
        return VE(a.dom, out)
    return ew('mul', lambda x, y: x * y, [a, b])


def vscale(s, v):
    s = lift(s)
    if not s.static:
        s = s.settle()
    if not v.finite:
        v = settle_vec(v)
    if s.static and v.finite:
        return VE(v.dom, addpoly({}, v.poly, s.val))
    return ew('mul', lambda x, y: x * y, [vconst(v.dom, s), v])


def akey(x):
    if isinstance(x, VE):
        return ('v',) + x.key
    if isinstance(x, BE):
        return ('b', x.key)
    if isinstance(x, XR):
        return ('x',) + x.key()
    return ('o', x)


def ew(op, fn, args, finite=None, dom=None):
    """generic elementwise operation; fn maps element values to an element value"""
    dom = dom or next(a.dom for a in args if isinstance(a, (VE, BE)))
    key = (op,) + tuple(akey(a) for a in args)

    def el(t):
        return fn(*[a.elem(t) if isinstance(a, (VE, BE)) else a for a in args])
    if finite is None:
        finite = False
    a = mk_atom(dom, el, finite, key)
    a.args = args
    return VE(dom, {(a.id,): ONE})


def vdiv(a, b):
    same_dom(a, b)
    k = b.const()
    if k is not None and b.finite and isnum(k) and numval(k) != 0:
        return vscale(XR(rc(1 / numval(k))), a)
    v = ew('div', lambda x, y: x / y, [a, b])
    return settle_vec(v)


class BE:
    """boolean vector expression"""
    __slots__ = ('dom', 'fn', 'key', 'cache')

    def __init__(self, dom, fn, key):
        self.dom, self.fn, self.key, self.cache = dom, fn, key, {}

    def elem(self, t):
        if type(t) is SInt:
            t = t.i
        k = ikey(t)
        if k not in self.cache:
            self.cache[k] = self.fn(t)
        return self.cache[k]


def bconst(dom, b):
    return BE(dom, lambda t: b, ('bc', id(dom), b if is_b(b) else b.get_id()))


def bew(op, fn, args):
    dom = next(a.dom for a in args if isinstance(a, (VE, BE)))
    key = (op,) + tuple(akey(a) for a in args)
    C().keep.append(args)
    return BE(dom, lambda t: fn(*[a.elem(t) if isinstance(a, (VE, BE)) else a for a in args]), key)


def be_and(a, b):
    if a is None:
        return b
    if b is None:
        return a
    ks = sorted([a.key, b.key], key=repr)
    if ks[0] == ks[1]:
        return a
    return BE(a.dom, lambda t: band(a.elem(t), b.elem(t)), ('and',) + tuple(ks))


def be_or(a, b):
    ks = sorted([a.key, b.key], key=repr)
    return BE(a.dom, lambda t: bor(a.elem(t), b.elem(t)), ('or',) + tuple(ks))


def be_not(a):
    if a.key[0] == 'not':
        return a.key_arg if False else BE(a.dom, lambda t: bnot(a.elem(t)), ('not', a.key))
    return BE(a.dom, lambda t: bnot(a.elem(t)), ('not', a.key))


# ----------------------------------------------------------------- sums
def mono_base(m):
    return [C().atoms[i] for i in m]


def orbit(m):
    """monomials with the same sum, by moving matrices to their adjoint"""
    c = C()
    k = ('orbit', m)
    if k in c.memo:
        return c.memo[k]
    seen = {m}
    todo = [m]
    while todo and len(seen) < 24:
        x = todo.pop()
        for i in x:
            a = c.atoms[i]
            if a.mv is None:
                continue
            fac, dom, r = a.mv           # a = fac * (vector monomial r over dom)
            rest = list(x)
            rest.remove(i)
            rest = tuple(rest)
            left = fac.T().apply(VE(a.dom, {rest: ONE}))
            if len(left.poly) != 1:
                continue
            (lm, lc), = left.poly.items()
            if not (isnum(lc) and numval(lc) == 1):
                continue
            y = tuple(sorted(r + lm))
            # the sum now runs over dom
            if y not in seen:
                seen.add(y)
                todo.append(y)
    c.memo[k] = seen
    return seen


def sum_mono(dom, m):
    """SUM over dom of the product of the atoms in m (a finite real)"""
    c = C()
    if isinstance(dom.n, int):
        s = ZERO
        for j in range(dom.n):
            p = ONE
            for i in m:
                p = rmul(p, c.atoms[i].elem(j).val)
            s = radd(s, p)
        return canon(s)
    if not m:
        return z3.ToReal(dom.nz)
    for i in m:
        j = getattr(c.atoms[i], 'unit', None)
        if j is not None:
            rest = list(m)
            rest.remove(i)
            p = ONE
            for r in rest:
                p = rmul(p, c.atoms[r].elem(j).val)
            return canon(p)
    o = orbit(m)
    can = min(o, key=lambda x: (sum(depth(i) for i in x), x))
    un = next((x for x in o if any(getattr(c.atoms[i], 'unit', None) is not None for i in x)), None)
    if un is not None and un != m:
        return sum_mono(c.atoms[un[0]].dom, un)
    k = ('sum', can)
    if k not in c.memo:
        d = c.atoms[can[0]].dom if can else dom
        if isinstance(d.n, int):
            c.memo[k] = sum_mono(d, can)
        else:
            v = c.fresh('S')
            c.memo[k] = v
            c.sums = getattr(c, 'sums', [])
            c.sums.append((v, can, d))
            # even powers: non-negative, and each element is bounded by the sum
            if all(can.count(i) % 2 == 0 for i in set(can)):
                c.add(v >= 0)
                c.forall(d, lambda t: band(sq_elem(can, t) >= 0, sq_elem(can, t) <= v))
    return c.memo[k]


def sq_elem(m, t):
    p = ONE
    for i in m:
        p = rmul(p, C().atoms[i].elem(t).val)
    return p


def depth(i):
    a = C().atoms[i]
    if a.mv is None:
        return 0
    return 1 + sum(depth(j) for j in a.mv[2])


def vsum(v, mask=None):
    """SUM of the elements; XR"""
    if mask is not None:
        v = where(mask, v, vconst(v.dom, 0))
    v = settle_vec(v)
    if not v.finite:
        # open: some element may be non-finite
        return fresh_xr('nfsum', False)
    s = ZERO
    for m, cf in v.poly.items():
        s = radd(s, rmul(cf, sum_mono(v.dom, m)))
    return XR(canon(s))


def dot(a, b):
    same_dom(a, b)
    return vsum(vmul(a, b))


def normsq(a):
    a = settle_vec(a)
    s = dot(a, a)
    if s.static and not isnum(s.val):
        c = C()
        k = ('nsq', a.key)
        if k not in c.memo:
            c.memo[k] = True
            c.add(s.val >= 0)
            c.forall(a.dom, lambda t: a.elem(t).val * a.elem(t).val <= s.val)
    return s


def norm2(a):
    s = normsq(a)
    if not s.static:
        # norm of a possibly non-finite vector: nan, +inf or a non-negative number
        r = fresh_xr('nfnorm', False, kinds=('nan', 'pinf'))
        C().add(bimp(r.fin, r.val >= 0))
        return r
    return s.sqrt()


def where(mask, a, b):
    """elementwise: mask ? a : b"""
    if isinstance(a, XR):
        a = vconst(mask.dom, a)
    if isinstance(b, XR):
        b = vconst(mask.dom, b)
    fin = a.finite and b.finite
    return ew('ite', lambda c, x, y: xite(c, x, y), [mask, a, b], finite=fin)


# -------------------------------------------------------------- reductions
def red_min(v, mask=None, ismax=False):
    """numpy min/max over the (masked) vector; the witness index is recorded"""
    c = C()
    k = ('redmin', v.key, mask.key if mask else None, ismax)
    if k in c.memo:
        return c.memo[k]
    v = settle_vec(v)
    dom = v.dom
    sgn = (lambda x: -x) if ismax else (lambda x: x)
    if mask is not None:
        ex = red_any(mask)
        if not ex:
            raise ValueError('zero-size array to reduction operation which has no identity')
    inm = (lambda t: mask.elem(t)) if mask is not None else (lambda t: True)
    if isinstance(dom.n, int) and mask is None and dom.n <= 4:
        r = v.elem(0)
        for j in range(1, dom.n):
            r = (xmax if ismax else xmin)(r, v.elem(j))
        c.memo[k] = r
        return r
    w = c.index(dom, 'w')
    c.add(inm(w))
    ew_ = sgn(v.elem(w))
    if v.finite:
        c.forall(dom, lambda t: bimp(inm(t), ew_._cmp_le(sgn(v.elem(t)))))
        r = v.elem(w)
    else:
        nb = c.fresh('anynan', 'B')
        c.add(bimp(nb, v.elem(w).nan))
        c.forall(dom, lambda t: bimp(inm(t), bite(nb, True, band(bnot(v.elem(t).nan),
                                                                ew_._cmp_le(sgn(v.elem(t)))))))
        r = v.elem(w)
    c.memo[k] = r
    c.memo[k + ('w',)] = w
    return r


def red_arg(v, ismax=False):
    r = red_min(v, None, ismax)
    c = C()
    k = ('redmin', v.key, None, ismax, 'w')
    if k not in c.memo:
        dom = v.dom
        w = c.index(dom, 'w')
        sgn = (lambda x: -x) if ismax else (lambda x: x)
        c.forall(dom, lambda t: bor(v.elem(w).nan, sgn(v.elem(w))._cmp_le(sgn(v.elem(t)))))
        c.memo[k] = w
    return SInt(c.memo[k])


def red_any(b, mask=None):
    """exists i: b(i)  (SB or bool)"""
    c = C()
    m = be_and(b, mask)
    if isinstance(m.dom.n, int) and m.dom.n <= 4:
        return mkb(bor(*[m.elem(j) for j in range(m.dom.n)]))
    k = ('any', m.key)
    if k not in c.memo:
        v = c.fresh('any', 'B')
        w = c.index(m.dom, 'w')
        c.add(z3.Implies(v, tob(m.elem(w))))
        c.forall(m.dom, lambda t: bimp(m.elem(t), v))
        c.memo[k] = v
    return mkb(c.memo[k])


def red_all(b, mask=None):
    m = be_not(b)
    r = red_any(m, mask)
    return (not r) if isinstance(r, bool) and type(r) is bool else ~r


def red_count(b, mask=None):
    """number of true entries: an int with the right zero test"""
    c = C()
    m = be_and(b, mask)
    k = ('count', m.key)
    if k not in c.memo:
        a = red_any(m)
        v = c.fresh('cnt', 'I')
        c.add(v >= 0)
        c.add(v <= m.dom.nz)
        c.add((v > 0) == tob(core.b_of(a)))
        c.memo[k] = v
    return SInt(c.memo[k])


def all_equal(a, b):
    """forall i: a_i == b_i (nan != nan)"""
    if a.finite and b.finite and a.key == b.key:
        return True
    return red_all(bew('eq', lambda x, y: x._cmp_eq(y), [a, b]))


# ---------------------------------------------------------------- matrices
class Fac:
    """one factor of a matrix product"""
    def __init__(self, kind, rdom, cdom, **kw):
        self.kind, self.rdom, self.cdom = kind, rdom, cdom
        self.__dict__.update(kw)

    def T(self):
        if getattr(self, '_T', None) is None:
            k = self.kind
            if k == 'diag' or (k == 'atom' and self.mat.sym):
                t = self
            elif k == 'atom':
                t = Fac('atom', self.cdom, self.rdom, mat=self.mat, tr=not self.tr)
            elif k == 'cols':
                t = Fac('rows', self.cdom, self.rdom, cols=self.cols)
            elif k == 'rows':
                t = Fac('cols', self.cdom, self.rdom, cols=self.cols)
            elif k == 'outer':
                t = Fac('outer', self.cdom, self.rdom, u=self.v, v=self.u)
            self._T = t
            t._T = self
        return self._T

    @property
    def key(self):
        k = self.kind
        if k == 'diag':
            return ('diag', self.d.key)
        if k == 'atom':
            return ('atom', self.mat.id, self.tr)
        if k in ('cols', 'rows'):
            return (k, tuple(x.key for x in self.cols))
        return ('outer', self.u.key, self.v.key)

    def apply(self, x):
        """matrix factor times vector expression"""
        x = settle_vec(x)
        k = self.kind
        if k == 'diag':
            return vmul(self.d, x)
        if k == 'outer':
            s = dot(self.v, x)
            return vscale(s, self.u)
        if k == 'cols':
            out = VE(self.rdom, {})
            for j, col in enumerate(self.cols):
                out = vadd(out, vscale(x.elem(j), col))
            return out
        if k == 'rows':
            return list_vec([dot(r, x) for r in self.cols])
        mat = self.mat
        if not x.finite or not mat.is_finite():
            a = mk_atom(self.rdom, base_fn('nfmv', False, ('nan', 'pinf', 'ninf'))[0], False,
                        ('nfmv', mat.id, self.tr, x.key))
            return VE(self.rdom, {(a.id,): ONE})
        out = {}
        for m, cf in x.poly.items():
            out = addpoly(out, self._apply_mono(m).poly, cf)
        return VE(self.rdom, out)

    def _apply_mono(self, m):
        mat = self.mat
        at = C().atoms
        if len(m) == 1:
            a = at[m[0]]
            if mat.orth and a.mv is not None and a.mv[0].kind == 'atom' and a.mv[0].mat is mat \
                    and a.mv[0].tr != self.tr and (self.tr or mat.square):
                return VE(self.rdom, {a.mv[2]: ONE})       # V^T V = I (and V V^T = I)
            if mat.eig is not None and a.mv is not None and a.mv[0].kind == 'atom' \
                    and a.mv[0].mat is mat.eig[1] and not a.mv[0].tr:
                e, V = mat.eig                              # B V y = V (e * y)
                return V.fac.apply(vmul(e, VE(e.dom, {a.mv[2]: ONE})))
        if mat.zero_rows is not None and self.tr and False:
            pass
        key = ('mv', mat.id, self.tr, m)
        c = C()
        a = c.memo.get(('atom', key))
        if a is None:
            a = Atom(self.rdom, base_fn(f'{mat.name}*', True, ())[0], True, key, mv=(self, self.cdom, m))
            c.memo[('atom', key)] = a
            if mat.on_mv:
                mat.on_mv(self, a, m)
        return VE(self.rdom, {(a.id,): ONE})


class Mat:
    """an uninterpreted matrix"""
    def __init__(self, name, rdom, cdom, sym=False, orth=False, finite=True):
        c = C()
        self.id = c.n.get('_mat', 0)
        c.n['_mat'] = self.id + 1
        self.name, self.rdom, self.cdom, self.sym, self.orth, self.finite = name, rdom, cdom, sym, orth, finite
        self.square = rdom is cdom
        self.eig = None
        self.zero_rows = None
        self.on_mv = None
        self.fac = Fac('atom', rdom, cdom, mat=self, tr=False)
        c.memo[('mat', self.id)] = self

    def is_finite(self):
        if self.finite is True:
            return True
        return C().entails(self.finite)

    def me(self):
        return ME(self.rdom, self.cdom, [(ONE, (self.fac,))])


class ME:
    """matrix expression: sum of coef * product of factors"""
    def __init__(self, rdom, cdom, terms):
        self.rdom, self.cdom, self.terms = rdom, cdom, terms

    def apply(self, x):
        out = VE(self.rdom, {})
        for cf, fs in self.terms:
            v = x
            for f in reversed(fs):
                v = f.apply(v)
            out = vadd(out, vscale(XR(cf), v))
        return out

    def T(self):
        return ME(self.cdom, self.rdom, [(cf, tuple(f.T() for f in reversed(fs))) for cf, fs in self.terms])

    def add(self, o, s=ONE):
        if not same_d(self.rdom, o.rdom) or not same_d(self.cdom, o.cdom):
            raise Unsupported('matrices of different dimensions')
        return ME(self.rdom, self.cdom, _norm(self.terms + [(rmul(s, cf), fs) for cf, fs in o.terms]))

    def scale(self, s):
        s = lift(s).settle()
        if not s.static:
            m = Mat('nf', self.rdom, self.cdom, finite=z3.BoolVal(False))
            return m.me()
        return ME(self.rdom, self.cdom, _norm([(canon(rmul(s.val, cf)), fs) for cf, fs in self.terms]))

    def mul(self, o):
        return ME(self.rdom, o.cdom, _norm([(rmul(a, b), f + g) for a, f in self.terms for b, g in o.terms]))

    def finite(self):
        """conjunction of the finiteness flags of the matrices involved"""
        out = []
        for cf, fs in self.terms:
            for f in fs:
                if f.kind == 'atom' and f.mat.finite is not True:
                    out.append(f.mat.finite)
                for v in ([f.d] if f.kind == 'diag' else [f.u, f.v] if f.kind == 'outer' else
                          list(f.cols) if f.kind in ('cols', 'rows') else []):
                    v = settle_vec(v)
                    if not v.finite:
                        out.append(core.b_of(red_all(bew('isfin', lambda x: x.fin, [v]))))
        return band(*out)


def same_d(a, b):
    return a is b or (isinstance(a.n, int) and isinstance(b.n, int) and a.n == b.n)


def _norm(terms):
    d = {}
    order = []
    for cf, fs in terms:
        k = tuple(f.key for f in fs)
        if k not in d:
            d[k] = (cf, fs)
            order.append(k)
        else:
            d[k] = (canon(radd(d[k][0], cf)), fs)
    return [d[k] for k in order if not (isnum(d[k][0]) and numval(d[k][0]) == 0)]


def me_identity(dom):
    return ME(dom, dom, [(ONE, ())])


def me_zero(r, c):
    return ME(r, c, [])


def me_diag(d):
    k = d.const() if d.finite else None
    if k is not None:
        return ME(d.dom, d.dom, [] if (isnum(k) and numval(k) == 0) else [(k, ())])
    return ME(d.dom, d.dom, [(ONE, (Fac('diag', d.dom, d.dom, d=d),))])


def me_outer(u, v):
    return ME(u.dom, v.dom, [(ONE, (Fac('outer', u.dom, v.dom, u=settle_vec(u), v=settle_vec(v)),))])


def me_cols(cols):
    return ME(cols[0].dom, constdom(len(cols)), [(ONE, (Fac('cols', cols[0].dom, constdom(len(cols)), cols=tuple(cols)),))])


def list_vec(xs):
    """vector of concrete length from scalars"""
    xs = [lift(x) for x in xs]
    dom = constdom(len(xs))
    fin = all(x.static for x in xs)
    if not fin:
        xs = [x.settle() for x in xs]
        fin = all(x.static for x in xs)
    key = ('list',) + tuple(x.key() for x in xs)

    def fn(t):
        if type(t) is int:
            return xs[t]
        tz = z3.simplify(t)
        if z3.is_int_value(tz):
            return xs[tz.as_long()]
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = xite(t == j, xs[j], r)
        return r
    a = mk_atom(dom, fn, fin, key)
    return VE(dom, {(a.id,): ONE})


# -------------------------------------------------------------- lemmas
def lemma_sum_nonneg(v):
    """forall i: v_i >= 0  ==>  SUM v >= 0.  The premise is an obligation."""
    c = C()
    v = settle_vec(v)
    t = c.index(v.dom, 'l')
    ok = c.entails(v.elem(t).val >= 0, 4000)
    if ok:
        s = vsum(v)
        c.add(s.val >= 0)
    return ok


def lemma_dot_zero(u, *ws):
    """forall i: u_i = 0  ==>  SUM u w = 0.  The premise is proved here."""
    c = C()
    t = c.index(u.dom, 'l')
    ok = c.entails(u.elem(t).val == 0, 4000)
    if ok:
        for w in ws:
            c.add(dot(u, w).val == 0)
    return ok


def lemma_witness(v):
    """SUM v^2 > 0  ==>  some element of v is not zero"""
    c = C()
    s = normsq(v)
    k = ('wit', v.key)
    if s.static and k not in c.memo:
        c.memo[k] = True
        t = c.index(v.dom, 'nz')
        c.add(bimp(s.val > 0, v.elem(t).val != 0))


def lemma_cs(u, v):
    """Cauchy-Schwarz"""
    c = C()
    a, b, d = normsq(u), normsq(v), dot(u, v)
    c.add(d.val * d.val <= a.val * b.val)


def vec_zero_goal(v):
    """z3 goal: v is the zero vector (element at a fresh index)"""
    c = C()
    v = settle_vec(v)
    if v.finite and not v.poly:
        return True
    t = c.index(v.dom, 'g')
    e = v.elem(t)
    return band(e.fin, req(e.val, ZERO))


def lemma_sum_le(u, v, k=None, ms=3000, cond=True):
    """cond: u_i^2 <= k v_i^2 for all i  ==>  SUM u^2 <= k SUM v^2; the premise is proved here.  True if it is."""
    c = C()
    k = lift(1 if k is None else k).val
    t = c.index(u.dom, 'l')
    a, b = u.elem(t).val, v.elem(t).val
    ok = c.entails(bimp(cond, a * a <= rmul(k, b * b)), ms)
    if ok:
        c.add(bimp(cond, normsq(u).val <= rmul(k, normsq(v).val)))
    return ok


def lemma_sum_zero(dom, ms=1000):
    """for all sums of products: zero for all i  ==>  SUM = 0 (premise proved here)"""
    c = C()
    for v, m, d in list(getattr(c, 'sums', [])):
        if d is dom and ('sz', m) not in c.memo:
            c.memo['sz', m] = True
            if c.entails(sq_elem(m, c.index(d, 'l')) == 0, ms):
                c.add(v == 0)


def lemma_sum_pairs(extra=(), ms=700):
    """for all pairs of squared sums: u_i^2 <= v_i^2 for all i  ==>  SUM u^2 <= SUM v^2 (premise proved here)"""
    c = C()
    sq = [(v, m, d) for v, m, d in getattr(c, 'sums', []) if all(m.count(i) % 2 == 0 for i in set(m))]
    n = 0
    for v, m, d in sq:
        for v2, m2, d2 in sq:
            if v is v2 or d is not d2 or ('sp', m, m2) in c.memo:
                continue
            c.memo[('sp', m, m2)] = True
            t = c.index(d, 'l')
            a, b = sq_elem(m, t), sq_elem(m2, t)
            if c.entails(a <= b, ms):
                c.add(v <= v2)
                n += 1
            for f in extra:
                if c.entails(f(a, v, b, v2), ms):
                    c.add(f(v, v, v2, v2))
                    n += 1
    return n
