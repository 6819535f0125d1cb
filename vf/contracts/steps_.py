"""Trust-region steps: construction and calculation of every candidate."""
from .common import *
from .mini import content
from .stepback_ import raw_step

TOL = 1.4901161193847656e-08
LOGGER = object()


# ------------------------------------------------------ contracts of callees
def quad(me, g, v):
    """model value of the scaled step v"""
    return qform(me, g, v)


def solve_nd_stub(b, g, delta, logger=None):
    """contract of solve_nd_trust_region_subproblem (proved in nd.py), as far as it is used by the steps"""
    c = ctx()
    if not isinstance(b, SMat) or not isinstance(g, SVec) or not vec.same_d(b.me.rdom, g.dom):
        raise Unsupported('arguments of the subproblem solver')
    d = lift(delta)
    check('subproblem: radius is not negative', band(d.fin, rle(ZERO, d.val)))
    d = XR(d.val)
    c.ghost.setdefault('nd', []).append((b.me, g.v, d))
    z = base_vec('z', g.dom)
    t = lift(TOL)
    nz = normsq(z)
    c.add(nz._cmp_le((d + t) * (d + t)))
    c.add(bimp(req(d.val, ZERO), nz.val == 0))
    forall(g.dom, lambda i: bimp(req(d.val, ZERO), z.elem(i).val == 0))
    cz, zz = dot(g.v, z), dot(z, b.me.apply(z))
    c.add(rle(cz.val, ZERO))
    c.add(rle((0.5 * zz + cz).val, ZERO))
    return SVec(z), 'kind'


def solve_1d_stub(b, g, s, delta, s0):
    """contract of solve_1d_trust_region_subproblem (proved in oned.py)"""
    c = ctx()
    d = lift(delta)
    check('line search: radius is positive', band(d.fin, rlt(ZERO, d.val)))
    tau = real('tau')
    ss, s0s, s0s0 = dot(s.v, s.v), dot(s0.v, s.v), dot(s0.v, s0.v)
    ns = lambda t: ss * t * t + 2 * s0s * t + s0s0
    c.ghost.setdefault('1d', []).append((b.me, g.v, s.v, d, s0.v, ns(tau)))
    B = b.me
    lin = 0.5 * (dot(s.v, B.apply(s0.v)) + dot(s0.v, B.apply(s.v))) + dot(s.v, g.v)
    q = lambda t: 0.5 * dot(s.v, B.apply(s.v)) * t * t + lin * t
    dd = d * d
    inn = s0s0._cmp_le(dd)
    c.add(bimp(inn, ns(tau)._cmp_le(dd)))
    c.add(bimp(bnot(inn), ns(tau)._cmp_le(s0s0)))
    for u in (lift(0), -tau):
        c.add(bimp(band(inn, ns(u)._cmp_le(dd)), q(tau)._cmp_le(q(u))))
    return SVec(vec.list_vec([tau]))


def step_back_facts(st, s, t):
    """contract of Step.step_back (proved in stepback_.py): facts at index t; s: the step before"""
    se, xe, le, ue, be = (v.elem(t) for v in (s, st.x.v, st.lb.v, st.ub.v, st.br.v))
    a, mb = st.alpha, st.minbr
    yield mb._cmp_le(be)
    yield bimp(req(se.val, ZERO), be.pinf)
    yield bimp(rlt(ZERO, se.val), be._cmp_eq((ue - xe) / se))
    yield bimp(rlt(se.val, ZERO), be._cmp_eq((le - xe) / se))
    yield biff(st.iminbr.b.elem(t), be._cmp_eq(mb))
    for k in (a, core.xmin(1, mb)):
        p = xe + k * se
        yield band(le._cmp_le(p), p._cmp_le(ue))


def step_back_stub(self):
    c = ctx()
    n = self.s.v.dom
    s = self.s.v
    lb, ub, x = SVec(self.lb.v), SVec(self.ub.v), SVec(self.x.v)
    th = lift(self.theta)
    check('step back: theta is in (0, 1]', band(th.fin, rlt(ZERO, th.val), rle(th.val, ONE)))
    check('step back: base point is inside the bounds', inside(self.x, self.lb, self.ub, at(n)))
    self.og_s, self.og_ss, self.og_sc = self.s.copy(), self.ss.copy(), self.sc.copy()
    self.br = SVec(base_vec('br', n, False, ('pinf',)))
    self.minbr = mb = fresh_xr('minbr', False, ('pinf',))
    fn, _ = arr.boolfn('imin')
    self.iminbr = SIdx(BE(n, fn, ('imin', c.fresh('k', 'I').get_id())))
    c.add(lift(0)._cmp_le(mb))
    self.alpha = a = real('alpha')
    c.add(a._cmp_eq(core.xmin(1, th * mb)))
    c.add(band(a.val >= 0, a.val <= 1))
    br, im = self.br.v, self.iminbr

    class o:
        pass
    o.x, o.lb, o.ub, o.br, o.iminbr, o.alpha, o.minbr = x, lb, ub, SVec(br), im, a, mb
    forall(n, lambda t: band(*step_back_facts(o, s, t)))
    self.s, self.ss = SVec(vscale(a, s)), SVec(vscale(a, self.ss.v))
    self.sc = SVec(vscale(a, self.sc.v)) if isinstance(self.sc, SVec) else self.sc


def stubs(S):
    return patched(S, solve_nd_trust_region_subproblem=solve_nd_stub, solve_1d_trust_region_subproblem=solve_1d_stub)


def stub_method(cls, name, fn):
    class P:
        def __enter__(self):
            self.old = cls.__dict__[name]
            setattr(cls, name, conform(self.old, fn))

        def __exit__(self, *a):
            setattr(cls, name, self.old)
    if name not in cls.__dict__:
        raise Unsupported(f'method {name} is missing')
    return P()


# ------------------------------------------------------------ step invariant
class World:
    """inputs of a step: shared by all candidates of an iteration"""

    def __init__(self, n, sym=False):
        self.n = n
        self.x = vecvar('x', n)
        self.lb, self.ub = bounds(n)
        assume_inside(self.x, self.lb, self.ub)
        self.d = base_vec('scal', n)
        d = self.d
        forall(n, lambda t: d.elem(t).val >= 0)
        self.scaling = SSparse(vec.me_diag(self.d))
        self.gd = base_vec('gd', n)
        gd = self.gd
        forall(n, lambda t: gd.elem(t).val >= 0)
        self.g_dscaling = SSparse(vec.me_diag(self.gd))
        self.H = Mat('hess', n, n, sym=sym)
        self.hess = SMat(self.H.me())
        self.sg = vecvar('sg', n)
        self.delta, self.theta = real('delta'), real('theta')
        assume(self.delta.val > 0)
        assume(band(self.theta.val > 0, self.theta.val <= 1))
        self.logger = shim.SymLogger()
        self.shess = self.scaling.me.mul(self.hess.me).mul(self.scaling.me).add(self.g_dscaling.me)
        self.keys = self.content()

    def args(self):
        return (self.x, self.sg, self.hess, self.scaling, self.g_dscaling, self.delta, self.theta, self.ub, self.lb)

    def content(self):
        return [content(v) for v in (self.x, self.sg, self.hess, self.scaling, self.g_dscaling, self.ub, self.lb)]

    def frame(self):
        check('the arguments are not modified', self.content() == self.keys)

    def lim(self):
        return (self.delta + lift(TOL)) * (self.delta + lift(TOL))


def base_facts(W, st, t):
    """base point of a step"""
    x, s0, ss0 = st.x.v.elem(t), st.s0.v.elem(t), st.ss0.v.elem(t)
    yield 'base point is the iterate plus the base step', x._cmp_eq(W.x.v.elem(t) + s0)
    yield 'base point is inside the bounds', band(W.lb.v.elem(t)._cmp_le(x), x._cmp_le(W.ub.v.elem(t)))
    yield 'base step is the scaled-back base step', s0._cmp_eq(W.d.elem(t) * ss0)


def step_facts(W, st, t):
    """a calculated step (entries)"""
    a = lift(st.alpha)
    s, ss, os, oss = (v.v.elem(t) for v in (st.s, st.ss, st.og_s, st.og_ss))
    x = st.x.v.elem(t)
    yield 'step is the scaled-back scaled step', s._cmp_eq(W.d.elem(t) * ss)
    yield 'full step is the scaled-back full scaled step', os._cmp_eq(W.d.elem(t) * oss)
    yield 'step is the fraction alpha of the full step', band(s._cmp_eq(a * os), ss._cmp_eq(a * oss))
    p = x + s
    yield 'the step leads to a point inside the bounds', band(W.lb.v.elem(t)._cmp_le(p), p._cmp_le(W.ub.v.elem(t)))
    p = x + core.xmin(1, lift(st.minbr)) * os
    yield 'the breakpoint is inside the bounds', band(W.lb.v.elem(t)._cmp_le(p), p._cmp_le(W.ub.v.elem(t)))
    yield 'variables that reach their bound first', biff(st.iminbr.b.elem(t), st.br.v.elem(t)._cmp_eq(lift(st.minbr)))
    # variables of the base step have no further step
    yield 'truncated variables do not move', bor(req(st.ss0.v.elem(t).val, ZERO), req(oss.val, ZERO))


def scalar_facts(W, st):
    a, mb = lift(st.alpha), lift(st.minbr)
    yield 'alpha is in [0, 1]', band(a.fin, rle(ZERO, a.val), rle(a.val, ONE))
    yield 'alpha is the fraction theta of the breakpoint', a._cmp_eq(core.xmin(1, W.theta * mb))
    yield 'breakpoint is not negative', lift(0)._cmp_le(mb)
    lim = W.lim()
    yield 'base step is inside the trust region', normsq(st.ss0.v)._cmp_le(lim)
    yield 'full step is inside the trust region', normsq(vadd(st.ss0.v, st.og_ss.v))._cmp_le(lim)


def check_moves(W, st, q, me, tot):
    """a step of length zero has the model value zero, so a predicted decrease comes from a step that moves"""
    c = ctx()
    if not c.choose('the step does not move'):
        return
    sv = vadd(st.s.v, st.s0.v)
    forall(W.n, lambda t: sv.elem(t).val == 0)
    dv = W.d
    # the scaling is positive (obligation of the main loop)
    forall(W.n, lambda t: dv.elem(t).val != 0)
    vec.lemma_dot_zero(tot, me.apply(tot), W.sg.v)
    check('a step that does not move predicts no decrease', lift(0)._cmp_le(q))


def radius_lemma(st):
    """|ss0 + a og_ss|^2 in terms of sums that the solver knows"""
    for v in (st.ss0.v, st.og_ss.v, vadd(st.ss0.v, st.og_ss.v)):
        normsq(v)


def ident(name, a, b):
    """polynomial identity, used afterwards"""
    d = z3.simplify(a - b, som=True)
    have(name, True if (isnum(d) and core.numval(d) == 0) else a == b)


def check_radius(W, st, name='the step is inside the trust region'):
    """|ss0 + a og_ss| <= max(|ss0|, |ss0 + og_ss|) for 0 <= a <= 1"""
    c = ctx()
    a = lift(st.alpha).val
    N, n0, n1, m = (normsq(v).val for v in (vadd(st.ss0.v, vscale(st.alpha, st.og_ss.v)), st.ss0.v,
                                            vadd(st.ss0.v, st.og_ss.v), st.og_ss.v))
    ident('length of a fraction of the step', N, (1 - a) * n0 + a * n1 - a * (1 - a) * m)
    v0, v1, vm, va, vl = (c.fresh('nm') for _ in range(5))
    # the same for arbitrary numbers
    g = z3.Implies(z3.And(v0 <= vl, v1 <= vl, vm >= 0, va >= 0, va <= 1),
                   (1 - va) * v0 + va * v1 - va * (1 - va) * vm <= vl)
    c.lemma('convexity of the trust region', g)
    have('base step inside', n0 <= W.lim().val)
    have('full step inside', n1 <= W.lim().val)
    have('square is not negative', m >= 0)
    have('fraction of the full step', z3.And(a >= 0, a <= 1))
    c.add(z3.substitute(g, (v0, n0), (v1, n1), (vm, m), (va, a), (vl, W.lim().val)))
    check(name, N <= W.lim().val)
    check('the step is this fraction of the full step', same(st.ss.v, vscale(st.alpha, st.og_ss.v)))


def same(a, b):
    if a.key == b.key:
        return True
    t = at(a.dom)
    return a.elem(t).same(b.elem(t))


def check_value(st):
    """q(a z) <= 0 if q(z) <= 0 and z is no direction of ascent"""
    c = ctx()
    a = lift(st.alpha).val
    me, z = st.shess.me, st.og_ss.v
    h, l = (0.5 * dot(z, me.apply(z))).val, dot(st.sg.v, z).val
    ident('model value of a fraction of the step', lift(st.qpval).val, a * a * h + a * l)
    have('fraction of the full step', z3.And(a >= 0, a <= 1))
    have('model value of the full step is not above zero', h + l <= 0)
    have('the full step is no direction of ascent', l <= 0)
    vh, vl, va = (c.fresh('nm') for _ in range(3))
    g = z3.Implies(z3.And(vh + vl <= 0, vl <= 0, va >= 0, va <= 1), va * va * vh + va * vl <= 0)
    c.lemma('the model decreases along the step', g)
    c.add(z3.substitute(g, (vh, h), (vl, l), (va, a)))
    check('model value is not above zero', rle(lift(st.qpval).val, ZERO))


def sym_step(W, subspace=None, truncated=False):
    """an arbitrary calculated step"""
    S = code().steps
    n, c = W.n, ctx()
    st = S.Step.__new__(S.Step)
    st.x, st.s0, st.ss0 = vecvar('bx', n), vecvar('s0', n), vecvar('ss0', n)
    st.og_ss, st.og_s, st.s, st.ss = vecvar('og_ss', n), vecvar('og_s', n), vecvar('s', n), vecvar('ss', n)
    st.alpha = real('alpha')
    st.minbr = fresh_xr('minbr', False, ('pinf',))
    st.br = SVec(base_vec('br', n, False, ('pinf',)))
    fn, _ = arr.boolfn('imin')
    st.iminbr = SIdx(BE(n, fn, ('imin', c.fresh('k', 'I').get_id())))
    st.lb, st.ub, st.theta, st.delta = W.lb, W.ub, W.theta, W.delta
    st.qpval = real('qpval')
    st.logger = W.logger
    st.sg, st.scaling = SVec(W.sg.v), SSparse(W.scaling.me)
    st.shess = SMat(W.shess)
    k = c.fresh('k', 'I')
    c.add(k >= 1)
    st.subspace = SMat(Mat('W', n, Dom(k, 'k')).me()) if subspace is None else subspace
    st.og_sc, st.sc = vecvar('og_sc', st.subspace.me.cdom), vecvar('sc', st.subspace.me.cdom)
    st.cg = SVec(base_vec('cg', st.subspace.me.cdom))
    st.chess = SMat(Mat('chess', st.subspace.me.cdom, st.subspace.me.cdom).me())
    st.reflection_indices, st.truncation_indices = shim.SymSet(), shim.SymSet()

    class o:
        pass
    for a in ('x', 's0', 'ss0', 'og_ss', 'og_s', 's', 'ss', 'br'):
        setattr(o, a, SVec(getattr(st, a).v))
    o.alpha, o.minbr, o.iminbr = st.alpha, st.minbr, st.iminbr
    # values of the world now
    lb, ub, x = SVec(W.lb.v), SVec(W.ub.v), SVec(W.x.v)

    class w:
        pass
    w.lb, w.ub, w.x, w.d = lb, ub, x, W.d
    # variables of the base step have no further step (not if the step is a reflected one)
    forall(n, lambda t: band(*[f for _, f in base_facts(w, o, t)],
                             *[f for nm, f in step_facts(w, o, t) if truncated or 'truncated' not in nm]))
    if truncated:
        rz = arr.rowzero(st.subspace.me)
        forall(n, lambda t: bor(req(o.ss0.v.elem(t).val, ZERO), rz.elem(t)))
    for _, f in scalar_facts(W, st):
        assume(f)
    return st


def check_base(W, st):
    t = at(W.n)
    for nm, f in base_facts(W, st, t):
        check(nm, f)
    check('base step is inside the trust region', normsq(st.ss0.v)._cmp_le(W.lim()))
    rz = arr.rowzero(st.subspace.me)
    check('the subspace does not contain variables of the base step', bor(req(st.ss0.v.elem(t).val, ZERO), rz.elem(t)))


# ------------------------------------------------------------------- tasks
@task(['C01', 'C02', 'C03', 'C22'], ['steps.Step.__init__'])
def step_init():
    S = code().steps
    W = World(dim())
    st = S.Step(*W.args(), W.logger)
    t = at(W.n)
    for nm, f in base_facts(W, st, t):
        check(nm, f)
    check('no base step', st.s0.v.is_zero() and st.ss0.v.is_zero())
    check('scaled Hessian', arr.mekey(st.shess.me) == arr.mekey(W.shess))
    check('scaled gradient', st.sg.v.key == W.sg.v.key and st.sg is not W.sg)
    check('scaling', arr.mekey(st.scaling.me) == arr.mekey(W.scaling.me))
    check('radius, step back parameter and bounds', st.delta is W.delta and st.theta is W.theta
          and content(st.lb) == content(W.lb) and content(st.ub) == content(W.ub))
    W.frame()


CASES = ('none', 'line', 'plane', 'identity', 'orthonormal')


def pick(n):
    c = ctx()
    for k in range(n - 1):
        if c.choose(f'pick{n}'):
            return k
    return n - 1


CALC = ['steps.Step.calculate', 'steps.Step.compute_step', 'steps.Step.reduce_to_subspace',
        'subproblem.quadratic_form']


def ready_step(W, case, base):
    """a constructed step, ready to be calculated"""
    S = code().steps
    n, c = W.n, ctx()
    st = S.Step(*W.args(), W.logger)
    # a matrix with one row is symmetric
    one = case == 'identity' and c.branch(n.nz == 1)
    st.shess = SMat(Mat('shess', n, n, sym=one).me())
    if base:
        st.x, st.s0, st.ss0 = vecvar('bx', n), vecvar('s0', n), vecvar('ss0', n)

    class o:
        pass
    o.x, o.s0, o.ss0 = SVec(st.x.v), SVec(st.s0.v), SVec(st.ss0.v)
    if base:
        forall(n, lambda t: band(*[f for _, f in base_facts(W, o, t)]))
        assume(normsq(o.ss0.v)._cmp_le(W.lim()))
    if case == 'none':
        st.subspace = SMat(vec.me_zero(n, constdom(0)))
    elif case == 'line':
        st.subspace = SMat(vec.me_cols([base_vec('dir', n)]))
    elif case == 'plane':
        u, v = base_vec('u', n), base_vec('v', n)
        assume(band(normsq(u).val == 1, normsq(v).val == 1, dot(u, v).val == 0))
        st.subspace = SMat(vec.me_cols([u, v]))
    elif case == 'identity':
        st.subspace = SMat(vec.me_identity(n))
    else:
        kd = c.fresh('k', 'I')
        c.add(kd >= 0)
        M = Mat('W', n, Dom(kd, 'k'), orth=True)
        M.square = False
        fn, _ = arr.boolfn('trunc')
        M.zero_rows = z = BE(n, fn, ('trunc', kd.get_id()))
        arr.install_zero_rows(M)
        st.subspace = SMat(M.me())
        if base:
            forall(n, lambda t: bor(req(o.ss0.v.elem(t).val, ZERO), z.elem(t)))
    return st


def calculate(case, base):
    S = code().steps
    c = ctx()
    W = World(dim())
    n = W.n
    st = ready_step(W, case, base)
    ss0, W0 = st.ss0.v, st.subspace
    Bk = arr.mekey(st.shess.me)
    with stubs(S), stub_method(S.Step, 'step_back', step_back_stub):
        st.calculate()
    W.frame()
    check('base step, subspace and model are kept', st.ss0.v.key == ss0.key and
          arr.mekey(st.subspace.me) == arr.mekey(W0.me) and arr.mekey(st.shess.me) == Bk
          and st.sg.v.key == W.sg.v.key)
    if base and case == 'orthonormal':
        # base step and subspace are orthogonal: entries of one of them are zero
        v = vmul(st.ss0.v, st.og_ss.v)
        vec.lemma_sum_nonneg(v)
        vec.lemma_sum_nonneg(vscale(-1, v))
    radius_lemma(st)
    for me, g, s, d, s0, ns in c.ghost.get('1d', []):
        ident('length of the full step', normsq(vadd(st.ss0.v, st.og_ss.v)).val, ns.val)
    t = at(n)
    for nm, f in base_facts(W, st, t):
        check(nm, f)
    for nm, f in step_facts(W, st, t):
        if 'truncated' in nm and case in ('line',):
            continue
        check(nm, f)
    for nm, f in scalar_facts(W, st):
        have(nm, f)
    tot = vadd(st.ss0.v, st.ss.v)
    check_radius(W, st)
    check('model value is that of the step', lift(st.qpval)._cmp_eq(quad(st.shess.me, st.sg.v, tot)))
    if not base:
        check_value(st)
    if case != 'none':
        check('projection of the model', arr.mekey(st.chess.me) == arr.mekey(W0.me.T().mul(st.shess.me).mul(W0.me))
              and st.cg.v.key == W0.me.T().apply(W.sg.v).key)
    for me, g, d in c.ghost.get('nd', []):
        check('the subproblem is the restriction of the model',
              arr.mekey(me) == arr.mekey(W0.me.T().mul(st.shess.me).mul(W0.me)) and g.key == W0.me.T().apply(W.sg.v).key)
    for me, g, s, d, s0, _ in c.ghost.get('1d', []):
        check('the line search uses the model', arr.mekey(me) == Bk and g.key == W.sg.v.key and s0.key == ss0.key
              and s.key == arr.col_of(W0.me, 0).key)
    check_moves(W, st, lift(st.qpval), st.shess.me, tot)


def mk_calc():
    for case in CASES:
        for base in (False, True):
            if base and case in ('plane', 'identity'):
                continue

            def f(case=case, base=base):
                calculate(case, base)
            f.__name__ = f'calculate_{case}' + ('_from_base' if base else '')
            f.__module__ = __name__
            task(['C01', 'C02', 'C03', 'C22'], CALC)(f)


mk_calc()
