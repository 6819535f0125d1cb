"""Contracts of the Hessian approximation schemes (C13, C14)."""
from .common import *


def matzero(name, me):
    """obligation: the matrix expression is zero (applied to an arbitrary vector)"""
    me = ME(me.rdom, me.cdom, vec._norm(me.terms))
    if not me.terms:
        ctx().check(name, True)
        return
    x = base_vec('x', me.cdom)
    r = me.apply(x)
    if not r.poly:
        ctx().check(name, True)
        return
    t = at(me.rdom)
    e = r.elem(t)
    ctx().check(name, tob(band(e.fin, req(e.val, ZERO))))


def eqmat(name, a, b):
    a, b = me_of(a), me_of(b)
    if not (vec.same_d(a.rdom, b.rdom) and vec.same_d(a.cdom, b.cdom)):
        ctx().check(name, False)
        return
    matzero(name, a.add(b, rc(-1)))


def me_of(a):
    if isinstance(a, ME):
        return a
    if not isinstance(a, (SMat, SSparse)):
        raise Unsupported('matrix expected')
    return a.me


def symmetric(name, a):
    eqmat(name, a, me_of(a).T())


def fin(name, a):
    ctx().check(name, tob(me_of(a).finite()))


def unaliased(name, obj, getter, field_getter):
    """changing what a getter returned does not change the object"""
    m = getter()
    before = me_of(field_getter())
    m += SMat(vec.me_identity(before.rdom))
    eqmat(name, field_getter(), before)


def pd_fact(me, x):
    """instance of positive definiteness of me at x"""
    q = dot(x, me.apply(x))
    assume(q.val >= 0)
    forall(x.dom, lambda t: bimp(q.val == 0, x.elem(t).val == 0))
    return q


def nonzero(v):
    t = ctx().index(v.dom, 'nz')
    assume(v.elem(t).val != 0)


def scheme(name, H, phi=None, enforce=True):
    if name in ('BFGS', 'DFP'):
        return getattr(H, name)(enforce_curv_cond=enforce)
    if name == 'Broyden':
        return H.Broyden(phi, enforce_curv_cond=enforce)
    return getattr(H, name)()


def run_update(name, sym=True, enforce=True, n=None, phi=None):
    H = code().hessian_approximation
    n = n or dim()
    B = Mat('B', n, n, sym=sym)
    o = scheme(name, H, phi, enforce)
    o._init_mat(n.dim(), SMat(B.me()))
    eqmat('initial matrix is the given one', o.get_mat(), B.me())
    s, y = vecvar('s', n), vecvar('y', n)
    s0, y0 = s.v, y.v
    return n, B, o, s, y


def common_checks(o, B, s, y, sv, yv):
    """the matrix is the old one plus the reported change; arguments and results are not shared"""
    eqmat('new matrix is the old one plus the reported change', me_of(o.get_mat()), B.me().add(me_of(o.get_diff())))
    unaliased('changing the returned matrix does not change the approximation', o, o.get_mat, o.get_mat)
    unaliased('changing the returned change does not change the approximation', o, o.get_diff, o.get_diff)
    check('step is not modified', s.v.key == sv.key)
    check('gradient change is not modified', y.v.key == yv.key)


def broyden_like(name, phi=None):
    n, B, o, s, y = run_update(name, phi=phi)
    sv, yv = s.v, y.v
    b = dot(yv, sv)
    c = pd_fact(B.me(), sv)
    vec.lemma_cs(yv, sv)
    normsq(sv)
    if ctx().branch(b.val > 0):
        vec.lemma_witness(sv)
        have('the curvature of the old matrix is positive', c.val > 0)
        o.update(s, y)
        new = me_of(o.get_mat())
        check_eqvec('secant equation', new.apply(sv), yv)
        symmetric('symmetric', new)
        fin('finite', new)
        common_checks(o, B, s, y, sv, yv)
        # positive definite: v'B+v > 0 for every v != 0
        v = base_vec('v', n)
        nonzero(v)
        u = B.me().apply(sv)
        w = vadd(v, vscale(dot(v, u) / c, sv), -1)
        pd_fact(B.me(), v)
        pd_fact(B.me(), w)
        q = dot(v, new.apply(v))
        # if w is zero then v = tau*s, so y'v = tau*b
        tau = dot(v, u) / c
        yw = dot(yv, w)
        vec.lemma_cs(yv, w)
        normsq(w)
        qw = dot(w, B.me().apply(w))
        assume(bimp(qw.val == 0, normsq(w).val == 0))      # the sum of squares of a zero vector
        ctx().check('stays positive definite', q.val > 0)
    else:
        o.update(s, y)
        eqmat('a pair that violates the curvature condition changes nothing', o.get_mat(), B.me())
        matzero('the reported change is zero', me_of(o.get_diff()))
        fin('finite', o.get_mat())


PD = ['the matrix before the update is positive definite (kept by every update, see the obligation; the identity is)']


@task('C13', ['hessian_approximation.BFGS', 'hessian_approximation.broyden_class_update',
              'hessian_approximation.Broyden._compute_update', 'hessian_approximation.IterativeHessianApproximation'],
      PD, budget=20)
def bfgs_update():
    broyden_like('BFGS')


@task('C13', ['hessian_approximation.DFP', 'hessian_approximation.broyden_class_update'], PD, budget=30)
def dfp_update():
    broyden_like('DFP')


@task(['C13', 'C14'], ['hessian_approximation.Broyden', 'hessian_approximation.broyden_class_update'], PD, budget=30)
def broyden_update():
    phi = real('phi')
    assume(band(phi.val >= 0, phi.val <= 1))
    broyden_like('Broyden', phi)


def degenerate(y, s, me, enforce):
    """no member of the Broyden class is defined for this pair (or it is to be skipped)"""
    c = ctx()
    b, u = dot(y, s), me.apply(s)
    k = dot(u, s)
    if enforce and c.branch(b.val <= 0):
        return True
    if not enforce and c.branch(b.val == 0):
        return True
    if not c.branch(k.val == 0):
        return False
    # a step without curvature: the update is defined if the matrix maps it to zero
    return c.branch(normsq(u).val > 0)


@task(['C13', 'C14', 'C17'], ['hessian_approximation.Broyden', 'hessian_approximation.broyden_class_update'], budget=20)
def broyden_update_any_matrix():
    """any parameter, any symmetric matrix, with and without enforcement of the curvature condition"""
    phi = real('phi')
    enforce = ctx().choose('enforce')
    n, B, o, s, y = run_update('Broyden', phi=phi, enforce=enforce)
    sv, yv = s.v, y.v
    u = B.me().apply(sv)
    deg = degenerate(yv, sv, B.me(), enforce)
    vec.lemma_witness(u)
    if ctx().entails(normsq(u).val == 0):
        forall(n, lambda t: u.elem(t).val == 0)
    o.update(s, y)
    new = me_of(o.get_mat())
    if deg:
        eqmat('a degenerate pair changes nothing', new, B.me())
    else:
        check_eqvec('secant equation', new.apply(sv), yv)
    symmetric('symmetric', new)
    fin('finite', new)
    common_checks(o, B, s, y, sv, yv)


@task('C13', ['hessian_approximation.SR1._compute_update'], budget=20)
def sr1_update():
    n, B, o, s, y = run_update('SR1')
    sv, yv = s.v, y.v
    z = vadd(yv, B.me().apply(sv), -1)
    d = dot(z, sv)
    vec.lemma_cs(z, sv)
    prod = normsq(z) * normsq(sv)
    o.update(s, y)
    new = me_of(o.get_mat())
    symmetric('symmetric', new)
    fin('finite', new)
    common_checks(o, B, s, y, sv, yv)
    if ctx().branch((d * d)._cmp_le(lift(1e-12) * prod)):
        if ctx().branch(d.val == 0):
            eqmat('a degenerate pair changes nothing', new, B.me())
        else:
            x = base_vec('x', n)
            t = at(n)
            e1 = new.apply(sv).elem(t)._cmp_eq(yv.elem(t))
            e2 = vadd(new.apply(x), B.me().apply(x), -1).elem(t)._cmp_eq(lift(0))
            ctx().check_any('secant equation or no change', [tob(e1), tob(e2)])
    else:
        check_eqvec('secant equation', new.apply(sv), yv)


@task('C13', ['hessian_approximation.BG._compute_update'], budget=20)
def bg_update():
    n, B, o, s, y = run_update('BG', sym=False)
    sv, yv = s.v, y.v
    nonzero(sv)
    normsq(sv)
    o.update(s, y)
    new = me_of(o.get_mat())
    check_eqvec('secant equation', new.apply(sv), yv)
    fin('finite', new)
    common_checks(o, B, s, y, sv, yv)


@task('C13', ['hessian_approximation.BB._compute_update'], budget=20)
def bb_update():
    n, B, o, s, y = run_update('BB', sym=False)
    sv, yv = s.v, y.v
    b = dot(yv, sv)
    z = vadd(yv, B.me().apply(sv), -1)
    o.update(s, y)
    new = me_of(o.get_mat())
    fin('finite', new)
    common_checks(o, B, s, y, sv, yv)
    if ctx().branch(b.val <= 0):
        eqmat('a pair that violates the curvature condition changes nothing', new, B.me())
    else:
        eqmat('the change is z s^T / (y^T s)', new, B.me().add(vec.me_outer(vscale(1 / b, z), sv)))


@task(['C13', 'C14', 'C16', 'C15', 'C21'], ['hessian_approximation.HessianApproximation._init_mat'])
def init_mat():
    H = code().hessian_approximation
    n = dim()
    o = H.SR1()
    need(o, '_hess', '_diff')
    o._hess, o._diff = SMat(Mat('old', n, n).me()), SMat(Mat('olddiff', n, n).me())
    B = Mat('B', n, n, sym=True)
    arg = SMat(B.me())
    o._init_mat(n.dim(), arg)
    eqmat('the given matrix is used', o.get_mat(), B.me())
    matzero('no change is reported', me_of(o.get_diff()))
    o.update(vecvar('s', n), vecvar('y', n))
    eqmat('the given matrix is not modified', arg, B.me())
    o._init_mat(n.dim())
    eqmat('identity by default', o.get_mat(), vec.me_identity(n))
    matzero('no change is reported', me_of(o.get_diff()))
    o.set_mat(arg)
    eqmat('set_mat replaces the matrix', o.get_mat(), B.me())
    o.update(vecvar('s2', n), vecvar('y2', n))
    eqmat('the given matrix is not modified', arg, B.me())


@task(['C16'], ['hessian_approximation.HessianApproximation._init_mat'])
def init_mat_rejects():
    H = code().hessian_approximation
    n, r, k = dim('n'), dim('r'), dim('k')
    assume(z3.Not(z3.And(r.nz == n.nz, k.nz == n.nz)))
    o = H.SR1()
    try:
        o._init_mat(n.dim(), SMat(Mat('B', r, k).me()))
    except ValueError:
        check('rejected', True)
    else:
        check('an initial matrix of the wrong shape is rejected', False)


# ----------------------------------------------------------------- hybrid and structured schemes
def structured_setup(name, **kw):
    H = code().hessian_approximation
    n, m = dim(), dim('m')
    o = getattr(H, name)(**kw)
    init = Mat('H0', n, n, sym=True)
    o._init_mat(n.dim(), SMat(init.me()))
    eqmat('initial matrix is the given one', o.get_mat(), init.me())
    need(o, 'A', '_hess')
    A, C_ = Mat('A', n, n, sym=True), Mat('C', n, n, sym=True)
    old = Mat('Hprev', n, n, sym=True)
    o.A, o._hess = SMat(A.me()), SMat(old.me())
    s, y, yb = vecvar('s', n), vecvar('y', n), vecvar('yb', n)
    r = vecvar('r', m)
    hess = SMat(C_.me())
    args = [s, y, r, hess, yb]
    keys = [s.v.key, y.v.key, r.v.key, yb.v.key]
    return n, o, A, C_, old, args, keys


def structured_post(o, A, C_, old, args, keys):
    s, y, r, hess, yb = args
    eqmat('new matrix is the old one plus the reported change', me_of(o.get_mat()),
          old.me().add(me_of(o.get_diff())))
    eqmat('new structured part is the old one plus the reported change', me_of(o.A),
          A.me().add(me_of(o.get_structured_diff())))
    check('arguments are not modified', keys == [s.v.key, y.v.key, r.v.key, yb.v.key])
    eqmat('the user matrix is not modified', hess, C_.me())
    symmetric('symmetric', o.get_mat())
    fin('finite', o.get_mat())
    unaliased('changing the returned matrix does not change the approximation', o, o.get_mat, o.get_mat)


def broyden_stub(want_phi, want_enforce):
    """contract of broyden_class_update (proved in broyden_update*): symmetric, secant equation, zero if skipped"""
    def stub(y, s, mat, phi=0.0, enforce_curv_cond=True):
        check('scheme parameter is handed on', lift(phi)._cmp_eq(lift(want_phi)))
        check('curvature option is handed on', bool(enforce_curv_cond) == bool(want_enforce))
        m = me_of(mat)
        u = m.apply(s.v)
        symmetric('matrix handed to the update is symmetric', m)
        if degenerate(y.v, s.v, m, bool(enforce_curv_cond)):
            return SMat(vec.me_zero(m.rdom, m.cdom))
        D = Mat('D', m.rdom, m.cdom, sym=True)
        ds, want = D.me().apply(s.v), vadd(y.v, u, -1)
        forall(m.rdom, lambda t: req(ds.elem(t).val, want.elem(t).val))
        return SMat(D.me())
    return stub


@task('C14', ['hessian_approximation.SSM.update', 'hessian_approximation.broyden_class_update'], budget=20)
def ssm_update():
    phi = real('phi')
    enforce = ctx().choose('enforce')
    n, o, A, C_, old, args, keys = structured_setup('SSM', phi=phi, enforce_curv_cond=enforce)
    s, y, r, hess, yb = args
    base = C_.me().add(A.me())
    ys = vadd(yb.v, C_.me().apply(s.v))
    with patched(code().hessian_approximation, broyden_class_update=broyden_stub(phi, enforce)):
        o.update(*args)
    new = me_of(o.get_mat())
    eqmat('Gauss-Newton matrix plus structured part', new, C_.me().add(me_of(o.A)))
    structured_post(o, A, C_, old, args, keys)
    if degenerate(ys, s.v, base, enforce):
        eqmat('skipped update keeps the structured part', o.A, A.me())
    else:
        check_eqvec('structured secant equation', new.apply(s.v), ys)


@task('C14', ['hessian_approximation.TSSM.update', 'hessian_approximation.broyden_class_update'], budget=20)
def tssm_update():
    phi = real('phi')
    enforce = ctx().choose('enforce')
    n, o, A, C_, old, args, keys = structured_setup('TSSM', phi=phi, enforce_curv_cond=enforce)
    s, y, r, hess, yb = args
    nr = norm2(r.v)
    base = C_.me().add(A.me().scale(nr))
    ys = vadd(yb.v, C_.me().apply(s.v))
    with patched(code().hessian_approximation, broyden_class_update=broyden_stub(phi, enforce)):
        o.update(*args)
    new = me_of(o.get_mat())
    eqmat('Gauss-Newton matrix plus residual norm times structured part', new,
          C_.me().add(me_of(o.A).scale(nr)))
    structured_post(o, A, C_, old, args, keys)
    if ctx().branch(nr.val == 0) or degenerate(ys, s.v, base, enforce):
        eqmat('skipped update keeps the structured part', o.A, A.me())
    else:
        check_eqvec('structured secant equation', new.apply(s.v), ys)


@task('C14', ['hessian_approximation.GNSBFGS.update', 'hessian_approximation.broyden_class_update'], budget=20)
def gnsbfgs_update():
    tol = real('tol')
    assume(tol.val > 0)
    n, o, A, C_, old, args, keys = structured_setup('GNSBFGS', hybrid_tol=tol)
    s, y, r, hess, yb = args
    nonzero(s.v)
    ss = normsq(s.v)
    b = dot(yb.v, s.v)
    nr = norm2(r.v)
    with patched(code().hessian_approximation, broyden_class_update=broyden_stub(0.0, True)):
        o.update(*args)
    new = me_of(o.get_mat())
    structured_post(o, A, C_, old, args, keys)
    if ctx().branch(b.val > tol.val * ss.val):
        eqmat('Gauss-Newton matrix plus structured part', new, C_.me().add(me_of(o.A)))
        if degenerate(yb.v, s.v, A.me(), True):
            eqmat('skipped update keeps the structured part', o.A, A.me())
        else:
            check_eqvec('structured secant equation', me_of(o.A).apply(s.v), yb.v)
    else:
        eqmat('Gauss-Newton matrix plus residual norm times identity', new,
              C_.me().add(vec.me_identity(n).scale(nr)))
        eqmat('structured part is kept', o.A, A.me())


def happ_obj(H, kind):
    return getattr(H, kind)()


def hybrid_setup(cls, kind='SR1', **kw):
    H = code().hessian_approximation
    n = dim()
    inner = happ_obj(H, kind)
    o = getattr(H, cls)(happ=inner, **kw)
    H0 = Mat('H0', n, n, sym=True)
    o._init_mat(n.dim(), SMat(H0.me()))
    eqmat('initial matrix is the given one', o.get_mat(), H0.me())
    need(o, '_hess')
    need(inner, '_hess')
    Bi = Mat('Bi', n, n, sym=True)
    C_ = Mat('C', n, n, sym=True)
    inner._hess = SMat(Bi.me())
    s, y = vecvar('s', n), vecvar('y', n)
    return H, n, o, inner, Bi, C_, s, y


def reference_iterative(H, kind, Bi, n, s, y):
    """the iterative approximation, updated on its own"""
    ref = happ_obj(H, kind)
    ref._init_mat(n.dim(), SMat(Bi.me()))
    ref.update(SVec(s), SVec(y))
    return me_of(ref.get_mat())


def switching(cls, switch_now, args, **kw):
    H, n, o, inner, Bi, C_, s, y = hybrid_setup(cls, **kw)
    old = Mat('Hprev', n, n, sym=True)
    o._hess = SMat(old.me())
    need(o, '_switched')
    was = ctx().choose('switched before')
    o._switched = was
    hess = SMat(C_.me())
    sv, yv = s.v, y.v
    o.update(s, y, hess, *args)
    it = reference_iterative(H, 'SR1', Bi, n, sv, yv)
    eqmat('the iterative approximation is always updated', inner.get_mat(), it)
    eqmat('user matrix before, iterative approximation after the switch', o.get_mat(), it if was else C_.me())
    eqmat('new matrix is the old one plus the reported change', o.get_mat(), old.me().add(me_of(o.get_diff())))
    eqmat('the user matrix is not modified', hess, C_.me())
    now = o._switched
    if was:
        check('the switch is irreversible', b_of(now))
    else:
        check('the switch follows the criterion', biff(b_of(now), switch_now))
    o._init_mat(n.dim())
    check('initialization resets the switch', bnot(b_of(o._switched)))
    unaliased('changing the returned matrix does not change the approximation', o, o.get_mat, o.get_mat)


@task(['C14', 'C15'], ['hessian_approximation.HybridFixed.update',
                       'hessian_approximation.HybridSwitchApproximation._switched_update'], budget=20)
def hybrid_fixed():
    k, since = SInt(z3.Int('switch_iteration')), SInt(z3.Int('since'))
    switching('HybridFixed', since.i >= k.i, [since], switch_iteration=k)


@task(['C14', 'C15'], ['hessian_approximation.HybridFraction.update',
                       'hessian_approximation.HybridSwitchApproximation._switched_update'], budget=20)
def hybrid_fraction():
    th = real('threshold')
    non, it = SInt(z3.Int('nonupdates')), SInt(z3.Int('iterations'))
    assume(it.i >= 0)
    f = band(it.i > 25, z3.ToReal(non.i) > th.val * z3.ToReal(it.i))
    switching('HybridFraction', f, [non, it], switch_threshold=th)


@task(['C14'], ['hessian_approximation.FX.update'], budget=20)
def fx_update():
    tol = real('tol')
    H, n, o, inner, Bi, C_, s, y = hybrid_setup('FX', hybrid_tol=tol)
    m = dim('m')
    r, rp = vecvar('r', m), vecvar('rprev', m)
    nonzero(rp.v)           # obligation of optimizer_update
    f0, f1 = normsq(rp.v), normsq(r.v)
    hess = SMat(C_.me())
    sv, yv = s.v, y.v
    o.update(s, y, r, rp, hess)
    eqmat('the user matrix is not modified', hess, C_.me())
    eqmat('new matrix is the old one plus the reported change', o.get_mat(), Bi.me().add(me_of(o.get_diff())))
    if ctx().branch((f0 - f1).val >= (tol * f0).val):
        eqmat('user matrix while the objective decreases fast', o.get_mat(), C_.me())
    else:
        eqmat('iterative update of the last matrix otherwise', o.get_mat(),
              reference_iterative(H, 'SR1', Bi, n, sv, yv))
