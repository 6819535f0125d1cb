from .common import *


def q1(st, tau):
    """0.5*tau^2*s'Bs + tau*s'(B s0 + g)   (model along the line, relative to s0)"""
    return 0.5 * st['sBs'] * tau * tau + st['sBg'] * tau


def setup(n, outside=False):
    B = Mat('B', n, n)
    g, s, s0 = vecvar('g', n), vecvar('s', n), vecvar('s0', n)
    delta = real('delta')
    assume(delta.val > 0)
    b = SMat(B.me())
    ss, s0s, s0s0 = dot(s.v, s.v), dot(s0.v, s.v), dot(s0.v, s0.v)
    normsq(s.v), normsq(s0.v)
    assume(rlt((delta * delta).val, s0s0.val) if outside else rle(s0s0.val, (delta * delta).val))
    vec.lemma_cs(s.v, s0.v)
    return dict(b=b, g=g, s=s, s0=s0, delta=delta, ss=ss, s0s=s0s, s0s0=s0s0, sBs=dot(s.v, B.me().apply(s.v)),
                sBg=0.5 * (dot(s.v, B.me().apply(s0.v)) + dot(s0.v, B.me().apply(s.v))) + dot(s.v, g.v))


def result_checks(d, tau):
    """tau minimizes the model along the line among the step lengths inside the trust region"""
    check('result is finite', tau.fin)
    ns = lambda t: d['ss'] * t * t + 2 * d['s0s'] * t + d['s0s0']
    check('total step inside the trust region', ns(tau)._cmp_le(d['delta'] * d['delta']))
    u = real('u')
    goal = bimp(ns(u)._cmp_le(d['delta'] * d['delta']), q1(d, tau)._cmp_le(q1(d, u)))
    check('no other admissible step length has a lower model value', goal)


def two_roots(ns, dd, ss, u):
    """the quotients computed by the code are the two boundary points (if this follows from their definition)"""
    c = ctx()
    prem = [ss.val > 0, tob(ns(u)._cmp_eq(dd))]
    prem += [z3.Implies(a >= 0, z3.And(y >= 0, y * y == a)) for y, a in c.sqrts]
    prem += [z3.And(b != 0, q * b == a) for q, a, b in c.quots]
    return try_lemma('the roots are the boundary points', prem, z3.Or([u.val == q for q, _, _ in c.quots]))


@task(['C10', 'C03'], ['subproblem.get_1d_trust_region_boundary_solution', 'subproblem.quadratic_form'], budget=20)
def boundary_1d():
    S = code().subproblem
    n = dim()
    d = setup(n)
    assume(d['ss'].val > 0)
    tau = S.get_1d_trust_region_boundary_solution(d['b'], d['g'], d['s'], d['s0'], d['delta'])
    tau = lift(tau)
    check('result is finite', tau.fin)
    dd = (d['delta'] * d['delta'])
    ns = lambda t: d['ss'] * t * t + 2 * d['s0s'] * t + d['s0s0']
    check('total step on the boundary', ns(tau)._cmp_eq(dd))
    u = real('u')
    onb = ns(u)._cmp_eq(dd)
    two_roots(ns, dd, d['ss'], u)
    check('lowest model value of the boundary points', bimp(onb, q1(d, tau)._cmp_le(q1(d, u))))


def not_longer(d, tau):
    ns = d['ss'] * tau * tau + 2 * d['s0s'] * tau + d['s0s0']
    check('result is finite', tau.fin)
    check('total step is not longer than the base step', ns._cmp_le(d['s0s0']))


@task(['C10', 'C03'], ['subproblem.get_1d_trust_region_boundary_solution', 'subproblem.quadratic_form'], budget=20)
def boundary_1d_outside():
    S = code().subproblem
    d = setup(dim(), True)
    assume(d['ss'].val > 0)
    not_longer(d, lift(S.get_1d_trust_region_boundary_solution(d['b'], d['g'], d['s'], d['s0'], d['delta'])))


def outside_stub(b, g, s, s0, delta):
    """contract of get_1d_trust_region_boundary_solution, base point outside the trust region"""
    delta = lift(delta)
    ss, s0s, s0s0 = dot(s.v, s.v), dot(s0.v, s.v), dot(s0.v, s0.v)
    check('boundary solution: direction is not zero', rlt(ZERO, ss.val))
    check('boundary solution: radius is positive', rlt(ZERO, delta.val))
    check('boundary solution: base point is outside', (delta * delta)._cmp_lt(s0s0))
    tau = real('tau')
    assume((ss * tau * tau + 2 * s0s * tau + s0s0)._cmp_le(s0s0))
    return tau


@task(['C10', 'C03'], ['subproblem.solve_1d_trust_region_subproblem'], budget=30)
def solve_1d_outside():
    S = code().subproblem
    with patched(S, get_1d_trust_region_boundary_solution=outside_stub):
        d = setup(dim(), True)
        if ctx().branch(d['ss'].val > 0):
            vec.lemma_witness(d['s'].v)
        else:
            forall(d['s'].v.dom, lambda t: d['s'].v.elem(t).val == 0)
            for w in (d['g'].v, d['b'].me.apply(d['s0'].v), d['b'].me.T().apply(d['s0'].v), d['b'].me.apply(d['s'].v)):
                vec.lemma_cs(d['s'].v, w)
        r = S.solve_1d_trust_region_subproblem(d['b'], d['g'], d['s'], d['delta'], d['s0'])
        check('one step length', isinstance(r, SVec) and r.dom is constdom(1))
        not_longer(d, r.v.elem(0))


def boundary_stub(b, g, s, s0, delta):
    """the contract of get_1d_trust_region_boundary_solution (proved in boundary_1d)"""
    delta = lift(delta)
    ss, s0s, s0s0 = dot(s.v, s.v), dot(s0.v, s.v), dot(s0.v, s0.v)
    dd = delta * delta
    check('boundary solution: direction is not zero', rlt(ZERO, ss.val))
    check('boundary solution: base point inside the trust region', s0s0._cmp_le(dd))
    check('boundary solution: radius is positive', rlt(ZERO, delta.val))
    a, t1, t2 = ss.val, ctx().fresh('t1'), ctx().fresh('t2')
    ctx().ghost['boundary points'] = t1, t2
    # both roots of |s0 + t s| = delta exist
    assume(band(t1 <= t2, a * (t1 + t2) == -2 * s0s.val, a * t1 * t2 == s0s0.val - dd.val))
    tau = real('tau')
    d = dict(sBs=dot(s.v, b.me.apply(s.v)), sBg=None)
    q = lambda t: model_on_line(b, g, s, s0, t)
    assume(bor(tau.val == t1, tau.val == t2))
    assume(band(q(tau)._cmp_le(q(XR(t1))), q(tau)._cmp_le(q(XR(t2)))))
    return tau


def model_on_line(b, g, s, s0, t):
    B = b.me
    sBs = dot(s.v, B.apply(s.v))
    lin = 0.5 * (dot(s.v, B.apply(s0.v)) + dot(s0.v, B.apply(s.v))) + dot(s.v, g.v)
    return 0.5 * sBs * t * t + lin * t


@task(['C10', 'C03'], ['subproblem.solve_1d_trust_region_subproblem'],
      ['the base point is inside the trust region'], budget=30)
def solve_1d():
    S = code().subproblem
    with patched(S, get_1d_trust_region_boundary_solution=boundary_stub):
        n = dim()
        d = setup(n)
        zero = False
        if ctx().branch(d['ss'].val > 0):
            vec.lemma_witness(d['s'].v)
        else:
            # zero direction
            zero = True
            forall(n, lambda t: d['s'].v.elem(t).val == 0)
            for w in (d['g'].v, d['b'].me.apply(d['s0'].v), d['b'].me.T().apply(d['s0'].v), d['b'].me.apply(d['s'].v)):
                vec.lemma_cs(d['s'].v, w)
        r = S.solve_1d_trust_region_subproblem(d['b'], d['g'], d['s'], d['delta'], d['s0'])
        check('one step length', isinstance(r, SVec) and r.dom is constdom(1))
        tau = r.v.elem(0)
        check('result is finite', tau.fin)
        if zero:
            check('zero direction gives a zero step', tau._cmp_eq(lift(0)))
        result_checks(d, tau)


@task('C10', ['subproblem.solve_1d_trust_region_subproblem'])
def solve_1d_zero_direction():
    S = code().subproblem
    n = dim()
    d = setup(n)
    z = SVec(VE(n, {}))
    r = S.solve_1d_trust_region_subproblem(d['b'], d['g'], z, d['delta'], d['s0'])
    check('zero direction gives a zero step', r.v.elem(0)._cmp_eq(lift(0)))
    r = S.solve_1d_trust_region_subproblem(d['b'], d['g'], d['s'], 0.0, d['s0'])
    check('zero radius gives a zero step', r.v.elem(0)._cmp_eq(lift(0)))
