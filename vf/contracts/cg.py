"""The truncated conjugate-gradient step."""
from .common import *
from .steps_ import (World, ident, step_back_stub, stub_method, base_facts, step_facts, scalar_facts, check_radius, check_moves,
                     same, TOL)
from .oned import boundary_stub
from .dirs import normalize_stub

CG = ['at most n nonzero vectors of length n are orthogonal to each other (linear algebra)']


def half(me):
    """symmetric part"""
    return me.add(me.T()).scale(0.5)


def maker(eps, delta, me, g):
    n = g.dom

    def grad(z):
        return vadd(g, half(me).apply(z))

    def model(z):
        return qform(me, g, z)

    class Steihaug(LoopContract):
        """residual = model gradient, residual and direction, length, model value"""
        cut = True

        def inv(self, z, r, d):
            rr = normsq(r)
            yield 'residual and direction', (dot(r, d) + rr)._cmp_eq(lift(0))
            yield 'inside the trust region', normsq(z)._cmp_lt(delta * delta)
            yield 'the model value is not above zero', model(z)._cmp_le(lift(0))
            yield 'residual is not below the tolerance', (eps * eps)._cmp_le(rr)

        def vecs(self, env):
            z, r, d = (env.get(k) for k in ('z', 'r', 'd'))
            if not all(isinstance(v, SVec) for v in (z, r, d)):
                raise Unsupported('state of the iteration')
            z, r, d = (vec.settle_vec(v.v) for v in (z, r, d))
            if not (z.finite and d.finite and r.finite):
                raise Unsupported('iteration state is not finite')
            return z, r, d

        def entry(self, env):
            z, r, d = self.vecs(env)
            check('entry: residual is the model gradient', same(r, grad(z)))
            for nm, f in self.inv(z, r, d):
                check('entry: ' + nm, f)
            mi = env.get('maxiter')
            if not isinstance(mi, (SInt, int)):
                raise Unsupported('iteration budget')
            z, d = base_vec('z', n), base_vec('d', n)
            r = grad(z)
            for _, f in self.inv(z, r, d):
                assume(f)
            # the residuals so far, r included, are nonzero and orthogonal (conj_grad_residuals): there are at most n
            k = ctx().fresh('iterations', 'I')
            assume(z3.And(0 <= k, k <= n.nz - 1))
            mi = SInt(budget(mi) - k)
            vec.lemma_cs(r, d)
            ctx().ghost['z'] = z, d
            ctx().ghost['budget'] = mi.i
            self.counter = lambda e: SInt(k)
            return self.guess(env, {'z': SVec(z), 'd': SVec(d), 'r': SVec(r), 'maxiter': mi},
                              {'#': self.counter, **self.quantities()})

        def quantities(self):
            v = lambda f: lambda e: f(*self.vecs(e))
            h = half(me)
            return {'r2': v(lambda z, r, d: normsq(r)), 'norm of r': v(lambda z, r, d: norm2(r)),
                    'curvature': v(lambda z, r, d: dot(d, h.apply(d))), 'length': v(lambda z, r, d: normsq(z)),
                    'slope': v(lambda z, r, d: dot(r, d))}

        def back(self, env):
            k = self.counter({}).i
            self.kept(env, {'#': lambda e: SInt(k + 1)})
            z, r, d = self.vecs(env)
            check('residual is the model gradient', same(r, grad(z)))
            for nm, f in self.inv(z, r, d):
                check('preserved: ' + nm, f)
            check('an iteration uses one unit of the budget', budget(env.get('maxiter')) >= ctx().ghost['budget'] - 1)
    return Steihaug


def budget(mi):
    if isinstance(mi, SInt):
        return mi.i
    if type(mi) is int:
        return z3.IntVal(mi)
    raise Unsupported('iteration budget')


def history(eps, delta, me, g):
    """invariant over all earlier iterations j: the residual is orthogonal to the residual of iteration j, the direction
    is conjugate to the direction of iteration j.  A generic j is followed, the earlier iterations satisfy
        r(j+1) = r(j) + al(j) B d(j),  al(j) > 0,     d(j) = -r(j) + multiple of d(j-1)
    which are obligations of every iteration"""
    n, h = g.dom, half(me)
    base = maker(eps, delta, me, g)

    class History(base):
        def entry(self, env):
            z, r, d = self.vecs(env)
            check('entry: first direction is the negative residual', same(vadd(r, d), VE(n, {})))
            ch = super().entry(env)
            z, r, d = self.vecs(ch)
            bd, e = h.apply(d), vadd(r, d)
            al = real('alpha_j').val
            rj, dj = base_vec('rj', n), base_vec('dj', n)
            bdj, ej = h.apply(dj), vadd(rj, dj)
            rn = vadd(rj, vscale(XR(al), bdj))
            zero = lambda *v: [dot(*v).val == 0]
            assume(al > 0)
            # the last iteration
            assume(dot(bd, e)._cmp_eq(lift(0)))
            # iterations j, j - 1
            for a, b in ((r, rj), (bd, dj), (bd, ej)):
                assume(dot(a, b)._cmp_eq(lift(0)))
            # iteration j + 1 is an earlier one or this one
            assume(bor(band(dot(r, rn)._cmp_eq(lift(0)), dot(bd, rn)._cmp_eq(lift(0))),
                       band(dot(r, rn)._cmp_eq(dot(r, r)), dot(bd, rn)._cmp_eq(dot(bd, r)))))
            ctx().ghost['history'] = z, r, d, rj, dj, rn, al
            return ch

        def back(self, env):
            k = self.counter({}).i
            self.kept(env, {'#': lambda e: SInt(k + 1)})
            zp, rp, dp = self.vecs(env)
            z, r, d, rj, dj, rn, al = ctx().ghost['history']
            bd = h.apply(d)
            c, r2, rp2 = dot(d, bd), normsq(r), normsq(rp)
            a, b = r2 / c, rp2 / r2
            t = at(n)
            check('curvature is positive', c.val > 0)
            check('step along the direction', zp.elem(t)._cmp_eq(z.elem(t) + a * d.elem(t)))
            have('orthogonal to this residual', dot(rp, r)._cmp_eq(lift(0)))
            check('next direction', (dp.elem(t) + rp.elem(t))._cmp_eq(b * d.elem(t)))
            have('orthogonal to residual j', dot(rp, rj)._cmp_eq(lift(0)))
            have('orthogonal to residual j + 1', dot(rp, rn)._cmp_eq(lift(0)))
            bdp = h.apply(dp)
            have('conjugate to this direction', dot(bdp, d)._cmp_eq(lift(0)))
            have('conjugate to direction j', dot(bdp, dj)._cmp_eq(lift(0)))
            have('conjugate to the multiple of this direction', dot(bdp, vadd(rp, dp))._cmp_eq(lift(0)))
    return History


def lemma_descent(n, me, g, dd):
    """the model does not increase from the base point to the boundary point ahead, if its curvature is not positive or
    its minimizer al is not inside the trust region"""
    c = ctx()
    if 'boundary points' not in c.ghost or 'z' not in c.ghost:
        return
    z, d = c.ghost['z']
    t1, t2 = c.ghost['boundary points']
    a, m, Z, R, k = (v.val for v in (normsq(d), dot(z, d), normsq(z), normsq(vadd(g, half(me).apply(z))),
                                     dot(d, half(me).apply(d))))
    va, vm, vZ, vR, vk, v1, v2, vD, vq = vs = [c.fresh('nm') for _ in range(9)]
    vieta = [va > 0, v1 <= v2, va * (v1 + v2) == -2 * vm, va * v1 * v2 == vZ - vD, vZ < vD, vR > 0]
    ahead = z3.Or(vk <= 0, z3.And(vq * vk == vR, va * vq * vq + 2 * vm * vq + vZ >= vD))
    use_lemma('boundary points', vieta, [v1 < 0, v2 > 0, va * v1 * v1 + 2 * vm * v1 + vZ == vD,
                                         va * v2 * v2 + 2 * vm * v2 + vZ == vD], vs[:-1], (a, m, Z, R, k, t1, t2, dd))
    for q, _, _ in c.quots or [(a, a, a)]:
        use_lemma('model value at the boundary', vieta + [ahead], [vk * v2 * v2 / 2 - vR * v2 <= 0], vs,
                  (a, m, Z, R, k, t1, t2, dd, q))


@task(['C11', 'C02', 'C03'], ['steps.TRStepSteihaug.conj_grad', 'steps.normalize'], CG, budget=30)
def conj_grad():
    L = code()
    S = L.steps
    W = World(dim())
    n, c = W.n, ctx()
    st = S.TRStepSteihaug(*W.args(), W.logger)
    B = Mat('shess', n, n)
    st.shess = SMat(B.me())
    me, g, delta = B.me(), W.sg.v, W.delta
    eps = real('eps')
    nn = norm2(g)
    assume(eps.val >= 0)
    assume(bimp(normsq(g).val > 0, eps.val > 0))
    L.contracts = {('steps.TRStepSteihaug.conj_grad', 'While'): maker(eps, delta, me, g)}
    with patched(S, normalize=normalize_stub, get_1d_trust_region_boundary_solution=boundary_stub):
        st.conj_grad(eps)
    W.frame()
    check('the step is finite', st.ss0.v.finite and st.ss.v.finite)
    check('model is kept', arr.mekey(st.shess.me) == arr.mekey(me) and st.sg.v.key == g.key)
    v = vadd(st.ss0.v, st.ss.v)
    nsq, dd = normsq(v), delta * delta
    res = normsq(vadd(g, half(me).apply(v)))
    q = qform(me, g, v)
    lemma_descent(n, me, g, dd.val)
    check('inside the trust region', nsq._cmp_le(dd))
    check('on the boundary, or the model gradient is not above the tolerance', bor(nsq._cmp_eq(dd), res._cmp_le(eps * eps)))
    check('the model value is not above zero', q._cmp_le(lift(0)))
    t = at(n)
    check('the step is in the subspace', st.ss.v.elem(t)._cmp_eq(st.subspace.me.apply(st.sc.v).elem(t)))


@task(['C11', 'C02', 'C03'], ['steps.TRStepSteihaug.conj_grad'], CG, budget=30)
def conj_grad_residuals():
    """the residuals of the iteration are orthogonal to each other, so that it ends after at most n iterations"""
    L = code()
    S = L.steps
    W = World(dim())
    n, c = W.n, ctx()
    st = S.TRStepSteihaug(*W.args(), W.logger)
    B = Mat('shess', n, n)
    st.shess = SMat(B.me())
    me, g, delta = B.me(), W.sg.v, W.delta
    eps = real('eps')
    assume(eps.val >= 0)
    assume(bimp(normsq(g).val > 0, eps.val > 0))
    L.contracts = {('steps.TRStepSteihaug.conj_grad', 'While'): history(eps, delta, me, g)}
    with patched(S, normalize=normalize_stub, get_1d_trust_region_boundary_solution=boundary_stub):
        st.conj_grad(eps)


def conj_grad_stub(self, eps):
    """contract of conj_grad (proved in conj_grad)"""
    c = ctx()
    if not isinstance(self.sg, SVec) or not isinstance(self.shess, SMat):
        raise Unsupported('state of the step')
    me, g = self.shess.me, self.sg.v
    n = g.dom
    e = lift(eps)
    check('tolerance is not negative', band(e.fin, rle(ZERO, e.val)))
    check('tolerance is positive for a nonzero gradient', bimp(normsq(g).val > 0, e.val > 0))
    c.ghost['eps'] = e
    d = base_vec('d', n)
    sc = real('sc')
    z = base_vec('z', n)
    self.subspace = SMat(vec.me_cols([d]))
    self.sc = SVec(vec.list_vec([sc]))
    self.ss, self.ss0 = SVec(vscale(sc, d)), SVec(z)
    v = vadd(z, vscale(sc, d))
    dd = lift(self.delta) * lift(self.delta)
    c.add(normsq(v)._cmp_le(dd))
    c.add(bor(normsq(v)._cmp_eq(dd), normsq(vadd(g, half(me).apply(v)))._cmp_le(XR(e.val) * XR(e.val))))
    c.add(qform(me, g, v)._cmp_le(lift(0)))
    c.ghost['v'] = v


@task(['C11', 'C01', 'C02', 'C03'], ['steps.CGStep.calculate'], CG)
def calculate_cg():
    S = code().steps
    c = ctx()
    W = World(dim())
    n = W.n
    st = S.TRStepSteihaug(*W.args(), W.logger)
    st.shess = SMat(Mat('shess', n, n).me())
    Bk = arr.mekey(st.shess.me)
    with stub_method(S.TRStepSteihaug, 'conj_grad', conj_grad_stub), stub_method(S.Step, 'step_back', step_back_stub):
        st.calculate()
    W.frame()
    v = c.ghost.get('v')
    if v is None:
        raise Unsupported('conjugate gradients are not used')
    eps = c.ghost['eps'].val
    nsg = norm2(W.sg.v).val
    check('tolerance is below the gradient', rle(eps, core.rmul(core.rc(0.5), nsg)))
    t = at(n)
    check('model is kept', arr.mekey(st.shess.me) == Bk and st.sg.v.key == W.sg.v.key)
    check('no base step', band(st.ss0.v.elem(t)._cmp_eq(lift(0)), st.s0.v.elem(t)._cmp_eq(lift(0))))
    check('the full step is that of the conjugate gradients', v.elem(t)._cmp_eq(st.og_ss.v.elem(t)))
    for nm, f in base_facts(W, st, t):
        check(nm, f)
    for nm, f in step_facts(W, st, t):
        check(nm, f)
    for nm, f in scalar_facts(W, st):
        have(nm, f)
    check_radius(W, st)
    me = st.shess.me
    check('model value is that of the step', lift(st.qpval)._cmp_eq(qform(me, W.sg.v, st.ss.v)))
    check('the model value of a full step is not above zero',
          bimp(lift(st.alpha)._cmp_eq(lift(1)), lift(st.qpval)._cmp_le(lift(0))))
    check_moves(W, st, lift(st.qpval), me, st.ss.v)


@task(['C11', 'C03'], ['steps.TRStepSteihaug.conj_grad', 'steps.CGStep.calculate'], [], budget=30)
def conj_grad_one_variable():
    """one variable: the step is along the negative gradient"""
    L = code()
    S = L.steps
    n = constdom(1)
    W = World(n)
    st = S.TRStepSteihaug(*W.args(), W.logger)
    st.shess = SMat(Mat('shess', n, n, sym=True).me())
    eps = real('eps')
    assume(eps.val >= 0)
    assume(bimp(normsq(W.sg.v).val > 0, eps.val > 0))
    L.contracts = {}
    with patched(S, normalize=normalize_stub, get_1d_trust_region_boundary_solution=boundary_stub):
        st.conj_grad(eps)
    v = vadd(st.ss0.v, st.ss.v)
    check('no direction of ascent', dot(W.sg.v, v)._cmp_le(lift(0)))
    check('the model value is not above zero', qform(st.shess.me, W.sg.v, v)._cmp_le(lift(0)))
