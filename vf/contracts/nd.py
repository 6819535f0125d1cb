from .common import *


def slam_stub(lam, w, eigvals, eigvecs):
    """contract of slam (proved in task slam): eigvecs @ c with c_i (eigvals_i + lam) = w_i where that is possible"""
    c = ctx()
    lam = lift(lam).settle()
    if not lam.static:
        raise Unsupported('slam at a non-finite shift')
    k = ('slam', core.canon(lam.val).get_id(), w.v.key, eigvals.v.key)
    if k not in c.memo:
        cv = base_vec('c', w.dom)
        forall(w.dom, lambda t: slam_spec(lam, w, eigvals, cv, t, c.ghost.get('any root')))
        c.memo[k] = cv
        c.ghost.setdefault('slam', []).append((lam, w.v, eigvals.v, cv))
    cv = c.memo[k]
    return SVec(eigvecs.me.apply(cv))


def slam_of(lam, w, eigvals):
    """the coordinates of slam"""
    return ctx().memo['slam', core.canon(lift(lam).settle().val).get_id(), w.v.key, eigvals.v.key]


def slam_spec(lam, w, eigvals, cv, t, part=False):
    el = (eigvals.v.elem(t) + lam).val
    c, wt = cv.elem(t).val, w.v.elem(t).val
    if part:
        return bimp(req(el, ZERO), req(c, wt))
    return band(bimp(bnot(req(el, ZERO)), req(c * el, wt)), bimp(req(el, ZERO), req(c, wt)))


def secular_stub(lam, w, eigvals, eigvecs, delta):
    """contract of secular (proved in task secular): sign and zero of 1/|s(lam)| - 1/delta"""
    c = ctx()
    lam = lift(lam).settle()
    if not lam.static:
        raise Unsupported('secular at a non-finite shift')
    delta = lift(delta)
    k = ('secular', core.canon(lam.val).get_id(), w.v.key, eigvals.v.key, delta.key())
    if k not in c.memo:
        cv_s = slam_stub(lam, w, eigvals, eigvecs)
        nn = normsq(cv_s.v)
        left = rlt((lam + vec.red_min(eigvals.v)).val, ZERO)
        big = bor(left, nn._cmp_eq(lift(0)))
        phi = c.fresh('phi')
        dd = delta * delta
        if not c.ghost.get('any root'):
            c.add(bimp(bnot(big), band(biff(phi < 0, nn.val > dd.val), biff(phi == 0, nn.val == dd.val))))
        c.memo[k] = XR(phi, pinf=big)
    return c.memo[k]


@task(['C09', 'C03'], ['subproblem.slam'])
def slam():
    S = code().subproblem
    n = dim()
    w, e = vecvar('w', n), vecvar('e', n)
    V = Mat('V', n, n, orth=True)
    lam = real('lam')
    s = S.slam(lam, w, e, SMat(V.me()))
    check('result is a vector', isinstance(s, SVec))
    check('finite', s.v.finite)
    cv = V.me().T().apply(s.v)
    t = at(n)
    check('coordinates solve the shifted diagonal system', slam_spec(lam, w, e, cv, t))
    check_eqvec('result is eigvecs @ c', s.v, V.me().apply(cv))


@task(['C09', 'C03'], ['subproblem.secular'])
def secular():
    S = code().subproblem
    n = dim()
    w, e = vecvar('w', n), vecvar('e', n)
    V = SMat(Mat('V', n, n, orth=True).me())
    lam, delta = real('lam'), real('delta')
    assume(delta.val > 0)
    with patched(S, slam=slam_stub):
        phi = lift(S.secular(lam, w, e, V, delta))
    nn = normsq(slam_stub(lam, w, e, V).v)
    left = rlt((lam + vec.red_min(e.v)).val, ZERO)
    dd = delta * delta
    check('never nan or -inf', bnot(bor(phi.nan, phi.ninf)))
    check('infinite left of the pole', bimp(left, phi.pinf))
    check('infinite for a zero step', bimp(band(bnot(left), nn._cmp_eq(lift(0))), phi.pinf))
    ok = band(bnot(left), bnot(nn._cmp_eq(lift(0))))
    check('negative iff the step is too long', bimp(ok, biff(phi._cmp_lt(lift(0)), dd._cmp_lt(nn))))
    check('zero iff the step is on the boundary', bimp(ok, biff(phi._cmp_eq(lift(0)), dd._cmp_eq(nn))))


class Bracket(LoopContract):
    """search for a sign change: xa and xb stay to the right of the start, the function is negative at xa"""
    cut = True
    found = True

    def entry(self, env):
        lam0 = lift(env['laminit'])
        self.lam0 = lam0
        self.inv(env, 'bracket on entry')
        xa, xb, mi = real('xa'), real('xb'), SInt(ctx().fresh('maxiter', 'I'))
        if self.found:
            assume(mi.i > 0)            # a sign change is found within the iteration budget: solve_nd_bracket
        new = dict(env, xa=xa, xb=xb)
        self.count(env, new, mi)
        for nm, f in self.formulas(new):
            assume(f)
        sec = lambda x: lambda e: secular_stub(lift(e[x]), e['w'], e['eigvals'], e['eigvecs'], e['delta'])
        return self.guess(env, {'xa': xa, 'xb': xb, 'maxiter': mi}, {'value at xb': sec('xb'), 'value at xa': sec('xa')})

    def formulas(self, env):
        xa, xb = lift(env['xa']), lift(env['xb'])
        sec = secular_stub
        yield 'xa finite', xa.fin
        yield 'xb finite', xb.fin
        yield 'laminit <= xa', self.lam0._cmp_le(xa)
        yield 'xa < xb', xa._cmp_lt(xb)
        f = sec(xa, env['w'], env['eigvals'], env['eigvecs'], env['delta'])
        yield 'secular(xa) < 0', lift(f)._cmp_lt(lift(0))

    def inv(self, env, when):
        for nm, f in self.formulas(env):
            check(f'{when}: {nm}', f)

    def count(self, env, new, mi):
        pass

    def back(self, env):
        self.kept(env)
        self.inv(env, 'bracket preserved')


class CountedBracket(Bracket):
    """the sign change is found within the iteration budget"""
    found = False

    def count(self, env, new, mi):
        mi0 = env.get('maxiter')
        if type(mi0) is not int or mi0 < 1:
            raise Unsupported('iteration budget')
        P = z3.Function('pow10', z3.IntSort(), z3.RealSort())       # powers of ten
        self.power = lambda m: P(mi0 - m)
        assume(z3.And(P(0) == 1, P(mi0 - 1) == 10 ** (mi0 - 1), self.power(mi.i - 1) == 10 * self.power(mi.i)))
        check('bracket on entry: distance from the start', self.distance(env))
        assume(mi.i > 0)
        assume(self.distance(dict(new, maxiter=mi)))

    def distance(self, env):
        mi = env['maxiter']
        return lift(env['xb']).val >= 1e-8 * self.power(mi.i if isinstance(mi, SInt) else z3.IntVal(mi))

    def back(self, env):
        self.kept(env)
        mi = env.get('maxiter')
        if not isinstance(mi, SInt):
            raise Unsupported('iteration budget')
        check('bracket preserved: distance from the start', self.distance(env))
        # |s(lam)| (lam + smallest eigenvalue) <= |w|: the function is not negative from |w| / delta on
        xa, e, w = lift(env['xa']), env['eigvals'], env['w']
        slam_stub(xa, w, e, env['eigvecs'])
        vec.lemma_sum_le(vscale(xa + vec.red_min(e.v), slam_of(xa, w, e)), w.v)
        check('a sign change is found within the budget', mi.i > 0)


ND_ASSUME = [
    'scipy.linalg.eigh returns an orthogonal eigendecomposition',
    'newton returns an exact root (not the pole) or raises RuntimeError, brentq returns an exact root in the bracket',
    'the gradient of the subproblem is at most 1e60 times the radius',
    'eigenvalues of B are either equal to the smallest one or differ from it by more than the rounding tolerance']


@task(['C09', 'C03', 'C02'], ['subproblem.solve_nd_trust_region_subproblem', 'subproblem.slam', 'subproblem.secular'],
      ND_ASSUME, budget=20)
def solve_nd():
    L = code()
    L.contracts = {('subproblem.solve_nd_trust_region_subproblem', 'While'): Bracket}
    S = L.subproblem
    n = dim(least=2)
    B = Mat('B', n, n)
    g = vecvar('g', n)
    delta = real('delta')
    assume(delta.val > 0)
    with patched(S, slam=slam_stub, secular=secular_stub):
        s, kind = S.solve_nd_trust_region_subproblem(SMat(B.me()), g, delta)
    c = ctx()
    if not c.ghost.get('eigh'):
        raise Unsupported('no eigendecomposition')
    me, e, V = c.ghost['eigh'][0]
    # contract of eigh: B = V diag(e) V^T, so B s = V (e * V^T s)
    cs = V.me().T().apply(s.v)              # coordinates of s in the eigenbasis
    w = vscale(-1, V.me().T().apply(g.v))
    check('finite step', s.v.finite)
    half = B.me().add(B.me().T()).scale(0.5)
    check('the decomposed matrix is the symmetric part of the Hessian', arr.mekey(me) == arr.mekey(half))
    jm = vec.red_min(e)
    for sp in c.ghost.get('spacings', []):
        lim = lift(n.dim()) * sp
        forall(n, lambda t: bimp((e.elem(t) - jm)._cmp_le(lim), e.elem(t)._cmp_eq(jm)))
    nsq = normsq(s.v)
    if kind == 'hard':
        wm = vec.where(vec.bew('eq', lambda a, b: a._cmp_eq(b), [e, vconst(n, jm)]), w, vconst(n, 0))
        msq = [(v, m, d) for v, m, d in getattr(c, 'sums', []) if d is n and all(m.count(i) % 2 == 0 for i in set(m))]
        t = c.index(n, 'l')
        wt = wm.elem(t).val
        for v, m, d in msq:           # masked norms computed by the code are those of wm
            if c.entails(vec.sq_elem(m, t) == wt * wt, 1000):
                c.add(v == normsq(wm).val)
        for lam, w_, e_, cv in c.ghost['slam']:
            vec.lemma_sum_le(wm, cv, lam * lam, 1000)
        vec.lemma_witness(wm)
        if c.entails(normsq(wm).val == 0, 5000):
            forall(n, lambda t: req(wm.elem(t).val, ZERO))
        cvs = [cv for _, _, _, cv in c.ghost['slam']]
        for cv in cvs[:-1]:
            vec.lemma_sum_le(cvs[-1], cv, None, 1000)
    roots = c.ghost.get('roots', [])
    calls = c.ghost.get('slam', [])
    for r in roots:
        for lam, w_, e_, cv in calls:
            if lam.val.eq(core.canon(r.val)) or lam.val.eq(r.val):
                # the pole is not a root
                forall(n, lambda t: bimp(req((e_.elem(t) + lam).val, ZERO), req(w_.elem(t).val, ZERO)))
                # |s(lam)| decreases to the right of the pole
                for lam2, w2, e2, cv2 in calls:
                    if w2.key == w_.key and e2.key == e_.key and lam2 is not lam:
                        vec.lemma_sum_le(cv2, cv, None, 1000, rlt(lam.val, lam2.val))
    mult = [r - jm for r in roots] + [r for r in roots] + [lift(0), -jm]
    # multiplier: 0, a root of the secular equation (possibly for shifted eigenvalues) or minus the smallest eigenvalue
    t = at(n)
    opts = []
    for m in mult:
        kkt = ((e.elem(t) + m) * cs.elem(t))._cmp_eq(w.elem(t))
        psd = band(rle(ZERO, m.val), rle(ZERO, (e.elem(t) + m).val))
        comp = bor(req(m.val, ZERO), nsq._cmp_eq(delta * delta))
        opts.append(band(kkt, psd, comp))
    c.check_any('step is a stationary point for a feasible multiplier (global optimality)', opts)
    tol = lift(1.4901161193847656e-08)
    check('step inside the trust region', nsq._cmp_le((delta + tol) * (delta + tol)))


@task(['C09', 'C03'], ['subproblem.solve_nd_trust_region_subproblem', 'subproblem.slam', 'subproblem.secular'],
      ['scipy.linalg.eigh returns an orthogonal eigendecomposition',
       'the gradient of the subproblem is at most 1e60 times the radius'], budget=20)
def solve_nd_bracket():
    """the search for a bracket finds a sign change within its iteration budget"""
    L = code()
    L.contracts = {('subproblem.solve_nd_trust_region_subproblem', 'While'): CountedBracket}
    S = L.subproblem
    n = dim(least=2)
    g, delta = vecvar('g', n), real('delta')
    assume(delta.val > 0)
    assume(normsq(g.v)._cmp_le(lift(10 ** 120) * delta * delta))
    with patched(S, slam=slam_stub, secular=secular_stub):
        S.solve_nd_trust_region_subproblem(SMat(Mat('B', n, n).me()), g, delta)


class AnyBracket(Bracket):
    found = False


@task(['C02', 'C09'], ['subproblem.solve_nd_trust_region_subproblem', 'subproblem.slam', 'subproblem.secular'],
      ['scipy.linalg.eigh returns an orthogonal eigendecomposition', 'newton returns a finite number, brentq a number in the bracket or raises RuntimeError'],
      budget=20)
def solve_nd_any_root():
    """length of the step, whatever the root finders return"""
    L = code()
    L.contracts = {('subproblem.solve_nd_trust_region_subproblem', 'While'): AnyBracket}
    S = L.subproblem
    c = ctx()
    c.ghost['any root'] = True
    n = dim(least=2)
    g, delta = vecvar('g', n), real('delta')
    assume(delta.val > 0)
    with patched(S, slam=slam_stub, secular=secular_stub):
        s, kind = S.solve_nd_trust_region_subproblem(SMat(Mat('B', n, n).me()), g, delta)
    if not c.ghost.get('eigh'):
        raise Unsupported('no eigendecomposition')
    check('finite step', s.v.finite)
    nsq = normsq(s.v)
    vec.lemma_sum_zero(n)
    tol = lift(1.4901161193847656e-08)
    check('step inside the trust region', nsq._cmp_le((delta + tol) * (delta + tol)))


@task('C09', ['subproblem.solve_nd_trust_region_subproblem'])
def symmetric_part():
    """lemma: the model of a Hessian is that of its symmetric part"""
    n = dim()
    B = Mat('B', n, n).me()
    g, s = base_vec('g', n), base_vec('s', n)
    check('same model', qform(B, g, s)._cmp_eq(qform(B.add(B.T()).scale(0.5), g, s)))


@task(['C09', 'C02'], ['subproblem.solve_nd_trust_region_subproblem'])
def solve_nd_zero_radius():
    S = code().subproblem
    n = dim(least=1)
    s, kind = S.solve_nd_trust_region_subproblem(SMat(Mat('B', n, n).me()), vecvar('g', n), 0.0)
    check_eqvec('zero radius gives the zero step', s.v, VE(n, {}))


@task(['C09', 'C03'], ['subproblem.solve_nd_trust_region_subproblem'], ND_ASSUME, budget=20)
def solve_nd_descent():
    """lemma over the contract of the solver: a stationary point z for a feasible multiplier m has g'z <= 0 and
    z'Bz/2 + g'z <= 0"""
    n = dim()
    e, cs = base_vec('e', n), base_vec('cs', n)
    V = Mat('V', n, n, orth=True).me()
    m = real('m')
    assume(m.val >= 0)
    forall(n, lambda t: rle(ZERO, (e.elem(t) + m).val))
    w = vadd(vmul(e, cs), vscale(m, cs))           # stationary: (e + m) cs = w
    z, Bz = V.apply(cs), V.apply(vmul(e, cs))      # B = V diag(e) V', z = V cs
    g = vscale(-1, V.apply(w))                     # w = -V'g
    check_eqvec('coordinates of the gradient', vscale(-1, V.T().apply(g)), w)
    vec.lemma_sum_nonneg(vmul(w, cs))
    vec.lemma_sum_nonneg(vadd(vscale(0.5, vmul(vmul(e, cs), cs)), vscale(m, vmul(cs, cs))))
    check('the step is no direction of ascent', rle(dot(g, z).val, ZERO))
    check('the model value is not above zero', rle((0.5 * dot(z, Bz) + dot(g, z)).val, ZERO))
