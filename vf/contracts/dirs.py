"""Construction of the steps: subspaces and base points."""
from .common import *
from .steps_ import *
from .steps_ import stub_method


def args(W):
    return W.args() + (W.logger,)


def no_base(W, st):
    check('no base step', st.s0.v.is_zero() and st.ss0.v.is_zero())
    check('base point is the iterate', same(st.x.v, W.x.v))
    check('scaled Hessian', arr.mekey(st.shess.me) == arr.mekey(W.shess))
    check('scaled gradient', st.sg.v.key == W.sg.v.key)
    W.frame()


@task(['C03', 'C22'], ['steps.TRStepFull.__init__'])
def full_step():
    W = World(dim())
    st = code().steps.TRStepFull(*args(W))
    no_base(W, st)
    check('the subspace is the full space', arr.mekey(st.subspace.me) == arr.mekey(vec.me_identity(W.n)))


@task(['C03', 'C22'], ['steps.normalize'])
def normalize():
    S = code().steps
    n = dim()
    v = vecvar('v', n)
    v0 = v.v
    r = S.normalize(v)
    t = at(n)
    nsq = normsq(v0)
    e0, e = v0.elem(t), v.v.elem(t)
    check('zero vectors are kept', bimp(nsq.val == 0, e._cmp_eq(e0)))
    check('unit length', bimp(nsq.val > 0, normsq(v.v)._cmp_eq(lift(1))))
    l = XR(norm2(v0).val)
    check('direction is kept', (l * e)._cmp_eq(e0))


@task(['C03', 'C22'], ['steps.GradientStep.__init__', 'steps.normalize'])
def gradient_step():
    W = World(dim())
    st = code().steps.GradientStep(*args(W))
    no_base(W, st)
    check('one direction', st.subspace.me.cdom is constdom(1))
    u = arr.col_of(st.subspace.me, 0)
    l = XR(norm2(W.sg.v).val)
    t = at(W.n)
    check('the direction is that of the gradient', (l * u.elem(t))._cmp_eq(W.sg.v.elem(t)))
    check('unit length', bimp(l.val > 0, normsq(u)._cmp_eq(lift(1))))


def normalize_stub(v):
    """contract of normalize (proved in task normalize)"""
    c = ctx()
    if not isinstance(v, SVec):
        raise Unsupported('normalize')
    nsq = normsq(v.v)
    seen = c.ghost.setdefault('units', [])
    if not c.branch(nsq.val > 0):
        old = v.v
        forall(old.dom, lambda t: old.elem(t).val == 0)
        c.ghost.setdefault('zeros', []).append(old)
        v[:] = SVec(old)
        return
    u, l = base_vec('u', v.v.dom), c.fresh('len')
    old = v.v
    c.add(z3.And(l > 0, l * l == nsq.val))
    c.add(normsq(u).val == 1)
    L = XR(l)
    forall(u.dom, lambda t: old.elem(t)._cmp_eq(L * u.elem(t)))
    seen.append((old, u, L))
    for o, w, _ in seen:
        c.add((L * dot(w, u))._cmp_eq(dot(w, old)))
        c.add((L * dot(o, u))._cmp_eq(dot(o, old)))
    v[:] = SVec(u)


TOL2 = 1.4901161193847656e-08


def contains(cols, v, t):
    """v is a combination of the orthonormal directions (entry t)"""
    r = v.elem(t)
    for u in cols:
        r = r - dot(v, u) * u.elem(t)
    return r._cmp_eq(lift(0))


@task(['C22', 'C03'], ['steps.TRStep2D.__init__', 'steps.normalize'],
      ['numpy.linalg.eig: real eigenvalues and unit eigenvectors of a symmetric matrix',
       'scipy.linalg.lstsq solves the system of a nonsingular matrix'])
def plane_step():
    S = code().steps
    c = ctx()
    n = dim()
    W = World(n, sym=True)
    sg = W.sg.v
    sign = vec.where(vec.bew('lt0', lambda a: rlt(ZERO, a.val), [sg]), vconst(n, 1),
                     vec.where(vec.bew('gt0', lambda a: rlt(a.val, ZERO), [sg]), vconst(n, -1), vconst(n, 1)))
    sgrad = vmul(W.d, sign)
    with patched(S, normalize=normalize_stub):
        st = S.TRStep2D(*args(W))
    no_base(W, st)
    M = st.subspace.me
    k = M.cdom.n
    check('one or two directions', k in (1, 2))
    cols = [arr.col_of(M, j) for j in range(k)]
    nn = [normsq(u).val for u in cols]
    if k == 2:
        for j, u in enumerate(cols):
            have('unit directions', nn[j] == 1)
        have('orthogonal directions', dot(cols[0], cols[1]).val == 0)
    if c.entails(n.nz == 1):
        check('the full space in one dimension', normsq(cols[0]).val > 0)
        return
    if not c.ghost.get('eig'):
        raise Unsupported('no eigenvalues')
    me, e = c.ghost['eig'][0]
    check('eigenvalues of the scaled Hessian', arr.mekey(me) == arr.mekey(W.shess))
    m = vec.red_min(e)
    big = vec.red_min(vec.ew('abs', lambda a: abs(a), [e]), None, True)
    pos = band(m.val >= 0, big.val > 0)
    neg = (m + XR(core.rc(2.220446049250313e-16)) * big).val < 0
    t = at(n)

    def lift_sums(v):
        for u in cols:
            vec.lemma_cs(v, u)
        for old, u, L in c.ghost.get('units', []):
            c.add((L * dot(v, u))._cmp_eq(dot(v, old)))
            for w in cols:
                c.add((L * dot(w, u))._cmp_eq(dot(w, old)))

    def multiples(v, u, L):
        """v = L u and u in the span: v in the span"""
        x = [c.fresh('mu') for _ in range(9)]
        v_, u_, l, dv1, dv2, du1, du2, c1, c2 = x
        g = z3.Implies(z3.And(v_ == l * u_, dv1 == l * du1, dv2 == l * du2, u_ - du1 * c1 - du2 * c2 == 0),
                       v_ - dv1 * c1 - dv2 * c2 == 0)
        c.lemma('multiples of a vector of the span', g)
        y = [v.elem(t).val, u.elem(t).val, L] + [dot(a, b).val for a in (v, u) for b in cols] + \
            [b.elem(t).val for b in cols]
        c.add(z3.substitute(g, *zip(x, y)))

    def spanned(name, cond, v):
        """the direction v is in the subspace, or nearly parallel to its single direction"""
        lift_sums(v)
        if k == 2:
            for old, u, L in reversed(c.ghost.get('units', [])):
                f = contains(cols, u, t)
                if c.entails(f, 2000):
                    c.add(f)
                    if old.key == v.key:
                        multiples(old, u, L.val)
            check(name, bimp(cond, contains(cols, v, t)))
            return
        r = vadd(v, vscale(dot(v, cols[0]), cols[0]), -1)
        lim = lift(TOL2) * lift(TOL2)
        check(name + ' (up to rounding)', bimp(cond, normsq(r)._cmp_le(lim * normsq(v))))

    if not c.entails(z3.Not(pos)):
        ls = [(a, b, x) for a, b, x in c.ghost.get('lstsq', []) if arr.mekey(a) == arr.mekey(W.shess)
              and b.key in (sg.key, vscale(-1, sg).key)]
        check('Newton direction of the scaled model', bool(ls))
        for a, b, x in ls[-1:]:
            lift_sums(x)
            check('no negative curvature: the subspace contains the Newton direction', bimp(pos, contains(cols, x, t)))
            sol = x if b.key != sg.key else vscale(-1, x)
            res = normsq(vadd(W.shess.apply(sol), sg))
            lim = 2 * lift(TOL2) * (2 * lift(TOL2))
            out = bor(W.delta._cmp_lt(XR(norm2(x).val)), (lim * normsq(sg))._cmp_lt(res))
            spanned('no negative curvature: the subspace contains the gradient', band(pos, out), sg)
    if not c.entails(z3.Not(neg)):
        ev = c.ghost.get('eigvec_cols', [])
        check('an eigenvector is used', bool(ev))
        for v, j in ev[-1:]:
            j = j.i if isinstance(j, SInt) else j
            check('indefinite: eigenvector of the smallest eigenvalue', bimp(neg, e.elem(j)._cmp_eq(m)))
            lift_sums(v)
            check('indefinite: the subspace contains the eigenvector', bimp(neg, contains(cols, v, t)))
            for o in [o for o, _, _ in c.ghost.get('units', [])] + c.ghost.get('zeros', []):
                if c.entails(o.elem(t)._cmp_eq(sgrad.elem(t)), 2000):
                    sgrad = o
                    break
            spanned('indefinite: the subspace contains the sign of the gradient', neg, sgrad)


def breakpoint_fraction(st):
    """min(1, breakpoint)"""
    return core.xmin(1, lift(st.minbr))


def check_convex(W, st, k, v):
    """base point moved by the fraction k of a step: inside the trust region"""
    c = ctx()
    a = XR(c.fresh('frac'))
    c.add(a._cmp_eq(k))
    have('fraction of the step', band(k.fin, a.val >= 0, a.val <= 1))
    a = a.val
    b, o = st.ss0.v, st.og_ss.v
    N, n0, n1, m = (normsq(x).val for x in (vadd(b, vscale(XR(a), o)), b, vadd(b, o), o))
    ident('length of the base step', N, (1 - a) * n0 + a * n1 - a * (1 - a) * m)
    lim = W.lim().val
    x = [c.fresh('mu') for _ in range(5)]
    v0, v1, vm, va, vl = x
    g = z3.Implies(z3.And(v0 <= vl, v1 <= vl, vm >= 0, va >= 0, va <= 1),
                   (1 - va) * v0 + va * v1 - va * (1 - va) * vm <= vl)
    c.lemma('convexity of the trust region', g)
    c.add(z3.substitute(g, *zip(x, (n0, n1, m, a, lim))))
    have('this fraction of the step is inside the trust region', N <= lim)
    t = at(W.n)
    check('the new base step is this fraction of the step', (b.elem(t) + XR(a) * o.elem(t))._cmp_eq(v.elem(t)))
    return a


@task(['C01', 'C02', 'C03'], ['steps.TRStepReflected.__init__', 'steps.normalize'])
def reflected_step():
    S = code().steps
    W = World(dim())
    n = W.n
    old = sym_step(W)
    keep = [content(v) for v in (old.ss0, old.s0, old.og_ss, old.og_s, old.x, old.br)]
    with patched(S, normalize=normalize_stub):
        st = S.TRStepReflected(*W.args(), old)
    W.frame()
    check('the reflected step is not modified',
          keep == [content(v) for v in (old.ss0, old.s0, old.og_ss, old.og_s, old.x, old.br)])
    t = at(n)
    for nm, f in base_facts(W, st, t):
        check(nm, f)
    a = check_convex(W, old, breakpoint_fraction(old), st.ss0.v)
    check('one direction', st.subspace.me.cdom is constdom(1))
    u = arr.col_of(st.subspace.me, 0).elem(t)
    o = old.og_ss.v.elem(t)
    # direction: variables at their bound are reflected
    flip = xite(old.iminbr.b.elem(t), -o, o)
    L = [L for _, _, L in ctx().ghost.get('units', [])]
    if L:
        check('direction of the reflected step', (L[-1] * u)._cmp_eq(flip))
    check('model of the step', arr.mekey(st.shess.me) == arr.mekey(W.shess) and st.sg.v.key == W.sg.v.key)


@task(['C01', 'C02', 'C03'], ['steps.TRStepTruncated.__init__'],
      ['scipy.linalg.orth returns orthonormal columns'])
def truncated_step():
    S = code().steps
    c = ctx()
    W = World(dim())
    n = W.n
    old = sym_step(W, truncated=True)
    assume(old.alpha.val < 1)
    keep = [content(v) for v in (old.ss0, old.s0, old.og_ss, old.og_s, old.x, old.br, old.subspace)]
    st = S.TRStepTruncated(*W.args(), old)
    W.frame()
    check('the truncated step is not modified',
          keep == [content(v) for v in (old.ss0, old.s0, old.og_ss, old.og_s, old.x, old.br, old.subspace)])
    t = at(n)
    for nm, f in base_facts(W, st, t):
        check(nm, f)
    im = old.iminbr.b.elem(t)
    b0, b1, o = (v.elem(t) for v in (old.ss0.v, st.ss0.v, old.og_ss.v))
    check('variables at their bound are moved there', bimp(im, b1._cmp_eq(b0 + old.alpha * o)))
    check('other variables are not moved', bimp(bnot(im), b1._cmp_eq(b0)))
    full = vadd(old.ss0.v, old.og_ss.v)
    vec.lemma_sum_le(st.ss0.v, full)
    normsq(full)
    check('base step is inside the trust region', normsq(st.ss0.v)._cmp_le(W.lim()))
    M = st.subspace.me
    rz = arr.rowzero(M).elem(t)
    check('variables at their bound are not in the subspace', bimp(im, rz))
    check('the subspace does not contain variables of the base step', bor(req(b1.val, ZERO), rz))
    k = M.cdom.n
    cv = base_vec('c', M.cdom)
    check('orthonormal directions', bor(M.cdom.nz == 0, M.T().apply(M.apply(cv)).key == cv.key))
    check('model of the step', arr.mekey(st.shess.me) == arr.mekey(W.shess) and st.sg.v.key == W.sg.v.key)
