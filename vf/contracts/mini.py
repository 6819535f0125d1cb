"""Contracts of the optimizer class: every method but the main loop."""
from .common import *
from .hess import eqmat, me_of

EPS = 100 * 2.220446049250313e-16


class Fun:
    """the user function: arbitrary results, remembered together with the arguments"""

    def __init__(self, results=None):
        self.calls, self.results = [], results

    def __call__(self, x, **kw):
        self.calls.append((x, x.v if isinstance(x, SVec) else x, kw))
        return self.results(x) if self.results else None


def sym_options(O, **fixed):
    """every numeric option set to an arbitrary value of its type"""
    d = {O.MAXITER: SInt(ctx().fresh('maxiter', 'I')), O.MAXTIME: fresh_xr('maxtime', False, ('pinf',))}
    for k in ('FATOL', 'FRTOL', 'XTOL', 'GATOL', 'GRTOL', 'THETA_MAX', 'DELTA_INIT', 'MU', 'ETA', 'GAMMA1', 'GAMMA2'):
        d[getattr(O, k)] = real(k.lower())
    for k, v in fixed.items():
        d[getattr(O, k)] = v
    return d


def mk_opt(dom, hu=None, resfun=False, fun=None, fixed=None, funargs=None):
    M = code().minimize
    lb, ub = bounds(dom)
    o = M.Optimizer(fun or Fun(), ub, lb, options=sym_options(M.Options, **(fixed or {})), hessian_update=hu,
                    resfun=resfun, funargs=funargs)
    o._reset('run')
    return o, M, lb, ub


def give_state(o, dom):
    """an arbitrary finite iterate inside the bounds"""
    o.x = vecvar('x', dom)
    o.fval = real('fval')
    o.grad = vecvar('grad', dom)
    o.hess = SMat(Mat('hess', dom, dom).me())
    assume_inside(o.x, o.lb, o.ub)
    return {a: getattr(o, a) for a in ('x', 'fval', 'grad', 'hess')}


def opt(o, name):
    return o.options[getattr(code().minimize.Options, name)]


class StepStub:
    type = 'stub'


def mk_step(dom):
    s = StepStub()
    s.s, s.s0, s.ss, s.ss0 = vecvar('s', dom), vecvar('s0', dom), vecvar('ss', dom), vecvar('ss0', dom)
    s.qpval, s.theta, s.alpha = real('qpval'), real('theta'), real('alpha')
    s.reflection_count, s.truncation_count = SInt(ctx().fresh('rc', 'I')), SInt(ctx().fresh('tc', 'I'))
    s.subspace = SMat(Mat('sub', dom, constdom(2)).me())
    s.shess = SMat(Mat('shess', dom, dom).me())
    return s


def snapshot(o):
    """identity of the attributes and value of the arrays among them"""
    return {k: (v, content(v)) for k, v in o.__dict__.items()}


def content(v):
    if isinstance(v, (SVec, SBVec)):
        return ('v', v.v.key)
    if isinstance(v, (SMat, SSparse)):
        return ('m', arr.mekey(v.me))
    if isinstance(v, dict):
        return ('d', len(v))
    return None


def frame(o, snap, changes=(), name='nothing else is changed'):
    ok = True
    for k, v in o.__dict__.items():
        if k in changes:
            continue
        if k not in snap:
            continue
        if v is not snap[k][0] and not (type(v) in (int, float, bool, str) and v == snap[k][0]):
            ok = False
        elif content(v) != snap[k][1]:
            ok = False
    check(name, ok)


def same_arr(name, a, key):
    check(name, content(a) == key)


# ---------------------------------------------------------------- radius
@task(['C06', 'C04', 'C08'], ['minimize.Optimizer.update_tr_radius'])
def update_tr_radius():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    st = give_state(o, n)
    o.delta = real('delta')
    o.delta_iter = o.delta
    assume(o.delta.val > 0)
    its, nint = SInt(ctx().fresh('its', 'I')), SInt(ctx().fresh('nint', 'I'))
    o.iterations_since_tr_update, o.n_intermediate_tr_radius = its, nint
    g1, g2, mu, eta = opt(o, 'GAMMA1'), opt(o, 'GAMMA2'), opt(o, 'MU'), opt(o, 'ETA')
    assume(mu.val < eta.val)
    step = mk_step(n)
    dv = vecvar('dv', n)
    dvv = dv.v
    forall(n, lambda t: bor(req(dvv.elem(t).val, ZERO), req(dvv.elem(t).val, ONE)))
    fval = fresh_xr('fnew', False)
    grad = vecvar('gnew', n)
    f = M.Funout(fval, grad, vecvar('xnew', n), None)
    delta = o.delta
    keys = [content(a) for a in (step.ss, step.ss0, dv, grad)]
    snap = snapshot(o)
    acc = o.update_tr_radius(f, step, dv)
    acc = b_of(acc)
    for a, k in zip((step.ss, step.ss0, dv, grad), keys):
        same_arr('the step and the objective output are not modified', a, k)
    frame(o, snap, ('delta', 'tr_ratio', 'iterations_since_tr_update', 'n_intermediate_tr_radius'))
    tot = vadd(step.ss.v, step.ss0.v)
    nsx = norm2(tot)
    shrunk = core.xfmin(delta * g1, nsx / 4)
    ratio, dn = lift(o.tr_ratio), lift(o.delta)
    # the augmentation sum_i dv_i |g_i| s_i^2 / 2 is not negative
    aug = 0.5 * vec.vsum(vmul(vmul(dv.v, arr.v_abs(grad.v)), vmul(tot, tot)))
    vec.lemma_sum_nonneg(vmul(vmul(dv.v, arr.v_abs(grad.v)), vmul(tot, tot)))
    pred = -step.qpval
    fin = fval.fin
    want = bimp(band(fin, rlt(ZERO, pred.val)), (ratio * pred)._cmp_eq(st['fval'] - XR(fval.val) - aug))
    check('ratio of actual to predicted decrease, corrected by the bound scaling', want)
    check('ratio is finite', ratio.fin)
    check('no predicted decrease: ratio zero', bimp(band(fin, rle(pred.val, ZERO)), ratio._cmp_eq(lift(0))))
    check('objective not finite: ratio zero', bimp(bnot(fin), ratio._cmp_eq(lift(0))))
    grow = band(fin, eta._cmp_le(ratio), (delta * lift(0.9))._cmp_le(nsx))
    shrink = bor(bnot(fin), ratio._cmp_le(mu))
    check('radius is increased', bimp(grow, dn._cmp_eq(g2 * delta)))
    check('radius is decreased', bimp(shrink, dn._cmp_eq(shrunk)))
    check('radius is kept', bimp(bnot(bor(grow, shrink)), dn._cmp_eq(delta)))
    check('accepted iff the ratio is positive and the objective finite', biff(acc, band(fin, rlt(ZERO, ratio.val))))
    check('accepted only if the objective decreases', bimp(acc, band(fin, rlt(fval.val, st['fval'].val))))
    check('accepted only if the model predicted a decrease', bimp(acc, rlt(step.qpval.val, ZERO)))
    c1 = o.iterations_since_tr_update
    i1 = lift(c1)
    changed = bor(grow, shrink)
    check('counter of iterations since the last change', biff(changed, i1._cmp_eq(lift(0))) if False else
          band(bimp(changed, i1._cmp_eq(lift(0))), bimp(bnot(changed), i1._cmp_eq(lift(its) + 1))))
    inter = band(bnot(changed), mu._cmp_lt(ratio), ratio._cmp_lt(eta))
    n1 = lift(o.n_intermediate_tr_radius)
    check('counter of intermediate ratios', band(bimp(inter, n1._cmp_eq(lift(nint) + 1)),
                                                bimp(bnot(inter), n1._cmp_eq(lift(nint)))))


# ----------------------------------------------------------- convergence
def flags(M):
    return M.ExitFlag


@task(['C07', 'C08'], ['minimize.Optimizer.check_convergence'])
def check_convergence():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    st = give_state(o, n)
    F = M.ExitFlag
    o.tr_ratio = real('ratio')
    o.iteration = SInt(ctx().fresh('iter', 'I'))
    assume(o.iteration.i >= 1)
    step = mk_step(n)
    # a positive ratio means that the trial point was accepted, so its values are finite
    if ctx().branch(o.tr_ratio.val > 0):
        fval, grad = real('fnew'), vecvar('gnew', n)
    else:
        fval, grad = fresh_xr('fnew', False), vecvar('gnew', n, False)
    f = M.Funout(fval, grad, vecvar('xnew', n), None)
    before = o.exitflag
    snap = snapshot(o)
    o.check_convergence(step, f)
    frame(o, snap, ('converged', 'exitflag'))
    acc = rlt(ZERO, o.tr_ratio.val)
    gn = norm2(grad.v if ctx().branch(acc) else o.grad.v)
    fat, frt, xt, gat, grt = (opt(o, k) for k in ('FATOL', 'FRTOL', 'XTOL', 'GATOL', 'GRTOL'))
    nsx = norm2(vadd(step.ss.v, step.ss0.v))
    ftol = band(rlt(opt(o, 'MU').val, o.tr_ratio.val), abs(lift(fval) - o.fval)._cmp_lt(fat + frt * abs(o.fval)))
    xtol = band(o.iteration.i > 1, nsx._cmp_lt(xt))
    gtol = bor(gn._cmp_le(gat), gn._cmp_le(grt * abs(o.fval)))
    conv = b_of(o.converged)
    check('converged iff one of the criteria holds', biff(conv, bor(ftol, xtol, gtol)))
    fl = o.exitflag
    check('exit status is a status', isinstance(fl, F))
    check('not converged: exit status unchanged', bimp(bnot(conv), fl is before))
    check('converged: exit status is a convergence status', bimp(conv, fl in (F.FTOL, F.XTOL, F.GTOL)))
    check('function difference status is true', bimp(band(conv, fl == F.FTOL), ftol))
    check('step length status is true', bimp(band(conv, fl == F.XTOL), xtol))
    check('gradient status is true', bimp(band(conv, fl == F.GTOL), gtol))


@task(['C07', 'C08'], ['minimize.Optimizer.check_continue'])
def check_continue():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    st = give_state(o, n)
    F = M.ExitFlag
    o.iteration = SInt(ctx().fresh('iter', 'I'))
    assume(o.iteration.i >= 0)
    o.delta = real('delta')
    it = o.iteration.i
    cv = ctx().fresh('converged', 'B')
    o.converged = mkb(cv)
    o.exitflag = F.GTOL if ctx().branch(cv) else F.DID_NOT_RUN
    before = o.exitflag
    start = lift(o.starttime)
    snap = snapshot(o)
    ctx().ghost['clocks'] = []
    r = b_of(o.check_continue())
    frame(o, snap, ('exitflag',))
    fl = o.exitflag
    clocks = ctx().ghost['clocks']
    mi = opt(o, 'MAXITER').i
    over = it >= mi
    if clocks:
        el = clocks[-1] - start
        rem = opt(o, 'MAXTIME') - el
        navg = lift(SInt(z3.If(it == 0, z3.IntVal(1), it)))
        # remaining time smaller than the average time per iteration
        late = (rem * navg)._cmp_lt(el)
    else:
        late = False
    small = rlt(o.delta.val, lift(2.220446049250313e-16).val)
    check('continues iff no reason to stop holds',
          biff(r, band(bnot(cv), bnot(over), bnot(late), bnot(small))) if clocks else bnot(r))
    if not clocks:
        check('stops without looking at the clock only if converged or out of iterations', bor(cv, over))
    check('continues: exit status unchanged', bimp(r, fl is before))
    check('converged: exit status unchanged', bimp(cv, fl is before))
    stop = band(bnot(r), bnot(cv))
    check('stops: exit status is set', bimp(stop, fl in (F.MAXITER, F.MAXTIME, F.DELTA_TOO_SMALL)))
    check('iteration status is true', bimp(band(stop, fl is F.MAXITER), over))
    check('time status is true', bimp(band(stop, fl is F.MAXTIME), late))
    check('radius status is true', bimp(band(stop, fl is F.DELTA_TOO_SMALL), small))


# ------------------------------------------------------- scaling, degeneracy
@task(['C12', 'C21'], ['minimize.Optimizer.get_affine_scaling'])
def get_affine_scaling():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    give_state(o, n)
    snap = snapshot(o)
    v, dv = o.get_affine_scaling()
    frame(o, snap, (), 'iterate, bounds and gradient are not modified')
    check('results are vectors', isinstance(v, SVec) and isinstance(dv, SVec))
    t = at(n)
    g, x, l, u = o.grad.v.elem(t), o.x.v.elem(t), o.lb.v.elem(t), o.ub.v.elem(t)
    ve, de = v.v.elem(t), dv.v.elem(t)
    up = rlt(g.val, ZERO)
    check('towards the upper bound', bimp(band(up, u.fin), band(ve._cmp_eq(x - u), de._cmp_eq(lift(1)))))
    check('towards the lower bound', bimp(band(bnot(up), l.fin), band(ve._cmp_eq(x - l), de._cmp_eq(lift(1)))))
    check('no upper bound', bimp(band(up, bnot(u.fin)), band(ve._cmp_eq(lift(-1)), de._cmp_eq(lift(0)))))
    check('no lower bound', bimp(band(bnot(up), bnot(l.fin)), band(ve._cmp_eq(lift(1)), de._cmp_eq(lift(0)))))
    check('results do not share memory with the state', all(a is not b for a in (v, dv)
                                                            for b in (o.x, o.grad, o.lb, o.ub)))


@task(['C12', 'C01', 'C05', 'C21'], ['minimize.Optimizer.make_non_degenerate'],
      ['the bounds are further apart than twice (containment) or three times (distance) the degeneracy threshold'])
def make_non_degenerate():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    give_state(o, n)
    x0, xv = o.x, o.x.v
    k0 = content(x0)
    snap = snapshot(o)
    o.make_non_degenerate()
    frame(o, snap, ('x',))
    same_arr('the array of the old iterate is not modified', x0, k0)
    t = at(n)
    x, l, u, y = xv.elem(t), o.lb.v.elem(t), o.ub.v.elem(t), o.x.v.elem(t)
    e = lift(EPS)
    nu, nl = (u - x)._cmp_lt(e), (x - l)._cmp_lt(e)
    check('near the upper bound', bimp(band(nu, bnot(nl)), y._cmp_eq(x - e)))
    check('near the lower bound', bimp(band(nl, bnot(nu)), y._cmp_eq(x + e)))
    check('elsewhere', bimp(biff(nl, nu), y._cmp_eq(x)))
    check('inside the bounds', bimp((l + 2 * e)._cmp_le(u), band(l._cmp_le(y), y._cmp_le(u))))
    check('keeps a distance to the bounds',
          bimp((l + 3 * e)._cmp_le(u), band((l + e)._cmp_le(y), y._cmp_le(u - e))))


@task(['C01', 'C07'], ['minimize.Optimizer.check_in_bounds'])
def check_in_bounds():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    give_state(o, n)
    F = M.ExitFlag
    x = vecvar('y', n, False, ('nan',))
    other = ctx().choose('other')
    if not other:
        o.x = x
    snap = snapshot(o)
    t = at(n)
    ins = inside(x, lb, ub, t)
    try:
        o.check_in_bounds(x) if other else o.check_in_bounds()
    except RuntimeError:
        check('exit status of a violated bound', o.exitflag is F.EXCEEDED_BOUNDARY)
        # some entry is outside: refute the assumption that all are inside
        assume_inside(x, lb, ub)
        check('rejected only if an entry is outside the bounds', False)
        return
    frame(o, snap)
    check('passes only inside the bounds (no nan)', ins)


@task(['C17', 'C07'], ['minimize.Optimizer.check_finite'])
def check_finite():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    F = M.ExitFlag
    fval, grad = fresh_xr('f', False), vecvar('g', n, False)
    hfin = ctx().fresh('hfin', 'B')
    hess = SMat(Mat('H', n, n, finite=hfin).me())
    hashess = True
    if ctx().choose('argument'):
        if ctx().choose('no hessian'):
            hess, hashess = None, False
        arg = M.Funout(fval, grad, vecvar('x', n), hess)
    else:
        o.fval, o.grad, o.hess, arg = fval, grad, hess, None
    snap = snapshot(o)
    t = at(n)
    try:
        o.check_finite(arg) if arg is not None else o.check_finite()
    except RuntimeError:
        check('exit status of non-finite values', o.exitflag is F.NOT_FINITE)
        assume(fval.fin)
        gv = grad.v
        forall(n, lambda i: gv.elem(i).fin)
        if hashess:
            assume(hfin)
        check('stops only for non-finite values', False)
        return
    frame(o, snap)
    check('objective value is finite', fval.fin)
    check('gradient is finite', grad.v.elem(t).fin)
    check('Hessian is finite', hfin if hashess else True)


@task(['C05'], ['minimize.Optimizer.track_minimum'])
def track_minimum():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    give_state(o, n)
    o.fval_min = fresh_xr('fmin', False, ('pinf',))
    o.x_min, o.grad_min = vecvar('xmin', n), vecvar('gmin', n)
    old = (o.fval_min, o.x_min, o.grad_min)
    fval, grad, x = fresh_xr('f', False), vecvar('g', n, False), vecvar('xn', n)
    f = M.Funout(fval, grad, x, None)
    kx, kg = content(x), content(grad)
    snap = snapshot(o)
    o.track_minimum(f)
    frame(o, snap, ('fval_min', 'x_min', 'grad_min'))
    better = band(fval.fin, fval._cmp_lt(old[0]))
    if ctx().branch(better):
        check('a smaller finite value becomes the minimum', lift(o.fval_min)._cmp_eq(fval))
        check('the minimizer is the point of that evaluation', content(o.x_min) == kx)
        check('the gradient is that of that evaluation', content(o.grad_min) == kg)
    else:
        check('otherwise the minimum is kept', o.fval_min is old[0])
        check('otherwise the minimizer is kept', o.x_min is old[1])
        check('otherwise the gradient at the minimizer is kept', o.grad_min is old[2])
    check('the evaluation is not modified', content(x) == kx and content(grad) == kg)


@task(['C04', 'C05', 'C21'], ['minimize.Optimizer.log_step', 'minimize.Optimizer.log_header',
                              'minimize.Optimizer.log_step_initial'])
def logging_changes_nothing():
    n = dim()
    o, M, lb, ub = mk_opt(n)
    give_state(o, n)
    o.iteration = SInt(ctx().fresh('iter', 'I'))
    o.tr_ratio = real('ratio')
    step = mk_step(n)
    f = M.Funout(fresh_xr('f', False), vecvar('g', n, False), vecvar('xn', n))
    k = [content(a) for a in (f.grad, f.x, step.s, step.s0)]
    snap = snapshot(o)
    o.log_header()
    o.log_step_initial()
    o.log_step(mkb(ctx().fresh('acc', 'B')), step, f)
    frame(o, snap, (), 'logging changes nothing')
    check('logging does not change the step or the evaluation',
          [content(a) for a in (f.grad, f.x, step.s, step.s0)] == k)
