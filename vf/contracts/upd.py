"""The optimizer and its Hessian source: evaluation, construction, update, history, options."""
import inspect
from .common import *
from .mini import (Fun, sym_options, mk_opt, give_state, opt, mk_step, snapshot, content, frame, same_arr)
from .main import make_stale, Stale, same_vec
from .hess import eqmat, me_of, broyden_stub

SCHEMES = ['BFGS', 'DFP', 'SR1', 'BG', 'BB', 'Broyden', 'HybridFixed', 'HybridFraction', 'FX', 'SSM', 'TSSM',
           'GNSBFGS']
RES = ('FX', 'SSM', 'TSSM', 'GNSBFGS')           # documented to need a residual function
HESS = ('HybridFixed', 'HybridFraction')         # documented to need (fval, grad, hess)


def new_scheme(name):
    H = code().hessian_approximation
    return getattr(H, name)(phi=0.5) if name == 'Broyden' else getattr(H, name)()


# -------------------------------------------------------------- evaluation
class Opaque:
    """an object of the user: nothing is known about it"""
    def __bool__(self):
        return ctx().choose('an object of the user is true')

    def __eq__(self, o):
        return ctx().choose('an object of the user equals something')
    __hash__ = None


@task(['C18', 'C16', 'C21'], ['minimize.FunEvaluator.__call__', 'minimize.Funout.__init__'])
def evaluator():
    M = code().minimize
    c = ctx()
    n, m = dim(), dim('m')
    x = vecvar('x', n)
    kx = content(x)
    res = c.choose('residual function')
    nargout = 2 if res or c.choose('two values') else 3
    r, J = vecvar('r', m), Mat('J', m, n)
    f, g, H = fresh_xr('f', False), vecvar('g', n, False), SMat(Mat('H', n, n).me())
    J = SMat(J.me())
    out = (r, J) if res else (f, g, H)[:nargout]
    keys = [content(a) for a in out]
    if c.choose('wrong number of values'):
        out = [out + (f,), out[:-1], list(out), g, None][pick(5)]
        fun = Fun(lambda x: out)
        e = M.FunEvaluator(fun=fun, nargout=nargout, resfun=res, funargs=None)
        try:
            e(x)
        except ValueError:
            check('the number of values is checked after one call', len(fun.calls) == 1)
        else:
            check('a wrong number of values is rejected', False)
        return
    # extra arguments may be anything
    kw = {'a': Opaque(), 'b': real('b'), 'c': None, 'd': 0, 'e': '', 'f': False, 'g': vecvar('ga', n), 'h': {},
          'i': 'two'} if c.choose('extra arguments') else None
    kept = dict(kw or {})

    def reached(i):
        got = fun.calls[i][2]
        return set(got) == set(kept) and all(got[k] is kept[k] for k in kept)
    fun = Fun(lambda x: out)
    e = M.FunEvaluator(fun=fun, nargout=nargout, resfun=res, funargs=kw)
    fo = e(x)
    check('the function is called once', len(fun.calls) == 1)
    check('the function is called at the point', fun.calls[0][0] is x and content(x) == kx)
    check('extra arguments reach the call', reached(0))
    check('the point is remembered', fo.x is x or (content(fo.x) == kx))
    check('the values of the user are not modified', [content(a) for a in out] == keys)
    if res:
        t = at(n)
        check('the function value is half the squared residual',
              lift(fo.fval)._cmp_eq(lift(0.5) * dot(r.v, r.v)))
        check('the gradient is J^T r',
              isinstance(fo.grad, SVec) and fo.grad.v.elem(t)._cmp_eq(J.me.T().apply(r.v).elem(t)))
        eqmat('the Hessian is J^T J', fo.hess, J.me.T().mul(J.me))
        check('residual and Jacobian are passed on', fo.res is r and fo.sres is J)
    else:
        check('the function value is passed on', fo.fval is f)
        check('the gradient is passed on', fo.grad is g)
        check('the Hessian is passed on', fo.hess is (H if nargout == 3 else None))
    # the second call works like the first
    y = vecvar('y', n)
    e(y)
    check('extra arguments reach every call', reached(1) and fun.calls[1][0] is y)


def pick(k):
    """an arbitrary number below k"""
    for i in range(k - 1):
        if ctx().choose(f'pick{k}'):
            return i
    return k - 1


def dims_equal(a, b):
    return a.nz == b.nz


@task(['C16'], ['minimize.Funout.checkdims'])
def checkdims():
    M = code().minimize
    n = dim()
    k = dim('k', 0)
    r, q = dim('r', 0), dim('q', 0)
    fi = pick(3)
    fval = [real('f'), vecvar('fv', k), SVec(vecvar('fv1', constdom(1)).v)][fi]
    gi = pick(4)
    grad = [vecvar('g', n), vecvar('g', k), real('g'), SMat(Mat('G', r, q).me())][gi]
    hi = pick(5)
    hess = [None, SMat(Mat('H', n, n).me()), SMat(Mat('H', r, q).me()), real('h'), vecvar('hv', k)][hi]
    okg = [True, k.nz == n.nz, False, False][gi]
    okh = [True, True, z3.And(r.nz == n.nz, q.nz == n.nz), False, False][hi]
    ok = band(fi == 0, okg, okh)
    f = M.Funout(fval=fval, grad=grad, x=vecvar('x', n), hess=hess)
    try:
        f.checkdims()
    except ValueError:
        check('consistent values are not rejected', bnot(ok))
    else:
        check('inconsistent values are rejected', ok)


# ------------------------------------------------------------ construction
@task(['C16', 'C12', 'C18', 'C20', 'C21'], ['minimize.Optimizer.__init__'])
def construction():
    L = code()
    M, HA, K = L.minimize, L.hessian_approximation, L.constants
    c = ctx()
    n = dim()
    name = (['none'] + SCHEMES)[pick(len(SCHEMES) + 1)]
    hu = None if name == 'none' else new_scheme(name)
    resfun = bool(c.choose('resfun'))
    lb, ub = bounds(n)
    lb.isint, ub.isint = True, True
    keys = content(lb), content(ub)
    steih = pick(3)
    ref = pick(3)
    options = {}
    if steih:
        options[M.Options.SUBSPACE_DIM] = [None, K.SubSpaceDim.STEIHAUG, 'scg'][steih]
    if ref:
        options[M.Options.STEPBACK_STRAT] = [None, K.StepBackStrategy.REFINE, 'refine'][ref]
    ok = (hu is None or resfun == (name in RES)) and not (steih and ref)
    n0 = len(options)
    fun = Fun()
    kw = {'extra': Opaque()} if c.choose('extra arguments') else None
    try:
        o = M.Optimizer(fun, ub, lb, options=options or None, hessian_update=hu, resfun=resfun,
                        funargs=kw)
    except ValueError:
        check('consistent definitions are not rejected', not ok)
        check('nothing is evaluated', not fun.calls)
        return
    check('inconsistent definitions are rejected', ok)
    check('nothing is evaluated', not fun.calls)
    check('the bounds of the user are not modified', (content(lb), content(ub)) == keys)
    check('the bounds are copied', o.lb is not lb and o.ub is not ub and content(o.lb) == keys[0]
          and content(o.ub) == keys[1])
    check('the bounds are floating point numbers', not o.lb.isint and not o.ub.isint)
    check('the options of the user are used', o.options is options or o.options == options)
    check('the options of the user are not modified', len(options) == n0)
    check('the status is that of an optimizer that did not run', o.exitflag is M.ExitFlag.DID_NOT_RUN)
    # number of values that an evaluation must have
    if resfun and hu is None:
        return
    want = 3 if hu is None or name in HESS else 2
    m = dim('m')
    for k in (2, 3):
        vals = (vecvar('r', m), SMat(Mat('J', m, n).me())) if resfun else (real('f'), vecvar('g', n))
        if k == 3:
            vals += (SMat(Mat('H', n, n).me()),)
        fun.results = lambda x: vals
        try:
            o.fevaler(vecvar('x', n))
        except ValueError:
            check('the right number of values is accepted', k != want)
        else:
            got = fun.calls[-1][2]
            check('extra arguments reach the call', set(got) == set(kw or {}) and all(got[a] is kw[a] for a in got))
            check('a wrong number of values is rejected', k == want)


class NoStep(Exception):
    pass


@task(['C16', 'C01'], ['minimize.Optimizer.minimize', 'hessian_approximation.HessianApproximation._init_mat'])
def rejected_before_the_first_step():
    """whatever is wrong is reported before a step is computed"""
    L = code()
    M, HA = L.minimize, L.hessian_approximation
    c = ctx()
    n = dim()
    kind = ['number of values', 'gradient', 'Hessian', 'start', 'initial Hessian', 'value', 'nothing'][pick(7)]
    hu = None if kind in ('Hessian',) or c.choose('exact') and kind != 'initial Hessian' else HA.BFGS()
    fun = Fun()
    H = [SMat(Mat('H', n, n).me())] if hu is None else []
    f, g = real('f'), vecvar('g', n)
    k = dim('k', 0)
    x0 = vecvar('x0', n)
    hess0 = None
    if kind == 'number of values':
        fun.results = lambda x: (f, g, *H, f)
    elif kind == 'gradient':
        assume(k.nz != n.nz)
        fun.results = lambda x: (f, vecvar('gk', k), *H)
    elif kind == 'Hessian':
        assume(k.nz != n.nz)
        fun.results = lambda x: (f, g, SMat(Mat('Hk', n, k).me()))
    elif kind == 'value':
        fun.results = lambda x: (vecvar('fv', constdom(1)), g, *H)
    else:
        fun.results = lambda x: (f, g, *H)
    if kind == 'start':
        x0 = SMat(Mat('X0', n, k).me())
    if kind == 'initial Hessian':
        assume(k.nz != n.nz)
        hess0 = SMat(Mat('H0', n, k).me())
    # bounds are infinite: whatever is rejected is not rejected because of them
    ub, lb = SVec(vec.vconst(n, float('inf'))), SVec(vec.vconst(n, float('-inf')))
    o = M.Optimizer(fun, ub, lb, hessian_update=hu, options={M.Options.MAXITER: 10})

    def trust_region(*a, **kw):
        raise NoStep()
    old = M.trust_region
    M.trust_region = trust_region
    try:
        o.minimize(x0, 'id', hess0)
    except ValueError:
        check('a consistent definition is not rejected', kind != 'nothing')
        if kind == 'start':
            check('a start that is no vector is rejected before the first evaluation', not fun.calls)
    except NoStep:
        check('an inconsistent definition is rejected before a step: ' + kind, kind == 'nothing')
    else:
        check('an inconsistent definition is rejected: ' + kind, kind == 'nothing')
    finally:
        M.trust_region = old


# ------------------------------------------------------------------ update
@task(['C04', 'C14', 'C21'], ['minimize.Optimizer.update'])
def optimizer_update():
    L = code()
    M, HA = L.minimize, L.hessian_approximation
    c = ctx()
    n, m = dim(), dim('m')
    name = (['none'] + SCHEMES)[pick(len(SCHEMES) + 1)]
    hu = None if name == 'none' else new_scheme(name)
    res = name in RES
    lb, ub = bounds(n)
    o = M.Optimizer(Fun(), ub, lb, options=sym_options(M.Options), hessian_update=hu, resfun=res)
    o._reset('run')
    st = give_state(o, n)
    o.iteration = SInt(c.fresh('iter', 'I'))
    o.iterations_since_tr_update = SInt(c.fresh('its', 'I'))
    o.n_intermediate_tr_radius = SInt(c.fresh('nint', 'I'))
    o.tr_ratio, o.delta, o.delta_iter = real('ratio'), real('delta'), real('delta_iter')
    its, nint, it = o.iterations_since_tr_update, o.n_intermediate_tr_radius, o.iteration
    got = {}
    newmat = Mat('Bnew', n, n)
    if hu is not None:
        sig = inspect.signature(type(hu).update)

        def update(*a, **kw):
            got.update(sig.bind(hu, *a, **kw).arguments)
            got['calls'] = got.get('calls', 0) + 1
        hu.update = update
        hu.get_mat = lambda: SMat(newmat.me())

    def fo(tag, x):
        J = SMat(Mat('J' + tag, m, n).me()) if res else None
        r = vecvar('r' + tag, m) if res else None
        h = SMat(Mat('H' + tag, n, n).me()) if hu is None or res or name in HESS else None
        return M.Funout(real('f' + tag), vecvar('g' + tag, n), x, h, r, J)
    cur = fo('', st['x'])
    cur.fval, cur.grad = st['fval'], st['grad']
    xn = vecvar('xnew', n)
    xv = xn.v
    lv, uv = lb.v, ub.v
    e2 = lift(2 * 100 * 2.220446049250313e-16)
    c.forall(n, lambda t: (lv.elem(t) + e2)._cmp_le(uv.elem(t)))
    assume_inside(xn, lb, ub)
    new = fo('+', xn)
    step = mk_step(n)
    # precondition (obligation of the main loop): the objective decreases
    assume(rlt(new.fval.val, cur.fval.val))
    if res:
        # objective values are half the squared residuals (obligation of the evaluator)
        nr, nn = normsq(cur.res.v), normsq(new.res.v)
        assume(cur.fval.val == nr.val / 2)
        assume(new.fval.val == nn.val / 2)
        vec.lemma_sum_nonneg(vmul(new.res.v, new.res.v))
        check('the previous residual is not zero', nr.val > 0)
    watched = [new.x, new.grad, new.hess, new.res, new.sres, cur.grad, cur.hess, cur.res, cur.sres, step.s, step.s0]
    keys = [content(a) for a in watched]
    s, y = vadd(step.s.v, step.s0.v), vadd(new.grad.v, st['grad'].v, -1)
    snap = snapshot(o)
    make_nd = M.Optimizer.__dict__['make_non_degenerate']

    def shift(self, *a):
        # contract: moves entries by at most the threshold, in a new array
        got['shifted from'] = self.x
        self.x = vecvar('shifted', n)
    M.Optimizer.make_non_degenerate = shift
    try:
        o.update(step, new, cur)
    finally:
        M.Optimizer.make_non_degenerate = make_nd
    frame(o, snap, ('x', 'fval', 'grad', 'hess'))
    check('the function value is that of the evaluation', o.fval is new.fval)
    check('the gradient is that of the evaluation', content(o.grad) == content(new.grad))
    check('the iterate is the evaluated point (shifted)', 'shifted from' in got and got['shifted from'] is new.x)
    check('evaluations and step are not modified', [content(a) for a in watched] == keys)
    if hu is None:
        eqmat('the Hessian is that of the evaluation', o.hess, new.hess.me)
        check('the Hessian does not share memory with the array of the user', o.hess is not new.hess)
        return
    eqmat('the Hessian is that of the scheme', o.hess, newmat.me())
    check('the scheme is updated once', got.get('calls') == 1)
    sa = got.get('s', got.get('delta'))
    check('the scheme gets the step', same_vec(sa, s))
    if 'y' in got:
        check('the scheme gets the gradient change', same_vec(got['y'], y))
    if 'hess' in got:
        check('the scheme gets the Hessian of the evaluation', got['hess'] is new.hess)
    if name == 'HybridFixed':
        check('the scheme gets the iterations since the last radius change', got['iter_since_tr_update'] is its)
    if name == 'HybridFraction':
        check('the scheme gets the number of intermediate ratios', got['tr_nonupdates'] is nint)
        check('the scheme gets the number of iterations', got['iterations'] is it)
    if res:
        check('the scheme gets the residual', got['r'] is new.res)
        dJ = new.sres.me.add(cur.sres.me, core.rneg(ONE)).T()
        yb = dJ.apply(new.res.v)
        if name == 'FX':
            check('the scheme gets the previous residual', got['rprev'] is cur.res)
            check('gamma is H s + (J+ - J)^T r+', same_vec(got['gamma'], vadd(new.hess.me.apply(s), yb)))
        else:
            if name in ('TSSM', 'GNSBFGS'):
                yb = vscale(norm2(new.res.v) / norm2(cur.res.v), yb)
            check('structured secant vector', same_vec(got['yb'], yb))


# ----------------------------------------------------------------- history
HKEYS = {'fval', 'tr_ratio', 'tr_radius', 'normgrad', 'normstep', 'accept', 'theta', 'alpha', 'reflections',
         'truncations', 'step_type'}


@task(['C19'], ['minimize.Optimizer.track_history', 'minimize._min_max_evs'])
def track_history():
    L = code()
    M = L.minimize
    c = ctx()
    n = dim()
    name = ['none', 'BFGS', 'SSM', 'HybridFixed'][pick(4)]
    hu = None if name == 'none' else new_scheme(name)
    lb, ub = bounds(n)
    o = M.Optimizer(Fun(), ub, lb, options=sym_options(M.Options), hessian_update=hu, resfun=name in RES)
    o._reset('run')
    give_state(o, n)
    if hu is not None:
        hu._init_mat(n.dim())
    o.tr_ratio, o.delta_iter, o.delta = real('ratio'), real('delta_iter'), real('delta')
    o.iterations_since_tr_update = SInt(c.fresh('its', 'I'))
    sets = []
    for k in range(2):
        step = mk_step(n)
        if k and c.choose('with flags'):
            step.posdef, step.newton = True, False
        f = M.Funout(fresh_xr('f', False), vecvar('g', n, False), vecvar('xn', n))
        acc = bool(c.choose('accepted'))
        snap = snapshot(o)
        old = {a: list(b) for a, b in o.history.items()}
        o.track_history(acc, step, f)
        frame(o, snap, ('history',))
        new = o.history
        check('one entry per quantity and iteration', all(len(v) == k + 1 for v in new.values()))
        check('earlier entries are kept', all(a in new and all(x is y for x, y in zip(b, new[a]))
                                              for a, b in old.items()))
        check('the documented quantities are recorded', HKEYS <= set_of(new))
        sets.append(set_of(new))
        last = {a: b[-1] for a, b in new.items()}
        check('objective value of the iteration', last['fval'] is f.fval)
        check('ratio of the iteration', last['tr_ratio'] is o.tr_ratio)
        check('radius of the iteration', last['tr_radius'] is o.delta_iter)
        check('step length of the iteration',
              lift(last['normstep'])._cmp_eq(norm2(vadd(step.s.v, step.s0.v))))
        check('acceptance of the iteration', last['accept'] is acc)
        check('gradient norm of the iteration', lift(last['normgrad'])._cmp_eq(norm2(o.grad.v)))
        check('step data of the iteration', last['theta'] is step.theta and last['alpha'] is step.alpha
              and last['step_type'] == step.type)
        check('counts of the iteration', last['reflections'] is step.reflection_count
              and last['truncations'] is step.truncation_count)
    check('the same quantities in every iteration', sets[0] == sets[1])


def set_of(d):
    return frozenset(d.keys())


# ----------------------------------------------------------------- options
DEFAULTS = {'maxiter': 1000, 'maxtime': float('inf'), 'fatol': 1e-8, 'frtol': 1e-8, 'xtol': 0, 'gatol': 1e-6,
            'grtol': 0, 'subspace_solver': '2D', 'stepback_strategy': 'reflect', 'theta_max': 0.95,
            'delta_init': 1.0, 'mu': 0.25, 'eta': 0.75, 'gamma1': 0.25, 'gamma2': 2, 'history_file': None}
NUMERIC = ('maxtime', 'fatol', 'frtol', 'xtol', 'gatol', 'grtol', 'theta_max', 'delta_init', 'mu', 'eta', 'gamma1',
           'gamma2')


def arbitrary_option(K):
    """an option name or member, a value, and the error it deserves"""
    import pathlib
    c = ctx()
    names = list(DEFAULTS)
    name = (names + ['not an option', 'MAXITER', ''])[pick(len(names) + 3)]
    key = name
    if name in DEFAULTS and c.choose('enumeration member'):
        key = K.Options(name)
    integer, number = SInt(c.fresh('i', 'I')), fresh_xr('v', False)
    vals = [integer, number, 'text', 'full', 'refine', pathlib.PosixPath('file'), None, [1], (1.0,), {}]
    vi = pick(len(vals))
    v = vals[vi]
    if name not in DEFAULTS:
        want = ValueError
    elif name == 'maxiter':
        want = None if vi == 0 else TypeError
        if vi == 1:
            want = None if c.branch(band(number.fin, z3.IsInt(number.val))) else TypeError
    elif name in NUMERIC:
        want = None if vi in (0, 1) else TypeError
    elif name == 'subspace_solver':
        want = None if vi == 3 else ValueError
    elif name == 'stepback_strategy':
        want = None if vi == 4 else ValueError
    else:
        want = None if vi in (2, 3, 4, 5) else TypeError
    return name, key, v, want


class AnyOptions:
    """options of any number"""

    class Items:
        _vf_generic = True

        def __init__(self, what):
            self.what = what

    def items(self):
        return self.Items('items')

    def keys(self):
        return self.Items('keys')

    def __getattr__(self, n):
        raise Unsupported(f'options.{n}')


class Validation(LoopContract):
    """one option of an arbitrary number: validation goes on iff it is valid"""
    cut = True
    K = seen = None

    def entry(self, env):
        if Validation.seen:
            raise Unsupported('several loops over the options')
        Validation.seen = ['entered', None, None]
        return {}

    def element(self, seq):
        if not isinstance(seq, AnyOptions.Items) or seq.what != 'items':
            raise Unsupported('iteration over the options')
        if not ctx().choose('another option'):
            Validation.seen[0] = 'all'
            return False, None
        name, key, v, want = arbitrary_option(self.K)
        Validation.seen[:] = ['one', name, want]
        return True, (key, v)

    def back(self, env):
        check(f'validation goes on only after a valid option ({self.seen[1]})', self.seen[2] is None)


@task(['C20'], ['constants.validate_options'])
def options_of_any_number_are_validated():
    L = code()
    K = L.constants
    Validation.K, Validation.seen = K, None
    L.contracts = {('constants.validate_options', 'For'): Validation}
    try:
        K.validate_options(AnyOptions())
    except (ValueError, TypeError, OverflowError) as e:
        _, name, want = Validation.seen
        check(f'valid options are accepted ({name})', want is not None)
        check(f'invalid options are rejected with the documented error ({name})', want is not None
              and type(e) is want)
    else:
        check('all options have been looked at', bool(Validation.seen) and Validation.seen[0] == 'all')


@task(['C20'], ['constants.validate_options', 'minimize.Optimizer.__init__'])
def options_are_validated():
    L = code()
    K, M = L.constants, L.minimize
    c = ctx()
    name, key, v, want = arbitrary_option(K)
    use = M.Optimizer if c.choose('constructor') else None
    n = dim()
    lb, ub = bounds(n)
    d = {key: v}
    try:
        if use:
            M.Optimizer(Fun(), ub, lb, options=d)
        else:
            K.validate_options(d)
    except (ValueError, TypeError, OverflowError) as e:
        check(f'valid options are accepted ({name})', want is not None)
        check(f'invalid options are rejected with the documented error ({name})', want is not None
              and type(e) is want)
    else:
        check(f'invalid options are rejected ({name})', want is None)
    check('options are not modified by the validation', list(d) == [key] and d[key] is v)


@task(['C20'], ['constants.validate_options'])
def every_option_is_validated():
    """an invalid option is found wherever it stands"""
    K = code().constants
    limit = SInt(ctx().fresh('i', 'I'))
    if ctx().choose('integral number'):
        limit = fresh_xr('limit')
        assume(z3.IsInt(limit.val))
    good = {K.Options.FATOL: real('a'), 'maxiter': limit, 'subspace_solver': 'scg',
            'stepback_strategy': K.StepBackStrategy.MIXED}
    items = list(good.items())
    bad = [('nonsense', 1, ValueError), (K.Options.GATOL, 'x', TypeError), ('subspace_solver', '3D', ValueError),
           ('stepback_strategy', 'none', ValueError)][pick(4)]
    k = pick(len(items) + 1)
    items = [i for i in items if i[0] != bad[0]]
    k = min(k, len(items))
    items.insert(k, bad[:2])
    try:
        K.validate_options(dict(items))
    except (ValueError, TypeError) as e:
        check('the documented error', type(e) is bad[2])
    else:
        check('an invalid option among valid ones is rejected', False)
    K.validate_options(good)
    K.validate_options({})
    check('valid options are accepted', True)


@task(['C20'], ['minimize.Optimizer.get_option'])
def options_are_used():
    L = code()
    K, M = L.constants, L.minimize
    c = ctx()
    n = dim()
    lb, ub = bounds(n)
    names = list(DEFAULTS)
    name = names[pick(len(names))]
    member = K.Options(name)
    if c.choose('unset'):
        other = {} if c.choose('nothing set') else {'gatol' if name != 'gatol' else 'fatol': 0.5}
        o = M.Optimizer(Fun(), ub, lb, options=other or None)
        v = o.get_option(member)
        d = DEFAULTS[name]
        check(f'default of {name}', v == d and (v is None) == (d is None))
        return
    key = member if c.choose('enumeration member') else name
    if name == 'maxiter':
        val = [SInt(c.fresh('i', 'I')), 0, 7][pick(3)]
    elif name in NUMERIC:
        val = [real('v'), 0.0, 0, SInt(c.fresh('i', 'I')), fresh_xr('w', False, ('pinf',))][pick(5)]
    elif name == 'subspace_solver':
        val = ['2D', 'full', 'scg', K.SubSpaceDim.TWO, K.SubSpaceDim.FULL, K.SubSpaceDim.STEIHAUG][pick(6)]
    elif name == 'stepback_strategy':
        val = ['reflect', 'reflect_single', 'truncate', 'mixed', 'refine', K.StepBackStrategy.REFINE][pick(6)]
    else:
        val = 'file.h5'
    o = M.Optimizer(Fun(), ub, lb, options={key: val})
    v = o.get_option(member)
    check(f'the value that was set is used ({name})', v is val or (type(v) is type(val) and v == val))
    if name == 'delta_init':
        o._reset('x')
        check('the radius starts with its option', o.delta is val or o.delta == val)


# ------------------------------------------------------------ independence
@task(['C15', 'C14', 'C21'], ['hessian_approximation.HessianApproximation._init_mat', 'hessian_approximation.HybridApproximation._init_mat',
                       'hessian_approximation.HybridSwitchApproximation._init_mat',
                       'hessian_approximation.StructuredApproximation._init_mat'],
      ['the steps satisfy the preconditions of the update formulas'])
def schemes_forget_earlier_runs():
    L = code()
    HA = L.hessian_approximation
    c = ctx()
    n, m = dim(), dim('m')
    name = SCHEMES[pick(len(SCHEMES))]
    o = new_scheme(name)
    for a in list(o.__dict__.values()):
        if isinstance(a, HA.HessianApproximation):
            make_stale(a)
    make_stale(o)
    H0 = Mat('H0', n, n, sym=True)
    hess = SMat(H0.me()) if c.choose('initial matrix') else None

    def stub(y, s, mat, *a, **kw):
        # reads all its arguments
        y.v, s.v, mat.me, [lift(v) for v in (*a, *kw.values()) if not isinstance(v, bool)]
        return SMat(Mat('D', n, n, sym=True).me())
    with patched(HA, broyden_class_update=stub):
        o._init_mat(n.dim(), hess)
        o.get_mat()
        s, y = vecvar('s', n), vecvar('y', n)
        nz = normsq(s.v)
        assume(nz.val > 0)
        for k in range(2):
            if name == 'HybridFixed':
                o.update(s, y, SMat(Mat('H', n, n).me()), SInt(c.fresh('since', 'I')))
            elif name == 'HybridFraction':
                it = SInt(c.fresh('it', 'I'))
                assume(it.i > 0)
                o.update(s, y, SMat(Mat('H', n, n).me()), SInt(c.fresh('non', 'I')), it)
            elif name == 'FX':
                r = vecvar('rp', m)
                rr = normsq(r.v)
                assume(rr.val > 0)
                o.update(s, y, vecvar('r', m), r, SMat(Mat('H', n, n).me()))
            elif name in RES:
                o.update(s, y, vecvar('r', m), SMat(Mat('H', n, n).me()), vecvar('yb', n))
            else:
                o.update(s, y)
            o.get_mat()
            o.get_diff()
    check('nothing of an earlier run is used', True)
    if hess is not None:
        eqmat('the initial matrix of the user is not modified', hess, H0.me())
