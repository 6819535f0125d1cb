"""The main loop: Optimizer.minimize against the contracts of the methods it calls."""
import ast
import inspect
import os
from .common import *
from .mini import (Fun, sym_options, give_state, opt, mk_step, snapshot, content, frame, same_arr, EPS)
from ..core import PathEnd
from .. import loader

MUTATORS = {'append', 'add', 'update', 'setdefault', 'pop', 'clear', 'extend', 'insert', 'remove'}
STATE = ['x', 'fval', 'grad', 'hess', 'x_min', 'fval_min', 'grad_min', 'iteration', 'converged', 'exitflag',
         'delta', 'delta_iter', 'tr_ratio', 'iterations_since_tr_update', 'n_intermediate_tr_radius', 'history']


# ------------------------------------------------------------ earlier runs
class Stale:
    """whatever an earlier run left behind: using it is a violation of independence"""

    def __init__(self, name):
        object.__setattr__(self, '_vf_name', name)

    def _use(self, *a, **k):
        ctx().check(f'nothing of an earlier run is used ({object.__getattribute__(self, "_vf_name")})', False)
        raise PathEnd()

    def __getattr__(self, a):
        self._use()

    def __format__(self, s):
        return '<stale>'
    __str__ = __repr__ = lambda s: '<stale>'
    __hash__ = object.__hash__
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __bool__ = __lt__ = \
        __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __iter__ = __getitem__ = __setitem__ = __call__ = __neg__ = \
        __len__ = __contains__ = __abs__ = __pow__ = __enter__ = __exit__ = __iadd__ = __setattr__ = __delitem__ = _use


def changing_attributes(cls):
    """attributes of an object that a method other than the constructor may change (from the source of the class)"""
    out = set()
    mods = {'fides' + ('.' + k if k else ''): k for k in code().mods}
    for c in cls.__mro__:
        src = code().sources.get(mods.get(c.__module__, None) or '', None)
        if src is None:
            continue
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, ast.ClassDef) and node.name == c.__name__:
                for f in node.body:
                    if isinstance(f, ast.FunctionDef) and f.name != '__init__' and f.args.args:
                        out |= touched(f, f.args.args[0].arg)
    return out


def touched(f, me):
    out = set()

    def attr(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                return n.attr
            n = n.value
        return None
    for n in ast.walk(f):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(attr(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            out.add(attr(n.func.value))
    out.discard(None)
    return out


def make_stale(obj, keep=()):
    for a in sorted(changing_attributes(type(obj))):
        # parts that keep a state of their own (Hessian approximations) are made stale themselves
        if a not in keep and not hasattr(type(obj.__dict__.get(a)), 'get_mat'):
            obj.__dict__[a] = Stale(f'{type(obj).__name__}.{a}')


# ---------------------------------------------------------------- history
class Hist:
    """a dictionary of lists with one entry per iteration; records what an iteration appends"""

    def __init__(self, n):
        self.n, self.added, self.order = n, {}, []

    def __getitem__(self, k):
        return HistList(self, k)

    def setdefault(self, k, d=None):
        return HistList(self, k)

    def items(self):
        # an arbitrary key stands for all of them
        return [('some key', HistList(self, 'some key'))]

    def keys(self):
        return ['some key']

    def __iter__(self):
        return iter(['some key'])

    def __len__(self):
        raise Unsupported('length of the history')


class HistList:
    def __init__(self, h, k):
        self.h, self.k = h, k

    def append(self, v):
        self.h.added.setdefault(self.k, []).append(v)

    def __getattr__(self, a):
        raise Unsupported('use of a history list')


# --------------------------------------------------------------- evaluator
class UserError(Exception):
    pass


class Eval:
    """contract of the function evaluator: arbitrary values for the point it is given"""

    def __init__(self, M, dom, hess, res):
        self.M, self.dom, self.hess, self.res, self.calls = M, dom, hess, res, []
        self.hook = None

    def __call__(self, x):
        c, n = ctx(), self.dom
        if self.hook:
            self.hook(x)
        if c.choose('user function raises'):
            raise UserError()
        f = self.M.Funout(fresh_xr('f', False), vecvar('g', n, False), x)
        if self.hess:
            f.hess = SMat(Mat('H', n, n, finite=c.fresh('hfin', 'B')).me())
        if self.res:
            f.res, f.sres = vecvar('r', self.res), SMat(Mat('J', self.res, n).me())
        f.vf = {k: (getattr(f, k), content(getattr(f, k))) for k in ('x', 'fval', 'grad', 'hess', 'res', 'sres')}
        f.checked = False

        def checkdims():
            f.checked = True
        f.checkdims = checkdims
        self.calls.append(f)
        return f


def untouched(f):
    """the objective output is as the user function returned it"""
    return all(getattr(f, k) is a and content(a) == key for k, (a, key) in f.vf.items())


def allfin(v):
    return b_of(shim.np_isfinite(v).all()) if not v.v.finite else True


def matfin(h):
    return True if h is None else h.me.finite()


def finite_parts(fval, grad, hess):
    return band(lift(fval).fin, allfin(grad), matfin(hess))


def wide_bounds():
    return z3.Bool('wide bounds')


def distant(x, lb, ub, t):
    """entry keeps the degeneracy threshold as distance to its bounds"""
    e = lift(EPS)
    v = x.v.elem(t)
    return bimp(wide_bounds(), band((lb.v.elem(t) + e)._cmp_le(v), v._cmp_le(ub.v.elem(t) - e)))


def assume_distant(x, lb, ub):
    x, lb, ub = SVec(x.v), SVec(lb.v), SVec(ub.v)
    forall(x.v.dom, lambda t: distant(x, lb, ub, t))


class History:
    """what the run does, for the obligations at the end"""


def machine(cfg):
    """Optimizer, stubs and loop contract for one configuration of the Hessian source"""
    n = dim()
    L = code()
    M, HA = L.minimize, L.hessian_approximation
    c = ctx()
    hu, res = None, None
    if cfg == 'iterative':
        class Scheme(HA.IterativeHessianApproximation):
            def update(self, s, y):
                c.ghost['secant'] = (s.v, y.v)
                self._mat = SMat(Mat('B', n, n, finite=c.fresh('bfin', 'B')).me())
        hu = Scheme()
    hist = bool(c.choose('history')) if cfg == 'exact' else False
    lb, ub = bounds(n)
    e2 = lift(2 * EPS)
    lv, uv = lb.v, ub.v
    c.forall(n, lambda t: (lv.elem(t) + e2)._cmp_le(uv.elem(t)))
    # further apart than three thresholds: the iterates keep a distance to the bounds
    wide, e3 = wide_bounds(), lift(3 * EPS)
    c.forall(n, lambda t: bimp(wide, (lv.elem(t) + e3)._cmp_le(uv.elem(t))))
    fixed = {'HISTORY_FILE': 'some file'} if hist else {}
    o = M.Optimizer(lambda x: None, ub, lb, options=sym_options(M.Options, **fixed), hessian_update=hu)
    o.fevaler = ev = Eval(M, n, cfg == 'exact', res)
    # whatever happened before on these objects
    make_stale(o, keep=('lb', 'ub', 'options', 'fevaler', 'hessian_update'))
    if hu is not None:
        make_stale(hu)
    return o, M, lb, ub, n, ev, hist


def mk_contract(o, M, n, ev, hist, G, mode):
    F = M.ExitFlag
    c = ctx()

    class Main(LoopContract):
        cut = True

        def entry(self, env):
            if mode == 'start':
                self.start()
                G['entered'] = True
                raise PathEnd()
            return self.generic(env)

        def start(self):
            check('one evaluation before the first iteration', len(ev.calls) == 1)
            f0 = ev.calls[0]
            check('dimensions of the objective output are checked before the first iteration', f0.checked)
            self.invariant('at the start', f0, 0)
            check('the iteration counter starts at zero', lift(o.iteration)._cmp_eq(lift(0)))
            check('the first point is tracked as the minimum',
                  o.fval_min is f0.fval and o.x_min is f0.x and o.grad_min is f0.grad)
            check('the history starts empty', type(o.history) is not Hist and len(o.history) == 0)
            check('the radius starts with its option', lift(o.delta)._cmp_eq(lift(opt(o, 'DELTA_INIT'))))

        def generic(self, env):
            """an arbitrary iteration: everything an iteration may change is forgotten"""
            c.ghost.pop('secant', None)
            out = {}
            G['head'] = True
            st = {}
            its = SInt(c.fresh('iteration', 'I'))
            c.add(its.i >= 0)
            c.add(its.i <= opt(o, 'MAXITER').i)
            st['iteration'] = its
            st['x'], st['grad'], st['fval'] = vecvar('x', n), vecvar('grad', n), real('fval')
            assume_inside(st['x'], o.lb, o.ub)
            assume_distant(st['x'], o.lb, o.ub)
            st['hess'] = SMat(Mat('hess', n, n, finite=c.fresh('hessfin', 'B')).me())
            st['delta'], st['delta_iter'], st['tr_ratio'] = real('delta'), real('delta_iter'), real('ratio')
            st['fval_min'] = real('fval_min')
            st['iterations_since_tr_update'] = SInt(c.fresh('its', 'I'))
            st['n_intermediate_tr_radius'] = SInt(c.fresh('nint', 'I'))
            # the value at the start
            G['f0'] = real('fstart')
            c.add(rle(st['fval'].val, G['f0'].val))
            c.add(rle(st['fval_min'].val, st['fval'].val))
            cur = M.Funout(st['fval'], st['grad'], vecvar('xf', n))
            if cur.hess is None and ev.hess:
                cur.hess = SMat(Mat('Hf', n, n).me())
            if hist or (not ev.hess and c.choose('shared arrays')):
                cur.x = st['x']
                if ev.hess:
                    cur.hess = st['hess']
                st['x_min'], st['grad_min'] = st['x'], st['grad']
                c.add(st['fval_min'].val == st['fval'].val)
            else:
                st['x_min'], st['grad_min'] = vecvar('x_min', n), vecvar('grad_min', n)
            xv, fv = st['x'].v, cur.x.v
            c.forall(n, lambda t: abs(xv.elem(t) - fv.elem(t))._cmp_le(lift(EPS)))
            cv = c.fresh('converged', 'B')
            st['converged'] = mkb(cv)
            st['exitflag'] = F.DID_NOT_RUN
            if c.branch(cv):
                st['exitflag'] = F.GTOL
            st['history'] = Hist(its)
            for k in STATE:
                if not isinstance(o.__dict__.get(k), Stale):
                    o.__dict__[k] = st[k]
            G.update(st=dict(o.__dict__), cur=cur, ncalls=len(ev.calls),
                     keys={k: content(v) for k, v in o.__dict__.items()},
                     curkeys={k: content(getattr(cur, k)) for k in ('x', 'grad', 'hess')},
                     late=None, steps=0, radius=None, conv=None)
            for k, v in env.items():
                if isinstance(v, M.Funout):
                    out[k] = cur
            c.ghost['clocks'] = []
            return out

        def invariant(self, when, f, it):
            t = at(n)
            check('iterate is inside the bounds ' + when, inside(o.x, o.lb, o.ub, t))
            check('iterate is finite ' + when, o.x.v.elem(t).fin)
            check('iterate keeps a distance to the bounds ' + when, distant(o.x, o.lb, o.ub, t))
            check('objective value is finite ' + when, lift(o.fval).fin)
            check('gradient is finite ' + when, allfin(o.grad))
            check('objective value is that of the evaluation ' + when, o.fval is f.fval)
            check('gradient is that of the evaluation ' + when, o.grad is f.grad)
            if ev.hess:
                check('Hessian is that of the evaluation ' + when, arr.mekey(o.hess.me) == arr.mekey(f.hess.me))
            check('iterate is the evaluated point up to the degeneracy shift ' + when,
                  abs(o.x.v.elem(t) - f.x.v.elem(t))._cmp_le(lift(EPS)))
            check('status and convergence flag agree ' + when,
                  biff(b_of(o.converged), o.exitflag in (F.FTOL, F.XTOL, F.GTOL)))
            check('status is unset unless converged ' + when,
                  bor(b_of(o.converged), o.exitflag is F.DID_NOT_RUN))

        def back(self, env):
            st = G['st']
            new = [k for k in o.__dict__ if k not in STATE and o.__dict__[k] is not st.get(k)]
            if new:
                raise Unsupported('attributes changed by an iteration: ' + ', '.join(new))
            calls = ev.calls[G['ncalls']:]
            check('exactly one evaluation per iteration', len(calls) == 1)
            f = calls[0]
            check('exactly one step per iteration', G['steps'] == 1)
            check('iteration counter is increased by one',
                  lift(o.iteration)._cmp_eq(lift(st['iteration']) + 1))
            check('iterations do not exceed the maximum', lift(o.iteration)._cmp_le(lift(opt(o, 'MAXITER'))))
            check('objective output is not modified', untouched(f))
            for k in ('lb', 'ub'):
                check('bounds are not modified', content(o.__dict__[k]) == G['keys'][k])
            # acceptance
            check('the radius is updated once per iteration', G['radius'] is not None)
            acc = G['radius'][1]
            if not is_b(acc):
                acc = ctx().branch(acc)
            if acc:
                self.invariant('after an accepted step', f, st['iteration'])
                check('the objective decreases', lift(o.fval)._cmp_lt(st['fval']))
                check('the model predicted a decrease', rlt(G['step'].qpval.val, ZERO))
                check('an accepted step moves', bimp(wide_bounds(), G['moves'] != 0))
                if o.hessian_update is not None:
                    s, y = c.ghost.get('secant', (None, None))
                    stp = G['step']
                    check('the scheme gets the accepted step',
                          s is not None and same_vec(s, vadd(stp.s.v, stp.s0.v)))
                    check('the scheme gets the gradient change',
                          y is not None and same_vec(y, vadd(f.grad.v, st['grad'].v, -1)))
                    check('the Hessian is that of the scheme',
                          arr.mekey(o.hess.me) == arr.mekey(o.hessian_update.get_mat().me))
                    c.ghost.pop('secant', None)
            else:
                for k in ('x', 'fval', 'grad', 'hess'):
                    check(f'a rejected step leaves {k} unchanged',
                          o.__dict__[k] is st[k] and content(st[k]) == G['keys'][k])
                check('a rejected step leaves the scheme unchanged', 'secant' not in c.ghost)
                check('status and convergence flag agree after a rejected step',
                      biff(b_of(o.converged), o.exitflag in (F.FTOL, F.XTOL, F.GTOL)))
                check('status is unset unless converged after a rejected step',
                      bor(b_of(o.converged), o.exitflag is F.DID_NOT_RUN))
            cur = next((v for k, v in env.items() if isinstance(v, M.Funout) and v is (f if acc else G['cur'])), None)
            check('the evaluation of the iterate is kept', cur is not None)
            if not acc:
                check('the evaluation of the iterate is not modified',
                      all(content(getattr(G['cur'], k)) == v for k, v in G['curkeys'].items()))
            check('convergence is decided once per iteration', G['conv'] is not None)
            if o.exitflag is F.GTOL:
                check('the gradient criterion is measured at the iterate', G['conv'] == content(o.grad))
            # minimum
            fn = lift(f.fval)
            better = c.branch(band(fn.fin, fn._cmp_lt(st['fval_min'])))
            if better:
                check('a new minimum is tracked', o.fval_min is f.fval and o.x_min is f.x and o.grad_min is f.grad)
            else:
                check('the tracked minimum is kept', all(o.__dict__[k] is st[k] and content(st[k]) == G['keys'][k]
                                                          for k in ('fval_min', 'x_min', 'grad_min')))
            check('radius is the updated one', o.delta is G['radius'][0])
            check('minimum is not above the iterate', lift(o.fval_min)._cmp_le(lift(o.fval)))
            # history
            if hist:
                check('the history object is kept', o.history is st['history'])
                check('one history entry of this iteration',
                      G.get('tracked') == 1)
    return Main


def same_vec(a, b):
    a = a.v if isinstance(a, SVec) else a
    b = b.v if isinstance(b, SVec) else b
    if a.key == b.key:
        return True
    t = at(a.dom)
    return a.elem(t).same(b.elem(t))


def stubs(o, M, n, ev, hist, G, lb, ub, mode):
    F = M.ExitFlag
    c = ctx()

    def check_finite(self, funout=None):
        if mode == 'body' and not G.get('head'):
            return
        f = funout if funout is not None else self
        if not c.branch(finite_parts(f.fval, f.grad, f.hess)):
            self.exitflag = F.NOT_FINITE
            raise RuntimeError('not finite')

    def make_non_degenerate(self, *a):
        if not G.get('head'):
            return
        xv, t = self.x.v, at(n)
        check('the shift starts inside the bounds', inside(self.x, lb, ub, t))
        if c.choose('shifted'):
            y = vecvar('shifted', n)
            yv = y.v
            assume_inside(y, lb, ub)
            c.forall(n, lambda i: abs(yv.elem(i) - xv.elem(i))._cmp_le(lift(EPS)))
            self.x = y
        assume_distant(self.x, lb, ub)

    def check_in_bounds(self, x=None):
        if not G.get('head'):
            return
        check('no violated bound is found during the iteration', inside(self.x if x is None else x, lb, ub, at(n)))

    def track_minimum(self, funout):
        if not G.get('head'):
            return
        fv = lift(funout.fval)
        if c.branch(band(fv.fin, fv._cmp_lt(self.fval_min))):
            self.x_min, self.fval_min, self.grad_min = funout.x, funout.fval, funout.grad

    def update_tr_radius(self, funout, step, dv):
        if not G.get('head'):
            raise Unsupported('radius update before the main loop')
        st = G['st']
        f = ev.calls[-1]
        check('the radius is updated at most once per iteration', G['radius'] is None)
        check('the radius is updated with the trial evaluation', funout is f and step is G['step'])
        check('the radius is updated from the current state',
              self.fval is st['fval'] and self.delta is st['delta'] and self.delta_iter is st['delta'])
        check('the radius is updated with the derivative of the scaling', dv is G['dv'])
        # both counters are read
        self.iterations_since_tr_update + 1, self.n_intermediate_tr_radius + 1
        self.tr_ratio = real('ratio')
        self.delta = real('delta')
        self.iterations_since_tr_update = SInt(c.fresh('its', 'I'))
        self.n_intermediate_tr_radius = SInt(c.fresh('nint', 'I'))
        acc = rlt(ZERO, self.tr_ratio.val)
        fv = lift(funout.fval)
        c.add(bimp(acc, band(fv.fin, rlt(fv.val, st['fval'].val), rlt(step.qpval.val, ZERO))))
        G['radius'] = (self.delta, acc)
        return mkb(acc)

    def check_convergence(self, step, funout):
        st = G['st']
        check('convergence is decided for the trial evaluation', funout is ev.calls[-1] and step is G['step'])
        check('convergence is decided once per iteration', G['conv'] is None)
        check('convergence is decided before the state is updated', self.fval is st['fval'] and
              self.grad is st['grad'])
        check('convergence is decided after the ratio is known', G['radius'] is not None)
        acc = c.branch(rlt(ZERO, self.tr_ratio.val))
        G['conv'] = content(funout.grad if acc else self.grad)
        if c.choose('converges'):
            self.converged = True
            self.exitflag = F.FTOL if c.choose('ftol') else F.GTOL
        else:
            self.converged = False

    def trust_region(x, g, hess, scaling, delta, dv, theta, lb_, ub_, *a, **kw):
        st = G.get('st')
        if st is None:
            raise Unsupported('step before the main loop')
        check('a step is computed at most once per iteration', G['steps'] == 0)
        check('a step is computed from the iterate', x is st['x'] and g is st['grad'] and hess is st['hess']
              and content(x) == G['keys']['x'] and content(g) == G['keys']['grad']
              and content(hess) == G['keys']['hess'])
        check('a step is computed with the current radius', delta is st['delta'])
        check('a step is computed with the bounds', lb_ is o.lb and ub_ is o.ub)
        check('Hessian is finite when a step is computed', matfin(hess))
        check('gradient is finite when a step is computed', allfin(g))
        t = at(n)
        gt, xt = st['grad'].v.elem(t), st['x'].v.elem(t)
        b = xite(gt._cmp_lt(lift(0)), ub.v.elem(t), lb.v.elem(t))
        vt = xite(b.fin, xt - XR(b.val), xite(gt._cmp_lt(lift(0)), lift(-1), lift(1)))
        sc = scaling.me.apply(vconst(n, 1)).elem(t)
        check('the scaling is the square root of the distance to the bound ahead',
              band((sc * sc)._cmp_eq(abs(vt)), lift(0)._cmp_le(sc)))
        check('the derivative of the scaling belongs to it', dv.v.elem(t)._cmp_eq(xite(b.fin, lift(1), lift(0))))
        check('the scaling is positive', bimp(wide_bounds(), lift(0)._cmp_lt(sc)))
        check('the scaling is diagonal', isdiag(scaling.me))
        check('the step-back parameter is large enough', lift(opt(o, 'THETA_MAX'))._cmp_le(lift(theta)))
        check('the step-back parameter is at most one',
              bimp(lift(opt(o, 'THETA_MAX'))._cmp_le(lift(1)), lift(theta)._cmp_le(lift(1))))
        go = 'an iteration starts only '
        check(go + 'without convergence', bnot(b_of(st['converged'])))
        check(go + 'below the maximum of iterations', rlt(lift(st['iteration']).val, lift(opt(o, 'MAXITER')).val))
        check(go + 'with a radius above machine precision', rle(lift(2.220446049250313e-16).val, st['delta'].val))
        clocks = c.ghost['clocks']
        check(go + 'after a look at the clock', len(clocks) == 1)
        el = clocks[0] - lift(o.starttime)
        navg = xite(req(lift(st['iteration']).val, ZERO), lift(1), lift(st['iteration']))
        check(go + 'with enough time', bnot(((lift(opt(o, 'MAXTIME')) - el) * navg)._cmp_lt(el)))
        s = mk_step(n)
        sv = vadd(vadd(st['x'].v, s.s.v), s.s0.v)
        lv, uv = lb.v, ub.v
        c.forall(n, lambda i: band(lv.elem(i)._cmp_le(sv.elem(i)), sv.elem(i)._cmp_le(uv.elem(i))))
        c.add(rle(s.qpval.val, ZERO))
        G['steps'] += 1
        # a predicted decrease comes from a step that moves (proved for every kind of step)
        w = c.index(n, 'moves')
        G['moves'] = vadd(s.s.v, s.s0.v).elem(w).val
        c.add(bimp(band(wide_bounds(), rlt(s.qpval.val, ZERO)), G['moves'] != 0))
        G['step'], G['dv'] = s, dv
        G['point'] = sv
        return s

    real_update = M.Optimizer.__dict__.get('update')

    def update(self, *a, **kw):
        """preconditions of Optimizer.update (its contract), then the method itself"""
        if G.get('head'):
            args = inspect.signature(real_update).bind(self, *a, **kw).arguments
            if 'funout_new' in args:
                check('the state is updated with the trial evaluation', args['funout_new'] is ev.calls[-1])
            if 'funout' in args:
                check('the state is updated from the evaluation of the iterate', args['funout'] is G['cur'])
        return real_update(self, *a, **kw)

    def track_history(self, accepted, step, funout):
        st = G['st']
        G['tracked'] = G.get('tracked', 0) + 1
        check('history entries are those of the iteration', step is G['step'] and funout is ev.calls[-1]
              and self.delta_iter is st['delta'] and G['radius'] is not None
              and (biff(b_of(accepted), G['radius'][1]) is True or entailed(biff(b_of(accepted), G['radius'][1]))))

    def hook(x):
        if mode == 'body' and not G.get('head'):
            return
        t = at(n)
        if not G.get('head'):
            check('the first point is inside the bounds', inside(x, lb, ub, t))
            check('the first point is finite', x.v.elem(t).fin)
            check('the first point is the start up to the degeneracy shift',
                  abs(x.v.elem(t) - G['x0'].elem(t))._cmp_le(lift(EPS)))
            return
        check('a trial point is evaluated after its step is computed', G['steps'] == 1)
        check('a trial point is the iterate plus the step', x.v.elem(t)._cmp_eq(G['point'].elem(t)))
        check('a trial point is inside the bounds', inside(x, lb, ub, t))
    ev.hook = hook
    if mode == 'start':
        return dict(check_finite=check_finite), trust_region
    more = dict(update=update) if callable(real_update) else {}
    return dict(more, check_finite=check_finite, make_non_degenerate=make_non_degenerate, check_in_bounds=check_in_bounds,
                track_minimum=track_minimum, update_tr_radius=update_tr_radius, check_convergence=check_convergence,
                track_history=track_history), trust_region


def entailed(f):
    return is_b(f) and f or ctx().entails(f)


def isdiag(me):
    return all(f.kind == 'diag' for cf, fs in me.terms for f in fs)


def main_loop(cfg, mode):
    o, M, lb, ub, n, ev, hist = machine(cfg)
    F = M.ExitFlag
    c = ctx()
    G = {}
    meths, tr = stubs(o, M, n, ev, hist, G, lb, ub, mode)
    missing = [k for k in meths if k not in M.Optimizer.__dict__] + [k for k in ('trust_region',) if not
                                                                      hasattr(M, k)]
    if missing:
        raise Unsupported('methods under contract are missing: ' + ', '.join(missing))
    L = code()
    key = ('minimize.Optimizer.minimize', 'While')
    x0 = vecvar('x0', n, False)
    k0, kl, ku = content(x0), content(lb), content(ub)
    G['x0'] = xs = x0.v
    if mode == 'start':
        # distances are kept if the start is inside the bounds (a start slightly outside may be shifted onto them)
        lv, uv = lb.v, ub.v
        c.forall(n, lambda t: bimp(wide_bounds(), band(lv.elem(t)._cmp_le(xs.elem(t)), xs.elem(t)._cmp_le(uv.elem(t)))))
    L.contracts[key] = mk_contract(o, M, n, ev, hist, G, mode)
    if mode == 'body':
        # these only write to the log (frame proved separately)
        meths.update({k: (lambda self, *a, **kw: None) for k in ('log_step', 'log_header', 'log_step_initial')
                      if k in M.Optimizer.__dict__})
    old = {k: M.Optimizer.__dict__[k] for k in meths}
    oldtr = M.trust_region
    hess0 = None
    if cfg == 'iterative' and (mode == 'body' or c.choose('initial Hessian given')):
        hess0 = SMat(Mat('hess0', n, n).me())
    kh = content(hess0)
    try:
        for k, f in meths.items():
            setattr(M.Optimizer, k, conform(old[k], f) if k != 'update' else f)
        M.trust_region = conform(oldtr, tr)
        end(o, M, n, ev, hist, G, x0, hess0, lb, ub)
    finally:
        for k, f in old.items():
            setattr(M.Optimizer, k, f)
        M.trust_region = oldtr
        L.contracts.pop(key, None)
    check('the arrays of the user are not modified', content(x0) == k0 and content(lb) == kl and content(ub) == ku
          and content(hess0) == kh)


def end(o, M, n, ev, hist, G, x0, hess0, lb, ub):
    F = M.ExitFlag
    c = ctx()
    c.events.clear()
    try:
        r = o.minimize(x0, 'some id', hess0)
    except UserError:
        check('an error of the user function leaves no status of an earlier run', o.exitflag is F.DID_NOT_RUN)
        return
    except RuntimeError:
        check('an error has its status', o.exitflag in (F.NOT_FINITE, F.EXCEEDED_BOUNDARY))
        if o.exitflag is F.EXCEEDED_BOUNDARY:
            check('violated bounds are found before the first evaluation', len(ev.calls) == 0)
            # only if an entry of the start is really outside
            assume_inside(x0, lb, ub)
            xv = x0.v
            c.forall(n, lambda t: xv.elem(t).fin)
            check('a start inside the bounds is not rejected', False)
        else:
            f = ev.calls[-1] if ev.calls else None
            check('a run stops for non-finite values only if there are such values', f is not None and bor(
                bnot(finite_parts(f.fval, f.grad, f.hess)), bnot(matfin(o.hess))))
            if G.get('head'):
                check('a non-finite objective at a trial point does not stop the run',
                      bor(lift(f.fval).fin, bnot(matfin(o.hess))))
        return
    st = G['st']
    check('the loop was entered by the rule', G.get('head'))
    check('the value of the iterate is returned', r[0] is o.fval and o.fval is st['fval'])
    check('the iterate is returned', r[1] is o.x and o.x is st['x'] and content(o.x) == G['keys']['x'])
    check('the gradient of the iterate is returned', r[2] is o.grad and o.grad is st['grad']
          and content(o.grad) == G['keys']['grad'])
    check('the Hessian of the iterate is returned', r[3] is o.hess and o.hess is st['hess']
          and content(o.hess) == G['keys']['hess'])
    for k in ('fval_min', 'x_min', 'grad_min'):
        check('the tracked minimum is that of the last iteration', o.__dict__[k] is st[k]
              and content(st[k]) == G['keys'][k])
    check('the returned value is not above the value at the start', rle(lift(r[0]).val, G['f0'].val))
    check('no evaluation after the last iteration', len(ev.calls) == G['ncalls'])
    cv = b_of(st['converged'])
    fl = o.exitflag
    check('a status is set', fl is not F.DID_NOT_RUN)
    check('converged: the status is kept', bimp(cv, fl is st['exitflag']))
    over = rle(lift(opt(o, 'MAXITER')).val, lift(st['iteration']).val)
    small = rlt(st['delta'].val, lift(2.220446049250313e-16).val)
    clocks = c.ghost['clocks']
    late = False
    if clocks:
        el = clocks[0] - lift(o.starttime)
        navg = xite(req(lift(st['iteration']).val, ZERO), lift(1), lift(st['iteration']))
        late = ((lift(opt(o, 'MAXTIME')) - el) * navg)._cmp_lt(el)
    check('the run ends only for a reason', bor(cv, over, late, small))
    check('the status tells the truth', bor(cv, {F.MAXITER: over, F.MAXTIME: late, F.DELTA_TOO_SMALL: small}.get(
        fl, False)))
    ev5 = [e for e in c.events if e[0].startswith('h5')]
    if hist:
        op = [e for e in ev5 if e[0] == 'h5open']
        gr = [e for e in ev5 if e[0] == 'h5group']
        da = [e for e in ev5 if e[0] == 'h5data']
        check('one group named by the start is appended to the file',
              len(op) == 1 and op[0][1] == 'some file' and op[0][2] == 'a' and len(gr) == 1 and gr[0][1] == 'some id')
        check('every recorded quantity is stored', len(da) == 1 and da[0][1] == 'some id' and da[0][2] == 'some key'
              and isinstance(da[0][3], HistList) and da[0][3].k == 'some key' and da[0][3].h is st['history'])
    else:
        check('no history is written', not ev5)


MAINASS = ['the bounds are further apart than twice (containment) or three times (distance) the degeneracy threshold',
           'distance to the bounds: the start is inside the bounds',
           'the clock does not run backwards']
STARTFUN = ['minimize.Optimizer.minimize', 'minimize.Optimizer._reset', 'minimize.Optimizer.log_step_initial',
            'minimize.Optimizer.log_header', 'minimize.Optimizer.track_minimum', 'minimize.Optimizer.get_option',
            'minimize.Optimizer.make_non_degenerate', 'minimize.Optimizer.check_in_bounds']
BODYFUN = ['minimize.Optimizer.minimize', 'minimize.Optimizer.update', 'minimize.Optimizer.check_continue',
           'minimize.Optimizer.get_affine_scaling', 'minimize.Optimizer.get_option']
STARTPROPS = ['C01', 'C05', 'C07', 'C08', 'C12', 'C15', 'C16', 'C17', 'C19', 'C21']
BODYPROPS = ['C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C12', 'C15', 'C17', 'C19', 'C21']


@task(STARTPROPS, STARTFUN, MAINASS)
def minimize_start_exact():
    main_loop('exact', 'start')


@task(STARTPROPS + ['C14'], STARTFUN, MAINASS)
def minimize_start_iterative():
    main_loop('iterative', 'start')


@task(BODYPROPS, BODYFUN, MAINASS)
def minimize_body_exact():
    main_loop('exact', 'body')


@task(BODYPROPS + ['C14'], BODYFUN, MAINASS)
def minimize_body_iterative():
    main_loop('iterative', 'body')
