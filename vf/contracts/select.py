"""Selection among the candidate steps and the step-back strategies."""
import inspect
from .common import *
from .mini import content
from .steps_ import World, pick, TOL
from ..core import PathEnd


def key(v):
    return content(v) if v is not None else None


class Fake:
    """contract of a step: the constructor takes the inputs of the iteration (checked), calculate determines alpha, the
    model value and the subspace"""
    world, kind, nsteps = None, 'step', 0
    type = 'x'
    reflection_count = truncation_count = 1             # only reported

    def __init__(self, *a, **k):
        W = Fake.world
        names = ['x', 'sg', 'hess', 'scaling', 'g_dscaling', 'delta', 'theta', 'ub', 'lb',
                 'step' if self.from_step else 'logger']
        v = None
        try:
            # as the constructor of the real class binds them
            v = dict(inspect.signature(getattr(code().steps, self.kind)).bind(*a, **k).arguments)
        except (AttributeError, ValueError, TypeError):
            pass
        if v is None or set(v) != set(names):
            v = dict(zip(names, a))
            v.update(k)
        if set(v) != set(names):
            raise Unsupported('arguments of a step')
        for nm in names[:-1]:
            check(f'{self.kind}: argument {nm}', key(v[nm]) == W.expect[nm])
        self.calculated = False
        self.base = v.get('step')
        self.logger = v.get('logger') or getattr(self.base, 'logger', None)
        if self.from_step:
            ok = isinstance(self.base, Fake) and self.base.calculated
            check(f'{self.kind}: derived from a calculated step', ok)
            if not ok:
                raise PathEnd()
            self.derive(self.base)
        W.made.append(self)

    def derive(self, base):
        pass

    def calculate(self):
        c = ctx()
        self.calculated = True
        self.set_results()

    def set_results(self):
        c = ctx()
        self.alpha, self.qpval = real('alpha'), real('qpval')
        self.minbr, self.theta = fresh_xr('minbr', False, ('pinf',)), Fake.world.theta
        assume(band(self.alpha.val >= 0, self.alpha.val <= 1))
        self.subspace = SMat(Mat('W', Fake.world.n, self.columns()).me())
        self.reflection_indices, self.truncation_indices = shim.SymSet(), shim.SymSet()
        self.facts()

    def columns(self):
        k = ctx().fresh('k', 'I')
        ctx().add(k >= 0)
        return Dom(k, 'k')

    def facts(self):
        pass

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        if a == 'qpval' and not self.__dict__.get('calculated', True):
            check('only the model values of calculated steps are compared', False)
            raise PathEnd()
        raise Unsupported(f'attribute {a} of a step')


def kind(name, step, fact=None, trunc=False):
    def facts(self):
        if fact:
            assume(fact(self))

    def derive(self, base):
        if trunc:
            check('truncated: the truncated step hits a bound', base.alpha._cmp_lt(lift(1)))
    return type(name, (Fake,), {'kind': name, 'from_step': step, 'facts': facts, 'derive': derive, 'type': name})


def down(self):
    return self.qpval.val <= 0


def down_full(self):
    # conjugate gradients: the full step (and any step if there is one variable)
    return bimp(bor(self.alpha.val == 1, Fake.world.n.nz == 1), self.qpval.val <= 0)


def classes():
    return dict(TRStep2D=kind('TRStep2D', False, down), TRStepFull=kind('TRStepFull', False, down),
                TRStepSteihaug=kind('TRStepSteihaug', False, down_full), GradientStep=kind('GradientStep', False, down),
                TRStepReflected=kind('TRStepReflected', True), TRStepTruncated=kind('TRStepTruncated', True, None, True),
                RefinedStep=kind('RefinedStep', True))


class Inputs:
    def __init__(self, n):
        W = World(n)
        self.W, self.n, self.theta, self.made = W, n, W.theta, []
        self.g = vecvar('g', n)
        self.dv = vecvar('dv', n)
        dv = self.dv.v
        sg = W.scaling.me.apply(self.g.v)
        absg = vec.ew('abs', lambda a: abs(a), [self.g.v], finite=True)
        self.absg = absg
        self.expect = dict(x=key(W.x), sg=key(SVec(sg)), hess=key(W.hess), scaling=key(W.scaling),
                           delta=key(W.delta), theta=key(W.theta), ub=key(W.ub), lb=key(W.lb))
        self.keep = [key(v) for v in (W.x, self.g, W.hess, W.scaling, self.dv, W.lb, W.ub)]

    def frame(self):
        W = self.W
        check('the arguments are not modified',
              self.keep == [key(v) for v in (W.x, self.g, W.hess, W.scaling, self.dv, W.lb, W.ub)])


STRATEGIES = ('SINGLE_REFLECT', 'REFLECT', 'TRUNCATE', 'MIXED', 'REFINE')
DIMS = {'TWO': 'TRStep2D', 'FULL': 'TRStepFull', 'STEIHAUG': 'TRStepSteihaug'}


def several(cls, I):
    """the steps returned by a strategy"""
    out = []

    def f(tr_step, x, sg, hess, scaling, g_dscaling, delta, theta, ub, lb):
        v = dict(x=x, sg=sg, hess=hess, scaling=scaling, g_dscaling=g_dscaling, delta=delta, theta=theta, ub=ub, lb=lb)
        for nm, a in v.items():
            check(f'{cls.kind}: argument {nm}', key(a) == I.expect[nm])
        ok = isinstance(tr_step, Fake) and tr_step.calculated
        check(f'{cls.kind}: strategy applied to a calculated step', ok)
        if not ok:
            raise PathEnd()
        check(f'{cls.kind}: strategy applied to a step that hits a bound', tr_step.alpha._cmp_lt(lift(1)))
        r = []
        for _ in range(1 + ctx().choose('number of steps')):
            s = cls.__new__(cls)
            s.calculated, s.base, s.logger = True, tr_step, I.W.logger
            s.set_results()
            I.made.append(s)
            r.append(s)
        return r
    return f


def selection(dim_name, strat_name):
    L = code()
    T = L.mods['trust_region']
    K = L.mods['constants']
    n = dim()
    I = Inputs(n)
    W = I.W
    Fake.world = I
    dv = I.dv.v
    I.expect['g_dscaling'] = key(SSparse(vec.me_diag(vmul(I.absg, dv))))
    cl = classes()
    sub, strat = getattr(K.SubSpaceDim, dim_name), getattr(K.StepBackStrategy, strat_name)
    if ctx().choose('options given as strings'):
        sub, strat = sub.value, strat.value
    names = dict(cl)
    names['stepback_reflect'] = several(cl['TRStepReflected'], I)
    names['stepback_truncate'] = several(cl['TRStepTruncated'], I)
    with patched(T, **names):
        r = T.trust_region(W.x, I.g, W.hess, W.scaling, W.delta, I.dv, W.theta, W.lb, W.ub, subspace_dim=sub,
                           stepback_strategy=strat, logger=W.logger)
    I.frame()
    check('a step is returned', isinstance(r, Fake))
    if not isinstance(r, Fake):
        raise PathEnd()
    check('the returned step is calculated', r.calculated and r in I.made)
    for s in I.made:
        check('every step is calculated', s.calculated)
        check('the returned step has the lowest model value', r.qpval._cmp_le(s.qpval))
    check('the model value of the returned step is not above zero', r.qpval._cmp_le(lift(0)))
    kinds = [s.kind for s in I.made]
    tr = I.made[0]
    check('step of the subspace solver', kinds[0] == DIMS[dim_name])
    hit = band(tr.alpha.val < 1, n.nz > 1)

    def among(name):
        check(f'a step that hits a bound: {name} is a candidate', bimp(hit, any(
            s.kind == name and (s.base is None or s.base is tr) for s in I.made)))
    among('GradientStep')
    if strat_name in ('SINGLE_REFLECT', 'REFLECT', 'MIXED'):
        among('TRStepReflected')
    if strat_name in ('TRUNCATE', 'MIXED'):
        among('TRStepTruncated')
    if strat_name == 'REFINE':
        hit = band(hit, tr.subspace.me.cdom.nz > 1)
        among('RefinedStep')


def mk():
    for d in DIMS:
        for s in STRATEGIES:
            def f(d=d, s=s):
                selection(d, s)
            f.__name__ = f'select_{d}_{s}'.lower()
            f.__module__ = __name__
            task(['C03', 'C01', 'C02', 'C22', 'C11'], ['trust_region.trust_region'],
                 ['a step-back strategy returns one or two steps (the selection is over a list of any length)'])(f)


mk()


# ------------------------------------------------------- step-back strategies
class Chain(LoopContract):
    """the previous step is an arbitrary calculated step; steps that are made are calculated and collected"""
    cut = True

    def lists(self, env):
        return [v for v in env.values() if isinstance(v, list) and v and all(isinstance(s, Fake) for s in v)]

    def inv(self, env, when):
        ls = self.lists(env)
        check(f'{when}: steps are collected', bool(ls))
        for s in Fake.world.made:
            check(f'{when}: every step is calculated', s.calculated)
            check(f'{when}: every step is collected', any(s in v for v in ls))

    def entry(self, env):
        self.inv(env, 'entry')
        out = {}
        for k, v in env.items():
            if isinstance(v, Fake) and v in Fake.world.made:
                s = v.__class__.__new__(v.__class__)
                s.calculated, s.base, s.logger = True, v.base, v.logger
                s.set_results()
                out[k] = s
        return out

    def back(self, env):
        self.inv(env, 'preserved')

    def element(self, seq):
        return ctx().choose('another iteration'), SInt(ctx().fresh('it', 'I'))


def strategy(fname, cname):
    L = code()
    B = L.mods['stepback']
    n = dim()
    I = Inputs(n)
    W = I.W
    I.expect.update(sg=key(W.sg), g_dscaling=key(W.g_dscaling))
    Fake.world = I
    cl = classes()
    L.contracts = {(f'stepback.{fname}', 'While'): Chain, (f'stepback.{fname}', 'For'): Chain}
    tr = cl['TRStep2D'].__new__(cl['TRStep2D'])
    tr.calculated, tr.base, tr.logger = True, None, W.logger
    tr.set_results()
    assume(tr.alpha.val < 1)
    f = getattr(B, fname)
    with patched(B, TRStepReflected=cl['TRStepReflected'], TRStepTruncated=cl['TRStepTruncated']):
        r = f(tr, *W.args())
    W.frame()
    check('a list of steps', isinstance(r, list) and len(r) > 0)
    for s in (r if isinstance(r, list) else []):
        check('the steps are calculated', isinstance(s, Fake) and s.kind == cname and s.calculated)
    check('the first step is derived from the trust-region step',
          isinstance(r, list) and bool(r) and r[0].base is tr)
    for s in I.made:
        check('every step is returned', s in r)


@task(['C03', 'C01', 'C02'], ['stepback.stepback_reflect'])
def strategy_reflect():
    strategy('stepback_reflect', 'TRStepReflected')


@task(['C03', 'C01', 'C02'], ['stepback.stepback_truncate'])
def strategy_truncate():
    strategy('stepback_truncate', 'TRStepTruncated')
