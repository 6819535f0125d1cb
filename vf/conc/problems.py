"""Random problems for runs of the real code.  Everything is a function of the generator."""
import numpy as np
import fides
from fides import Options, SubSpaceDim, StepBackStrategy

from .trace import Recorder, Clock, run


def sym(rng, n, kind=None):
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    kind = kind or rng.choice(['pd', 'indef', 'mixed', 'diag', 'sing', 'rep', 'near'])
    if kind == 'pd':
        e = 10 ** rng.uniform(-2, 2, n)
    elif kind == 'indef':
        e = rng.normal(size=n) * 10 ** rng.uniform(-1, 1)
    elif kind == 'diag':
        return np.diag(rng.choice([-2., -1., 0., 1., 3., 5.], n))
    elif kind == 'sing':
        e = rng.choice([0., 1., 2.], n)
    elif kind == 'rep':
        e = rng.choice([-1., 1., 4.], n)
    elif kind == 'near':
        e = np.r_[rng.normal(), 10 ** rng.uniform(-9, 0, n - 1)] if n > 1 else rng.normal(size=1)
    else:
        e = rng.normal(size=n)
    m = (q * e) @ q.T
    return 0.5 * (m + m.T)


def skew(rng, B, p=.15):
    """sometimes: an antisymmetric part is added (the model does not change)"""
    if rng.random() >= p:
        return B
    a = rng.normal(size=B.shape) * (np.abs(B).max() if B.size else 0)
    return B + .5 * (a - a.T)


def objective(rng, n, kind=None):
    """(name, fun(x) -> f, g, H)"""
    kind = kind or rng.choice(['quad', 'indef', 'rosen', 'quartic', 'cos', 'linear', 'lse', 'flat'],
                              p=[.2, .15, .2, .15, .1, .05, .1, .05])
    if kind == 'quad':
        B, b = sym(rng, n, 'pd'), rng.normal(size=n)
        return kind, lambda x: (0.5 * x @ B @ x + b @ x, B @ x + b, B.copy())
    if kind == 'indef':
        B, b = sym(rng, n, 'indef'), rng.normal(size=n)

        def f(x):
            r = x @ x
            return 0.5 * x @ B @ x + b @ x + 0.01 * r * r, B @ x + b + 0.04 * r * x, \
                B + 0.04 * r * np.eye(n) + 0.08 * np.outer(x, x)
        return kind, f
    if kind == 'rosen':
        c = 10 ** rng.uniform(0, 2)

        def f(x):
            if n == 1:
                return (1 - x[0]) ** 4, np.array([-4 * (1 - x[0]) ** 3]), np.array([[12 * (1 - x[0]) ** 2]])
            v, g, H = 0., np.zeros(n), np.zeros((n, n))
            for i in range(n - 1):
                a, d = x[i + 1] - x[i] ** 2, 1 - x[i]
                v += c * a * a + d * d
                g[i] += -4 * c * a * x[i] - 2 * d
                g[i + 1] += 2 * c * a
                H[i, i] += -4 * c * (x[i + 1] - 3 * x[i] ** 2) + 2
                H[i + 1, i + 1] += 2 * c
                H[i, i + 1] += -4 * c * x[i]
                H[i + 1, i] += -4 * c * x[i]
            return v, g, H
        return kind, f
    if kind == 'quartic':
        c = rng.normal(size=n)
        return kind, lambda x: (np.sum((x - c) ** 4) - np.sum((x - c) ** 2),
                                4 * (x - c) ** 3 - 2 * (x - c), np.diag(12 * (x - c) ** 2 - 2))
    if kind == 'cos':
        w = rng.uniform(0.5, 2, n)
        c = rng.normal(size=n)
        return kind, lambda x: (np.sum(np.cos(w * x + c)) + 0.05 * x @ x, -w * np.sin(w * x + c) + 0.1 * x,
                                np.diag(-w * w * np.cos(w * x + c) + 0.1))
    if kind == 'linear':
        b = rng.normal(size=n)
        return kind, lambda x: (b @ x, b.copy(), np.zeros((n, n)))
    if kind == 'lse':
        A = rng.normal(size=(n + 1, n))
        b = rng.normal(size=n)

        def f(x):
            z = A @ x
            m = z.max()
            e = np.exp(z - m)
            p = e / e.sum()
            return m + np.log(e.sum()) + 0.1 * x @ x + 0.1 * b @ x, A.T @ p + 0.2 * x + 0.1 * b, \
                (A.T * p) @ A - np.outer(A.T @ p, A.T @ p) + 0.2 * np.eye(n)
        return kind, f
    b = rng.normal(size=n)
    return 'flat', lambda x: (np.sum((x - b) ** 2) ** 2 * 1e-3, 4e-3 * np.sum((x - b) ** 2) * (x - b),
                              4e-3 * np.sum((x - b) ** 2) * np.eye(n) + 8e-3 * np.outer(x - b, x - b))


def residual(rng, n, kind=None):
    m = int(rng.integers(n, n + 4))
    kind = kind or rng.choice(['lin', 'exp', 'zero'])
    A, b = rng.normal(size=(m, n)), rng.normal(size=m)
    xs = rng.normal(size=n) * .5
    if kind == 'lin':
        return kind, lambda x: (A @ x - b, A.copy())
    if kind == 'zero':
        def f(x):
            z = A @ (x - xs)
            return z + 0.1 * z ** 2, A * (1 + 0.2 * z)[:, None]
        return kind, f

    def f(x):
        z = np.tanh(A @ x)
        return z + 0.1 * A @ x - b, A * (1.1 - z * z)[:, None]
    return kind, f


def bounds(rng, n, kind=None):
    kind = kind or rng.choice(['none', 'box', 'tight', 'part', 'big'], p=[.15, .35, .2, .25, .05])
    if kind == 'none':
        return np.full(n, -np.inf), np.full(n, np.inf)
    w = {'box': 10 ** rng.uniform(-.5, 1), 'tight': 10 ** rng.uniform(-2, -.3), 'part': 2., 'big': 1e3}[kind]
    c = rng.normal(size=n) * (0.5 if kind != 'big' else 100)
    lb, ub = c - w * rng.uniform(.2, 1, n), c + w * rng.uniform(.2, 1, n)
    if kind == 'part':
        lb[rng.random(n) < .5] = -np.inf
        ub[rng.random(n) < .5] = np.inf
    return lb, ub


def start(rng, lb, ub, onb=None):
    n = len(lb)
    lo, hi = np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub - 3, -2.)), \
        np.where(np.isfinite(ub), ub, np.where(np.isfinite(lb), lb + 3, 2.))
    x = lo + (hi - lo) * rng.random(n)
    u = rng.random()
    if onb or (onb is None and u < .25):
        for i in range(n):
            if rng.random() < .5:
                x[i] = lb[i] if np.isfinite(lb[i]) else ub[i] if np.isfinite(ub[i]) else x[i]
            elif rng.random() < .5:
                x[i] = ub[i] if np.isfinite(ub[i]) else x[i]
    return np.clip(x, lb, ub)


SUBS = [SubSpaceDim.TWO, SubSpaceDim.FULL, SubSpaceDim.STEIHAUG]
STRATS = [StepBackStrategy.SINGLE_REFLECT, StepBackStrategy.REFLECT, StepBackStrategy.TRUNCATE,
          StepBackStrategy.MIXED, StepBackStrategy.REFINE]


def options(rng, refine=True):
    sub = SUBS[rng.integers(3)]
    st = STRATS[rng.integers(5 if refine and rng.random() < .3 else 4)]
    if sub is SubSpaceDim.STEIHAUG and st is StepBackStrategy.REFINE:
        st = StepBackStrategy.MIXED
    o = {Options.SUBSPACE_DIM: sub, Options.STEPBACK_STRAT: st, Options.MAXITER: int(rng.integers(1, 25))}
    if rng.random() < .3:
        o[Options.THETA_MAX] = float(rng.uniform(.5, .999))
    if rng.random() < .3:
        o[Options.DELTA_INIT] = float(10 ** rng.uniform(-2, 2))
    if rng.random() < .3:
        mu = float(rng.uniform(.05, .5))
        o[Options.MU] = mu
        o[Options.ETA] = float(rng.uniform(mu + .1, .95))
    if rng.random() < .3:
        o[Options.GAMMA1] = float(rng.uniform(.1, .9))
        o[Options.GAMMA2] = float(rng.uniform(1.1, 4))
    if rng.random() < .5:
        o[Options.FATOL] = 0.
        o[Options.FRTOL] = 0.
    elif rng.random() < .3:
        o[Options.FRTOL] = float(10 ** rng.uniform(-6, -1))
    if rng.random() < .3:
        o[Options.XTOL] = float(10 ** rng.uniform(-6, -1))
    if rng.random() < .3:
        o[Options.GATOL] = float(10 ** rng.uniform(-8, 0))
    if rng.random() < .2:
        o[Options.GRTOL] = float(10 ** rng.uniform(-6, -1))
    return o


def approx(rng, res):
    """(factory, needs): needs in 'fg', 'fgh', 'res'"""
    f = fides
    if res:
        phi = float(rng.uniform(0, 1))
        return [(lambda: f.FX(f.BFGS()), 'FX'), (lambda: f.SSM(phi), 'SSM'), (lambda: f.TSSM(phi), 'TSSM'),
                (lambda: f.GNSBFGS(), 'GNSBFGS'), (lambda: f.FX(f.SR1(), 0.5), 'FX-SR1')][rng.integers(5)]
    return [(lambda: None, 'none'), (lambda: f.BFGS(), 'BFGS'), (lambda: f.DFP(), 'DFP'), (lambda: f.SR1(), 'SR1'),
            (lambda: f.BG(), 'BG'), (lambda: f.BB(), 'BB'), (lambda: f.Broyden(float(0.5)), 'Broyden'),
            (lambda: f.HybridFixed(f.BFGS(), 2), 'HybridFixed'), (lambda: f.HybridFraction(f.SR1(), 0.1), 'HybridFraction')
            ][rng.integers(9) if rng.random() < .6 else 0]


def poison(rng, fun, p):
    """non-finite objective values in random regions"""
    a = rng.normal(size=16)
    thr = rng.uniform(-.5, 1.5)
    kind = rng.choice(['nan', 'inf', '-inf'])
    first = [True]

    def f(x):
        ret = fun(x)
        if first[0]:
            first[0] = False
            return ret
        if len(ret) == 3 and np.sin(7 * (a[:len(x)] @ x)) > thr:
            return (float(kind), *ret[1:])
        return ret
    f.reset = lambda: first.__setitem__(0, True)
    return f


class Problem:
    """a random optimization problem; build() gives a fresh optimizer"""

    def __init__(self, rng, n=None, res=None, hess=None, nonfinite=.15, refine=True, opts=None, fun=None, bk=None,
                 verbose=40):
        self.n = n or int(rng.integers(1, 6))
        self.res = rng.random() < .2 if res is None else res
        self.poison = rng.random() < nonfinite and not self.res
        if self.res:
            self.kind, self.fun = residual(rng, self.n)
        else:
            self.kind, self.fun = objective(rng, self.n, fun)
        self.lb, self.ub = bounds(rng, self.n, bk)
        self.x0 = start(rng, self.lb, self.ub)
        self.opts = options(rng, refine)
        if opts:
            self.opts.update(opts)
        self.hu, self.huname = approx(rng, self.res)
        if hess:
            self.hu, self.huname = (lambda: None), 'none'
            if self.res:
                self.res = False
                self.kind, self.fun = objective(rng, self.n)
        self.dt = 0.
        self.clock = Clock()
        self.pseed = int(rng.integers(1 << 30))
        self.verbose = verbose
        self.hess0 = None
        if not self.res and self.huname not in ('none',) and rng.random() < .3:
            self.hess0 = sym(rng, self.n, 'pd')

    def raw(self):
        f = self.fun
        if self.poison:
            f = poison(np.random.default_rng(self.pseed), f, .2)
        if self.res:
            return f
        if self.huname in ('none', 'HybridFixed', 'HybridFraction'):
            return f
        return lambda x: f(x)[:2]

    def build(self, **kw):
        self.hobj = self.hu()
        rec = Recorder(self.raw(), self.clock)
        opt = fides.Optimizer(rec, self.ub.copy(), self.lb.copy(), verbose=self.verbose, options=dict(self.opts),
                              hessian_update=self.hobj, resfun=self.res, **kw)
        return opt, rec

    def run(self):
        opt, rec = self.build()
        kw = {} if self.hess0 is None else {'hess0': self.hess0}
        return run(opt, rec, self.x0.copy(), self.clock, **kw)

    def fgh(self, e):
        """f, g, H of an evaluation as the optimizer is to see them"""
        r = e.ret
        if self.res:
            res, J = r
            return 0.5 * res @ res, res @ J, J.T @ J
        return r[0], r[1], (r[2] if len(r) == 3 else None)

    def __str__(self):
        o = {k.value: (v.value if hasattr(v, 'value') else v) for k, v in self.opts.items()}
        return f'{self.kind} n={self.n} approx={self.huname} options={o} lb={self.lb.tolist()} ub={self.ub.tolist()} ' \
               f'x0={self.x0.tolist()}'
