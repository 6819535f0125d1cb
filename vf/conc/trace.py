"""Runs of the real fides optimizer with every evaluation, proposed step and optimizer state recorded."""
import contextlib
import logging
import sys
import time as _time
import warnings

import numpy as np

import fides
import fides.minimize as fmin
import fides.steps as fsteps

warnings.filterwarnings('ignore')
np.seterr(all='ignore')
logging.disable(logging.CRITICAL)

FIELDS = ('x', 'fval', 'grad', 'hess', 'delta', 'delta_iter', 'x_min', 'fval_min', 'grad_min', 'iteration',
          'tr_ratio', 'converged', 'exitflag', 'iterations_since_tr_update', 'n_intermediate_tr_radius')


def cp(v):
    return v.copy() if isinstance(v, np.ndarray) else v


class Snap:
    def __init__(self, opt):
        for f in FIELDS:
            setattr(self, f, cp(getattr(opt, f, None)))
        hu = getattr(opt, 'hessian_update', None)
        self.hu_mat = None
        if hu is not None:
            try:
                self.hu_mat = hu.get_mat()
                self.hu_diff = hu.get_diff()
            except Exception:
                self.hu_mat = None


class Eval:
    pass


class Clock:
    """a clock that only the case advances"""

    def __init__(self, dt=0.0):
        self.t = 1000.0
        self.dt = dt

    def time(self):
        return self.t

    def tick(self):
        self.t += self.dt


class Trace:
    """one call of minimize()"""

    def __init__(self, opt):
        self.opt = opt
        self.evals = []
        self.steps = []        # per trust_region call: dict(args, step, candidates)
        self.result = None
        self.error = None
        self.external = False  # raised inside a library
        self.tr_calls = 0      # steps asked for, including those that raised
        self.final = None

    def states(self):
        """state before iteration 1, 2, ..., and after the last"""
        return [e.snap for e in self.evals[1:]] + ([self.final] if self.final else [])


class Recorder:
    """callable objective; the optimizer under observation is set after construction"""

    def __init__(self, fun, clock=None):
        self.fun = fun
        self.trace = None
        self.clock = clock
        self.calls = 0

    def __call__(self, x, **kw):
        e = Eval()
        e.x = np.array(x, copy=True)
        e.kw = dict(kw)
        e.snap = Snap(self.trace.opt) if self.trace is not None else None
        e.t = self.clock.time() if self.clock else None
        e.ret = None
        e.err = None
        if self.trace is not None:
            self.trace.evals.append(e)
        self.calls += 1
        if self.clock:
            self.clock.tick()
        try:
            ret = self.fun(x, **kw)
        except Exception as ex:
            e.err = ex
            raise
        e.raw = ret
        e.ret = tuple(cp(np.asarray(r, dtype=float)) if isinstance(r, np.ndarray) else r for r in ret) \
            if isinstance(ret, tuple) else ret
        return ret


@contextlib.contextmanager
def patched(trace, clock=None):
    """record trust_region calls and the Step objects they create"""
    saved = []
    cur = {'cands': None}

    def put(obj, name, new):
        saved.append((obj, name, obj.__dict__[name]))
        setattr(obj, name, new)

    real_tr = fmin.__dict__.get('trust_region')
    if real_tr is not None:
        def tr(*a, **k):
            trace.tr_calls += 1
            cur['cands'] = []
            rec = {'args': (a, k), 'cands': cur['cands'], 'before': Snap(trace.opt)}
            rec['in'] = bind_tr(real_tr, a, k)
            step = real_tr(*a, **k)
            rec['step'] = step
            rec['ss'] = np.array(step.ss, dtype=float)
            rec['ss0'] = np.array(step.ss0, dtype=float)
            rec['s'] = np.array(step.s, dtype=float)
            rec['s0'] = np.array(step.s0, dtype=float)
            rec['qpval'] = float(np.squeeze(step.qpval))
            trace.steps.append(rec)
            cur['cands'] = None
            return step
        put(fmin, 'trust_region', tr)
    base = fsteps.__dict__.get('Step')
    if base is not None and '__init__' in base.__dict__:
        real_init = base.__dict__['__init__']

        def init(self, *a, **k):
            real_init(self, *a, **k)
            if cur['cands'] is not None:
                cur['cands'].append(self)
        put(base, '__init__', init)
    if clock is not None:
        put(_time, 'time', clock.time)
    try:
        yield
    finally:
        for obj, name, old in reversed(saved):
            setattr(obj, name, old)


TRARGS = ('x', 'g', 'hess', 'scaling', 'delta', 'dv', 'theta', 'lb', 'ub', 'subspace_dim', 'stepback_strategy',
          'logger')


def bind_tr(f, a, k):
    import inspect
    try:
        b = inspect.signature(f).bind(*a, **k).arguments
    except TypeError:
        b = {}
    return {n: cp(v) for n, v in b.items()}


def run(opt, rec, x0, clock=None, **kw):
    tr = Trace(opt)
    rec.trace = tr
    tr.x0 = np.array(x0, copy=True)
    with patched(tr, clock):
        try:
            tr.result = opt.minimize(x0, **kw)
        except Exception as ex:
            tr.error = ex
            tb = ex.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            tr.external = 'scipy' in tb.tb_frame.f_code.co_filename.split('/') or 'asarray_chkfinite' == \
                tb.tb_frame.f_code.co_name
    tr.final = Snap(opt)
    rec.trace = None
    return tr
