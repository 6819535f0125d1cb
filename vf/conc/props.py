"""Executable contracts: each case runs real fides code on one generated input and compares it with the property.

A case is a function of a random generator; it returns None or a text describing what failed."""
import copy
import math
import os
import shutil
import tempfile

import numpy as np

import fides
import fides.minimize as fmin
import fides.steps as fsteps
import fides.subproblem as fsub
import fides.hessian_approximation as fha
from fides import ExitFlag, Options, StepBackStrategy, SubSpaceDim
from fides.constants import DEFAULT_OPTIONS

from . import problems as P
from .trace import Clock, Recorder, Snap, run

TOL = 1.5e-8
EPS = np.spacing(1.)
SHIFT = 2.3e-14
CASES = {}


def case(prop, weight=1.0):
    def deco(f):
        CASES.setdefault(prop, []).append((f.__name__, weight, f))
        return f
    return deco


def scale(*vs):
    return 1 + max([np.max(np.abs(np.where(np.isfinite(v), v, 0)), initial=0) for v in map(np.asarray, vs)])


def eq(a, b):
    """same array, bit for bit (nan equal)"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def opt_of(p, o):
    v = p.opts.get(o)
    return DEFAULT_OPTIONS[o] if v is None else v


def expected_error(t):
    """errors of the run that the properties allow (non-finite input)"""
    return isinstance(t.error, RuntimeError)


def finite_eval(p, e):
    f, g, H = p.fgh(e)
    return np.isfinite(f) and np.all(np.isfinite(g)) and (H is None or np.all(np.isfinite(H)))


# ------------------------------------------------------------------ C01
@case('C01', 6)
def eval_in_bounds(rng):
    p = P.Problem(rng, bk=rng.choice(['box', 'tight', 'part', 'big']))
    t = p.run()
    for k, e in enumerate(t.evals):
        if e.x.shape != (p.n,) or not np.all(np.isfinite(e.x)):
            return f'evaluation {k} at {e.x}: {p}'
        if np.any(e.x < p.lb) or np.any(e.x > p.ub):
            return f'evaluation {k} outside the bounds at {e.x.tolist()}: {p}'
    if t.error is not None and not finite_last(p, t):
        return None
    if t.error is not None:
        return f'run failed with {t.error!r}: {p}'
    for nm, x in (('iterate', t.result[1]), ('minimizer', t.opt.x_min)):
        if np.any(~(x >= p.lb)) or np.any(~(x <= p.ub)):
            return f'returned {nm} outside the bounds {x.tolist()}: {p}'
    for k, s in enumerate(t.steps):
        x = s['before'].x
        if k + 1 < len(t.evals):
            xe = t.evals[k + 1].x
            new = x + s['s'] + s['s0']
            tol = 1e-9 * scale(x, s['s'], s['s0'])
            if not np.all(np.abs(new - xe) <= tol):
                return f'evaluated {xe.tolist()} is not iterate + step {new.tolist()}: {p}'
            if np.any(~(new >= p.lb - tol)) or np.any(~(new <= p.ub + tol)):
                return f'step leaves the bounds: {new.tolist()}: {p}'
    return None


def finite_last(p, t):
    """the last evaluation (if any) was finite, so an error has another cause"""
    e = t.evals[-1] if t.evals else None
    if t.external:
        return False
    if e is None or e.err is not None:
        return False
    return finite_eval(p, e) and np.all(np.isfinite(t.final.hess))


@case('C01', 1)
def start_outside(rng):
    n = int(rng.integers(1, 5))
    lb, ub = P.bounds(rng, n, 'box')
    x0 = P.start(rng, lb, ub)
    i = rng.integers(n)
    d = 10 ** rng.uniform(-6, 1)
    x0[i] = ub[i] + d if rng.random() < .5 else lb[i] - d
    name, f = P.objective(rng, n)
    rec = Recorder(f)
    opt = fides.Optimizer(rec, ub, lb, verbose=40)
    t = run(opt, rec, x0)
    if rec.calls:
        return f'objective evaluated although x0={x0.tolist()} is outside [{lb.tolist()},{ub.tolist()}]'
    if not isinstance(t.error, (RuntimeError, ValueError)):
        return f'start {x0.tolist()} outside [{lb.tolist()},{ub.tolist()}] not rejected ({t.error!r})'
    if not np.all(np.isfinite(lb)):
        return None


# ----------------------------------------------------- single step problems
class StepCase:
    """a direct call of trust_region on random data"""

    def __init__(self, rng, n=None, sub=None, strat=None, free=False, refine=.15, zero_grad=.05,
                 skew=.15, far=False):
        self.n = n = n or int(rng.integers(1, 6))
        self.H = P.skew(rng, P.sym(rng, n) * 10 ** rng.uniform(-1, 1), skew)
        self.g = rng.normal(size=n) * 10 ** rng.uniform(-3, 1)
        if rng.random() < .15:
            self.g[rng.random(n) < .5] = 0
        if rng.random() < zero_grad:
            self.g[:] = 0
        self.lb, self.ub = (np.full(n, -np.inf), np.full(n, np.inf)) if free else \
            P.bounds(rng, n, rng.choice(['box', 'tight', 'part', 'none'], p=[.4, .4, .15, .05]))
        if far:
            # bounds of large magnitude, where the shift off the bounds is lost in rounding
            sh = np.round(rng.normal(size=n) * 10 ** rng.uniform(2.5, 5))
            self.lb, self.ub = self.lb + sh, self.ub + sh
        self.x = P.start(rng, self.lb, self.ub, onb=far or rng.random() < .2)
        eps = 1e2 * EPS
        self.x = np.where(self.ub - self.x < eps, self.x - eps, self.x)
        self.x = np.where(self.x - self.lb < eps, self.x + eps, self.x)
        self.delta = float(10 ** rng.uniform(-2, 1))
        b = np.where(self.g < 0, self.ub, self.lb)
        self.v = np.where(np.isfinite(b), self.x - np.where(np.isfinite(b), b, 0), np.where(self.g < 0, -1., 1.))
        self.dv = np.isfinite(b) * 1.
        self.theta = float(rng.choice([.95, .9, .99, .5, 1.]))
        self.sub = sub or P.SUBS[rng.integers(3)]
        self.strat = strat or P.STRATS[rng.integers(5) if rng.random() < refine else rng.integers(4)]
        if self.sub is SubSpaceDim.STEIHAUG and self.strat is StepBackStrategy.REFINE:
            self.strat = StepBackStrategy.MIXED
        self.S = np.sqrt(np.abs(self.v))
        self.sg = self.S * self.g
        self.B = self.S[:, None] * self.H * self.S + np.diag(np.abs(self.g) * self.dv)
        self.Bs = .5 * (self.B + self.B.T)

    def __str__(self):
        return f'trust_region(x={self.x.tolist()}, g={self.g.tolist()}, H={self.H.tolist()}, delta={self.delta}, ' \
               f'theta={self.theta}, lb={self.lb.tolist()}, ub={self.ub.tolist()}, {self.sub}, {self.strat})'

    def call(self):
        from scipy.sparse import csc_matrix
        import logging
        cands = []
        base = fsteps.__dict__.get('Step')
        real = base.__dict__['__init__'] if base is not None else None
        if real is not None:
            def init(s, *a, **k):
                real(s, *a, **k)
                cands.append(s)
            base.__init__ = init
        try:
            step = fmin.trust_region(self.x.copy(), self.g.copy(), self.H.copy(),
                                     csc_matrix(np.diag(self.S)), self.delta, self.dv.copy(), self.theta,
                                     self.lb.copy(), self.ub.copy(), subspace_dim=self.sub,
                                     stepback_strategy=self.strat, logger=logging.getLogger('vf'))
        finally:
            if real is not None:
                base.__init__ = real
        return step, [c for c in cands if c.ss is not None and c.s is not None]

    def q(self, v):
        return 0.5 * v @ self.B @ v + self.sg @ v

    def qmag(self, v):
        """magnitude of the terms of q (for rounding tolerances)"""
        return 1e-300 + np.abs(v) @ np.abs(self.B) @ np.abs(v) + np.abs(self.sg) @ np.abs(v)


def step_case(rng, **kw):
    return StepCase(rng, **kw)


@case('C01', 6)
def steps_in_bounds(rng):
    c = step_case(rng)
    step, cands = c.call()
    for s in cands + [step]:
        d = np.asarray(s.s, float) + np.asarray(s.s0, float)
        if not np.all(np.isfinite(d)):
            return f'candidate {s.type} is not finite: {d}: {c}'
        tol = 1e-9 * scale(c.x, d)
        if np.any(c.x + d < c.lb - tol) or np.any(c.x + d > c.ub + tol):
            return f'candidate {s.type} leaves the bounds: {(c.x + d).tolist()}: {c}'


@case('C02', 4)
def radius(rng):
    c = step_case(rng)
    step, cands = c.call()
    for s in cands + [step]:
        nr = np.linalg.norm(s.ss + s.ss0)
        if not nr <= c.delta * (1 + 1e-9) + TOL:
            return f'candidate {s.type} has scaled length {nr} > delta {c.delta}: {c}'


@case('C02', 1)
def radius_run(rng):
    p = P.Problem(rng)
    t = p.run()
    for s in t.steps:
        d = s['before'].delta_iter
        nr = np.linalg.norm(s['ss'] + s['ss0'])
        if not nr <= d * (1 + 1e-9) + TOL:
            return f'step has scaled length {nr} > delta {d} in iteration {s["before"].iteration}: {p}'


# ------------------------------------------------------------------ C03
def stepback_ref(c, s, x=None):
    """fraction of the step s from x that step-back keeps"""
    x = c.x if x is None else x
    with np.errstate(all='ignore'):
        br = np.where(s > 0, (c.ub - x) / s, np.where(s < 0, (c.lb - x) / s, np.inf))
    return min(1., c.theta * np.min(br))


def grad_ref(c):
    """model value of the scaled-gradient step after step-back"""
    ns = np.linalg.norm(c.sg)
    if ns == 0:
        return 0.
    d = c.sg / ns
    a, b = d @ c.B @ d, d @ c.sg
    ts = [-c.delta, c.delta]
    if a > 0 and abs(b / a) <= c.delta:
        ts = [-b / a]
    tau = min(ts, key=lambda t: .5 * a * t * t + b * t)
    st = tau * d
    return c.q(stepback_ref(c, c.S * st) * st)


def best_in_line(c, z, d, b0=None):
    """best step length along d from z within the radius (reference)"""
    a2, b2, c2 = d @ d, 2 * z @ d, z @ z - c.delta ** 2
    if a2 == 0:
        return 0.
    disc = max(b2 * b2 - 4 * a2 * c2, 0)
    lo, hi = (-b2 - math.sqrt(disc)) / (2 * a2), (-b2 + math.sqrt(disc)) / (2 * a2)
    a, b = d @ c.B @ d, d @ (c.Bs @ z + c.sg)
    if a > 0 and lo <= -b / a <= hi:
        return -b / a
    return min((lo, hi), key=lambda t: .5 * a * t * t + b * t)


@case('C03', 4)
def predicted(rng):
    c = step_case(rng)
    step, cands = c.call()
    qs = []
    for s in cands + [step]:
        ss, ss0, st, s0 = (np.asarray(v, float) for v in (s.ss, s.ss0, s.s, s.s0))
        tot = ss + ss0
        mag = c.qmag(tot) + c.qmag(ss) + c.qmag(ss0)
        if not abs(s.qpval - c.q(tot)) <= 1e-8 * mag:
            return f'candidate {s.type} reports model value {s.qpval}, its step has {c.q(tot)}: {c}'
        tol = 1e-9 * scale(st, s0)
        if not np.all(np.abs(c.S * tot - (st + s0)) <= tol):
            return f'candidate {s.type}: s={st + s0} is not the scaled-back step {c.S * tot}: {c}'
        qs.append(float(np.squeeze(s.qpval)))
    mag = c.qmag(step.ss + step.ss0)
    if not step.qpval <= 1e-9 * mag + 1e-14:
        return f'model value {step.qpval} of the returned step is positive: {c}'
    if qs and not step.qpval <= min(qs) + 1e-12 * mag:
        return f'returned step has model value {step.qpval}, a candidate has {min(qs)}: {c}'


@case('C03', 2)
def refined_at_bounds(rng):
    """refined steps from points that lie exactly on their bounds"""
    c = step_case(rng, n=int(rng.integers(2, 5)), sub=P.SUBS[rng.integers(2)], strat=StepBackStrategy.REFINE, far=True)
    step, cands = c.call()
    for s in cands + [step]:
        tot = np.asarray(s.ss, float) + np.asarray(s.ss0, float)
        if not np.all(np.isfinite(tot)):
            return f'candidate {s.type} is not finite: {c}'
        if not np.linalg.norm(tot) <= c.delta * (1 + 1e-6):
            return f'candidate {s.type} is longer than the radius: {c}'
        if not abs(s.qpval - c.q(tot)) <= 1e-8 * c.qmag(tot):
            return f'candidate {s.type} reports model value {s.qpval}, its step has {c.q(tot)}: {c}'
    if not step.qpval <= 1e-9 * c.qmag(step.ss + step.ss0) + 1e-14:
        return f'model value {step.qpval} of the returned step is positive: {c}'


@case('C03', 4)
def best_of_candidates(rng):
    """the returned step is at least as good as the scaled-gradient step and one reflection, if the step was cut"""
    c = step_case(rng, n=int(rng.integers(2, 5)), zero_grad=0)
    step, cands = c.call()
    if not cands:
        return None
    tr = cands[0]
    og = tr.og_ss if getattr(tr, 'og_ss', None) is not None else None
    if og is None or tr.alpha >= 1 or not np.any(c.sg):
        return None
    mag = c.qmag(step.ss + step.ss0) + c.qmag(og)
    ref = grad_ref(c)
    if not step.qpval <= ref + 1e-8 * mag:
        return f'step hit the bounds but the scaled-gradient step is better ({step.qpval} > {ref}): {c}'
    refined = getattr(fsteps, 'RefinedStep', None)
    if c.strat is StepBackStrategy.REFINE and refined is not None and tr.subspace.shape[1] > 1:
        if not any(isinstance(s, refined) for s in cands):
            return f'step hit the bounds but no refined step was calculated: {c}'
    br = np.asarray(tr.br)
    i = np.flatnonzero(br == br.min())
    if c.strat in (StepBackStrategy.SINGLE_REFLECT, StepBackStrategy.REFLECT, StepBackStrategy.MIXED):
        r, q0 = reflect_ref(c, og, br)
        best = q0
        if c.strat is not StepBackStrategy.SINGLE_REFLECT:
            for _ in range(c.n - 2):
                if r is None:
                    break
                r, q0 = reflect_ref(c, *r)
                best = min(best, q0)
        if not step.qpval <= best + 1e-6 * mag:
            return f'a reflected step is better than the returned one ({step.qpval} > {best}): {c}'
    if c.strat in (StepBackStrategy.TRUNCATE, StepBackStrategy.MIXED):
        z = np.zeros(c.n)
        z[i] = c.theta * br[i] * og[i]
        sub = tr.subspace.copy()
        sub[i, :] = 0
        if np.linalg.matrix_rank(sub) == 1:
            d = sub[:, np.argmax(np.linalg.norm(sub, axis=0))]
            d = d / np.linalg.norm(d)
            if np.linalg.norm(d) > 1e-8 and np.linalg.norm(sub) > 1e-3:
                st = best_in_line(c, z, d) * d
                al = stepback_ref(c, c.S * st, c.x + c.S * z)
                v = c.q(z + al * st)
                if abs(c.q(z - st) - c.q(z + st)) <= 1e-6 * mag:  # both directions minimize the model
                    v = max(v, c.q(z - stepback_ref(c, -c.S * st, c.x + c.S * z) * st))
                if not step.qpval <= v + 1e-6 * mag:
                    return f'the truncated step is better than the returned one ({step.qpval} > {v}): {c}'


def reflect_ref(c, og, br, z=None):
    """one reflection of the scaled step og (from z) at its first breakpoint"""
    z = np.zeros(c.n) if z is None else z
    i = np.flatnonzero(br == br.min())
    z2 = z + min(br.min(), 1) * og
    d = og.copy()
    d[i] *= -1
    nd = np.linalg.norm(d)
    if nd == 0:
        return None, np.inf
    d = d / nd
    st = best_in_line(c, z2, d) * d
    s = c.S * st
    x = c.x + c.S * z2
    al = stepback_ref(c, s, x)
    with np.errstate(all='ignore'):
        b2 = np.where(s > 0, (c.ub - x) / s, np.where(s < 0, (c.lb - x) / s, np.inf))
    qv = c.q(z2 + al * st)
    if al >= 1 or not np.isfinite(b2.min()):
        return None, qv
    return (st, b2, z2), qv


@case('C03', 1)
def predicted_run(rng):
    p = P.Problem(rng)
    t = p.run()
    for k, s in enumerate(t.steps):
        b = s['before']
        bd = np.where(b.grad < 0, p.ub, p.lb)
        fin = np.isfinite(bd)
        S = np.sqrt(np.abs(np.where(fin, b.x - np.where(fin, bd, 0), 1.)))
        H = b.hess
        B = S[:, None] * H * S + np.diag(np.abs(b.grad) * fin)
        v = s['ss'] + s['ss0']
        qv = .5 * v @ B @ v + (S * b.grad) @ v
        mag = np.abs(v) @ np.abs(B) @ np.abs(v) + np.abs(S * b.grad) @ np.abs(v) + \
            np.abs(s['ss0']) @ np.abs(B) @ np.abs(s['ss0'])
        if not abs(qv - s['qpval']) <= 1e-7 * mag + 1e-14:
            return f'iteration {b.iteration}: model value {s["qpval"]} but the step has {qv}: {p}'
        if not s['qpval'] <= 1e-9 * mag + 1e-13:
            return f'iteration {b.iteration}: positive model value {s["qpval"]}: {p}'
        if not np.all(np.abs(S * v - s['s'] - s['s0']) <= 1e-9 * scale(s['s'], s['s0'])):
            return f'iteration {b.iteration}: step is not the scaled-back step: {p}'


# --------------------------------------------------------------- C04 - C08
def pairs(t):
    """(k, state before iteration k, evaluation of iteration k, state after, step record)"""
    st = t.states()
    for k in range(1, len(t.evals)):
        if k < len(st):
            yield k, st[k - 1], t.evals[k], st[k], (t.steps[k - 1] if k <= len(t.steps) else None)


@case('C04', 1)
def acceptance(rng):
    p = P.Problem(rng)
    t = p.run()
    aborted = t.error is not None
    for k, a, e, b, s in pairs(t):
        f, g, H = p.fgh(e)
        last = aborted and k == len(t.evals) - 1
        same = eq(a.x, b.x) and eq(a.fval, b.fval) and eq(a.grad, b.grad) and eq(a.hess, b.hess)
        if same:
            continue
        if last:
            return f'iteration {k} failed but changed the iterate: {p}'
        if not np.isfinite(f):
            return f'iteration {k}: trial value {f} was accepted: {p}'
        if not f < a.fval:
            return f'iteration {k}: accepted although {f} is not below {a.fval}: {p}'
        if s is not None and not s['qpval'] < 0:
            return f'iteration {k}: accepted although the model predicts {s["qpval"]}: {p}'
        if not (np.all(np.abs(b.x - e.x) <= SHIFT + 4 * np.spacing(np.abs(e.x))) and eq(b.fval, f) and
                close(b.grad, g)):
            return f'iteration {k}: new iterate does not belong to the evaluated point: {p}'
        if H is not None and p.huname == 'none' and not close(b.hess, H):
            return f'iteration {k}: new Hessian does not belong to the evaluated point: {p}'
    if t.result is not None:
        f0 = p.fgh(t.evals[0])[0]
        if not t.result[0] <= f0:
            return f'returned value {t.result[0]} above the start value {f0}: {p}'


def radius_unit(rng):
    """one call of update_tr_radius on numbers for which the ratio is exact"""
    p = P.Problem(rng, res=False, nonfinite=0, opts={Options.MU: .25, Options.ETA: .75, Options.GAMMA1: .25,
                                                     Options.GAMMA2: 2.})
    opt, rec = p.build()
    n = p.n
    dy = lambda *v: float(rng.choice(v))

    class S:
        pass
    step, f = S(), S()
    q = dy(-4., -2., -1., -.5, 0., 0., 1.)
    step.qpval = q
    step.ss, step.ss0 = np.zeros(n), np.zeros(n)
    i = int(rng.integers(n))
    step.ss[i] = dy(0., .5, 1., 2.)
    if rng.random() < .5:
        step.ss0[int(rng.integers(n))] = dy(0., .5, 1.)
    step.s, step.s0 = step.ss.copy(), step.ss0.copy()
    dv = rng.choice([0., 1.], n)
    f.grad = rng.choice([0., 1., -2.], n)
    f.x, f.hess = np.zeros(n), np.eye(n)
    sx = step.ss + step.ss0
    aug = .5 * float(np.sum(dv * np.abs(f.grad) * sx * sx))
    opt.fval = dy(0., 1., 8.)
    r = dy(-1., 0., .125, .25, .5, .75, 1., 2.)
    f.fval = opt.fval - aug + (q * r if q < 0 else dy(-1., 0., 1.))
    if rng.random() < .1:
        f.fval = dy(np.nan, np.inf, -np.inf)
    opt.delta = dy(.5, 1., 2., 4.)
    opt.delta_iter = opt.delta
    opt.iterations_since_tr_update, opt.n_intermediate_tr_radius = int(rng.integers(4)), int(rng.integers(4))
    opt.iteration, opt.tr_ratio = 3, 1.
    opt.x, opt.grad, opt.hess = np.zeros(n), np.ones(n), np.eye(n)
    it0, n0, d0, f0 = opt.iterations_since_tr_update, opt.n_intermediate_tr_radius, opt.delta, opt.fval
    try:
        acc = opt.update_tr_radius(f, step, dv)
    except (AttributeError, TypeError):
        return None         # the function works on other data: only runs decide
    ns = float(np.linalg.norm(sx))
    d = f'update_tr_radius: fval={f0} -> {f.fval} qpval={q} ss={step.ss} ss0={step.ss0} dv={dv} grad={f.grad} ' \
        f'delta={d0} counters={it0, n0}'
    ratio = 0. if not np.isfinite(f.fval) or q >= 0 else (f0 - f.fval - aug) / -q
    return opt, acc, ratio, ns, d0, it0, n0, f, d


@case('C04', 1)
def acceptance_unit(rng):
    u = radius_unit(rng)
    if u is None:
        return None
    opt, acc, ratio, ns, d0, it0, n0, f, d = u
    want = bool(np.isfinite(f.fval) and ratio > 0)
    if bool(acc) != want:
        return f'accepted: {acc}, should be {want}: {d}'


@case('C06', 1)
def radius_rule(rng):
    u = radius_unit(rng)
    if u is None:
        return None
    opt, acc, ratio, ns, d0, it0, n0, f, d = u
    if abs(ns - .9 * d0) < 1e-9:
        return None
    if not np.isfinite(f.fval):
        want = min(d0 * .25, ns / 4), 0, n0
    elif ratio >= .75 and not ns < .9 * d0:
        want = 2 * d0, 0, n0
    elif ratio <= .25:
        want = min(d0 * .25, ns / 4), 0, n0
    else:
        want = d0, it0 + 1, n0 + (.25 < ratio < .75)
    got = opt.delta, opt.iterations_since_tr_update, opt.n_intermediate_tr_radius
    if got != want or opt.tr_ratio != ratio:
        return f'radius, counters {got}, ratio {opt.tr_ratio}, should be {want}, {ratio}: {d}'


def close(a, b, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= tol * (np.abs(a) + np.abs(b)) + 1e-300) | (np.isnan(a) & np.isnan(b)) | (a == b)))


@case('C05', 1)
def minimum_tracking(rng):
    p = P.Problem(rng, nonfinite=.3)
    t = p.run()
    st = t.states()
    best = None
    for k, e in enumerate(t.evals):
        f, g, H = p.fgh(e)
        if k >= len(st):
            break
        aborted = t.error is not None and k == len(t.evals) - 1
        b = st[k]
        if np.isfinite(f) and (best is None or f < best[0]):
            if aborted and not (eq(b.fval_min, f)):
                pass          # the run was stopped by this evaluation before it was recorded
            else:
                best = (f, e.x, g)
        if best is None:
            continue
        if not eq(b.fval_min, best[0]):
            return f'after evaluation {k}: minimal value {b.fval_min}, smallest evaluated {best[0]}: {p}'
        if not eq(b.x_min, best[1]):
            return f'after evaluation {k}: minimizer {b.x_min} is not the evaluated point {best[1]}: {p}'
        if not (eq(b.grad_min, best[2]) if not p.res else close(b.grad_min, best[2])):
            return f'after evaluation {k}: gradient {b.grad_min} is not that of the minimizer {best[2]}: {p}'


def ratio_ref(p, a, f, g, s):
    sx = s['ss'] + s['ss0']
    bd = np.where(a.grad < 0, p.ub, p.lb)
    dv = np.isfinite(bd) * 1.
    aug = .5 * sx @ (dv * np.abs(g) * sx)
    pred = -s['qpval']
    act = a.fval - f - aug
    return (0. if pred <= 0 else act / pred), np.linalg.norm(sx), abs(a.fval) + abs(f) + abs(aug), pred


@case('C06', 1)
def radius_update(rng):
    p = P.Problem(rng, nonfinite=.3, opts={Options.GATOL: 0., Options.MAXITER: int(rng.integers(3, 30))})
    t = p.run()
    mu, eta, g1, g2 = (opt_of(p, o) for o in (Options.MU, Options.ETA, Options.GAMMA1, Options.GAMMA2))
    first = t.states()[0] if t.states() else None
    if first is not None and first.delta != opt_of(p, Options.DELTA_INIT):
        return f'initial radius {first.delta}: {p}'
    for k, a, e, b, s in pairs(t):
        if s is None or (t.error is not None and k == len(t.evals) - 1):
            continue
        f, g, H = p.fgh(e)
        d = a.delta
        if a.delta_iter != a.delta:
            return f'iteration {k}: radius used {a.delta_iter} is not the current radius {a.delta}: {p}'
        sx = s['ss'] + s['ss0']
        ns = np.linalg.norm(sx)
        it0, n0 = a.iterations_since_tr_update, a.n_intermediate_tr_radius
        if not np.isfinite(f):
            allowed = [(min(d * g1, ns / 4), 0, n0)]
            r = 0.
        else:
            r, ns, mag, pred = ratio_ref(p, a, f, g, s)
            slack = 1e-9 * (1 + abs(r)) + (1e-13 * mag / pred if pred > 0 else 0)
            edge = abs(ns - .9 * d) <= 1e-9 * d

            def outcome(r, inner):
                if r >= eta and not inner:
                    return (g2 * d, 0, n0)
                if r <= mu:
                    return (min(d * g1, ns / 4), 0, n0)
                if mu < r < eta:
                    return (d, it0 + 1, n0 + 1)
                return (d, it0 + 1, n0)
            inner = [ns < .9 * d] if not edge else [True, False]
            allowed = [outcome(rr, i) for rr in (r, r - slack, r + slack) for i in inner]
            if not abs(b.tr_ratio - r) <= 1e-6 * (1 + abs(r)) + slack:
                return f'iteration {k}: ratio {b.tr_ratio}, should be {r}: {p}'
        if not any(abs(b.delta - dl) <= 1e-9 * dl for dl, _, _ in allowed):
            return f'iteration {k}: radius {d} -> {b.delta}, should be {allowed[0][0]} (ratio {r}, step {ns}): {p}'
        if not any(abs(b.delta - dl) <= 1e-9 * dl and (b.iterations_since_tr_update, b.n_intermediate_tr_radius) == (i, n)
                   for dl, i, n in allowed):
            return f'iteration {k}: counters {(b.iterations_since_tr_update, b.n_intermediate_tr_radius)}, ' \
                   f'should be {allowed[0][1:]}: {p}'


def criteria(p, t, k, a, e, b, s):
    """set of convergence criteria that hold after iteration k; second value: borderline (not decided)"""
    f, g, H = p.fgh(e)
    fat, frt, xt, gat, grt, mu = (opt_of(p, o) for o in (Options.FATOL, Options.FRTOL, Options.XTOL, Options.GATOL,
                                                        Options.GRTOL, Options.MU))
    hold, edge = set(), set()

    def test(flag, lhs, rhs, strict):
        if abs(lhs - rhs) <= 1e-9 * (abs(lhs) + abs(rhs)) and lhs != 0:
            edge.add(flag)
        elif (lhs < rhs) if strict else (lhs <= rhs):
            hold.add(flag)
    if np.isfinite(f) and b.tr_ratio > mu:
        test(ExitFlag.FTOL, abs(f - a.fval), fat + frt * abs(a.fval), True)
    if s is not None and k > 1:
        test(ExitFlag.XTOL, np.linalg.norm(s['ss'] + s['ss0']), xt, True)
    acc = not eq(a.x, b.x) or not eq(a.fval, b.fval)
    gn = np.linalg.norm(g if acc else a.grad)
    test(ExitFlag.GTOL, gn, gat, False)
    test(ExitFlag.GTOL, gn, grt * abs(a.fval), False)
    return hold, edge


def exit_check(p, t):
    fl = t.final.exitflag
    its = len(t.evals) - 1
    ps = list(pairs(t))
    maxiter = opt_of(p, Options.MAXITER)
    if fl == ExitFlag.MAXITER:
        return its >= maxiter, f'MAXITER after {its} of {maxiter} iterations'
    if fl == ExitFlag.MAXTIME:
        el = p.clock.t - t.evals[0].t
        return opt_of(p, Options.MAXTIME) - el < el / max(its, 1), f'MAXTIME after {el} of {opt_of(p, Options.MAXTIME)}'
    if fl == ExitFlag.DELTA_TOO_SMALL:
        return t.final.delta < EPS, f'DELTA_TOO_SMALL with radius {t.final.delta}'
    if fl in (ExitFlag.FTOL, ExitFlag.XTOL, ExitFlag.GTOL):
        if not ps:
            return False, f'{fl!r} without any iteration'
        hold, edge = criteria(p, t, *ps[-1])
        return fl in hold or fl in edge, f'{fl!r} but only {hold} hold'
    return False, f'status {fl!r} on return'


@case('C07', 3)
def exit_status(rng):
    p = P.Problem(rng, nonfinite=.25)
    time_limit(rng, p)
    t = p.run()
    if t.error is None:
        ok, why = exit_check(p, t)
        if not ok:
            return f'{why}: {p}'
    elif isinstance(t.error, RuntimeError) and t.evals:
        if not finite_last(p, t) and t.final.exitflag != ExitFlag.NOT_FINITE:
            return f'run stopped by non-finite values with status {t.final.exitflag!r}: {p}'


@case('C07', 1)
def exit_status_user_error(rng):
    p = P.Problem(rng, nonfinite=0)
    opt, rec = p.build()
    t = run(opt, rec, p.x0.copy())
    inner = rec.fun
    at = int(rng.integers(0, 4))
    cnt = [0]

    def bad(x, **kw):
        cnt[0] += 1
        if cnt[0] > at:
            raise KeyError('user')
        return inner(x, **kw)
    rec.fun = bad
    t2 = run(opt, rec, p.x0.copy())
    if isinstance(t2.error, KeyError) and t2.final.exitflag != ExitFlag.DID_NOT_RUN:
        return f'status {t2.final.exitflag!r} after the user function raised in call {at + 1} of a second run: {p}'
    # start outside the bounds after a finished run
    if np.isfinite(p.ub).any():
        i = int(np.flatnonzero(np.isfinite(p.ub))[0])
        x0 = p.x0.copy()
        x0[i] = p.ub[i] + 1
        rec.fun = inner
        t3 = run(opt, rec, x0)
        if isinstance(t3.error, RuntimeError) and t3.final.exitflag != ExitFlag.EXCEEDED_BOUNDARY:
            return f'status {t3.final.exitflag!r} for a start outside the bounds: {p}'


def time_limit(rng, p):
    if rng.random() < .3:
        p.clock.dt = float(rng.choice([1., .5]))
        p.opts[Options.MAXTIME] = float(rng.integers(0, 12)) + .25
        p.opts[Options.MAXITER] = 30


@case('C08', 1)
def budget(rng):
    p = P.Problem(rng, nonfinite=.2)
    time_limit(rng, p)
    if rng.random() < .15:
        p.opts[Options.GAMMA1] = 1e-6
        p.opts[Options.MU] = .9
        p.opts[Options.ETA] = .95
    if rng.random() < .1:
        p.opts[Options.MAXITER] = int(rng.integers(0, 2))
    t = p.run()
    its = len(t.evals) - 1
    maxiter = opt_of(p, Options.MAXITER)
    if its > maxiter:
        return f'{its} iterations, at most {maxiter} allowed: {p}'
    if t.error is None and t.final.iteration != its:
        return f'{its} evaluations after the start but {t.final.iteration} iterations: {p}'
    for k, e in enumerate(t.evals[1:], 1):
        if e.snap.iteration != k:
            return f'evaluation {k} happened in iteration {e.snap.iteration}: {p}'
    maxt = opt_of(p, Options.MAXTIME)
    for k, a, e, b, s in pairs(t):
        cont = k + 1 < len(t.evals)
        hold, edge = criteria(p, t, k, a, e, b, s)
        el = (t.evals[k + 1].t if cont else p.clock.t) - t.evals[0].t
        tstop = maxt - el < el / k
        if cont:
            if hold:
                return f'iteration {k + 1} started although {hold} held: {p}'
            if b.delta < EPS:
                return f'iteration {k + 1} started with radius {b.delta}: {p}'
            if tstop and abs((maxt - el) - el / k) > 1e-9:
                return f'iteration {k + 1} started although the time was up: {p}'
        elif t.error is None:
            if not hold and not edge and k < maxiter and not b.delta < EPS and not tstop:
                return f'stopped after iteration {k} without any reason: {p}'
    el0 = p.clock.t - t.evals[0].t
    if t.error is None and its == 0 and maxiter > 0 and maxt - el0 >= el0 and t.final.delta >= EPS:
        return f'no iteration performed: {p}'


# ------------------------------------------------------------- C09, C10
def tr_ref(B, g, delta):
    """global minimum of the subproblem, and how much of it a multiplier that is off by 2e-12 costs"""
    e, V = np.linalg.eigh(B)
    w = -V.T @ g
    q = lambda c: .5 * np.sum(e * c * c) - w @ c
    if e[0] > 0 and np.linalg.norm(w / e) <= delta:
        return q(w / e), 0.
    lo = max(0., -e[0])
    # u = multiplier - lo; d = e + lo + u without cancellation for the smallest eigenvalue
    base = e + lo
    base[0] = 0. if e[0] <= 0 else base[0]
    base = np.maximum(base, 0.)
    mg = 1e-13 * np.abs(e).max()
    pole = base <= mg
    wn = np.linalg.norm(w)
    w2 = np.where(pole & (np.abs(w) <= 1e-13 * wn), 0., w)

    def c_of(u):
        with np.errstate(all='ignore'):
            return np.where(w2 == 0, 0., w2 / (base + u))
    l, h = 0., wn / delta + 1e-300
    for _ in range(2000):
        m = .5 * (l + h)
        if m == l or m == h:
            break
        if np.linalg.norm(c_of(m)) > delta:
            l = m
        else:
            h = m
    c = c_of(h)
    n2 = delta ** 2 - c @ c
    best = q(c)
    if n2 > 0 and e[0] <= 0:
        # both points of the sphere along the first eigenvector
        c0 = c.copy()
        c0[0] = 0
        t = math.sqrt(max(delta ** 2 - c0 @ c0, 0))
        for sg in (t, -t):
            c1 = c0.copy()
            c1[0] = sg
            best = min(best, q(c1))
    slack = 0. if h == 0 or not w2.any() else abs(q(c_of(h + 2e-12)) - q(c_of(h)))
    return best, slack if e[0] > 0 or not n2 > 1e-6 * delta ** 2 else 0.


def nd_check(B, g, delta):
    B0, g0 = B.copy(), g.copy()
    out = fsub.solve_nd_trust_region_subproblem(B, g, delta)
    s = out[0]
    d = f'solve_nd(B={B0.tolist()}, g={g0.tolist()}, delta={delta})'
    if not (eq(B, B0) and eq(g, g0)):
        return f'input modified: {d}'
    if not np.all(np.isfinite(s)) or np.shape(s) != np.shape(g):
        return f'returns {s}: {d}'
    if not np.linalg.norm(s) <= delta * (1 + 1e-9) + TOL:
        return f'step length {np.linalg.norm(s)} > {delta}: {d}'
    if delta == 0:
        return None if np.all(s == 0) else f'nonzero step {s} for zero radius: {d}'
    q = .5 * s @ B @ s + g @ s
    ref, slack = tr_ref(.5 * (B + B.T), g, delta)
    mag = np.linalg.norm(B, 2) * delta ** 2 + np.linalg.norm(g) * delta
    if not q <= ref + 1e-7 * mag + 2 * slack:
        return f'value {q} ({out[1]}), the global minimum is {ref}: {d}'


@case('C09', 3)
def nd_random(rng):
    n = int(rng.integers(1, 7))
    B = P.skew(rng, P.sym(rng, n) * 10 ** rng.uniform(-1, 2))
    g = rng.normal(size=n) * 10 ** rng.uniform(-3, 1)
    if rng.random() < .3:
        g = g * 10 ** rng.uniform(-8, 0, n)
    delta = float(10 ** rng.uniform(-3, 2)) if rng.random() < .97 else 0.
    if rng.random() < .15:
        # the minimum lies just outside (or inside) the trust region
        w, v = np.linalg.eigh(.5 * (B + B.T))
        B = (v * (abs(w) + .1)) @ v.T
        delta = float(np.linalg.norm(np.linalg.solve(B, g)) * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -1)))
    return nd_check(B, g, delta)


@case('C09', 3)
def nd_hard(rng):
    n = int(rng.integers(2, 7))
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    if rng.random() < .3:
        q = np.eye(n)[rng.permutation(n)]
    e = np.sort(rng.normal(size=n) * 2)
    if rng.random() < .4:
        e[1] = e[0]
    if rng.random() < .3:
        e = e - e[0]
    B = (q * e) @ q.T
    B = .5 * (B + B.T)
    w = rng.normal(size=n) * 10 ** rng.uniform(-2, 1)
    w[e == e[0]] = 0
    if rng.random() < .3:
        w[e == e[0]] = 10 ** rng.uniform(-12, -1)
    if rng.random() < .2:
        w[:] = 0
    if rng.random() < .15:
        # not quite the hard case, but the root of the secular equation cannot be located
        q = np.eye(n)[rng.permutation(n)]
        B = (q * e) @ q.T
        w[e == e[0]] = rng.choice([-1, 1]) * 10 ** rng.uniform(-150, -12)
    g = q @ w
    return nd_check(B, g, float(10 ** rng.uniform(-2, 2)))


def oned_ref(b, g, s, delta, z):
    a2, b2, c2 = s @ s, 2 * z @ s, z @ z - delta ** 2
    disc = max(b2 * b2 - 4 * a2 * c2, 0)
    r = math.sqrt(disc)
    lo, hi = (-b2 - r) / (2 * a2), (-b2 + r) / (2 * a2)
    a, bb = s @ b @ s, s @ (.5 * (b + b.T) @ z + g)
    f = lambda t: .5 * a * t * t + bb * t
    c = [lo, hi]
    if a > 0 and lo <= -bb / a <= hi:
        c.append(-bb / a)
    return min(f(t) for t in c), f


@case('C10', 3)
def oned(rng):
    n = int(rng.integers(1, 6))
    b = P.skew(rng, P.sym(rng, n) * 10 ** rng.uniform(-1, 1))
    g = rng.normal(size=n) * 10 ** rng.uniform(-2, 1)
    if rng.random() < .1:
        g[:] = 0
    s = rng.normal(size=n)
    u = rng.random()
    if u < .1:
        s[:] = 0
    elif u < .8:
        s /= np.linalg.norm(s)
    else:
        s *= 10 ** rng.uniform(-3, 3)
    delta = float(10 ** rng.uniform(-2, 2)) if rng.random() < .95 else 0.
    z = rng.normal(size=n)
    z *= delta * rng.choice([0., .3, .9, 1., 1.]) / np.linalg.norm(z)
    if rng.random() < .15 and n > 1 and s @ s > 0:
        z -= s * (s @ z) / (s @ s)
        if np.linalg.norm(z) > 0:
            z *= delta / np.linalg.norm(z)
    if rng.random() < .1:
        b = np.diag(rng.choice([0., 1., -1.], n))
    args = [v.copy() for v in (b, g, s, z)]
    t = fsub.solve_1d_trust_region_subproblem(b, g, s, delta, z)
    d = f'solve_1d(b={b.tolist()}, g={g.tolist()}, s={s.tolist()}, delta={delta}, s0={z.tolist()})'
    if not all(eq(u, v) for u, v in zip(args, (b, g, s, z))):
        return f'input modified: {d}'
    t = np.asarray(t, float)
    if t.shape != (1,) or not np.isfinite(t[0]):
        return f'returns {t}: {d}'
    t = t[0]
    if s @ s == 0 or delta == 0:
        return None if t == 0 else f'step length {t} for a zero direction or radius: {d}'
    nr = np.linalg.norm(z + t * s)
    if not nr <= delta * (1 + 1e-7) + TOL:
        return f'step length {t} gives norm {nr} > {delta}: {d}'
    ref, f = oned_ref(b, g, s, delta, z)
    ns = np.linalg.norm(s)
    mag = np.linalg.norm(b) * delta ** 2 + np.linalg.norm(g) * delta
    if not f(t) <= ref + 1e-6 * mag:
        return f'step length {t} has value {f(t)}, the minimum is {ref}: {d}'


# ------------------------------------------------------------------ C11
@case('C11', 1)
def cg(rng):
    c = step_case(rng, sub=SubSpaceDim.STEIHAUG, free=True, zero_grad=.1)
    step, cands = c.call()
    v = np.asarray(step.ss, float) + step.ss0
    if not np.all(np.isfinite(v)):
        return f'step {v} is not finite: {c}'
    nr = np.linalg.norm(v)
    if not nr <= c.delta * (1 + 1e-9) + TOL:
        return f'step length {nr} > {c.delta}: {c}'
    q = c.q(v)
    if not q <= 1e-10 * c.qmag(v):
        return f'model increases to {q}: {c}'
    ng = np.linalg.norm(c.sg)
    eps = min(.5, math.sqrt(ng)) * ng
    res = np.linalg.norm(c.Bs @ v + c.sg)
    slack = 1e-9 * (np.linalg.norm(c.B) * nr + ng)
    if nr < c.delta * (1 - 1e-7) - TOL and not res <= eps + slack:
        return f'interior step with model gradient {res} > {eps}: {c}'
    # at least as good as the Cauchy point
    a = c.sg @ c.B @ c.sg
    tau = c.delta / ng if ng > 0 else 0
    if a > 0 and ng > 0:
        tau = min(tau, ng ** 2 / a)
    qc = c.q(-tau * c.sg)
    if not q <= qc + 1e-7 * c.qmag(tau * c.sg):
        return f'model value {q} worse than at the Cauchy point {qc}: {c}'


# ------------------------------------------------------------------ C12
@case('C12', 2)
def scaling(rng):
    n = int(rng.integers(1, 7))
    lb, ub = P.bounds(rng, n, rng.choice(['box', 'part', 'none', 'tight']))
    x = P.start(rng, lb, ub)
    g = rng.normal(size=n)
    g[rng.random(n) < .3] = 0
    opt = fides.Optimizer(lambda x: None, ub.copy(), lb.copy(), verbose=40)
    opt.x, opt.grad = x.copy(), g.copy()
    try:
        v, dv = opt.get_affine_scaling()
    except (AttributeError, TypeError):
        return None
    d = f'x={x.tolist()} grad={g.tolist()} lb={lb.tolist()} ub={ub.tolist()}'
    b = np.where(g < 0, ub, lb)
    fin = np.isfinite(b)
    rv = np.where(fin, x - np.where(fin, b, 0), np.where(g < 0, -1., 1.))
    if not eq(np.asarray(v, float), rv):
        return f'scaling {v}, should be {rv}: {d}'
    if not eq(np.asarray(dv, float), fin * 1.):
        return f'derivative {dv}, should be {fin * 1.}: {d}'
    for nm, u, w in (('x', opt.x, x), ('grad', opt.grad, g), ('lb', opt.lb, lb), ('ub', opt.ub, ub)):
        if not eq(u, w):
            return f'{nm} was modified: {d}'


@case('C12', 2)
def degeneracy(rng):
    n = int(rng.integers(1, 7))
    lb, ub = P.bounds(rng, n, rng.choice(['box', 'part', 'tight']))
    if rng.random() < .5:
        lb, ub = np.floor(lb), np.ceil(ub) + 1
    x = P.start(rng, lb, ub, onb=True)
    opt = fides.Optimizer(lambda x: None, ub.copy(), lb.copy(), verbose=40)
    eps = 1e2 * EPS
    if rng.random() < .5:
        j = rng.integers(n)
        if np.isfinite(lb[j]):
            x[j] = lb[j] + rng.choice([.3, .9, 3.]) * eps
    x = np.clip(x, lb, ub)
    opt.x = x.copy()
    keep = opt.x
    try:
        opt.make_non_degenerate()
    except (AttributeError, TypeError):
        return None
    up, lo = (ub - x) < eps, (x - lb) < eps
    r = x.copy()
    r[up] = r[up] - eps
    r[lo] = r[lo] + eps
    d = f'x={x.tolist()} lb={lb.tolist()} ub={ub.tolist()}'
    if not eq(np.asarray(opt.x, float), r):
        return f'shifted to {opt.x.tolist()}, should be {r.tolist()}: {d}'


@case('C12', 1)
def int_typed(rng):
    n = int(rng.integers(1, 4))
    lb = -rng.integers(0, 5, n)
    ub = rng.integers(1, 6, n)
    x0 = np.array([rng.integers(l, u + 1) for l, u in zip(lb, ub)])
    name, f = P.objective(rng, n)
    out = []
    half = rng.random() < .4
    for cast in (int, float):
        rec = Recorder(f)
        u = ub.astype(cast) if not half else np.where(np.arange(n) % 2, np.inf, ub.astype(float))
        opt = fides.Optimizer(rec, u, lb.astype(cast), verbose=40, options={'maxiter': 8})
        t = run(opt, rec, x0.astype(cast))
        out.append(t)
    a, b = out
    if len(a.evals) != len(b.evals) or any(not eq(p.x, q.x) for p, q in zip(a.evals, b.evals)) \
            or type(a.error) is not type(b.error):
        return f'integer-typed start/bounds behave differently: lb={lb.tolist()} ub={ub.tolist()} x0={x0.tolist()} {name}'


@case('C12', 1)
def scaling_run(rng):
    p = P.Problem(rng)
    t = p.run()
    for s in t.steps:
        b, i = s['before'], s['in']
        if 'scaling' not in i:
            return None
        bd = np.where(b.grad < 0, p.ub, p.lb)
        fin = np.isfinite(bd)
        v = np.abs(np.where(fin, b.x - np.where(fin, bd, 0), 1.))
        sc = np.asarray(i['scaling'].todense() if hasattr(i['scaling'], 'todense') else i['scaling'])
        if not close(sc, np.diag(np.sqrt(v)), 1e-12) or not eq(np.asarray(i['dv'], float), fin * 1.):
            return f'iteration {b.iteration}: scaling {np.diag(sc)} for v={v}, dv={i["dv"]}: {p}'
    st = t.states()
    eps = 1e2 * EPS
    for k, b in enumerate(st):
        if t.error is not None and k == len(st) - 1:
            continue
        for nm, dist in (('upper', p.ub - b.x), ('lower', b.x - p.lb)):
            near = (dist < eps * .5) & (p.ub - p.lb > 3 * eps) & (np.abs(b.x) < 1)
            if near.any():
                return f'iterate {k} is degenerate at the {nm} bound: {b.x.tolist()}: {p}'


# ------------------------------------------------------------------ C13
def pd(rng, n):
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    return (q * 10 ** rng.uniform(-1, 1, n)) @ q.T


def hu_new(cls, n, B, *a, **kw):
    h = cls(*a, **kw)
    h._init_mat(n, B)
    return h


@case('C13', 4)
def iterative(rng):
    n = int(rng.integers(1, 6))
    B = pd(rng, n)
    B = .5 * (B + B.T)
    phi = float(rng.choice([0., 1., rng.uniform(0, 1)]))
    kind = ['SR1', 'BFGS', 'DFP', 'Broyden', 'BG', 'BB'][rng.integers(6)]
    if kind == 'SR1' and rng.random() < .6:
        B = P.sym(rng, n)
    s, y = rng.normal(size=n), rng.normal(size=n)
    h = hu_new(getattr(fides, kind), n, B, *([phi] if kind == 'Broyden' else []))
    u = rng.random()
    if u < .1:
        y = B @ s
    elif u < .15 and kind == 'SR1':
        z = rng.normal(size=n)
        z -= s * (z @ s) / (s @ s)
        y = B @ s + z
    elif u < .2:
        y = y - s * (s @ y) / (s @ s) * (1 if rng.random() < .5 else 2)
    for _ in range(int(rng.integers(1, 4))):
        old = h.get_mat()
        ys, ss = y.copy(), s.copy()
        h.update(s, y)
        new, diff = h.get_mat(), h.get_diff()
        d = f'{kind}(phi={phi}) B={old.tolist()} s={s.tolist()} y={y.tolist()}'
        mag = 1 + np.abs(old).max() + np.abs(diff).max() if np.all(np.isfinite(diff)) else 1
        if not (eq(ys, y) and eq(ss, s)):
            return f'input modified: {d}'
        if not np.all(np.isfinite(new)):
            return f'matrix not finite: {d}'
        if not np.all(np.abs(new - old - diff) <= 1e-12 * mag):
            return f'new matrix is not old + diff: {d}'
        b = s @ y
        z = y - old @ s
        skipped = not np.any(diff)
        if kind in ('BFGS', 'DFP', 'Broyden', 'BB'):
            if b <= 0 and not skipped:
                return f'curvature condition violated but matrix changed: {d}'
            if b > 1e-12 and skipped and np.abs(z).max() > 1e-9:
                return f'update skipped without need: {d}'
        if kind == 'SR1':
            den, thr = abs(z @ s), np.sqrt(EPS) * np.linalg.norm(s) * np.linalg.norm(z)
            if den <= .99 * thr and not skipped:
                return f'degenerate denominator but matrix changed: {d}'
            if den > 1.01 * thr and skipped and np.abs(z).max() > 1e-9:
                return f'update skipped without need: {d}'
        if not skipped and kind != 'BB':
            lim = 1e-8 * mag * (1 + np.abs(s).max()) + 1e-8 * np.abs(y).max()
            if not np.all(np.abs(new @ s - y) <= lim):
                return f'secant equation violated by {np.abs(new @ s - y).max()}: {d}'
        if not skipped and kind == 'BB':
            if not np.all(np.abs(diff - np.outer(z, s) / b) <= 1e-9 * mag):
                return f'update is not the documented one: {d}'
        if kind not in ('BG', 'BB') and np.abs(old - old.T).max() <= 1e-12 * mag:
            if not np.abs(new - new.T).max() <= 1e-10 * mag:
                return f'matrix not symmetric: {d}'
        if kind in ('BFGS', 'DFP', 'Broyden') and mag < 1e4:
            if np.linalg.eigvalsh(.5 * (new + new.T))[0] <= -1e-9 * mag:
                return f'matrix not positive definite: {d}'
        if kind not in ('SR1', 'BG', 'BB') and not skipped and mag < 1e6:
            c = s @ old @ s
            uu = old @ s
            w = y / b - uu / c
            ph = {'BFGS': 0, 'DFP': 1}.get(kind, phi)
            ref = np.outer(y, y) / b - np.outer(uu, uu) / c + ph * c * np.outer(w, w)
            if not np.all(np.abs(ref - diff) <= 1e-8 * mag * mag):
                return f'update is not the Broyden-class update: {d}'
        if np.linalg.cond(new) > 1e8 or np.abs(new).max() > 1e6:
            break
        s, y = rng.normal(size=n), rng.normal(size=n)


@case('C13', 1)
def degenerate_pair(rng):
    """small integers, so that curvatures are exactly zero"""
    n = int(rng.integers(1, 4))
    kind = ['BFGS', 'DFP', 'Broyden'][rng.integers(3)]
    phi = float(rng.choice([0., 1., .5]))
    enforce = bool(rng.random() < .6)
    M = rng.integers(-1, 2, (n, n)) * float(rng.random() < .7)
    B = M @ M.T if rng.random() < .5 else M + M.T
    s, y = rng.integers(-2, 3, n).astype(float), rng.integers(-2, 3, n).astype(float)
    h = hu_new(getattr(fides, kind), n, B, *([phi] if kind == 'Broyden' else []), enforce_curv_cond=enforce)
    with np.errstate(all='ignore'):
        h.update(s, y)
    new, d = h.get_mat(), f'{kind}(phi={phi}, enforce_curv_cond={enforce}) B={B.tolist()} s={s.tolist()} y={y.tolist()}'
    b, u = s @ y, B @ s
    if not np.all(np.isfinite(new)):
        return f'matrix not finite: {d}'
    if b <= 0 and enforce or b == 0 or u @ s == 0 and np.any(u):
        return None if eq(new, B) else f'degenerate pair but matrix changed to {new.tolist()}: {d}'
    if not np.abs(new @ s - y).max() <= 1e-9 * (1 + np.abs(new).max()):
        return f'secant equation violated: {d}'


@case('C13', 1)
def init_mat(rng):
    n = int(rng.integers(1, 5))
    kind = ['SR1', 'BFGS', 'DFP', 'BG', 'BB'][rng.integers(5)]
    B = pd(rng, n) if rng.random() < .5 else None
    h = getattr(fides, kind)()
    h._init_mat(n, B)
    m = h.get_mat()
    if not eq(m, np.eye(n) if B is None else B) or np.any(h.get_diff()):
        return f'{kind} initialized with {None if B is None else B.tolist()} gives {m.tolist()}'
    m[0, 0] += 7
    if h.get_mat()[0, 0] == m[0, 0]:
        return f'{kind}: get_mat hands out its own matrix'
    if B is not None:
        B0 = h.get_mat()
        B[0, 0] += 1
        if not eq(h.get_mat(), B0):
            return f'{kind}: keeps a reference to the matrix of the user'


# ------------------------------------------------------------------ C14
def broyden_ref(y, s, m, phi, enforce=True):
    u = m @ s
    c, b = u @ s, y @ s
    if b <= 0 and enforce:
        return np.zeros_like(m)
    w = y / b - u / c
    return np.outer(y, y) / b - np.outer(u, u) / c + phi * c * np.outer(w, w)


@case('C14', 3)
def structured(rng):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    kind = ['SSM', 'TSSM', 'GNSBFGS'][rng.integers(3)]
    phi = float(rng.choice([0., 1., rng.uniform(0, 1)]))
    enforce = bool(rng.random() < .8)
    h = getattr(fides, kind)(*([phi] if kind != 'GNSBFGS' else []), enforce_curv_cond=enforce)
    if kind == 'GNSBFGS':
        phi = 0.
    h._init_mat(n, None)
    if not close(h.A, np.eye(n) * EPS):
        return f'{kind}: initial structured part {h.A}'
    for _ in range(int(rng.integers(1, 5))):
        J = rng.normal(size=(m, n))
        C = J.T @ J
        s, y, r, yb = rng.normal(size=n), rng.normal(size=n), rng.normal(size=m), rng.normal(size=n)
        if rng.random() < .1:
            r[:] = 0
        if rng.random() < .3 and m >= n:
            yb = (pd(rng, n)) @ s * .3
        A, old = h.A.copy(), h.get_mat()
        h.update(s=s, y=y, r=r, hess=C.copy(), yb=yb)
        nr = np.linalg.norm(r)
        d = f'{kind}(phi={phi},{enforce}) A={A.tolist()} C={C.tolist()} s={s.tolist()} r={r.tolist()} yb={yb.tolist()}'
        new, diff, sd = h.get_mat(), h.get_diff(), h.get_structured_diff()
        with np.errstate(all='ignore'):
            if kind == 'SSM':
                ref = broyden_ref(C @ s + yb, s, C + A, phi, enforce)
                rn = C + A + ref
            elif kind == 'TSSM':
                ref = broyden_ref(C @ s + yb, s, C + nr * A, phi, enforce) / nr if nr > 0 else np.zeros((n, n))
                rn = C + nr * (A + ref)
            else:
                ratio = yb @ s / (s @ s)
                if abs(ratio - h.hybrid_tol) < 1e-9:
                    return None
                if ratio > h.hybrid_tol:
                    ref = broyden_ref(yb, s, A, phi, enforce)
                    rn = C + A + ref
                else:
                    ref = np.zeros((n, n))
                    rn = C + nr * np.eye(n)
        mag = 1 + max(np.abs(v).max() for v in (C, A, rn, ref)) if np.all(np.isfinite(rn)) else np.inf
        if not np.isfinite(mag) or mag > 1e7:
            return None if np.isfinite(mag) else (None if not enforce else f'reference not finite: {d}')
        lim = 1e-7 * mag * (1 + mag * 1e-3)
        if not np.all(np.abs(new - rn) <= lim):
            return f'matrix {new.tolist()}, should be {rn.tolist()}: {d}'
        if not np.all(np.abs(sd - ref) <= lim):
            return f'structured change {sd.tolist()}, should be {ref.tolist()}: {d}'
        if not np.all(np.abs(h.A - A - sd) <= lim):
            return f'structured part is not old + change: {d}'
        if not np.all(np.abs(new - old - diff) <= lim):
            return f'new matrix is not old + diff: {d}'


@case('C14', 3)
def switching(rng):
    n = int(rng.integers(1, 4))
    kind = ['HybridFixed', 'HybridFraction', 'FX'][rng.integers(3)]
    hk = ['BFGS', 'SR1', 'DFP'][rng.integers(3)]
    ref = getattr(fides, hk)()
    par = {'HybridFixed': int(rng.integers(0, 5)), 'HybridFraction': float(rng.uniform(0, 1)), 'FX': float(rng.uniform(0, .5))}[kind]
    h = getattr(fides, kind)(getattr(fides, hk)(), par)
    h._init_mat(n, None)
    ref._init_mat(n, None)
    sw = False
    it = int(rng.integers(0, 30))
    for k in range(int(rng.integers(1, 8))):
        s, y = rng.normal(size=n), rng.normal(size=n)
        H = P.sym(rng, n)
        old = h.get_mat()
        d = f'{kind}({hk},{par}) update {k}'
        if kind == 'FX':
            r, rp = rng.normal(size=3), rng.normal(size=3)
            h.update(s, y, r, rp, H.copy())
            ratio = (rp @ rp - r @ r) / (rp @ rp)
            if abs(ratio - par) < 1e-9:
                return None
            if ratio >= par:
                ref.set_mat(H)
            else:
                ref.update(s, y)
            want = ref.get_mat()
        else:
            ref.update(s, y)
            want = ref.get_mat() if sw else H
            if kind == 'HybridFixed':
                c = int(rng.integers(0, 6))
                h.update(s, y, H.copy(), c)
                sw = sw or c >= par
            else:
                it += int(rng.integers(1, 4))
                nu = int(rng.integers(0, it + 1))
                h.update(s, y, H.copy(), nu, it)
                sw = sw or (it > 25 and nu / it > par)
        new, diff = h.get_mat(), h.get_diff()
        mag = 1 + np.abs(want).max() + np.abs(old).max()
        if not np.all(np.isfinite(want)) or mag > 1e8:
            return None
        if not np.all(np.abs(new - want) <= 1e-9 * mag):
            return f'{d}: matrix {new.tolist()}, should be {want.tolist()} (switched: {sw})'
        if not np.all(np.abs(new - old - diff) <= 1e-9 * mag):
            return f'{d}: new matrix is not old + diff'


@case('C14', 4)
def handed_over(rng):
    """the data the optimizer hands to the approximation belongs to the accepted step"""
    res = rng.random() < .6
    p = P.Problem(rng, res=res, nonfinite=0)
    if p.huname == 'none':
        return None
    opt, rec = p.build()
    hu = opt.hessian_update
    log = []
    real = hu.update

    def upd(*a, **k):
        import inspect
        b = inspect.signature(real).bind(*a, **k).arguments
        log.append({n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in b.items()})
        return real(*a, **k)
    hu.update = upd
    kw = {} if p.hess0 is None else {'hess0': p.hess0}
    t = run(opt, rec, p.x0.copy(), **kw)
    j = 0
    cur = 0
    for k, a, e, b, s in pairs(t):
        if eq(a.x, b.x) and eq(a.fval, b.fval):
            if not eq(a.hess, b.hess):
                return f'iteration {k}: Hessian changed without an accepted step: {p}'
            continue
        if j >= len(log):
            return f'iteration {k}: no update of the approximation: {p}'
        u = log[j]
        j += 1
        f0, g0, H0 = p.fgh(t.evals[cur])
        f1, g1, H1 = p.fgh(e)
        dx = e.x - a.x
        sv = u.get('s', u.get('delta'))
        tol = 1e-9 * scale(a.x, e.x)

        def bad(nm, got, want, mag):
            return got is not None and not np.all(np.abs(np.asarray(got) - want) <= 1e-9 * (1 + mag))
        if sv is not None and not np.all(np.abs(sv - dx) <= tol):
            return f'iteration {k}: step handed over {sv} is not {dx}: {p}'
        gm = np.abs(g0).max() + np.abs(g1).max()
        if bad('y', u.get('y'), g1 - g0, gm):
            return f'iteration {k}: gradient change handed over is wrong: {p}'
        if H1 is not None and bad('hess', u.get('hess'), H1, np.abs(H1).max()):
            return f'iteration {k}: Hessian handed over is wrong: {p}'
        if p.res:
            r0, J0 = t.evals[cur].ret
            r1, J1 = e.ret
            m2 = gm + np.abs(J0).max() * np.abs(r1).max() * 10 + np.abs(H1).max() * np.abs(dx).max() * 10
            if bad('r', u.get('r'), r1, 0) or bad('rprev', u.get('rprev'), r0, 0):
                return f'iteration {k}: residuals handed over are wrong: {p}'
            yb = (J1 - J0).T @ r1
            gam = H1 @ dx + yb
            if p.huname in ('TSSM', 'GNSBFGS'):
                yb = yb * (np.linalg.norm(r1) / np.linalg.norm(r0))
            if bad('yb', u.get('yb'), yb, m2):
                return f'iteration {k}: structured gradient change handed over is wrong: {p}'
            if bad('gamma', u.get('gamma'), gam, m2):
                return f'iteration {k}: gamma handed over is wrong: {p}'
        if 'iter_since_tr_update' in u and u['iter_since_tr_update'] != b.iterations_since_tr_update:
            return f'iteration {k}: counter handed over is wrong: {p}'
        if 'iterations' in u and (u['iterations'] != k or u['tr_nonupdates'] != b.n_intermediate_tr_radius):
            return f'iteration {k}: counters handed over are wrong: {p}'
        if not eq(b.hess, b.hu_mat):
            return f'iteration {k}: Hessian in use is not that of the approximation: {p}'
        cur = k
    if t.error is None and j != len(log):
        return f'{len(log)} updates of the approximation for {j} accepted steps: {p}'


# ------------------------------------------------------------------ C15
def same_trace(a, b):
    if len(a.evals) != len(b.evals):
        return f'{len(a.evals)} / {len(b.evals)} evaluations'
    for k, (u, v) in enumerate(zip(a.evals, b.evals)):
        if not eq(u.x, v.x):
            return f'evaluation {k} at {u.x} / {v.x}'
    if type(a.error) is not type(b.error):
        return f'outcome {a.error!r} / {b.error!r}'
    if a.final.exitflag != b.final.exitflag:
        return f'status {a.final.exitflag!r} / {b.final.exitflag!r}'
    if a.result is not None:
        for nm, u, v in zip(('fval', 'x', 'grad', 'hess'), a.result, b.result):
            if not eq(u, v):
                return f'{nm} {u} / {v}'
        for nm in ('fval_min', 'x_min', 'grad_min', 'iteration', 'delta', 'converged'):
            if not eq(getattr(a.final, nm), getattr(b.final, nm)):
                return f'{nm} {getattr(a.final, nm)} / {getattr(b.final, nm)}'
    ha, hb = getattr(a, 'history', None), getattr(b, 'history', None)
    if ha is not None and hb is not None:
        if set(ha) != set(hb):
            return f'history keys {set(ha) ^ set(hb)}'
        for k in ha:
            if not eq(np.asarray(ha[k], dtype=object).astype(str), np.asarray(hb[k], dtype=object).astype(str)):
                return f'history of {k}'
    return None


@case('C15', 1)
def rerun(rng):
    p = P.Problem(rng, nonfinite=0)
    if rng.random() < .6:
        p.huname = None
        while p.huname in (None, 'none'):
            p.hu, p.huname = P.approx(rng, p.res)
        p.hess0 = None
    time_limit(rng, p)
    tmp = None
    if rng.random() < .3:
        tmp = tempfile.mkdtemp(prefix='vf_')
        p.opts[Options.HISTORY_FILE] = os.path.join(tmp, 'h.h5')
    if rng.random() < .5:
        p.opts[Options.MAXITER] = 30
    try:
        def runone(opt, rec, x0):
            p.clock.t = 1000.
            t = run(opt, rec, x0.copy(), p.clock)
            t.history = {k: list(v) for k, v in opt.history.items()}
            return t
        opt, rec = p.build()
        fresh = runone(opt, rec, p.x0)
        opt2, rec2 = p.build()
        inner = rec2.fun
        for _ in range(int(rng.integers(1, 3))):
            how = rng.integers(4)
            x1 = P.start(rng, p.lb, p.ub)
            if how == 0:
                runone(opt2, rec2, x1)
            elif how == 1:
                cnt = [int(rng.integers(1, 5))]

                def bad(x, **kw):
                    cnt[0] -= 1
                    if cnt[0] <= 0:
                        raise KeyError('user')
                    return inner(x, **kw)
                rec2.fun = bad
                runone(opt2, rec2, x1)
            elif how == 2:
                cnt = [int(rng.integers(1, 5))]

                def nf(x, **kw):
                    cnt[0] -= 1
                    r = inner(x, **kw)
                    if cnt[0] <= 0:
                        return (r[0] * np.nan, *r[1:])
                    return r
                rec2.fun = nf
                runone(opt2, rec2, x1)
            else:
                i = rng.integers(p.n)
                x2 = x1.copy()
                x2[i] = p.ub[i] + 1 if np.isfinite(p.ub[i]) else x2[i]
                runone(opt2, rec2, x2)
            rec2.fun = inner
        again = runone(opt2, rec2, p.x0)
        d = same_trace(fresh, again)
        if d:
            return f'run on a used optimizer differs from a fresh one ({d}): {p}'
    finally:
        if tmp:
            shutil.rmtree(tmp)


# ------------------------------------------------------------------ C16
@case('C16', 1)
def malformed(rng):
    n = int(rng.integers(2, 5))
    name, f = P.objective(rng, n)
    lb, ub = np.full(n, -5.), np.full(n, 5.)
    x0 = np.zeros(n) + .1
    kind = int(rng.integers(18))
    hu, resfun, kw, fun = None, False, {}, f
    what = ''

    def wrap(g):
        return lambda x: g(*f(x))
    ok_expected = False
    H0 = None
    if kind == 0:
        fun, what = wrap(lambda a, b, c: (a, b)), '2 values'
    elif kind == 1:
        fun, what = wrap(lambda a, b, c: (np.array([a]), b, c)), 'vector value'
    elif kind == 2:
        fun, what = wrap(lambda a, b, c: (a, np.r_[b, 0.], c)), 'long gradient'
    elif kind == 3:
        fun, what = wrap(lambda a, b, c: (a, b[None, :], c)), '2d gradient'
    elif kind == 4:
        fun, what = wrap(lambda a, b, c: (a, a, c)), 'scalar gradient'
    elif kind == 5:
        fun, what = wrap(lambda a, b, c: (a, b, b)), 'vector Hessian'
    elif kind == 6:
        cut = [lambda c: c[:-1], lambda c: c[:, :-1], lambda c: np.hstack([c, c]), lambda c: np.vstack([c, c])][
            rng.integers(4)]
        fun, what = wrap(lambda a, b, c: (a, b, cut(c))), 'non-square Hessian'
    elif kind == 7:
        fun, what = wrap(lambda a, b, c: (a, b, np.eye(n + 1))), 'large Hessian'
    elif kind == 8:
        fun, what = wrap(lambda a, b, c: (a, b, float(a))), 'scalar Hessian'
    elif kind == 9:
        x0, what = np.ones((n, 1)) * .1, '2d start'
    elif kind == 10:
        hu, kw, what = fides.BFGS(), {'hess0': np.eye(n + 1)}, 'large hess0'
        fun = wrap(lambda a, b, c: (a, b))
    elif kind == 11:
        hu, kw, what = fides.SR1(), {'hess0': np.ones((n, n + 2))}, 'non-square hess0'
        fun = wrap(lambda a, b, c: (a, b))
    elif kind == 12:
        hu, what = fides.BFGS(), '3 values for 2'
    elif kind == 13:
        what, ok_expected = 'consistent', True
        if rng.random() < .5:
            hu, fun = fides.BFGS(), wrap(lambda a, b, c: (a, b))
            if rng.random() < .5:
                kw = {'hess0': np.eye(n)}
    elif kind == 14:
        fun, what = (lambda x: f(x)[0]), 'no tuple'
    elif kind == 15:
        hu, resfun, what = [fides.SSM(), fides.FX(), fides.GNSBFGS()][rng.integers(3)], False, 'approximation needs residuals'
    elif kind == 16:
        hu, resfun, what = [fides.BFGS(), fides.HybridFixed()][rng.integers(2)], True, 'approximation needs values'
    else:
        x0, what = np.array(.1), 'scalar start'
    err = None
    rec = Recorder(fun)
    try:
        opt = fides.Optimizer(rec, ub, lb, verbose=40, options={'maxiter': 2}, hessian_update=hu, resfun=resfun)
        t = run(opt, rec, x0, **kw)
        err = t.error
        calls, tried = rec.calls, t.tr_calls
    except Exception as ex:
        err = ex
        calls = tried = 0
    if ok_expected:
        return f'consistent problem rejected: {err!r}' if err is not None and not isinstance(err, RuntimeError) else None
    if not isinstance(err, ValueError):
        return f'{what}: {err!r} instead of a ValueError'
    if calls > 1:
        return f'{what}: rejected only after a step'
    if tried:
        return f'{what}: rejected only when a step was computed'


# ------------------------------------------------------------------ C17
def inject(rng):
    """a run in which one evaluation returns a value that is not finite"""
    p = P.Problem(rng, nonfinite=0, res=False, hess=rng.random() < .6, opts={Options.MAXITER: 12, Options.GATOL: 0.,
                                                                               Options.FATOL: 0., Options.FRTOL: 0.})
    opt, rec = p.build()
    at = int(rng.integers(0, 4))
    where = int(rng.integers(4))
    bad = float(rng.choice(['nan', 'inf', '-inf']))
    inner = rec.fun
    cnt = [-1]
    hist = []

    def f(x):
        cnt[0] += 1
        r = list(inner(x))
        if cnt[0] == at:
            if where == 0 or where == 3:
                r[0] = bad
            if where == 1 or where == 3:
                r[1] = r[1].copy()
                r[1][rng.integers(p.n)] = bad
            if where == 2 and len(r) == 3:
                r[2] = r[2].copy()
                i, j = rng.integers(p.n), rng.integers(p.n)
                r[2][i, j] = r[2][j, i] = bad
        return tuple(r)
    rec.fun = f
    t = run(opt, rec, p.x0.copy(), **({} if p.hess0 is None else {'hess0': p.hess0}))
    hit = len(t.evals) > at
    d = f'bad={bad} at evaluation {at} in part {where}: {p}'
    injected = hit and not (where == 2 and len(t.evals[at].ret) < 3)
    return p, t, at, where, injected, d


@case('C07', 1)
def exit_status_nonfinite(rng):
    p, t, at, where, injected, d = inject(rng)
    if injected and isinstance(t.error, RuntimeError) and not finite_last(p, t) \
            and t.final.exitflag != ExitFlag.NOT_FINITE:
        return f'run stopped by non-finite values with status {t.final.exitflag!r}: {d}'


@case('C17', 1)
def nonfinite(rng):
    p, t, at, where, injected, d = inject(rng)
    for b in t.states():
        if b is t.final and t.error is not None:
            continue
        if not (np.isfinite(b.fval) and np.all(np.isfinite(b.grad)) and np.all(np.isfinite(b.hess))):
            return f'iterate with non-finite data: {d}'
    if not injected:
        return None
    must_stop = at == 0 or where in (1, 2)
    if must_stop:
        if not isinstance(t.error, RuntimeError) or t.final.exitflag != ExitFlag.NOT_FINITE:
            return f'not stopped properly ({t.error!r}, {t.final.exitflag!r}): {d}'
        if len(t.evals) != at + 1:
            return f'{len(t.evals)} evaluations: {d}'
    else:
        if t.error is not None and finite_last(p, t):
            return f'{t.error!r}: {d}'
        st = t.states()
        if at < len(st) and (t.error is None or at < len(t.evals) - 1):
            a, b = st[at - 1], st[at]
            if not (eq(a.x, b.x) and eq(a.fval, b.fval) and eq(a.grad, b.grad) and eq(a.hess, b.hess)):
                return f'point with non-finite value not rejected: {d}'
            if not b.delta < a.delta:
                return f'radius did not shrink ({a.delta} -> {b.delta}): {d}'


# ------------------------------------------------------------------ C18
@case('C18', 1)
def residuals(rng):
    p = P.Problem(rng, res=True)
    t = p.run()
    for k, b in enumerate(t.states()):
        for e in t.evals[:k + 1]:
            f, g, H = p.fgh(e)
            if eq(f, b.fval) or abs(f - b.fval) <= 1e-12 * abs(f):
                if close(g, b.grad, 1e-9) or np.all(np.abs(g - b.grad) <= 1e-10 * (1 + np.abs(g).max())):
                    break
        else:
            return f'iterate {k}: value {b.fval} and gradient belong to no evaluation: {p}'


@case('C18', 2)
def evaluator(rng):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    r, J, x = rng.normal(size=m), rng.normal(size=(m, n)), rng.normal(size=n)
    fa = {'a': 3, 'b': rng.normal(size=2)} if rng.random() < .7 else None
    got = []

    def fun(x, **kw):
        got.append(kw)
        return r, J
    fo = fmin.FunEvaluator(fun, 2, True, fa)(x)
    d = f'r={r.tolist()} J={J.tolist()}'
    if abs(fo.fval - .5 * r @ r) > 1e-12 * (1 + r @ r):
        return f'value {fo.fval}: {d}'
    mg = np.abs(J).max() * np.abs(r).sum() + 1
    if np.shape(fo.grad) != (n,) or np.abs(fo.grad - J.T @ r).max() > 1e-12 * mg:
        return f'gradient {fo.grad}: {d}'
    if np.shape(fo.hess) != (n, n) or np.abs(fo.hess - J.T @ J).max() > 1e-12 * m * (1 + np.abs(J).max() ** 2):
        return f'Hessian {fo.hess}: {d}'
    if not eq(fo.res, r) or not eq(fo.sres, J) or not eq(fo.x, x):
        return f'residual, derivative or point not passed on: {d}'
    if got[0].keys() != (fa or {}).keys() or any(got[0][k] is not v for k, v in (fa or {}).items()):
        return f'keyword arguments {got[0]} instead of {fa}'
    g, H = rng.normal(size=n), rng.normal(size=(n, n))
    three = rng.random() < .5
    fo = fmin.FunEvaluator(lambda x, **kw: (1.25, g, H) if three else (1.25, g), 3 if three else 2, False, fa)(x)
    if fo.fval != 1.25 or not eq(fo.grad, g) or (not eq(fo.hess, H) if three else fo.hess is not None):
        return 'value, gradient or Hessian not passed on unchanged'


@case('C18', 1)
def funargs(rng):
    p = P.Problem(rng, nonfinite=0)
    fa = {'k': float(rng.normal()), 'tag': 'q'}
    inner = p.raw()
    rec = Recorder(lambda x, **kw: inner(x))
    opt = fides.Optimizer(rec, p.ub, p.lb, verbose=40, options=p.opts, hessian_update=p.hu(), resfun=p.res, funargs=fa)
    t = run(opt, rec, p.x0.copy())
    for k, e in enumerate(t.evals):
        if e.kw != fa:
            return f'evaluation {k} got {e.kw} instead of {fa}'


# ------------------------------------------------------------------ C19
@case('C19', 1)
def history(rng):
    import h5py
    p = P.Problem(rng, nonfinite=.2)
    tmp = tempfile.mkdtemp(prefix='vf_')
    try:
        fn = os.path.join(tmp, 'h.h5')
        p.opts[Options.HISTORY_FILE] = fn
        opt, rec = p.build()
        done = []
        nruns = int(rng.integers(1, 4))
        first = {}
        for j in range(nruns):
            x0 = p.x0 if j == 0 else P.start(rng, p.lb, p.ub)
            sid = f's{j}'
            t = run(opt, rec, x0.copy(), start_id=sid)
            if t.error is not None:
                if not isinstance(t.error, RuntimeError) and not t.external:
                    return f'{t.error!r}: {p}'
                return None
            done.append(sid)
            with h5py.File(fn, 'r') as f:
                if sorted(f.keys()) != sorted(done):
                    return f'groups {sorted(f.keys())}, should be {sorted(done)}: {p}'
                its = len(t.evals) - 1
                g = f[sid]
                data = {k: g[k][()] for k in g.keys()}
                for s in done[:-1]:
                    for k in f[s].keys():
                        if not eq(f[s][k][()], first[s][k]):
                            return f'earlier group {s} changed in {k}: {p}'
                first[sid] = data
            if its == 0:
                continue
            for k, v in data.items():
                if len(v) != its:
                    return f'{len(v)} entries of {k} for {its} iterations: {p}'
            for k, a, e, b, s in pairs(t):
                fv = p.fgh(e)[0]
                i = k - 1
                acc = not (eq(a.x, b.x) and eq(a.fval, b.fval))
                exp = [('fval', fv), ('tr_ratio', b.tr_ratio), ('tr_radius', a.delta_iter), ('accept', acc)]
                if s is not None:
                    exp += [('normstep', np.linalg.norm(s['s'] + s['s0']))]
                for key, val in exp:
                    if key not in data:
                        return f'{key} not recorded: {p}'
                    got = data[key][i]
                    if not (got == val or abs(float(got) - float(val)) <= 1e-9 * (abs(float(val)) + 1e-300)
                            or (np.isnan(float(got)) and np.isnan(float(val)))):
                        return f'iteration {k}: recorded {key}={got}, should be {val}: {p}'
                if 'normgrad' in data and not abs(data['normgrad'][i] - np.linalg.norm(b.grad)) <= 1e-9 * (1 + np.linalg.norm(b.grad)):
                    return f'iteration {k}: recorded gradient norm {data["normgrad"][i]}: {p}'
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ C20
@case('C20', 3)
def option_checks(rng):
    reals = ['maxtime', 'fatol', 'frtol', 'xtol', 'gatol', 'grtol', 'theta_max', 'delta_init', 'mu', 'eta', 'gamma1',
             'gamma2']
    lb, ub = -np.ones(2), np.ones(2)

    def mk(o):
        return fides.Optimizer(lambda x: None, ub, lb, verbose=40, options=o)

    def key(s):
        return Options(s) if rng.random() < .5 else s

    def outcome(o):
        try:
            return mk(o)
        except Exception as ex:
            return ex
    k = int(rng.integers(9))
    if k == 0:
        o, want = {str(rng.choice(['foo', 'maxit', 'Maxiter', 'theta', 'subspace_dim', 'option1'])): 1}, ValueError
    elif k == 1:
        o, want = {key(str(rng.choice(reals))): [None, 'a', [1.], 1j][rng.integers(1, 4)]}, TypeError
    elif k == 2:
        o, want = {key('maxiter'): [2.5, '3', 1j, 'x', [4]][rng.integers(5)]}, TypeError
    elif k == 3:
        o, want = {key('maxiter'): [7, 7., np.int64(7), np.float64(7.)][rng.integers(4)]}, 7
    elif k == 4:
        o, want = {key('subspace_solver'): str(rng.choice(['3D', 'FULL', 'two', '']))}, ValueError
    elif k == 5:
        o, want = {key('stepback_strategy'): str(rng.choice(['reflectt', 'MIXED', '']))}, ValueError
    elif k == 6:
        o, want = {key('history_file'): [3, 2.5, ['a']][rng.integers(3)]}, TypeError
    elif k == 7:
        nm = str(rng.choice(reals))
        v = float(rng.uniform(0, .9))
        o, want = {key(nm): v}, v
    else:
        d = {'subspace_solver': ['2D', 'full', 'scg'], 'stepback_strategy': ['reflect', 'reflect_single', 'truncate',
                                                                             'mixed']}
        nm = list(d)[rng.integers(2)]
        v = d[nm][rng.integers(len(d[nm]))]
        o, want = {key(nm): v}, v
    if rng.random() < .6:
        # among other, valid options
        more = {'maxiter': [3, 3., np.float32(5)][rng.integers(3)], Options.FATOL: [0, 1e-3][rng.integers(2)],
                'stepback_strategy': 'reflect', Options.SUBSPACE_DIM: '2D', 'history_file': 'f.h5', 'eta': .7}
        more = [(q, v) for q, v in more.items() if Options(q) not in
                {Options(a) for a in o if a in [m.value for m in Options]} and rng.random() < .5]
        more = [more[i] for i in rng.permutation(len(more))]
        cut = int(rng.integers(len(more) + 1))
        first = list(o)[0]
        both = dict(more[:cut] + list(o.items()) + more[cut:])
    else:
        first, both = list(o)[0], dict(o)
    o = both
    r = outcome(dict(o))
    if isinstance(want, type):
        return None if isinstance(r, want) else f'options {o}: {r!r} instead of {want.__name__}'
    if isinstance(r, Exception):
        return f'valid options {o} rejected: {r!r}'
    nm = Options(first)
    if r.get_option(nm) != want:
        return f'option {nm} is {r.get_option(nm)!r}, set to {want!r}'
    if any(r.get_option(Options(a)) != v for a, v in o.items()):
        return f'options {o} are changed to {r.options}'
    for q in Options:
        if q not in {Options(a) for a in o} and not (r.get_option(q) == DOC_DEFAULTS[q.value] or
                                (r.get_option(q) is None and DOC_DEFAULTS[q.value] is None)):
            return f'default of {q} is {r.get_option(q)!r}'


DOC_DEFAULTS = {'maxiter': 1e3, 'maxtime': np.inf, 'fatol': 1e-8, 'frtol': 1e-8, 'xtol': 0, 'gatol': 1e-6, 'grtol': 0,
                'subspace_solver': '2D', 'stepback_strategy': 'reflect', 'theta_max': .95, 'delta_init': 1., 'mu': .25,
                'eta': .75, 'gamma1': .25, 'gamma2': 2, 'history_file': None}


@case('C20', 1)
def options_used(rng):
    """falsy but set options are used"""
    p = P.Problem(rng, nonfinite=0, hess=True)
    p.opts = {Options.MAXITER: int(rng.integers(0, 3))}
    t = p.run()
    if t.error is None and len(t.evals) - 1 > p.opts[Options.MAXITER]:
        return f'maxiter={p.opts[Options.MAXITER]} not used: {len(t.evals) - 1} iterations'
    v = [0, 0., False][rng.integers(3)]
    o = [Options.FATOL, Options.FRTOL, Options.GATOL, Options.THETA_MAX, Options.MU][rng.integers(5)]
    opt = fides.Optimizer(lambda x: None, p.ub, p.lb, verbose=40, options={o: v})
    if opt.get_option(o) != 0:
        return f'option {o}={v} is replaced by {opt.get_option(o)}'


@case('C20', 1)
def options_used_run(rng):
    """theta_max, delta_init and the solver names reach the step computation"""
    p = P.Problem(rng, nonfinite=0)
    t = p.run()
    for s in t.steps:
        i = s['in']
        if 'subspace_dim' in i and i['subspace_dim'] != opt_of(p, Options.SUBSPACE_DIM):
            return f'solver {i["subspace_dim"]} used: {p}'
        if 'stepback_strategy' in i and i['stepback_strategy'] != opt_of(p, Options.STEPBACK_STRAT):
            return f'strategy {i["stepback_strategy"]} used: {p}'
        if 'theta' in i:
            b = s['before']
            bd = np.where(b.grad < 0, p.ub, p.lb)
            fin = np.isfinite(bd)
            v = np.where(fin, b.x - np.where(fin, bd, 0), 1.)
            th = max(opt_of(p, Options.THETA_MAX), 1 - np.abs(v * b.grad).max())
            if abs(i['theta'] - th) > 1e-9:
                return f'theta {i["theta"]} used, should be {th}: {p}'
    if t.steps and 'delta' in t.steps[0]['in'] and t.steps[0]['in']['delta'] != opt_of(p, Options.DELTA_INIT):
        return f'initial radius {t.steps[0]["in"]["delta"]}: {p}'


# ------------------------------------------------------------------ C21
@case('C21', 1)
def returned(rng):
    p = P.Problem(rng)
    lb, ub, x0 = p.lb.copy(), p.ub.copy(), p.x0.copy()
    h0 = None if p.hess0 is None else p.hess0.copy()
    opt, rec = p.build()
    raws = []
    inner = rec.fun

    def keep(x):
        r = inner(x)
        raws.append((r, tuple(np.array(v, copy=True) for v in r)))
        return r
    rec.fun = keep
    lb_in, ub_in = lb.copy(), ub.copy()
    opt = fides.Optimizer(rec, ub_in, lb_in, verbose=40, options=dict(p.opts), hessian_update=p.hobj, resfun=p.res)
    x_in = x0.copy()
    t = run(opt, rec, x_in, **({} if p.hess0 is None else {'hess0': p.hess0}))
    if not (eq(lb_in, lb) and eq(ub_in, ub) and eq(x_in, x0) and (h0 is None or eq(p.hess0, h0))):
        return f'an argument of the user was modified: {p}'
    for k, (r, c) in enumerate(raws):
        if any(not eq(u, v) for u, v in zip(r, c)):
            return f'an array returned by evaluation {k} was modified: {p}'
    if t.result is None:
        return None
    f, x, g, H = t.result
    for e in t.evals:
        fe, ge, He = p.fgh(e)
        if abs(fe - f) <= 1e-13 * abs(f) and close(ge, g, 1e-9 if p.res else 1e-15) \
                and np.all(np.abs(e.x - x) <= SHIFT + 4 * np.spacing(np.abs(x))) \
                and (p.huname != 'none' or close(He, H)):
            break
    else:
        return f'returned value, point, gradient and Hessian belong to no single evaluation: {p}'
    if p.huname != 'none':
        m = opt.hessian_update.get_mat()
        if not eq(m, H):
            return f'returned Hessian is not the approximation: {p}'


# ------------------------------------------------------------------ C22
@case('C22', 1)
def subspace(rng):
    from scipy.sparse import csc_matrix
    import logging
    c = step_case(rng, sub=SubSpaceDim.TWO, strat=StepBackStrategy.SINGLE_REFLECT, zero_grad=0, skew=0)
    step, cands = c.call()
    if not cands:
        return None
    V = cands[0].subspace
    k = V.shape[1]
    if not np.all(np.isfinite(V)) or k > 2 or V.shape[0] != c.n:
        return f'subspace {V}: {c}'
    if c.n == 1:
        return None if k == 1 and V[0, 0] != 0 else f'subspace {V}: {c}'
    if np.abs(V.T @ V - np.eye(k)).max() > 1e-8 and not (k == 1 and np.all(V == 0)):
        return f'subspace not orthonormal {V.tolist()}: {c}'
    e = np.linalg.eigvalsh(c.B)
    mx = np.abs(e).max()

    def inside(u, what, tol=1e-6):
        nu = np.linalg.norm(u)
        if nu > 1e-12 and np.linalg.norm(u - V @ (V.T @ u)) > tol * nu:
            return f'subspace misses the {what}: {c}'
    if e[0] > 1e-8 * mx:
        newt = -np.linalg.solve(c.B, c.sg)
        r = inside(newt, 'Newton direction')
        if r:
            return r
        if np.linalg.norm(newt) > c.delta * (1 + 1e-9):
            r = inside(c.sg, 'scaled gradient')
    elif e[0] < -1e-8 * mx:
        P2 = V.T @ c.B @ V
        lam = np.linalg.eigvalsh(.5 * (P2 + P2.T))[0]
        if lam > e[0] + 1e-6 * mx:
            return f'subspace misses the most negative curvature ({lam} > {e[0]}): {c}'
        r = inside(c.S * (np.sign(c.sg) + (c.sg == 0)), 'scaled sign of the gradient')
    else:
        r = None
    if r:
        return r
    st = cands[0]
    if st.chess is not None and st.cg is not None:
        if not np.all(np.abs(st.chess - V.T @ c.B @ V) <= 1e-8 * (1 + np.abs(c.B).max() * c.n)) or \
                not np.all(np.abs(st.cg - V.T @ c.sg) <= 1e-8 * (1 + np.abs(c.sg).max() * c.n)):
            return f'reduced problem is not the restriction of the model: {c}'
