"""Building blocks of the contracts: symbolic inputs and specification functions."""
import inspect
import types
import z3
from .. import core, vec, arr, shim
from ..core import (XR, SB, SInt, Dom, Unsupported, ZERO, ONE, band, bor, bnot, bimp, biff, b_of, bite, fresh_xr,
                    is_b, isnum, lift, mkb, rc, req, rle, rlt, tob, xite, constdom)
from ..vec import VE, BE, ME, Mat, C, vadd, vmul, vscale, vconst, dot, normsq, norm2, settle_vec, base_vec
from ..arr import SVec, SBVec, SMat, SSparse, SIdx
from ..loader import Loader, LoopContract
from ..task import task, TASKS

_loader = None


def code():
    global _loader
    if _loader is None:
        _loader = Loader()
    return _loader


def ctx():
    return core.CTX


def dim(name='n', least=1):
    d = Dom(z3.Int(name), name)
    ctx().add(d.nz >= least)
    return d


def vecvar(name, dom, finite=True, kinds=('nan', 'pinf', 'ninf')):
    return SVec(base_vec(name, dom, finite, kinds))


def forall(dom, fn):
    ctx().forall(dom, fn)


def at(dom):
    """an arbitrary index (for goals)"""
    return ctx().index(dom, 'g')


def check(name, goal):
    ctx().check(name, b_of(goal) if not (is_b(goal) or z3.is_expr(goal)) else goal)


def have(name, goal):
    ctx().have(name, goal)


def assume(f):
    ctx().add(f)


def real(name):
    return XR(ctx().fresh(name))


def bounds(dom):
    """lower and upper bounds: lb < ub, possibly infinite"""
    lb = vecvar('lb', dom, False, ('ninf',))
    ub = vecvar('ub', dom, False, ('pinf',))
    l, u = lb.v, ub.v
    forall(dom, lambda t: l.elem(t)._cmp_lt(u.elem(t)))
    return lb, ub


def inside(x, lb, ub, t, strict=False):
    f = XR._cmp_lt if strict else XR._cmp_le
    e = x.v.elem(t)
    return band(f(lb.v.elem(t), e), f(e, ub.v.elem(t)))


def assume_inside(x, lb, ub, strict=False):
    """for all entries (the values are those of now: the arrays may be changed later)"""
    x, lb, ub = SVec(x.v), SVec(lb.v), SVec(ub.v)
    forall(x.v.dom, lambda t: inside(x, lb, ub, t, strict))


def eqv(a, b, t):
    """elements of two vectors are the same at t"""
    ea, eb = a.elem(t), b.elem(t)
    return ea.same(eb)


def check_eqvec(name, a, b):
    a = a.v if isinstance(a, SVec) else a
    b = b.v if isinstance(b, SVec) else b
    if a.finite and b.finite and a.key == b.key:
        ctx().check(name, True)
        return
    if not vec.same_d(a.dom, b.dom):
        ctx().check(name, False)
        return
    if isinstance(a.dom.n, int):
        ctx().check(name, band(*[eqv(a, b, j) for j in range(a.dom.n)]))
        return
    t = at(a.dom)
    ctx().check(name, eqv(a, b, t))


def qform(me, g, x):
    """0.5 x'Bx + g'x  (x, g vector expressions)"""
    return rmulx(0.5, dot(x, me.apply(x))) + dot(g, x)


def rmulx(c, x):
    return lift(c) * x


def conform(real, stub):
    """stub, called as the real function is: the arguments are bound to the parameters of the real function (its current
    source), so that keyword arguments, defaults and the order of the parameters may change"""
    if not (isinstance(real, types.FunctionType) and isinstance(stub, types.FunctionType)):
        return stub
    if real.__module__.partition('.')[0] != 'fides':
        return stub
    rs, ss = inspect.signature(real), inspect.signature(stub)
    plain = (inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.KEYWORD_ONLY)
    if any(p.kind not in plain for p in rs.parameters.values()):
        return stub
    own, names = list(rs.parameters), [k for k, p in ss.parameters.items() if p.kind in plain]
    rest = any(p.kind == p.VAR_KEYWORD for p in ss.parameters.values())
    if set(names) <= set(own):
        match = {k: k for k in names}
    elif (len(own) == len(names) or rest and len(own) > len(names)) and \
            all(own.index(k) == i for i, k in enumerate(names) if k in own):
        match = dict(zip(names, own))
    else:
        match = None

    def call(*a, **kw):
        b = rs.bind(*a, **kw)
        v = dict(b.arguments)
        if match is None or not rest and set(v) - set(match.values()):
            raise Unsupported(f'parameters of {real.__name__}')
        b.apply_defaults()
        d = {k: b.arguments[m] for k, m in match.items()}
        try:
            ss.bind(**d)
        except TypeError:
            raise Unsupported(f'parameters of {real.__name__}')
        d.update({k: x for k, x in v.items() if k not in match.values() and k not in d} if rest else {})
        return stub(**d)
    return call


class patched:
    """replaces functions of a module by their contracts (names that do not exist are left alone)"""

    def __init__(self, mod, **fns):
        self.mod, self.fns, self.old = mod, fns, {}

    def __enter__(self):
        for k, f in self.fns.items():
            if k in self.mod.__dict__:
                self.old[k] = self.mod.__dict__[k]
                setattr(self.mod, k, conform(self.old[k], f))
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(self.mod, k, f)


def need(obj, *names):
    """the contract talks about these attributes: without them the task is undecided"""
    for k in names:
        if not hasattr(obj, k):
            raise Unsupported(f'no attribute {k} of {type(obj).__name__}')


def lemma_normalized(v):
    """|(d/|v|) v| = d for every quotient d/|v| computed by the code"""
    c = ctx()
    nn, r = core.canon(normsq(v).val), core.canon(norm2(v).val)
    for q, a, b in list(c.quots):
        if core.canon(b).eq(r) and ('normalized', q.get_id()) not in c.memo:
            c.memo['normalized', q.get_id()] = True
            vq, va, vr, vn = (c.fresh('nm') for _ in range(4))
            g = z3.Implies(z3.And(vr != 0, vq * vr == va, vr * vr == vn), vq * vq * vn == va * va)
            c.lemma('length of a scaled vector', g)
            c.add(z3.substitute(g, (vq, q), (va, a), (vr, r), (vn, nn)))


def try_lemma(name, premise, goal, ms=3000):
    """goal follows from these facts alone: proof step, if the solver finds a proof at once"""
    g = z3.Implies(z3.And(*premise), tob(goal))
    s = z3.SolverFor('QF_NRA')
    s.set('timeout', ms)
    s.add(z3.Not(g))
    if s.check() != z3.unsat:
        return False
    ctx().lemma(name, g)
    return True


def use_lemma(name, premise, concl, variables, values, ms=1500):
    """premise ==> concl for all values of the variables; added for these values if the premise holds"""
    c = ctx()
    c.lemma(name, z3.Implies(z3.And(*premise), z3.And(*concl)), keep=False)
    sub = lambda f: z3.substitute(f, *zip(variables, values))
    if all(c.entails(sub(p), ms) for p in premise):
        for f in concl:
            c.add(sub(f))
        return True
    return False
