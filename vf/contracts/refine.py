"""The refined step (interior point solution in the subspace)."""
from .common import *
from .steps_ import (World, ident, step_back_stub, stub_method, base_facts, step_facts, scalar_facts, check_radius, check_moves,
                     same, sym_step, TOL)

ASSUME = ["scipy's trust-constr solver returns a finite point (it need not satisfy the constraints it is given)"]


def parts(v):
    """a vector or scalar as list of (vector, entry)"""
    return v.v if isinstance(v, SVec) else v


def constraint(c0, x):
    """(value, lower, upper) of a constraint object at x"""
    name, a, k = c0.name, c0.a, c0.k
    if name == 'NonlinearConstraint':
        names = ('fun', 'lb', 'ub')
    else:
        names = ('A', 'lb', 'ub')
    v = dict(zip(names, a))
    v.update({n: k[n] for n in names if n in k})
    if any(n not in v for n in names):
        raise Unsupported('constraint')
    val = v['fun'](x) if name == 'NonlinearConstraint' else v['A'].dot(x)
    return val, v['lb'], v['ub']


def check_jac(con, x):
    """trust-constr fails with an exception if a jacobian is not finite"""
    jac = con.k.get('jac', con.a[3] if len(con.a) > 3 else None)
    if con.name != 'NonlinearConstraint' or not callable(jac):
        return
    j = jac(x)
    if isinstance(j, SMat):
        fin = tob(j.me.finite())
    elif isinstance(j, SVec):
        fin = fine(entry(j, at(j.dom)))
    else:
        raise Unsupported('jacobian of the constraint')
    check('the jacobian of the constraints is finite', fin)


def entry(v, t):
    v = v.v if isinstance(v, SVec) else lift(v)
    return v.elem(t) if isinstance(v, VE) else v


def minimize_stub(fun, x0=None, *r, **kw):
    """assumed contract of scipy.optimize.minimize: the result is finite"""
    c = ctx()
    x0 = kw.get('x0', x0)
    if r or not isinstance(x0, SVec) or 'constraints' not in kw:
        raise Unsupported('arguments of scipy.optimize.minimize')
    x = SVec(base_vec('xc', x0.dom))
    zero = SVec(VE(x0.dom, {}))
    for con in (kw['constraints'] if isinstance(kw['constraints'], (list, tuple)) else [kw['constraints']]):
        if not hasattr(con, 'name'):
            raise Unsupported('constraint')
        val, lo, hi = constraint(con, zero)
        t = None
        if isinstance(val, SVec):
            if isinstance(val.dom.n, int):
                t = 0
            else:
                t = at(val.dom)
            val = val.v.elem(t)
        val = lift(val)
        for q in (lo, hi):
            check('the constraints of the refinement are numbers', bnot(entry(q, t).nan))
        check('the constraints of the refinement admit the zero step', band(entry(lo, t)._cmp_le(val),
                                                                         val._cmp_le(entry(hi, t))))
        check_jac(con, zero)
        check_jac(con, SVec(base_vec('xj', x0.dom)))
    c.ghost['min'] = (fun, x, kw)
    r = shim.OptResult()
    r.x, r.success, r.status = x, mkb(c.fresh('succ', 'B')), 0
    return r


@task(['C02', 'C01', 'C03'], ['steps.RefinedStep.__init__', 'steps.RefinedStep.calculate'], ASSUME, budget=20)
def refined_step():
    S = code().steps
    c = ctx()
    W = World(dim())
    n = W.n
    kd = c.fresh('k', 'I')
    c.add(kd >= 1)
    M = Mat('W', n, Dom(kd, 'k'), orth=True)
    M.square = False
    old = sym_step(W, SMat(M.me()))
    old.ss0, old.s0 = SVec(VE(n, {})), SVec(VE(n, {}))
    B = Mat('shess', n, n).me()
    old.chess = SMat(M.me().T().mul(B).mul(M.me()))
    old.cg = SVec(M.me().T().apply(W.sg.v))
    with patched(S, minimize=minimize_stub), stub_method(S.Step, 'step_back', step_back_stub):
        st = S.RefinedStep(*W.args(), old)
        check('scaled model', arr.mekey(st.shess.me) == arr.mekey(W.shess) and st.sg.v.key == W.sg.v.key)
        st.shess = SMat(B)
        st.calculate()
    W.frame()
    if 'min' not in c.ghost:
        raise Unsupported('scipy.optimize.minimize is not used')
    fun, x, kw = c.ghost['min']
    v = M.me().apply(x.v)
    y = SVec(base_vec('y', x.v.dom))
    check('objective of the refinement is the model',
          lift(fun(y))._cmp_eq(qform(B, W.sg.v, M.me().apply(y.v))))
    t = at(n)
    for nm, f in base_facts(W, st, t):
        check(nm, f)
    for nm, f in step_facts(W, st, t):
        check(nm, f)
    nv, d, og = norm2(v), lift(W.delta), st.og_ss.v.elem(t)
    check('the full step is that of the refinement, cut at the trust region',
          xite(nv._cmp_le(d), v.elem(t), v.elem(t) * (d / nv))._cmp_eq(og))
    lemma_normalized(v)
    for nm, f in scalar_facts(W, st):
        have(nm, f)
    check_radius(W, st)
    check('model value is that of the step', lift(st.qpval)._cmp_eq(qform(B, W.sg.v, st.ss.v)))
    check_moves(W, st, lift(st.qpval), B, st.ss.v)
