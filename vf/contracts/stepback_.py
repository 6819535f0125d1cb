from .common import *


def raw_step(S, dom, cls=None):
    """a Step object after compute_step: everything step_back reads"""
    cls = cls or S.Step
    st = cls.__new__(cls)
    st.x = vecvar('x', dom)
    st.lb, st.ub = bounds(dom)
    st.s = vecvar('s', dom)
    st.ss = vecvar('ss', dom)
    st.sc = vecvar('sc', dom)
    st.s0 = vecvar('s0', dom)
    st.ss0 = vecvar('ss0', dom)
    st.theta = real('theta')
    st.alpha, st.minbr = lift(1.0), lift(1.0)
    st.br = vecvar('br', dom)
    st.iminbr = SVec(VE(constdom(0), {}))
    assume(band(st.theta.val > 0, st.theta.val <= 1))
    assume_inside(st.x, st.lb, st.ub)
    return st


@task(['C01', 'C02', 'C03'], ['steps.Step.step_back'])
def step_back():
    S = code().steps
    n = dim()
    st = raw_step(S, n)
    s, ss, sc = st.s.v, st.ss.v, st.sc.v
    theta = st.theta
    st.step_back()
    a = st.alpha
    t = at(n)
    check('alpha is a number', a.fin)
    check('0 <= alpha', rle(ZERO, a.val))
    check('alpha <= 1', rle(a.val, ONE))
    check_eqvec('og_s is the step before', st.og_s, s)
    check_eqvec('og_ss is the scaled step before', st.og_ss, ss)
    check_eqvec('s == alpha*og_s', st.s, vscale(a, s))
    check_eqvec('ss == alpha*og_ss', st.ss, vscale(a, ss))
    check_eqvec('sc == alpha*og_sc', st.sc, vscale(a, sc))
    check('lb <= x+s', st.lb.v.elem(t)._cmp_le(vadd(st.x.v, st.s.v).elem(t)))
    check('x+s <= ub', vadd(st.x.v, st.s.v).elem(t)._cmp_le(st.ub.v.elem(t)))
    mb = lift(st.minbr)
    check('theta is not changed', st.theta is theta)
    p = st.x.v.elem(t) + core.xmin(1, mb) * s.elem(t)
    check('the breakpoint is inside the bounds', band(st.lb.v.elem(t)._cmp_le(p), p._cmp_le(st.ub.v.elem(t))))
    check('alpha == min(1, theta*minbr)', a._cmp_eq(core.xmin(1, theta * mb)))
    check('minbr >= 0', lift(0)._cmp_le(mb))
    check('minbr <= br', mb._cmp_le(st.br.v.elem(t)))
    se, xe, le, ue, be = (s.elem(t), st.x.v.elem(t), st.lb.v.elem(t), st.ub.v.elem(t), st.br.v.elem(t))
    check('br of zero entries is infinite', bimp(req(se.val, ZERO), be.pinf))
    check('br of positive entries is the distance to ub', bimp(rlt(ZERO, se.val), be._cmp_eq((ue - xe) / se)))
    check('br of negative entries is the distance to lb', bimp(rlt(se.val, ZERO), be._cmp_eq((le - xe) / se)))
    if isinstance(st.iminbr, SIdx):
        check('iminbr: the entries that attain minbr', biff(st.iminbr.b.elem(t), be._cmp_eq(mb)))
    else:
        check('iminbr: the entries that attain minbr', False)
