"""Verification tasks: run one function of the real code symbolically, collect its obligations, discharge them."""
import os
import time
import traceback
import z3
from . import core
from .core import Unsupported

TASKS = {}


class Task:
    def __init__(self, name, fn, props, functions, assumptions=(), opts=None):
        self.name, self.fn, self.props, self.functions = name, fn, props, functions
        self.assumptions, self.opts = list(assumptions), opts or {}


def task(props, functions, assumptions=(), **opts):
    def d(fn):
        t = Task(fn.__name__, fn, props if isinstance(props, (list, tuple)) else [props], list(functions),
                 assumptions, opts)
        TASKS[t.name] = t
        return fn
    return d


def solve(asserts, goal, budget):
    """(status, backend, seconds, model): is goal valid under asserts?"""
    t0 = time.time()
    if z3.is_and(goal):
        worst = 'proved', 'simplifier'
        for g in goal.children():
            st, name, _, txt = solve(asserts, g, budget)
            if st == 'refuted':
                return st, name, time.time() - t0, txt
            if worst[0] == 'proved':
                worst = st, name
        return (*worst, time.time() - t0, None)
    neg = z3.Not(goal)
    for name, mk, ms in stages(budget):
        try:
            s = mk()
            s.set('timeout', ms)
            s.add(asserts)
            s.add(neg)
            r = s.check()
        except z3.Z3Exception as e:
            continue
        if r == z3.unsat:
            return 'proved', name, time.time() - t0, None
        if r == z3.sat:
            try:
                m = s.model()
                txt = model_text(m)
            except z3.Z3Exception:
                txt = ''
            return 'refuted', name, time.time() - t0, txt
    return 'unknown', 'z3', time.time() - t0, None


def stages(budget):
    """back ends with their time limits: all of them for a short time first, since either may be stuck"""
    for share in (.05, 1):
        yield 'z3', z3.Solver, int(budget * share * 300)
        yield 'z3-nlsat', lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith',
                                          'elim-term-ite', 'simplify', 'smt').solver(), int(budget * share * 300)
        yield 'z3-qfnra', lambda: z3.SolverFor('QF_NRA'), int(budget * share * 600)


def model_text(m):
    out = []
    for d in m.decls():
        n = d.name()
        v = m[d]
        out.append(f'{n} = {v}')
    return '; '.join(sorted(out))[:4000]


def run_task(t, budget=None, tlimit=600):
    """results as plain data"""
    budget = budget or t.opts.get('budget', 10)
    budget *= core.load()
    t0 = time.time()
    from . import shim
    from .contracts import common
    shim.USED.clear()
    if common._loader is not None:
        common._loader.contracts = {}
    res = {'task': t.name, 'functions': t.functions, 'assumptions': t.assumptions, 'obs': [], 'unsupported': [],
           'paths': 0, 'reachable': 0, 'explore_s': 0}
    opts = dict(t.opts)
    opts.setdefault('max_s', tlimit * 0.6)
    try:
        paths = core.explore(t.fn, opts)
    except Unsupported as e:
        res['unsupported'].append(f'{e} ({core.where(e)})')
        res['wall'] = time.time() - t0
        return res
    except Exception as e:
        res['unsupported'].append('engine: ' + ''.join(traceback.format_exception(e))[-1500:])
        res['wall'] = time.time() - t0
        return res
    res['explore_s'] = time.time() - t0
    res['paths'] = len(paths)
    for c in paths:
        if c.outcome == 'unsupported':
            if c.solver.check() != z3.unsat:
                res['unsupported'].append(c.note)
    seen = {}
    reach_tried = 0
    for c in paths:
        if c.outcome in ('end', 'cut') and res['reachable'] < 2 and reach_tried < 20:
            reach_tried += 1
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(c.asserts)
            if s.check() != z3.unsat:
                res['reachable'] += 1
        for ob in c.obs:
            if ob.goal is True:
                res['obs'].append({'name': ob.name, 'status': 'proved', 'backend': 'structural', 's': 0})
                continue
            if isinstance(ob.goal, list):
                tot, st = 0, 'unknown'
                # the right one of the alternatives is usually easy, the others can be hard
                for share in (.1, 1):
                    for g in ob.goal:
                        st, be, secs, model = solve(ob.asserts, g, budget * share)
                        tot += secs
                        if st == 'proved':
                            break
                    if st == 'proved':
                        break
                res['obs'].append({'name': ob.name, 'status': st if st == 'proved' else 'unknown', 'backend': be,
                                   's': round(tot, 3)})
                continue
            g = z3.simplify(ob.goal)
            if z3.is_true(g):
                res['obs'].append({'name': ob.name, 'status': 'proved', 'backend': 'simplifier', 's': 0})
                continue
            if time.time() - t0 > tlimit:
                res['obs'].append({'name': ob.name, 'status': 'unknown', 'backend': 'none', 's': 0})
                continue
            st, be, secs, model = solve(ob.asserts, ob.goal, budget)
            o = {'name': ob.name, 'status': st, 'backend': be, 's': round(secs, 3)}
            if model:
                o['model'] = model
                o['path'] = ''.join('T' if d else 'F' for d, _ in (ob.path or []))
            res['obs'].append(o)
    res['wall'] = time.time() - t0
    res['trusted'] = sorted(shim.USED)
    return res
