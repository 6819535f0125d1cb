"""Loads the real source of fides for verification.

The source text is read from the repository on every run.  Two mechanical transformations are applied to its
syntax tree; nothing is dropped:
  - every while/for statement gets a hook at its head, through which a loop contract can cut it (check the invariant
    on entry, forget what the loop may change, assume the invariant, check it again at the back edge);
  - calls of the names float, int, bool are routed to versions that accept symbolic numbers.
Imports of numpy, scipy, math, logging, time, uuid, h5py and warnings resolve to the models in shim.py.
"""
import ast
import os
import sys
import types
from . import core, shim
from .core import PathEnd, Unsupported

REPO = os.environ.get('VF_REPO', '/repo')
UNROLL = 40


class Poison:
    """value of a variable a loop may have changed and whose contract says nothing about it"""

    def __getattr__(self, a):
        raise Unsupported('use of a variable without a loop invariant')

    def _u(self, *a):
        raise Unsupported('use of a variable without a loop invariant')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __bool__ = __lt__ = __le__ = \
        __gt__ = __ge__ = __eq__ = __ne__ = __iter__ = __getitem__ = __call__ = __neg__ = __len__ = _u
    __setitem__ = __delitem__ = __contains__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = \
        __pow__ = __rpow__ = __matmul__ = __rmatmul__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = \
        __invert__ = __pos__ = __abs__ = __round__ = __float__ = __int__ = __index__ = __enter__ = __next__ = _u
    __hash__ = object.__hash__

    def __setattr__(self, a, v):
        self._u()

    def __format__(self, spec):
        return '?'


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.count = {}
        self.loops = {}

    def q(self):
        return '.'.join([self.mod] + self.stack)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('float', 'int', 'bool'):
            node.func = ast.copy_location(ast.Name('_vf_' + node.func.id, ast.Load()), node.func)
        return node

    def hook(self, node):
        q = self.q()
        k = self.count.get(q, 0)
        self.count[q] = k + 1
        names = sorted(assigned(node))
        setonly = isinstance(node, ast.For) and all(
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)
            and s.value.func.attr == 'add' for s in node.body)
        lid = (q, k)
        self.loops[lid] = (type(node).__name__, names, node.lineno)
        v = f'_vf_l{len(self.loops)}'
        src = f'{v} = _vf_loop({q!r}, {k}, {type(node).__name__!r}, {names!r}, {setonly!r}, locals())\n'
        src += f'if {v}.cut:\n    pass\n'
        for n in names:
            src += f'    if {v}.has({n!r}):\n        {n} = {v}.havoc({n!r})\n'
        # arrays that are changed in place keep their identity
        src += f'    {v}.inplace(locals())\n'
        for n in sorted(changed(node)):
            src += f'    if {v}.lost({n!r}, locals()):\n        {n} = {v}.havoc({n!r})\n'
        return v, ast.parse(src).body

    def visit_While(self, node):
        v, pre = self.hook(node)
        self.generic_visit(node)
        head = ast.parse(f'{v}.head(locals())', mode='eval').body
        node.test = ast.BoolOp(ast.And(), [head, node.test])
        for p in pre:
            ast.copy_location(p, node)
        return pre + [node]

    def visit_For(self, node):
        v, pre = self.hook(node)
        self.generic_visit(node)
        it = ast.parse(f'{v}.iter()', mode='eval').body
        it.args = [node.iter]
        node.iter = it
        return pre + [node]


def assigned(node):
    """names that are bound to new objects"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def changed(node):
    """names of objects with elements that are assigned"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id != 'self':
                out.add(b.id)
    return out - assigned(node)


class LoopContract:
    """the default: no contract (the loop is unrolled; a bound on the number of iterations makes it unsupported)"""
    cut = False

    def __init__(self, env):
        self.env = env

    def entry(self, env):
        """check the invariant on entry (obligations) and return the values of the forgotten variables"""
        return {}

    def guess(self, env, new, cands):
        """further local variables that hold one of the quantities cands (name -> function of the environment): assumed
        here, and the loop is out of reach if they do not keep it (kept); counters from 0 are counted by cands['#']"""
        self.held = {}
        for nm in self.names:
            o = env.get(nm)
            if nm in new or o is None:
                continue
            for cn, f in cands.items():
                if (type(o) is int and o == 0) if cn == '#' else self.is_value(o, f, env):
                    self.held[nm] = f
                    break
        for nm, f in self.held.items():
            new[nm] = f({**env, **new})
        return new

    @staticmethod
    def is_value(o, f, env):
        if isinstance(o, (bool, str)) or not shim.is_scalar(o):
            return False
        try:
            return core.CTX.entails(core.lift(o)._cmp_eq(core.lift(f(env))))
        except Unsupported:
            return False

    def kept(self, env, cands=()):
        for nm, f in self.held.items():
            g = dict(cands).get('#') if f is self.counter else f
            if nm not in env or not self.is_value(env[nm], g, env):
                raise Unsupported(f'variable {nm} in a loop without an invariant')
    counter = None

    def back(self, env):
        """check the invariant at the back edge"""

    def element(self, seq):
        """(may continue, element) for a for-loop"""
        raise Unsupported('iteration over this object')


class Loop:
    def __init__(self, loader, q, k, kind, names, setonly, env):
        cls = loader.contracts.get((q, k)) or loader.contracts.get((q, kind))
        if cls is None and '*' in loader.contracts:
            cls = loader.contracts['*'](q, k, kind)
        self.q, self.k, self.setonly = q, k, setonly
        self.cut = cls is not None
        self.n = 0
        self.names = names
        self.kind = kind
        if self.cut:
            self.c = cls(env)
            self.c.names = names
            self.pre = env
            self.vals = self.c.entry(env)
        loader.loops_seen.add((q, k, self.cut))

    def has(self, n):
        return n in self.vals or n in self.pre

    def havoc(self, n):
        return self.vals.get(n, Poison())

    def inplace(self, env):
        for n, new in self.vals.items():
            old = env.get(n)
            if n not in self.names and isinstance(old, shim.SVec) and isinstance(new, shim.SVec) and old is not new:
                old.v = new.v
        self.arrays = {n: (o, o.v) for n, o in env.items() if isinstance(o, shim.SVec)}

    def lost(self, n, env):
        """the object is changed in the loop: an array of unknown content, nothing is known about other objects"""
        if n not in env:
            return False
        o = env[n]
        if isinstance(o, shim.SVec):
            if n not in self.vals:
                o.v = shim.vec.base_vec('changed', o.dom, False)
                self.arrays[n] = None, o.v
            return False
        return True

    def unchanged(self, env):
        """arrays that the contract does not know were not changed in place"""
        for n, (o, v) in self.arrays.items():
            if o is not None and n not in self.vals and env.get(n) is o and o.v is not v and o.v.key != v.key:
                raise Unsupported(f'array {n} is changed in a loop without an invariant')

    def head(self, env):
        self.n += 1
        if not self.cut:
            if self.n > UNROLL:
                raise Unsupported(f'loop {self.k} of {self.q}: no loop contract')
            return True
        if self.n == 1:
            return True
        self.unchanged(env)
        self.c.back(env)
        raise PathEnd()

    def iter(self, seq):
        if isinstance(seq, shim.SIdx) and self.setonly:
            if bool(shim.vec.red_any(seq.b)):
                yield seq._generic()
            return
        if isinstance(seq, (shim.SymRange, shim.SIdx, shim.SymList)) or hasattr(seq, '_vf_generic'):
            if not self.cut:
                raise Unsupported(f'loop {self.k} of {self.q}: no loop contract')
            more, el = self.c.element(seq)
            if not more:
                return
            yield el
            env = dict(sys._getframe(1).f_locals)
            self.unchanged(env)
            self.c.back(env)
            raise PathEnd()
        for n, e in enumerate(seq):
            if n > 200:
                raise Unsupported('long loop')
            yield e


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.contracts = {}
        self.loops_seen = set()
        self.ext = shim.mk_modules()
        self.mods = {}
        self.sources = {}
        self.loops = {}
        self.bi = shim.mk_builtins(self.imp)
        self.load('')

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = 'fides' + ('.' + name if name else '')
            m = self.load(name)
            if not name:
                for f in fromlist or ():
                    if not hasattr(m, f):
                        self.load(f)
            return m
        if name == 'fides' or name.startswith('fides.'):
            sub = name[6:]
            m = self.load(sub)
            return m if fromlist else self.mods['']
        if name in self.ext:
            m = self.ext[name]
            return m if fromlist else self.ext[name.split('.')[0]]
        if name.split('.')[0] in self.ext:
            raise Unsupported(f'no model of module {name}')
        if name in shim.PASS_MODULES:
            return __import__(name, globals, locals, fromlist, 0)
        raise Unsupported(f'no model of module {name}')

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        full = 'fides' + ('.' + name if name else '')
        path = os.path.join(self.repo, 'fides', (name.replace('.', '/') if name else '__init__') + '.py')
        if not os.path.exists(path):
            raise ImportError(full)
        src = open(path).read()
        self.sources[name or '__init__'] = src
        tree = ast.parse(src, path)
        tr = Transform(name)
        tree = tr.visit(tree)
        ast.fix_missing_locations(tree)
        self.loops.update(tr.loops)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = 'fides'
        m.__dict__['__builtins__'] = self.bi
        m.__dict__['_vf_loop'] = lambda *a: Loop(self, *a)
        m.__dict__['_vf_float'] = shim.c_float
        m.__dict__['_vf_int'] = shim.c_int
        m.__dict__['_vf_bool'] = shim.c_bool
        self.mods[name] = m
        if name:
            setattr(self.mods[''], name, m) if '' in self.mods else None
        exec(compile(tree, path, 'exec'), m.__dict__)
        return m

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return self.load(n)
