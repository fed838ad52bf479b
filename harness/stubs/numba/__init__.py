"""Stand-in for numba (not installable in this sandbox).

Functions run as plain Python.  Three aspects of numba matter to the properties and are kept:

* numpy.random inside jitted code is a generator of its own, separate from numpy's global one;
* ``for i in prange(n)`` at the outermost level of a ``parallel=True`` function is a parallel loop: its
  iterations run on several threads.  Under SCHED.policy != 'off' such loops are turned into generators which a
  seeded scheduler interleaves statement by statement (numba's privatisation rule: a name first assigned
  in the body is private to the iteration, everything else is shared);
* prange anywhere else is range.
"""
import ast
import functools
import inspect
import textwrap

import numpy as _np

from .sched import SCHED, run_parallel  # noqa: F401

__version__ = "0.58.1"

_STATE = {"depth": 0, "rng": _np.random.RandomState(123456789).get_state()}
JITTED = []
KERNELS = []     # number of threads of every parallel kernel that was started


def reset_rng(s):
    """Give jitted code a fresh generator state (a new process)."""
    _STATE["rng"] = _np.random.RandomState(s).get_state()


def _mean(a, *r, **k):
    """np.mean as numba compiles it: one pass.  (Through the C API of PyPy numpy's own is very slow on short arrays.)"""
    if r or k or type(a) is not _np.ndarray or a.ndim != 1 or a.dtype != _np.float64 or not a.shape[0]:
        return _np.mean(a, *r, **k)
    t = 0.0
    for v in a.tolist():
        t += v
    return t / a.shape[0]


def _std(a, *r, **k):
    if r or k or type(a) is not _np.ndarray or a.ndim != 1 or a.dtype != _np.float64 or not a.shape[0]:
        return _np.std(a, *r, **k)
    v = a.tolist()
    t = 0.0
    for x in v:
        t += x
    m = t / len(v)
    t = 0.0
    for x in v:
        t += (x - m) * (x - m)
    return (t / len(v)) ** .5


def _make(func, options):
    func.__nb_options__ = options
    for name, fast in (("mean", _mean), ("std", _std)):
        if func.__globals__.get(name) is getattr(_np, name):
            func.__globals__[name] = fast
    variants = {}

    def pick():
        if SCHED.policy == "off" or not options.get("parallel"):
            return func
        if "par" not in variants:
            variants["par"] = _parallel_variant(func)
        return variants["par"] or func

    @functools.wraps(func)
    def call(*a, **k):
        if _STATE["depth"]:
            return pick()(*a, **k)
        if options.get("parallel"):
            KERNELS.append(_THREADS[0])
        outer = _np.random.get_state()
        _np.random.set_state(_STATE["rng"])
        _STATE["depth"] = 1
        try:
            return pick()(*a, **k)
        finally:
            _STATE["depth"] = 0
            _STATE["rng"] = _np.random.get_state()
            _np.random.set_state(outer)

    call.py_func = func
    call.targetoptions = dict(options)
    JITTED.append(call)
    return call


def jit(*args, **options):
    if args and callable(args[0]):
        return _make(args[0], options)
    return lambda f: _make(f, options)


njit = jit


def vectorize(*args, **options):
    if args and callable(args[0]):
        return _np.vectorize(args[0])
    return lambda f: _np.vectorize(f)


def guvectorize(*args, **options):
    raise NotImplementedError("guvectorize is not provided by the numba stand-in")


def generated_jit(*args, **options):
    raise NotImplementedError("generated_jit is not provided by the numba stand-in")


prange = range
literal_unroll = tuple


def pndindex(*a):
    return _np.ndindex(*a)


class _Config:
    NUMBA_NUM_THREADS = 8
    NUMBA_DEFAULT_NUM_THREADS = 8
    DISABLE_JIT = 0


config = _Config()
_THREADS = [8]


def set_num_threads(n):
    if not isinstance(n, (int, _np.integer)) or isinstance(n, bool):
        raise TypeError("The number of threads specified must be an integer")
    if n < 1 or n > 1024:
        raise ValueError("The number of threads must be between 1 and %d" % config.NUMBA_NUM_THREADS)
    _THREADS[0] = int(n)


def get_num_threads():
    return _THREADS[0]


def get_thread_id():
    return 0


class _Type:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        return a[0] if len(a) == 1 and not isinstance(a[0], _Type) else self

    def __getitem__(self, i):
        return self


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if hasattr(_np, name) and name not in ("array",):
        t = getattr(_np, name)
        if isinstance(t, type):
            return t
    return _Type(name)


# ---------------------------------------------------------------- parallel loops
class _Unsupported(Exception):
    pass


def _is_prange(node):
    if not (isinstance(node, ast.For) and isinstance(node.iter, ast.Call)):
        return False
    f = node.iter.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")


class _BodyRewriter(ast.NodeTransformer):
    """continue -> return at the level of the parallel loop itself; refuse what numba refuses."""

    def __init__(self):
        self.loop = 0

    def visit_For(self, n):
        self.loop += 1
        n = self.generic_visit(n)
        self.loop -= 1
        return n

    visit_While = visit_For

    def visit_Continue(self, n):
        return n if self.loop else ast.copy_location(ast.Return(value=None), n)

    def visit_Break(self, n):
        if not self.loop:
            raise _Unsupported("break")
        return n

    def visit_Return(self, n):
        raise _Unsupported("return")

    def visit_Yield(self, n):
        raise _Unsupported("yield")

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n


def _first_uses(stmts):
    """name -> 'load' or 'store', whichever evaluation order reaches first."""
    first = {}
    comp = set()

    def seen(name, kind):
        if name not in comp:
            first.setdefault(name, kind)

    def walk(n):
        if isinstance(n, ast.Assign):
            walk(n.value)
            for t in n.targets:
                walk(t)
        elif isinstance(n, ast.AugAssign):
            walk(n.value)
            if isinstance(n.target, ast.Name):
                seen(n.target.id, "load")
            else:
                walk(n.target)
        elif isinstance(n, ast.AnnAssign):
            if n.value:
                walk(n.value)
            walk(n.target)
        elif isinstance(n, ast.For):
            walk(n.iter)
            walk(n.target)
            for s in n.body + n.orelse:
                walk(s)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            new = names - comp
            comp.update(new)
            for ch in ast.iter_child_nodes(n):
                walk(ch)
            comp.difference_update(new)
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
            pass
        elif isinstance(n, ast.Name):
            seen(n.id, "store" if isinstance(n.ctx, (ast.Store, ast.Del)) else "load")
        else:
            for ch in ast.iter_child_nodes(n):
                walk(ch)

    for s in stmts:
        walk(s)
    return first


def _stored(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def _with_yields(stmts):
    out = []
    for s in stmts:
        y = ast.Expr(value=ast.Yield(value=None))
        ast.copy_location(y, s)
        out.append(y)
        for field in ("body", "orelse", "finalbody"):
            b = getattr(s, field, None)
            if isinstance(b, list) and b and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, field, _with_yields(b))
        out.append(s)
    return out


class _Loops(ast.NodeTransformer):
    def __init__(self, func_locals):
        self.n = 0
        self.func_locals = func_locals

    def visit_For(self, node):
        if not _is_prange(node):
            return self.generic_visit(node)
        if node.orelse or not isinstance(node.target, ast.Name):
            raise _Unsupported("loop form")
        self.n += 1
        name = "__par_body_%d" % self.n
        rw = _BodyRewriter()
        body = [rw.visit(s) for s in node.body]
        first = _first_uses(body)
        stored = _stored(body)
        shared = sorted(v for v in stored if first.get(v) == "load" and v in self.func_locals and v != node.target.id)
        fbody = _with_yields(body)
        if shared:
            fbody.insert(0, ast.Nonlocal(names=shared))
        fn = ast.FunctionDef(
            name=name,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=node.target.id, annotation=None)], vararg=None,
                               kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
            body=fbody, decorator_list=[], returns=None, type_comment=None)
        call = ast.Expr(value=ast.Call(
            func=ast.Name(id="__run_parallel__", ctx=ast.Load()),
            args=[ast.Name(id=name, ctx=ast.Load())] + list(node.iter.args), keywords=[]))
        return [ast.copy_location(fn, node), ast.copy_location(call, node)]


def _parallel_variant(func):
    """The function with its outermost prange loops handed to the scheduler, or None."""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(func)))
        fd = tree.body[0]
        if not isinstance(fd, ast.FunctionDef):
            return None
        fd.decorator_list = []
        a = fd.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        # names bound in the function outside of its parallel loops, and parameters
        outside = set(params)

        def collect(stmts):
            for s in stmts:
                if _is_prange(s):
                    continue
                if isinstance(s, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
                    for n in ast.iter_child_nodes(s):
                        if not isinstance(n, ast.stmt):
                            for m in ast.walk(n):
                                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                                    outside.add(m.id)
                    for fld in ("body", "orelse", "finalbody"):
                        collect(getattr(s, fld, []) or [])
                else:
                    outside.update(_stored([s]))

        collect(fd.body)
        tr = _Loops(outside)
        fd.body = [x for s in fd.body for x in (lambda r: r if isinstance(r, list) else [r])(tr.visit(s))]
        if not tr.n:
            return None
        ast.fix_missing_locations(tree)
        glb = func.__globals__
        glb["__run_parallel__"] = run_parallel
        ns = {}
        exec(compile(tree, inspect.getsourcefile(func) or "<par>", "exec"), glb, ns)
        SCHED.transformed.add(func.__name__)
        return ns[fd.name]
    except (_Unsupported, OSError, SyntaxError, TypeError) as e:
        SCHED.skipped.add("%s: %s" % (func.__name__, e))
        return None


from .core import types  # noqa: E402,F401
from . import typed  # noqa: E402,F401
