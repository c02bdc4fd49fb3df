"""Mechanical extraction of numpy code into a traceable function: asserts are dropped (they become
requires), `np` becomes jax.numpy with contracts for numpy.random; nothing else changes."""
import ast
import inspect
import textwrap
import types

import jax.numpy as jnp
import numpy as np


class _Random:
    def __init__(self):
        self.n = 0

    def _key(self):
        self.n += 1
        return jnp.array([1000 + self.n, 2000 + self.n], dtype="uint32")

    def uniform(self, low=0.0, high=1.0, size=None):
        from . import jx
        return jx._draw("uniform", self._key(), [jnp.asarray(low, "float32"), jnp.asarray(high, "float32")],
                        _sz(size, low, high), np.dtype("float32"))

    def normal(self, loc=0.0, scale=1.0, size=None):
        from . import jx
        z = jx._draw("normal", self._key(), [], _sz(size, loc, scale), np.dtype("float32"))
        return z * scale + loc

    def rand(self, *size):
        return self.uniform(size=size or None)

    def __getattr__(self, n):
        from .jx import Unsupported
        raise Unsupported("numpy.random.%s" % n)


def _sz(size, *p):
    if size is None:
        return jnp.broadcast_shapes(*[jnp.shape(x) for x in p])
    return tuple(size) if isinstance(size, (tuple, list)) else (size,)


class NP:
    """numpy replaced by jax.numpy"""

    def __init__(self):
        self.random = _Random()

    def __getattr__(self, n):
        if n in ("pi", "inf", "nan", "newaxis", "float32", "int32"):
            return getattr(np, n)
        return getattr(jnp, n)


class _Drop(ast.NodeTransformer):
    def visit_Assert(self, n):
        return ast.copy_location(ast.Pass(), n)

    def visit_FunctionDef(self, n):
        n.decorator_list = []
        self.generic_visit(n)
        return n


def extract(fn, **extra):
    fn = inspect.unwrap(fn)
    src = textwrap.dedent(inspect.getsource(fn))
    tree = _Drop().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    g = dict(fn.__globals__)
    npx = NP()
    for k, v in list(g.items()):
        if v is np:
            g[k] = npx
    g.update(extra)
    ns = {}
    exec(compile(tree, "<extracted %s>" % fn.__qualname__, "exec"), g, ns)
    f = ns[fn.__name__]
    return types.FunctionType(f.__code__, g, f.__name__, fn.__defaults__, f.__closure__)
