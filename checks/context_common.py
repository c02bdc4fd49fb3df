"""Symbolic set-up for appletree.context.Context."""
import io
import contextlib
import warnings

import z3

from vc import pysym as P
from vc.util import repo_fn

N, R, B, I = P.Name, z3.RealSort(), z3.BoolSort(), z3.IntSort()
OPQ = P.Opq


def mod():
    return __import__("appletree.context", fromlist=["x"])


def cls():
    return mod().Context


def par_cls():
    return repo_fn("appletree.parameter", "Parameter")


class Quiet:
    """silence prints and warnings of real runs"""

    def __enter__(self):
        self.c = contextlib.redirect_stdout(io.StringIO())
        self.c.__enter__()
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        self.w.__exit__(*a)
        self.c.__exit__(*a)


_REAL = {}


def real_context():
    if "c" not in _REAL:
        with Quiet():
            _REAL["c"] = cls()(dict(likelihoods={}, configs={}, par_config={}), par_config={
                "vc_a": dict(prior_type="uniform", prior_args=dict(lower=0, upper=1), allowed_range=[0, 1], init_mean=0.5, init_std=0.1, unit="1", doc="")})
    return _REAL["c"]


def instance(it, likelihoods, par_manager, over=None):
    """a Context with the given collection of likelihoods and parameter store"""
    c = real_context()
    attrs = {}
    found = False
    for a, v in vars(c).items():
        if a == "likelihoods":
            attrs[a] = likelihoods
        elif isinstance(v, par_cls()):
            attrs[a] = par_manager
            found = True
        else:
            attrs[a] = v
    attrs.update(over or {})
    if not found:
        raise P.Unsupported("Context keeps no parameter store")
    return it.run.cell(P.Inst(cls(), attrs))


class Clock:
    def is_none(self, it, o):
        return False

    def getattr(self, it, o, name):
        return P.Contract(lambda it, a, k: P.Text(), name)


def contracts():
    import datetime
    now = lambda it, a, k: P.SObj(Clock(), z3.Const("now", OPQ))  # noqa: E731
    return {warnings.warn: lambda it, a, k: None, datetime.datetime.now: now}
