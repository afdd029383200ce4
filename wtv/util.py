"""Helpers shared by the property modules."""
import importlib
import math
import os
import random
import sys

from . import core
from .core import Violation, Skip, Known, Contract, approx
from . import expr as X
from .expr import lift, Unsupported
from . import twin as T
from . import symvec as SV


def real(dotted):
    """Real object of /repo; Skip if it no longer exists under that name."""
    m, _, n = dotted.rpartition('.')
    try:
        mod = importlib.import_module(m)
        return getattr(mod, n)
    except (ImportError, AttributeError):
        raise Skip('no ' + dotted)


def pyf(f):
    return getattr(f, 'py_func', f)


def twin(ctx, **stubs):
    tw = T.Twin()
    SV.install(ctx)
    ctx.tw = tw
    return tw


def R(name, **k):
    return X.var(name, 'Real', **k)


def I(name, **k):
    return X.var(name, 'Int', **k)


def P(val, name=None, frozen=False):
    a = T.PArray(val, name=name)
    a.frozen = frozen
    return a


def edge_uniform(rng, lo, hi, n):
    """position in [lo,hi] in cell units, biased to cell boundaries"""
    k = rng.random()
    if k < .35:
        return rng.uniform(lo, hi)
    if k < .6:
        return float(rng.randint(int(math.ceil(lo)), int(math.floor(hi))))
    if k < .8:
        return rng.choice([lo, hi, lo + 1e-3, hi - 1e-3, 0.5, 1.5,
                           hi - .5, hi - 1, hi - 1.5])
    return rng.uniform(lo - 2, hi + 2)


def no_race(ctx, tw):
    """Loops that accumulate into shared cells must not run in parallel:
    a prange loop inside a function compiled with parallel=True."""
    bad = []
    for key, kind, par in ctx.loops:
        m, q, _ = key.split(':')
        if par and tw.njit.get(m + '.' + q) == 'parallel':
            bad.append(key)
    ctx.prove('accumulating loop is not run in parallel',
              X.boolc(not bad), detail=', '.join(bad))
