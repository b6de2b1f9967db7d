"""Shared generators of the likelihood properties."""
import jax
import jax.numpy as jnp
import numpy as np
import numpyro
from numpyro import handlers

from gwinferno.pipeline import analysis as A

from .. import oracles as O

STYLES = ["lognormal", "equal", "dominated", "sparse", "gamma"]


def weights(rec, shape, style=None, offset=0.0):
    """log weights (float64) of a Monte Carlo integral; zero weights are -inf"""
    rng = rec.rng
    style = style or str(rng.choice(STYLES))
    if style == "lognormal":
        lw = rng.normal(0, float(rng.choice([0.3, 1.0, 2.5])), shape)
    elif style == "equal":
        lw = np.zeros(shape) + 0.01 * rng.normal(size=shape)
    elif style == "dominated":
        lw = rng.normal(0, 0.5, shape) - 4
        lw[..., rng.integers(shape[-1])] += 8
    elif style == "sparse":
        lw = rng.normal(0, 1, shape)
        z = rng.random(shape) < 0.4
        z[..., rng.integers(shape[-1])] = False
        lw = np.where(z, -np.inf, lw)
    else:
        lw = np.log(rng.gamma(0.7, 1, shape) + 1e-6)
    return lw + offset, style


def as_input(rec, lw, log):
    """what is handed to the code (working precision) and the float64 log weights it stands for"""
    with np.errstate(divide="ignore"):
        x = rec.arr(lw) if log else rec.arr(np.exp(lw))
        back = x.astype(float) if log else np.log(x.astype(float))
    return x, back


def lw_tol(rec, lw, log, n):
    """absolute error of log-sum-exp style sums of these weights"""
    m = np.abs(lw[np.isfinite(lw)]).max() if np.isfinite(lw).any() else 0
    return rec.eps * (20 + 2 * np.sqrt(n) + (8 * m if log else 4 * 0))


def run(fn, seed=0, data=None):
    """trace of a model calling the real likelihood"""
    m = handlers.seed(fn, rng_seed=seed)
    if data:
        m = handlers.substitute(m, data=data)
    return handlers.trace(m).get_trace()


def factors(tr):
    return {k: s for k, s in tr.items() if s["type"] == "sample" and type(s["fn"]).__name__ in ("Unit", "Delta")}


def factor_value(site):
    return np.asarray(site["fn"].log_prob(site["value"]))


LOWEST = {False: float(np.finfo(np.float32).min), True: float(np.finfo(np.float64).min)}


def is_lowest(rec, v):
    v = float(np.asarray(v))
    return v <= LOWEST[rec.x64] * (1 - 1e-6)


def val(tr, name):
    return np.asarray(tr[name]["value"])


__all__ = [n for n in dir() if not n.startswith("_")]
