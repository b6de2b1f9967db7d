import jax.numpy as jnp
import numpy as np
from scipy import special

from . import lik
from .lik import A, O

RULE = ("random and hostile importance weights (log-normal, equal, dominated by one sample, sparse with zero weights; log offsets to +-2000; few to thousands of samples; totals to 1e9, integer and float), linear and log inputs; "
        "non-trivial = every estimate compared with float64 log-sum-exp formulas, plus permutation and scaling relations between real outputs")
ASSUMPTIONS = ["weights whose squares are representable in the working precision (linear mode)", "not all injections found with equal weights (the variance would be exactly zero)", "at least one positive weight per integral"]


def eshape(rec):
    """events by samples: common sizes, any small size (fewer samples than events, one of either, square), and long or wide ones"""
    r = rec.rng
    k = r.random()
    if k < 0.4:
        return [(1, 7), (3, 50), (6, 200), (4, 1)][r.integers(4)]
    if k < 0.8:
        a = int(r.integers(1, 25))
        return (a, a if r.random() < 0.3 else int(r.integers(1, 40)))
    return (int(r.integers(1, 100)), int(r.integers(100, 1500))) if k < 0.95 else (int(r.integers(1, 4)), int(r.integers(3000, 12000)))


def isize(rec):
    r = rec.rng
    k = r.random()
    return int(r.choice([5, 100, 2000])) if k < 0.5 else int(r.integers(2, 400)) if k < 0.9 else int(r.integers(2000, 60000))


def event_ref(rec, back, log):
    n = back.shape[1]
    bf, le, var = O.event_estimates(back)
    t = lik.lw_tol(rec, back, log, n)
    return bf, le, var, t, 3 * t * np.exp(-le) + 4 * rec.eps / n


def events(rec):
    rng = rec.rng
    sh = eshape(rec)
    log = bool(rng.random() < 0.5)
    off = float(rng.choice([0, 0, -300, 1500, -2000])) if log else float(rng.choice([0, 0, -12, 12]))
    per = rng.normal(0, 3, (sh[0], 1))
    lw, style = lik.weights(rec, sh, offset=off)
    x, back = lik.as_input(rec, lw + per, log)
    rec.note(shape=sh, log=log, off=off, style=style)
    out = [np.asarray(v) for v in rec.call(A.per_event_log_bayes_factors, jnp.asarray(x), log=log)]
    bf, le, var, t, tv = event_ref(rec, back, log)
    rec.close(out[0], bf, "per-event log evidence", 0, t)
    rec.close(out[1], le, "per-event log effective samples", 0, 3 * t)
    rec.close(out[2], var, "per-event variance", 0, tv)
    rec.ev("events", sh[0])
    # samples and events in another order
    p, e = rng.permutation(sh[1]), rng.permutation(sh[0])
    o2 = [np.asarray(v) for v in rec.call(A.per_event_log_bayes_factors, jnp.asarray(x[e][:, p]), log=log)]
    for a, b, w, tt in zip(o2, out, ("log evidence", "log effective samples", "variance"), (t, 3 * t, tv)):
        rec.close(a, b[e], f"{w} after reordering samples and events", 0, 2 * (tt[e] if np.ndim(tt) else tt))
    # constant factor
    c = float(rec.ft(rng.choice([np.log(2.0), 3.0, -2.5])))
    y, back3 = lik.as_input(rec, back + c, log)
    o3 = [np.asarray(v) for v in rec.call(A.per_event_log_bayes_factors, jnp.asarray(y), log=log)]
    t3 = t + lik.lw_tol(rec, back3, log, sh[1]) + 4 * rec.eps * (1 + np.abs(back[np.isfinite(back)]).max())
    rec.close(o3[0], out[0].astype(float) + c, "log evidence shifts by the log of a common factor", 0, 2 * t3)
    rec.close(o3[1], out[1], "effective samples unchanged by a common factor", 0, 8 * t3)
    rec.close(o3[2], out[2], "variance unchanged by a common factor", 0, 8 * t3 * np.exp(-le) + 8 * rec.eps / sh[1])
    # one event at a time
    j = int(rng.integers(sh[0]))
    o4 = rec.call(A.per_event_log_bayes_factors, jnp.asarray(x[j : j + 1]), log=log)
    rec.close(np.asarray(o4[0])[0], out[0][j], "an event's evidence does not depend on the other events", 0, 2 * t)


def linlog(rec):
    rng = rec.rng
    sh = eshape(rec)
    lw, style = lik.weights(rec, sh, offset=float(rng.choice([0, -8, 8])))
    x, back = lik.as_input(rec, lw, False)
    with np.errstate(divide="ignore"):
        l = rec.arr(back)
    rec.note(shape=sh, style=style)
    a = rec.call(A.per_event_log_bayes_factors, jnp.asarray(x), log=False)
    b = rec.call(A.per_event_log_bayes_factors, jnp.asarray(l), log=True)
    t = lik.lw_tol(rec, back, True, sh[1])
    le = O.event_estimates(back)[1]
    for u, v, w, tt in zip(a, b, ("log evidence", "log effective samples", "variance"), (2 * t, 5 * t, 6 * t * np.exp(-le) + 8 * rec.eps / sh[1])):
        rec.close(np.asarray(u), np.asarray(v), f"{w}: linear and log weights agree", 0, tt)
    n = isize(rec)
    N = n * int(rng.choice([2, 50, 3000]))
    lw, style = lik.weights(rec, (n,), offset=float(rng.choice([0, -5, 8])))
    x, back = lik.as_input(rec, lw, False)
    with np.errstate(divide="ignore"):
        l = rec.arr(back)
    a = rec.call(A.detection_efficiency, jnp.asarray(x), N)
    b = rec.call(A.detection_efficiency, jnp.asarray(l), N, log=True)
    mu, le, rel = O.selection_estimates(back, N)
    t = lik.lw_tol(rec, back, True, n)
    amp = 1 + 1 / (N * rel)
    for u, v, w, tt in zip(a, b, ("log efficiency", "log effective injections", "relative variance"), (2 * t, 6 * t * amp, 8 * t * amp * rel)):
        rec.close(np.asarray(u), np.asarray(v), f"{w}: linear and log weights agree", 0, tt)


def efficiency(rec):
    rng = rec.rng
    n = isize(rec)
    log = bool(rng.random() < 0.5)
    f = float(rng.choice([1.5, 2.0, 40, 3000, 1e5]))
    N = min(int(n * f) + int(rng.integers(1, 5)), 1000000000)
    off = float(rng.choice([0, 0, -300, 1500, -2000])) if log else float(rng.choice([0, 0, 8, -4]))
    lw, style = lik.weights(rec, (n,), offset=off)
    x, back = lik.as_input(rec, lw, log)
    kind = str(rng.choice(["int", "float", "np.int64", "jnp"]))
    Nin = {"int": N, "float": float(N), "np.int64": np.int64(N), "jnp": jnp.asarray(N)}[kind]
    Nf = float(rec.ft(N)) if kind == "float" else float(N)
    rec.note(n=n, N=N, log=log, off=off, style=style, total=kind)
    out = [np.asarray(v) for v in rec.call(A.detection_efficiency, jnp.asarray(x), Nin, log=log)]
    mu, le, rel = O.selection_estimates(back, Nf)
    t = lik.lw_tol(rec, back, log, n) + 4 * rec.eps * np.log(N)
    amp = 1 + 1 / (Nf * rel)
    rec.close(out[0], mu, "log detection efficiency", 0, t)
    rec.close(out[1], le, "log effective number of injections", 0, 4 * t * amp)
    rec.close(out[2], rel, "relative variance of the detection efficiency", 5 * t * amp)
    rec.true([o.shape == () for o in out], "one number per estimate")
    rec.ev("injections", n)
    p = rng.permutation(n)
    o2 = [np.asarray(v) for v in rec.call(A.detection_efficiency, jnp.asarray(x[p]), Nin, log=log)]
    for a, b, w, tt in zip(o2, out, ("efficiency", "effective injections", "variance"), (t, 4 * t * amp, 5 * t * amp * rel)):
        rec.close(a, b, f"{w} after reordering the injections", 0, 2 * tt)
    c = float(rec.ft(rng.choice([np.log(2.0), 3.0, -2.5])))
    y, back3 = lik.as_input(rec, back + c, log)
    o3 = [np.asarray(v) for v in rec.call(A.detection_efficiency, jnp.asarray(y), Nin, log=log)]
    t3 = t + 12 * rec.eps * (1 + np.abs(back[np.isfinite(back)]).max())
    rec.close(o3[0], out[0].astype(float) + c, "efficiency scales with a common factor", 0, 3 * t3)
    rec.close(o3[1], out[1], "effective injections unchanged by a common factor", 0, 12 * t3 * amp)
    # missed injections enter only through the total
    if not log:
        z = rec.arr(np.concatenate([x, np.zeros(3)]))
        o4 = rec.call(A.detection_efficiency, jnp.asarray(z), Nin, log=False)
        rec.close(np.asarray(o4[0]), out[0], "injections of zero weight change nothing", 0, 2 * t)
        rec.close(np.asarray(o4[1]), out[1], "injections of zero weight change no effective number", 0, 8 * t * amp)


KINDS = {"events": (events, 80, 2400), "linlog": (linlog, 60, 1600), "efficiency": (efficiency, 80, 2400)}
